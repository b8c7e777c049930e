"""P22: the planar constrained Delaunay triangulation.

The only thing the triangulation can see of its input is the sign vector of the
orientation and in-circle predicates and the order of the coordinates: coordinates
are opaque here and any other use of them is an error.  So it is interpreted once per
sign vector (an abstract state standing for all inputs with these signs); the sign
vectors are those of small integer configurations, degenerate ones included."""
import itertools
from fractions import Fraction
import interp as _I
from interp import Interp, Agg, Ref, Slice, VecV, Unsupported, REL
from vg import N, identical
import builtins_model as bm


def orient(a, b, c):
    return (a[0] - c[0]) * (b[1] - c[1]) - (a[1] - c[1]) * (b[0] - c[0])


def incircle(a, b, c, d):
    m = [(p[0] - d[0], p[1] - d[1]) for p in (a, b, c)]
    l = [x * x + y * y for x, y in m]
    return (l[0] * (m[1][0] * m[2][1] - m[2][0] * m[1][1]) - l[1] * (m[0][0] * m[2][1] - m[2][0] * m[0][1]) + l[2] * (m[0][0] * m[1][1] - m[1][0] * m[0][1]))


def sg(x):
    return (x > 0) - (x < 0)


def signature(P):
    P = sorted(P)
    xs = [sg(p[0] - q[0]) for p, q in zip(P, P[1:])]
    ys = [sg(P[i][1] - P[j][1]) for i, j in itertools.combinations(range(len(P)), 2)]
    o = [sg(orient(*t)) for t in itertools.combinations(P, 3)]
    c = [sg(incircle(*t)) for t in itertools.combinations(P, 4)]
    return tuple(xs), tuple(ys), tuple(o), tuple(c)


def on_segment(p, a, b):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def subdivide(P, a, b):
    """a -> b cut at the points lying on it"""
    d = lambda k: abs(P[k][0] - P[a][0]) + abs(P[k][1] - P[a][1])
    on = sorted((k for k in range(len(P)) if on_segment(P[k], P[a], P[b])), key=d)
    return list(zip(on, on[1:]))


def hull(P):
    """directed boundary edges of the convex hull, cut at every point on it (counter-clockwise)"""
    out = set()
    for a, b in itertools.permutations(range(len(P)), 2):
        if all(orient(P[a], P[b], P[c]) >= 0 for c in range(len(P)) if c not in (a, b)) and not any(c not in (a, b) and on_segment(P[c], P[a], P[b]) for c in range(len(P))):
            if any(orient(P[a], P[b], P[c]) > 0 for c in range(len(P))):
                out.add((a, b))
    return out


def cross(a, b, c, d):
    """do the closed segments ab and cd share a point"""
    return (orient(a, b, c) == 0 and on_segment(c, a, b)) or on_segment(d, a, b) or on_segment(a, c, d) or on_segment(b, c, d) or \
        (sg(orient(a, b, c)) * sg(orient(a, b, d)) < 0 and sg(orient(c, d, a)) * sg(orient(c, d, b)) < 0)


def simple(P, poly):
    n = len(poly)
    E = [(poly[i], poly[(i + 1) % n]) for i in range(n)]
    for (i, e), (j, f) in itertools.combinations(enumerate(E), 2):
        sh = set(e) & set(f)
        if not sh:
            if cross(P[e[0]], P[e[1]], P[f[0]], P[f[1]]):
                return False
        else:
            s = sh.pop()
            u, v = (set(e) - {s}).pop(), (set(f) - {s}).pop()
            if u == v or on_segment(P[u], P[s], P[v]) or on_segment(P[v], P[s], P[u]):
                return False
    return True


def area2(P, poly):
    return sum(P[a][0] * P[b][1] - P[b][0] * P[a][1] for a, b in zip(poly, list(poly[1:]) + [poly[0]]))


class TriInterp(Interp):
    MAX_STEPS = 2000000

    def __init__(self, prog):
        super().__init__(prog)
        for m in ("predicates::predicates::", "predicates::"):
            self.summaries[m + "orient2d"] = self.o2
            self.summaries[m + "incircle"] = self.inc

    def load(self, P, flip):
        self.P, self.flip = P, flip
        self.pts = []
        self.val = {}
        for i, p in enumerate(P):
            for k in (0, 1):
                v = self.g.leaf("p%d.%s" % (i, "xy"[k]))
                self.val[v.id] = (k, p[k], i)
                self.pts.append(v)

    def compare(self, op, a, b):
        va = self.val.get(a.id) if isinstance(a, N) else None
        vb = self.val.get(b.id) if isinstance(b, N) else None
        if isinstance(a, N) or isinstance(b, N):
            if va is None or vb is None or va[0] != vb[0]:
                raise Unsupported("coordinates are used other than in a predicate or a comparison on one axis")
            return {-1: "<", 0: "=", 1: ">"}[sg(va[1] - vb[1])] in REL[op]
        return super().compare(op, a, b)

    def index(self, s):
        s = bm.as_slice(self, s)
        if s is None or not isinstance(s.n, int):
            raise Unsupported("a predicate is called on coordinates that are not a point of the input")
        if s.n < 2:
            raise _I.PathPanic("a predicate is given fewer than two coordinates")
        v = [self.val.get(x.id) if isinstance(x, N) else None for x in (_I.Ref(s.c, s.start + k).get() for k in (0, 1))]
        if v[0] is None or v[1] is None or (v[0][0], v[1][0]) != (0, 1) or v[0][2] != v[1][2]:
            raise Unsupported("a predicate is called on coordinates that are not a point of the input")
        return self.P[v[0][2]]

    def o2(self, I, a, info):
        return float(sg(orient(*[self.index(x) for x in a[:3]])))

    def inc(self, I, a, info):
        p = [self.index(x) for x in a[:4]]
        return float(sg(incircle(*p)))


def judge(P, tris, polys, kept_all):
    """None or (key, message); polys: constraint polygons (index lists)"""
    n = len(P)
    if any(not isinstance(v, int) or not 0 <= v < n for t in tris for v in t):
        return "index", "a triangle has the vertices %r" % [t for t in tris if any(not isinstance(v, int) or not 0 <= v < n for v in t)][0]
    de = set()
    area = 0
    for t in tris:
        a = orient(*[P[v] for v in t])
        if a <= 0:
            return "inverted", "triangle %r is %s" % (t, "degenerate" if a == 0 else "clockwise")
        area += a
        for e in zip(t, t[1:] + t[:1]):
            if e in de:
                return "overlap", "the directed edge %r occurs twice" % (e,)
            de.add(e)
        for k in range(n):
            if k not in t and all(orient(P[u], P[v], P[k]) >= 0 for u, v in zip(t, t[1:] + t[:1])):
                return "point", "triangle %r contains the point %d" % (t, k)
    cons = set()
    want = set()
    target = 0
    for q in polys:
        for a, b in zip(q, list(q[1:]) + [q[0]]):
            for e in subdivide(P, a, b):
                cons |= {e, e[::-1]}
                want.add(e)
        target += area2(P, q)
    if kept_all or target < 0:
        h = hull(P)
        # an edge of the hull that is also a clockwise boundary bounds nothing
        want = {e for e in want if e[::-1] not in h} | {e for e in h if e[::-1] not in want}
        full = 0
        hh = dict(hull(P))
        if hh:
            s = next(iter(hh))
            cyc, k = [s], hh[s]
            while k != s:
                cyc.append(k)
                k = hh[k]
            full = area2(P, cyc)
        target += full
    got = {e for e in de if e[::-1] not in de}
    if got != want:
        return "boundary", "the boundary is %s, expected %s" % (sorted(got), sorted(want))
    if area != target:
        return "area", "the triangles cover an area of %s, expected %s" % (Fraction(area, 2), Fraction(target, 2))
    opp = {}
    for t in tris:
        for i in range(3):
            opp[(t[i], t[(i + 1) % 3])] = t[(i + 2) % 3]
    for (a, b), c in opp.items():
        d = opp.get((b, a))
        if d is not None and (a, b) not in cons and incircle(P[a], P[b], P[c], P[d]) > 0:
            return "delaunay", "the edge %r is not Delaunay" % ((a, b),)
    return None


def polygons(P, rng, k):
    """up to k lists of constraint polygons"""
    n = len(P)
    out = []
    cand = []
    for m in range(3, n + 1):
        for sub in itertools.combinations(range(n), m):
            cand.append(sub)
    for i in range(len(cand)):
        j = (i * 7919 + rng) % len(cand)
        if len(out) >= k:
            break
        sub = cand[j]
        perms = list(itertools.permutations(sub[1:])) if len(sub) <= 6 else [sub[1:]]
        for q in range(min(len(perms), 40)):
            poly = (sub[0],) + tuple(perms[(q * 17 + rng) % len(perms)])
            if area2(P, poly) and simple(P, poly):
                if area2(P, poly) < 0:
                    poly = poly[::-1]
                if (i + rng) % 4 == 3:
                    poly = poly[::-1]
                out.append([list(poly)])
                break
    return out


def configs(n, grid, count, seed):
    """configurations with different sign vectors"""
    cells = [(x, y) for x in range(grid[0]) for y in range(grid[1])]
    out, seen = [], set()

    def add(c):
        s = signature(c)
        if s not in seen:
            seen.add(s)
            out.append(list(c))
    import math
    total = math.comb(len(cells), n)
    if total <= count:
        for c in itertools.combinations(cells, n):
            add(c)
        return out
    x = seed * 2654435761 + 12345
    tries = 0
    while len(out) < count and tries < 30 * count:
        tries += 1
        pool = list(cells)
        c = []
        for _ in range(n):
            x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
            c.append(pool.pop((x >> 33) % len(pool)))
        add(c)
    return out


def order(P, k):
    """input order of the points"""
    n = len(P)
    x = k * 40503 + 7
    P = list(P)
    for i in range(n - 1, 0, -1):
        x = (x * 1103515245 + 12345) % (1 << 31)
        j = (x >> 8) % (i + 1)
        P[i], P[j] = P[j], P[i]
    return P


def job(ctx, cfgs, npoly, off):
    prog = ctx.prog
    fn = prog.by_call.get("triangle::triangle::triangulate")
    if fn is None:
        raise Unsupported("triangulate not found")
    I = TriInterp(prog)
    bad = 0
    for k, P in cfgs:
        P = order(P, k)
        for polys in [None] + polygons(P, k, npoly):
            segs = [v for q in polys or [] for a, b in zip(q, q[1:] + q[:1]) for v in (a, b)]
            I.load(P, (k + len(segs)) % 2)

            def run():
                sv = VecV(list(segs))
                r = I.run(fn, [Slice(I.pts, 0, len(I.pts)), Slice(sv.f, 0, len(segs), sv), Agg("bump", None, [])], {})
                return list(r.f)
            name = "points %s%s" % (P, "" if polys is None else " with boundary %s" % polys)
            res = list(I.explore(run))
            if len(res) != 1:
                raise Unsupported("the triangulation takes a decision that the signs of the predicates do not determine")
            (st, r), _ = res[0]
            ctx.count("sign vectors" if polys is None else "constrained classes")
            if st == "panic":
                m = ("panic", "panics: %s" % r)
            elif len(r) % 3:
                m = ("length", "the result has %d entries" % len(r))
            else:
                m = judge(P, [tuple(r[i:i + 3]) for i in range(0, len(r), 3)], polys or [], polys is None)
            ctx.ob(m is None, "triangulate:%s" % (m[0] if m else ""), "%s: %s" % (name, m[1] if m else ""), {"class": name} if ctx.obligations % 60 == 0 else None)
            bad += m is not None
        if bad > 5:
            break
    ctx.saw(I.called)


def check_polygon(ctx):
    """triangulate_polygon(_soup): planar coordinates in the given frame, answers in the original indices"""
    prog = ctx.prog
    fn, soup = prog.by_call.get("triangle::triangle::triangulate_polygon"), prog.by_call.get("triangle::triangle::triangulate_polygon_soup")
    if fn is None or soup is None:
        raise Unsupported("triangulate_polygon / triangulate_polygon_soup not found")
    I = Interp(prog)
    calls = []

    def planar(I_, a, info):
        pts, segs = bm.slice_vals(I, bm.as_slice(I, a[0])), bm.slice_vals(I, bm.as_slice(I, a[1]))
        calls.append((list(pts), list(segs)))
        n = len(pts) // 2
        return VecV([v for i in range(n - 2) for v in (i, i + 1, i + 2)])
    I.summaries["triangle::triangle::triangulate"] = planar

    def one(segs, npts, pts, o, x, y, k):
        """expected result of the k-th call; None or message"""
        if k >= len(calls):
            return None, "the polygon is not triangulated"
        p2, s2 = calls[k]
        used = sorted(set(segs))
        if len(p2) != 2 * len(used) or len(s2) != len(segs) or not all(isinstance(i, int) and 0 <= i < len(used) for i in s2):
            return None, "%d points and the segments %s are triangulated, for the segments %s" % (len(p2) // 2, s2, segs)
        back = {}
        for g, l in zip(segs, s2):
            if back.setdefault(l, g) != g:
                return None, "the points %d and %d become one" % (g, back[l])
        if len(set(back.values())) != len(used):
            return None, "a point occurs twice"
        for l, g in back.items():
            for c, ax in ((0, x), (1, y)):
                w = 0
                for d in range(3):
                    t = I.g.mul(I.g.sub(pts[3 * g + d], o[d]), ax[d])
                    w = t if d == 0 else I.g.add(w, t)
                if not identical(p2[2 * l + c], w, "ideal"):
                    return None, "coordinate %d of point %d is not its coordinate in the given frame" % (c, g)
        return [back[v] for i in range(len(used) - 2) for v in (i, i + 1, i + 2)], None
    mk = lambda nm, n: [I.g.leaf("%s%d" % (nm, i)) for i in range(n)]
    pts = mk("p", 21)
    lists = ([4, 1, 1, 6, 6, 4], [0, 3, 3, 5, 5, 2, 2, 0], [6, 5, 5, 0, 0, 6, 5, 1, 1, 0], [2, 2, 2, 4, 4, 3, 3, 2])
    sl = lambda v: Slice(v, 0, len(v))
    for segs in lists:
        o, x, y = mk("o", 3), mk("x", 3), mk("y", 3)

        def run():
            del calls[:]
            return list(I.run(fn, [sl(pts), sl(list(segs)), sl(o), sl(x), sl(y), Agg("bump", None, [])], {}).f)
        for (st, r), _ in I.explore(run):
            want, msg = one(segs, 7, pts, o, x, y, 0)
            if msg is None and (st == "panic" or r != want):
                msg = "panics: %s" % r if st == "panic" else "the result is %s, expected %s" % (r, want)
            ctx.ob(msg is None, "triangulate_polygon", "segments %s: %s" % (segs, msg), {"segments": segs})
            ctx.count("polygons")
    for k in range(4):
        use = [list(v) for v in lists[:k]]
        ax = mk("a", 9 * k)

        def run():
            del calls[:]
            ev = VecV([VecV(list(v)) for v in use])
            r = I.run(soup, [sl(pts), Slice(ev.f, 0, k, ev), sl(ax)], {})
            return list(r.f[0].f), list(r.f[1].f)
        for (st, r), _ in I.explore(run):
            tw, pw, msg = [], [], None
            for i, segs in enumerate(use):
                w, m = one(segs, 7, pts, ax[9 * i:9 * i + 3], ax[9 * i + 3:9 * i + 6], ax[9 * i + 6:9 * i + 9], i)
                msg = msg or m
                tw += w or []
                pw += [i] * (len(w or []) // 3)
            if msg is None and (st == "panic" or r != (tw, pw)):
                msg = "panics: %s" % r if st == "panic" else "the result is %s, expected %s" % (r, (tw, pw))
            ctx.ob(msg is None, "triangulate_polygon_soup", "%d polygons: %s" % (k, msg), {"polygons": k})
            ctx.count("polygons")
    ctx.saw(I.called)


def check(ctx):
    ctx.rule("triangulate is interpreted with opaque coordinates once per sign vector of the predicates it consults; the triangles must be counter-clockwise, cover exactly the hull (or the side of the constraint polygons to the left of their edges), "
             "contain every point as a vertex, contain the constraint edges and have every other edge locally Delaunay")
    t = 12 if ctx.thorough else 2
    plan = [(2, (3, 3), 100, 0), (3, (4, 4), 1000, 1), (4, (4, 4), 2000, 2), (5, (4, 4), 300 * t, 2), (6, (5, 4), 300 * t, 3), (7, (5, 5), 150 * t, 3), (8, (5, 5), 150 * t, 3), (9, (5, 5), 60 * t, 3), (8, (1, 8), 1, 0), (8, (8, 1), 1, 0),
            (12, (5, 5), 30 * t, 3), (9, (3, 3), 1, 6), (16, (4, 4), 1, 6)]
    jobs = []
    for n, g, c, np in plan:
        cf = list(enumerate(configs(n, g, c, 1)))
        step = 25 if n < 7 else 10
        for i in range(0, len(cf), step):
            jobs.append(lambda c, x=cf[i:i + step], np=np: job(c, x, np, i))
    jobs.append(check_polygon)
    idx = sorted(range(len(jobs)), key=lambda i: (i * 31) % len(jobs))
    ctx.parallel([jobs[i] for i in idx])
    ctx.floor("sign vectors", 500)
    ctx.floor("constrained classes", 1000)

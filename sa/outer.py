"""P27, P28: the cut problem posed on the subdivision, and the boundary of the cells kept."""
import itertools, math, random
from fractions import Fraction as Fr
import interp as _I
from interp import Agg, Arr, Ref, Slice, VecV, Unsupported, REL
from vg import N
import builtins2
import builtins_model as bm
import mesh, tetra, soup
from geo3 import *
from bsp import fn_of, triples, build_complex, Complex, picks, pnormal, overlap, minus, clip_poly, area_zero, fmt


# ---- exact planar triangulation of a region (model of `triangulate`, whose contract is P22) ----
def on2(p, a, b):
    return o2(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def cross2(a, b, c, d):
    """do open segments ab and cd cross (or overlap)"""
    x, y = sg(o2(a, b, c)), sg(o2(a, b, d))
    z, w = sg(o2(c, d, a)), sg(o2(c, d, b))
    return x * y < 0 and z * w < 0


def winding(p, segs, P):
    """winding number around p (not on a segment)"""
    w = 0
    for a, b in segs:
        a, b = P[a], P[b]
        if (a[1] <= p[1]) != (b[1] <= p[1]):
            s = sg(o2(a, b, p))
            if b[1] > a[1] and s > 0:
                w += 1
            elif b[1] < a[1] and s < 0:
                w -= 1
    return w


class Bad(Exception):
    pass


class Ambiguous(Exception):
    pass


def region(P, segs):
    """triangles (counter-clockwise) of the region to the left of the directed segments"""
    if len(set(P)) != len(P):
        raise Bad("the same point is given twice to the planar triangulation")
    pieces = []
    for a, b in segs:
        if a == b:
            raise Bad("a boundary segment of a face joins a point to itself")
        on = sorted((k for k in range(len(P)) if on2(P[k], P[a], P[b])), key=lambda k: abs(P[k][0] - P[a][0]) + abs(P[k][1] - P[a][1]))
        pieces += list(zip(on, on[1:]))
    E = []
    for e in {frozenset(s) for s in pieces}:
        a, b = e
        if any(cross2(P[a], P[b], P[c], P[d]) for c, d in E):
            raise Bad("boundary segments of a face cross")
        E.append((a, b))
    nb = {k: set() for k in range(len(P))}
    for a, b in E:
        nb[a].add(b), nb[b].add(a)
    for a, b in itertools.combinations(range(len(P)), 2):
        if b in nb[a] or any(k not in (a, b) and on2(P[k], P[a], P[b]) for k in range(len(P))):
            continue
        if any(cross2(P[a], P[b], P[c], P[d]) for c, d in E):
            continue
        E.append((a, b))
        nb[a].add(b), nb[b].add(a)
    out = []
    for a, b in E:
        for c in nb[a] & nb[b]:
            if c > max(a, b) and o2(P[a], P[b], P[c]):
                t = (a, b, c) if o2(P[a], P[b], P[c]) > 0 else (b, a, c)
                if any(k not in t and all(o2(P[t[i]], P[t[(i + 1) % 3]], P[k]) >= 0 for i in range(3)) for k in range(len(P))):
                    continue
                m = (Fr(P[a][0] + P[b][0] + P[c][0]) / 3, Fr(P[a][1] + P[b][1] + P[c][1]) / 3)
                w = winding(m, pieces, P)
                if w not in (0, 1):
                    raise Bad("the boundary of a face does not enclose a region (winding number %d)" % w)
                if w:
                    out.append(t)
    return out


class OutInterp(GeoInterp):
    """as GeoInterp; coordinates of implicit points may be asked for, and lengths, areas and
    averages computed from coordinates are followed exactly (square roots to 60 digits)"""
    MAX_STEPS = 60000000

    def __init__(self, prog, P, salt=0):
        super().__init__(prog, P, salt)
        self.memo = {}
        self.vkey = {}
        self.round_centres = False
        S = self.summaries
        for ty in ("ImplicitPointLPI", "ImplicitPointTPI"):
            S[(ty, "ImplicitPoint3D", "to_explicit")] = self.s_explicit
        S[("PushRelabelFifo", "From", "from")] = self.s_from
        S[("PushRelabelFifo", "MaxFlow", "find_max_flow")] = lambda I, a, i: _I.UNIT
        S[("PushRelabelFifo", "MaxFlow", "is_sink")] = self.s_sink
        for k in ("triangle::triangle::triangulate", "triangle::triangulate"):
            S[k] = self.s_tri
        self.start([], None)

    def start(self, label, nc):
        self.nets, self.label, self.cur = [], label, None

    def s_from(self, I, a, info):
        v = bm.strip(a[0])
        arcs, n = v.f
        self.nets.append(([tuple(bm.strip(x).f) for x in bm.strip(arcs).f], n))
        return Agg("PushRelabelFifo", None, [len(self.nets) - 1])

    def s_sink(self, I, a, info):
        k = bm.strip(a[0]).f[0]
        if not isinstance(a[1], int) or not 1 <= a[1] <= len(self.label[k]):
            raise _I.PathPanic("the side of node %r is asked for" % (a[1],))
        return not self.label[k][a[1] - 1]

    def s_explicit(self, I, a, info):
        x = self.where(a[0])
        s = bm.as_slice(I, a[1])
        for k in range(3):
            v = self.g.leaf("q%s.%d" % (x, k))
            self.val[v.id] = (k, x[k], x)
            Ref(s.c, s.start + k).put(v) if hasattr(Ref, "put") else self._put(s, k, v)
        return _I.UNIT

    @staticmethod
    def _put(s, k, v):
        s.c[s.start + k] = v

    # exact value of an expression over coordinates
    def ev(self, v):
        if not isinstance(v, N):
            return Fr(v)
        r = self.memo.get(v.id)
        if r is not None:
            return r
        if v.id in self.val:
            r = Fr(self.val[v.id][1])
        else:
            a = [self.ev(x) for x in v.args] if v.op in ("add", "sub", "mul", "div", "neg", "abs", "max", "min", "sqrt") else None
            if a is None:
                raise Unsupported("coordinates are used in %s" % v.op)
            if v.op == "div" and a[1] == 0:
                raise _I.PathPanic("division by zero")
            r = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1], "div": lambda: a[0] / a[1],
                 "neg": lambda: -a[0], "abs": lambda: abs(a[0]), "max": lambda: max(a), "min": lambda: min(a),
                 "sqrt": lambda: Fr(math.isqrt(int(a[0] * 10 ** 60)), 10 ** 30)}[v.op]()
        self.memo[v.id] = r
        return r

    def axes(self, v):
        """axes and points an expression is made of"""
        if not isinstance(v, N):
            return frozenset(), frozenset()
        r = self.vkey.get(v.id)
        if r is None:
            if v.id in self.val:
                k, _, p = self.val[v.id]
                r = frozenset([k]), frozenset([p])
            else:
                l = [self.axes(x) for x in v.args]
                r = frozenset().union(*[x[0] for x in l]), frozenset().union(*[x[1] for x in l])
            self.vkey[v.id] = r
        return r

    def compare(self, op, a, b):
        if isinstance(a, N) or isinstance(b, N):
            va, vb = (self.axes(x)[0] for x in (a, b))
            if len(va) == 1 and len(vb) == 1 and va != vb and all(isinstance(x, N) and x.id in self.val for x in (a, b)):
                raise Unsupported("coordinates on different axes are compared")
            return {-1: "<", 0: "=", 1: ">"}[sg(self.ev(a) - self.ev(b))] in REL[op]
        return super().compare(op, a, b)

    def coords(self, s, n):
        s = bm.as_slice(self, s)
        if s is None or not isinstance(s.n, int):
            raise Unsupported("a predicate is called on something that is not a point")
        if s.n < n:
            raise _I.PathPanic("a predicate is given fewer than %d coordinates" % n)
        v, keys = [], set()
        for k in range(n):
            x = Ref(s.c, s.start + k).get()
            ax, pk = self.axes(x)
            if len(ax) != 1:
                raise Unsupported("a predicate is called on something other than a point or an average of points")
            keys.add(pk)
            v.append((next(iter(ax)), self.ev(x), pk))
        if len(keys) != 1:
            raise Unsupported("a predicate is called on coordinates of different points")
        if self.round_centres and len(v[0][2]) > 1:
            p = sorted(v[0][2], key=repr)[self.salt % len(v[0][2])]      # the average rounds to one of the points
            q = self.P[p] if isinstance(p, int) else p
            v = [(k, Fr(q[k]), pk) for k, _, pk in v]
        return v

    def s_tri(self, I, a, info):
        pts, segs = bm.as_slice(I, a[0]), bm.as_slice(I, a[1])
        l = [Ref(pts.c, pts.start + i).get() for i in range(pts.n)]
        P = [(self.ev(l[i]), self.ev(l[i + 1])) for i in range(0, len(l), 2)]
        ax = {tuple(self.axes(x)[0] for x in l[i:i + 2]) for i in range(0, len(l), 2)}
        if len(ax) != 1:
            raise _I.PathPanic("points are given to the planar triangulation with different axes")
        s = [Ref(segs.c, segs.start + i).get() for i in range(segs.n)]
        if any(not isinstance(x, int) or not 0 <= x < len(P) for x in s) or len(s) % 2:
            raise _I.PathPanic("a boundary segment of a face is not a pair of its points")
        try:
            t = region(P, list(zip(s[::2], s[1::2])))
        except Bad as e:
            raise _I.PathPanic(str(e))
        return VecV([x for y in t for x in y])


# ---- judging ------------------------------------------------------------------------------
def covered(c, T, n, X, shell, k):
    """faces covered by triangles of the shell, with the side (+1: first cell is on the side the normal
    points to; None: some triangles face one way and some the other) and whether all of it is covered"""
    out = {}
    for f in range(X.nf):
        q = X.poly(f)
        nm = pnormal(q)
        rest = [q]
        sides = set()
        for ti in range(n):
            if shell[ti] != k:
                continue
            tri = [c.P[v] for v in T[ti]]
            nt = normal(tri)
            if all(dot(nt, x) == dot(nt, tri[0]) for x in q) and overlap(tri, q):
                sides.add(sg(dot(nt, nm)))
                rest = [y for x in rest for y in minus(x, tri)]
        if sides:
            out[f] = None if len(sides) > 1 else (sides.pop(), not rest)
    return out


def arrange(c, T):
    """the triangles, those of one plane facing the same way, and the plane of each"""
    out, cls, rep = [], [], []
    for t in T:
        p = [c.P[v] for v in t]
        nt = normal(p)
        for k, (m, d) in enumerate(rep):
            if not any(cross(m, nt)) and dot(m, p[0]) == d:
                out.append(t if dot(m, nt) > 0 else [t[0], t[2], t[1]])
                cls.append(k)
                break
        else:
            out.append(t)
            cls.append(len(rep))
            rep.append((nt, dot(nt, p[0])))
    return out, cls


def judge_net(c, T, n, X, shell, nets, I):
    bad = []
    show = "constraints %s in shells %s" % ([[c.P[v] for v in t] for t in T[:n]], shell)

    def ck(ok, key, msg):
        if not ok and all(k != key for k, _ in bad):
            bad.append((key, "%s (%s)" % (msg, show)))
    ns = max(shell) + 1
    nc = len(X.cells)
    ck(len(nets) == ns, "shells", "%d cut problems for %d shells" % (len(nets), ns))
    if bad:
        return bad
    area = [math.sqrt(float(dot(v, v))) for v in (pnormal(X.poly(f)) for f in range(X.nf))]
    tot = sum(area)
    area = [a / tot for a in area]
    eq = lambda x, y: abs(float(x) - float(y)) < 1e-9
    for k, (arcs, size) in enumerate(nets):
        ck(size == nc + 3, "size", "the network of a shell has %r nodes for %d cells" % (size, nc))
        S, O, Z = 0, nc + 1, nc + 2
        pull = [0.0] * (nc + 3)
        link = {}
        for u, v, w in arcs:
            w = float(I.ev(w))
            ck(w >= 0, "negative", "a capacity is negative")
            if not all(isinstance(x, int) and 0 <= x < nc + 3 for x in (u, v)):
                ck(False, "node", "an arc joins nodes %r and %r" % (u, v))
            elif u == S and v == Z or v == S or u == Z:
                ck(w == 0, "node", "an arc joins nodes %r and %r" % (u, v))
            elif u == S:
                pull[v] += w
            elif v == Z:
                pull[u] -= w
            else:
                link[u, v] = link.get((u, v), 0) + w
        cov = covered(c, T, n, X, shell, k)
        want = [0.0] * (nc + 3)
        wl, part = {}, []
        for f in range(X.nf):
            cs = tuple(O if x == soup.INV else x + 1 for x in X.fcells[f])
            if f in cov and cov[f] is None:
                raise Ambiguous
            if f in cov and not cov[f][1]:
                part.append((f, cs))
            elif f not in cov:
                for e in (cs, cs[::-1]):
                    wl[e] = wl.get(e, 0) + area[f]
        # a face covered in part counts as covered or not
        free = set()
        for f, cs in part:
            if link.get(cs, 0) > wl.get(cs, 0) + area[f] * 0.999:
                for e in (cs, cs[::-1]):
                    wl[e] = wl.get(e, 0) + area[f]
                free.add(f)
        for f in cov:
            if f not in free:
                cs = [O if x == soup.INV else x + 1 for x in X.fcells[f]]
                want[cs[0]] -= cov[f][0] * area[f] / 2
                if cs[1] != O:
                    want[cs[1]] += cov[f][0] * area[f] / 2
        want[O] = -1.0
        for v in range(1, nc + 2):
            ck(eq(pull[v], want[v]), "outer" if v == O else "pull", "the %s is drawn towards the inside by %.6f instead of %.6f" % ("outside" if v == O else "cell %d" % (v - 1), pull[v], want[v]))
        for e in set(link) | set(wl):
            a, b = link.get(e, 0.0), wl.get(e, 0.0)
            ck(eq(a, b), "link", "cells %s are held together by %.6f instead of the %.6f of their common faces no triangle of the shell covers" % (tuple("outside" if x == O else x - 1 for x in e), a, b))
    return bad


def area2(poly, k):
    i, j = AXES[k]
    return sum(a[i] * b[j] - a[j] * b[i] for a, b in zip(poly, poly[1:] + poly[:1]))


def judge_out(c, T, n, X, keep, pts, tris):
    bad = []
    show = "constraints %s, cells kept %s" % ([[c.P[v] for v in t] for t in T[:n]], sorted(keep))

    def ck(ok, key, msg):
        if not ok and all(k != key for k, _ in bad):
            bad.append((key, "%s (%s)" % (msg, show)))
    allp = set(X.pts)
    ck(len(set(pts)) == len(pts), "twice", "an output point occurs twice")
    ck(all(p in allp for p in pts), "points", "an output point is no vertex of the subdivision")
    if any(not isinstance(v, int) or not 0 <= v < len(pts) for v in tris) or len(tris) % 3:
        return bad + [("index", "an output triangle names a point that does not exist (%s)" % show)]
    tr = [tuple(tris[i:i + 3]) for i in range(0, len(tris), 3)]
    key = lambda nm, p: None

    def plane(q):
        nm = pnormal(q)
        m = max(range(3), key=lambda i: abs(nm[i]))
        if not nm[m]:
            return None
        s = abs(nm[m])
        u = tuple(Fr(x) / s for x in nm)
        return u + (dot(u, q[0]),), m
    want = {}
    for f in range(X.nf):
        a, b = [x in keep for x in X.fcells[f]]
        if a != b:
            q = X.poly(f)
            if a:       # normals point to the first cell
                q = q[::-1]
            p, m = plane(q)
            want.setdefault(p, []).append((q, m))
    got = {}
    for t in tr:
        q = [pts[v] for v in t]
        p = plane(q)
        if p is None:
            ck(False, "degenerate", "an output triangle has no area: %s" % fmt(q))
            continue
        got.setdefault(p[0], []).append((q, p[1]))
    for p in set(want) | set(got):
        W, Gt = want.get(p, []), got.get(p, [])
        if not W:
            ck(False, "spurious", "the output triangle %s lies in a plane with no boundary face facing that way" % fmt(Gt[0][0]))
            continue
        k = W[0][1]
        aw = sum(abs(area2(q, k)) for q, _ in W)
        ag = sum(abs(area2(q, k)) for q, _ in Gt)
        ck(ag >= aw, "missing", "the output leaves a part of the boundary open in the plane of %s" % fmt(W[0][0]))
        ck(ag <= aw, "excess", "the output covers more than the boundary in the plane of %s" % fmt(W[0][0]))
        for q, _ in Gt:
            a = 0
            for w, _ in W:
                r = [tuple(map(Fr, x)) for x in q]
                nm = pnormal(w)
                for x, y in zip(w, w[1:] + w[:1]):
                    m = cross(sub(y, x), nm)        # outwards
                    r = clip_poly(r, m, dot(m, x))
                    if len(r) < 3:
                        break
                if len(r) >= 3:
                    a += abs(area2(r, k))
            ck(a == abs(area2(q, k)), "outside", "the output triangle %s leaves the boundary of the cells kept" % fmt(q))
    e = {}
    for t in tr:
        for i in range(3):
            e[t[i], t[(i + 1) % 3]] = e.get((t[i], t[(i + 1) % 3]), 0) + 1
    ck(all(v == e.get(u[::-1], 0) for u, v in e.items()), "watertight", "the output is not closed: an edge is not matched by an edge in the other direction")
    return bad


def partition(I, x, shell):
    f = fn_of(I.prog, "BSPComplex", "complex_partition")
    r = I.run(f, [Ref(x, 0), Slice(list(shell), 0, len(shell))], {})
    v = [y for y in bm.strip(r.f[0]).f]
    pts = [tuple(I.ev(y) for y in v[i:i + 3]) for i in range(0, len(v), 3)]
    return pts, list(bm.strip(r.f[1]).f)


def labellings(X, rng, how_many, T):
    nc = len(X.cells)
    nb = {k: set() for k in range(nc)}
    for a, b in X.fcells:
        if b != soup.INV and a != soup.INV:
            nb[a].add(b), nb[b].add(a)
    out = [set(range(nc)), set()]
    for i in range(how_many):
        if i % 2 == 0:          # one side of a triangle's plane, apart from a few cells at the plane
            t = rng.choice(T[:2] + T)
            n = normal(t)
            d = dot(n, t[0])
            s = {k for k in range(nc) if dot(n, X.c0[k]) > d}
            at = [k for k in range(nc) if any(all(dot(n, p) == d for p in X.poly(f)) for f in X.cells[k])]
            for k in rng.sample(at, min(len(at), rng.randrange(4))):
                s ^= {k}
            out.append(s)
        elif i % 3 == 0:
            out.append({k for k in range(nc) if rng.random() < 0.5})
        elif i % 3 == 1:        # a grown piece or its complement
            s = {rng.randrange(nc)}
            while len(s) < nc // 2 and rng.random() < 0.93:
                t = {y for z in s for y in nb[z]} - s
                if not t:
                    break
                s.add(rng.choice(sorted(t)))
            out.append(s if i % 2 else set(range(nc)) - s)
        else:
            out.append(set(range(nc)) - {rng.randrange(nc) for _ in range(1 + nc // 5)})
    return out


def job(cs, rev, part, how_many=0):
    def go(ctx):
        prog = ctx.prog
        for ci, c, tris in cs:
            I = OutInterp(prog, c.P, ci)
            api = tetra.Api(prog, I)
            rng = random.Random(ci * 17 + 3)
            cls = None
            if part == "net":
                tris, cls = arrange(c, tris)

            def run():
                builtins2.MapV.REV = rev
                x, T, n = build_complex(I, api, c, tris)
                X = Complex(I, x[0])
                bad = []

                def add(l):
                    for k, m in l:
                        if all(k != y for y, _ in bad):
                            bad.append((k, m))
                run.count = 0
                if part == "net":
                    for mode, ns, single in ((False, 1, False), (True, 2, False), (False, 3, True), (True, n, True)):
                        r = [rng.randrange(ns) for _ in range(n)]
                        if single and ns == n:
                            r = list(range(n))
                            rng.shuffle(r)
                        shell = r if single else [r[k] for k in cls]
                        ns = max(shell) + 1
                        I.round_centres = mode
                        I.start([[True] * len(X.cells)] * ns, None)
                        partition(I, x, shell)
                        try:
                            add(judge_net(c, T, n, X, shell, I.nets, I))
                            run.count += 1
                        except Ambiguous:
                            pass
                        run.faces = X.nf
                else:
                    for l in labellings(X, rng, how_many, [[c.P[v] for v in t] for t in T[:n]]):
                        ns = rng.choice((1, 1, 2))
                        shell = [0] * n
                        shell[0] = ns - 1
                        lab = [[rng.random() < 0.6 and k in l for k in range(len(X.cells))] for _ in range(ns)]
                        lab[0] = [k in l and not (ns > 1 and lab[1][k] and rng.random() < 0.5) for k in range(len(X.cells))]
                        keep = {k for k in range(len(X.cells)) if any(y[k] for y in lab)}
                        I.start(lab, None)
                        pts, out = partition(I, x, shell)
                        add(judge_out(c, T, n, X, keep, pts, out))
                        run.count += 1
                    run.faces = X.nf
                return bad
            run.I = I
            run.count = run.faces = 0
            mesh.explore(ctx, part, run, 4, "subdivisions")
            ctx.count("problems" if part == "net" else "selections of cells", run.count)
            ctx.count("faces", run.faces)
    return go


def crossed_sheets(n_want, seed):
    """configurations with triangles in one plane and others crossing that plane"""
    out = []
    for ci, c in enumerate(configs(3 * n_want, seed)):
        if len(out) == n_want:
            break
        rng = random.Random(ci * 29 + seed)
        l = triples(c, rng, 10 ** 6)
        best = []
        for t in l[:12]:
            s = [u for u in l if all(det3(*[c.P[v] for v in t], c.P[v]) == 0 for v in u)]
            if len(s) > len(best):
                best = s
        if len(best) < 3:
            continue
        t = best[0]
        pl = [c.P[v] for v in t]
        # two or three adjacent but not overlapping ones, as in a polygon cut into triangles
        sel = [t]
        for u in best[1:]:
            if len(sel) < 2 + ci % 3 and not any(overlap(pts(c, u), pts(c, v)) for v in sel) and any(len(set(u) & set(v)) == 2 for v in sel):
                sel.append(u)
        cr = [u for u in l if {1, -1} <= {sg(det3(*pl, c.P[v])) for v in u}]
        if len(sel) < 2 or not cr:
            continue
        out.append((ci + 1000, c, cr[:1 + ci % 3] + sel))
    return out


def quads(n_want, seed):
    """a quadrilateral cut in two, and a cluster of points above and below its diagonal with triangles crossing it"""
    out, k = [], 0
    while len(out) < n_want:
        k += 1
        rng = random.Random(k * 13 + seed)
        q = [(0, 0, 0), (14, rng.randrange(2), 0), (14 - rng.randrange(2), 14, 0), (0, 14, 0)]
        P = set(q)
        while len(P) < 8 + k % 4:
            P.add((5 + rng.randrange(5), 5 + rng.randrange(5), rng.choice((-2, -1, 1, 2))))
        if k % 2:       # tilt
            q, P = ([(x, y, z + x - 2 * y) for x, y, z in l] for l in (q, sorted(P)))
        P = sorted(P)
        rng.shuffle(P)
        c = Config(P, rng)
        if not c.ok:
            continue
        a, b, d, e = (P.index(x) for x in q)
        l = [t for t in itertools.combinations(range(len(P)), 3) if not {a, b, d, e} & set(t) and {1, -1} <= {sg(det3(P[a], P[b], P[d], P[v])) for v in t} and not collinear(*(P[v] for v in t))]
        if not l:
            continue
        l = [list(t) for t in l]
        rng.shuffle(l)
        out.append((2000 + k, c, l[:1 + k % 3] + [[a, b, d], [d, e, a]]))
    return out


def pts(c, t):
    return [c.P[v] for v in t]


# ---- checks -------------------------------------------------------------------------------
def run_all(ctx, cs, part, how_many):
    if any(mesh.need(ctx, ctx.prog, "BSPComplex", x) is None for x in ("new", "split_cell", "complex_partition")):
        return
    cs = sorted(cs, key=lambda x: -len(x[1].P) * len(x[2]))
    k = 64 if ctx.thorough else 32
    ctx.parallel([job(cs[i::k], bool(i % 2), part, how_many) for i in range(k)])
    ctx.floor("subdivisions", len(cs))


def check_net(ctx):
    ctx.rule("the network handed to the maximum-flow solver for every shell, compared with the one the covered faces and their areas call for; coordinates followed exactly, the average of a face exact or rounded onto the face's boundary")
    n = 400 if ctx.thorough else 36
    cs = picks(n, 12) + quads(2 * n, 12) + crossed_sheets(n // 2, 12)
    run_all(ctx, cs, "net", 0)
    ctx.floor("problems", 2 * len(cs))
    ctx.floor("faces", 20 * len(cs))


def check_out(ctx):
    ctx.rule("the triangles returned for a selection of cells, compared with the exact boundary of their union: cover, orientation, disjointness, matching of edges; the maximum-flow solver's answer is arbitrary, coordinates are followed exactly")
    n = 300 if ctx.thorough else 30
    cs = picks(n, 13) + [(i, c, l[::-1]) for i, c, l in quads(n // 2, 13) + crossed_sheets(n // 2, 13)]
    n = 16 if ctx.thorough else 8
    run_all(ctx, cs, "out", n)
    ctx.floor("selections of cells", (n + 2) * len(cs))
    ctx.floor("faces", 20 * len(cs))

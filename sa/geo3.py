"""Common ground of P24-P26: code that sees its points only through predicates.

Coordinates are opaque symbols; the answers of the orientation predicates, of the
incidence tests (by their contracts: P03, P09, P10, P12, P13) and of coordinate
comparisons are those of an integer configuration, which stands for every input with
the same signs.  Any other use of a coordinate is an error of the analysis."""
import itertools, random
from fractions import Fraction as Fr
import interp as _I
from interp import Interp, Agg, Arr, Ref, Slice, VecV, Unsupported, REL
from vg import N
import builtins_model as bm
import tetra


def sg(x):
    return (x > 0) - (x < 0)


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def det3(a, b, c, d):
    """positive like predicates::orient3d"""
    return dot(sub(a, d), cross(sub(b, d), sub(c, d)))


def o2(a, b, c):
    return (a[0] - c[0]) * (b[1] - c[1]) - (a[1] - c[1]) * (b[0] - c[0])


AXES = ((1, 2), (2, 0), (0, 1))


def by_axis(a, b, c, k):
    i, j = AXES[k]
    return o2((a[i], a[j]), (b[i], b[j]), (c[i], c[j]))


def normal(t):
    return cross(sub(t[1], t[0]), sub(t[2], t[0]))


def inner_seg(p, a, b):
    """p strictly inside ab"""
    u, v = sub(p, a), sub(b, a)
    return not any(cross(u, v)) and 0 < dot(u, v) < dot(v, v)


def collinear(a, b, c):
    return not any(normal((a, b, c)))


def segs_cross(a, b, c, d):
    if det3(a, b, c, d) != 0:
        return False
    n = cross(sub(b, a), sub(d, c))
    if not any(n):
        return False
    k = max(range(3), key=lambda i: abs(n[i]))
    return sg(by_axis(a, b, c, k)) * sg(by_axis(a, b, d, k)) < 0 and sg(by_axis(c, d, a, k)) * sg(by_axis(c, d, b, k)) < 0


def seg_inner_tri(u, t, a, b, c):
    x, y = sg(det3(a, b, c, u)), sg(det3(a, b, c, t))
    if x * y >= 0:
        return False
    s = {sg(det3(u, t, a, b)), sg(det3(u, t, b, c)), sg(det3(u, t, c, a))}
    return len(s) == 1 and 0 not in s


def in_tri(p, t, closed):
    """p coplanar with t"""
    n = normal(t)
    k = max(range(3), key=lambda i: abs(n[i]))
    s = [sg(by_axis(t[i], t[(i + 1) % 3], p, k)) * sg(n[k]) for i in range(3)]
    return min(s) >= 0 if closed else min(s) > 0


def seg_tri(u, t, a, b, c):
    return any(inner_seg(v, u, t) for v in (a, b, c)) or any(segs_cross(x, y, u, t) for x, y in ((a, b), (b, c), (c, a))) or seg_inner_tri(u, t, a, b, c)


# ---- triangulations of a point set -----------------------------------------------------
def regular(P, rng):
    """a triangulation of the hull of P that uses every point, or None (cells oriented as the
    library builds them: its orient3d is negative)"""
    n = len(P)
    h = [dot(p, p) * 64 + rng.randrange(1, 60) for p in P]
    cells = []
    for q in itertools.combinations(range(n), 4):
        a, b, c, d = (P[i] for i in q)
        v = det3(a, b, c, d)
        if v == 0:
            continue
        ok = True
        for i in range(n):
            if i in q:
                continue
            # lifted point above the hyperplane through the cell
            m = [sub(P[j], P[i]) + (h[j] - h[i],) for j in q]
            w = det4(m)
            if w == 0:
                return None
            if (w < 0) != (v > 0):
                ok = False
                break
        if ok:
            cells.append(q if v < 0 else (q[1], q[0], q[2], q[3]))
    if {i for t in cells for i in t} != set(range(n)):
        return None
    vol = sum(abs(det3(*[P[i] for i in t])) for t in cells)
    return cells if vol == hull_volume(P) else None


def det4(m):
    r = 0
    for i in range(4):
        mi = [m[j][:3] for j in range(4) if j != i]
        d = dot(mi[0], cross(mi[1], mi[2]))
        r += (-1) ** (i + 1) * m[i][3] * d
    return r


def hull_volume(P):
    """six times the volume of the hull (fan over its supporting planes)"""
    n = len(P)
    planes = {}
    for t in itertools.combinations(range(n), 3):
        nm = normal([P[i] for i in t])
        if not any(nm):
            continue
        s = {sg(dot(nm, sub(P[i], P[t[0]]))) for i in range(n)}
        if 1 in s and -1 in s:
            continue
        on = frozenset(i for i in range(n) if dot(nm, sub(P[i], P[t[0]])) == 0)
        planes[on] = nm
    c = tuple(Fr(sum(p[k] for p in P), n) for k in range(3))
    tot = Fr(0)
    for on, nm in planes.items():
        k = max(range(3), key=lambda i: abs(nm[i]))
        i, j = AXES[k]
        q = sorted({(P[v][i], P[v][j]): v for v in on}.items())
        hull = []
        for pts in (q, q[::-1]):
            part = []
            for xy, v in pts:
                while len(part) > 1 and o2(part[-2][0], part[-1][0], xy) <= 0:
                    part.pop()
                part.append((xy, v))
            hull += part[:-1]
        vs = [v for _, v in hull]
        for a, b in zip(vs[1:], vs[2:]):
            tot += abs(det3(P[vs[0]], P[a], P[b], c))
    return tot


def ghosts(cells):
    """hull tetrahedra, ghost vertex (None) last"""
    seen = {}
    for t in cells:
        for i in range(4):
            f = frozenset(t) - {t[i]}
            seen.setdefault(f, []).append((t, i))
    out = []
    for f, l in seen.items():
        if len(l) > 2:
            return None
        if len(l) == 1:
            t, i = l[0]
            g = list(t)
            g[i] = None
            j, k = [x for x in range(4) if x != i][:2]
            g[j], g[k] = g[k], g[j]
            if i != 3:      # ghost last, keeping the parity
                a = g[3]
                g[3], g[i] = None, a
                o = [x for x in range(3) if x != i]
                g[o[0]], g[o[1]] = g[o[1]], g[o[0]]
            out.append(tuple(g))
    return out


class GeoInterp(Interp):
    MAX_STEPS = 8000000

    def __init__(self, prog, P, salt=0):
        super().__init__(prog)
        self.prog = prog
        self.P = [tuple(p) for p in P]
        self.salt = salt
        self.pts, self.val = [], {}
        for i, p in enumerate(P):
            for k in range(3):
                v = self.g.leaf("p%d.%s" % (i, "xyz"[k]))
                self.val[v.id] = (k, p[k], i)
                self.pts.append(v)
        self.cache = {}
        S = self.summaries
        for m in ("predicates::predicates::", "predicates::"):
            S[m + "orient3d"] = self.s_orient3d
            S[m + "orient3d_fast"] = self.s_orient3d
            S[m + "orient2d"] = self.s_orient2d
        m = "predicates::"
        S[m + "orient3d::orient3d"] = self.g_orient3d
        for nm, k in (("xy", 2), ("yz", 0), ("zx", 1)):
            S[m + "orient2d::orient2d_" + nm] = lambda I, a, i, k=k: self.g_orient2d(a, k)
        S[m + "orient2d::orient2d_by_axis"] = lambda I, a, i: self.g_orient2d(a, a[3])
        S[m + "max_comp_in_tri_normal"] = self.s_axis

        def test(name, f, guard=None):
            def h(I, a, info):
                p = [self.point(x) for x in a[:f.__code__.co_argcount]]
                if guard is not None and not guard(*p):
                    raise Unsupported("%s is called outside its domain" % name)
                return bool(f(*p))
            S[m + name] = h
        test("inner_segments_cross", segs_cross)
        test("inner_segment_cross_inner_triangle", seg_inner_tri, lambda u, t, a, b, c: not collinear(a, b, c))
        test("inner_segment_cross_triangle", seg_tri, lambda u, t, a, b, c: not collinear(a, b, c))
        test("point_in_inner_segment", inner_seg)
        test("point_in_segment", lambda p, a, b: p in (a, b) or inner_seg(p, a, b))
        cop = lambda p, a, b, c: not collinear(a, b, c) and det3(a, b, c, p) == 0
        test("point_in_triangle", lambda p, a, b, c: in_tri(p, (a, b, c), True), cop)
        test("point_in_inner_triangle", lambda p, a, b, c: in_tri(p, (a, b, c), False), cop)
        test("mis_alignment", lambda a, b, c: not collinear(a, b, c))
        test("same_half_plane", self.half, lambda p, q, a, b: det3(p, q, a, b) == 0 and a != b)

    @staticmethod
    def half(p, q, a, b):
        x, y = cross(sub(b, a), sub(p, a)), cross(sub(b, a), sub(q, a))
        return dot(x, y) > 0 or not any(x) and not any(y)

    def compare(self, op, a, b):
        if isinstance(a, N) or isinstance(b, N):
            va = self.val.get(a.id) if isinstance(a, N) else None
            vb = self.val.get(b.id) if isinstance(b, N) else None
            if va is None or vb is None or va[0] != vb[0]:
                raise Unsupported("coordinates are used other than in a predicate or a comparison on one axis")
            return {-1: "<", 0: "=", 1: ">"}[sg(va[1] - vb[1])] in REL[op]
        return super().compare(op, a, b)

    def coords(self, s, n):
        s = bm.as_slice(self, s)
        if s is None or not isinstance(s.n, int):
            raise Unsupported("a predicate is called on something that is not a point")
        if s.n < n:
            raise _I.PathPanic("a predicate is given fewer than %d coordinates" % n)
        v = []
        for k in range(n):
            x = _I.Ref(s.c, s.start + k).get()
            r = self.val.get(x.id) if isinstance(x, N) else None
            if r is None:
                raise Unsupported("a predicate is called on coordinates that are not those of a point")
            v.append(r)
        if len({r[2] for r in v}) != 1:
            raise Unsupported("a predicate is called on coordinates of different points")
        return v

    def point(self, s):
        v = self.coords(s, 3)
        if [r[0] for r in v] != [0, 1, 2]:
            raise Unsupported("a predicate is called on permuted coordinates")
        return tuple(r[1] for r in v)

    def s_orient3d(self, I, a, info):
        return float(sg(det3(*[self.point(x) for x in a[:4]])))

    def s_orient2d(self, I, a, info):
        c = [self.coords(x, 2) for x in a[:3]]
        if len({tuple(r[0] for r in v) for v in c}) != 1:
            raise Unsupported("a planar predicate is called on different axes")
        return float(sg(o2(*[tuple(r[1] for r in v) for v in c])))

    def s_axis(self, I, a, info):
        """some axis along which the normal does not vanish (the contract: P13)"""
        t = [self.point(x) for x in a[:3]]
        n = normal(t)
        ax = [k for k in range(3) if n[k]]
        if not ax:
            raise Unsupported("the dominant axis of a degenerate triangle is taken")
        return ax[(hash(tuple(map(tuple, t))) + self.salt) % len(ax)]

    # -- explicit and implicit points ---------------------------------------------------
    def flds(self, ty, v):
        return dict(zip(self.prog.structs[ty], v.f))

    def explicit(self, e):
        e = bm.strip(e)
        if not isinstance(e, Agg) or e.ty != "ExplicitPoint3D":
            raise Unsupported("not an explicit point: %r" % (e,))
        return self.point(self.flds("ExplicitPoint3D", e)["data"])

    def where(self, p):
        p = bm.strip(p)
        if isinstance(p, Agg) and p.ty == "Point3D":
            p = bm.strip(p.f[0])
        if not isinstance(p, Agg):
            raise Unsupported("not a point: %r" % (p,))
        if p.ty == "ExplicitPoint3D":
            return self.explicit(p)
        f = self.flds(p.ty, p)
        if p.ty == "ImplicitPointLPI":
            q = tuple(self.explicit(f[k]) for k in "pqrst")
            if q not in self.cache:
                a, b = q[0], q[1]
                n = normal(q[2:])
                d = dot(n, sub(b, a))
                if d == 0:
                    raise _I.PathPanic("an implicit point is the intersection of a plane and a parallel line")
                s = Fr(dot(n, sub(q[2], a)), d)
                self.cache[q] = tuple(x + s * (y - x) for x, y in zip(a, b))
            return self.cache[q]
        if p.ty == "ImplicitPointTPI":
            q = tuple(self.explicit(f[k + i]) for k in "vwu" for i in "123")
            if q not in self.cache:
                ns = [normal(q[i:i + 3]) for i in (0, 3, 6)]
                D = dot(ns[0], cross(ns[1], ns[2]))
                if D == 0:
                    raise _I.PathPanic("an implicit point is the intersection of three planes that do not meet in a point")
                r = [dot(n, q[3 * i]) for i, n in enumerate(ns)]
                v = [r[i] * Fr(1) for i in range(3)]
                c = [cross(ns[1], ns[2]), cross(ns[2], ns[0]), cross(ns[0], ns[1])]
                self.cache[q] = tuple(sum(v[i] * c[i][k] for i in range(3)) / D for k in range(3))
            return self.cache[q]
        raise Unsupported("not a point: %r" % (p,))

    def ori(self, s):
        return self.mk_enum("Orientation", {-1: "Negative", 0: "Zero", 1: "Positive"}[s], [])

    def g_orient3d(self, I, a, info):
        return self.ori(-sg(det3(*[self.where(x) for x in a[:4]])))

    def g_orient2d(self, a, k):
        if not isinstance(k, int):
            raise Unsupported("axis is not known")
        return self.ori(sg(by_axis(*[self.where(x) for x in a[:3]], 2 if k > 1 else k)))


class Config:
    """points, a triangulation, and the tetrahedral mesh as the library represents it"""
    def __init__(self, P, rng):
        self.P = P
        self.cells = regular(P, rng)
        self.ok = self.cells is not None
        if self.ok:
            self.gh = ghosts(self.cells)
            self.ok = self.gh is not None
        if self.ok:
            a = list(self.cells) + list(self.gh)
            rng.shuffle(a)
            self.p2t = [rng.choice([i for i, t in enumerate(a) if v in t and None not in t]) for v in range(len(P))]
            self.tets = []
            for t in a:         # any even arrangement of the vertices (ghost last)
                q = [x for x in itertools.permutations(range(4)) if tetra.parity(x) > 0 and (None not in t or t[x[3]] is None)]
                x = rng.choice(q)
                self.tets.append(tuple(t[i] for i in x))

    def build(self, I, api):
        n = len(self.P)
        T = [tuple(n if v is None else v for v in t) for t in self.tets]
        pts = Slice(I.pts, 0, len(I.pts))
        m = api.mesh(pts, n, [api.tet(t) for t in T], self.p2t + [[i for i, t in enumerate(T) if n in t][0]])
        cell = [m]
        bond = api.inh("TetMesh", "bond")
        byface = {}
        for i, t in enumerate(T):
            for v in t:
                byface.setdefault(frozenset(t) - {v}, []).append((i, v))
        tetra.by_quad(api, m, 0, T[0])
        inv = {v: q for q, v in api._quads.items()}
        for f, l in byface.items():
            if len(l) != 2:
                raise Unsupported("triangulation is not closed")
            (i, u), (j, w) = l
            v1 = [v for v in range(12) if T[i][inv[v][3]] == u][0]
            a, b, c = (T[i][inv[v1][k]] for k in range(3))
            v2 = [v for v in range(12) if (T[j][inv[v][0]], T[j][inv[v][1]], T[j][inv[v][2]]) == (b, a, c)]
            if not v2:
                raise Unsupported("triangulation is not consistently oriented")
            I.run(bond, [Ref(cell, 0), Ref([api.tri(i, v1)], 0), Ref([api.tri(j, v2[0])], 0)], {})
        return cell

    def real(self, t):
        return None not in self.tets[t]

    def tet(self, t):
        return [self.P[v] for v in self.tets[t]]


def configs(n_want, seed=1):
    """deterministic family of small configurations rich in coplanar and collinear points"""
    rng = random.Random(seed)
    out, keys = [], set()
    k = 0
    while len(out) < n_want:
        k += 1
        kind = k % 5
        n = 5 + k % 5
        focus = []
        if kind == 0:
            P = {tuple(rng.randrange(3) for _ in range(3)) for _ in range(n)}
        elif kind == 1:         # most points in one plane
            P = {(rng.randrange(5), rng.randrange(5), 0) for _ in range(n - 2)} | {(rng.randrange(5), rng.randrange(5), rng.choice((1, 2, -1, -2))) for _ in range(3)}
        elif kind == 2:
            P = {tuple(rng.randrange(6) for _ in range(3)) for _ in range(n)}
        elif kind == 4:         # a large triangle with a cluster of points around its middle, in and off its plane
            z = lambda: rng.choice((0, 0, 0, 1, -1)) if k % 2 else rng.choice((0, 1, -1))
            focus = [(0, 0, 0), (14, 0, 0), (0, 14, 0)]
            P = set(focus) | {(3 + rng.randrange(4), 3 + rng.randrange(4), z()) for _ in range(4 + k % 4)}
            P |= {(4 + rng.randrange(2), 4, rng.choice((-3, 3))) for _ in range(2)}
        else:                   # tilted plane x - y + z = 0
            P = set()
            for _ in range(n - 2):
                x, y = rng.randrange(4), rng.randrange(4)
                P.add((x, y, y - x))
            P |= {tuple(rng.randrange(4) for _ in range(3)) for _ in range(3)}
        P = sorted(P)
        rng.shuffle(P)
        if len(P) < 5 or len(P) > (12 if focus else 9):
            continue
        c = Config(P, rng)
        c.focus = tuple(P.index(x) for x in focus)
        key = tuple(P)
        if c.ok and key not in keys:
            keys.add(key)
            out.append(c)
    return out


def touches(n_want, seed=5):
    """a tetrahedron cut by a plane and a triangle of that plane whose sides run through the corners of the section"""
    rng = random.Random(seed)
    out, keys = [], set()
    k = 0
    ev = lambda: 2 * rng.randrange(-3, 4)
    while len(out) < n_want:
        k += 1
        hs = [(2, 2, -2, -2), (2, -2, -2, -2), (0, 2, -2, -2), (0, 0, 2, -2), (2, 2, -2, -2)][k % 5]
        V = [(ev(), ev(), h) for h in hs]
        if len(set(V)) < 4 or det3(*V) == 0:
            continue
        K = [v for v in V if v[2] == 0]
        K += [tuple((a + b) // 2 for a, b in zip(u, v)) for u in V for v in V if u[2] > 0 > v[2]]
        rng.shuffle(K)
        a, b, c = K[:3]
        mul = lambda p, q, s: tuple(x + s * (y - x) for x, y in zip(p, q))
        p1, p2 = mul(b, a, 1 + rng.randrange(3)), mul(a, b, 1 + rng.randrange(3))
        p3 = mul(p2, c, 1 + rng.randrange(3)) if rng.random() < 0.7 else (rng.randrange(-6, 7), rng.randrange(-6, 7), 0)
        T = [p1, p2, p3]
        if len(set(T)) < 3 or not any(normal(T)):
            continue
        P = V + [p for p in T if p not in V]
        sh = list(P)
        rng.shuffle(sh)
        key = tuple(sorted(P))
        if key in keys:
            continue
        for _ in range(4):
            c = Config(sh, rng)
            if c.ok and any(set(t) == {sh.index(v) for v in V} for t in c.tets):
                # in general position with respect to the axes
                c.focus = tuple(sh.index(p) for p in T)
                keys.add(key)
                out.append(c)
                break
    return out

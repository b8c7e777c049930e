"""P18-P20: the tetrahedral mesh.

P18 decides the version algebra (edges of faces of tetrahedra) by interpreting every
navigation function for every version on a tetrahedron with opaque vertices."""
import itertools
import interp as _I
from interp import Interp, Agg, Arr, Ref, Slice, VecV, Unsupported, PathPanic
from vg import N
import builtins_model as bm

T = "triangle::tetrahedron::"


def parity(p):
    p, s = list(p), 1
    for i in range(len(p)):
        while p[i] != i:
            j = p[i]
            p[i], p[j] = p[j], p[i]
            s = -s
    return s


def rel_parity(a, b):
    """parity of the permutation taking tuple a to tuple b"""
    return parity([list(a).index(x) for x in b])


def point_index(I, s, pts):
    """which input point the slice holds the coordinates of (in place or copied)"""
    s = bm.as_slice(I, s)
    if s is not None and s.c is pts and s.start % 3 == 0:
        return s.start // 3
    if s is not None and isinstance(s.n, int) and s.n >= 3:
        v = [_I.Ref(s.c, s.start + k).get() for k in range(3)]
        for k in range(0, len(pts), 3):
            if all(x is y or (isinstance(x, float) and x == y) for x, y in zip(v, pts[k:k + 3])):
                return k // 3
    raise Unsupported("a predicate is called on coordinates that are not a point of the input")


class Api:
    """the functions of the tetrahedral mesh, looked up by name"""

    def __init__(self, prog, I):
        self.prog, self.I = prog, I
        st = prog.structs
        for t in ("TetMesh", "Tet", "TriFace"):
            if t not in st:
                raise Unsupported("struct %s not found" % t)
        self.mf, self.tf, self.ff = list(st["TetMesh"]), list(st["Tet"]), list(st["TriFace"])

    def inh(self, ty, m):
        f = (self.prog.inherent.get((ty, m)) or [None])[0]
        if f is None:
            raise Unsupported("%s::%s not found" % (ty, m))
        return f

    def free(self, name):
        f = self.prog.by_call.get(T + name)
        if f is None:
            raise Unsupported("%s%s not found" % (T, name))
        return f

    def tri(self, tet, ver):
        return self.I.run(self.inh("TriFace", "new"), [tet, ver], {})

    def tv(self, f):
        return f.f[self.ff.index("tet")], f.f[self.ff.index("ver")]

    def tet(self, data):
        for (t, tr, m), f in self.prog.trait_impls.items():
            if t.split("::")[-1] == "Tet" and m == "default":
                r = self.I.run(f[0] if isinstance(f, list) else f, [], {})
                r.f[self.tf.index("data")] = Arr(list(data))
                return r
        raise Unsupported("Tet::default not found")

    def mesh(self, points, n_points, tets, p2t):
        new = self.inh("TetMesh", "new")
        m = self.I.run(new, [points], {})
        m.f[self.mf.index("n_points")] = n_points
        m.f[self.mf.index("tets")] = VecV(list(tets))
        m.f[self.mf.index("p2t")] = VecV(list(p2t))
        return m

    def get(self, m, name):
        return m.f[self.mf.index(name)]

    def data(self, m, t):
        return list(self.get(m, "tets").f[t].f[self.tf.index("data")].f)

    def q(self, m, name, f):
        """TetMesh method on a TriFace"""
        return self.I.run(self.inh("TetMesh", name), [Ref([m], 0), Ref([f], 0)], {})

    def quad(self, m, t, v):
        f = self.tri(t, v)
        return tuple(self.q(m, n, f) for n in ("org", "dest", "apex", "oppo"))

    def step(self, m, name, t, v):
        """fsym_self / fnext_self and TriFace's *_self"""
        c = [self.tri(t, v)]
        if ("TriFace", name) in self.prog.inherent:
            self.I.run(self.inh("TriFace", name), [Ref(c, 0)], {})
        else:
            self.I.run(self.inh("TetMesh", name), [Ref([m], 0), Ref(c, 0)], {})
        return self.tv(c[0])


MOVES = {          # what each move does to (org, dest, apex, oppo)
    "enext": lambda q: (q[1], q[2], q[0], q[3]),
    "eprev": lambda q: (q[2], q[0], q[1], q[3]),
    "esym": lambda q: (q[1], q[0], q[3], q[2]),
}
MOVES["enext_esym"] = lambda q: MOVES["esym"](MOVES["enext"](q))
MOVES["eprev_esym"] = lambda q: MOVES["esym"](MOVES["eprev"](q))


def check_nav(ctx):
    prog = ctx.prog
    ctx.rule("every version of a tetrahedron with four opaque vertices; every pair of versions that two neighbours can be glued at")
    I = Interp(prog)
    api = Api(prog, I)
    pts = Slice([0.0] * 30, 0, 30)
    fresh = lambda n: [I.g.mk("isym", "v%d" % i) for i in range(n)]
    w = fresh(4)
    # vertices of the versions
    m = api.mesh(pts, 9, [api.tet([0, 1, 2, 3])], [0] * 10)
    quads = [api.quad(m, 0, v) for v in range(12)]
    seen = set()
    for v, q in enumerate(quads):
        ok = ctx.ob(sorted(q) == [0, 1, 2, 3], "version:perm", "version %d: org, dest, apex, oppo are %r, not the four vertices" % (v, q))
        if ok:
            ctx.ob(parity(q) == parity(quads[11]) and q not in seen, "version:orient", "version %d: %r repeats or reverses the orientation of the tetrahedron" % (v, q))
        seen.add(q)
        ctx.count("versions")
    if ctx.viol:
        return
    by = {q: v for v, q in enumerate(quads)}
    for name, f in MOVES.items():
        for v in range(12):
            want = by[f(quads[v])]
            got = api.step(m, name + "_self", 5, v)
            ctx.ob(got == (5, want), "move:%s_self" % name, "TriFace::%s_self takes version %d %r to %r; expected version %d %r" % (name, v, quads[v], got, want, quads[want]))
            ctx.count("moves")
            fr = prog.by_call.get(T + name)
            if fr is not None:
                src, dst = [api.tri(5, v)], [api.tri(77, 0)]
                I.run(fr, [Ref(src, 0), Ref(dst, 0)], {})
                ctx.ob(api.tv(dst[0]) == (5, want) and api.tv(src[0]) == (5, v), "move:" + name, "%s takes version %d %r to %r; expected version %d %r" % (name, v, quads[v], api.tv(dst[0]), want, quads[want]))
                ctx.count("moves")
    for i in range(4):
        c = prog.by_call.get(T + "VPIVOT")
        if c is not None:
            vp = I.eval_const(c).f[i]
            ctx.ob(quads[vp][0] == i, "vpivot", "VPIVOT[%d] = %d does not start at vertex %d" % (i, vp, i))
        got = I.run(api.inh("Tet", "index"), [Ref([api.tet([10, 11, 12, 13])], 0), 10 + i], {})
        ctx.ob(isinstance(got, Agg) and len(got.f) == 1 and got.f[0] == i, "index", "Tet::index of vertex %d gives %r" % (i, got))
    got = I.run(api.inh("Tet", "index"), [Ref([api.tet([10, 11, 12, 13])], 0), 14], {})
    ctx.ob(isinstance(got, Agg) and not got.f, "index", "Tet::index of a vertex that is not there gives %r" % (got,))
    for d, want in (([1, 2, 3, 9], True), ([1, 2, 3, 4], False)):
        mm = api.mesh(pts, 9, [api.tet(d)], [0] * 10)
        got = I.truth(I.run(api.inh("TetMesh", "is_hull_tet"), [Ref([mm], 0), 0], {}))
        ctx.ob(got == want, "is_hull_tet", "is_hull_tet of %r with ghost 9 is %r" % (d, got))
    # gluing: faces v1 of tet 0 and v2 of tet 1, edges reversed
    fs = ["fsym_self"] + (["fsym"] if ("TetMesh", "fsym") in prog.inherent else [])
    for v1 in range(12):
        for v2 in range(12):
            d0 = [0, 1, 2, 3]
            q1 = quads[v1]
            d1 = [None] * 4
            for pos, vert in zip(quads[v2], (q1[1], q1[0], q1[2], 4)):
                d1[pos] = vert
            cell = [api.mesh(pts, 9, [api.tet(d0), api.tet(d1)], [0] * 10)]
            I.run(api.inh("TetMesh", "bond"), [Ref(cell, 0), Ref([api.tri(0, v1)], 0), Ref([api.tri(1, v2)], 0)], {})
            m = cell[0]
            for t, o, v in ((0, 1, v1), (1, 0, v2)):
                u = v
                nei = api.get(m, "tets").f[t].f[api.tf.index("nei")].f
                k = quads[v][3]
                ctx.ob(api.tv(nei[k])[0] == o, "bond:slot", "after bond at versions %d, %d the neighbour opposite vertex %d is not the glued tetrahedron" % (v1, v2, k))
                for _ in range(3):
                    qa = api.quad(m, t, u)
                    want = (qa[1], qa[0], qa[2])
                    got = api.step(m, "fsym_self", t, u)
                    ok = got[0] == o and api.quad(m, o, got[1])[:3] == want
                    ctx.ob(ok, "fsym_self", "fsym_self from version %d (glued at %d, %d): reaches %r instead of the reversed edge in the neighbour" % (u, v1, v2, got))
                    if ok:
                        back = api.step(m, "fsym_self", *got)
                        ctx.ob(back == (t, u), "fsym_self:back", "fsym_self twice from version %d (glued at %d, %d) ends at %r" % (u, v1, v2, back))
                    if "fsym" in fs:
                        dst = [api.tri(77, 0)]
                        I.run(api.inh("TetMesh", "fsym"), [Ref([m], 0), Ref([api.tri(t, u)], 0), Ref(dst, 0)], {})
                        ctx.ob(api.tv(dst[0]) == got or not ok, "fsym", "fsym and fsym_self differ from version %d (glued at %d, %d)" % (u, v1, v2))
                    # fnext from the version whose side face is the glued one
                    w_ = by_quad(api, m, t, (qa[1], qa[0], qa[3], qa[2]))
                    nx = api.step(m, "fnext_self", t, w_)
                    qn = api.quad(m, nx[0], nx[1]) if nx[0] in (0, 1) else None
                    ctx.ob(nx[0] == o and qn[:3] == (qa[1], qa[0], qa[2]), "fnext_self",
                           "fnext_self from version %d (glued at %d, %d): reaches %r, not the same edge in the next tetrahedron" % (w_, v1, v2, nx))
                    ctx.count("glued versions")
                    u = by_quad(api, m, t, (qa[1], qa[2], qa[0], qa[3]))
    ctx.saw(I.called)
    ctx.floor("versions", 12)
    ctx.floor("moves", 60)
    ctx.floor("glued versions", 800)


def by_quad(api, m, t, q):
    if not hasattr(api, "_quads"):
        mm = api.mesh(Slice([0.0] * 3, 0, 3), 9, [api.tet([0, 1, 2, 3])], [0] * 10)
        api._quads = {api.quad(mm, 0, v): v for v in range(12)}
    d = api.data(m, t)
    return api._quads[tuple(d.index(x) for x in q)]


# ---------------------------------------------------------------- incremental construction
class Complex:
    """oriented closed complex of tetrahedra; ghost tetrahedra contain the vertex G"""

    def __init__(self, tets, G):
        self.t, self.G = [tuple(x) for x in tets], G
        self.byset = {frozenset(x): i for i, x in enumerate(self.t)}
        self.face = {}
        for i, x in enumerate(self.t):
            for w in x:
                self.face.setdefault(frozenset(x) - {w}, []).append(i)
        self.verts = {v for x in self.t for v in x}

    def ghost(self, i):
        return self.G in self.t[i]

    def nbrs(self, i):
        return [j for w in self.t[i] for j in self.face[frozenset(self.t[i]) - {w}] if j != i]

    def star(self, s):
        return [i for i, x in enumerate(self.t) if s <= set(x)]

    def boundary(self, C):
        """oriented boundary faces of C: (a, b, c, tet) with (a, b, c, opposite) even"""
        out = []
        for i in C:
            x = self.t[i]
            for k, w in enumerate(x):
                f = frozenset(x) - {w}
                j = [q for q in self.face[f] if q != i][0]
                if j not in C:
                    y = [v for v in x if v != w]
                    if rel_parity(x, y + [w]) < 0:
                        y[0], y[1] = y[1], y[0]
                    out.append(tuple(y) + (i,))
        return out

    def ball(self, C):
        """C is a cavity: its boundary is one sphere and no vertex is inside"""
        b = self.boundary(C)
        if not b:
            return False
        vs = {v for f in b for v in f[:3]}
        if vs != {v for i in C for v in self.t[i]}:
            return False
        ed = {}
        for f in b:
            for e in itertools.combinations(f[:3], 2):
                ed.setdefault(frozenset(e), []).append(f)
        if any(len(x) != 2 for x in ed.values()):
            return False
        if len(vs) - len(ed) + len(b) != 2:
            return False
        seen, todo = {b[0]}, [b[0]]
        while todo:
            f = todo.pop()
            for e in itertools.combinations(f[:3], 2):
                for g in ed[frozenset(e)]:
                    if g not in seen:
                        seen.add(g)
                        todo.append(g)
        return len(seen) == len(b)

    def fill(self, C, p):
        new = [x for i, x in enumerate(self.t) if i not in C]
        for a, b, c, i in self.boundary(C):
            new.append((a, b, c, p))
        return Complex(new, self.G)

    def canon(self):
        return sorted(tuple(sorted(x, key=str)) for x in self.t)


class Plan:
    """where a point lies and which tetrahedra conflict with it"""

    def __init__(self, cx, kind, sigma, C, zero, ties=False):
        self.cx, self.kind, self.sigma, self.C = cx, kind, sigma, frozenset(C)
        self.s = {}
        G = cx.G
        ghosts = [i for i in range(len(cx.t)) if cx.ghost(i)]
        star = set(cx.star(sigma)) if sigma is not None else {i for i in self.C if cx.ghost(i)}
        dist = {i: 0 for i in star}
        todo = sorted(star)
        for i in todo:
            for j in cx.nbrs(i):
                if j not in dist and not cx.ghost(j):
                    dist[j] = dist[i] + 1
                    todo.append(j)
        self.strict = False
        for i, x in enumerate(cx.t):
            if cx.ghost(i):
                continue
            for w in x:
                f = frozenset(x) - {w}
                j = [q for q in cx.face[f] if q != i][0]
                if cx.ghost(j):
                    if sigma is not None:
                        v = 0 if sigma <= f else 1
                        if v == 1 and zero and j not in self.C and i not in self.C:
                            v = 0
                    else:
                        v = -1 if j in self.C else 1
                        if zero and j not in self.C and i not in self.C:
                            v = 0
                        if zero and j in self.C and i in self.C and self.strict:
                            v = 0
                        if v < 0:
                            self.strict = True
                elif sigma is not None and sigma <= f:
                    v = 0
                elif i in star:
                    v = 1
                elif j in star:
                    v = -1
                else:
                    v = -1 if (dist[j], j) < (dist[i], i) else 1
                self.s[(i, f)] = v

    def show(self):
        return "%s%s %s, conflicts %s" % (self.kind, "" if not any(v == 0 for v in self.s.values()) or self.sigma else " (coplanar faces %s)" % [sorted(k[1]) for k, v in self.s.items() if v == 0], sorted(self.sigma) if self.sigma else "", sorted(tuple(self.cx.t[i]) for i in self.C))


def grow(cx, base, allowed, limit, cap):
    """connected supersets of base inside `allowed`, up to `limit` members"""
    out, todo, seen = [], [frozenset(base)], {frozenset(base)}
    while todo and len(out) < cap:
        C = todo.pop(0)
        out.append(C)
        if len(C) >= limit:
            continue
        for i in sorted(C):
            for j in cx.nbrs(i):
                if j not in C and j in allowed:
                    D = C | {j}
                    if D not in seen:
                        seen.add(D)
                        todo.append(D)
    return out


def plans(cx, limit, cap=400):
    reals = {i for i in range(len(cx.t)) if not cx.ghost(i)}
    ghosts = set(range(len(cx.t))) - reals
    out = []

    def add(kind, sigma, base, allowed):
        for C in grow(cx, base, allowed, max(limit, len(base) + 1), cap):
            if cx.ball(C):
                for z in (False, True):
                    p = Plan(cx, kind, sigma, C, z)
                    if z and (p.s == out[-1].s or any(sum(p.s[(i, frozenset(x) - {w})] == 0 for w in x) > 2 for i, x in enumerate(cx.t) if not cx.ghost(i))):
                        continue        # three face planes of a tetrahedron meet in a vertex
                    out.append(p)
    for i in sorted(reals):
        add("inside", frozenset(cx.t[i]), [i], reals)
    for f, (i, j) in sorted(cx.face.items(), key=lambda x: sorted(x[0], key=str)):
        if cx.G not in f:
            add("on face", f, [i, j], reals | {i, j})
    edges = {frozenset(e) for x in cx.t for e in itertools.combinations(x, 2) if cx.G not in e}
    for e in sorted(edges, key=sorted):
        st = cx.star(e)
        add("on edge", e, st, reals | set(st))
    for g in sorted(ghosts):
        add("outside", None, [g], reals | ghosts)
    for v in sorted(cx.verts - {cx.G}):
        out.append(Plan(cx, "duplicate of", frozenset([v]), [], False))
    return out


class TetInterp(Interp):
    MAX_STEPS = 3000000

    def __init__(self, prog, n, first, rest, degen):
        super().__init__(prog)
        self.npts, self.first, self.rest, self.degen = n, first, rest, degen
        self.planned = {}
        S = self.summaries
        S["rand::thread_rng"] = lambda I, a, i: Agg("rng", None, [])
        S[("SliceRandom", "shuffle")] = lambda I, a, i: _I.UNIT
        S["math::norm"] = self.norm
        S["predicates::predicates::orient3d"] = S["predicates::orient3d"] = self.o3
        S["predicates::predicates::orient3d_fast"] = S["predicates::orient3d_fast"] = self.o3fast
        S["predicates::predicates::insphere"] = S["predicates::insphere"] = self.isph

    def reset(self):
        super().reset()
        self.cx, self.plan, self.pid, self.dups = None, None, None, set()
        self.norms, self.flat = 0, False
        self.init, self.big, self.hist, self.kinds = None, {}, [], []
        self.degenerate = False

    def compare(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and op in ("Lt", "Le", "Gt", "Ge"):
            k = b if 256 <= b < 1 << 20 and a < 256 else a if 256 <= a < 1 << 20 and b < 256 else None
            if k is not None:       # a size limit: either side of it
                if k not in self.big:
                    self.big[k] = bool(self.choose(2, ("limit", k)))
                less = {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
                return less != self.big[k]
        return super().compare(op, a, b)

    def norm(self, I, a, info):
        self.norms += 1
        if not self.degen or self.flat:
            return float(not self.flat)
        if self.norms == 1:
            self.flat = bool(self.choose(2, ("all coincide",)))
            self.degenerate |= self.flat
            return float(not self.flat)
        d = self.choose(2, ("norm", self.norms))
        self.degenerate |= bool(d)
        return float(1 - d)

    def index(self, s):
        return point_index(self, s, self.pts)

    def o3fast(self, I, a, info):
        k = [self.index(x) for x in a[:4]]
        if self.cx is not None:
            raise Unsupported("orient3d_fast after the first tetrahedron")
        v = 0.0 if self.flat else (1.0, -1.0, 0.0)[self.choose(3 if self.degen else 2, ("ori",) + tuple(k))]
        self.degenerate |= v == 0
        self.init = (k, v)
        return v

    def start(self):
        if self.init is None or self.init[1] == 0:
            raise Unsupported("the first tetrahedron is not known to be non-degenerate")
        k, v = self.init
        if v > 0:
            k = [k[1], k[0], k[2], k[3]]
        G = self.npts
        t = tuple(k)
        tets = [t]
        for i, w in enumerate(t):
            g = list(t)
            g[i] = G
            j, l = [q for q in range(4) if q != i][:2]
            g[j], g[l] = g[l], g[j]
            tets.append(tuple(g))
        self.cx = Complex(tets, G)

    def finish(self):
        """the point being inserted becomes part of the complex"""
        if self.cx is None:
            self.start()
        if self.pid is not None:
            self.hist.append("point %d %s" % (self.pid, self.plan.show()))
            self.kinds.append(self.plan.kind)
            if self.plan.sigma is not None and len(self.plan.sigma) == 1:
                self.dups.add(self.pid)
            else:
                self.cx = self.cx.fill(self.plan.C, self.pid)
            self.pid = None

    def locate(self, ids):
        if self.cx is None:
            self.start()
        new = [x for x in ids if x not in self.cx.verts and x != self.pid]
        cur = [x for x in ids if x == self.pid]
        if new:
            self.finish()
            if len(new) > 1 or new[0] in self.dups or any(x not in self.cx.verts for x in cur):
                raise Unsupported("a predicate relates two points that are not in the mesh")
            pid = new[0]
            key = (tuple(self.cx.canon()), tuple(self.cx.t))
            if key not in self.planned:
                self.planned[key] = plans(self.cx, 4)
            ps = self.planned[key]
            sel = self.rest if len(self.hist) else self.first
            if self.degenerate:
                sel = (0, 1)
            idx = pick(len(ps), sel, len(self.hist))
            if not idx:
                raise _I.PathPruned("no such part")
            self.plan = ps[idx[self.choose(len(idx), ("plan", len(self.hist)))]]
            self.pid = pid
            return pid
        if len(cur) != 1:
            raise Unsupported("a predicate relates only points that are in the mesh")
        return self.pid

    def o3(self, I, a, info):
        ids = [self.index(x) for x in a[:4]]
        if len(set(ids)) < 4:
            return 0.0
        pid = self.locate(ids)
        f = frozenset(ids) - {pid}
        cand = [i for i in self.cx.face.get(f, []) if not self.cx.ghost(i)]
        if not cand:
            raise Unsupported("orientation of a triangle that is not in the mesh")
        i = cand[0]
        t = self.cx.t[i]
        w = (set(t) - f).pop()
        u = [w if x == pid else x for x in ids]
        return float(self.plan.s[(i, f)] * -rel_parity(t, u))

    def isph(self, I, a, info):
        ids = [self.index(x) for x in a[:5]]
        pid = self.locate(ids)
        s = frozenset(ids) - {pid}
        i = self.cx.byset.get(s)
        if i is None or len(s) != 4:
            raise Unsupported("in-sphere test with points that are not a tetrahedron of the mesh")
        par = rel_parity(self.cx.t[i] + (pid,), ids)
        return float((-1 if i in self.plan.C else 1) * par)


def pick(n, sel, level):
    """sel = (offset, count) or None for all: a deterministic sample of range(n)"""
    if sel is None:
        return list(range(n))
    off, cnt = sel
    if isinstance(off, tuple):          # (w, k): the w-th of k parts
        return list(range(off[0], n, off[1]))
    return sorted({(off * 37 + level * 11 + i * max(1, n // cnt)) % n for i in range(min(cnt, n))})


def coords(n):
    out = []
    for i in range(n):
        out += [float((i * 7) % 11), float((i * 5 + 3) % 13), float((i * 3 + 1) % 7)]
    return out


def verify(I, api, mesh, ctx):
    """compare the finished mesh with the specified complex; returns None or (key, message)"""
    cx, G = I.cx, I.npts
    tets = api.get(mesh, "tets").f
    n = len(tets)
    how = "; ".join(I.hist)
    data = [tuple(api.data(mesh, t)) for t in range(n)]
    for d in data:
        if G in d and d[3] != G:
            return "ghost", "%s: a hull tetrahedron %r does not end in the ghost vertex" % (how, d)
        if any(not isinstance(v, int) or not 0 <= v <= G for v in d):
            return "vertex", "%s: a tetrahedron has the vertices %r" % (how, d)
    want = {frozenset(x): x for x in cx.t}
    if len(data) != len(want) or {frozenset(d) for d in data} != set(want):
        return "tets", "%s: the tetrahedra are %s, expected %s" % (how, sorted(data), sorted(cx.t))
    for d in data:
        if rel_parity(want[frozenset(d)], d) < 0:
            return "orientation", "%s: tetrahedron %r is inverted" % (how, d)
    quads = api._quads
    nei = [[api.tv(x) for x in tets[t].f[api.tf.index("nei")].f] for t in range(n)]
    for t in range(n):
        for q, v in quads.items():
            e = [data[t][i] for i in q]
            # fsym of this version, by the tables the accessor uses
            o, u = I.api_fsym(api, mesh, t, v, nei[t][q[3]])
            if not (isinstance(o, int) and 0 <= o < n and isinstance(u, int) and 0 <= u < 12):
                return "link", "%s: tetrahedron %r has no neighbour across %r" % (how, data[t], e[:3])
            p = next(k for k, x in quads.items() if x == u)
            e2 = [data[o][i] for i in p]
            if e2[:3] != [e[1], e[0], e[2]] or o == t:
                return "link", "%s: across %r of %r the neighbour is %r at %r" % (how, e[:3], data[t], data[o], e2[:3])
    p2t = api.get(mesh, "p2t").f
    for v in range(G):
        if v in cx.verts:
            t = p2t[v]
            if not (isinstance(t, int) and 0 <= t < n and v in data[t] and G not in data[t]):
                return "p2t", "%s: vertex %d is said to belong to tetrahedron %r" % (how, v, data[t] if isinstance(t, int) and 0 <= t < n else t)
        elif p2t[v] != (1 << 64) - 1:
            return "p2t", "%s: the duplicate point %d has a tetrahedron" % (how, v)
    if api.get(mesh, "n_points") != G:
        return "n_points", "n_points changed"
    for t in range(n):
        for m in ("infected", "mark_tested"):
            if I.truth(I.run(api.inh("TetMesh", m), [Ref([mesh], 0), t], {})):
                return "marks", "%s: tetrahedron %r is still marked (%s)" % (how, data[t], m)
    cell = [mesh]
    for v in sorted(cx.verts - {G}):
        r = I.run(api.inh("TetMesh", "incident"), [Ref(cell, 0), v, Agg("bump", None, [])], {})
        got = sorted(r.f)
        if got != [t for t in range(n) if v in data[t] and G not in data[t]]:
            return "incident", "%s: incident(%d) gives %s" % (how, v, [data[t] for t in got])
    return None


def _api_fsym(self, api, mesh, t, v, link):
    if self._fs is None:
        self._fs = {}
    k = (v, link[1])
    if k not in self._fs:
        if not (isinstance(link[1], int) and 0 <= link[1] < 12):
            return None, None
        mm = api.mesh(Slice([0.0] * 3, 0, 3), 1, [api.tet([0, 1, 2, 3])], [0] * 2)
        nb = api.get(mm, "tets").f[0].f[api.tf.index("nei")]
        nb.f = [api.tri(7, link[1]) for _ in range(4)]
        self._fs[k] = api.step(mm, "fsym_self", 0, v)
    o, u = self._fs[k]
    return (link[0], u) if o == 7 else (None, None)


TetInterp.api_fsym = _api_fsym
TetInterp._fs = None


def build_job(ctx, n, first, rest, degen):
    prog = ctx.prog
    I = TetInterp(prog, n, first, rest, degen)
    api = Api(prog, I)
    by_quad(api, api.mesh(Slice([0.0] * 3, 0, 3), 9, [api.tet([0, 1, 2, 3])], [0] * 10), 0, (0, 1, 2, 3) if False else api.quad(api.mesh(Slice([0.0] * 3, 0, 3), 9, [api.tet([0, 1, 2, 3])], [0] * 10), 0, 0))
    fn = prog.by_call.get(T + "tetrahedralize")
    if fn is None:
        raise Unsupported("tetrahedralize not found")
    base = coords(n)

    def run():
        I.pts = list(base)
        mesh = I.run(fn, [Slice(I.pts, 0, len(I.pts))], {})
        if I.init is None or I.init[1] == 0 or abs(I.init[1]) != 1:
            if len(api.get(mesh, "tets").f):
                return "degenerate", "tetrahedra are built although no four points span one"
            return None
        I.finish()
        return verify(I, api, mesh, ctx)
    bad = 0
    for (st, r), facts in I.explore(run, limit=100000):
        if st == "pruned":
            continue
        ctx.count("construction classes")
        for k in I.kinds:
            ctx.count("insertions " + k)
        if st == "panic":
            r = ("panic", "%s: tetrahedralize panics: %s" % ("; ".join(I.hist + ["point %s %s" % (I.pid, I.plan.show())] if I.plan else I.hist), r))
        bad += r is not None
        ctx.ob(r is None, "tetrahedralize:%s" % (r[0] if r else ""), r[1] if r else "", {"insertions": list(I.hist)} if ctx.obligations % 40 == 0 else None)
        if bad > 5:
            break
    ctx.saw(I.called)


def check_build(ctx):
    ctx.rule("tetrahedralize is interpreted with the geometric predicates answered by a consistent arrangement chosen per inserted point (where it lies, which tetrahedra it conflicts with, which hull faces it is coplanar with); "
             "the resulting mesh must be the complex obtained by removing the conflicting tetrahedra and coning their boundary, with mutual links, positive orientation, ghost vertex last, no marks left and a valid point-to-tetrahedron map")
    jobs = []
    add = lambda *a: jobs.append(lambda c: build_job(c, *a))
    for w in range(16):
        add(5, ((w, 16), None), None, False)
    for n in (0, 1, 2, 3, 4):
        add(n, None, None, True)
    for w in range(4):
        add(5, ((w, 4), None), (0, 1), True)
    k, m = (97, 40) if ctx.thorough else (97, 8)
    for w in range(k):
        add(6, ((w, k), None), (w, m), False)
    for w in range(40 if ctx.thorough else 16):
        add(7, (w * 5, 2), (w, 5 if ctx.thorough else 2), False)
    order = sorted(range(len(jobs)), key=lambda i: (i * 31) % len(jobs))
    ctx.parallel([jobs[i] for i in order])
    ctx.floor("construction classes", 900)
    for k in ("inside", "on face", "on edge", "outside", "duplicate of"):
        ctx.floor("insertions " + k, 20)


def check_perturbed(ctx):
    """insphere_s: the in-sphere sign, ties broken as if every point were lifted by its own infinitesimal"""
    ctx.rule("insphere_s is interpreted for every order of five point indices and every outcome of the predicates it consults; the answer must be the in-sphere sign, and on a tie the sign of the determinant "
             "whose lifted coordinates are perturbed by infinitesimals decreasing with the index: the orientation of the points after the first with the alternating cofactor signs, the same direction for all points")
    prog = ctx.prog
    I = Interp(prog)
    api = Api(prog, I)
    fn = api.free("insphere_s")
    npt = 6
    pts = [float(i) for i in range(3 * npt)]
    st = {}

    def index(s):
        return point_index(I, s, pts)

    def isph(I_, a, info):
        k = tuple(index(x) for x in a[:5])
        if sorted(k) != sorted(st["perm"]):
            raise Unsupported("in-sphere test of other points than the five given")
        v = (1, -1, 0)[I.choose(3, ("insphere",))]
        st["s"] = v
        return float(v * rel_parity(st["perm"], k))

    def o3(I_, a, info):
        k = tuple(index(x) for x in a[:4])
        base = tuple(sorted(k))
        if len(set(k)) < 4:
            return 0.0
        key = ("o", base)
        if key not in st:
            st[key] = (1, -1, 0)[I.choose(3, key)]
        return float(st[key] * rel_parity(base, k))
    for m in ("predicates::predicates::", "predicates::"):
        I.summaries[m + "insphere"] = isph
        I.summaries[m + "orient3d"] = o3
        I.summaries[m + "orient3d_fast"] = o3
    fs = api.mesh(Slice(pts, 0, len(pts)), npt, [api.tet([0, 1, 2, 3])], [0] * (npt + 1))
    direction = set()
    for ids in ((0, 1, 2, 3, 4), (0, 2, 3, 4, 5)):
        for perm in itertools.permutations(ids):
            def run():
                st.clear()
                st["perm"] = perm
                r = I.run(fn, [Ref([fs], 0)] + list(perm) + [Agg("bump", None, [])], {})
                return {"Positive": 1, "Zero": 0, "Negative": -1, "Undefined": 9}.get(prog.enums["Orientation"][r.var])
            for (s, r), facts in I.explore(run):
                if s == "pruned":
                    continue
                ctx.count("tie-break classes")
                msg = None
                if s == "panic":
                    msg = "panics: %s" % r
                elif r is None or r == 9:
                    msg = "the answer is no sign"
                elif st.get("s", 0):
                    if r != st["s"]:
                        msg = "the in-sphere sign is %+d, the answer %+d" % (st["s"], r)
                else:
                    p = sorted(perm)
                    d = rel_parity(tuple(p), perm)
                    want = 0
                    for i in range(5):
                        rest = tuple(p[:i] + p[i + 1:])
                        if ("o", rest) not in st:
                            want = None         # not consulted: undetermined
                            break
                        if st[("o", rest)]:
                            want = (-1) ** i * st[("o", rest)] * d
                            break
                        if i == 1:
                            break       # three of five cospherical points are never collinear: all five are coplanar
                    if want is None:
                        msg = "the answer does not depend on the orientation of the points after point %d" % p[i]
                    elif abs(want) != abs(r):
                        msg = "the answer is %+d although the perturbed determinant has sign %+d" % (r, want)
                    elif want:
                        direction.add(want * r)
                        if len(direction) > 1:
                            msg = "the answer %+d for %s does not fit the answers for the other orders of the same points" % (r, (perm,))
                            direction.discard(want * r)
                ctx.ob(msg is None, "insphere_s:perturbation", "insphere_s on the points %s: %s" % (list(perm), msg), {"order": list(perm)} if ctx.obligations % 100 == 0 else None)
    ctx.saw(I.called)
    ctx.floor("tie-break classes", 500)



def check_sort(ctx):
    """the spatial sort only permutes the indices"""
    ctx.rule("the multiscale spatial sort is interpreted on points with arbitrary coordinates; for every outcome of every comparison the index list afterwards holds the same indices, each once, and no index is out of range")
    jobs = [(0, 8, 1, 1, 0.5), (1, 8, 1, 1, 0.5), (2, 8, 3, 1, 0.5), (3, 8, 1, 1, 0.5), (3, 2, 1, 1, 0.5), (4, 8, 1, 4, 0.5), (4, 3, 1, 2, 0.5), (5, 3, 1, 5, 0.25), (3, 1, 1, 4, 0.25)]
    if ctx.thorough:
        jobs += [(4, 8, 1, 1, 0.5), (3, 8, 2, 1, 0.5), (5, 8, 1, 8, 0.5)]
    def job(c, n, thr, order, lim, ratio):
        prog = c.prog
        I = Interp(prog)
        fn = Api(prog, I).free("brio_multiscale_sort")
        if "SortOption" not in prog.structs:
            raise Unsupported("struct SortOption not found")
        vals = dict(threshold=thr, hilbert_order=order, hilbert_limit=lim, ratio=ratio)
        st = prog.structs["SortOption"]
        if set(st) != set(vals):
            raise Unsupported("fields of SortOption")
        off = 2

        def run():
            pts = [I.g.leaf("p%d.%d" % (i // 3, i % 3)) for i in range(3 * (n + off))]
            bb = [I.g.leaf("b%d" % i) for i in range(6)]
            inds = VecV(list(range(off, n + off)))
            opt = Agg("SortOption", None, [vals[f] for f in st])
            depth = [1]
            I.run(fn, [Slice(pts, 0, len(pts)), Slice(inds.f, 0, n, inds), Slice(bb, 0, 6), Ref([opt], 0), Ref(depth, 0)], {})
            return inds.f
        for (s, r), facts in I.explore(run, limit=400000):
            if s == "pruned":
                continue
            c.count("sort classes")
            ok = s == "return" and sorted(r) == list(range(off, n + off)) if s != "panic" else False
            c.ob(ok, "spatial-sort:" + ("panic" if s == "panic" else "permutation"), "sorting %d points (threshold %d, order %d, limit %d): %s" % (n, thr, order, lim, r if s == "panic" else "the result is %r" % (r,)),
                   {"points": n, "facts": len(facts)} if c.obligations % 200 == 0 else None)
        c.saw(I.called)
    ctx.parallel([lambda c, j=j: job(c, *j) for j in jobs])
    ctx.floor("sort classes", 500)

"""P24-P26: constraints in the tetrahedral mesh and their subdivision of space."""
import itertools, random
from fractions import Fraction as Fr
from interp import Interp, Agg, Ref, Slice, VecV, Unsupported
import interp as _I
import builtins2
import mesh, tetra, soup
import builtins_model as bm
from geo3 import *

G = Agg("Global", None, [])


def fn_of(prog, ty, name):
    f = (prog.inherent.get((ty, name)) or [None])[0]
    if f is None:
        raise Unsupported("%s::%s not found" % (ty, name))
    return f


def triples(c, rng, cap):
    """triangles on the points of c in random vertex order"""
    out = [list(t) for t in itertools.combinations(range(len(c.P)), 3) if not collinear(*[c.P[i] for i in t])]
    rng.shuffle(out)
    if c.focus:
        out = [list(c.focus)] + [t for t in out if set(t) != set(c.focus)]
    for t in out:
        rng.shuffle(t)
    return out[:cap]


# ---- exact geometry of small convex pieces ----------------------------------------------
def clip_poly(poly, n, d):
    """part of a convex polygon (list of points) where n.x <= d; None if it has no interior"""
    out = []
    for a, b in zip(poly, poly[1:] + poly[:1]):
        x, y = dot(n, a) - d, dot(n, b) - d
        if x <= 0:
            out.append(a)
        if x * y < 0:
            s = Fr(x, 1) / (x - y)
            out.append(tuple(p + s * (q - p) for p, q in zip(a, b)))
    return out


def area_zero(poly):
    if len(poly) < 3:
        return True
    return all(not any(cross(sub(b, poly[0]), sub(c, poly[0]))) for b, c in zip(poly[1:], poly[2:]))


def planes_of(tet):
    """outward half spaces n.x <= d of a positive tetrahedron"""
    out = []
    for i in range(4):
        f = [tet[j] for j in range(4) if j != i]
        n = normal(f)
        d = dot(n, f[0])
        if dot(n, tet[i]) > d:
            n, d = tuple(-x for x in n), -d
        out.append((n, d))
    return out


def enters(tri, tet):
    """does the interior of the triangle meet the interior of the tetrahedron"""
    n = normal(tri)
    d = dot(n, tri[0])
    s = {sg(dot(n, v) - d) for v in tet}
    if not (1 in s and -1 in s):
        return False
    poly = [tuple(map(Fr, p)) for p in tri]
    for m, e in planes_of(tet):
        poly = clip_poly(poly, m, e)
        if not poly:
            return False
    return not area_zero(poly)


def overlap(t, u):
    """do two coplanar convex polygons overlap in their interiors"""
    n = pnormal(u)
    poly = [tuple(map(Fr, p)) for p in t]
    c = tuple(sum(Fr(p[k]) for p in u) / len(u) for k in range(3))
    for a, b in zip(u, u[1:] + u[:1]):
        m = cross(n, sub(b, a))
        d = dot(m, a)
        if dot(m, c) > d:
            m, d = tuple(-x for x in m), -d
        poly = clip_poly(poly, m, d)
        if not poly:
            return False
    return not area_zero(poly)


def job_marks(cs, cap, rev):
    def go(ctx):
        prog = ctx.prog
        for ci, c in cs:
            rng = random.Random(ci)
            tris = triples(c, rng, cap)
            I = GeoInterp(prog, c.P, ci)
            api = tetra.Api(prog, I)

            def run():
                builtins2.MapV.REV = rev
                cell = c.build(I, api)
                cons = I.run(fn_of(prog, "Constraints", "new"), [VecV([v for t in tris for v in t])], {})
                r = I.run(fn_of(prog, "Constraints", "insert_constraints"), [Ref([cons], 0), Ref(cell, 0)], {})
                marks = [[list(x.f) for x in col.f] for col in r.f]
                return judge_marks(c, tris, marks, api, cell[0])
            run.I = I
            mesh.explore(ctx, "marks", run, 4, "configurations")
            ctx.count("constraints", len(tris))
    return go


def judge_marks(c, tris, marks, api, m):
    bad = []

    def ck(ok, key, msg):
        if not ok and all(k != key for k, _ in bad):
            bad.append((key, msg))
    if len(marks) != 5 or any(len(x) != len(c.tets) for x in marks):
        return [("shape", "not five lists of one entry per tetrahedron")]
    for t in range(len(c.tets)):
        for k in range(5):
            for x in marks[k][t]:
                if not isinstance(x, int) or not 0 <= x < len(tris):
                    return [("index", "a tetrahedron is marked with the constraint %r" % (x,))]
            ck(len(set(marks[k][t])) == len(marks[k][t]), "twice", "a constraint is listed twice for the same %s" % ("tetrahedron" if k == 4 else "face"))
    for ti, tri in enumerate(tris):
        T = [c.P[v] for v in tri]
        show = "constraint %s" % (T,)
        for t, vs in enumerate(c.tets):
            if None in vs:
                ck(ti not in marks[4][t], "ghost", "%s is said to cut a hull tetrahedron" % show)
                continue
            Q = c.tet(t)
            o = [sg(det3(T[0], T[1], T[2], q)) for q in Q]
            cut = ti in marks[4][t]
            e = enters(T, Q)
            ck(not cut or (1 in o and -1 in o), "not split", "%s is said to cut the tetrahedron %s, which lies on one side of its plane" % (show, Q))
            ck(cut or not e, "missed", "%s enters the tetrahedron %s but is not listed as cutting it" % (show, Q))
            for i in range(4):
                f = [Q[j] for j in range(4) if j != i]
                cop = all(o[j] == 0 for j in range(4) if j != i)
                mk = ti in marks[i][t]
                ck(not mk or cop, "face off plane", "%s is listed as coplanar with the face %s, which leaves its plane" % (show, f))
                if cop and not mk and overlap(T, f):
                    # the neighbour across the face may have it
                    o_ = [u for u, w in enumerate(c.tets) if u != t and set(vs) - {vs[i]} <= set(w) and None not in w]
                    both = any(ti in marks[j][u] for u in o_ for j in range(4) if c.tets[u][j] not in vs)
                    ck(both, "face missed", "%s overlaps the coplanar face %s, which is marked on neither side" % (show, f))
    # the input mesh is only borrowed
    for t in range(len(c.tets)):
        want = tuple(len(c.P) if v is None else v for v in c.tets[t])
        if tuple(api.data(m, t)) != want:
            ck(False, "mesh changed", "tetrahedron %r became %r" % (want, api.data(m, t)))
        mask = api.get(m, "tets").f[t].f[api.tf.index("mask")] if "mask" in api.tf else 0
        ck(mask == 0, "mask", "a tetrahedron is left marked")
    return bad


# ---- P24: virtual constraints ------------------------------------------------------------
def families(c, rng, cap):
    """lists of constraint triangles (random arrangements): fans around an edge, coplanar sheets, all of them"""
    allt = triples(c, rng, 10 ** 6)
    out = []
    edges = list(itertools.combinations(range(len(c.P)), 2))
    rng.shuffle(edges)
    for e in edges[:cap]:
        fan = [t for t in allt if set(e) <= set(t)]
        if fan:
            out.append(fan)
            rng.shuffle(fan)
            cop = [t for t in fan if all(det3(*[c.P[v] for v in fan[0]], c.P[v]) == 0 for v in t)]
            out.append(cop)
            out.append(cop[:2])
    for t in allt[:cap]:
        sheet = [u for u in allt if all(det3(*[c.P[v] for v in t], c.P[v]) == 0 for v in u)]
        rng.shuffle(sheet)
        out.append(sheet[:6])
    for k in range(1, 4):
        out.append(rng.sample(allt, min(len(allt), 2 * k)))
    return out


def job_virtual(cs, cap, rev):
    def go(ctx):
        prog = ctx.prog
        for ci, c in cs:
            rng = random.Random(ci + 7)
            fams = families(c, rng, cap)
            I = GeoInterp(prog, c.P, ci)
            api = tetra.Api(prog, I)
            flds = prog.structs["Constraints"]

            def run():
                builtins2.MapV.REV = rev
                cell = c.build(I, api)
                bad = []
                for fam in fams:
                    cons = [I.run(fn_of(prog, "Constraints", "new"), [VecV([v for t in fam for v in t])], {})]
                    I.run(fn_of(prog, "Constraints", "place_virtual_constraints"), [Ref(cons, 0), Ref(cell, 0)], {})
                    f = dict(zip(flds, cons[0].f))
                    for k, msg in judge_virtual(c, fam, list(f["triangles"].f), f["n_ori_triangles"]):
                        if all(k != x for x, _ in bad):
                            bad.append((k, msg))
                return bad
            run.I = I
            mesh.explore(ctx, "virtual", run, 4, "configurations")
            ctx.count("constraint lists", len(fams))
    return go


def judge_virtual(c, fam, flat, n):
    P = c.P
    show = [[P[v] for v in t] for t in fam]
    if n != len(fam):
        return [("count", "%s constraints count as %r original ones" % (len(fam), n))]
    if any(not isinstance(v, int) or not 0 <= v < len(P) for v in flat) or len(flat) % 3:
        return [("index", "a virtual constraint is not a triangle of mesh vertices: %r (constraints %s)" % (flat[3 * n:], show))]
    T = [flat[i:i + 3] for i in range(0, len(flat), 3)]
    if T[:n] != fam:
        return [("originals", "the constraints %s became %s" % (fam, T[:n]))]
    edges = {}
    for t in fam:
        for i in range(3):
            edges.setdefault(frozenset((t[i], t[i - 1])), []).append(t)
    need = {}
    for e, l in edges.items():
        a, b = sorted(e)
        t = l[0]
        flat_ = all(det3(*[P[v] for v in t], P[v]) == 0 for u in l for v in u)
        if flat_:
            nm = normal([P[v] for v in t])
            side = {sg(dot(nm, cross(sub(P[b], P[a]), sub(P[v], P[a])))) for u in l for v in u if v not in e}
            if len(side) == 1:
                need[e] = t
    bad = []
    new = T[n:]
    fits = [[e for e, t in need.items() if len(set(v) - e) == 1 and e <= set(v) and det3(*[P[x] for x in t], *[P[x] for x in v if x not in e]) != 0] for v in new]
    got = {}        # edge -> virtual triangle (a triangle may fit two edges: maximum matching)

    def place(k, seen):
        for e in fits[k]:
            if e not in seen:
                seen.add(e)
                if e not in got or place(got[e], seen):
                    got[e] = k
                    return True
        return False
    for k, v in enumerate(new):
        if not fits[k]:
            bad.append(("spurious", "the virtual triangle %s stands on no one-sided edge of the constraints %s" % ([P[x] for x in v], show)))
        elif not place(k, set()):
            bad.append(("twice", "more virtual triangles than one-sided edges (constraints %s, virtual %s)" % (show, [[P[x] for x in v] for v in new])))
    for e in need:
        if e not in got:
            bad.append(("missing", "all constraints at the edge %s lie in one plane on one side of it, and no virtual triangle was placed (constraints %s)" % (sorted(P[x] for x in e), show)))
    return bad


# ---- P26: subdivision --------------------------------------------------------------------
class Complex:
    """the subdivision as the library represents it, with exact positions"""
    def __init__(self, I, v):
        prog = I.prog
        f = dict(zip(prog.structs["BSPComplex"], v.f))
        T = soup.flatten(prog, f["mesh"], {})
        self.T = T
        self.pts = [I.where(p) for p in f["points"].f]
        org, nxt, fh = T["he_vertex_arr"], T["he_next_arr"], T["f_halfedge_arr"]
        self.loops, self.hes = [], []
        for h0 in fh:
            l, h = [], h0
            while h not in l and len(l) <= len(org):
                l.append(h)
                h = nxt[h]
            self.hes.append(l)
            self.loops.append([org[h] for h in l])
        fd = prog.structs["BSPFaceData"]
        cd = prog.structs["BSPCellData"]
        self.fcells, self.ftris = [], []
        for x in f["face_data"].f:
            d = dict(zip(fd, x.f))
            self.fcells.append([y if isinstance(y, int) else I.cval(y) for y in d["cells"].f])
            self.ftris.append([y for y in d["triangles"].f])
        self.cells, self.inner = [], []
        for x in f["cell_data"].f:
            d = dict(zip(cd, x.f))
            self.cells.append([bm.strip(y).f[0] for y in d["faces"].f])
            self.inner.append(list(d["inner_triangles"].f))
        self.nv, self.nf = T["n_vertices"], T["n_faces"]
        self.c0 = [tuple(Fr(sum(c[k] for c in q)) / len(q) for k in range(3)) for q in ([self.pts[v] for v in {v for f in fs for v in self.loops[f]}] for fs in self.cells)]

    def poly(self, f):
        return [self.pts[v] for v in self.loops[f]]


def pnormal(poly):
    """area vector of a polygon"""
    n = (0, 0, 0)
    for b, c in zip(poly[1:], poly[2:]):
        x = cross(sub(b, poly[0]), sub(c, poly[0]))
        n = tuple(p + q for p, q in zip(n, x))
    return n


def minus(poly, tri):
    """convex pieces of the convex polygon outside the coplanar triangle"""
    n = normal(tri)
    out, rest = [], [tuple(map(Fr, p)) for p in poly]
    for a, b in zip(tri, tri[1:] + tri[:1]):
        m = cross(n, sub(b, a))         # points inwards
        d = dot(m, a)
        o = clip_poly(rest, m, d)
        if o and not area_zero(o):
            out.append(o)
        rest = clip_poly(rest, tuple(-x for x in m), -d)
        if not rest or area_zero(rest):
            break
    return out


def judge_complex(c, T, n, X, sign):
    """T: constraints (index triples, virtual ones from n on)"""
    bad = []
    P = c.P

    def ck(ok, key, msg):
        if not ok and all(k != key for k, _ in bad):
            bad.append((key, msg))
    nf, nc = len(X.loops), len(X.cells)
    show = "constraints %s" % ([[P[v] for v in t] for t in T[:n]],)
    ck(len(X.fcells) == nf == X.nf, "tables", "%d faces, %d face records" % (nf, len(X.fcells)))
    ck(len(X.pts) == X.nv, "tables", "%d vertices, %d points" % (X.nv, len(X.pts)))
    if bad:
        return bad
    ck([tuple(x) for x in X.pts[:len(P)]] == [tuple(p) for p in P], "points", "the input points do not come first and unchanged")
    ck(len(set(X.pts)) == len(X.pts), "coincident", "two vertices of the subdivision coincide (%s)" % show)
    memb = [[] for _ in range(nf)]
    for k, fs in enumerate(X.cells):
        ck(len(set(fs)) == len(fs), "cell faces", "a cell lists a face twice (%s)" % show)
        for f in fs:
            if not 0 <= f < nf:
                return bad + [("cell faces", "a cell lists a face that does not exist (%s)" % show)]
            memb[f].append(k)
    for f in range(nf):
        a = [k for k in X.fcells[f] if k != soup.INV]
        ck(sorted(a) == sorted(memb[f]), "face cells", "face %d says it bounds cells %s, but the cells listing it are %s (%s)" % (f, a, memb[f], show))
    if bad:
        return bad
    vol = Fr(0)
    for k, fs in enumerate(X.cells):
        ck(not X.inner[k], "unfinished", "a cell still has constraints to be split by")
        e = {}
        ctr = X.c0[k]
        vs = {v for f in fs for v in X.loops[f]}
        for f in fs:
            l = X.loops[f]
            q = X.poly(f)
            nm = pnormal(q)
            if not any(nm):
                ck(False, "degenerate face", "a face without area (%s)" % show)
                continue
            d = dot(nm, q[0])
            s = 1 if X.fcells[f][0] == k else -1
            ck(all(dot(nm, x) == d for x in q), "planar", "a face is not planar (%s)" % show)
            side = {sg(dot(nm, X.pts[v]) - d) for v in vs} - {0}
            ck(len(side) == 1, "convex", "a cell is not convex (%s)" % show)
            w = dot(nm, ctr) - d
            ck(sg(w) == s * sign, "orientation", "a face is not oriented towards the first of its cells (%s)" % show)
            vol += abs(w)
            for a, b in zip(l, l[1:] + l[:1]):
                u = (a, b) if s > 0 else (b, a)
                e[u] = e.get(u, 0) + 1
            m = len(q)
            for i in range(m):
                t = dot(nm, cross(sub(q[(i + 1) % m], q[i]), sub(q[(i + 2) % m], q[(i + 1) % m])))
                ck(t >= 0, "convex face", "a face is not convex (%s)" % show)
        ck(all(x == 1 and e.get((u[1], u[0])) == 1 for u, x in e.items()), "closed", "the boundary of a cell is not closed (%s)" % show)
    if bad:
        return bad
    ck(vol == sum(abs(det3(*[P[v] for v in t])) for t in c.cells), "volume", "the cells do not fill the hull exactly (%s)" % show)
    # every constraint separates
    for ti, t in enumerate(T):
        tri = [P[v] for v in t]
        nt = normal(tri)
        dt = dot(nt, tri[0])
        for k, fs in enumerate(X.cells):
            s = {sg(dot(nt, X.pts[v]) - dt) for f in fs for v in X.loops[f]}
            if not (1 in s and -1 in s):
                continue
            poly = [tuple(map(Fr, p)) for p in tri]
            for f in fs:
                q = X.poly(f)
                nm = pnormal(q)
                d = dot(nm, q[0])
                if dot(nm, X.c0[k]) > d:
                    nm, d = tuple(-x for x in nm), -d
                poly = clip_poly(poly, nm, d)
                if not poly:
                    break
            ck(not poly or area_zero(poly), "not split", "the %s triangle %s runs through the inside of a cell (%s)" % ("virtual" if ti >= n else "input", tri, show))
    # coplanar triangles of the faces
    for f in range(nf):
        q = X.poly(f)
        rest = [q]
        some = False
        for ti, t in enumerate(T[:n]):
            tri = [P[v] for v in t]
            nt = normal(tri)
            cop = all(dot(nt, x) == dot(nt, tri[0]) for x in q)
            ck(cop or ti not in X.ftris[f], "face off plane", "the triangle %s is attached to a face off its plane (%s)" % (tri, show))
            if cop and overlap(tri, q):
                some = True
                ck(ti in X.ftris[f], "face missed", "the triangle %s covers a part of the face %s and is not attached to it (%s)" % (tri, fmt(q), show))
                rest = [y for x in rest for y in minus(x, tri)]
        ck(all(isinstance(x, int) and 0 <= x < n for x in X.ftris[f]), "attached", "something other than input triangles is attached to a face (%s)" % show)
        ck(not some or not rest, "half covered", "the face %s is covered by the input triangles in part only (%s)" % (fmt(q), show))
    return bad


def fmt(q):
    return [tuple(str(x) for x in p) for p in q]


def build_complex(I, api, c, tris):
    """interpret the pipeline up to the finished subdivision; returns the BSPComplex and the list of constraints"""
    prog = I.prog
    cell = c.build(I, api)
    cons = [I.run(fn_of(prog, "Constraints", "new"), [VecV([v for t in tris for v in t])], {})]
    I.run(fn_of(prog, "Constraints", "place_virtual_constraints"), [Ref(cons, 0), Ref(cell, 0)], {})
    f = dict(zip(prog.structs["Constraints"], cons[0].f))
    flat = list(f["triangles"].f)
    marks = I.run(fn_of(prog, "Constraints", "insert_constraints"), [Ref(cons, 0), Ref(cell, 0)], {})
    x = [I.run(fn_of(prog, "BSPComplex", "new"), [cell[0], Ref(cons, 0), marks], {})]
    n_cells, splittable, split = (fn_of(prog, "BSPComplex", k) for k in ("n_cells", "splittable", "split_cell"))
    cid = steps = 0
    while cid < I.run(n_cells, [Ref(x, 0)], {}):
        if I.truth(I.run(splittable, [Ref(x, 0), cid], {})):
            steps += 1
            if steps > 400:
                raise _I.PathPanic("the subdivision does not stop")
            I.run(split, [Ref(x, 0), cid, Ref([Agg("Bump", None, [])], 0)], {})
        else:
            cid += 1
    return x, [flat[i:i + 3] for i in range(0, len(flat), 3)], f["n_ori_triangles"]


def job_split(cs, rev):
    def go(ctx):
        prog = ctx.prog
        for ci, c, tris in cs:
            I = GeoInterp(prog, c.P, ci)
            api = tetra.Api(prog, I)

            def run():
                builtins2.MapV.REV = rev
                x, T, n = build_complex(I, api, c, tris)
                X = Complex(I, x[0])
                run.cells = len(X.cells)
                return judge_complex(c, T, n, X, 1)
            run.I = I
            run.cells = 0
            mesh.explore(ctx, "split", run, 4, "subdivisions")
            ctx.count("cells", run.cells)
    return go


def picks(n_want, seed=11):
    """configurations with a few constraint triangles each"""
    out = []
    for ci, c in enumerate(configs(n_want, seed)):
        rng = random.Random(ci * 31 + 5)
        l = triples(c, rng, 10 ** 6)
        k = 1 + ci % 5
        sel = [l[0]]
        if ci % 3 == 1:     # a coplanar sheet
            sel = [t for t in l if all(det3(*[c.P[v] for v in l[0]], c.P[v]) == 0 for v in t)][:k]
        elif ci % 3 == 2:   # a fan around an edge
            e = set(l[0][:2])
            sel = [t for t in l if e <= set(t)][:k]
        while len(sel) < k:
            t = rng.choice(l)
            if all(set(t) != set(u) for u in sel):
                sel.append(t)
            elif len(l) <= k:
                break
        out.append((ci, c, sel))
    return out


# ---- checks ------------------------------------------------------------------------------
def check_virtual(ctx):
    ctx.rule("the list of constraints after virtual constraints are placed, compared with the set of one-sided edges; coordinates opaque, one abstract state per sign configuration")
    if any(mesh.need(ctx, ctx.prog, "Constraints", x) is None for x in ("new", "place_virtual_constraints")):
        return
    cs = list(enumerate(configs(2000 if ctx.thorough else 320)))
    k = 64 if ctx.thorough else 24
    ctx.parallel([job_virtual(cs[i::k], 12 if ctx.thorough else 8, bool(i % 2)) for i in range(k)])
    ctx.floor("configurations", len(cs))
    ctx.floor("constraint lists", 20 * len(cs))


def check_marks(ctx):
    ctx.rule("the tetrahedra and faces recorded for every constraint, compared with exact intersection of the triangle with each tetrahedron; coordinates opaque, one abstract state per sign configuration")
    if any(mesh.need(ctx, ctx.prog, "Constraints", x) is None for x in ("new", "insert_constraints")):
        return
    cs = list(enumerate(configs(1500 if ctx.thorough else 320)))
    k = 64 if ctx.thorough else 24
    # sections whose corners lie on the boundary of the triangle
    ts = list(enumerate(touches(1200 if ctx.thorough else 240)))
    ctx.parallel([job_marks(cs[i::k], 60 if ctx.thorough else 32, bool(i % 2)) for i in range(k)]
                 + [job_marks(ts[i::k // 2], 8 if ctx.thorough else 3, bool(i % 2)) for i in range(k // 2)])
    ctx.floor("configurations", len(cs) + len(ts))
    ctx.floor("constraints", 12 * len(cs) + 2 * len(ts))


def check_split(ctx):
    ctx.rule("the complex left when no cell has constraints any more, compared with the exact arrangement: cells closed, convex and filling the hull, no constraint inside a cell, coplanar triangles attached to exactly the faces they cover; coordinates opaque, one abstract state per sign configuration")
    if any(mesh.need(ctx, ctx.prog, "BSPComplex", x) is None for x in ("new", "split_cell", "splittable", "n_cells")):
        return
    cs = picks(1500 if ctx.thorough else 150)
    cs.sort(key=lambda x: -len(x[1].P) * len(x[2]))     # balance the shards
    k = 64 if ctx.thorough else 32
    ctx.parallel([job_split(cs[i::k], bool(i % 2)) for i in range(k)])
    ctx.floor("subdivisions", len(cs))
    ctx.floor("cells", 8 * len(cs))

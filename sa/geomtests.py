"""P12-P13: incidence tests on explicit points built from the orientation predicates.

The orientation predicates are taken by their contract (sign of the exact
determinant: P02, P03, P11).  Every class of comparison outcomes of a test gives a
set of facts on those signs; the sign patterns that geometry allows and that agree
with the facts are enumerated (a finite sign domain) and the answer must be the
specified one in all of them.
"""
import itertools
from interp import Interp, Agg, Arr, Ref, Slice, VecV, Cond, PathPanic, PathPruned, Unsupported
from vg import N, Eval, SALTS, PRIME
import builtins_model as bm
import exparith
from checks_pred import ALLOC, PRED, det as detr, rsub
from implicit import World, coords_of, float_sign, ring_facts
from signs import Unjust

M = "predicates::"
AX = ((0, 1), (1, 2), (0, 2))
S3 = (-1, 0, 1)
SG = {"<": -1, "=": 0, ">": 1}
NZ = [v for v in itertools.product(S3, repeat=3) if any(v)]


def pts(g, names):
    return {n: [g.leaf(n + c) for c in "xyz"] for n in names}


def sl(v):
    return Slice(list(v), 0, len(v))


def o2(g, a, b, c, ax):
    i, j = ax
    return detr(g, [[rsub(g, p[k], c[k]) for k in (i, j)] for p in (a, b)])


def o3(g, a, b, c, d):
    return detr(g, [[rsub(g, p[k], d[k]) for k in range(3)] for p in (a, b, c)])


def vals(n):
    return tuple(Eval(s, "real")(n) for s in SALTS)


class Reduce:
    """assume-hook: restricts the sign of a determinant to what the geometric sign
    patterns still consistent with the class allow"""

    def __init__(self, I, atoms, models):
        self.I, self.models = I, models
        self.look = {}
        for k, r in atoms.items():
            v = vals(r)
            self.look[v] = (k, 1)
            self.look.setdefault(tuple((-x) % PRIME for x in v), (k, -1))
        self.byid = {}
        self.stack = []          # (fact, consistent models after it)

    def atom(self, n):
        if n.id not in self.byid:
            self.byid[n.id] = self.look.get(vals(n.args[0]))
        return self.byid[n.id]

    def current(self):
        fs = self.I.facts
        k = 0
        while k < len(self.stack) and k < len(fs) and self.stack[k][0] is fs[k]:
            k += 1
        del self.stack[k:]
        cur = self.stack[-1][1] if self.stack else self.models
        for f in fs[k:]:
            if f[0] == "rel" and isinstance(f[1], N) and f[1].op == "est" and isinstance(f[2], float) and f[2] == 0.0:
                h = self.atom(f[1])
                if h:
                    al = {h[1] * SG[q] for q in f[3]}
                    cur = [m for m in cur if h[0] not in m or m[h[0]] in al]
            self.stack.append((f, cur))
        return cur

    def __call__(self, c):
        if c.op != "rel" or not isinstance(c.a, N) or c.a.op != "est" or not (isinstance(c.b, float) and c.b == 0.0):
            return None
        h = self.atom(c.a)
        if not h:
            return None
        cur = self.current()
        if not cur:
            raise PathPruned("no configuration")
        al = set()
        for m in cur:
            al |= {h[1] * m[h[0]]} if h[0] in m else {-1, 0, 1}
        return {{-1: "<", 0: "=", 1: ">"}[x] for x in al}


class Facts:
    """signs of named exact quantities and coordinate comparisons of one class"""

    def __init__(self, g, facts, atoms):
        self.sg = {k: {-1, 0, 1} for k in atoms}
        look = {}
        for k, r in atoms.items():
            v = vals(r)
            look[v] = (k, 1)
            look.setdefault(tuple((-x) % PRIME for x in v), (k, -1))
        for r, s in ring_facts(g, facts):
            h = look.get(vals(r))
            if h:
                self.sg[h[0]] &= {h[1] * x for x in s}
        self.rel = {}
        for f in facts:
            if f[0] != "rel":
                continue
            _, a, b, s = f
            for x, y, t in ((a, b, s), (b, a, {{"<": ">", ">": "<", "=": "="}[q] for q in s})):
                if isinstance(x, N) and isinstance(y, N):
                    self.cmp(x, y, {SG[q] for q in t})

    def cmp(self, x, y, s):
        # x <= min(..) and max(..) <= y are conjunctions
        if s <= {-1, 0}:
            if x.op == "max":
                for a in x.args:
                    self.cmp(a, y, s)
            if y.op == "min":
                for a in y.args:
                    self.cmp(x, a, s)
        if s <= {1, 0}:
            if x.op == "min":
                for a in x.args:
                    self.cmp(a, y, s)
            if y.op == "max":
                for a in y.args:
                    self.cmp(x, a, s)
        if isinstance(x, N) and isinstance(y, N) and x.op == y.op == "leaf":
            k = (x.args[0], y.args[0])
            self.rel[k] = self.rel.get(k, {-1, 0, 1}) & s
            k = (y.args[0], x.args[0])
            self.rel[k] = self.rel.get(k, {-1, 0, 1}) & {-q for q in s}

    def r(self, a, b):
        return self.rel.get((a, b), {-1, 0, 1})

    def agrees(self, model):
        return all(v in self.sg[k] for k, v in model.items() if k in self.sg)

    def orders(self, model):
        return all(v in self.rel.get(k, S3) for k, v in model.items())


def truth_of(r):
    if isinstance(r, bool):
        return r
    if isinstance(r, int):
        return bool(r)
    raise Unsupported("answer %r is not a boolean" % (r,))


def classes(ctx, p, name, args, summaries=None, models=None):
    f = p.by_call.get(M + name)
    if f is None:
        ctx.ob(False, name + "/missing", "function %s not found" % name)
        return
    I = Interp(p)
    I2 = I
    exparith.install(I)
    W = World(I, p, {})
    g = I.g
    A = args(g)
    if summaries:
        summaries(I)
    if models:
        I.assume = Reduce(I, A["atoms"], models)

    def run():
        a = [x() if callable(x) else x for x in A["args"]]
        while len(a) < f.nargs:
            a.append(ALLOC())
        return truth_or_self(I, I.run(f, a, {}))
    n = 0
    for (k, r), facts in I.explore(run):
        if k == "pruned":
            continue
        n += 1
        if k != "return":
            ctx.ob(False, name + "/panic", "%s panics: %s" % (ctx.where(f.name), r))
            continue
        yield I, A, r, facts
    ctx.count("partition classes", n)
    ctx.count("tests")
    ctx.saw(I2.called)


def truth_or_self(I, r):
    from interp import BoolExpr
    if isinstance(r, (Cond, BoolExpr)):
        return I.truth(r)
    return r


def decide(ctx, p, name, ptnames, atoms, models, text, order=False):
    """models(): iterable of (signs, orders, specified answer)"""
    def args(g):
        P = pts(g, ptnames)
        return {"P": P, "args": [(lambda v=v: sl(v)) for v in P.values()], "atoms": atoms(g, P)}
    ML = list(models())
    for I, A, r, facts in classes(ctx, p, name, args, models=[m for m, _, _ in ML]):
        F = Facts(I.g, facts, A["atoms"])
        ans = truth_of(r)
        bad = None
        for sg, od, want in ML:
            if want != ans and F.agrees(sg) and F.orders(od):
                bad = (sg, od, want)
                break
        ctx.ob(bad is None, "%s/%s" % (name, "accepts" if ans else "rejects"),
               "%s answers %s in a class of comparison outcomes that includes the configuration %s, for which %s" % (
                   ctx.where(M + name), ans, bad and show(bad), text if bad and bad[2] else "it is not so that " + text),
               "%s: answer %s entailed" % (name, ans))


def show(b):
    return ", ".join("%s=%d" % x for x in sorted(b[0].items())) + (" / " + ", ".join("%s%s%s" % (k[0], {-1: "<", 0: "=", 1: ">"}[v], k[1]) for k, v in sorted(b[1].items())) if b[1] else "")


# ------------------------------------------------------------------ models
def vec(nm, v):
    return {"%s%d" % (nm, i): x for i, x in enumerate(v)}


def mk_atoms(spec):
    """{'name': (a, b, c)}: three projected orientations of the named points"""
    def f(g, P):
        return {"%s%d" % (k, i): o2(g, *[P[x] for x in v], ax) for k, v in spec.items() for i, ax in enumerate(AX)}
    return f


def scal(s, n):
    return tuple(s * x for x in n)


def m_mis():
    for v in itertools.product(S3, repeat=3):
        yield vec("m", v), {}, any(v)


def m_half():
    for n in NZ:
        for s, t in itertools.product(S3, repeat=2):
            yield {**vec("p", scal(s, n)), **vec("q", scal(t, n))}, {}, s == t


def m_intri():
    for n in NZ:
        for b in itertools.product(S3, repeat=3):
            if max(b) <= 0:
                continue
            yield {**vec("n", n), **vec("a", scal(b[0], n)), **vec("b", scal(b[1], n)), **vec("c", scal(b[2], n))}, {}, min(b) > 0


def m_cross():
    for n in NZ:
        for s in itertools.product(S3, repeat=4):
            d = {"o": 0}
            for k, x in zip(("p", "q", "r", "s"), s):
                d.update(vec(k, scal(x, n)))
            yield d, {}, s[0] * s[1] < 0 and s[2] * s[3] < 0
    for o in (-1, 1):
        yield {"o": o}, {}, False


def m_segtri():
    for v in itertools.product(S3, repeat=5):
        yield dict(zip(("A", "B", "c", "d", "e"), v)), {}, v[0] * v[1] < 0 and v[2] == v[3] == v[4] != 0


def orders(p, q, v):
    return {(p + c, q + c): x for c, x in zip("xyz", v)}


def m_inseg(closed):
    """collinear p, v1, v2 (p = v1 + t*(v2 - v1)) and everything else"""
    for d in NZ:
        for t in ("<0", "0", "in", "1", ">1"):
            a = {"<0": 1, "0": 0, "in": -1, "1": -1, ">1": -1}[t]        # v1 ? p in direction d
            b = {"<0": -1, "0": -1, "in": -1, "1": 0, ">1": 1}[t]        # p ? v2
            o = {**orders("v", "p", scal(a, d)), **orders("p", "w", scal(b, d)), **orders("v", "w", scal(-1, d))}
            yield {"m0": 0, "m1": 0, "m2": 0}, o, (t in ("0", "in", "1")) if closed else t == "in"
    # v1 = v2
    for e in itertools.product(S3, repeat=3):
        o = {**orders("v", "p", e), **orders("p", "w", scal(-1, e)), **orders("v", "w", (0, 0, 0))}
        yield {"m0": 0, "m1": 0, "m2": 0}, o, closed and not any(e)
    if closed is None:
        return


def m_inseg_all(closed):
    yield from m_inseg(closed)
    # not collinear: three different points
    for a in NZ:
        for b in NZ:
            for z in NZ:
                if all(z[i] in comp(a[i], b[i]) for i in range(3)):
                    o = {**orders("v", "p", a), **orders("p", "w", b), **orders("v", "w", z)}
                    yield {"nc": 1}, o, False


def comp(x, y):
    """possible sign of u-w from signs of u-p and p-w"""
    if x == 0:
        return (y,)
    if y == 0 or x == y:
        return (x,)
    return S3


def check_incidence(ctx):
    ctx.rule("each test is interpreted with the orientation predicates taken by their contract; in every class of comparison outcomes all sign patterns "
             "of the determinants (and coordinate orders) that geometry allows and that agree with the class are enumerated, and the returned answer must be the specified one in each of them")
    p = ctx.prog
    decide(ctx, p, "mis_alignment", "pqr", mk_atoms({"m": "pqr"}), m_mis, "the points are not collinear")
    decide(ctx, p, "same_half_plane", "pqvw", mk_atoms({"p": "pvw", "q": "qvw"}), m_half, "both points lie on the same side of the line (or both on it)")
    decide(ctx, p, "point_in_inner_triangle", "pabc", mk_atoms({"n": "abc", "a": "pbc", "b": "pca", "c": "pab"}), m_intri, "the point is strictly inside")
    seg_tri(ctx, p)

    def a_cross(g, P):
        r = mk_atoms({"p": "uvw", "q": "tvw", "r": "vut", "s": "wut"})(g, P)
        r["o"] = o3(g, P["u"], P["t"], P["v"], P["w"])
        return r
    decide(ctx, p, "inner_segments_cross", "utvw", a_cross, m_cross, "the open segments cross in one point")
    segs(ctx, p, "point_in_inner_segment", False, "the point lies strictly inside the segment")
    segs(ctx, p, "point_in_segment", True, "the point lies on the segment")
    seg_general(ctx, p)
    composites(ctx, p)
    signs_(ctx, p)
    by_axis(ctx, p)
    ctx.floor("tests", 13)


def segs(ctx, p, name, closed, text):
    at = mk_atoms({"m": "pvw"})
    ML = list(m_inseg_all(closed))

    def args(g):
        P = pts(g, "pvw")
        return {"P": P, "args": [(lambda v=v: sl(v)) for v in P.values()], "atoms": at(g, P)}
    for I, A, r, facts in classes(ctx, p, name, args):
        F = Facts(I.g, facts, A["atoms"])
        ans = truth_of(r)
        col_possible = all(0 in F.sg["m%d" % i] for i in range(3))
        nc_possible = any(F.sg["m%d" % i] & {-1, 1} for i in range(3))
        bad = None
        for sg, od, want in ML:
            if want == ans or not (nc_possible if "nc" in sg else col_possible):
                continue
            if F.orders(od):
                bad = (sg, od, want)
                break
        ctx.ob(bad is None, "%s/%s" % (name, "accepts" if ans else "rejects"),
               "%s answers %s in a class of comparison outcomes that includes the %s configuration %s, for which %s" % (
                   ctx.where(M + name), ans, "non-collinear" if bad and "nc" in bad[0] else "collinear", bad and show(({}, bad[1])), text if bad and bad[2] else "it is not so that " + text))


def seg_general(ctx, p):
    name = "point_in_segment_general"
    ML = [(o, w) for _, o, w in m_inseg(True)]

    def args(g):
        P = {n: Agg("Point3D", None, [g.leaf("pt_" + n)]) for n in "pvw"}
        return {"P": P, "args": [(lambda v=v: Ref([v], 0)) for v in P.values()]}

    def summ(I):
        names = {}

        def mk(axis):
            def h(I, a, info):
                x, y = [bm.strip(v).f[0].args[0][-1] for v in a[:2]]
                g = I.g
                d = g.radd(g.leaf(x + axis), g.rneg(g.leaf(y + axis)))
                if isinstance(d, float):
                    return I.mk_enum("Orientation", "Zero", [])
                c = I.bm.cmp3(I, g.mk("est", d), 0.0)
                return I.mk_enum("Orientation", {-1: "Negative", 0: "Zero", 1: "Positive"}[c], [])
            return h
        for c in "xyz":
            I.summaries["predicates::less_than::less_than_on_" + c] = mk(c)
    for I, A, r, facts in classes(ctx, p, name, args, summ):
        g = I.g
        at = {}
        for a, b in itertools.combinations("pvw", 2):
            for c in "xyz":
                at[(a + c, b + c)] = g.radd(g.leaf(a + c), g.rneg(g.leaf(b + c)))
        F = Facts(g, facts, at)
        ans = truth_of(r)
        bad = None
        for od, want in ML:
            if want == ans:
                continue
            od = {(k if k in F.sg else (k[1], k[0])): (v if k in F.sg else -v) for k, v in od.items()}
            if F.agrees(od):
                bad = od
                break
        ctx.ob(bad is None, name + ("/accepts" if ans else "/rejects"), "%s answers %s in a class of comparison outcomes that includes the collinear configuration %s" % (
            ctx.where(M + name), ans, bad and show(({}, bad))))


def seg_tri(ctx, p):
    """coordinates are tracked on one axis at a time; on the two others the vertices lie in the
    segment's range except for a subset that lies below (or above) it"""
    scen = [()] + [tuple((v, side) for v in sub) for side in (-1, 9) for k in (1, 2, 3) for sub in itertools.combinations("abc", k)]
    ctx.parallel([(lambda c, ax=ax, sc=sc: seg_tri_one(c, p, ax, dict(sc))) for ax in "xyz" for sc in scen])


def seg_tri_one(ctx, p, axis, scen):
    name = "inner_segment_cross_inner_triangle"
    pos = {"u": 0, "t": 4, "a": 1, "b": 2, "c": 3}
    pos.update({v: d + pos[v] / 10 for v, d in scen.items()})

    def value(n):
        """position of a coordinate expression on an untracked axis"""
        if isinstance(n, N):
            if n.op == "leaf" and len(n.args[0]) == 2 and n.args[0][1] in "xyz" and n.args[0][1] != axis:
                return n.args[0][1], pos[n.args[0][0]]
            if n.op in ("min", "max"):
                vs = [value(a) for a in n.args]
                if all(vs) and len({v[0] for v in vs}) == 1:
                    return vs[0][0], (min if n.op == "min" else max)(v[1] for v in vs)
        return None

    def args(g):
        P = pts(g, "utabc")
        at = {"A": o3(g, P["u"], P["a"], P["b"], P["c"]), "B": o3(g, P["t"], P["a"], P["b"], P["c"]),
              "c": o3(g, P["u"], P["t"], P["a"], P["b"]), "d": o3(g, P["u"], P["t"], P["b"], P["c"]), "e": o3(g, P["u"], P["t"], P["c"], P["a"])}
        return {"P": P, "args": [(lambda v=v: sl(v)) for v in P.values()], "atoms": at}

    def summ(I):
        def assume(c):
            if c.op != "rel":
                return None
            x, y = value(c.a), value(c.b)
            if x and y and x[0] == y[0]:
                return "<" if x[1] < y[1] else ">" if x[1] > y[1] else "="
            return None
        I.assume = assume
    ML = list(m_segtri())
    known = [("rel", a, b, frozenset("<" if pos[a] < pos[b] else ">")) for a in pos for b in pos if a != b]
    for I, A, r, facts in classes(ctx, p, name, args, summ):
        leaf = {n + c: I.g.leaf(n + c) for n in pos for c in "xyz"}
        facts = facts + [("rel", leaf[a + c], leaf[b + c], s) for _, a, b, s in known for c in "xyz" if c != axis]
        F = Facts(I.g, facts, A["atoms"])
        ans = truth_of(r)
        sep = any(all(F.r(t + c, s + c) <= side for t in "abc" for s in "ut") for c in "xyz" for side in ({-1, 0}, {0, 1}))
        bad = None if (sep and not ans) else next(((sg, od, w) for sg, od, w in ML if w != ans and F.agrees(sg)), None)
        ctx.ob(bad is None, "%s/%s" % (name, "accepts" if ans else "rejects"),
               "%s answers %s in a class of comparison outcomes that includes the determinant signs %s" % (ctx.where(M + name), ans, bad and show(bad)))


def composites(ctx, p):
    def who(I, x):
        v = coords_of(I, x)
        nm = {y.args[0][0] for y in v if isinstance(y, N) and y.op == "leaf"}
        if len(nm) != 1 or [y.args[0][1:] for y in v] != ["x", "y", "z"]:
            raise Unsupported("argument is not one of the given points")
        return nm.pop()

    def pred(key):
        def h(I, a, info):
            ps = []
            for x in a:
                v = bm.strip(x)
                if isinstance(v, (Slice, Arr, VecV)):
                    ps.append(who(I, x))
            return I.atom(Cond("pred", key(ps)))
        return h
    fs = frozenset
    KEY = {
        "point_in_inner_segment": lambda q: ("pis", q[0], fs(q[1:])),
        "inner_segments_cross": lambda q: ("isc", fs((fs(q[:2]), fs(q[2:])))),
        "inner_segment_cross_inner_triangle": lambda q: ("isit", fs(q[:2]), fs(q[2:])),
        "point_in_inner_triangle": lambda q: ("pit", q[0], fs(q[1:])),
    }

    def summ(I):
        for k, f in KEY.items():
            I.summaries[M + k] = pred(f)

    def known(facts):
        return {f[1].a: f[2] for f in facts if f[0] == "atom" and f[1].op == "pred"}
    # open segment against closed triangle
    name = "inner_segment_cross_triangle"
    want = [("pis", v, fs("ut")) for v in "abc"] + [("isc", fs((fs(e), fs("ut")))) for e in ("ab", "bc", "ca")] + [("isit", fs("ut"), fs("abc"))]

    def args5(g):
        P = pts(g, "utabc")
        return {"args": [(lambda v=v: sl(v)) for v in P.values()]}
    for I, A, r, facts in classes(ctx, p, name, args5, summ):
        k = known(facts)
        ans = truth_of(r)
        ok = any(k.get(w) for w in want) if ans else all(k.get(w) is False for w in want)
        ctx.ob(ok, name + ("/accepts" if ans else "/rejects"), "%s answers %s although %s" % (
            ctx.where(M + name), ans, "no vertex, edge or interior contact was established" if ans else "these contacts were not excluded: %s" % [w for w in want if k.get(w) is not False]))
    name = "point_in_triangle"

    def args4(g):
        P = pts(g, "pabc")
        return {"args": [(lambda v=v: sl(v)) for v in P.values()]}
    for I, A, r, facts in classes(ctx, p, name, args4, summ):
        k = known(facts)
        F = Facts(I.g, facts, {})
        ans = truth_of(r)
        preds = [("pis", "p", fs(e)) for e in ("ab", "bc", "ca")] + [("pit", "p", fs("abc"))]
        at_vertex = [all(F.r("p" + c, v + c) == {0} for c in "xyz") for v in "abc"]
        off_vertex = [any(0 not in F.r("p" + c, v + c) for c in "xyz") for v in "abc"]
        ok = (any(k.get(w) for w in preds) or any(at_vertex)) if ans else (all(k.get(w) is False for w in preds) and all(off_vertex))
        ctx.ob(ok, name + ("/accepts" if ans else "/rejects"), "%s answers %s although %s" % (
            ctx.where(M + name), ans, "the point was not found on a vertex, an edge or inside" if ans else "a vertex, an edge or the interior was not excluded"))


def signs_(ctx, p):
    I = Interp(p)
    names = ("Positive", "Negative", "Zero", "Undefined")
    mk = lambda n: I.mk_enum("Orientation", n, [])
    nm = lambda v: p.enums["Orientation"][v.var]
    x = I.g.leaf("x")

    def run1(name, a):
        f = p.by_call.get(M + name)
        if f is None:
            raise Unsupported(name + " not found")
        return [(r, fc) for r, fc in I.explore(lambda: I.run(f, list(a), {}))]
    for (k, r), facts in run1("double_to_sign", [x]):
        al = {-1, 0, 1}
        for f in facts:
            if f[0] == "rel" and f[1] is x and f[2] == 0.0:
                al &= {SG[q] for q in f[3]}
        ctx.ob(k == "return" and al == {{"Positive": 1, "Negative": -1, "Zero": 0}.get(nm(r))}, "double_to_sign", "double_to_sign does not report the sign of its argument")
    ctx.count("tests")
    rev = {"Positive": "Negative", "Negative": "Positive"}
    for n in names:
        for (k, r), _ in run1("sign_reverse", [mk(n)]):
            ctx.ob(k == "return" and nm(r) == rev.get(n, n), "sign_reverse/" + n, "sign_reverse(%s) is wrong" % n)
        for m in names:
            for (k, r), _ in run1("sign_reversed", [mk(n), mk(m)]):
                ctx.ob(k == "return" and truth_or_self(I, r) == (rev.get(n) == m), "sign_reversed/%s-%s" % (n, m), "sign_reversed(%s, %s) is wrong" % (n, m))
    ctx.count("tests", 2)
    ctx.saw(I.called)


def by_axis(ctx, p):
    name = "orient2d_by_axis"
    for axis, ax in ((0, (1, 2)), (1, (2, 0)), (2, (0, 1))):
        def args(g):
            P = pts(g, "abc")
            return {"args": [(lambda v=v: sl(v)) for v in P.values()] + [axis], "atoms": {"d": o2(g, P["a"], P["b"], P["c"], ax)}}
        for I, A, r, facts in classes(ctx, p, name, args):
            F = Facts(I.g, facts, A["atoms"])
            n = p.enums["Orientation"][r.var] if isinstance(r, Agg) else repr(r)
            ctx.ob(F.sg["d"] == {{"Positive": 1, "Negative": -1, "Zero": 0}.get(n)}, "orient2d_by_axis/%d" % axis,
                   "%s with axis %d answers %s for determinant signs %s" % (ctx.where(M + name), axis, n, sorted(F.sg["d"])))


# ------------------------------------------------------------------ P13
def check_max_comp(ctx):
    ctx.rule("the function is interpreted on symbolic triangles; in every class of comparison outcomes the returned axis must be one whose exact normal component is shown "
             "non-zero (a floating-point magnitude above its forward error bound of the same degree) or shown, on exact values, to be at least as large as the two others")
    p = ctx.prog
    name = "max_comp_in_tri_normal"
    f = p.by_call.get(M + name)
    if f is None:
        ctx.ob(False, name + "/missing", name + " not found")
        return
    I = Interp(p)
    exparith.install(I)
    W = World(I, p, {})
    g = I.g
    P = pts(g, "abc")
    a, b, c = P.values()
    u, v = [rsub(g, y, x) for x, y in zip(a, b)], [rsub(g, y, x) for x, y in zip(b, c)]
    comp_ = [rsub(g, g.rmul(u[(i + 1) % 3], v[(i + 2) % 3]), g.rmul(u[(i + 2) % 3], v[(i + 1) % 3])) for i in range(3)]
    cv = [vals(x) for x in comp_]

    def run():
        args = [sl(x) for x in P.values()]
        while len(args) < f.nargs:
            args.append(ALLOC())
        return I.run(f, args, {})

    def which(n, mode):
        w = tuple(Eval(s, mode)(n) for s in SALTS)
        for i, x in enumerate(cv):
            if x == w or tuple((-y) % PRIME for y in x) == w:
                return i
        return None

    def abs_comp(n):
        """axis of |component| for an exact component estimate"""
        if isinstance(n, N) and n.op == "abs" and isinstance(n.args[0], N) and g.sgn(n.args[0])[1].op == "est":
            return which(g.sgn(n.args[0])[1].args[0], "real")
        return None
    for (k, r), facts in I.explore(run):
        ctx.count("partition classes")
        if k != "return":
            ctx.ob(False, name + "/panic", "%s panics: %s" % (ctx.where(f.name), r))
            continue
        ok, why = False, "nothing shows the component non-zero"
        if not isinstance(r, int) or not 0 <= r <= 2:
            ctx.ob(False, name + "/range", "%s returns %r" % (ctx.where(f.name), r))
            continue
        ge = set()
        for q in facts:
            if q[0] != "rel" or not isinstance(q[1], N):
                continue
            _, x, y, s = q
            i, j = abs_comp(x), abs_comp(y) if isinstance(y, N) else None
            if i is not None and j is not None:
                if s <= {">", "="}:
                    ge.add((i, j))
                if s <= {"<", "="}:
                    ge.add((j, i))
            # a filtered component
            for n in (x, y):
                if not isinstance(n, N):
                    continue
                base = g.sgn(n)[1]
                base = base.args[0] if base.op == "abs" else base
                base = g.sgn(base)[1]
                if base.op not in ("add", "mul") or which(base, "ideal") != r:
                    continue
                for sg in ("<", ">"):
                    sgn, w = float_sign(g, facts + [("rel", base, 0.0, frozenset(sg))], base, {})
                    if sgn:
                        ok = True
                    elif w:
                        why = w
        for _ in range(2):
            ge |= {(i, l) for i, j in ge for k2, l in ge if j == k2}
        if all((r, j) in ge for j in range(3) if j != r):
            ok = True
        ctx.ob(ok, name + "/axis%d" % r, "%s returns axis %d: %s" % (ctx.where(f.name), r, why), "axis %d non-vanishing" % r)
    ctx.floor("partition classes", 4)
    ctx.saw(I.called)

"""P17: maximum flow / minimum cut, in the domain of convex polyhedral cones.

Capacities are arbitrary non-negative reals: a value is a linear form over the
capacities, a trace class is a convex cone of capacity vectors kept in double
description (its extreme rays), and a comparison is decided when the cone lies on
one side.  On return, the cut reported must weigh no more than any other cut for
every capacity vector of the cone (checked on the rays)."""
import itertools
from math import gcd
import interp as _I
from interp import Interp, Agg, Ref, VecV, Unsupported, REL, FLIP
from vg import N, Graph
import builtins_model as bm


class Cone:
    """{x >= 0 : constraints} by its extreme rays; `strict` forms are positive inside"""
    def __init__(self, n):
        self.n = n
        self.rays = [(tuple(int(i == j) for j in range(n)), 0) for i in range(n)]
        for i in range(n):
            pass
        self.rays = [(r, sum(1 << j for j in range(n) if r[j] == 0)) for r, _ in self.rays]
        self.k = n
        self.strict = []

    def copy(self):
        c = Cone.__new__(Cone)
        c.n, c.rays, c.k, c.strict = self.n, self.rays, self.k, self.strict
        return c

    @staticmethod
    def dot(f, r):
        return sum(a * b for a, b in zip(f, r))

    def add(self, f, eq):
        """the part where f >= 0 (f == 0 if eq)"""
        c = self.copy()
        bit = 1 << c.k
        c.k += 1
        pos, neg, zero = [], [], []
        for r, s in self.rays:
            d = self.dot(f, r)
            (pos if d > 0 else neg if d < 0 else zero).append((r, s, d))
        out = [(r, s | bit) for r, s, _ in zero]
        if not eq:
            out += [(r, s) for r, s, _ in pos]
        sats = [s for _, s in self.rays]
        for r1, s1, d1 in pos:
            for r2, s2, d2 in neg:
                m = s1 & s2
                if any((s & m) == m and s != s1 and s != s2 for s in sats):
                    continue
                v = [d1 * b - d2 * a for a, b in zip(r1, r2)]
                g = 0
                for x in v:
                    g = gcd(g, x)
                if g:
                    out.append((tuple(x // g for x in v), m | bit))
        c.rays = out
        return c

    def nonempty(self):
        return bool(self.rays) and all(any(self.dot(f, r) > 0 for r, _ in self.rays) for f in self.strict)

    def restrict(self, f, rel):
        """the part where f REL 0 (REL: set of < = >), not {<,>}"""
        if "<" in rel and ">" not in rel:
            f, rel = tuple(-x for x in f), {FLIP[x] for x in rel}
        if rel == {">"}:
            c = self.add(f, False)
            c.strict = c.strict + [f]
        elif rel == {">", "="}:
            c = self.add(f, False)
        elif rel == {"="}:
            c = self.add(f, True)
        else:
            raise AssertionError(rel)
        return c

    def possible(self, f):
        """which of < = > can hold for f"""
        ds = [self.dot(f, r) for r, _ in self.rays]
        lo, hi = any(d < 0 for d in ds), any(d > 0 for d in ds)
        if not lo and not hi:
            return frozenset("=")
        # an interior point has every strict form positive; if f takes one sign only, f == 0 is a face
        out = set()
        if lo:
            out.add("<")
        if hi:
            out.add(">")
        if lo and hi:
            out.add("=")
        else:
            e = self.add(f, True)
            if e.nonempty():
                out.add("=")
        return frozenset(out)

    def nonpos(self, f):
        return all(self.dot(f, r) <= 0 for r, _ in self.rays)

    def witness(self):
        v = [0] * self.n
        for r, _ in self.rays:
            v = [a + b for a, b in zip(v, r)]
        return v


class LinGraph(Graph):
    """values are linear forms; arithmetic is exact"""
    def lin(self, d):
        d = {k: c for k, c in d.items() if c}
        return self.mk("lin", tuple(sorted(d.items()))) if d else 0.0

    def terms(self, v):
        if isinstance(v, N):
            if v.op != "lin":
                raise Unsupported("capacity value %s" % v.op)
            return dict(v.args[0])
        if v == 0:
            return {}
        raise Unsupported("capacity arithmetic with the constant %r" % (v,))

    def sgn(self, v):
        return 1, v

    def neg(self, v):
        if isinstance(v, (float, int)):
            return -v
        return self.lin({k: -c for k, c in self.terms(v).items()})

    def add(self, a, b):
        if not isinstance(a, N) and not isinstance(b, N):
            return a + b
        d = self.terms(a)
        for k, c in self.terms(b).items():
            d[k] = d.get(k, 0) + c
        return self.lin(d)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if isinstance(a, N) and isinstance(b, N):
            raise Unsupported("product of capacities")
        if isinstance(a, N):
            a, b = b, a
        if not isinstance(b, N):
            return a * b
        if a != int(a):
            raise Unsupported("capacity scaled by %r" % a)
        return self.lin({k: c * int(a) for k, c in self.terms(b).items()})


class FlowInterp(Interp):
    MAX_STEPS = 100000

    def __init__(self, prog, nvars):
        super().__init__(prog, LinGraph())
        self.n = nvars
        self.cone0 = Cone(nvars)
        self.cones = {}
        self.g.min = lambda a, b: a if self.compare("Le", a, b) else b
        self.g.max = lambda a, b: a if self.compare("Ge", a, b) else b
        self.g.abs = lambda a: a if self.compare("Ge", a, 0.0) else self.g.neg(a)

    def reset(self):
        super().reset()
        self.cone, self.path = self.cone0, ()

    def var(self, i):
        return self.g.lin({i: 1})

    def vec(self, v):
        d = self.g.terms(v)
        return tuple(d.get(i, 0) for i in range(self.n))

    def compare(self, op, a, b):
        fa = isinstance(a, N) and a.op == "lin"
        fb = isinstance(b, N) and b.op == "lin"
        if not fa and not fb:
            return super().compare(op, a, b)
        f = self.vec(self.g.sub(a, b)) if a is not b else (0,) * self.n
        return self.decide(f, REL[op])

    def decide(self, f, want):
        f = self.canon(f)
        if not any(f):
            return "=" in want
        pos = self.memo(("p",) + self.path + (f,), lambda: self.cone.possible(f))
        yes, no = pos & set(want), pos - set(want)
        if not no:
            return True
        if not yes:
            return False
        v = not self.choose(2, (f, "cmp"))
        new = yes if v else no
        if new == {"<", ">"}:
            new = {"<"} if not self.choose(2, (f, "side")) else {">"}
        new = frozenset(new)
        key = self.path + ((f, new),)
        cone = self.cone
        self.cone = self.memo(key, lambda: cone.restrict(f, set(new)))
        self.path = key
        self.facts.append(("cone", f, new))
        return v

    def memo(self, key, mk):
        r = self.cones.get(key)
        if r is None:
            if len(self.cones) > 60000:
                self.cones.clear()
            r = self.cones[key] = mk()
        return r

    @staticmethod
    def canon(f):
        g = 0
        for x in f:
            g = gcd(g, x)
        return tuple(x // g for x in f) if g > 1 else f


def show(f, names):
    return " ".join("%+d*%s" % (c, names[i]) for i, c in enumerate(f) if c) or "0"


def cut_form(nv, arcs, side):
    """weight of the cut: arcs from False (source side) to True (sink side)"""
    f = [0] * nv
    for u, v, c in arcs:
        if not side[u] and side[v] and c is not None:
            f[c] += 1
    return tuple(f)


def judge(ctx, I, what, names, arcs, nodes, side, flow=None):
    """side: node -> reported on the sink side; S and T are fixed"""
    side = dict(side)
    side["S"], side["T"] = False, True
    own = cut_form(I.n, arcs, side)
    inner = [v for v in nodes if v not in ("S", "T")]
    wit = lambda f: "e.g. capacities " + ", ".join("%s=%d" % (n, x) for n, x in zip(names, max(I.cone.rays, key=lambda r: Cone.dot(f, r[0]))[0]))
    for k in range(1 << len(inner)):
        alt = {v: bool(k >> i & 1) for i, v in enumerate(inner)}
        alt["S"], alt["T"] = False, True
        d = tuple(a - b for a, b in zip(own, cut_form(I.n, arcs, alt)))
        if not I.cone.nonpos(d):
            return "cut", "%s: the reported cut weighs %s, a cut of weight %s exists (%s)" % (what, show(own, names), show(cut_form(I.n, arcs, alt), names), wit(d))
    if flow is not None:
        d = tuple(a - b for a, b in zip(I.vec(flow), own))
        if any(Cone.dot(d, r) for r, _ in I.cone.rays):
            return "flow", "%s: the flow reported is %s, the cut weighs %s" % (what, show(I.vec(flow), names), show(own, names))
    return None


# ---------------------------------------------------------------- push-relabel
def impl(prog, ty, trait, meth):
    for (t, tr, m), f in prog.trait_impls.items():
        if m == meth and tr.split("<")[0].split("::")[-1] == trait and t.split("<")[0].split("::")[-1] == ty:
            return f[0] if isinstance(f, list) else f
    return None


def push_relabel(ctx, topo, shard=None):
    """topo: list of (u, v) with u, v in 0..n-1 (0 source, n-1 sink)"""
    prog = ctx.prog
    n, pairs, dup = topo
    name = "PushRelabelFifo on %s" % " ".join("%d->%d" % p for p in pairs)
    I = FlowInterp(prog, len(pairs))
    I.shard = shard
    frm, find, sink = (impl(prog, "PushRelabelFifo", *x) for x in (("From", "from"), ("MaxFlow", "find_max_flow"), ("MaxFlow", "is_sink")))
    if not (frm and find and sink):
        raise Unsupported("PushRelabelFifo: From / MaxFlow implementations not found")
    names = ["c(%d->%d)" % p for p in pairs]
    lab = lambda u: "S" if u == 0 else "T" if u == n - 1 else u

    def run():
        arcs = VecV([Agg("tuple", None, [u, v, I.var(i)]) for i, (u, v) in enumerate(pairs)])
        env = {"T": "f64", "U": "Vec<(usize, usize, f64)>"}
        pr = I.run(frm, [Agg("tuple", None, [arcs, n])], env)
        cell = [pr]
        I.run(find, [Ref(cell, 0)], {"T": "f64"})
        side = {lab(i): I.truth(I.run(sink, [Ref(cell, 0), i], {"T": "f64"})) for i in range(n)}
        if side["S"] or not side["T"]:
            return "terminal", "%s: the source is reported on the sink side, or the sink on the source side" % name
        return judge(ctx, I, name, names, [(lab(u), lab(v), i) for i, (u, v) in enumerate(pairs)], list(range(1, n - 1)), side)
    explore(ctx, I, run, "push-relabel", name)


def explore(ctx, I, run, kind, name):
    bad = 0
    for (st, r), facts in I.explore(run, limit=200000):
        if st == "pruned":
            continue
        if bad > 5:
            break
        ctx.count(kind + " classes")
        if st == "panic":
            r = ("panic", "%s: panics: %s" % (name, r))
        bad += r is not None
        ctx.ob(r is None, "%s:%s" % (kind, r[0] if r else ""), r[1] if r else "", {"network": name, "facts": len(facts)} if ctx.obligations % 50 == 0 else None)
    if I.shard is None or I.shard[2] == 0:
        ctx.count(kind + " networks")
    ctx.saw(I.called)


# ---------------------------------------------------------------- GraphCut
def graph_cut(ctx, topo, shard=None):
    """topo: (terminal capacity pattern per node, edges): pattern letters s, t, b(oth), 0"""
    prog = ctx.prog
    pat, edges = topo[:2]
    groups = topo[2] if len(topo) > 2 else range(len(edges))     # edges of a group have the same capacity
    nn = len(pat)
    names, arcs = [], []
    shared = {}

    def var(nm):
        names.append(nm)
        return len(names) - 1
    src, snk = [], []
    for i, ch in enumerate(pat):
        src.append(var("source(%d)" % i) if ch in "sb" else None)
        snk.append(var("sink(%d)" % i) if ch in "tb" else None)
        arcs.append(("S", i, src[-1]))
        arcs.append((i, "T", snk[-1]))
    ev = []
    for (i, j, both), grp in zip(edges, groups):
        if (grp, 0) not in shared:
            shared[grp, 0] = var("c(%d->%d)" % (i, j))
        if both and (grp, 1) not in shared:
            shared[grp, 1] = var("c(%d->%d)" % (j, i))
        a, b = shared[grp, 0], shared[grp, 1] if both else None
        ev.append((i, j, a, b))
        arcs += [(i, j, a), (j, i, b)]
    name = "GraphCut with terminals %s and edges %s" % (pat, " ".join("%d%s%d" % (i, "<->" if b else "->", j) for i, j, b in edges))
    I = FlowInterp(prog, len(names))
    I.shard = shard
    fn = lambda m: (prog.inherent.get(("GraphCut", m)) or [None])[0]
    new, add, mf = fn("new"), fn("add_edge"), fn("max_flow")
    if not (new and add and mf):
        raise Unsupported("GraphCut::new / add_edge / max_flow not found")
    fields = prog.structs.get("GraphCut") or []
    val = lambda v: 0.0 if v is None else I.var(v)

    def run():
        a, b = VecV([val(v) for v in src]), VecV([val(v) for v in snk])
        g = I.run(new, [I_slice(a), I_slice(b)], {})
        cell = [g]
        for i, j, x, y in ev:
            I.run(add, [Ref(cell, 0), i, j, val(x), val(y)], {})
        flow = I.run(mf, [Ref(cell, 0)], {})
        g = cell[0]
        sk = g.f[fields.index("is_sink")]
        side = {i: I.truth(sk.f[i]) for i in range(nn)}
        r = judge(ctx, I, name, names, arcs, list(range(nn)), side, flow)
        if r is None:
            fl = g.f[fields.index("flow")]
            if I.vec(fl) != I.vec(flow):
                r = "field", "%s: the field flow differs from the value returned" % name
        return r
    explore(ctx, I, run, "graph-cut", name)


def I_slice(v):
    return _I.Slice(v.f, 0, len(v.f), v)


def through_builder(ctx, topo):
    """ArcBuilder -> PushRelabelFifo, as the polygonization uses them"""
    prog = ctx.prog
    k, edges = topo
    names = ["source(%d)" % i for i in range(k)] + ["sink(%d)" % i for i in range(k)]
    arcs = [("S", i, i) for i in range(k)] + [(i, "T", k + i) for i in range(k)]
    for i, j, rev in edges:
        c = len(names)
        names.append("c(%d%s%d)" % (i, "<->" if rev else "->", j))
        arcs.append((i, j, c))
        if rev:
            arcs.append((j, i, c))
    name = "ArcBuilder on %d nodes with %s" % (k, " ".join("%d%s%d" % (i, "<->" if r else "->", j) for i, j, r in edges))
    I = FlowInterp(prog, len(names))
    fn = lambda m: (prog.inherent.get(("ArcBuilder", m)) or [None])[0]
    new, add = fn("new"), fn("add_arc")
    frm, find, sink = (impl(prog, "PushRelabelFifo", *x) for x in (("From", "from"), ("MaxFlow", "find_max_flow"), ("MaxFlow", "is_sink")))
    if not (new and add and frm and find and sink):
        raise Unsupported("ArcBuilder::new / add_arc not found")
    fields = prog.structs.get("ArcBuilder") or []

    def run():
        v = [VecV([I.var(i) for i in range(o, o + k)]) for o in (0, k)]
        b = [I.run(new, v, {"T": "f64", "U": "Vec<f64>"})]
        for n, (i, j, rev) in enumerate(edges):
            I.run(add, [Ref(b, 0), i, j, I.var(2 * k + n), rev], {"T": "f64"})
        pr = [I.run(frm, [Agg("tuple", None, [b[0].f[fields.index("arcs")], k + 2])], {"T": "f64", "U": "Vec<(usize, usize, f64)>"})]
        I.run(find, [Ref(pr, 0)], {"T": "f64"})
        side = {(i - 1 if 1 <= i <= k else "S" if i == 0 else "T"): I.truth(I.run(sink, [Ref(pr, 0), i], {"T": "f64"})) for i in range(k + 2)}
        if side["S"] or not side["T"]:
            return "terminal", "%s: the source is reported on the sink side, or the sink on the source side" % name
        return judge(ctx, I, name, names, arcs, list(range(k)), side)
    explore(ctx, I, run, "arc-builder", name)


def pr_networks(thorough):
    E = lambda s: [tuple(int(c) for c in a) for a in s.split()]
    out = []
    # every subset of the arcs of a four-node network (two orders of the list), source 0, sink 3
    full = E("01 02 13 23 12 21")
    for k in range(1, 7):
        for sub in itertools.combinations(full, k):
            out.append((4, list(sub), 0))
            if k >= 5 or thorough:
                out.append((4, list(sub)[::-1], 0))
    out += [(3, E(s), 0) for s in ("01 12", "01 12 02", "01 01 12", "01 12 12", "01 11 12", "01 10 12", "01 12 21", "02", "00 01 12 22", "12 01 21 10")]
    out += [(4, E(s), 0) for s in ("01 12 21 12 23", "21 12 01 23 03", "01 02 13 23 03", "10 01 12 20 23 32", "01 12 22 23",
                                   # parallel arcs, after an arc of either direction was seen
                                   "01 21 12 12 23", "02 12 21 21 13", "01 12 12 12 23", "02 21 12 21 13", "10 01 01 12 23")]
    out += [(5, E(s), 0) for s in ("01 12 23 34", "01 12 23 34 21", "01 02 03 14 24 34", "01 12 13 24 34", "01 12 13 23 34 32", "01 02 13 23 34", "34 23 12 01 32 21",
                                   "01 13 32 24 12", "01 12 23 31 34", "01 03 12 23 34 14")]
    # long dead ends: excess has to come back, and the labels are recomputed on the way
    out += [(6, E("01 12 23 34 43 32 21 15"), 0), (6, E("01 12 21 23 32 34 43 05"), 0), (6, E("01 12 23 34 45 24"), 0), (7, E("01 12 21 23 32 34 43 45 54 16"), 0)]
    if thorough:
        out += [(5, E(s), 0) for s in ("01 02 03 14 24 34 12 23", "01 02 13 23 24 34 12", "01 02 14 34 13 23 12 21", "01 12 21 23 32 34 13", "01 03 12 32 24 34 13")]
        out += [(6, E(s), 0) for s in ("01 02 13 24 35 45 34", "01 02 13 14 23 24 35 45", "01 12 13 24 34 45 35")] + [(6, E("01 12 23 34 45 24 13"), 0)]
    return out


def gc_networks(thorough):
    out = []
    B, D = True, False
    for p in ("b", "s", "t", "0"):
        out.append((p, []))
    for p in itertools.product("st0b", repeat=2):
        out.append(("".join(p), [(0, 1, B)]))
    out += [("bb", []), ("st", [(0, 1, D)]), ("st", [(1, 0, D)]), ("st", [(0, 1, B), (0, 1, B)]), ("st", [(0, 1, D), (1, 0, D)]), ("st", [(0, 0, B), (0, 1, D)])]
    for p in itertools.product("st0", repeat=3):
        if "s" in p and "t" in p or p.count("0") < 2:
            out.append(("".join(p), [(0, 1, B), (1, 2, B)]))
            if "s" in p and "t" in p:
                out.append(("".join(p), [(1, 2, D), (0, 1, D), (0, 2, B)]))
    out += [("sbt", [(0, 1, B), (1, 2, B)]), ("bst", [(0, 1, B), (1, 2, D)]), ("sst", [(0, 1, B), (1, 2, B), (0, 2, B)]), ("stt", [(0, 1, B), (1, 2, B), (0, 2, B)])]
    P = [(0, 1, B), (1, 2, B), (2, 3, B)]
    for p in ("s00t", "ss0t", "s0tt", "sst0", "s0st", "stst", "0st0", "t0s0", "s0t0"):
        out.append((p, P))
    Q = [(0, 1, B), (0, 2, B), (1, 3, B), (2, 3, B)]
    out += [("s00t", Q), ("s0t0", Q), ("st00", Q), ("ss0t", [(0, 1, D), (0, 2, D), (1, 2, B), (2, 3, D), (1, 3, D)])]
    out += [("s000t", [(0, 1, B), (1, 2, B), (2, 3, B), (3, 4, B)]), ("s0t0s", [(0, 1, B), (1, 2, B), (2, 3, B), (3, 4, B)]),
            ("ss00t", [(0, 2, D), (1, 2, D), (2, 3, B), (3, 4, B), (1, 3, D)]), ("s000t", [(0, 1, D), (1, 2, D), (1, 3, D), (2, 4, D), (3, 4, D)]),
            ("s00tt", [(0, 1, B), (1, 2, B), (2, 3, D), (2, 4, D), (1, 4, D)])]
    # a node that lost its tree is reached again from a node that was already scanned
    back = [(0, 1, D), (1, 2, D), (3, 4, D), (4, 1, D), (2, 0, D)]
    for k in (4, 6):
        ch = [0] + list(range(5, 5 + k))
        out.append(("s00s0" + "0" * (k - 1) + "t", back + [(a, b, D) for a, b in zip(ch, ch[1:])], [0, 0, 1, 1, 2] + [3] * k))
        out.append(("t00t0" + "0" * (k - 1) + "s", [(b, a, D) for a, b, _ in back] + [(b, a, D) for a, b in zip(ch, ch[1:])], [0, 0, 1, 1, 2] + [3] * k))
    if thorough:
        out += [("s000t", [(0, 1, D), (1, 2, D), (1, 3, D), (2, 4, D), (3, 4, D), (2, 3, B)]), ("bbb", [(0, 1, B), (1, 2, B)]), ("ssst", [(0, 1, B), (1, 2, B), (2, 3, B), (0, 3, D)]), ("sstt", [(0, 1, B), (1, 2, B), (2, 3, B), (0, 3, B)]),
                ("s00t", [(0, 1, B), (0, 2, B), (1, 2, B), (1, 3, B), (2, 3, B)]), ("sst0t", [(0, 1, B), (1, 2, B), (2, 3, B), (3, 4, B)]),
                ("s0000t", [(0, 1, D), (1, 2, B), (2, 3, B), (3, 4, B), (4, 5, D), (1, 4, B)])]
    return out


def check(ctx):
    ctx.rule("for each listed network, every class of capacity vectors (a convex cone, kept by its extreme rays): the reported sides form a cut no heavier than any other cut; the flow returned equals it")
    jobs = []
    for f, ts, big in ((push_relabel, pr_networks(ctx.thorough), 6), (graph_cut, gc_networks(ctx.thorough), 5)):
        for t in ts:
            ex = len(t[1]) >= big if f is push_relabel else len(t[1]) + sum(b for _, _, b in t[1]) + len(t[0].replace("0", "")) >= 8
            for w in range(4 if ex else 1):
                jobs.append((lambda c, t=t, f=f, w=w: f(c, t, (6, 4, w))) if ex else (lambda c, t=t, f=f: f(c, t)))
    for t in [(1, []), (2, [(0, 1, True)]), (2, [(0, 1, False)]), (2, [(1, 0, False), (0, 1, True)]), (2, [(0, 0, True)])]:
        jobs.append(lambda c, t=t: through_builder(c, t))
    order = sorted(range(len(jobs)), key=lambda i: (i * 7919) % len(jobs))
    ctx.parallel([jobs[i] for i in order])
    ctx.floor("push-relabel classes", 1000)
    ctx.floor("graph-cut classes", 2000)
    ctx.floor("arc-builder classes", 100)

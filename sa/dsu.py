"""P14: the disjoint-set structure, on a symbolic forest.

The parent array is a lazily materialised forest: an index is an opaque symbol,
its parent is itself, any known element that keeps the forest acyclic, or a new
element.  Every public operation is interpreted from every such state and its
effect on the represented partition compared with the specification."""
import interp as _I
from interp import Interp, Agg, Ref, VecV, Unsupported
from vg import N
import builtins_model as bm


class Forest:
    def __init__(self, I, limit):
        self.I, self.limit = I, limit
        self.cells, self.alias = [], {}
        self.p0, self.cur, self.rank = {}, {}, {}

    def key(self, i):
        return i.id if isinstance(i, N) else ("c", i)

    def canon(self, i, new=True):
        k = self.key(i)
        if k in self.alias:
            return self.alias[k]
        for c in self.cells:
            if self.I.compare("Eq", i, self.cells_sym[c]):
                self.alias[k] = c
                return c
        return self.add(i)

    cells_sym = None

    def add(self, i):
        if self.cells_sym is None:
            self.cells_sym = {}
        k = self.key(i)
        self.alias[k] = k
        self.cells.append(k)
        self.cells_sym[k] = i
        return k

    def parent0(self, c):
        """initial parent of cell c (materialised on demand)"""
        if c in self.p0:
            return self.p0[c]
        opts = [c]
        for d in self.cells:
            if d == c:
                continue
            e, ok = d, True
            while True:
                if e == c:
                    ok = False
                    break
                if e not in self.p0 or self.p0[e] == e:
                    break
                e = self.p0[e]
            if ok:
                opts.append(d)
        if len(self.cells) < self.limit:
            opts.append(None)
        k = self.I.choose(len(opts), ("parent", str(c)))
        r = opts[k]
        if r is None:
            r = self.add(self.I.g.mk("isym", "e%d" % len(self.cells)))
        self.p0[c] = r
        return r

    def root0(self, c):
        while self.parent0(c) != c:
            c = self.parent0(c)
        return c

    def root(self, c):
        for _ in range(len(self.cells) + 2):
            p = self.cur[c] if c in self.cur else self.parent0(c)
            if p == c:
                return c
            c = p
        return None     # cycle

    def assume(self, cond):
        if cond.op != "rel":
            return None
        a, b = self.alias.get(self.key(cond.a)), self.alias.get(self.key(cond.b))
        if a is None or b is None:
            return None
        return frozenset("=") if a == b else frozenset("<>")


class PVec:
    """the parent array"""
    ty = "Vec"

    def __init__(self, F, n=None):
        self.F, self.n = F, n

    def index_ref(self, I, idx):
        if self.n is not None and isinstance(idx, int) and not 0 <= idx < self.n:
            raise _I.PathPanic("index out of bounds")
        return Ref(self, idx)

    def index_loc(self, I, idx):
        return self, idx

    def as_slice(self, I):
        n = self.n if self.n is not None else I.g.mk("isym", "len")
        return _I.Slice(self, 0, n)

    def __getitem__(self, i):
        c = self.F.canon(i)
        p = self.F.cur[c] if c in self.F.cur else self.F.parent0(c)
        return self.F.cells_sym[p]

    def __setitem__(self, i, v):
        c = self.F.canon(i)
        self.F.cur[c] = self.F.canon(v)


class RVec(PVec):
    def __getitem__(self, i):
        c = self.F.canon(i)
        if c not in self.F.rank:
            self.F.rank[c] = self.F.I.g.mk("isym", "rank%s" % (c,))
        return self.F.rank[c]

    def __setitem__(self, i, v):
        self.F.rank[self.F.canon(i)] = v


def _len(I, a, info):
    v = bm.strip(a[0])
    if isinstance(v, PVec):
        return v.as_slice(I).n
    return None


def build(I, prog, limit, n=None):
    F = Forest(I, limit)
    I.assume = F.assume
    roles = field_roles(prog)
    vals = {"parent": PVec(F, n), "rank": RVec(F, n), "n_groups": I.g.mk("isym", "groups")}
    return F, Agg("DisjointSet", None, [vals[k] for k in roles]), roles


def field_roles(prog):
    """which field is the parent array, which the rank array, which the counter: read off new(4)"""
    ds = Interp(prog).run((prog.inherent.get(("DisjointSet", "new")) or [None])[0], [4], {})
    roles = []
    for v in ds.f:
        if isinstance(v, VecV) and list(v.f) == [0, 1, 2, 3]:
            roles.append("parent")
        elif isinstance(v, VecV) and len(v.f) == 4:
            roles.append("rank")
        elif v == 4:
            roles.append("n_groups")
        else:
            raise Unsupported("field %d of DisjointSet::new(4) is %r: neither parents, ranks nor the group count" % (len(roles), v))
    if sorted(roles) != ["n_groups", "parent", "rank"]:
        raise Unsupported("fields of DisjointSet::new(4) have the roles %s" % roles)
    return roles


def check(ctx):
    prog = ctx.prog
    limit = 6 if ctx.thorough else 5
    ctx.rule("the partition represented by a lazily materialised symbolic forest (at most %d distinct elements touched) before and after each operation" % limit)

    def fn(name):
        f = (prog.inherent.get(("DisjointSet", name)) or [None])[0]
        if not ctx.ob(f is not None, "missing:" + name, "DisjointSet::%s not found" % name):
            return None
        return f
    merge, new, output = fn("merge"), fn("new"), fn("output")
    if not (merge and new and output):
        return
    # merge ------------------------------------------------------------------
    I = Interp(prog)

    def run():
        F, ds, names = build(I, prog, limit)
        x, y = I.g.mk("isym", "x"), I.g.mk("isym", "y")
        cell = [ds]
        I.run(merge, [Ref(cell, 0), x, y], {})
        cx, cy = F.canon(x), F.canon(y)
        rx, ry = F.root0(cx), F.root0(cy)
        ng = ds.f[names.index("n_groups")]
        d = I.ibin("Sub", ng, I.g.mk("isym", "groups"))
        roots0 = {c: F.root0(c) for c in list(F.cells)}
        rep = lambda r: rx if r == ry else r
        roots1 = {c: F.root(c) for c in list(F.cells)}
        if None in roots1.values():
            return "cycle", "the parent array contains a cycle"
        want_d = 0 if rx == ry else -1
        if d != want_d:
            return "count", "number of groups changes by %r instead of %d" % (d, want_d)
        for a in F.cells:
            for b in F.cells:
                if (roots1[a] == roots1[b]) != (rep(roots0[a]) == rep(roots0[b])):
                    return "partition", "elements %s and %s: same group is %s, should be %s" % (a, b, roots1[a] == roots1[b], rep(roots0[a]) == rep(roots0[b]))
        return None
    for (st, r), facts in I.explore(run, limit=200000):
        ctx.count("merge classes")
        if st == "panic":
            ctx.ob(False, "merge:panic", "merge panics: %s" % r)
        elif st == "return":
            ctx.ob(r is None, "merge:" + (r[0] if r else ""), "DisjointSet::merge: %s" % (r[1] if r else ""))
    ctx.saw(I.called)
    ctx.floor("merge classes", 40)
    # new ----------------------------------------------------------------------
    for n in range(6):
        I = Interp(prog)
        ds = I.run(new, [n], {})
        names = field_roles(prog)
        pv, ng = ds.f[names.index("parent")], ds.f[names.index("n_groups")]
        ctx.ob(isinstance(pv, VecV) and pv.f == list(range(n)) and ng == n, "new", "DisjointSet::new(%d) gives parent %r and %r groups" % (n, pv, ng))
        rk = ds.f[names.index("rank")]
        ctx.ob(isinstance(rk, VecV) and len(rk.f) == n, "new:rank", "DisjointSet::new(%d): rank array %r" % (n, rk))
    ctx.saw(I.called)
    # output -------------------------------------------------------------------
    for n in range(1, 6 if ctx.thorough else 5):
        I = Interp(prog)

        def run():
            F, ds, names = build(I, prog, n, n)
            for i in range(n):
                F.add(i)
            m = I.run(output, [Ref([ds], 0)], {})
            got = [(k, list(v.f)) for k, v in m.ents]
            seen = sorted(x for _, g in got for x in g)
            if seen != list(range(n)):
                return "elements", "elements listed are %r" % seen
            for k, g in got:
                rs = {F.root0(F.canon(e)) for e in g}
                if len(rs) != 1 or F.root0(F.canon(k)) not in rs:
                    return "group", "group %r under key %r is not one group" % (g, k)
            if len(got) != len({F.root0(F.canon(i)) for i in range(n)}):
                return "groups", "one group is listed in several parts"
            if any(F.root(c) is None or F.root(c) != F.root0(c) for c in F.cells):
                return "state", "output changes the partition"
            return None
        for (st, r), facts in I.explore(run, limit=200000):
            ctx.count("output classes")
            ctx.ob(st == "return" and r is None, "output:" + (r[0] if st == "return" and r else st), "DisjointSet::output: %s" % (r if st != "return" else r[1] if r else ""))
        ctx.saw(I.called)
    ctx.floor("output classes", 60)



"""P15/P16: the half-edge mesh, by shape analysis.

The mesh handed to an operation is an arbitrary well-formed one, of which only
the cells the operation touches are materialised (on demand, by case split);
ids are opaque symbols.  Afterwards the invariants are checked on the touched
part and, by the preservation of the unread chains, on the rest."""
import interp as _I
from interp import Interp, Agg, Ref, VecV, Unsupported, PathPanic, PathPruned
from vg import N
import builtins_model as bm

ATTR = {"next": "face", "sib": "edge", "in": "tip", "out": "org"}
MAPS = tuple(ATTR)
KIND = {"org": "V", "tip": "V", "face": "F", "edge": "E"}
IDTY = {"V": "VertexId", "H": "HalfedgeId", "E": "EdgeId", "F": "FaceId"}
ARRAYS = {  # array name -> (index kind, value kind, role)
    "v_halfedge_arr": ("V", "H", "ptr"), "f_halfedge_arr": ("F", "H", "ptr"), "e_halfedge_arr": ("E", "H", "ptr"),
    "he_next_arr": ("H", "H", "next"), "he_sibling_arr": ("H", "H", "sib"),
    "he_vert_in_next_arr": ("H", "H", "in"), "he_vert_out_next_arr": ("H", "H", "out"),
    "he_vertex_arr": ("H", "V", "org"), "he_face_arr": ("H", "F", "face"), "he_edge_arr": ("H", "E", "edge")}
COUNTS = {"n_vertices": "V", "n_halfedges": "H", "n_edges": "E", "n_faces": "F"}
PTR_ATTR = {"V": "org", "E": "edge", "F": "face"}
INVALID = (1 << 64) - 1


class Ent:
    def __init__(self, kind, idx, name, new=False):
        self.kind, self.idx, self.name, self.new = kind, idx, name, new
        if kind == "H":
            self.at = dict.fromkeys(("org", "tip", "face", "edge"))
            self.p, self.pred = {}, {}
        else:
            self.ptr = None

    def __repr__(self):
        return self.name


class Heap:
    """a well-formed mesh, materialised on demand"""

    def __init__(self, I, per_class, total):
        self.I, self.per_class, self.total = I, per_class, total
        self.ents = {k: [] for k in "VHEF"}
        self.new = {k: [] for k in "VHEF"}
        self.byid = {}
        self.closed = set()
        self.base = {k: I.g.mk("isym", "len" + k) for k in "VHEF"}
        self.arrays = {n: MArr(self, n, *ARRAYS[n]) for n in ARRAYS}
        self.loops = False
        I.assume = self.assume

    # -- entities ---------------------------------------------------------------
    def fresh(self, kind):
        l = self.ents[kind]
        if kind == "H" and len(l) >= self.total:
            raise PathPruned("more than %d half-edges" % self.total)
        name = "%s%d" % (kind.lower(), len(l))
        e = Ent(kind, self.I.g.mk("isym", name), name)
        l.append(e)
        self.byid[(kind, e.idx.id)] = e
        return e

    def newent(self, kind, k):
        """the k-th id past the old length"""
        while len(self.new[kind]) <= k:
            j = len(self.new[kind])
            idx = self.I.iadd(self.base[kind], j)
            e = Ent(kind, idx, "new%s%d" % (kind, j), True)
            self.new[kind].append(e)
            self.byid[(kind, idx.id)] = e
        return self.new[kind][k]

    def all(self, kind):
        return self.ents[kind] + self.new[kind]

    def lookup(self, kind, idx):
        if isinstance(idx, N):
            e = self.byid.get((kind, idx.id))
            if e:
                return e
            d = self.I.isub(idx, self.base[kind])
            if isinstance(d, int) and d >= 0:
                return self.newent(kind, d)
        return None

    def assume(self, cond):
        if cond.op != "rel":
            return None
        d = self.I.isub(cond.a, cond.b)
        if isinstance(d, int):
            return frozenset("=" if d == 0 else "<" if d < 0 else ">")
        a, b = cond.a, cond.b
        for x, y, fl in ((a, b, False), (b, a, True)):
            if not isinstance(y, N) and y == INVALID:
                return frozenset(">" if fl else "<")
        ea = [self.byid.get((k, a.id)) for k in "VHEF"] if isinstance(a, N) else []
        eb = [self.byid.get((k, b.id)) for k in "VHEF"] if isinstance(b, N) else []
        for x, y in zip(ea, eb):
            if x is not None and y is not None:
                return frozenset("=") if x is y else (frozenset("<") if y.new and not x.new else frozenset(">") if x.new and not y.new else frozenset("<>"))
        # an old entity against a length
        for k in "VHEF":
            for es, o, r in ((ea, b, "<"), (eb, a, ">")):
                e = es[("VHEF").index(k)] if es else None
                if e is not None and not e.new and isinstance(o, N):
                    q = self.I.isub(o, self.base[k])
                    if isinstance(q, int) and q >= 0:
                        return frozenset(r)
        return None

    # -- consistency of the partial mesh --------------------------------------------
    def members(self, attr, ent):
        return [h for h in self.ents["H"] if h.at[attr] is ent]

    def consistent(self):
        hs = self.ents["H"]
        ends = {}
        for h in hs:
            o, t, e = h.at["org"], h.at["tip"], h.at["edge"]
            if o is not None and o is t:
                return False
            n = h.p.get("next")
            if n is not None and (n.at["org"] is not t or n.at["face"] is not h.at["face"]):
                return False
            if e is not None and o is not None and t is not None:
                s = frozenset((o, t))
                if ends.setdefault(e, s) != s:
                    return False
        for h in hs:
            s = ends.get(h.at["edge"])
            if s is not None:
                u, v = sorted(s, key=lambda x: x.name)
                if not any(all(h.at[a] is x or h.at[a] is None and (m, x) not in self.closed for a, m, x in (("org", "out", p), ("tip", "in", q))) for p, q in ((u, v), (v, u))):
                    return False
        for m, k in self.closed:
            for h in hs:
                if h.at[ATTR[m]] is k and not (m in h.p and m in h.pred):
                    return False
        for k in "VEF":
            for x in self.ents[k]:
                if x.ptr is not None and x.ptr.at[PTR_ATTR[k]] is not x:
                    return False
        return True

    def try_set(self, changes):
        """apply attribute changes [(h, attr, ent)] if the result is consistent"""
        old = []
        ok = True
        for h, a, e in changes:
            old.append((h, a, h.at[a]))
            if h.at[a] is not None and h.at[a] is not e:
                ok = False
            else:
                h.at[a] = e
        if ok and self.consistent():
            return True
        for h, a, e in reversed(old):
            h.at[a] = e
        return False

    def can(self, changes):
        snap = [(h, a, h.at[a]) for h, a, _ in changes]
        r = self.try_set(changes)
        for h, a, e in snap:
            h.at[a] = e
        return r

    def resolve(self, h, a):
        """the attribute a of half-edge h"""
        if h.at[a] is not None:
            return h.at[a]
        if a == "edge":
            self.resolve(h, "org"), self.resolve(h, "tip")
        ch = [(h, a, e) for e in self.ents[KIND[a]]]
        if a == "tip" and h.p.get("next") is not None:
            ch = [(h, a, h.p["next"].at["org"])]
        opts = [c for c in ch if self.can([c])]
        k = self.I.choose(len(opts) + 1, (a, h.name))
        if k == len(opts):
            self.try_set([(h, a, self.fresh(KIND[a]))]) or self.dead()
        else:
            self.try_set([opts[k]])
        return h.at[a]

    def dead(self):
        raise PathPruned("no well-formed mesh of this shape")

    def chain(self, m, h):
        """head of the chain h is in, and whether it is a closed cycle"""
        x = h
        while m in x.pred:
            x = x.pred[m]
            if x is h:
                return x, True
        return x, False

    def get(self, m, h):
        if m in h.p:
            return h.p[m]
        a = ATTR[m]
        k = self.resolve(h, a)
        if m == "next":
            self.resolve(h, "tip")
        if m == "sib":
            self.resolve(h, "org"), self.resolve(h, "tip")
        head, _ = self.chain(m, h)
        opts = []
        for d in self.ents["H"]:
            if m in d.pred:
                continue
            base = [(d, a, k)] + ([(d, "org", h.at["tip"])] if m == "next" else [])
            alts = [base]
            if m == "sib":
                o, t = h.at["org"], h.at["tip"]
                alts = [base + [(d, "org", o), (d, "tip", t)], base + [(d, "org", t), (d, "tip", o)]]
            for ch in alts:
                if d is head:
                    if m == "next" and d is h:
                        continue
                    if any(x is not h and self.chain(m, x)[0] is not head for x in self.members(a, k)):
                        continue
                if self.can(ch):
                    opts.append((d, ch))
        n = len(opts)
        room = len(self.members(a, k)) < self.per_class and len(self.ents["H"]) < self.total
        if room:
            n += 2 if m == "sib" else 1
        if n == 0:
            self.dead()
        c = self.I.choose(n, (m, h.name))
        if c < len(opts):
            d, ch = opts[c]
            self.try_set(ch)
        else:
            d = self.fresh("H")
            ch = [(d, a, k)]
            if m == "next":
                ch.append((d, "org", h.at["tip"]))
            if m == "sib":
                o, t = h.at["org"], h.at["tip"]
                ch += [(d, "org", o), (d, "tip", t)] if c == len(opts) else [(d, "org", t), (d, "tip", o)]
            self.try_set(ch) or self.dead()
        h.p[m], d.pred[m] = d, h
        if d is head:
            self.closed.add((m, k))
        if not self.consistent():
            self.dead()
        return d

    def pointer(self, x):
        if x.ptr is not None:
            return x.ptr
        a = PTR_ATTR[x.kind]
        opts = [h for h in self.ents["H"] if self.can([(h, a, x)])]
        room = len(self.ents["H"]) < self.total and not any(ATTR[m] == a and (m, x) in self.closed for m in MAPS)
        n = len(opts) + room
        if n == 0:
            self.dead()
        c = self.I.choose(n, ("ptr", x.name))
        if c < len(opts):
            h = opts[c]
            self.try_set([(h, a, x)])
        else:
            h = self.fresh("H")
            self.try_set([(h, a, x)]) or self.dead()
        x.ptr = h
        return h

    # -- the Rust value ---------------------------------------------------------------
    def value(self, prog):
        self.cnt = {}

        def build(ty):
            f = []
            for n in prog.structs[ty]:
                if n in ARRAYS:
                    f.append(self.arrays[n])
                elif n in COUNTS:
                    f.append(self.I.g.mk("isym", "count" + COUNTS[n]))
                    self.cnt[COUNTS[n]] = (f, len(f) - 1, f[-1])
                elif n == "core_data":
                    f.append(build("MeshCoreData"))
                elif n == "use_implicit_twin":
                    f.append(False)
                else:
                    raise Unsupported("field %s of %s" % (n, ty))
            return Agg(ty, None, f)
        v = build("SurfaceMesh")
        self.cell = [v]
        return Ref(self.cell, 0)

    def mkid(self, e):
        return Agg(IDTY[e.kind], None, [e.idx])

    def ent(self, v):
        """entity of an id value (or None when it is not one)"""
        if not isinstance(v, Agg) or v.ty not in IDTY.values():
            return None
        k = [a for a in IDTY if IDTY[a] == v.ty][0]
        return self.lookup(k, v.f[0])

    # -- state after an operation -----------------------------------------------------
    def fmap(self, m, h):
        """final value: an Ent, None (invalid), or 'open' (never read, never written)"""
        arr = self.arrays[[n for n in ARRAYS if ARRAYS[n][2] == m][0]]
        if h in arr.cur:
            return self.ent(arr.cur[h])
        if h.new:
            return None
        return h.p.get(m, "open")

    def fattr(self, a, h):
        if a == "tip":
            n = self.fmap("next", h)
            if n == "open":
                return h.at["tip"]
            return None if n is None else self.fattr("org", n)
        arr = self.arrays[[n for n in ARRAYS if ARRAYS[n][2] == a][0]]
        if h in arr.cur:
            return self.ent(arr.cur[h])
        return h.at[a]

    def fptr(self, x):
        arr = [self.arrays[n] for n in ARRAYS if ARRAYS[n][2] == "ptr" and ARRAYS[n][0] == x.kind][0]
        if x in arr.cur:
            return self.ent(arr.cur[x])
        return None if x.new else x.ptr if x.ptr is not None else "open"

    def check(self):
        """-> list of (key, message): invariants the operation fails to keep"""
        bad = []
        hs = self.all("H")
        grown = {k: len(self.new[k]) for k in "VHEF"}
        for n, arr in self.arrays.items():
            k = arr.kidx
            if arr.extra != grown[k]:
                bad.append(("length", "%s grew by %d, %d new ids are in use" % (n, arr.extra, grown[k])))
        for k, (f, i, v0) in self.cnt.items():
            d = self.I.isub(f[i], v0)
            if d != grown[k]:
                bad.append(("count", "the %s count changes by %r, %d were added" % (IDTY[k], d, grown[k])))
        if bad:
            return bad
        for h in hs:
            for a in ("org", "tip", "face", "edge"):
                if h.new and self.fattr(a, h) is None:
                    bad.append(("unset:" + a, "new half-edge %s has no valid %s" % (h, a)))
        for m in MAPS:
            a = ATTR[m]
            succ, pred = {}, {}
            for h in hs:
                d = self.fmap(m, h)
                if d is None:
                    bad.append(("unset:" + m, "%s of half-edge %s is not a valid half-edge" % (m, h)))
                    continue
                if d == "open":
                    continue
                succ[h] = d
                if d in pred:
                    bad.append(("shared:" + m, "%s and %s both have %s as their %s half-edge" % (pred[d], h, d, m)))
                pred[d] = h
                ka, kb = self.fattr(a, h), self.fattr(a, d)
                if ka is not kb or ka is None:
                    bad.append(("mixed:" + m, "%s of %s (%s %s) is %s (%s %s)" % (m, h, a, ka, d, a, kb)))
            if bad:
                continue
            keys = {self.fattr(a, h) for h in hs} - {None}
            for k in keys:
                cells = [h for h in hs if self.fattr(a, h) is k]
                init = set()
                for h in cells:
                    if not h.new and h.at[a] is k and m not in h.pred:
                        t = h
                        while m in t.p:
                            t = t.p[m]
                        init.add((h, t))
                fin, cyc, seen = set(), [], set()
                for h in cells:
                    if h not in pred:
                        t = h
                        seen.add(t)
                        while t in succ:
                            t = succ[t]
                            seen.add(t)
                        fin.add((h, t))
                for h in cells:
                    if h not in seen:
                        c, t = [h], succ[h]
                        seen.add(h)
                        while t is not h:
                            c.append(t)
                            seen.add(t)
                            t = succ[t]
                        cyc.append(c)
                if len(cyc) > 1 or (cyc and fin) or fin != init:
                    bad.append(("cycle:" + m, "the %s cycle of %s is broken: pieces %s %s, before the operation %s" % (m, k, sorted(map(str, fin)), cyc, sorted(map(str, init)))))
        ends = {}
        for h in hs:
            e, o, t = (self.fattr(x, h) for x in ("edge", "org", "tip"))
            if e is not None and o is not None and t is not None:
                if o is t:
                    bad.append(("loop", "half-edge %s starts and ends at %s" % (h, o)))
                s = frozenset((o, t))
                if ends.setdefault(e, s) != s:
                    bad.append(("ends", "half-edges of edge %s connect different vertices: %s and %s" % (e, sorted(map(str, ends[e])), sorted(map(str, s)))))
        for h in hs:
            if h.new or any(self.fattr(x, h) is not h.at[x] for x in ("edge", "org", "tip") if h.at[x] is not None):
                e = self.fattr("edge", h)
                if e is None:
                    bad.append(("unknown", "half-edge %s changes without its edge being known" % h))
                    continue
                mem = [x for x in hs if self.fattr("edge", x) is e]
                if any(self.fmap("sib", x) == "open" for x in mem) and not any(not x.new and all(x.at[y] is not None and self.fattr(y, x) is x.at[y] for y in ("edge", "org", "tip")) for x in mem):
                    bad.append(("partial", "edge %s is changed only in part" % e))
        for k in "VEF":
            a = PTR_ATTR[k]
            for x in self.all(k):
                p = self.fptr(x)
                if p == "open":
                    if any(h.at[a] is x and self.fattr(a, h) is not x for h in self.ents["H"]):
                        bad.append(("ptr:" + k, "the half-edge of %s may no longer belong to it" % x))
                elif p is None:
                    bad.append(("ptr:" + k, "%s has no valid half-edge" % x))
                elif self.fattr(a, p) is not x:
                    bad.append(("ptr:" + k, "the half-edge of %s is %s, which belongs to %s" % (x, p, self.fattr(a, p))))
        return bad


class MArr:
    """one array of the mesh"""
    ty = "Vec"

    def __init__(self, M, name, kidx, kval, role):
        self.M, self.name, self.kidx, self.kval, self.role = M, name, kidx, kval, role
        self.cur, self.extra = {}, 0

    def vlen(self, I):
        return I.iadd(self.M.base[self.kidx], self.extra)

    def vresize(self, I, n, v):
        d = I.isub(n, self.vlen(I))
        if not isinstance(d, int) or d < 0:
            raise Unsupported("resize of %s" % self.name)
        for k in range(d):
            self.cur[self.M.newent(self.kidx, self.extra + k)] = I.clone(v)
        self.extra += d
        return _I.UNIT

    def vpush(self, I, v):
        self.cur[self.M.newent(self.kidx, self.extra)] = v
        self.extra += 1
        return _I.UNIT

    def index_ref(self, I, idx):
        return Ref(self, idx)

    def index_loc(self, I, idx):
        return self, idx

    def as_slice(self, I):
        return _I.Slice(self, 0, self.vlen(I))

    def at(self, idx):
        e = self.M.lookup(self.kidx, idx)
        if e is None:
            raise PathPanic("index %r is not a valid %s" % (idx, IDTY[self.kidx]))
        if e.new and self.M.new[self.kidx].index(e) >= self.extra:
            raise PathPanic("index past the end of " + self.name)
        return e

    def __getitem__(self, idx):
        e = self.at(idx)
        if e not in self.cur:
            M = self.M
            if self.role == "ptr":
                r = M.pointer(e)
            elif self.role in ATTR:
                r = M.get(self.role, e)
            else:
                r = M.resolve(e, self.role)
            return M.mkid(r)
        v = self.cur[e]
        return Agg(v.ty, v.var, list(v.f)) if isinstance(v, Agg) else v

    def __setitem__(self, idx, v):
        self.cur[self.at(idx)] = v


def methods(prog, ty, name):
    f = (prog.inherent.get((ty, name)) or [None])[0]
    if f is None:
        for (t, tr_, m), fs in prog.trait_impls.items():
            if t == ty and m == name:
                return fs[0] if isinstance(fs, list) else fs
    return f


def unchanged(M, what, cells=None):
    """old half-edges whose attribute changed"""
    return [h for h in (M.ents["H"] if cells is None else cells) if M.fattr(what, h) is not h.at[what] and not (h.at[what] is None and M.fattr(what, h) is None)]


def explore(ctx, name, run, limit, count):
    I = run.I
    n = 0
    for (st, r), facts in I.explore(run, limit=limit):
        if st == "pruned" and r == "shard":
            continue
        if st == "pruned":
            ctx.count(name + " shapes beyond the bound")
            continue
        ctx.count(count)
        n += 1
        if st == "panic":
            ctx.ob(False, name + ":panic", "%s panics on a well-formed mesh: %s" % (name, r))
        else:
            for k, m in r:
                ctx.ob(False, name + ":" + k, "%s: %s" % (name, m))
            if not r:
                ctx.ob(True, name, "")
    ctx.saw(I.called)
    return n


# ---- P15: edits -----------------------------------------------------------------------
ALLOC = Agg("Global", None, [])


def need(ctx, prog, ty, name):
    f = methods(prog, ty, name)
    ctx.ob(f is not None, "missing:" + name, "%s::%s not found" % (ty, name))
    return f


def grown(M, **want):
    bad = []
    for k in "VHEF":
        n = len(M.new[k])
        if n != want.get(k, 0):
            bad.append(("new:" + k, "%d new %s instead of %d" % (n, IDTY[k], want.get(k, 0))))
    return bad


def job_split_edge(m, per_class, total, shard=None):
    def job(ctx):
        prog = ctx.prog
        f = need(ctx, prog, "SurfaceMesh", "split_edge")
        if not f:
            return
        I = Interp(prog)
        I.shard = shard

        def run():
            M = Heap(I, per_class, total)
            ref = M.value(prog)
            e = M.fresh("E")
            s0 = M.pointer(e)
            # the edge's half-edges first: they bound the case split
            S, h = [s0], M.get("sib", s0)
            while h is not s0:
                S.append(h)
                if len(S) > m:
                    raise PathPruned("shard")
                h = M.get("sib", h)
            if len(S) != m:
                raise PathPruned("shard")
            nx0 = {}
            r = I.run(f, [ref, M.mkid(e), ALLOC], {})
            bad = M.check()
            if bad:
                return bad
            bad = grown(M, V=1, E=1, H=len(S))
            if bad:
                return bad
            nv = M.new["V"][0]
            if M.ent(r) is not nv:
                bad.append(("result", "returns %r, not the new vertex" % (r,)))
            for w in ("org", "face"):
                for h in unchanged(M, w):
                    bad.append(("moved:" + w, "half-edge %s changes its %s" % (h, w)))
            for h in unchanged(M, "edge"):
                if h not in S:
                    bad.append(("moved:edge", "half-edge %s changes its edge" % h))
            for s in S:
                n = M.fmap("next", s)
                if n == "open" or n is None or not n.new or M.fattr("org", n) is not nv:
                    bad.append(("middle", "half-edge %s is not followed by a half-edge from the new vertex" % s))
                elif s.p.get("next") is not None and M.fmap("next", n) is not s.p["next"]:
                    bad.append(("middle", "the new half-edge after %s does not lead on to its old successor" % s))
            return bad
        run.I = I
        explore(ctx, "split_edge", run, 400000, "split_edge classes")
    return job


def job_split_face(k, i, j, total):
    def job(ctx):
        prog = ctx.prog
        f = need(ctx, prog, "SurfaceMesh", "split_face")
        if not f:
            return
        I = Interp(prog)

        def run():
            M = Heap(I, max(k, 3), total)
            ref = M.value(prog)
            fc = M.fresh("F")
            hs = [M.fresh("H") for _ in range(k)]
            vs = [M.fresh("V") for _ in range(k)]
            for x in range(k):
                h, d = hs[x], hs[(x + 1) % k]
                h.at["face"], h.at["org"], h.at["tip"] = fc, vs[x], vs[(x + 1) % k]
                h.p["next"], d.pred["next"] = d, h
            M.closed.add(("next", fc))
            fc.ptr = hs[0]
            r = I.run(f, [ref, M.mkid(fc), M.mkid(vs[i]), M.mkid(vs[j]), ALLOC], {})
            bad = M.check() or grown(M, H=2, E=1, F=1)
            if bad:
                return bad
            for w in ("org", "edge"):
                for h in unchanged(M, w):
                    bad.append(("moved:" + w, "half-edge %s changes its %s" % (h, w)))
            nf = M.new["F"][0]
            q = M.ent(r)
            if q is None or not q.new or q.kind != "H" or M.fattr("face", q) is not nf:
                bad.append(("result", "the half-edge returned is not the new face's new half-edge"))
            a, b = M.new["H"]
            if {M.fattr("org", a), M.fattr("org", b)} != {vs[i], vs[j]}:
                bad.append(("chord", "the new half-edges run between other vertices"))
            for h in (a, b):
                if M.fattr("edge", h) is not M.new["E"][0]:
                    bad.append(("chord", "a new half-edge is not on the new edge"))
            for h in hs:
                n = M.fmap("next", h)
                if n is not h.p["next"] and (n == "open" or n is None or not n.new):
                    bad.append(("order", "the order of the old half-edges around the faces changes"))
            if {M.fattr("face", h) for h in hs + [a, b]} != {fc, nf}:
                bad.append(("sides", "the two parts do not lie on the old and the new face"))
            return bad
        run.I = I
        explore(ctx, "split_face", run, 200000, "split_face classes")
    return job


def job_add_face(k, total):
    def job(ctx):
        prog = ctx.prog
        f = need(ctx, prog, "SurfaceMesh", "add_face_by_halfedges")
        if not f:
            return
        I = Interp(prog)

        def run():
            M = Heap(I, 3, total)
            ref = M.value(prog)
            hs = [M.fresh("H") for _ in range(k)]
            vs = [M.fresh("V") for _ in range(k)]
            for x in range(k):
                hs[x].at["org"], hs[x].at["tip"] = vs[x], vs[(x + 1) % k]
            arg = [M.mkid(h) for h in hs]
            r = I.run(f, [ref, _I.Slice(arg, 0, k), ALLOC], {})
            bad = M.check() or grown(M, H=k, F=1)
            if bad:
                return bad
            for w in ("org", "face", "edge"):
                for h in unchanged(M, w):
                    bad.append(("moved:" + w, "half-edge %s changes its %s" % (h, w)))
            nf = M.new["F"][0]
            if M.ent(r) is not nf:
                bad.append(("result", "does not return the new face"))
            by = {}
            for n in M.new["H"]:
                by[M.fattr("org", n)] = n
            for x, h in enumerate(hs):
                n = by.get(vs[x])
                if n is None or M.fattr("face", n) is not nf or M.fattr("tip", n) is not vs[(x + 1) % k]:
                    bad.append(("boundary", "the new face lacks the half-edge from vertex %d to the next" % x))
                elif M.fattr("edge", n) is not M.fattr("edge", h) or M.fattr("edge", n) is None:
                    bad.append(("edge", "a new half-edge is not on the edge of the given one"))
            return bad
        run.I = I
        explore(ctx, "add_face_by_halfedges", run, 200000, "add_face classes")
    return job


def job_new(ctx):
    prog = ctx.prog
    for name, kind in (("new_vertices", "V"), ("new_halfedges", "H"), ("new_edges", "E"), ("new_faces", "F")):
        f = need(ctx, prog, "SurfaceMesh", name)
        if not f:
            continue
        for n in range(4):
            I = Interp(prog)

            def run():
                M = Heap(I, 2, 2)
                ref = M.value(prog)
                r = I.run(f, [ref, n], {})
                bad = []
                for nm, a in M.arrays.items():
                    if a.extra != (n if a.kidx == kind else 0):
                        bad.append(("length", "%s grows by %d for %d new %s" % (nm, a.extra, n, IDTY[kind])))
                    for e, v in a.cur.items():
                        if not e.new or v.f[0] != INVALID:
                            bad.append(("content", "%s[%s] becomes %r" % (nm, e, v)))
                for k, (g, i, v0) in M.cnt.items():
                    d = I.isub(g[i], v0)
                    if d != (n if k == kind else 0):
                        bad.append(("count", "the %s count changes by %r for %d new" % (IDTY[k], d, n)))
                if not (isinstance(r, Agg) and r.ty == IDTY[kind] and r.f[0] is M.base[kind]):
                    bad.append(("result", "returns %r, not the first new id" % (r,)))
                return bad
            run.I = I
            explore(ctx, name, run, 1000, "new_* classes")


def check_edits(ctx):
    T = ctx.thorough
    ctx.rule("invariants of an arbitrary well-formed half-edge mesh, materialised on demand, before and after each edit: every cycle map one cycle per face, edge, vertex; "
             "end points of an edge agree; back pointers; counts and array lengths")
    jobs = [job_new]
    for m in range(1, 5 if T else 4):
        for w in range(24):
            jobs.append(job_split_edge(m, 4 if T else 3, 7 if T else 6, (m + 7, 24, w)))
    kmax = 7 if T else 5
    for k in range(2, kmax + 1):
        for i in range(k):
            for j in range(k):
                if i != j:
                    jobs.append(job_split_face(k, i, j, k + 8))
    for k in range(2, 6 if T else 5):
        jobs.append(job_add_face(k, k + (2 if T else 1)))
    ctx.parallel(jobs)
    ctx.floor("split_edge classes", 20)
    ctx.floor("split_face classes", 20)
    ctx.floor("add_face classes", 5)
    ctx.floor("new_* classes", 16)


# ---- P16: navigation ---------------------------------------------------------------------
def mesh_fn(prog, name):
    f = methods(prog, "SurfaceMesh", name)
    if f is None:
        for k, g in prog.by_call.items():
            if k.endswith("::Mesh::" + name) or k == "Mesh::" + name:
                return g
    return f


def elem(I, prog, ty, ref, idv):
    return I.run(methods(prog, ty, "new"), [ref, idv], {"M": "SurfaceMesh"})


def run_iter(I, prog, it, cap):
    """all items of an iterator of the mesh module"""
    nxt = None
    for (t, tr_, m), fs in prog.trait_impls.items():
        if t == it.ty and tr_ == "Iterator" and m == "next":
            nxt = fs[0] if isinstance(fs, list) else fs
    if nxt is None:
        raise Unsupported("no Iterator for " + it.ty)
    cell, out = [it], []
    while True:
        r = I.run(nxt, [Ref(cell, 0)], {"M": "SurfaceMesh"})
        if r.var == 0:
            return out
        out.append(r.f[0])
        if len(out) > cap:
            return None


def idof(M, v):
    """entity of an id, or of an element handle holding one"""
    if isinstance(v, Ref):
        v = v.get()
    e = M.ent(v)
    if e is None and isinstance(v, Agg):
        for x in v.f:
            e = e or (M.ent(x) if isinstance(x, Agg) else None)
    return e


def nav_job(name, per_class, total, setup, act, spec, shard=None):
    def job(ctx):
        prog = ctx.prog
        I = Interp(prog)
        I.shard = shard

        def run():
            M = Heap(I, per_class, total)
            ref = M.value(prog)
            x = setup(M)
            r = act(I, prog, M, ref, x)
            if any(a.cur or a.extra for a in M.arrays.values()):
                return [("writes", "changes the mesh")]
            return spec(M, x, r)
        run.I = I
        explore(ctx, name, run, 400000, "navigation classes")
        ctx.count("navigation functions")
    return job


def ring(M, m, h):
    c, x = [h], h.p.get(m)
    while x is not h:
        if x is None:
            return None
        c.append(x)
        x = x.p.get(m)
    return c


def sp_iter(m, root):
    """the items are exactly the cycle of `root`, each once"""
    def spec(M, x, r):
        if r is None:
            return [("endless", "does not end after the whole cycle")]
        got = [idof(M, v) for v in r]
        if m == "next" and root == "V":
            return [] if got == [h.at["org"] for h in ring_of(M, "next", x)] else [("items", "vertices listed are %s" % got)]
        want = ring_of(M, m, x)
        if want is None:
            return [("partial", "stops before the cycle of %s is complete: %s" % (x, got))]
        return [] if len(got) == len(want) and set(got) == set(want) else [("items", "lists %s, the cycle is %s" % (got, want))]
    return spec


def ring_of(M, m, x):
    mem = M.members(ATTR[m], x)
    if (m, x) not in M.closed:
        return None
    return ring(M, m, x.ptr if x.ptr in mem else mem[0])


def nav_jobs(ctx):
    T = ctx.thorough
    pc, tot = (4, 7) if T else (3, 6)
    H = lambda M: M.fresh("H")
    V, E, F = (lambda M: M.fresh("V")), (lambda M: M.fresh("E")), (lambda M: M.fresh("F"))
    A = lambda n: M_call(n)

    def M_call(n):
        def act(I, prog, M, ref, x):
            f = mesh_fn(prog, n)
            if f is None:
                raise Unsupported("method %s of the mesh not found" % n)
            return I.run(f, [ref] + [M.mkid(e) for e in (x if isinstance(x, tuple) else (x,))], {})
        return act

    def E_call(ty, n, it=False):
        def act(I, prog, M, ref, x):
            f = methods(prog, ty, n)
            if f is None:
                raise Unsupported("%s::%s not found" % (ty, n))
            h = elem(I, prog, ty, ref, M.mkid(x))
            r = I.run(f, [Ref([h], 0)], {"M": "SurfaceMesh"})
            return run_iter(I, prog, r, 3 * tot) if it else r
        return act

    def is_(want):
        def spec(M, x, r):
            e, w = idof(M, r), want(M, x)
            return [] if e is w else [("result", "gives %s instead of %s" % (e, w))]
        return spec

    def sp_prev(M, x, r):
        e = idof(M, r)
        return [] if e is not None and e.kind == "H" and e.p.get("next") is x else [("result", "gives %s, whose next half-edge is not %s" % (e, x))]

    def sp_in(M, x, r):
        e = idof(M, r)
        return [] if e is not None and e.kind == "H" and e.at["tip"] is x else [("result", "gives %s, which does not end at %s" % (e, x))]

    def sp_twin(M, x, r):
        e = idof(M, r)
        if e is None or e.kind != "H":
            return [("result", "gives no half-edge")]
        c, k = [x], x.p.get("sib")
        while k is not None and k is not x:
            c.append(k)
            k = k.p.get("sib")
        if e is x:
            ok = k is x and all(h.at["org"] is x.at["org"] for h in c)
            return [] if ok else [("result", "gives the half-edge itself although its edge has one in the other direction")]
        return [] if e in c and e.at["org"] is x.at["tip"] else [("result", "gives %s, which does not run along the edge in the other direction" % e)]

    def sp_ends(M, x, r):
        got = [idof(M, v) for v in r.f]
        h = x.ptr if x.kind == "E" else x
        w = [h.at["org"], h.at["tip"]]
        return [] if got == w and None not in got else [("result", "gives %s instead of %s" % (got, w))]

    def truth_of(M, r):
        return M.I.truth(r)

    def sp_same(M, x, r):
        e = x.at["edge"].ptr if not isinstance(x, tuple) else x[1]
        a = x if not isinstance(x, tuple) else x[0]
        w = a.at["org"] is e.at["org"]
        return [] if truth_of(M, r) == w and a.at["org"] is not None and e.at["org"] is not None else [("result", "answers %s, should be %s" % (r, w))]

    def two(M):
        a = M.fresh("H")
        return (a, M.get("sib", a))

    tip = lambda M, x: x.at["tip"] or (x.p["next"].at["org"] if "next" in x.p else None)
    at = lambda a: (lambda M, x: x.at[a])
    mp = lambda m: (lambda M, x: x.p.get(m))
    ptr = lambda M, x: x.ptr
    S = [("he_prev", H, A("he_prev"), sp_prev), ("Halfedge::prev", H, E_call("Halfedge", "prev"), sp_prev),
         ("Vertex::in_halfedge", V, E_call("Vertex", "in_halfedge"), sp_in),
         ("he_twin", H, A("he_twin"), sp_twin), ("Halfedge::twin", H, E_call("Halfedge", "twin"), sp_twin),
         ("he_vertex", H, A("he_vertex"), is_(at("org"))), ("Halfedge::from", H, E_call("Halfedge", "from"), is_(at("org"))),
         ("he_tip_vertex", H, A("he_tip_vertex"), is_(tip)), ("Halfedge::to", H, E_call("Halfedge", "to"), is_(tip)),
         ("he_next", H, A("he_next"), is_(mp("next"))), ("Halfedge::next", H, E_call("Halfedge", "next"), is_(mp("next"))),
         ("he_sibling", H, A("he_sibling"), is_(mp("sib"))), ("Halfedge::sibling", H, E_call("Halfedge", "sibling"), is_(mp("sib"))),
         ("he_next_incoming_neighbor", H, A("he_next_incoming_neighbor"), is_(mp("in"))),
         ("he_next_outgoing_neighbor", H, A("he_next_outgoing_neighbor"), is_(mp("out"))),
         ("he_edge", H, A("he_edge"), is_(at("edge"))), ("Halfedge::edge", H, E_call("Halfedge", "edge"), is_(at("edge"))),
         ("he_face", H, A("he_face"), is_(at("face"))),
         ("v_halfedge", V, A("v_halfedge"), is_(ptr)), ("Vertex::out_halfedge", V, E_call("Vertex", "out_halfedge"), is_(ptr)),
         ("e_halfedge", E, A("e_halfedge"), is_(ptr)), ("Edge::halfedge", E, E_call("Edge", "halfedge"), is_(ptr)),
         ("f_halfedge", F, A("f_halfedge"), is_(ptr)), ("Face::halfedge", F, E_call("Face", "halfedge"), is_(ptr)),
         ("e_vertices", E, A("e_vertices"), sp_ends), ("Halfedge::vertices", H, E_call("Halfedge", "vertices"), sp_ends),
         ("he_same_dir", H, A("he_same_dir"), sp_same), ("hes_same_dir", two, A("hes_same_dir"), sp_same),
         ("Edge::halfedges", E, E_call("Edge", "halfedges", True), sp_iter("sib", "H")),
         ("Face::halfedges", F, E_call("Face", "halfedges", True), sp_iter("next", "H")),
         ("Face::vertices", F, E_call("Face", "vertices", True), sp_iter("next", "V")),
         ("Vertex::incoming_halfedges", V, E_call("Vertex", "incoming_halfedges", True), sp_iter("in", "H")),
         ("Vertex::outgoing_halfedges", V, E_call("Vertex", "outgoing_halfedges", True), sp_iter("out", "H"))]
    jobs = [nav_job(n, pc + 1, tot, s, a, sp) for n, s, a, sp in S]

    def around(kind):
        def spec(M, x, r):
            if r is None:
                return [("endless", "does not end after all neighbours")]
            if ("in", x) not in M.closed or ("out", x) not in M.closed:
                return [("partial", "stops before the vertex's half-edges are exhausted")]
            by = {}
            for h in M.members("org", x) + M.members("tip", x):
                if h.at["edge"] is None:
                    return [("partial", "stops without looking at the edge of %s" % h)]
                by.setdefault(h.at["edge"], set()).add(tip(M, h) if h.at["org"] is x else h.at["org"])
            got = sorted(str(idof(M, v)) for v in r)
            if kind == "E":
                want = sorted(str(e) for e in by)
            else:
                if any(len(s) != 1 or None in s for s in by.values()):
                    return [("partial", "stops without looking at an end point")]
                want = sorted(str(list(s)[0]) for s in by.values())
            return [] if got == want else [("items", "lists %s, should be %s" % (got, want))]
        return spec
    n = 24
    for w in range(n):
        jobs.append(nav_job("Vertex::edges", 3 if T else 2, tot, V, E_call("Vertex", "edges", True), around("E"), (7, n, w)))
        jobs.append(nav_job("Vertex::vertices", 3 if T else 2, tot, V, E_call("Vertex", "vertices", True), around("V"), (7, n, w)))
    jobs.append(job_global)
    return jobs


def job_global(ctx):
    """element lists: exactly the valid ids, in order; counts and capacities"""
    prog = ctx.prog
    for name, arr, kind, cap, cnt in (("vertices", "v_halfedge_arr", "V", "n_vertices_capacity", "n_vertices"), ("halfedges", "he_vertex_arr", "H", "n_halfedges_capacity", "n_halfedges"),
                                      ("edges", "e_halfedge_arr", "E", "n_edges_capacity", "n_edges"), ("faces", "f_halfedge_arr", "F", "n_faces_capacity", "n_faces")):
        for n in range(5):
            I = Interp(prog)
            other = set()

            def run():
                I.assume = lambda c: frozenset("<") if c.op == "rel" and not isinstance(c.b, N) and c.b == INVALID else frozenset(">") if c.op == "rel" and not isinstance(c.a, N) and c.a == INVALID else None
                valid = [I.choose(2, ("valid", i)) == 0 for i in range(n)]

                def build(ty):
                    f = []
                    for a in prog.structs[ty]:
                        if a in ARRAYS:
                            same = ARRAYS[a][0] == kind
                            t = IDTY[ARRAYS[a][1]]
                            vals = [Agg(t, None, [I.g.mk("isym", "%s%d" % (a, i)) if valid[i] else INVALID]) for i in range(n)] if same else []
                            f.append(VecV(vals))
                        elif a in COUNTS:
                            f.append(I.g.mk("isym", a))
                        elif a == "core_data":
                            f.append(build("MeshCoreData"))
                        elif a == "use_implicit_twin":
                            f.append(False)
                        else:
                            raise Unsupported("field %s of %s" % (a, ty))
                    return Agg(ty, None, f)
                ref = Ref([build("SurfaceMesh")], 0)
                for q in (name, cap, cnt):
                    if mesh_fn(prog, q) is None:
                        raise Unsupported("method %s of the mesh not found" % q)
                it = I.run(mesh_fn(prog, name), [ref], {})
                out = run_iter(I, prog, it, n + 1)
                bad = []
                ids = None if out is None else [[x.f[0] for x in h.f if isinstance(x, Agg) and x.ty == IDTY[kind]][0] for h in out]
                if ids != [i for i in range(n) if valid[i]]:
                    bad.append(("items", "lists %s of %d ids with validity %s" % (ids, n, valid)))
                c = I.run(mesh_fn(prog, cap), [ref], {})
                if c != n:
                    bad.append(("capacity", "%s is %r for %d ids" % (cap, c, n)))
                c = I.run(mesh_fn(prog, cnt), [ref], {})
                if c is not I.g.mk("isym", cnt):
                    bad.append(("count", "%s is %r, not the stored count" % (cnt, c)))
                return bad
            run.I = I
            explore(ctx, name, run, 1000, "element lists")


def check_nav(ctx):
    ctx.rule("every query of an arbitrary well-formed half-edge mesh, materialised on demand, against the relation it stands for")
    jobs = nav_jobs(ctx)
    ctx.parallel(jobs)
    ctx.floor("navigation classes", 300)
    ctx.floor("navigation functions", 34)
    ctx.floor("element lists", 100)

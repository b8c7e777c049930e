"""Abstract interpreter for the MIR of /repo.

Concrete control data (constants, indices, enum tags) is constant-propagated;
floating-point and other data are value-graph nodes (vg.py).  A branch on a
non-constant condition partitions the trace: `explore` enumerates the partition
classes, each described by the list of facts (comparison outcomes) that hold in
it.  No input values are ever chosen and nothing is executed.
"""
import functools, re, struct, sys
from mir import strip_generics, split_top, match_close, type_key, AnalysisError
from vg import N, Graph

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class PathPanic(Exception):
    """the analysed path ends in a panic"""


class PathPruned(Exception):
    """the path is outside the analysed assumption"""


class Agg:
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, f

    def __repr__(self):
        return "%s%s%r" % (self.ty, "" if self.var is None else "#%s" % self.var, self.f)


class Arr:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "Arr%r" % (self.f,)


class VecV:
    __slots__ = ("f", "kind", "ty")

    def __init__(self, f, kind="conc"):
        self.f, self.kind = f, kind
        self.ty = "Vec"

    def __repr__(self):
        return "Vec%s%r" % ("" if self.kind == "conc" else ":" + self.kind, self.f)


class BoxV:
    __slots__ = ("f",)

    def __init__(self, v):
        self.f = [v]


class Ref:
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        return self.c[self.k]

    def __repr__(self):
        try:
            return "&%r" % (self.c[self.k],)
        except Exception:
            return "&?"


class Slice:
    """fat pointer to a slice"""
    __slots__ = ("c", "start", "n", "owner")

    def __init__(self, c, start, n, owner=None):
        self.c, self.start, self.n, self.owner = c, start, n, owner

    def __repr__(self):
        return "Slice(%r,%r,%r)" % (self.c, self.start, self.n)


class Clos:
    __slots__ = ("name", "f", "env")

    def __init__(self, name, f, env):
        self.name, self.f, self.env = name, f, env


class FnItem:
    __slots__ = ("path", "env")

    def __init__(self, path, env):
        self.path, self.env = path, env


class LazyList:
    """storage of unknown length whose elements are created on demand"""

    def __init__(self, name, mk):
        self.name, self.mk, self.d = name, mk, {}

    def __getitem__(self, k):
        kk = k.id if isinstance(k, N) else ("c", k)
        if kk not in self.d:
            self.d[kk] = self.mk(self.name, k)
        return self.d[kk]

    def __setitem__(self, k, v):
        kk = k.id if isinstance(k, N) else ("c", k)
        self.d[kk] = v

    def __repr__(self):
        return "<%s>" % self.name


class Cond:
    """undecided boolean: comparison of two nodes, or an opaque atom"""
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b

    def __repr__(self):
        return "(%r %s %r)" % (self.a, self.op, self.b)


class BoolExpr:
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b


UNINIT = object()
UNIT = Agg("()", None, [])


def some(v):
    return Agg("Option", 1, [v])


def none():
    return Agg("Option", 0, [])


def tup(*a):
    return Agg("()", None, list(a))


MASKS = {"usize": 64, "u64": 64, "u32": 32, "u8": 8, "u16": 16}
REL = {"Lt": {"<"}, "Le": {"<", "="}, "Gt": {">"}, "Ge": {">", "="}, "Eq": {"="}, "Ne": {"<", ">"}}
ALL3 = frozenset("<=>")
FLIP = {"<": ">", ">": "<", "=": "="}


def ordv(name):
    return Agg("Ordering", {"Less": -1, "Equal": 0, "Greater": 1}[name], [])


class Interp:
    MAX_STEPS = 400000

    def __init__(self, prog, graph=None):
        self.p = prog
        self.g = graph or Graph()
        self.summaries = {}       # callee path / (type, method) -> python fn(interp, args, info)
        self.decisions, self.pos = [], 0
        self.facts = []
        self.rel = {}
        self.atoms = {}
        self.steps = 0
        self.called = set()
        self.depth = 0
        self.const_cache = {}
        self.loops = {}
        self.zsts = {}
        self.binds, self.nloc = {}, {}
        self.shard = None         # (depth, n, w): follow only the w-th of n parts of the case tree
        import builtins_model
        self.bm = builtins_model
        self.assume = None        # optional callback(cond) -> True/False/None

    # ------------------------------------------------------------------
    # decisions
    def reset(self):
        self.pos = 0
        self.facts = []
        self.rel = {}
        self.atoms = {}
        self.steps = 0

    def choose(self, n, why):
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos][0]
        else:
            self.decisions.append([0, n])
            v = 0
        self.pos += 1
        if self.shard is not None and self.pos == self.shard[0]:
            h = 0
            for d in self.decisions[:self.pos]:
                h = h * 31 + d[0]
            if h % self.shard[1] != self.shard[2]:
                raise PathPruned("shard")
        return v

    def explore(self, run, limit=20000):
        """run(): performs one interpretation and returns a result; yields
        (result, facts) for every partition class."""
        self.decisions = []
        count = 0
        while True:
            self.reset()
            count += 1
            if count > limit:
                raise Unsupported("more than %d trace classes" % limit)
            try:
                res = ("return", run())
            except PathPanic as e:
                res = ("panic", str(e))
            except PathPruned as e:
                res = ("pruned", str(e))
            yield res, list(self.facts)
            self.decisions = self.decisions[:self.pos]
            while self.decisions and self.decisions[-1][0] + 1 >= self.decisions[-1][1]:
                self.decisions.pop()
            if not self.decisions:
                return
            self.decisions[-1][0] += 1

    def truth(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, BoolExpr):
            if c.op == "not":
                return not self.truth(c.a)
            if c.op == "and":
                return self.truth(c.a) and self.truth(c.b)
            if c.op == "or":
                return self.truth(c.a) or self.truth(c.b)
            if c.op == "xor":
                return self.truth(c.a) != self.truth(c.b)
        if isinstance(c, Cond):
            if c.op in REL:
                return self.compare(c.op, c.a, c.b)
            return self.atom(c)
        if isinstance(c, N):
            return self.compare("Ne", c, 0)
        raise Unsupported("truth of %r" % (c,))

    def atom(self, c):
        key = (c.op, self.key(c.a), self.key(c.b))
        if key in self.atoms:
            return self.atoms[key]
        if self.assume is not None:
            v = self.assume(c)
            if v is not None:
                self.atoms[key] = v
                return v
        v = not self.choose(2, key)
        self.atoms[key] = v
        self.facts.append(("atom", c, v))
        return v

    def key(self, a):
        if isinstance(a, N):
            return ("n", a.id)
        if isinstance(a, (list, tuple)):
            return tuple(self.key(x) for x in a)
        if isinstance(a, Agg):
            return (a.ty, a.var) + tuple(self.key(x) for x in a.f)
        return ("c", a)

    def norm_pair(self, a, b):
        """order the pair canonically; returns (a, b, flipped)"""
        g = self.g
        fl = False
        if isinstance(a, N) and isinstance(b, N):
            (sa, na), (sb, nb) = g.sgn(a), g.sgn(b)
            if na.id > nb.id:
                sa, na, sb, nb, fl = sb, nb, sa, na, True
            if sa < 0:
                # -x ? y  <=>  x (flipped ?) -y
                sa, sb, fl = 1, -sb, not fl
            return na, (nb if sb > 0 else g.neg(nb)), fl
        if not isinstance(a, N):
            a, b, fl = b, a, not fl
        if isinstance(a, N) and a.op == "neg":
            a, b, fl = a.args[0], -b, not fl
        return a, b, fl

    def allowed(self, a, b):
        if isinstance(a, N) and a is b:
            return frozenset("=")
        return self.rel.get((self.key(a), self.key(b)), ALL3)

    def compare(self, op, a, b):
        if not isinstance(a, N) and not isinstance(b, N):
            return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[op]
        want = REL[op]
        a, b, fl = self.norm_pair(a, b)
        if isinstance(b, float) and b == 0.0:
            b = 0.0
        if fl:
            want = {FLIP[x] for x in want}
        al = self.allowed(a, b)
        if self.assume is not None:
            al2 = self.assume(Cond("rel", a, b))
            if al2 is not None:
                al = al & frozenset(al2)
        yes, no = al & want, al - want
        if not no:
            return True
        if not yes:
            return False
        v = not self.choose(2, (self.key(a), self.key(b), op))
        new = frozenset(yes if v else no)
        self.rel[(self.key(a), self.key(b))] = new
        self.facts.append(("rel", a, b, new))
        return v

    # ------------------------------------------------------------------
    # generics
    def fn_generics(self, f):
        """names of the fn's own type/const generics in declaration order"""
        k = ("gen", f.name)
        if k in self.const_cache:
            return self.const_cache[k]
        names = []
        last = strip_generics(f.name).split("::")[-1]
        if f.file and f.kind == "fn" and re.match(r"\w+$", last):
            src = self.p._source(f.file)
            pat = re.compile(r"\bfn\s+%s\b\s*(<|\()" % re.escape(last))
            for ln in range(min(f.line, len(src)) - 1, -1, -1):
                m = pat.search(src[ln])
                if m:
                    if m.group(1) == "<":
                        txt = "\n".join(src[ln:ln + 60])
                        i = pat.search(txt).end() - 1
                        d = 0
                        for j in range(i, len(txt)):
                            if txt[j] == "<":
                                d += 1
                            elif txt[j] == ">" and txt[j - 1] not in "-=":
                                d -= 1
                                if d == 0:
                                    break
                        for part in split_top(re.sub(r"\s+", " ", txt[i + 1:j])):
                            part = part.strip()
                            if not part or part.startswith("'"):
                                continue
                            part = re.sub(r"^const ", "", part)
                            names.append(re.match(r"\w+", part).group(0))
                    break
        self.const_cache[k] = names
        return names

    def subst(self, s, env):
        if not env or not s:
            return s
        try:
            key = (s, tuple(env.items()))
            r = self.substs.get(key)
        except TypeError:
            key = r = None
        if r is None:
            r = self.subst_(s, env)
            if key is not None:
                self.substs[key] = r
        return r

    def subst_(self, s, env):
        return re.sub(r"\b([A-Za-z_]\w*)\b", lambda m: str(env.get(m.group(1), m.group(0))) if m.group(1) in env else m.group(0), s)

    # ------------------------------------------------------------------
    # evaluation
    literals = {}
    substs = {}         # (text, environment) -> text, the same for every program
    parsed = {}
    paths = {}

    def const(self, s, env, want=None):
        v = self.literals.get(s)
        if v is not None and s not in env:
            return v
        v = self.const_(s, env, want)
        if type(v) in (int, float, bool) and v == v and s not in env and len(s) < 30 and (s[0].isdigit() or s[0] == "-" or s in ("true", "false")):
            self.literals[s] = v
        return v

    def const_(self, s, env, want=None):
        s = s.strip()
        c = s[0]
        if c.isdigit() or (c == "-" and len(s) > 1 and s[1].isdigit()) or s in ("f64::INFINITY",):
            m = re.fullmatch(r"(-?[\d.]+(?:[eE][+-]?\d+)?)_?f64", s)
            if m:
                return float(m.group(1))
            m = re.fullmatch(r"(-?\d+)_(\w+)", s)
            if m:
                return int(m.group(1))
            if re.fullmatch(r"-?\d+", s):
                return int(s)
        if s == "true":
            return True
        if s == "false":
            return False
        if s == "()":
            return UNIT
        if s in ("-inff64",):
            return float("-inf")
        if s == "inff64":
            return float("inf")
        if s in ("NaNf64", "nanf64"):
            return float("nan")
        if c == '"' or s.startswith(('b"', "'")):
            return Agg("str", None, [s])
        if s in env:
            return self.const(str(env[s]), {}) if env[s] != s else s
        if s.startswith("ZeroSized: "):
            return FnItem(s[11:], env)
        if s in ("core::num::<impl usize>::MAX", "std::usize::MAX", "usize::MAX"):
            return (1 << 64) - 1
        m = re.fullmatch(r"(?:core|std)::(f64)(?:::<impl f64>|::consts)?::(\w+)", s)
        if m:
            import math
            tab = {"MAX": sys.float_info.max, "MIN": -sys.float_info.max, "EPSILON": sys.float_info.epsilon,
                   "INFINITY": math.inf, "NEG_INFINITY": -math.inf, "NAN": math.nan, "PI": math.pi,
                   "MIN_POSITIVE": sys.float_info.min}
            if m.group(2) in tab:
                return tab[m.group(2)]
        # named constant or promoted
        f = self.find_const(s)
        if f is not None:
            return self.eval_const(f)
        # unit-like enum variant or fn item
        parts = strip_generics(s).split("::")
        if len(parts) >= 2 and parts[-2] in self.p.enums and parts[-1] in self.p.enums[parts[-2]]:
            return self.mk_enum(parts[-2], parts[-1], [])
        if re.match(r"^[\w<{&\[(]", s):
            return FnItem(s, env)
        raise Unsupported("const " + s)

    def find_const(self, s):
        f = self.p.funcs.get(s)
        if f is not None and f.kind == "const":
            return f
        m = re.search(r"::promoted\[(\d+)\]$", s)
        if m:
            base = strip_generics(s[:m.start()])
            key = ("prom", s)
            if key in self.const_cache:
                return self.const_cache[key]
            res = self.p.funcs.get(base + "::promoted[%s]" % m.group(1)) or self.p.funcs.get(s)
            tail = "promoted[%s] in " % m.group(1)
            for name, g in (() if res else self.p.funcs.items()):
                if g.kind == "const" and name.startswith(tail):
                    nm = name[len(tail):]
                    if nm == s[:m.start()] or strip_generics(nm) == base:
                        res = g
                        break
            if res is None:
                h = self.p.by_call.get(base)
                if h is not None:
                    res = self.p.funcs.get(h.name + "::promoted[%s]" % m.group(1))
            self.const_cache[key] = res
            return res
        st = strip_generics(s)
        g = self.p.by_call.get(st)
        if g is not None and g.kind == "const":
            return g
        return None

    def eval_const(self, f):
        k = ("cv", f.name)
        if k not in self.const_cache:
            save = (self.pos, self.decisions, self.steps)
            self.const_cache[k] = self.run(f, [], {})
            self.steps = save[2]
        return self.clone(self.const_cache[k])

    def clone(self, v):
        if isinstance(v, Agg):
            if not v.f:
                return v
            return Agg(v.ty, v.var, [self.clone(x) for x in v.f])
        if isinstance(v, Arr):
            return Arr([self.clone(x) for x in v.f])
        if isinstance(v, Clos):
            return Clos(v.name, [self.clone(x) for x in v.f], v.env)
        return v

    def mk_enum(self, en, variant, fields):
        if en == "Ordering":
            return ordv(variant)
        return Agg(en, self.p.enums[en].index(variant), fields)

    def operand(self, fr, o):
        k = o[0]
        if k == "copy":
            return self.clone(self.read(fr, o[1]))
        if k == "move":
            return self.read(fr, o[1])
        if k == "const":
            return self.const(o[1], fr.env)
        if k == "fnitem":
            return FnItem(o[1], fr.env)
        raise Unsupported(str(o))

    def loc(self, fr, place):
        """-> (container, key) or ('slice', Slice)"""
        local, proj = place
        c, k = fr.l, local
        for pr in proj:
            op = pr[0]
            if op == "deref":
                v = k if c == "slice" else c[k]
                if isinstance(v, Ref):
                    c, k = v.c, v.k
                elif isinstance(v, Slice):
                    c, k = "slice", v
                elif isinstance(v, BoxV):
                    c, k = v.f, 0
                elif hasattr(v, "deref_loc"):
                    c, k = v.deref_loc(self)
                else:
                    raise Unsupported("deref of %r in %s" % (type(v).__name__, fr.f.name))
            elif op == "field":
                v = c[k] if c != "slice" else k
                i = pr[1]
                if isinstance(v, (Agg, Clos)):
                    if i >= len(v.f) and isinstance(v, Clos):
                        raise Unsupported("captures of closure %s are not known" % v.name)
                    c, k = v.f, i
                elif isinstance(v, BoxV):
                    c, k = [v], 0
                elif v is UNINIT:
                    # partial init of an aggregate
                    nv = Agg("?", None, [UNINIT] * (i + 1))
                    c[k] = nv
                    c, k = nv.f, i
                elif hasattr(v, "field_loc"):
                    c, k = v.field_loc(self, i)
                else:
                    raise Unsupported("field %d of %r in %s" % (i, v, fr.f.name))
            elif op == "downcast":
                pass
            elif op == "index" or op == "cindex":
                if op == "index":
                    idx = fr.l[pr[1]]
                else:
                    idx = pr[1]
                if c == "slice":
                    sl = k
                    if op == "cindex" and pr[2]:
                        idx = self.isub(sl.n, idx)
                    c, k = sl.c, self.iadd(sl.start, idx)
                else:
                    v = c[k]
                    if isinstance(v, (Arr, VecV)):
                        if op == "cindex" and pr[2]:
                            idx = len(v.f) - idx
                        c, k = v.f, idx
                    elif hasattr(v, "index_loc"):
                        c, k = v.index_loc(self, idx)
                    else:
                        raise Unsupported("index of %r" % (v,))
                if isinstance(c, list):
                    if isinstance(k, int):
                        if k >= len(c) or k < 0:
                            raise PathPanic("index %r out of bounds %d" % (k, len(c)))
                    else:
                        k = self.concretize(k, len(c))
            elif op == "subslice":
                if c == "slice":
                    sl = k
                else:
                    v = c[k]
                    sl = Slice(v.f, 0, len(v.f))
                a, b, fe = pr[1], pr[2], pr[3]
                n = self.isub(sl.n, a + b) if fe else b - a
                c, k = "slice", Slice(sl.c, self.iadd(sl.start, a), n, sl.owner)
            else:
                raise Unsupported(op)
        return c, k

    def concretize(self, k, n):
        """symbolic index into a concrete list: case split"""
        for i in range(n):
            if i == n - 1 or self.compare("Eq", k, i):
                return i
        raise PathPanic("empty")

    def read(self, fr, place):
        c, k = self.loc(fr, place)
        if c == "slice":
            return k
        v = c[k]
        if v is UNINIT:
            raise Unsupported("uninitialised %r in %s" % (place, fr.f.name))
        return v

    def write(self, fr, place, v):
        c, k = self.loc(fr, place)
        if c == "slice":
            raise Unsupported("write whole slice")
        c[k] = v

    # integer helpers
    def iadd(self, a, b):
        if isinstance(a, N) or isinstance(b, N):
            return self.ibin("Add", a, b)
        return a + b

    def isub(self, a, b):
        if isinstance(a, N) or isinstance(b, N):
            return self.ibin("Sub", a, b)
        return a - b

    def lin(self, n):
        """linear form of an int node: ({id: (node, coeff)}, const)"""
        if not isinstance(n, N):
            return {}, int(n)
        if n.op == "ilin":
            return {a.id: (a, c) for a, c in zip(n.args[1::2], n.args[2::2])}, n.args[0]
        return {n.id: (n, 1)}, 0

    def mklin(self, d, c):
        items = sorted((k, v) for k, v in ((k, v) for k, v in d.items() if v[1] != 0))
        if not items:
            return c
        if c == 0 and len(items) == 1 and items[0][1][1] == 1:
            return items[0][1][0]
        args = [c]
        for _, (n, k) in items:
            args += [n, k]
        return self.g.mk("ilin", *args)

    def ibin(self, op, a, b):
        g = self.g
        if op in ("Add", "Sub"):
            da, ca = self.lin(a)
            db, cb = self.lin(b)
            s = 1 if op == "Add" else -1
            d = dict(da)
            for k, (n, c) in db.items():
                o = d.get(k, (n, 0))[1]
                d[k] = (n, o + s * c)
            return self.mklin(d, ca + s * cb)
        if op == "Mul":
            if isinstance(a, N) and isinstance(b, N):
                x, y = sorted((a, b), key=lambda z: z.id)
                return g.mk("imul", x, y)
            if not isinstance(b, N):
                a, b = b, a
            d, c = self.lin(b)
            return self.mklin({k: (n, cc * a) for k, (n, cc) in d.items()}, c * a)
        if op in ("Shl",) and isinstance(b, int):
            return self.ibin("Mul", a, 1 << b)
        if op == "BitXor":
            if isinstance(a, int) and not isinstance(b, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return a
                if isinstance(a, N) and a.op == "ixor" and isinstance(a.args[1], int):
                    c = a.args[1] ^ b
                    return a.args[0] if c == 0 else g.mk("ixor", a.args[0], c)
                return g.mk("ixor", a, b)
            x, y = sorted((a, b), key=lambda z: z.id)
            return g.mk("ixor", x, y)
        if op in ("BitAnd", "BitOr"):
            if isinstance(a, int):
                a, b = b, a
            nm = "iand" if op == "BitAnd" else "ior"
            if isinstance(b, int):
                if b == 0:
                    return 0 if nm == "iand" else a
                return g.mk(nm, a, b)
            x, y = sorted((a, b), key=lambda z: z.id)
            return g.mk(nm, x, y)
        nm = {"Div": "idiv", "Rem": "irem", "Shr": "ishr", "Shl": "ishl"}.get(op)
        if nm:
            return g.mk(nm, a, b)
        raise Unsupported("int op " + op)

    def is_float(self, v):
        return isinstance(v, float) or (isinstance(v, N) and not v.op.startswith("i"))

    def binop(self, op, a, b):
        if op.endswith("WithOverflow"):
            return tup(self.binop(op[:-12], a, b), False)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in REL:
            if isinstance(a, (Cond, BoolExpr)) or isinstance(b, (Cond, BoolExpr)):
                if isinstance(a, bool) or isinstance(b, bool):
                    if isinstance(a, bool):
                        a, b = b, a
                    pos = (op == "Eq") == b
                    return a if pos else self.bnot(a)
                e = BoolExpr("xor", a, b)
                return e if op == "Ne" else BoolExpr("not", e)
            if isinstance(a, N) or isinstance(b, N):
                if isinstance(a, N) and a is b:
                    return op in ("Eq", "Le", "Ge")
                return Cond(op, a, b)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return self.compare(op, a, b)
            if isinstance(a, Agg) and isinstance(b, Agg):
                return self.compare(op, a.var, b.var)
            if isinstance(a, Ref) and isinstance(b, Ref):
                same = a.c is b.c and a.k == b.k
                return same if op == "Eq" else not same
            raise Unsupported("compare %r %r" % (a, b))
        if isinstance(a, (Cond, BoolExpr)) or isinstance(b, (Cond, BoolExpr)):
            if op == "BitAnd":
                if isinstance(a, bool):
                    return b if a else False
                if isinstance(b, bool):
                    return a if b else False
                return BoolExpr("and", a, b)
            if op == "BitOr":
                if isinstance(a, bool):
                    return True if a else b
                if isinstance(b, bool):
                    return True if b else a
                return BoolExpr("or", a, b)
            if op == "BitXor":
                if isinstance(a, bool):
                    return self.bnot(b) if a else b
                if isinstance(b, bool):
                    return self.bnot(a) if b else a
                return BoolExpr("xor", a, b)
            # bool used as an integer (e.g. `as usize` arithmetic): decide it
            if isinstance(a, (Cond, BoolExpr)):
                a = self.truth(a)
            if isinstance(b, (Cond, BoolExpr)):
                b = self.truth(b)
            return self.binop(op, int(a), int(b))
        if self.is_float(a) or self.is_float(b):
            g = self.g
            if op == "Add":
                return g.add(a, b)
            if op == "Sub":
                return g.sub(a, b)
            if op == "Mul":
                return g.mul(a, b)
            if op == "Div":
                return g.div(a, b)
            raise Unsupported("float op " + op)
        if isinstance(a, N) or isinstance(b, N):
            return self.ibin(op, a, b)
        if isinstance(a, bool) and isinstance(b, bool):
            if op == "BitAnd":
                return a and b
            if op == "BitOr":
                return a or b
            if op == "BitXor":
                return a != b
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mul":
                return a * b
            if op == "Div":
                if b == 0:
                    raise PathPanic("div by zero")
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            if op == "Rem":
                if b == 0:
                    raise PathPanic("rem by zero")
                r = abs(a) % abs(b)
                return r if a >= 0 else -r
            if op == "BitXor":
                return a ^ b
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "Shl":
                return a << b
            if op == "Shr":
                return a >> b
        raise Unsupported("binop %s %r %r" % (op, a, b))

    def bnot(self, a):
        if isinstance(a, bool):
            return not a
        if isinstance(a, Cond) and a.op in REL:
            return Cond({"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}[a.op], a.a, a.b)
        if isinstance(a, BoolExpr) and a.op == "not":
            return a.a
        return BoolExpr("not", a)

    def rvalue(self, fr, rv, dest=None):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])
        if k == "ref":
            c, kk = self.loc(fr, rv[1])
            if c == "slice":
                return kk
            # &*vec-like coercions give plain refs
            return Ref(c, kk)
        if k == "bin":
            a, b = self.operand(fr, rv[2]), self.operand(fr, rv[3])
            v = self.binop(rv[1], a, b)
            if isinstance(v, int) and not isinstance(v, bool) and dest is not None and (v < 0 or v > 0xFFFFFFFF):
                v = self.wrap(v, fr.f.locals.get(dest) if not isinstance(dest, str) else dest)
            return v
        if k == "un":
            a = self.operand(fr, rv[2])
            if rv[1] == "Neg":
                if self.is_float(a):
                    return self.g.neg(a)
                if isinstance(a, N):
                    return self.ibin("Sub", 0, a)
                return -a
            if rv[1] == "Not":
                if isinstance(a, (bool, Cond, BoolExpr)):
                    return self.bnot(a)
                if isinstance(a, int):
                    t = fr.f.locals.get(dest, "usize")
                    return (~a) & ((1 << MASKS.get(t, 64)) - 1) if t in MASKS else ~a
                return self.g.mk("inot", a)
            if rv[1] == "PtrMetadata":
                if isinstance(a, Slice):
                    return a.n
                if isinstance(a, Ref):
                    v = a.get()
                    return len(v.f)
        if k == "len":
            c, kk = self.loc(fr, rv[1])
            if c == "slice":
                return kk.n
            v = c[kk]
            return len(v.f)
        if k == "discr":
            v = self.read(fr, rv[1])
            if isinstance(v, Agg):
                if v.var is None:
                    raise Unsupported("discriminant of struct %r" % v.ty)
                if v.ty == "Ordering":
                    return v.var & 0xFF if v.var < 0 else v.var
                return v.var
            if hasattr(v, "discr"):
                return v.discr(self)
            raise Unsupported("discriminant of %r" % (v,))
        if k == "cast":
            v = self.operand(fr, rv[1])
            return self.cast(v, self.subst(rv[2], fr.env), rv[3])
        if k == "tuple":
            return Agg("()", None, [self.operand(fr, o) for o in rv[1]])
        if k == "array":
            return Arr([self.operand(fr, o) for o in rv[1]])
        if k == "repeat":
            v = self.operand(fr, rv[1])
            n = self.const(self.subst(rv[2], fr.env), fr.env) if not rv[2].isdigit() else int(rv[2])
            return Arr([self.clone(v) for _ in range(n)])
        if k == "closure":
            return Clos(rv[1], [self.operand(fr, o) for o in rv[2]], fr.env)
        if k == "adt":
            fields = [self.operand(fr, o) for o in rv[2]]
            parts = strip_generics(rv[1]).split("::")
            if len(parts) >= 2 and parts[-2] in self.p.enums and parts[-1] in self.p.enums[parts[-2]]:
                return self.mk_enum(parts[-2], parts[-1], fields)
            return Agg(parts[-1], None, fields)
        if k == "box":
            return BoxV(UNINIT)
        if k == "const_int":
            return rv[1]
        if k == "unit":
            return UNIT
        raise Unsupported("rvalue %r" % (rv,))

    def wrap(self, v, t):
        if t in MASKS:
            return v & ((1 << MASKS[t]) - 1)
        return v

    def cast(self, v, ty, kind):
        if kind.startswith("IntToFloat"):
            if isinstance(v, (int, bool)):
                return float(v)
            return self.g.mk("i2f", v) if False else self.g.mk("fromint", v)
        if kind.startswith("FloatToInt"):
            if isinstance(v, float):
                return int(v)
            return self.g.mk("itrunc", v)
        if kind.startswith("IntToInt"):
            if isinstance(v, (Cond, BoolExpr)):
                v = self.truth(v)
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int):
                if ty in MASKS:
                    return v & ((1 << MASKS[ty]) - 1)
                if ty in ("i32", "i64", "isize", "i8"):
                    bits = {"i32": 32, "i64": 64, "isize": 64, "i8": 8}[ty]
                    v &= (1 << bits) - 1
                    return v - (1 << bits) if v >> (bits - 1) else v
                return v
            if isinstance(v, Agg):
                return v.var
            return v
        if kind.startswith("PointerCoercion(Unsize"):
            if isinstance(v, Ref):
                t = v.get()
                if isinstance(t, Arr):
                    return Slice(t.f, 0, len(t.f), t)
                return v
            return v
        return v

    # ------------------------------------------------------------------
    # calls
    class Frame:
        __slots__ = ("f", "l", "env")

    def zst(self, f):
        z = self.zsts.get(id(f))
        if z is None:
            z = self.zsts[id(f)] = [i for i, t in f.locals.items() if t.startswith("{closure@") and t in self.p.closures]
        return z

    def run(self, f, args, env):
        f.parse()
        self.depth += 1
        if self.depth > 400:
            raise Unsupported("recursion too deep in " + f.name)
        self.called.add(f.name)
        fr = Interp.Frame()
        fr.f, fr.env = f, env
        n = self.nloc.get(id(f))
        if n is None:
            n = self.nloc[id(f)] = max(list(f.locals) + [f.nargs, 0]) + 1
        fr.l = [UNINIT] * n
        # a closure without captures is never assigned
        for i in self.zst(f):
            fr.l[i] = Clos(f.locals[i], [], env)
        for i, a in enumerate(args):
            fr.l[i + 1] = a
        bb, i = 0, 0
        blocks = f.blocks
        visits = {}
        hook = self.loops.get(f.name)
        try:
            while True:
                blk = blocks[bb]
                nxt = None
                for i in range(len(blk)):
                    e = blk[i]
                    if e[1] is None:
                        f.stmt(bb, i)
                    st = e[1][0]
                    if st is None:
                        continue
                    self.steps += 1
                    k = st[0]
                    if k == "assign":
                        dst = st[1]
                        rv = st[2]
                        if dst[1]:
                            last = dst[1][-1]
                            dt = last[2] if last[0] == "field" else "usize" if False else None
                            v = self.rvalue(fr, rv, dt)
                            self.write(fr, dst, v)
                        else:
                            fr.l[dst[0]] = self.rvalue(fr, rv, dst[0])
                    elif k == "call":
                        v = self.call(fr, st[2], [self.operand(fr, o) for o in st[3]], st)
                        if st[4] is None:
                            raise PathPanic("diverging call %s" % (st[2],))
                        if st[1][1]:
                            self.write(fr, st[1], v)
                        else:
                            fr.l[st[1][0]] = v
                        nxt = st[4]
                    elif k == "goto":
                        nxt = st[1]
                    elif k == "switch":
                        nxt = self.switch(fr, st)
                    elif k == "return":
                        v = fr.l[0]
                        return UNIT if v is UNINIT else v
                    elif k == "assert":
                        c = self.operand(fr, st[1])
                        if isinstance(c, (bool, int)):
                            ok = bool(c) != st[2]
                            if not ok:
                                raise PathPanic("assert in %s: %s" % (f.name, st[4]))
                        nxt = st[3]
                    elif k == "drop":
                        nxt = st[2]
                    elif k == "setdiscr":
                        v = self.read(fr, st[1])
                        v.var = st[2]
                    elif k == "unreachable":
                        raise PathPanic("unreachable")
                    elif k == "resume":
                        raise PathPanic("unwind")
                    else:
                        raise Unsupported(k)
                if nxt is None:
                    raise PathPanic("no successor in %s bb%d" % (f.name, bb))
                if self.steps > self.MAX_STEPS:
                    raise Unsupported("step limit in " + f.name)
                bb = nxt
        except Unsupported as e:
            if not hasattr(e, "at"):
                b = blocks.get(bb) or []
                e.at = "%s (%s:%s) `%s`" % (f.name, f.file, b[i][2] if i < len(b) else "?", b[i][0][:200] if i < len(b) else "?")
                e.args = (str(e) + " at " + e.at,)
            raise
        finally:
            self.depth -= 1

    def switch(self, fr, st):
        v = self.operand(fr, st[1])
        targets, other = st[2], st[3]
        if isinstance(v, (Cond, BoolExpr)):
            v = self.truth(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for k, bb in targets:
                if k == v:
                    return bb
            if v < 0:
                for bits in (8, 16, 32, 64):
                    for k, bb in targets:
                        if k == v & ((1 << bits) - 1):
                            return bb
            return other
        if isinstance(v, N):
            for k, bb in targets:
                if self.compare("Eq", v, k):
                    return bb
            return other
        if isinstance(v, Agg) and v.ty == "char":
            v = v.var
        raise Unsupported("switch on %r in %s" % (v, fr.f.name))

    def call_value(self, fv, args):
        """call a callable runtime value with positional args"""
        while isinstance(fv, Ref):
            fv = fv.get()
        if isinstance(fv, Clos):
            f = self.p.closures.get(fv.name)
            if f is None:
                raise Unsupported("closure " + fv.name)
            selfarg = f.argtypes[0] if f.argtypes else ""
            if selfarg.startswith("&"):
                cell = [fv]
                return self.run(f, [Ref(cell, 0)] + list(args), fv.env)
            return self.run(f, [fv] + list(args), fv.env)
        if isinstance(fv, FnItem) and fv.path.startswith("{closure@"):
            return self.call_value(Clos(fv.path, [], fv.env), args)
        if isinstance(fv, FnItem):
            return self.call_path(fv.path, list(args), fv.env, None)
        if callable(fv):
            return fv(*args)
        raise Unsupported("call of %r" % (fv,))

    def call(self, fr, fn, args, st):
        if isinstance(fn, tuple):
            return self.call_value(self.operand(fr, fn), args)
        return self.call_path(fn, args, fr.env, fr, st)

    def call_path(self, fn, args, env, fr, st=None):
        p = self.p
        if fn.startswith("<"):
            # qualified
            r = self.parsed.get(fn)
            if r is None:
                d = 0
                for j, c in enumerate(fn):
                    if c == "<":
                        d += 1
                    elif c == ">" and fn[j - 1] not in "-=":
                        d -= 1
                        if d == 0:
                            break
                inner, rest = fn[1:j], fn[j + 3:]
                parts = self.split_as(inner)
                r = self.parsed[fn] = parts, rest, re.match(r"\w+", rest).group(0)
            parts, rest, meth = r
            if len(parts) == 2:
                return self.trait_call(parts[0], parts[1], meth, rest, args, env, fr, st)
            return self.method_call(parts[0], meth, rest, args, env, fr, st)
        path = strip_generics(fn)
        s = self.summaries.get(path)
        if s is not None:
            return s(self, args, {"fn": fn, "env": env, "st": st, "fr": fr})
        f = p.by_call.get(path)
        if f is not None:
            return self.run(f, args, self.bind(f, fn, env))
        # inherent method on a local type: ...::Type::method
        segs = path.split("::")
        if len(segs) >= 2:
            s = self.summaries.get(segs[-2] + "::" + segs[-1])
            if s is not None:
                return s(self, args, {"fn": fn, "env": env, "st": st, "fr": fr})
            lst = p.inherent.get((segs[-2], segs[-1]))
            if lst and segs[0] not in ("std", "core", "alloc", "hashbrown"):
                f = self.pick(lst, args)
                return self.run(f, args, self.bind(f, fn, env))
            # trait default method called by path, or unresolved trait fn
        # closures / nested fns printed with impl path
        f = p.funcs.get(fn)
        if f is not None:
            return self.run(f, args, self.bind(f, fn, env))
        h = self.paths.get(fn)
        if h is None:
            h = self.paths[fn] = self.bm.lookup_path(fn, path)
        if h is not None:
            return h(self, args, {"fn": fn, "env": env, "st": st, "fr": fr})
        if re.match(r"(core|std)::(panicking|rt)::", fn) or path.endswith(("::unwrap_failed", "::expect_failed")) or "panic" in path.split("::")[-1]:
            raise PathPanic("explicit panic")
        raise Unsupported("call " + fn)

    @staticmethod
    @functools.lru_cache(100000)
    def split_as(inner):
        d = 0
        for i, c in enumerate(inner):
            if c in "<([{":
                d += 1
            elif c in ")]}" or (c == ">" and inner[i - 1] not in "-="):
                d -= 1
            elif d == 0 and inner.startswith(" as ", i):
                return [inner[:i], inner[i + 4:]]
        return [inner]

    def bind(self, f, fn, env):
        """generic environment of the callee from the turbofish of the path"""
        names = self.fn_generics(f)
        if not names:
            return {}
        try:
            key = (id(f), fn, tuple(env.items()))
            r = self.binds.get(key)
        except TypeError:
            return self.bind_(names, fn, env)
        if r is None:
            r = self.binds[key] = self.bind_(names, fn, env)
        return dict(r)

    def bind_(self, names, fn, env):
        m = fn.rstrip()
        if not m.endswith(">"):
            return {}
        d = 0
        for j in range(len(m) - 1, -1, -1):
            if m[j] == ">" and m[j - 1] not in "-=":
                d += 1
            elif m[j] == "<":
                d -= 1
                if d == 0:
                    break
        args = split_top(m[j + 1:-1])
        args = [a for a in args if not a.startswith("'")]
        out = {}
        for n, a in zip(names, args):
            a = self.subst(a, env)
            if a != n:
                out[n] = a
        return out

    def pick(self, lst, args):
        if len(lst) == 1:
            return lst[0]
        for f in lst:
            ok = len(f.argtypes) == len(args)
            for t, a in zip(f.argtypes, args):
                isref = isinstance(a, (Ref, Slice))
                if t.startswith("&") != isref:
                    ok = False
            if ok:
                return f
        return lst[0]

    def strip(self, v):
        while isinstance(v, Ref):
            v = v.get()
        return v

    @staticmethod
    def one_ref(a):
        while isinstance(a, Ref):
            b = a.get()
            if not isinstance(b, Ref):
                break
            a = b
        return a

    def tkey(self, v):
        v = self.strip(v)
        if isinstance(v, Agg):
            return v.ty
        if isinstance(v, float):
            return "f64"
        if isinstance(v, N):
            return "usize" if v.op.startswith("i") else "f64"
        if isinstance(v, (bool, Cond, BoolExpr)):
            return "bool"
        if isinstance(v, int):
            return "usize"
        if isinstance(v, VecV):
            return "Vec"
        if isinstance(v, Clos):
            return v.name
        return getattr(v, "ty", type(v).__name__)

    def trait_call(self, self_ty, trait, meth, rest, args, env, fr, st):
        p = self.p
        tr = strip_generics(trait).split("::")[-1]
        info = {"fn": None, "trait": trait, "self_ty": self.subst(self_ty, env), "env": env, "st": st, "fr": fr, "meth": meth, "rest": rest}
        tkeys = []
        if args:
            tkeys.append(self.tkey(args[0]))
        sk = type_key(self.subst(self_ty, env))
        if sk not in tkeys:
            tkeys.append(sk)
        for tk in tkeys:
            s = self.summaries.get((tk, tr, meth)) or self.summaries.get((tk, meth))
            if s is not None:
                return s(self, args, info)
        s = self.summaries.get((tr, meth))
        if s is not None:
            return s(self, args, info)
        for tk in tkeys:
            lst = p.trait_impls.get((tk, tr, meth))
            if lst and tr in ("Index", "IndexMut") and tk.startswith(("Vec", "[")) and self.pick_by_type(lst, args, trait, env) is None:
                continue
            if lst:
                if tr in ("PartialEq", "PartialOrd", "Ord", "Hash"):    # reached through the blanket impls for references
                    args = [self.one_ref(a) for a in args]
                f = self.pick(lst, args)
                if len(lst) > 1 and tr in ("Index", "IndexMut", "From", "PartialEq"):
                    f = self.pick_by_type(lst, args, trait, env) or f
                return self.run(f, args, self.bind(f, rest, env))
        if tr in ("Index", "IndexMut") and isinstance(args[1], Agg) and not args[1].ty.startswith("Range"):
            st_ = self.subst(self_ty, env)
            want = "[T]" if st_.lstrip("&").startswith("[") else "Vec<'b>" if "collections" in st_ else "Vec<T>"
            for tk in (want, "Vec<T>", "[T]"):
                f = self.pick_by_type(p.trait_impls.get((tk, tr, meth)) or [], args, trait, env)
                if f is not None:
                    return self.run(f, args, {})
        h = None
        for tk in tkeys:
            h = h or self.bm.lookup_trait("%s:%s" % (tk, tr), meth)
        h = h or self.bm.lookup_trait(tr, meth)
        if h is not None:
            r = h(self, args, info)
            if r is not NotImplemented:
                return r
        # default method of a local trait
        path = strip_generics(trait) + "::" + meth
        f = p.by_call.get(path)
        if f is not None:
            return self.run(f, args, self.bind(f, rest, env))
        if tr == "Into" and meth == "into":
            tgt = type_key(self.subst(trait[trait.index("<") + 1:trait.rindex(">")], env))
            lst = p.trait_impls.get((tgt, "From", "from"))
            s = self.summaries.get((tgt, "From", "from"))
            if s is not None:
                return s(self, args, info)
            if lst:
                f = self.pick_by_type(lst, args, trait, env) or self.pick(lst, args)
                return self.run(f, args, {})
            h = self.bm.lookup_trait("From", "from")
            return h(self, args, dict(info, target=tgt))
        # local inherent/trait method on an unexpected receiver
        raise Unsupported("trait call <%s as %s>::%s on %s" % (self_ty, trait, meth, tkeys))

    def pick_by_type(self, lst, args, trait, env):
        if len(args) > 1:
            k = self.tkey(args[1])
            for f in lst:
                if len(f.argtypes) > 1 and type_key(f.argtypes[1]).lstrip("&") == k:
                    return f
        elif args:
            k = self.tkey(args[0])
            for f in lst:
                if f.argtypes and type_key(f.argtypes[0]) == k:
                    return f
        return None

    def method_call(self, self_ty, meth, rest, args, env, fr, st):
        tk = self.tkey(args[0]) if args else type_key(self.subst(self_ty, env))
        lst = self.p.inherent.get((tk, meth))
        if lst:
            f = self.pick(lst, args)
            return self.run(f, args, self.bind(f, rest, env))
        h = self.bm.lookup_path(self_ty + "::" + rest, self_ty + "::" + meth)
        if h:
            return h(self, args, {"fn": self_ty + "::" + meth, "env": env, "st": st, "fr": fr})
        raise Unsupported("method <%s>::%s" % (self_ty, meth))

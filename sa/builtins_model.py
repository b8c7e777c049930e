"""Models of the standard-library surface the analysed code uses.

Only the effect on abstract values is modelled; every operation not listed here
makes the analysis fail closed (Unsupported)."""
import math
import re
import mir
from mir import strip_generics, type_key
from vg import N
import interp as _I


def A():
    return _I


class It:
    """abstract iterator over a sequence of abstract values"""
    ty = "Iter"

    def __init__(self, nxt, nxt_back=None, remaining=None):
        self._n, self._b, self.peeked = nxt, nxt_back, None
        self.remaining = remaining

    def next(self):
        if self.peeked is not None:
            v, self.peeked = self.peeked[0], None
            return v
        return self._n()


STOP = object()


def list_iter(items):
    st = [0, len(items)]

    def nx():
        if st[0] >= st[1]:
            return STOP
        st[0] += 1
        return items[st[0] - 1]

    def bk():
        if st[0] >= st[1]:
            return STOP
        st[1] -= 1
        return items[st[1]]
    return It(nx, bk, lambda: st[1] - st[0])


def strip(v):
    while isinstance(v, _I.Ref):
        v = v.get()
    return v


def as_slice(I, v):
    """view v (ref to Vec/array, slice) as a Slice"""
    v = strip(v)
    if isinstance(v, _I.Slice):
        return v
    if isinstance(v, (_I.VecV, _I.Arr)):
        return _I.Slice(v.f, 0, len(v.f), v)
    if isinstance(v, _I.BoxV):
        return as_slice(I, v.f[0])
    if isinstance(v, _I.Agg) and v.ty == "Simd":
        return _I.Slice(v.f, 0, len(v.f), v)
    if isinstance(v, _I.Clos):
        raise _I.Unsupported("slice of closure")
    if hasattr(v, "as_slice"):
        return v.as_slice(I)
    raise _I.Unsupported("as_slice %r" % (v,))


def slice_refs(I, s):
    if not isinstance(s.n, int) or not isinstance(s.start, int):
        raise _I.Unsupported("iteration over a sequence of unknown length")
    return [_I.Ref(s.c, s.start + i) for i in range(s.n)]


def slice_vals(I, s):
    return [r.get() for r in slice_refs(I, s)]


def to_iter(I, v):
    if isinstance(v, It):
        return v
    if isinstance(v, _I.Agg) and v.ty == "Range":
        return v
    if isinstance(v, _I.Agg) and v.ty == "RangeInclusive":
        return v
    if isinstance(v, _I.Arr):
        return list_iter(list(v.f))
    if isinstance(v, _I.VecV):
        return list_iter(list(v.f))
    if isinstance(v, _I.Slice):
        return list_iter(slice_refs(I, v))
    if isinstance(v, _I.Agg) and v.ty == "Option":
        return list_iter(list(v.f) if v.var == 1 else [])
    if isinstance(v, _I.Ref):
        t = v.get()
        if isinstance(t, It) or (isinstance(t, _I.Agg) and t.ty in ("Range", "RangeInclusive")):
            return t
        return to_iter_ref(I, v)
    if hasattr(v, "to_iter"):
        return v.to_iter(I)
    if isinstance(v, _I.Agg):
        # iterator defined in the analysed crate
        return It(lambda: opt(I.trait_call(v.ty, "std::iter::Iterator", "next", "next", [_I.Ref([v], 0)], {}, None, None)))
    raise _I.Unsupported("into_iter of %r" % (v,))


def opt(o):
    return o.f[0] if o.var == 1 else STOP


def to_iter_ref(I, v):
    t = strip(v)
    if isinstance(t, (_I.VecV, _I.Arr, _I.Slice)):
        return list_iter(slice_refs(I, as_slice(I, t)))
    if hasattr(t, "to_iter_ref"):
        return t.to_iter_ref(I)
    if isinstance(t, _I.Agg) and t.ty == "Option":
        return list_iter([_I.Ref(t.f, 0)] if t.var == 1 else [])
    return to_iter(I, t)


def nxt(I, it):
    it = strip(it)
    if isinstance(it, It):
        return it.next()
    if isinstance(it, _I.Agg) and it.ty == "Range":
        a, b = it.f
        if I.compare("Lt", a, b):
            it.f[0] = I.iadd(a, 1)
            return a
        return STOP
    if isinstance(it, _I.Agg) and it.ty == "RangeInclusive":
        a, b, done = it.f
        if done:
            return STOP
        if I.compare("Lt", a, b):
            it.f[0] = I.iadd(a, 1)
            return a
        it.f[2] = True
        return a if I.compare("Eq", a, b) else STOP
    return opt(I.trait_call(I.tkey(it), "std::iter::Iterator", "next", "next", [_I.Ref([it], 0)], {}, None, None))


def nxt_back(I, it):
    it = strip(it)
    if isinstance(it, It):
        if it._b is None:
            raise _I.Unsupported("next_back")
        return it._b()
    if isinstance(it, _I.Agg) and it.ty == "Range":
        a, b = it.f
        if I.compare("Lt", a, b):
            it.f[1] = I.isub(b, 1)
            return it.f[1]
        return STOP
    if isinstance(it, _I.Agg) and it.ty == "RangeInclusive":
        vals = drain(I, it)
        raise _I.Unsupported("rev inclusive")
    raise _I.Unsupported("next_back of %r" % (it,))


def drain(I, it, cap=100000):
    it = to_iter(I, it)
    out = []
    while True:
        v = nxt(I, it)
        if v is STOP:
            return out
        out.append(v)
        if len(out) > cap:
            raise _I.Unsupported("iterator too long")


def mk_opt(v):
    return _I.none() if v is STOP else _I.some(v)


# ---------------------------------------------------------------- traits
TR = {}
PA = {}


def tr(*names):
    def d(f):
        for n in names:
            t, m = n.split("::")
            TR[(t, m)] = f
        return f
    return d


def pa(*names):
    def d(f):
        for n in names:
            PA[n] = f
        return f
    return d


@tr("IntoIterator::into_iter")
def _(I, a, info):
    v = a[0]
    if isinstance(v, _I.Ref) and not isinstance(v.get(), It):
        t = v.get()
        if isinstance(t, _I.Agg) and t.ty in ("Range", "RangeInclusive"):
            return v
        return to_iter_ref(I, v)
    if isinstance(v, _I.Agg) and v.ty not in ("Range", "RangeInclusive", "Option"):
        return v
    return to_iter(I, v)


@tr("Iterator::next")
def _(I, a, info):
    return mk_opt(nxt(I, a[0]))


@tr("DoubleEndedIterator::next_back")
def _(I, a, info):
    return mk_opt(nxt_back(I, a[0]))


def lazy(fn, back=None):
    return It(fn, back)


@tr("Iterator::map")
def _(I, a, info):
    it, f = to_iter(I, a[0]), a[1]

    def nx():
        v = nxt(I, it)
        return STOP if v is STOP else I.call_value(f, [v])

    def bk():
        v = nxt_back(I, it)
        return STOP if v is STOP else I.call_value(f, [v])
    return It(nx, bk)


@tr("Iterator::filter")
def _(I, a, info):
    it, f = to_iter(I, a[0]), a[1]

    def nx():
        while True:
            v = nxt(I, it)
            if v is STOP:
                return STOP
            if I.truth(I.call_value(f, [_I.Ref([v], 0)])):
                return v
    return It(nx)


@tr("Iterator::filter_map")
def _(I, a, info):
    it, f = to_iter(I, a[0]), a[1]

    def nx():
        while True:
            v = nxt(I, it)
            if v is STOP:
                return STOP
            r = I.call_value(f, [v])
            if r.var == 1:
                return r.f[0]
    return It(nx)


@tr("Iterator::zip")
def _(I, a, info):
    x, y = to_iter(I, a[0]), to_iter(I, _into(I, a[1]))

    def nx():
        u = nxt(I, x)
        if u is STOP:
            return STOP
        v = nxt(I, y)
        return STOP if v is STOP else _I.tup(u, v)
    return It(nx)


def _into(I, v):
    return TR[("IntoIterator", "into_iter")](I, [v], None)


@tr("Iterator::enumerate")
def _(I, a, info):
    it = to_iter(I, a[0])
    c = [0]

    def nx():
        v = nxt(I, it)
        if v is STOP:
            return STOP
        c[0] += 1
        return _I.tup(c[0] - 1, v)
    return It(nx)


@tr("Iterator::rev")
def _(I, a, info):
    it = to_iter(I, a[0])
    return It(lambda: nxt_back(I, it), lambda: nxt(I, it))


@tr("Iterator::chain")
def _(I, a, info):
    x, y = to_iter(I, a[0]), to_iter(I, _into(I, a[1]))

    def nx():
        v = nxt(I, x)
        return nxt(I, y) if v is STOP else v
    return It(nx)


@tr("Iterator::flatten")
def _(I, a, info):
    return _flat(I, to_iter(I, a[0]), lambda v: v)


@tr("Iterator::flat_map")
def _(I, a, info):
    return _flat(I, to_iter(I, a[0]), lambda v: I.call_value(a[1], [v]))


def _flat(I, it, f):
    cur = [None]

    def nx():
        while True:
            if cur[0] is not None:
                v = nxt(I, cur[0])
                if v is not STOP:
                    return v
            v = nxt(I, it)
            if v is STOP:
                return STOP
            cur[0] = to_iter(I, _into(I, f(v)))
    return It(nx)


@tr("Iterator::skip")
def _(I, a, info):
    it, n = to_iter(I, a[0]), [a[1]]

    def nx():
        while n[0] > 0:
            n[0] -= 1
            if nxt(I, it) is STOP:
                return STOP
        return nxt(I, it)
    return It(nx)


@tr("Iterator::take")
def _(I, a, info):
    it, n = to_iter(I, a[0]), [a[1]]

    def nx():
        if n[0] <= 0:
            return STOP
        n[0] -= 1
        return nxt(I, it)
    return It(nx)


@tr("Iterator::step_by")
def _(I, a, info):
    it, n, first = to_iter(I, a[0]), a[1], [True]

    def nx():
        if first[0]:
            first[0] = False
            return nxt(I, it)
        for _ in range(n - 1):
            if nxt(I, it) is STOP:
                return STOP
        return nxt(I, it)
    return It(nx)


@tr("Iterator::copied", "Iterator::cloned")
def _(I, a, info):
    it = to_iter(I, a[0])

    def nx():
        v = nxt(I, it)
        return STOP if v is STOP else I.clone(strip(v))

    def bk():
        v = nxt_back(I, it)
        return STOP if v is STOP else I.clone(strip(v))
    return It(nx, bk)


@tr("Iterator::peekable", "Iterator::by_ref", "Iterator::fuse")
def _(I, a, info):
    return a[0] if isinstance(a[0], _I.Ref) else to_iter(I, a[0])


@tr("Iterator::for_each")
def _(I, a, info):
    it = to_iter(I, a[0])
    while True:
        v = nxt(I, it)
        if v is STOP:
            return _I.UNIT
        I.call_value(a[1], [v])


@tr("Iterator::fold")
def _(I, a, info):
    it, acc = to_iter(I, a[0]), a[1]
    while True:
        v = nxt(I, it)
        if v is STOP:
            return acc
        acc = I.call_value(a[2], [acc, v])


@tr("Iterator::reduce")
def _(I, a, info):
    it = to_iter(I, a[0])
    acc = nxt(I, it)
    if acc is STOP:
        return _I.none()
    while True:
        v = nxt(I, it)
        if v is STOP:
            return _I.some(acc)
        acc = I.call_value(a[1], [acc, v])


@tr("Iterator::sum")
def _(I, a, info):
    vals = [strip(v) for v in drain(I, a[0])]
    fl = any(I.is_float(v) for v in vals) or "f64" in (info or {}).get("rest", "")
    acc = 0.0 if fl else 0
    for v in vals:
        acc = I.binop("Add", acc, v)
    return acc


@tr("Iterator::any")
def _(I, a, info):
    it = to_iter(I, a[0])
    while True:
        v = nxt(I, it)
        if v is STOP:
            return False
        if I.truth(I.call_value(a[1], [v])):
            return True


@tr("Iterator::all")
def _(I, a, info):
    it = to_iter(I, a[0])
    while True:
        v = nxt(I, it)
        if v is STOP:
            return True
        if not I.truth(I.call_value(a[1], [v])):
            return False


@tr("Iterator::find")
def _(I, a, info):
    it = to_iter(I, a[0])
    while True:
        v = nxt(I, it)
        if v is STOP:
            return _I.none()
        if I.truth(I.call_value(a[1], [_I.Ref([v], 0)])):
            return _I.some(v)


@tr("Iterator::position")
def _(I, a, info):
    it, i = to_iter(I, a[0]), 0
    while True:
        v = nxt(I, it)
        if v is STOP:
            return _I.none()
        if I.truth(I.call_value(a[1], [v])):
            return _I.some(i)
        i += 1


@tr("Iterator::count")
def _(I, a, info):
    return len(drain(I, a[0]))


@tr("Iterator::last")
def _(I, a, info):
    v = drain(I, a[0])
    return _I.some(v[-1]) if v else _I.none()


@tr("Iterator::max_by", "Iterator::min_by")
def _(I, a, info):
    vals = drain(I, a[0])
    if not vals:
        return _I.none()
    best = vals[0]
    for v in vals[1:]:
        o = I.call_value(a[1], [_I.Ref([best], 0), _I.Ref([v], 0)])
        c = ord_val(I, o)
        if info["meth"] == "max_by":
            best = v if c <= 0 else best
        else:
            best = v if c > 0 else best
    return _I.some(best)


def ord_val(I, o):
    if isinstance(o, _I.Agg):
        if o.var == "lazy":
            a, b = o.f
            if I.compare("Lt", a, b):
                return -1
            return 0 if I.compare("Eq", a, b) else 1
        return o.var
    raise _I.Unsupported("ordering %r" % (o,))


@tr("Iterator::max", "Iterator::min")
def _(I, a, info):
    vals = drain(I, a[0])
    if not vals:
        return _I.none()
    best = vals[0]
    for v in vals[1:]:
        op = "Ge" if info["meth"] == "max" else "Lt"
        if I.compare(op, strip(v), strip(best)):
            best = v
    return _I.some(best)


@tr("Iterator::collect")
def _(I, a, info):
    vals = drain(I, a[0])
    rest = I.subst(info["rest"], info["env"])
    m = re.search(r"collect::<(.*)>$", rest)
    t = type_key(m.group(1)) if m else "Vec"
    return from_vals(I, t, vals)


def from_vals(I, t, vals):
    if t in ("Vec", "_", "Box", "SmallVec", "ArrayVec"):
        return _I.VecV(vals)
    if t == "VecDeque":
        v = _I.VecV(vals)
        v.ty = "VecDeque"
        return v
    h = getattr(I, "collect_hook", None)
    if h:
        r = h(t, vals)
        if r is not None:
            return r
    raise _I.Unsupported("collect into " + t)


@tr("FromIterator::from_iter")
def _(I, a, info):
    return from_vals(I, type_key(info["self_ty"]), drain(I, a[0]))


@tr("Extend::extend")
def _(I, a, info):
    v = strip(a[0])
    vals = drain(I, _into(I, a[1]))
    if hasattr(v, "vextend"):
        return v.vextend(I, vals)
    v.f.extend([I.clone(strip(x)) if isinstance(x, _I.Ref) and "&" in info["trait"] else x for x in vals])
    return _I.UNIT


@tr("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "Borrow::borrow", "AsMut::as_mut")
def _(I, a, info):
    r = a[0]
    t = strip(r)
    if isinstance(t, _I.VecV):
        return _I.Slice(t.f, 0, len(t.f), t)
    if isinstance(t, _I.BoxV):
        return _I.Ref(t.f, 0)
    if isinstance(t, _I.Slice):
        return t
    if hasattr(t, "deref_loc"):
        return _I.Ref(*t.deref_loc(I))
    if hasattr(t, "as_slice"):
        return t.as_slice(I)
    return r


@tr("Index::index", "IndexMut::index_mut")
def _(I, a, info):
    base, idx = strip(a[0]), a[1]
    idx = strip(idx)
    if hasattr(base, "index_ref"):
        return base.index_ref(I, idx)
    if isinstance(idx, _I.Agg):
        s = as_slice(I, base)
        return sub_slice(I, s, idx)
    s = as_slice(I, base)
    if s.owner is not None and getattr(s.owner, "kind", "conc") == "exp" and not isinstance(idx, int):
        d, c = I.lin(idx)
        if c == -1 and [(n.op, n.args[:1] == (s.c[0],), k) for n, k in d.values()] == [("ilen", True, 1)]:
            lh = getattr(I, "last_hook", None)          # the most significant component
            if lh is not None:
                return lh(I, [base], {"nohook": True}).f[0]
            return _I.Ref(s.c, s.start)
    if isinstance(idx, int) and isinstance(s.n, int):
        if idx >= s.n or idx < 0:
            raise _I.PathPanic("index %d out of range %d" % (idx, s.n))
    k = I.iadd(s.start, idx)
    if isinstance(s.c, list) and not isinstance(k, int):
        k = I.concretize(k, len(s.c))
    if s.owner is not None and getattr(s.owner, "kind", "conc") == "exp":
        raise _I.Unsupported("index into an expansion of unknown length")
    return _I.Ref(s.c, k)


def sub_slice(I, s, r):
    if r.ty == "Range":
        a, b = r.f
    elif r.ty == "RangeFrom":
        a, b = r.f[0], s.n
    elif r.ty == "RangeTo":
        a, b = 0, r.f[0]
    elif r.ty == "RangeFull":
        a, b = 0, s.n
    elif r.ty == "RangeInclusive":
        a, b = r.f[0], I.iadd(r.f[1], 1)
    elif r.ty == "RangeToInclusive":
        a, b = 0, I.iadd(r.f[0], 1)
    else:
        raise _I.Unsupported("range " + r.ty)
    if all(isinstance(x, int) for x in (a, b, s.n)) and not (0 <= a <= b <= s.n):
        raise _I.PathPanic("slice %d..%d of %d" % (a, b, s.n))
    return _I.Slice(s.c, I.iadd(s.start, a), I.isub(b, a), s.owner)


@tr("Clone::clone", "ToOwned::to_owned")
def _(I, a, info):
    return deep(I, strip(a[0]))


def deep(I, v):
    if isinstance(v, _I.Agg):
        return _I.Agg(v.ty, v.var, [deep(I, x) for x in v.f])
    if isinstance(v, _I.Arr):
        return _I.Arr([deep(I, x) for x in v.f])
    if isinstance(v, _I.VecV):
        r = _I.VecV([deep(I, x) for x in v.f], v.kind)
        r.ty = v.ty
        return r
    if isinstance(v, _I.BoxV):
        return _I.BoxV(deep(I, v.f[0]))
    if hasattr(v, "deep_clone"):
        return v.deep_clone(I)
    return v


def eq(I, x, y):
    x, y = strip(x), strip(y)
    if isinstance(x, _I.Agg) and isinstance(y, _I.Agg):
        if x.ty == "Ordering" or (not x.f and not y.f):
            return x.var == y.var
        if x.var != y.var or len(x.f) != len(y.f):
            return False
        return all_eq(I, list(zip(x.f, y.f)))
    if isinstance(x, (_I.Arr, _I.VecV, _I.Slice)) and isinstance(y, (_I.Arr, _I.VecV, _I.Slice)):
        xs, ys = slice_vals(I, as_slice(I, x)), slice_vals(I, as_slice(I, y))
        if len(xs) != len(ys):
            return False
        return all_eq(I, list(zip(xs, ys)))
    if hasattr(x, "eq_val"):
        return x.eq_val(I, y)
    return I.truth(I.binop("Eq", x, y))


def all_eq(I, prs):
    for u, v in prs:
        if not eq(I, u, v):
            return False
    return True


@tr("PartialEq::eq")
def _(I, a, info):
    x, y = strip(a[0]), strip(a[1])
    if not isinstance(x, (_I.Agg, _I.Arr, _I.VecV, _I.Slice)) and not hasattr(x, "eq_val"):
        return I.binop("Eq", x, y)
    return eq(I, x, y)


@tr("PartialEq::ne")
def _(I, a, info):
    r = TR[("PartialEq", "eq")](I, a, info)
    return I.bnot(r)


def _rel(op):
    def h(I, a, info):
        return I.binop(op, strip(a[0]), strip(a[1]))
    return h


for _m, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    TR[("PartialOrd", _m)] = _rel(_o)


@tr("PartialOrd::partial_cmp", "Ord::cmp")
def _(I, a, info):
    x, y = strip(a[0]), strip(a[1])
    o = _I.Agg("Ordering", cmp3(I, x, y), [])
    return _I.some(o) if info["meth"] == "partial_cmp" else o


def cmp3(I, x, y):
    if isinstance(x, (_I.Agg, _I.Arr)):
        for u, v in zip(x.f, y.f):
            c = cmp3(I, strip(u), strip(v))
            if c:
                return c
        return 0
    if I.compare("Lt", x, y):
        return -1
    return 0 if I.compare("Eq", x, y) else 1


def _arith(op):
    def h(I, a, info):
        x, y = strip(a[0]), strip(a[1])
        return I.binop(op, x, y)
    return h


for _t, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem"),
               ("BitXor", "bitxor"), ("BitAnd", "bitand"), ("BitOr", "bitor"), ("Shl", "shl"), ("Shr", "shr")):
    TR[(_t, _m)] = _arith(_t)

for _t, _m, _o in (("AddAssign", "add_assign", "Add"), ("SubAssign", "sub_assign", "Sub"), ("MulAssign", "mul_assign", "Mul"),
                   ("DivAssign", "div_assign", "Div"), ("BitOrAssign", "bitor_assign", "BitOr"), ("BitXorAssign", "bitxor_assign", "BitXor"), ("BitAndAssign", "bitand_assign", "BitAnd")):
    def _mk(o):
        def h(I, a, info):
            r = a[0]
            while isinstance(r.get(), _I.Ref):
                r = r.get()
            r.c[r.k] = I.binop(o, r.get(), strip(a[1]))
            return _I.UNIT
        return h
    TR[(_t, _m)] = _mk(_o)


@tr("Neg::neg")
def _(I, a, info):
    v = strip(a[0])
    if I.is_float(v):
        return I.g.neg(v)
    if isinstance(v, N):
        return I.ibin("Sub", 0, v)
    return -v


@tr("Not::not")
def _(I, a, info):
    return I.bnot(strip(a[0]))


@tr("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def _(I, a, info):
    args = a[1]
    return I.call_value(a[0], list(args.f))


@tr("Into::into", "From::from")
def _(I, a, info):
    v = a[0]
    tgt = info.get("target") or type_key(info["self_ty"])
    if info["meth"] == "into":
        tr_ = info["trait"]
        tgt = type_key(I.subst(tr_[tr_.index("<") + 1:tr_.rindex(">")], info["env"]))
        if isinstance(v, _I.Agg) and v.ty == tgt:
            return v            # the reflexive conversion
        if (tgt, "From", "from") in I.summaries:
            return I.summaries[(tgt, "From", "from")](I, a, info)
        lst = I.p.trait_impls.get((tgt, "From", "from"))
        if lst:
            f = I.pick_by_type(lst, a, info["trait"], info["env"]) or I.pick(lst, a)
            return I.run(f, a, {})
    if tgt == "Vec":
        if isinstance(v, (_I.Arr,)):
            return _I.VecV(list(v.f))
        if isinstance(v, (_I.Slice, _I.Ref)):
            return _I.VecV([deep(I, x) for x in slice_vals(I, as_slice(I, v))])
        if isinstance(v, _I.VecV):
            return v
    if tgt in ("usize", "u32", "u64", "u8", "bool") or isinstance(v, (int, float)):
        if tgt == "f64" and isinstance(v, int):
            return float(v)
        if isinstance(v, (_I.Cond, _I.BoolExpr)):
            v = I.truth(v)
        return int(v) if isinstance(v, bool) else v
    if tgt == "Option":
        return _I.some(v)
    if I.tkey(v) == tgt or not isinstance(v, (_I.Ref, _I.Slice)):
        return v
    raise _I.Unsupported("From %r -> %s" % (v, tgt))


@tr("Default::default")
def _(I, a, info):
    t = I.subst(info["self_ty"], info["env"])
    k = type_key(t)
    return default_of(I, t, k)


def default_of(I, t, k):
    if k in ("usize", "u32", "u64", "i32", "u8", "isize"):
        return 0
    if k == "f64":
        return 0.0
    if k == "bool":
        return False
    if k == "Vec" or k.startswith("Vec<"):
        return _I.VecV([])
    if t.strip().startswith("("):
        ts = [x for x in mir.split_top(t.strip()[1:-1], ",") if x.strip()]
        return _I.tup(*[default_of(I, x, type_key(x)) for x in ts]) if ts else _I.UNIT
    if k == "Option":
        return _I.none()
    m = re.fullmatch(r"\[(.*); (\d+)\]", t.strip())
    if m:
        return _I.Arr([default_of(I, m.group(1), type_key(m.group(1))) for _ in range(int(m.group(2)))])
    h = getattr(I, "default_hook", None)
    if h:
        r = h(t, k)
        if r is not None:
            return r
    raise _I.Unsupported("default of " + t)


@tr("IterableIterator::eq")
def _(I, a, info):
    raise _I.Unsupported("x")


# ---------------------------------------------------------------- paths
def f64m(name):
    def d(f):
        PA["f64::" + name] = f
        return f
    return d


@f64m("abs")
def _(I, a, info):
    return I.g.abs(a[0])


@f64m("max")
def _(I, a, info):
    return I.g.max(a[0], a[1])


@f64m("min")
def _(I, a, info):
    return I.g.min(a[0], a[1])


@f64m("mul_add")
def _(I, a, info):
    return I.g.fma(a[0], a[1], a[2])


@f64m("powi")
def _(I, a, info):
    if isinstance(a[0], float) and isinstance(a[1], int):
        return a[0] ** a[1]
    if a[0] == 2.0 and isinstance(a[0], float):
        return I.g.mk("pow2", a[1])
    return I.g.mk("powi", a[0], a[1])


@f64m("exp2")
def _(I, a, info):
    return I.g.mk("pow2", a[0]) if isinstance(a[0], N) else 2.0 ** a[0]


@f64m("is_nan")
def _(I, a, info):
    return isinstance(a[0], float) and a[0] != a[0]


@f64m("is_finite")
def _(I, a, info):
    return not isinstance(a[0], float) or a[0] - a[0] == 0


def _op1(name):
    def h(I, a, info):
        v = a[0]
        if isinstance(v, float):
            if name == "sqrt":
                return math.sqrt(v)
            if name == "round":
                return float(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1)
            if name == "next_up":
                return math.nextafter(v, math.inf)
            if name == "next_down":
                return math.nextafter(v, -math.inf)
            if name == "signum":
                return math.copysign(1.0, v)
        return I.g.mk(name, v)
    return h


for _n in ("sqrt", "round", "next_up", "next_down", "signum", "floor", "ceil", "recip"):
    PA["f64::" + _n] = _op1(_n)


@f64m("total_cmp")
def _(I, a, info):
    return _I.Agg("Ordering", cmp3(I, strip(a[0]), strip(a[1])), [])


@f64m("to_bits")
def _(I, a, info):
    import struct
    if isinstance(a[0], float):
        return struct.unpack("<Q", struct.pack("<d", a[0]))[0]
    return I.g.mk("ibits", a[0])


def sl(name):
    def d(f):
        PA["slice::" + name] = f
        return f
    return d


@sl("iter")
def _(I, a, info):
    return to_iter_ref(I, a[0])


PA["slice::iter_mut"] = PA["slice::iter"]


@sl("len")
def _(I, a, info):
    t = strip(a[0])
    if hasattr(t, "vlen"):
        return t.vlen(I)
    if isinstance(t, _I.VecV) and t.kind == "exp":
        return I.g.mk("ilen", t.f[0])
    s = as_slice(I, a[0])
    if s.owner is not None and getattr(s.owner, "kind", "conc") == "exp" and s.start == 0 and s.n == 1:
        return I.g.mk("ilen", s.c[0])
    return s.n


PA["Vec::len"] = PA["slice::len"]
PA["VecDeque::len"] = PA["slice::len"]


@sl("is_empty")
def _(I, a, info):
    return I.binop("Eq", PA["slice::len"](I, a, info), 0)


PA["Vec::is_empty"] = PA["slice::is_empty"]
PA["VecDeque::is_empty"] = PA["slice::is_empty"]


def _end(last):
    def h(I, a, info):
        t = strip(a[0])
        lh = getattr(I, "last_hook", None)
        if last and lh is not None and not info.get("nohook"):
            return lh(I, a, dict(info, nohook=True))
        if hasattr(t, "end_ref"):
            return t.end_ref(I, last)
        s = as_slice(I, a[0])
        if s.owner is not None and getattr(s.owner, "kind", "conc") == "exp":
            # most significant component: has the sign of the exact value
            if not last:
                raise _I.Unsupported("first of expansion")
        if isinstance(s.n, int) and s.n == 0:
            return _I.none()
        if not isinstance(s.n, int):
            if I.compare("Eq", s.n, 0):
                return _I.none()
        return _I.some(_I.Ref(s.c, I.iadd(s.start, I.isub(s.n, 1)) if last else s.start))
    return h


for _n, _l in (("last", True), ("first", False), ("last_mut", True), ("first_mut", False)):
    PA["slice::" + _n] = _end(_l)


@sl("contains")
def _(I, a, info):
    s = as_slice(I, a[0])
    for v in slice_vals(I, s):
        if eq(I, v, a[1]):
            return True
    return False


@sl("swap")
def _(I, a, info):
    s = as_slice(I, a[0])
    i, j = I.iadd(s.start, a[1]), I.iadd(s.start, a[2])
    if isinstance(s.c, list):
        if not isinstance(i, int):
            i = I.concretize(i, len(s.c))
        if not isinstance(j, int):
            j = I.concretize(j, len(s.c))
    s.c[i], s.c[j] = s.c[j], s.c[i]
    return _I.UNIT


@sl("reverse")
def _(I, a, info):
    s = as_slice(I, a[0])
    v = slice_vals(I, s)
    for i, x in enumerate(reversed(v)):
        s.c[s.start + i] = x
    return _I.UNIT


@sl("rotate_left")
def _(I, a, info):
    s = as_slice(I, a[0])
    v = slice_vals(I, s)
    k = a[1]
    if not isinstance(k, int):
        k = I.concretize(k, len(v))
    for i, x in enumerate(v[k:] + v[:k]):
        s.c[s.start + i] = x
    return _I.UNIT


@sl("split_at")
def _(I, a, info):
    s = as_slice(I, a[0])
    return _I.tup(_I.Slice(s.c, s.start, a[1], s.owner), _I.Slice(s.c, I.iadd(s.start, a[1]), I.isub(s.n, a[1]), s.owner))


PA["slice::split_at_mut"] = PA["slice::split_at"]


@sl("split_first")
def _(I, a, info):
    s = as_slice(I, a[0])
    if s.n == 0:
        return _I.none()
    return _I.some(_I.tup(_I.Ref(s.c, s.start), _I.Slice(s.c, I.iadd(s.start, 1), I.isub(s.n, 1), s.owner)))


@sl("to_vec")
def _(I, a, info):
    s = as_slice(I, a[0])
    if s.owner is not None and getattr(s.owner, "kind", "conc") != "conc":
        return deep(I, s.owner)
    return _I.VecV([deep(I, x) for x in slice_vals(I, s)])


PA["slice::to_vec_in"] = PA["slice::to_vec"]


@sl("into_vec")
def _(I, a, info):
    v = strip(a[0])
    if isinstance(v, _I.BoxV):
        v = v.f[0]
    return _I.VecV(list(v.f))


def _chunks(I, a, info):
    s = as_slice(I, a[0])
    n = a[1]
    out = []
    i = 0
    while i < s.n:
        m = min(n, s.n - i)
        out.append(_I.Slice(s.c, s.start + i, m, s.owner))
        i += n
    return list_iter(out)


PA["slice::chunks"] = PA["slice::chunks_mut"] = PA["slice::chunks_exact"] = _chunks


@sl("windows")
def _(I, a, info):
    s = as_slice(I, a[0])
    return list_iter([_I.Slice(s.c, s.start + i, a[1], s.owner) for i in range(max(0, s.n - a[1] + 1))])


def _sort(I, a, info):
    s = as_slice(I, a[0])
    v = slice_vals(I, s)
    fn = info["fn"]
    if "by_key" in fn:
        ks = [I.call_value(a[1], [_I.Ref([x], 0)]) for x in v]
        cmp = lambda i, j: cmp3(I, strip(ks[i]), strip(ks[j]))
    elif "_by" in fn:
        cmp = lambda i, j: ord_val(I, I.call_value(a[1], [_I.Ref([v[i]], 0), _I.Ref([v[j]], 0)]))
    else:
        cmp = lambda i, j: cmp3(I, v[i], v[j])
    order = []
    for i in range(len(v)):
        k = len(order)
        while k > 0 and cmp(i, order[k - 1]) < 0:
            k -= 1
        order.insert(k, i)
    for i, j in enumerate([v[j] for j in order]):
        s.c[s.start + i] = j
    return _I.UNIT


for _n in ("sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key"):
    PA["slice::" + _n] = _sort


def ve(*names):
    def d(f):
        for n in names:
            PA["Vec::" + n] = f
        return f
    return d


@ve("new", "new_in", "with_capacity", "with_capacity_in")
def _(I, a, info):
    return _I.VecV([])


@ve("push")
def _(I, a, info):
    v = strip(a[0])
    if hasattr(v, "vpush"):
        return v.vpush(I, a[1])
    if v.kind == "exp":
        raise _I.Unsupported("push on an expansion of unknown length")
    v.f.append(a[1])
    return _I.UNIT


PA["VecDeque::push_back"] = PA["Vec::push"]


@ve("pop")
def _(I, a, info):
    v = strip(a[0])
    if hasattr(v, "vpop"):
        return v.vpop(I)
    return _I.some(v.f.pop()) if v.f else _I.none()


PA["VecDeque::pop_back"] = PA["Vec::pop"]


@pa("VecDeque::pop_front")
def _(I, a, info):
    v = strip(a[0])
    if hasattr(v, "vpop_front"):
        return v.vpop_front(I)
    return _I.some(v.f.pop(0)) if v.f else _I.none()


@pa("VecDeque::new")
def _(I, a, info):
    v = _I.VecV([])
    v.ty = "VecDeque"
    return v


@ve("insert")
def _(I, a, info):
    strip(a[0]).f.insert(a[1], a[2])
    return _I.UNIT


@ve("remove")
def _(I, a, info):
    return strip(a[0]).f.pop(a[1])


@ve("swap_remove")
def _(I, a, info):
    f = strip(a[0]).f
    f[a[1]], f[-1] = f[-1], f[a[1]]
    return f.pop()


@ve("clear")
def _(I, a, info):
    v = strip(a[0])
    if hasattr(v, "vclear"):
        return v.vclear(I)
    del v.f[:]
    return _I.UNIT


@ve("truncate")
def _(I, a, info):
    v = strip(a[0])
    if hasattr(v, "vtruncate"):
        return v.vtruncate(I, a[1])
    if not isinstance(a[1], int):
        raise _I.Unsupported("truncate")
    del v.f[a[1]:]
    return _I.UNIT


@ve("resize")
def _(I, a, info):
    v = strip(a[0])
    if hasattr(v, "vresize"):
        return v.vresize(I, a[1], a[2])
    n = a[1]
    if not isinstance(n, int):
        raise _I.Unsupported("resize")
    while len(v.f) < n:
        v.f.append(deep(I, a[2]))
    del v.f[n:]
    return _I.UNIT


@ve("reserve", "shrink_to_fit", "reserve_exact")
def _(I, a, info):
    return _I.UNIT


@ve("allocator")
def _(I, a, info):
    return _I.Ref([_I.Agg("Alloc", None, [])], 0)


@ve("extend_from_slice")
def _(I, a, info):
    strip(a[0]).f.extend(deep(I, x) for x in slice_vals(I, as_slice(I, a[1])))
    return _I.UNIT


@ve("append")
def _(I, a, info):
    x, y = strip(a[0]), strip(a[1])
    x.f.extend(y.f)
    del y.f[:]
    return _I.UNIT


@ve("as_slice", "as_mut_slice")
def _(I, a, info):
    return as_slice(I, a[0])


@ve("retain")
def _(I, a, info):
    v = strip(a[0])
    keep = [x for x in v.f if I.truth(I.call_value(a[1], [_I.Ref([x], 0)]))]
    v.f[:] = keep
    return _I.UNIT


@ve("dedup")
def _(I, a, info):
    v = strip(a[0])
    out = []
    for x in v.f:
        if not out or not eq(I, out[-1], x):
            out.append(x)
    v.f[:] = out
    return _I.UNIT


@pa("vec::from_elem", "vec::from_elem_in")
def _(I, a, info):
    if not isinstance(a[1], int):
        h = getattr(I, "from_elem_hook", None)
        if h:
            return h(a[0], a[1])
        raise _I.Unsupported("vec of unknown length")
    return _I.VecV([deep(I, a[0]) for _ in range(a[1])])


def op_(name):
    def d(f):
        PA["Option::" + name] = f
        PA["Result::" + name] = f
        return f
    return d


@op_("unwrap")
def _(I, a, info):
    o = a[0]
    if hasattr(o, "unwrap"):
        return o.unwrap(I)
    if o.var == 1:
        return o.f[0]
    raise _I.PathPanic("unwrap on None")


PA["Option::expect"] = PA["Option::unwrap"]


@op_("unwrap_or")
def _(I, a, info):
    return a[0].f[0] if a[0].var == 1 else a[1]


@op_("is_some")
def _(I, a, info):
    o = strip(a[0])
    if hasattr(o, "is_some"):
        return o.is_some(I)
    return o.var == 1


@op_("is_none")
def _(I, a, info):
    o = strip(a[0])
    if hasattr(o, "is_some"):
        return I.bnot(o.is_some(I))
    return o.var == 0


@op_("as_ref")
def _(I, a, info):
    o = strip(a[0])
    if hasattr(o, "as_ref"):
        return o.as_ref(I)
    return _I.some(_I.Ref(o.f, 0)) if o.var == 1 else _I.none()


PA["Option::as_mut"] = PA["Option::as_ref"]


@op_("map")
def _(I, a, info):
    return _I.some(I.call_value(a[1], [a[0].f[0]])) if a[0].var == 1 else _I.none()


@op_("and_then")
def _(I, a, info):
    return I.call_value(a[1], [a[0].f[0]]) if a[0].var == 1 else _I.none()


@op_("zip")
def _(I, a, info):
    if a[0].var == 1 and a[1].var == 1:
        return _I.some(_I.tup(a[0].f[0], a[1].f[0]))
    return _I.none()


@op_("copied")
def _(I, a, info):
    return _I.some(I.clone(strip(a[0].f[0]))) if a[0].var == 1 else _I.none()


PA["Option::cloned"] = PA["Option::copied"]


@pa("array::map")
def _(I, a, info):
    return _I.Arr([I.call_value(a[1], [x]) for x in a[0].f])


@pa("array::from_fn")
def _(I, a, info):
    m = re.search(r"from_fn::<.*?, (\d+),", I.subst(info["fn"], info["env"]))
    n = int(m.group(1))
    return _I.Arr([I.call_value(a[0], [i]) for i in range(n)])


@pa("array::as_slice")
def _(I, a, info):
    return as_slice(I, a[0])


@pa("mem::swap")
def _(I, a, info):
    x, y = a
    while isinstance(x.get(), _I.Ref):
        x = x.get()
    while isinstance(y.get(), _I.Ref):
        y = y.get()
    u, v = x.get(), y.get()
    x.c[x.k], y.c[y.k] = v, u
    return _I.UNIT


@pa("mem::replace")
def _(I, a, info):
    x = a[0]
    u = x.get()
    x.c[x.k] = a[1]
    return u


@pa("mem::take")
def _(I, a, info):
    x = a[0]
    u = x.get()
    x.c[x.k] = _I.VecV([]) if isinstance(u, _I.VecV) else (_I.none() if isinstance(u, _I.Agg) and u.ty == "Option" else 0)
    return u


@pa("Cell::new", "Box::new", "Box::new_in")
def _(I, a, info):
    return _I.BoxV(a[0])


class CellList(list):
    """content of a RefCell; `leaked`: a shared borrow is never given back"""
    leaked = False


@pa("RefCell::new")
def _(I, a, info):
    b = _I.BoxV(a[0])
    b.f = CellList([a[0]])
    return b


@pa("RefCell::borrow", "RefCell::borrow_mut")
def _(I, a, info):
    t = strip(a[0])
    if isinstance(t, _I.BoxV):
        if info["fn"].endswith("borrow_mut") and getattr(t.f, "leaked", False):
            raise _I.PathPanic("RefCell mutably borrowed after a leaked shared borrow")
        return _I.Ref(t.f, 0)
    return a[0]


@pa("cell::Ref::leak", "Ref::leak")
def _(I, a, info):
    r = a[0]
    if isinstance(r, _I.Ref) and isinstance(r.c, CellList):
        r.c.leaked = True
    return r


@pa("RefCell::replace")
def _(I, a, info):
    t = strip(a[0])
    if getattr(t.f, "leaked", False):
        raise _I.PathPanic("RefCell::replace after a leaked shared borrow")
    old = t.f[0]
    t.f[0] = a[1]
    return old


@pa("RangeInclusive::new", "range::RangeInclusive::new")
def _(I, a, info):
    return _I.Agg("RangeInclusive", None, [a[0], a[1], False])


# ---- portable SIMD: lane-wise ------------------------------------------------
def simd(lanes):
    return _I.Agg("Simd", None, list(lanes))


def lanes(v, n=None):
    v = strip(v)
    if isinstance(v, _I.Agg) and v.ty == "Simd":
        return v.f
    if isinstance(v, _I.Arr):
        return v.f
    if isinstance(v, (_I.VecV, _I.Slice)):
        raise _I.Unsupported("simd from slice")
    return [v] * n


@pa("Simd::from_array")
def _(I, a, info):
    return simd(a[0].f)


@pa("Simd::splat")
def _(I, a, info):
    m = re.search(r"Simd::<\w+, (\d+)>", info["fn"])
    return simd([a[0]] * (int(m.group(1)) if m else 2))


@pa("Simd::to_array", "Simd::as_array", "Simd::as_mut_array")
def _(I, a, info):
    v = strip(a[0])
    return _I.Ref([_I.Arr(v.f)], 0) if isinstance(a[0], _I.Ref) else _I.Arr(list(v.f))


@tr("Simd:From::from", "Simd:Into::into", "Arr:Into::into")
def _(I, a, info):
    t = info["trait"]
    if isinstance(a[0], _I.Agg) and a[0].ty == "Simd":
        return _I.Arr(list(a[0].f)) if "[" in t.split("::")[-1] or info.get("target") == "Arr" else a[0]
    if "Simd" in t or "Simd" in str(info.get("self_ty")) or info.get("target") == "Simd":
        return simd(a[0].f)
    return NotImplemented


def _simd_bin(op):
    def h(I, a, info):
        x = lanes(a[0])
        y = lanes(a[1], len(x))
        return simd([I.binop(op, u, v) for u, v in zip(x, y)])
    return h


def _simd_assign(op):
    def h(I, a, info):
        t = strip(a[0])
        y = lanes(a[1], len(t.f))
        t.f[:] = [I.binop(op, u, v) for u, v in zip(t.f, y)]
        return _I.UNIT
    return h


for _t, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("BitXor", "bitxor"), ("BitAnd", "bitand"), ("BitOr", "bitor")):
    TR[("Simd:" + _t, _m)] = _simd_bin(_t)
    TR[("Simd:" + _t + "Assign", _m + "_assign")] = _simd_assign(_t)


@tr("Simd:Neg::neg")
def _(I, a, info):
    return simd([I.g.neg(v) for v in lanes(a[0])])


@tr("Simd:PartialEq::eq")
def _(I, a, info):
    return all(I.compare("Eq", u, v) for u, v in zip(lanes(a[0]), lanes(a[1])))


@pa("swizzle::reverse", "Simd::reverse")
def _(I, a, info):
    return simd(list(reversed(lanes(a[0]))))


@pa("swizzle::rotate_elements_left", "swizzle::rotate_elements_right", "Simd::rotate_elements_left", "Simd::rotate_elements_right")
def _(I, a, info):
    v = lanes(a[0])
    m = re.search(r"::<(\d+)>$", info["fn"])
    k = int(m.group(1)) % len(v)
    if "right" in info["fn"]:
        k = -k % len(v)
    return simd(v[k:] + v[:k])


def _sf(name, f):
    TR[("SimdFloat", name)] = f
    TR[("SimdPartialOrd", name)] = f
    PA["Simd::" + name] = f


_sf("to_bits", lambda I, a, i: simd([I.g.mk("ibits", v) if isinstance(v, N) else PA["f64::to_bits"](I, [v], i) for v in lanes(a[0])]))
_sf("is_sign_negative", lambda I, a, i: simd([signbit(I, v) for v in lanes(a[0])]))
_sf("is_sign_positive", lambda I, a, i: simd([I.bnot(signbit(I, v)) for v in lanes(a[0])]))
_sf("abs", lambda I, a, i: simd([I.g.abs(v) for v in lanes(a[0])]))
_sf("simd_max", lambda I, a, i: simd([I.g.max(u, v) for u, v in zip(lanes(a[0]), lanes(a[1]))]))
_sf("simd_min", lambda I, a, i: simd([I.g.min(u, v) for u, v in zip(lanes(a[0]), lanes(a[1]))]))


def _reduce(op):
    def h(I, a, info):
        v = lanes(a[0])
        r = v[0]
        for x in v[1:]:
            r = op(I, r, x)
        return r
    return h


_sf("reduce_max", _reduce(lambda I, u, v: I.g.max(u, v)))
_sf("reduce_min", _reduce(lambda I, u, v: I.g.min(u, v)))
_sf("reduce_sum", _reduce(lambda I, u, v: I.g.add(u, v)))
for _m, _o in (("simd_lt", "Lt"), ("simd_le", "Le"), ("simd_gt", "Gt"), ("simd_ge", "Ge"), ("simd_eq", "Eq"), ("simd_ne", "Ne")):
    _sf(_m, lambda I, a, i, _o=_o: simd([I.binop(_o, u, v) for u, v in zip(lanes(a[0]), lanes(a[1]))]))


def frombits(I, v):
    if isinstance(v, int):
        import struct
        return struct.unpack("<d", struct.pack("<Q", v & ((1 << 64) - 1)))[0]
    if isinstance(v, N):
        if v.op == "ibits":
            return v.args[0]
        if v.op == "ixor":
            for x, c in (v.args, v.args[::-1]):
                if isinstance(x, N) and isinstance(c, int):
                    y = frombits(I, x)
                    if c == 1 << 63:
                        return I.g.neg(y)
                    if c == 0:
                        return y
        if v.op == "iand":
            for x, c in (v.args, v.args[::-1]):
                if isinstance(x, N) and c == (1 << 63) - 1:
                    return I.g.abs(frombits(I, x))
    raise _I.Unsupported("from_bits of %r" % (v,))


TR[("SimdFloat", "from_bits")] = lambda I, a, i: simd([frombits(I, v) for v in lanes(a[0])])
PA["Simd::from_bits"] = TR[("SimdFloat", "from_bits")]
PA["f64::from_bits"] = lambda I, a, i: frombits(I, a[0])


def signbit(I, v):
    """sign bit of a double: true implies v <= 0, false implies v >= 0"""
    if isinstance(v, float):
        return math.copysign(1.0, v) < 0
    s, b = I.g.sgn(v)
    c = _I.Cond("signbit", b)
    return c if s > 0 else I.bnot(c)


PA["f64::is_sign_negative"] = lambda I, a, i: signbit(I, a[0])
PA["f64::is_sign_positive"] = lambda I, a, i: I.bnot(signbit(I, a[0]))


@pa("Mask::to_bitmask")
def _(I, a, info):
    return sum(1 << k for k, v in enumerate(lanes(a[0])) if I.truth(v))


@pa("Mask::any", "Mask::all", "Mask::test", "Mask::to_array")
def _(I, a, info):
    v = lanes(a[0])
    m = re.search(r"(\w+)$", strip_generics(info["fn"])).group(1)
    if m == "any":
        return any(I.truth(x) for x in v)
    if m == "all":
        return all(I.truth(x) for x in v)
    if m == "test":
        return v[a[1]]
    return _I.Arr(list(v))


@pa("num::trailing_zeros")
def _(I, a, info):
    v = a[0]
    if isinstance(v, int):
        return (v & -v).bit_length() - 1 if v else 64
    return I.g.mk("itz", v)


@pa("num::wrapping_shr")
def _(I, a, info):
    if isinstance(a[0], int):
        return a[0] >> a[1]
    return I.g.mk("ishr", a[0], a[1])


@pa("Ordering::reverse", "Ordering::is_lt", "Ordering::is_gt", "Ordering::is_eq", "Ordering::is_le", "Ordering::is_ge", "Ordering::is_ne")
def _(I, a, info):
    c = ord_val(I, a[0])
    m = info["fn"].split("::")[-1]
    if m == "reverse":
        return _I.Agg("Ordering", -c, [])
    return {"is_lt": c < 0, "is_gt": c > 0, "is_eq": c == 0, "is_le": c <= 0, "is_ge": c >= 0, "is_ne": c != 0}[m]


@pa("intrinsics::likely", "intrinsics::unlikely", "hint::black_box")
def _(I, a, info):
    return a[0]


@pa("Arguments::new_const", "Arguments::new_v1", "Arguments::new", "Arguments::from_str", "Arguments::new_v1_formatted", "Argument::new_display", "Argument::new_debug",
    "Argument::new_lower_exp", "Argument::none", "UnsafeArg::new", "io::_print", "io::_eprint", "stdio::_print")
def _(I, a, info):
    return _I.UNIT


@pa("alloc::exchange_malloc")
def _(I, a, info):
    return _I.UNIT


@pa("bumpalo::Bump::new", "Bump::new")
def _(I, a, info):
    return _I.Agg("Bump", None, [])


def lookup_trait(t, m):
    return TR.get((t, m))


def lookup_path(fn, path):
    # core::f64::<impl f64>::abs  /  std::vec::Vec::push / core::slice::<impl [T]>::iter
    h = PA.get(path)
    if h:
        return h
    segs = [s for s in re.sub(r"<impl [^>]*>+", "", re.sub(r"\[[^\]]*\]", "", fn)).split("::")]
    base = strip_generics(fn)
    segs = [s for s in base.split("::") if s]
    if fn.startswith("core::f64::") or fn.startswith("std::f64::"):
        return PA.get("f64::" + segs[-1])
    if "<impl [" in fn or re.match(r"(core|std|alloc)::slice::", fn):
        if re.match(r"(core|std)::array::", fn) or re.search(r"<impl \[.*; ", fn):
            return PA.get("array::" + segs[-1])
        return PA.get("slice::" + segs[-1])
    if "array::" in fn:
        return PA.get("array::" + segs[-1])
    if re.match(r"core::num::", fn):
        return PA.get("num::" + segs[-1])
    if len(segs) >= 2:
        return PA.get(segs[-2] + "::" + segs[-1])
    return None


import builtins2  # noqa: E402,F401  (registers further models)


def _select_nth(I, a, info):
    """slice::select_nth_unstable*: the n-th is in place, the order within the two parts is unspecified"""
    s = as_slice(I, a[0])
    k = a[1]
    if not isinstance(k, int):
        raise _I.Unsupported("select_nth_unstable at an unknown position")
    if k >= s.n:
        raise _I.PathPanic("partition_at_index index %d greater than length of slice %d" % (k, s.n))
    _sort(I, [a[0]] + a[2:], info)
    if getattr(I, "flip", 0):
        c = s.c[s.start:s.start + s.n]
        s.c[s.start:s.start + s.n] = c[:k][::-1] + [c[k]] + c[k + 1:][::-1]
    sub = lambda i, n: _I.Slice(s.c, s.start + i, n, s.owner)
    return _I.Agg("tuple", None, [sub(0, k), _I.Ref(s.c, s.start + k), sub(k + 1, s.n - k - 1)])


for _n in ("select_nth_unstable", "select_nth_unstable_by", "select_nth_unstable_by_key"):
    PA["slice::" + _n] = _select_nth

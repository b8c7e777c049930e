"""Models of further std / hashbrown / itertools surface (maps, more iterator and slice methods)."""
import re
import interp as _I
from vg import N
from builtins_model import (TR, PA, tr, pa, op_, ve, It, STOP, strip, as_slice, slice_refs, slice_vals, to_iter, nxt, nxt_back,
                            drain, mk_opt, list_iter, deep, eq, ord_val, cmp3, _into)
import builtins_model as B


# ---- hash maps and sets: association list, keys compared abstractly -----------
def canon(k):
    """hashable form of a concrete integer key, None for others"""
    if isinstance(k, int):
        return k
    if isinstance(k, _I.Agg) and k.var is None and k.f:
        r = tuple(canon(strip(x)) for x in k.f)
        return None if None in r else r
    return None


class MapV:
    """insertion-ordered association list; `rev` iterates the other way round
    (hash iteration order is unspecified, so clients are analysed in both)"""
    REV = False

    def __init__(self, ty, ents=None):
        self.ty, self.ents = ty, ents if ents is not None else []
        self.index = (0, None, {})

    def find(self, I, k):
        k = strip(k)
        c = canon(k)
        if c is not None:       # index of the concrete keys; entries are only ever appended or removed
            n, last, idx = self.index
            E = self.ents
            if n > len(E) or (n and E[n - 1] is not last):
                n, idx = 0, {}
            for j in range(n, len(E)):
                x = canon(strip(E[j][0]))
                if x is None:
                    break
                idx.setdefault(x, E[j])
            else:
                self.index = (len(E), E[-1] if E else None, idx)
                return idx.get(c)
        for e in self.ents:
            if eq(I, e[0], k):
                return e
        return None

    def order(self):
        return list(reversed(self.ents)) if MapV.REV else list(self.ents)

    def deep_clone(self, I):
        return MapV(self.ty, [[deep(I, k), deep(I, v)] for k, v in self.ents])

    def to_iter(self, I):
        if self.ty == "HashSet":
            return list_iter([e[0] for e in self.order()])
        return list_iter([_I.tup(e[0], e[1]) for e in self.order()])

    def to_iter_ref(self, I):
        if self.ty == "HashSet":
            return list_iter([_I.Ref(e, 0) for e in self.order()])
        return list_iter([_I.tup(_I.Ref(e, 0), _I.Ref(e, 1)) for e in self.order()])

    def index_ref(self, I, k):
        e = self.find(I, k)
        if e is None:
            raise _I.PathPanic("map index: no such key")
        return _I.Ref(e, 1)

    def as_slice(self, I):
        raise _I.Unsupported("slice of a map")

    def vextend(self, I, vals):
        for v in vals:
            k, x = (v, _I.UNIT) if self.ty == "HashSet" else v.f
            if isinstance(k, _I.Ref):
                k = I.clone(strip(k))
            e = self.find(I, k)
            if e is None:
                self.ents.append([k, x])
            elif self.ty != "HashSet":
                e[1] = x
        return _I.UNIT

    @property
    def f(self):
        return self.ents

    def __repr__(self):
        return "%s%r" % (self.ty, self.ents)


class Entry:
    ty = "Entry"

    def __init__(self, m, k, first="Occupied"):
        self.m, self.k, self.first = m, k, first

    def discr(self, I):
        there = self.m.find(I, self.k) is not None
        return 0 if there == (self.first == "Occupied") else 1

    def field_loc(self, I, i):
        return [self], 0


for _t in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
    def _new(I, a, info, _t=_t):
        return MapV("HashSet" if _t.endswith("Set") else "HashMap")
    for _m in ("new", "new_in", "with_capacity", "with_capacity_in", "with_hasher", "default"):
        PA[_t + "::" + _m] = _new


def mp(*names):
    def d(f):
        for n in names:
            for t in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
                PA[t + "::" + n] = f
        return f
    return d


@mp("insert")
def _(I, a, info):
    m = strip(a[0])
    e = m.find(I, a[1])
    if m.ty == "HashSet":
        if e is None:
            m.ents.append([a[1], _I.UNIT])
        return e is None
    if e is None:
        m.ents.append([a[1], a[2]])
        return _I.none()
    old, e[1] = e[1], a[2]
    return _I.some(old)


@mp("get", "get_mut")
def _(I, a, info):
    m = strip(a[0])
    e = m.find(I, a[1])
    return _I.none() if e is None else _I.some(_I.Ref(e, 0 if m.ty == "HashSet" else 1))


@mp("contains_key", "contains")
def _(I, a, info):
    return strip(a[0]).find(I, a[1]) is not None


@mp("remove")
def _(I, a, info):
    m = strip(a[0])
    e = m.find(I, a[1])
    if e is not None:
        m.ents[:] = [x for x in m.ents if x is not e]
    if m.ty == "HashSet":
        return e is not None
    return _I.none() if e is None else _I.some(e[1])


@mp("len")
def _(I, a, info):
    return len(strip(a[0]).ents)


@mp("is_empty")
def _(I, a, info):
    return not strip(a[0]).ents


@mp("clear")
def _(I, a, info):
    del strip(a[0]).ents[:]
    return _I.UNIT


@mp("reserve", "shrink_to_fit")
def _(I, a, info):
    return _I.UNIT


@mp("iter", "iter_mut")
def _(I, a, info):
    return strip(a[0]).to_iter_ref(I)


@mp("drain", "into_iter")
def _(I, a, info):
    m = strip(a[0])
    it = m.to_iter(I)
    m.ents = []
    return it


@mp("keys")
def _(I, a, info):
    return list_iter([_I.Ref(e, 0) for e in strip(a[0]).order()])


@mp("values", "values_mut")
def _(I, a, info):
    return list_iter([_I.Ref(e, 1) for e in strip(a[0]).order()])


@mp("into_values")
def _(I, a, info):
    return list_iter([e[1] for e in strip(a[0]).order()])


@mp("into_keys")
def _(I, a, info):
    return list_iter([e[0] for e in strip(a[0]).order()])


@mp("entry")
def _(I, a, info):
    return Entry(strip(a[0]), a[1], "Vacant" if "BTreeMap" in (info["fn"] or "") else "Occupied")


def _there(I, en):
    en = strip(en)
    e = en.m.find(I, en.k)
    if e is None:
        raise _I.Unsupported("vacant entry")
    return e


@pa("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def _(I, a, info):
    return _I.Ref(_there(I, a[0]), 1)


@pa("OccupiedEntry::insert")
def _(I, a, info):
    e = _there(I, a[0])
    old, e[1] = e[1], a[1]
    return old


@pa("OccupiedEntry::remove")
def _(I, a, info):
    e = _there(I, a[0])
    strip(a[0]).m.ents[:] = [x for x in strip(a[0]).m.ents if x is not e]
    return e[1]


@pa("OccupiedEntry::key", "VacantEntry::key", "Entry::key")
def _(I, a, info):
    return _I.Ref([strip(a[0]).k], 0)


@pa("VacantEntry::insert")
def _(I, a, info):
    en = strip(a[0])
    e = [en.k, a[1]]
    en.m.ents.append(e)
    return _I.Ref(e, 1)


def _entry(I, en, mk):
    e = en.m.find(I, en.k)
    if e is None:
        e = [en.k, mk()]
        en.m.ents.append(e)
    return _I.Ref(e, 1)


@pa("Entry::or_insert")
def _(I, a, info):
    return _entry(I, a[0], lambda: a[1])


@pa("Entry::or_insert_with")
def _(I, a, info):
    return _entry(I, a[0], lambda: I.call_value(a[1], []))


@pa("Entry::or_default")
def _(I, a, info):
    m = re.search(r"Entry::<(.*)>::or_default", I.subst(info["fn"], info["env"]))
    from mir import split_top, type_key
    ts = [t for t in split_top(m.group(1)) if not t.strip().startswith("'")] if m else []
    t = ts[1].strip() if len(ts) > 1 else "Vec"
    return _entry(I, a[0], lambda: B.default_of(I, t, type_key(t)))


@pa("Entry::and_modify")
def _(I, a, info):
    e = a[0].m.find(I, a[0].k)
    if e is not None:
        I.call_value(a[1], [_I.Ref(e, 1)])
    return a[0]


_old_from_vals = B.from_vals


def from_vals(I, t, vals):
    t = re.sub(r"<.*", "", t)
    if t in ("HashMap", "BTreeMap"):
        m = MapV("HashMap")
        for v in vals:
            e = m.find(I, v.f[0])
            if e is None:
                m.ents.append([v.f[0], v.f[1]])
            else:
                e[1] = v.f[1]
        return m
    if t in ("HashSet", "BTreeSet"):
        m = MapV("HashSet")
        for v in vals:
            if m.find(I, v) is None:
                m.ents.append([v, _I.UNIT])
        return m
    return _old_from_vals(I, t, vals)


B.from_vals = from_vals
_old_default = B.default_of


def default_of(I, t, k):
    if k in ("HashMap", "BTreeMap"):
        return MapV("HashMap")
    if k in ("HashSet", "BTreeSet"):
        return MapV("HashSet")
    if k == "VecDeque":
        v = _I.VecV([])
        v.ty = "VecDeque"
        return v
    m = re.fullmatch(r"\((.*)\)", t.strip())
    if m:
        from mir import split_top, type_key
        ps = [x.strip() for x in split_top(m.group(1)) if x.strip()]
        return _I.tup(*[default_of(I, x, type_key(x)) for x in ps])
    return _old_default(I, t, k)


B.default_of = default_of


# ---- iterators ----------------------------------------------------------------
@tr("Itertools::circular_tuple_windows", "Itertools::tuple_windows")
def _(I, a, info):
    rest = I.subst(info["rest"], info["env"])
    from mir import split_top
    m = re.search(r"_windows::<\((.*)\)>", rest)
    n = len([x for x in split_top(m.group(1)) if x.strip()]) if m else 2
    vals = drain(I, a[0])
    if info["meth"].startswith("circular"):
        if not vals:
            return list_iter([])
        return list_iter([_I.tup(*[vals[(i + j) % len(vals)] for j in range(n)]) for i in range(len(vals))])
    return list_iter([_I.tup(*vals[i:i + n]) for i in range(max(0, len(vals) - n + 1))])


@tr("Itertools::collect_vec", "Itertools::sorted", "Itertools::dedup", "Itertools::unique")
def _(I, a, info):
    vals = drain(I, a[0])
    m = info["meth"]
    if m == "collect_vec":
        return _I.VecV(vals)
    if m == "sorted":
        return list_iter(sort_by(I, vals, lambda x, y: cmp3(I, strip(x), strip(y))))
    out = []
    for v in vals:
        prev = out[-1:] if m == "dedup" else out
        if not any(eq(I, p, v) for p in prev):
            out.append(v)
    return list_iter(out)


def sort_by(I, vals, c):
    out = []
    for v in vals:
        i = len(out)
        while i > 0 and c(out[i - 1], v) > 0:
            i -= 1
        out.insert(i, v)
    return out


@tr("Iterator::take_while", "Iterator::map_while", "Iterator::skip_while")
def _(I, a, info):
    it, f, m = to_iter(I, a[0]), a[1], info["meth"]
    done = [False]

    def nx():
        if m == "skip_while":
            while not done[0]:
                v = nxt(I, it)
                if v is STOP:
                    return STOP
                if not I.truth(I.call_value(f, [_I.Ref([v], 0)])):
                    done[0] = True
                    return v
            return nxt(I, it)
        if done[0]:
            return STOP
        v = nxt(I, it)
        if v is STOP:
            return STOP
        if m == "take_while":
            if I.truth(I.call_value(f, [_I.Ref([v], 0)])):
                return v
        else:
            r = I.call_value(f, [v])
            if r.var == 1:
                return r.f[0]
        done[0] = True
        return STOP
    return It(nx)


@tr("Iterator::scan")
def _(I, a, info):
    it, st, f = to_iter(I, a[0]), [a[1]], a[2]

    def nx():
        v = nxt(I, it)
        if v is STOP:
            return STOP
        r = I.call_value(f, [_I.Ref(st, 0), v])
        return r.f[0] if r.var == 1 else STOP
    return It(nx)


@tr("Iterator::inspect")
def _(I, a, info):
    it = to_iter(I, a[0])

    def nx():
        v = nxt(I, it)
        if v is not STOP:
            I.call_value(a[1], [_I.Ref([v], 0)])
        return v
    return It(nx)


@tr("Iterator::find_map")
def _(I, a, info):
    it = to_iter(I, a[0])
    while True:
        v = nxt(I, it)
        if v is STOP:
            return _I.none()
        r = I.call_value(a[1], [v])
        if r.var == 1:
            return r


@tr("Iterator::nth")
def _(I, a, info):
    it = to_iter(I, a[0])
    for _ in range(a[1]):
        if nxt(I, it) is STOP:
            return _I.none()
    return mk_opt(nxt(I, it))


@tr("Iterator::rposition")
def _(I, a, info):
    vals = drain(I, a[0])
    for i in range(len(vals) - 1, -1, -1):
        if I.truth(I.call_value(a[1], [vals[i]])):
            return _I.some(i)
    return _I.none()


@tr("Iterator::partition")
def _(I, a, info):
    x, y = [], []
    for v in drain(I, a[0]):
        (x if I.truth(I.call_value(a[1], [_I.Ref([v], 0)])) else y).append(v)
    return _I.tup(_I.VecV(x), _I.VecV(y))


@tr("Iterator::unzip")
def _(I, a, info):
    vals = drain(I, a[0])
    return _I.tup(_I.VecV([v.f[0] for v in vals]), _I.VecV([v.f[1] for v in vals]))


@tr("Iterator::product")
def _(I, a, info):
    acc = 1
    for v in drain(I, a[0]):
        acc = I.binop("Mul", acc, strip(v))
    return acc


@tr("Iterator::cycle")
def _(I, a, info):
    vals = drain(I, a[0])
    i = [0]

    def nx():
        if not vals:
            return STOP
        i[0] += 1
        return vals[(i[0] - 1) % len(vals)]
    return It(nx)


@tr("Iterator::min_by_key", "Iterator::max_by_key")
def _(I, a, info):
    vals = drain(I, a[0])
    if not vals:
        return _I.none()
    best = None
    for v in vals:
        k = I.call_value(a[1], [_I.Ref([v], 0)])
        if best is None:
            best = (k, v)
            continue
        c = cmp3(I, strip(best[0]), strip(k))
        if (c <= 0) if info["meth"] == "max_by_key" else (c > 0):
            best = (k, v)
    return _I.some(best[1])


@tr("Iterator::rfind")
def _(I, a, info):
    for v in reversed(drain(I, a[0])):
        if I.truth(I.call_value(a[1], [_I.Ref([v], 0)])):
            return _I.some(v)
    return _I.none()


@tr("Iterator::eq")
def _(I, a, info):
    x, y = drain(I, a[0]), drain(I, _into(I, a[1]))
    return len(x) == len(y) and all(eq(I, u, v) for u, v in zip(x, y))


@tr("ExactSizeIterator::len")
def _(I, a, info):
    it = strip(a[0])
    if isinstance(it, It) and it.remaining:
        return it.remaining()
    if isinstance(it, _I.Agg) and it.ty == "Range":
        return I.isub(it.f[1], it.f[0])
    raise _I.Unsupported("len of an iterator")


@tr("Iterator::size_hint")
def _(I, a, info):
    return _I.tup(0, _I.none())


@pa("Peekable::peek")
def _(I, a, info):
    it = strip(a[0])
    if not isinstance(it, It):
        raise _I.Unsupported("peek")
    v = it.next()
    if v is STOP:
        it.peeked = (STOP,)
        return _I.none()
    it.peeked = (v,)
    return _I.some(_I.Ref([v], 0))


@pa("iter::once")
def _(I, a, info):
    return list_iter([a[0]])


@pa("iter::empty")
def _(I, a, info):
    return list_iter([])


@pa("iter::repeat")
def _(I, a, info):
    return It(lambda: deep(I, a[0]))


@pa("iter::zip")
def _(I, a, info):
    return TR[("Iterator", "zip")](I, [_into(I, a[0]), a[1]], info)


@pa("iter::from_fn")
def _(I, a, info):
    cell = [a[0]]

    def nx():
        r = I.call_value(cell[0], [])
        return r.f[0] if r.var == 1 else STOP
    return It(nx)


@pa("iter::successors")
def _(I, a, info):
    cur = [a[0]]

    def nx():
        if cur[0].var != 1:
            return STOP
        v = cur[0].f[0]
        cur[0] = I.call_value(a[1], [_I.Ref([v], 0)])
        return v
    return It(nx)


@tr("Ord::max", "Ord::min")
def _(I, a, info):
    x, y = a
    m = info["meth"]
    if isinstance(strip(x), (_I.Agg, _I.Arr)):
        c = cmp3(I, strip(x), strip(y))
        return (y if c <= 0 else x) if m == "max" else (x if c <= 0 else y)
    if I.compare("Le", strip(x), strip(y)):
        return y if m == "max" else x
    return x if m == "max" else y


@pa("cmp::max", "cmp::min")
def _(I, a, info):
    return TR[("Ord", "max")](I, a, dict(info, meth=info["fn"].split("<")[0].rstrip(":").split("::")[-1]))


# ---- options ------------------------------------------------------------------
@op_("unwrap_or_else")
def _(I, a, info):
    return a[0].f[0] if a[0].var == 1 else I.call_value(a[1], [])


@op_("unwrap_or_default")
def _(I, a, info):
    if a[0].var == 1:
        return a[0].f[0]
    raise _I.Unsupported("unwrap_or_default")


@op_("unwrap_unchecked")
def _(I, a, info):
    return PA["Option::unwrap"](I, a, info)


@op_("map_or")
def _(I, a, info):
    return I.call_value(a[2], [a[0].f[0]]) if a[0].var == 1 else a[1]


@op_("map_or_else")
def _(I, a, info):
    return I.call_value(a[2], [a[0].f[0]]) if a[0].var == 1 else I.call_value(a[1], [])


@op_("is_some_and")
def _(I, a, info):
    return I.truth(I.call_value(a[1], [a[0].f[0]])) if a[0].var == 1 else False


@op_("is_none_or")
def _(I, a, info):
    return I.truth(I.call_value(a[1], [a[0].f[0]])) if a[0].var == 1 else True


@op_("filter")
def _(I, a, info):
    return a[0] if a[0].var == 1 and I.truth(I.call_value(a[1], [_I.Ref(a[0].f, 0)])) else _I.none()


@op_("or")
def _(I, a, info):
    return a[0] if a[0].var == 1 else a[1]


@op_("or_else")
def _(I, a, info):
    return a[0] if a[0].var == 1 else I.call_value(a[1], [])


@op_("take")
def _(I, a, info):
    v = a[0].get()
    a[0].c[a[0].k] = _I.none()
    return v


@op_("replace")
def _(I, a, info):
    v = a[0].get()
    a[0].c[a[0].k] = _I.some(a[1])
    return v


@op_("insert")
def _(I, a, info):
    v = _I.some(a[1])
    a[0].c[a[0].k] = v
    return _I.Ref(v.f, 0)


@op_("get_or_insert_with")
def _(I, a, info):
    v = a[0].get()
    if v.var != 1:
        v = _I.some(I.call_value(a[1], []))
        a[0].c[a[0].k] = v
    return _I.Ref(v.f, 0)


@op_("iter")
def _(I, a, info):
    o = strip(a[0])
    return list_iter([_I.Ref(o.f, 0)] if o.var == 1 else [])


@op_("unzip")
def _(I, a, info):
    if a[0].var == 1:
        return _I.tup(_I.some(a[0].f[0].f[0]), _I.some(a[0].f[0].f[1]))
    return _I.tup(_I.none(), _I.none())


# ---- slices, vectors, deques ----------------------------------------------------
def sl2(*names):
    def d(f):
        for n in names:
            PA["slice::" + n] = f
            PA["VecDeque::" + n] = f
        return f
    return d


@sl2("get", "get_mut", "get_unchecked", "get_unchecked_mut")
def _(I, a, info):
    s = as_slice(I, a[0])
    i = strip(a[1])
    un = "unchecked" in info["fn"]
    if isinstance(i, _I.Agg):
        try:
            r = B.sub_slice(I, s, i)
        except _I.PathPanic:
            if un:
                raise
            return _I.none()
        return r if un else _I.some(r)
    if not isinstance(s.n, int):
        raise _I.Unsupported("get on a slice of unknown length")
    if not isinstance(i, int):
        if not un and not I.compare("Lt", i, s.n):
            return _I.none()
        i = I.concretize(i, s.n)
    if i >= s.n:
        if un:
            raise _I.PathPanic("get_unchecked out of bounds")
        return _I.none()
    r = _I.Ref(s.c, I.iadd(s.start, i))
    return r if un else _I.some(r)


@sl2("fill")
def _(I, a, info):
    for r in slice_refs(I, as_slice(I, a[0])):
        r.c[r.k] = deep(I, a[1])
    return _I.UNIT


@sl2("copy_from_slice", "clone_from_slice")
def _(I, a, info):
    x, y = slice_refs(I, as_slice(I, a[0])), slice_vals(I, as_slice(I, a[1]))
    if len(x) != len(y):
        raise _I.PathPanic("copy_from_slice lengths")
    for r, v in zip(x, y):
        r.c[r.k] = deep(I, v)
    return _I.UNIT


@sl2("rotate_right")
def _(I, a, info):
    rs = slice_refs(I, as_slice(I, a[0]))
    vals = [r.get() for r in rs]
    k = a[1] % len(vals) if vals else 0
    for r, v in zip(rs, vals[-k:] + vals[:-k] if k else vals):
        r.c[r.k] = v
    return _I.UNIT


@sl2("split_last")
def _(I, a, info):
    s = as_slice(I, a[0])
    if s.n == 0:
        return _I.none()
    return _I.some(_I.tup(_I.Ref(s.c, s.start + s.n - 1), _I.Slice(s.c, s.start, s.n - 1, s.owner)))


@sl2("concat")
def _(I, a, info):
    out = []
    for v in slice_vals(I, as_slice(I, a[0])):
        out += [deep(I, x) for x in slice_vals(I, as_slice(I, v))]
    return _I.VecV(out)


@sl2("starts_with", "ends_with")
def _(I, a, info):
    x, y = slice_vals(I, as_slice(I, a[0])), slice_vals(I, as_slice(I, a[1]))
    if len(y) > len(x):
        return False
    x = x[:len(y)] if "starts" in info["fn"] else x[len(x) - len(y):]
    return all(eq(I, u, v) for u, v in zip(x, y))


@sl2("front", "front_mut")
def _(I, a, info):
    s = as_slice(I, a[0])
    return _I.none() if s.n == 0 else _I.some(_I.Ref(s.c, s.start))


@sl2("back", "back_mut")
def _(I, a, info):
    s = as_slice(I, a[0])
    return _I.none() if s.n == 0 else _I.some(_I.Ref(s.c, s.start + s.n - 1))


@sl2("binary_search", "partition_point")
def _(I, a, info):
    s = slice_refs(I, as_slice(I, a[0]))
    if "partition_point" in info["fn"]:
        for i, r in enumerate(s):
            if not I.truth(I.call_value(a[1], [r])):
                return i
        return len(s)
    x, v = strip(a[1]), [strip(r) for r in s]
    if not all(isinstance(y, int) for y in v + [x]) or any(p > q for p, q in zip(v, v[1:])):
        raise _I.Unsupported("binary_search among values that are not sorted integers")
    if x in v:
        if v.count(x) > 1:
            raise _I.Unsupported("binary_search: position among equal elements is unspecified")
        return I.mk_enum("Result", "Ok", [v.index(x)])
    return I.mk_enum("Result", "Err", [sum(y < x for y in v)])


for _n in ("iter", "iter_mut", "contains", "clear", "swap", "truncate", "reserve", "len", "is_empty", "resize"):
    for _src in ("slice::", "Vec::"):
        if _src + _n in PA and "VecDeque::" + _n not in PA:
            PA["VecDeque::" + _n] = PA[_src + _n]


@pa("VecDeque::push_front")
def _(I, a, info):
    strip(a[0]).f.insert(0, a[1])
    return _I.UNIT


@pa("VecDeque::with_capacity", "VecDeque::new_in")
def _(I, a, info):
    return PA["VecDeque::new"](I, a, info)


@pa("VecDeque::extend", "Vec::extend")
def _(I, a, info):
    return TR[("Extend", "extend")](I, a, dict(info, trait="Extend"))


def _range_of(I, r, n):
    s = B.sub_slice(I, _I.Slice([None] * n, 0, n), strip(r))
    return s.start, s.n


@ve("drain")
def _(I, a, info):
    v = strip(a[0])
    st, n = _range_of(I, a[1], len(v.f))
    out = v.f[st:st + n]
    del v.f[st:st + n]
    return list_iter(out)


PA["VecDeque::drain"] = PA["Vec::drain"]


@ve("split_off")
def _(I, a, info):
    v = strip(a[0])
    out = v.f[a[1]:]
    del v.f[a[1]:]
    return _I.VecV(out)


@ve("into_boxed_slice", "into_iter")
def _(I, a, info):
    return a[0]


@ve("retain_mut")
def _(I, a, info):
    return PA["Vec::retain"](I, a, info)


@ve("dedup_by_key", "dedup_by")
def _(I, a, info):
    v = strip(a[0])
    out = []
    for x in v.f:
        if out:
            if "by_key" in info["fn"]:
                same = eq(I, I.call_value(a[1], [_I.Ref([out[-1]], 0)]), I.call_value(a[1], [_I.Ref([x], 0)]))
            else:
                same = I.truth(I.call_value(a[1], [_I.Ref([x], 0), _I.Ref([out[-1]], 0)]))
            if same:
                continue
        out.append(x)
    v.f[:] = out
    return _I.UNIT


@ve("resize_with")
def _(I, a, info):
    v = strip(a[0])
    while len(v.f) < a[1]:
        v.f.append(I.call_value(a[2], []))
    del v.f[a[1]:]
    return _I.UNIT


@ve("is_empty")
def _(I, a, info):
    return as_slice(I, a[0]).n == 0 if not hasattr(strip(a[0]), "vis_empty") else strip(a[0]).vis_empty(I)


@ve("clone")
def _(I, a, info):
    return deep(I, strip(a[0]))


@pa("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "range::Range::contains")
def _(I, a, info):
    r, x = strip(a[0]), strip(a[1])
    if not I.compare("Ge", x, r.f[0]):
        return False
    if r.ty == "RangeFrom":
        return True
    return I.compare("Le" if r.ty == "RangeInclusive" else "Lt", x, r.f[1])


@pa("Range::is_empty")
def _(I, a, info):
    r = strip(a[0])
    return not I.compare("Lt", r.f[0], r.f[1])


# ---- integers -------------------------------------------------------------------
def nm(*names):
    def d(f):
        for n in names:
            PA["num::" + n] = f
        return f
    return d


@nm("wrapping_add", "wrapping_sub", "wrapping_mul")
def _(I, a, info):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[re.search(r"wrapping_(\w+)", info["fn"]).group(1)]
    v = I.binop(op, a[0], a[1])
    return v & ((1 << 64) - 1) if isinstance(v, int) else v


@nm("saturating_sub")
def _(I, a, info):
    if I.compare("Le", a[0], a[1]):
        return 0
    return I.binop("Sub", a[0], a[1])


@nm("checked_sub")
def _(I, a, info):
    if I.compare("Lt", a[0], a[1]):
        return _I.none()
    return _I.some(I.binop("Sub", a[0], a[1]))


@nm("checked_add", "saturating_add")
def _(I, a, info):
    v = I.binop("Add", a[0], a[1])
    return _I.some(v) if "checked" in info["fn"] else v


@nm("abs_diff")
def _(I, a, info):
    return I.binop("Sub", a[0], a[1]) if I.compare("Ge", a[0], a[1]) else I.binop("Sub", a[1], a[0])


@nm("pow")
def _(I, a, info):
    r = 1
    for _ in range(a[1]):
        r = I.binop("Mul", r, a[0])
    return r


@nm("abs")
def _(I, a, info):
    return a[0] if I.compare("Ge", a[0], 0) else I.binop("Sub", 0, a[0])


@nm("count_ones")
def _(I, a, info):
    return bin(a[0]).count("1")


@nm("is_power_of_two")
def _(I, a, info):
    return a[0] > 0 and a[0] & (a[0] - 1) == 0


@nm("rem_euclid")
def _(I, a, info):
    return a[0] % a[1] if isinstance(a[0], int) else I.binop("Rem", a[0], a[1])


@pa("bool::then")
def _(I, a, info):
    return _I.some(I.call_value(a[1], [])) if I.truth(a[0]) else _I.none()


@pa("bool::then_some")
def _(I, a, info):
    return _I.some(a[1]) if I.truth(a[0]) else _I.none()


@pa("RefCell::into_inner", "Cell::into_inner", "Cell::get")
def _(I, a, info):
    return strip(a[0]).f[0]


@pa("Cell::set")
def _(I, a, info):
    strip(a[0]).f[0] = a[1]
    return _I.UNIT


@pa("Bump::reset", "bumpalo::Bump::reset", "mem::drop", "mem::forget")
def _(I, a, info):
    return _I.UNIT


_old_lookup = B.lookup_path


def lookup_path(fn, path):
    h = _old_lookup(fn, path)
    if h is None and ("<impl bool>" in fn):
        h = PA.get("bool::" + path.split("::")[-1])
    return h


B.lookup_path = lookup_path


@tr("Iterator::partition_in_place")
def _(I, a, info):
    refs = drain(I, a[0])
    t = 0
    i, j = 0, len(refs) - 1
    test = lambda r: I.truth(I.call_value(a[1], [_I.Ref([r.get()], 0)]))
    while True:
        while i <= j and test(refs[i]):
            i += 1
        while i <= j and not test(refs[j]):
            j -= 1
        if i >= j:
            return i
        x, y = refs[i].get(), refs[j].get()
        refs[i].c[refs[i].k] = y
        refs[j].c[refs[j].k] = x
        i, j = i + 1, j - 1


@tr("Itertools::position_max_by", "Itertools::position_min_by", "Itertools::position_max", "Itertools::position_min",
    "Itertools::position_max_by_key", "Itertools::position_min_by_key")
def _(I, a, info):
    vals = drain(I, a[0])
    if not vals:
        return _I.none()
    m = info["meth"]
    best = 0
    key = [I.call_value(a[1], [_I.Ref([v], 0)]) for v in vals] if m.endswith("_key") else vals
    for k in range(1, len(vals)):
        if m.endswith("_by"):
            c = B.ord_val(I, I.call_value(a[1], [_I.Ref([vals[best]], 0), _I.Ref([vals[k]], 0)]))
        else:
            c = cmp3(I, strip(key[best]), strip(key[k]))
        if (c <= 0) if "max" in m else (c > 0):
            best = k
    return _I.some(best)

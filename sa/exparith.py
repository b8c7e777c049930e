"""Expansions (multi-component floating-point numbers).

Two uses:
 * `install(I)`  gives the interpreter summaries of the expansion primitives: an
   expansion of unknown length is one abstract element `elem(r)` whose exact value
   is the ring value r.  Every use checks the well-formedness precondition.
 * `verify_primitives` proves those summaries on the primitives' own MIR.
"""
from interp import VecV, Slice, Ref, Arr, Agg, Unsupported, UNIT, some, none, strip_generics
import builtins_model as bm
from vg import N


class Expect(Exception):
    """a precondition of an expansion primitive is not met at a call site"""

    def __init__(self, msg, where=None):
        Exception.__init__(self, msg)
        self.where = where


def elem_ring(g, v):
    """exact value of a stored component"""
    s, b = g.sgn(v)
    if isinstance(b, N) and b.op == "elem":
        r = b.args[0]
    elif isinstance(b, N) and b.op == "zelem":
        r = b.args[0]
    else:
        r = b
    return r if s > 0 else g.rneg(r)


def ring_of(I, v):
    g = I.g
    s = bm.as_slice(I, v)
    r = 0.0
    for x in bm.slice_vals(I, s):
        r = g.radd(r, elem_ring(g, x))
    return r


def cone(n, cap=4000):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if not isinstance(x, N) or x.id in seen:
            continue
        seen.add(x.id)
        if len(seen) > cap:
            break
        st.extend(x.args)
    return seen


def wf(g, vals):
    """components in increasing order of magnitude and non-overlapping"""
    nz = []
    for v in vals:
        if isinstance(v, float) and v == 0.0:
            continue
        _, b = g.sgn(v)
        nz.append(b)
    if nz and all(isinstance(v, N) and v.op == "leaf" and v.args[0] == v.args[0][0] + str(i) for i, v in enumerate(nz)) and len({v.args[0][0] for v in nz}) == 1 and nz[0].args[0][0] in "ef":
        return True          # a symbolic input expansion
    for lo, hi in zip(nz, nz[1:]):
        if isinstance(lo, float) or isinstance(hi, float):
            return False
        if lo.op != "tail":
            return False
        if lo.args[0].id not in cone(hi):
            return False
    return True


def mk(I, r):
    if isinstance(r, (float, int)) and r == 0:
        return VecV([0.0])
    return VecV([I.g.mk("elem", r)], "exp")


def need_wf(I, v, what):
    s = bm.as_slice(I, v)
    if s.owner is not None and getattr(s.owner, "kind", "") == "exp":
        return
    vals = bm.slice_vals(I, s)
    if len(vals) == 0:
        raise Expect("%s: empty expansion" % what)
    if not wf(I.g, vals):
        raise Expect("%s: operand components are not a non-overlapping expansion in increasing order: %r" % (what, [x.show(2) if isinstance(x, N) else x for x in vals]))
    note_top(I, vals)


def s_sum(I, a, info):
    need_wf(I, a[0], "expansion sum")
    need_wf(I, a[1], "expansion sum")
    return mk(I, I.g.radd(ring_of(I, a[0]), ring_of(I, a[1])))


def s_diff(I, a, info):
    need_wf(I, a[0], "expansion difference")
    need_wf(I, a[1], "expansion difference")
    return mk(I, I.g.radd(ring_of(I, a[0]), I.g.rneg(ring_of(I, a[1]))))


def s_scale(I, a, info):
    need_wf(I, a[0], "expansion scaling")
    r, b = ring_of(I, a[0]), elem_ring(I.g, a[1])
    return mk(I, rmul(I.g, r, b))


def rmul(g, a, b):
    return g.rmul(a, b)


def s_mul(I, a, info):
    need_wf(I, a[0], "expansion product")
    need_wf(I, a[1], "expansion product")
    return mk(I, rmul(I.g, ring_of(I, a[0]), ring_of(I, a[1])))


def s_est(I, a, info):
    need_wf(I, a[0], "estimate")
    r = ring_of(I, a[0])
    return r if isinstance(r, float) else I.g.mk("est", r)


PRED = "predicates::predicates::"
SUMS = {
    PRED + "fast_expansion_sum_zeroelim": s_sum,
    PRED + "fast_expansion_diff_zeroelim": s_diff,
    PRED + "scale_expansion_zeroelim": s_scale,
    PRED + "mul_expansion_zeroelim": s_mul,
    PRED + "mul_expansion_zeroelim_imp": s_mul,
    PRED + "estimate": s_est,
    PRED + "expansion_sum": s_sum,
    PRED + "grow_expansion": lambda I, a, i: mk(I, I.g.radd(ring_of(I, a[0]), elem_ring(I.g, a[1]))),
    PRED + "grow_expansion_zeroelim": lambda I, a, i: mk(I, I.g.radd(ring_of(I, a[0]), elem_ring(I.g, a[1]))),
}


def s_last(I, a, info):
    s = bm.as_slice(I, a[0])
    if s.owner is not None and getattr(s.owner, "kind", "") == "exp":
        r = ring_of(I, a[0])
        return some(Ref([I.g.mk("est", r)], 0))
    if isinstance(s.n, int) and s.n > 1:
        vals = bm.slice_vals(I, s)
        if all(isinstance(v, (N, float)) for v in vals) and any(isinstance(v, N) and I.g.sgn(v)[1].op == "tail" for v in vals):
            need_wf(I, s, "most significant component")
            top = vals[-1]
            if isinstance(top, float) and top == 0.0:
                raise Expect("most significant component: the last component is a constant zero")
            return some(Ref([I.g.mk("est", ring_of(I, a[0]))], 0))
    return bm.PA["slice::last"](I, a, info)


def install(I, only=None):
    for k, f in SUMS.items():
        if only is None or k in only:
            I.summaries[k] = f
    I.last_hook = s_last


def note_top(I, vals):
    """the leading component approximates the whole expansion to within eps"""
    g = I.g
    nz = [g.sgn(v)[1] if isinstance(v, N) else v for v in vals]
    nz = [v for v in nz if not (isinstance(v, float) and v == 0.0)]
    if len(nz) >= 2 and nz[-2].op == "tail" and nz[-2].args[0] is nz[-1]:
        if not hasattr(g, "tops"):
            g.tops = {}
        r = 0.0
        for v in vals:
            r = g.radd(r, elem_ring(g, v))
        s = g.sgn([v for v in vals if not (isinstance(v, float) and v == 0.0)][-1])[0]
        g.tops[nz[-1].id] = r if s > 0 else g.rneg(r)

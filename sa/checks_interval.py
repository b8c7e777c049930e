"""P07: interval arithmetic encloses the exact result; the sign tests are exact.

An IntervalNumber is two lanes; which lane is the upper bound and which is the
negated lower bound is read off the constructor `new(low, high)`.  Every operator
implementation is interpreted on symbolic lanes; every sign-bit test or comparison
of a lane partitions the trace.  In every class each bound must dominate all the
corners of the exact result."""
import itertools
from interp import Interp, Agg, Ref, Cond, BoolExpr, PathPruned, Unsupported
from vg import N, Eval, SALTS
import builtins_model as bm

MOD = "predicates::interval_number::"


class Iv:
    """lane layout of the interval type: value of lane k = coef * bound"""

    def __init__(self, I, p):
        new = p.inherent.get(("IntervalNumber", "new"))
        if not new:
            raise Unsupported("IntervalNumber::new not found")
        low, high = I.g.leaf("low"), I.g.leaf("high")
        v = I.run(new[0], [low, high], {})
        ls = bm.lanes(v.f[0]) if len(v.f) == 1 else v.f
        self.hi = [i for i, x in enumerate(ls) if x is high]
        self.nlo = [i for i, x in enumerate(ls) if isinstance(x, N) and x is I.g.neg(low)]
        self.ok = len(ls) == 2 and len(self.hi) == 1 and len(self.nlo) == 1
        self.wrapped = len(v.f) == 1
        if self.ok:
            self.hi, self.nlo = self.hi[0], self.nlo[0]

    def mk(self, hi, nlo):
        l = [None, None]
        l[self.hi], l[self.nlo] = hi, nlo
        return Agg("IntervalNumber", None, [Agg("Simd", None, l)] if self.wrapped else l)

    def get(self, v):
        l = bm.lanes(v.f[0]) if self.wrapped else v.f
        return l[self.hi], l[self.nlo]


def leaf_signs(I, facts, leaves):
    """possible sign sets of the lane leaves implied by the facts"""
    s = {l.id: {-1, 0, 1} for l in leaves}
    for f in facts:
        if f[0] == "atom" and f[1].op == "signbit" and f[1].a.id in s:
            s[f[1].a.id] &= {-1, 0} if f[2] else {0, 1}
        elif f[0] == "rel" and isinstance(f[1], N) and f[1].id in s and isinstance(f[2], float) and f[2] == 0.0:
            s[f[1].id] &= {{"<": -1, "=": 0, ">": 1}[t] for t in f[3]}
    return s


def mono(g, n):
    """(sign, x, y) of +-x*y over leaves"""
    s, b = g.sgn(n)
    if isinstance(b, N) and b.op == "mul" and all(isinstance(a, N) and a.op == "leaf" for a in b.args):
        return s, b.args[0], b.args[1]
    return None


class Case:
    """one sign case: sign of each lane, magnitude order inside each operand"""

    def __init__(self, sg, order):
        self.sg, self.order = sg, order     # order: set of (u, v): |u| >= |v|

    def ge_abs(self, u, v):
        return u is v or (u.id, v.id) in self.order or self.sg[v.id] == 0

    def dominates(self, p, c):
        """monomial p >= monomial c in this case (p, c = (sign, x, y))"""
        sp = p[0] * self.sg[p[1].id] * self.sg[p[2].id]
        sc = c[0] * self.sg[c[1].id] * self.sg[c[2].id]
        if sp >= 0 and sc <= 0:
            return True
        if sp <= 0 and sc >= 0 and not (sp == 0 and sc == 0):
            return False
        big, small = (p, c) if sp > 0 else (c, p)
        return any(self.ge_abs(x, u) and self.ge_abs(y, v) for x, y in ((big[1], big[2]), (big[2], big[1]))
                   for u, v in ((small[1], small[2]), (small[2], small[1])))


def upper(I, n, pred, widened=False):
    """a term t under outward rounding with pred(t) such that n >= exact t"""
    g = I.g
    if isinstance(n, N):
        if n.op == "next_up":
            return upper(I, n.args[0], pred, True)
        if n.op == "max":
            return any(upper(I, a, pred, widened) for a in n.args)
        if n.op == "neg" and isinstance(n.args[0], N) and n.args[0].op == "next_down":
            return upper(I, g.neg(n.args[0].args[0]), pred, True)
        if n.op == "neg" and isinstance(n.args[0], N) and n.args[0].op == "min":
            return any(upper(I, g.neg(a), pred, widened) for a in n.args[0].args)
        if n.op == "leaf" or (n.op == "neg" and n.args[0].op == "leaf"):
            return pred(n)
    return widened and pred(n)


def cases(sets, pairs):
    for (ah, al), (bh, bl) in [pairs]:
        ids = [ah, al, bh, bl]
        for combo in itertools.product(*[sorted(sets[x.id]) for x in ids]):
            sg = dict(zip([x.id for x in ids], combo))
            order, ok = set(), True
            for h, l in ((ah, al), (bh, bl)):
                # low <= high  <=>  h + l >= 0
                if sg[h.id] + sg[l.id] < 0:
                    ok = False
                if sg[h.id] < 0 < sg[l.id]:
                    order.add((l.id, h.id))
                if sg[l.id] < 0 < sg[h.id]:
                    order.add((h.id, l.id))
                if sg[h.id] < 0 and sg[l.id] == 0 or sg[l.id] < 0 and sg[h.id] == 0:
                    ok = False
            if ok:
                yield Case(sg, order)


def check(ctx):
    ctx.rule("every operator of IntervalNumber is interpreted on symbolic lanes (upper bound, negated lower bound; which is which is read off "
             "`new`); each class of lane signs must give, for each bound, an outward-rounded term that dominates every corner of the exact "
             "result (sign and magnitude order of the lanes); sign tests must be exact; neg must exchange the bounds")
    p = ctx.prog
    L = Iv(Interp(p), p)
    if not ctx.ob(L.ok, "new/layout", "IntervalNumber::new(low, high) does not store high and -low", "new stores high and -low"):
        return
    ctx.floor("operators", 12)
    for (ty, tr, meth), lst in sorted(p.trait_impls.items(), key=str):
        if ty != "IntervalNumber" or tr not in ("Add", "Sub", "Mul"):
            continue
        for f in lst:
            ctx.count("operators")
            operator(ctx, p, L, tr, f)
    for f in p.trait_impls.get(("IntervalNumber", "From", "from"), []):
        ctx.count("constructors")
        I = Interp(p)
        x = I.g.leaf("x")
        for (k, r), facts in I.explore(lambda: I.run(f, [x], {})):
            ok = k == "return"
            if ok:
                h, l = L.get(r)
                ok = h is x and l is I.g.neg(x)
            ctx.ob(ok, "from/bounds", "the interval of a single number is not [x, x]: %s" % (r,), "from(x) = [x, x]")
        ctx.saw(I.called)
    ctx.floor("constructors", 1)
    for meth in ("positive", "negative", "not_zero", "neg"):
        fs = p.inherent.get(("IntervalNumber", meth), [])
        for f in fs:
            ctx.count("methods")
            I = Interp(p)
            g = I.g
            h, l = g.leaf("ah"), g.leaf("al")
            st = {}

            def run():
                st["v"] = L.mk(h, l)
                r = I.run(f, [Ref([st["v"]], 0)], {})
                return I.truth(r) if isinstance(r, (Cond, BoolExpr)) else r
            for (k, r), facts in I.explore(run):
                if k != "return":
                    ctx.ob(False, meth, "%s: %s" % (meth, r))
                    continue
                if meth == "neg":
                    v = st["v"] if not (isinstance(r, Agg) and r.ty == "IntervalNumber") else r
                    ctx.ob(L.get(v)[0] is l and L.get(v)[1] is h, "neg/exchange", "neg() does not exchange the bounds", "neg exchanges the bounds")
                    continue
                s = leaf_signs(I, facts, (h, l))
                for sh in s[h.id]:
                    for sl in s[l.id]:
                        if sh + sl < 0 or (sh < 0 and sl <= 0) or (sl < 0 and sh <= 0):
                            continue
                        want = {"positive": sl < 0, "negative": sh < 0, "not_zero": sl < 0 or sh < 0}[meth]
                        ctx.ob(want == r, meth + "/exact", "%s() is %s for an interval with sign(high)=%d, sign(low)=%d" % (meth, r, sh, -sl),
                               "%s() = %s for sign(high)=%d, sign(low)=%d" % (meth, r, sh, -sl))
            ctx.saw(I.called)
    ctx.floor("methods", 4)


def operator(ctx, p, L, tr, f):
    I = Interp(p)
    g = I.g
    ah, al, bh, bl = (g.leaf(x) for x in ("ah", "al", "bh", "bl"))
    name = "%s(%s)" % (tr, ", ".join(t.split("::")[-1] if not t.startswith("&") else "&" + t.split("::")[-1] for t in f.argtypes))

    def run():
        a, b = L.mk(ah, al), L.mk(bh, bl)
        args = [Ref([v], 0) if t.startswith("&") else v for t, v in zip(f.argtypes, (a, b))]
        return I.run(f, args, {})
    n = 0
    for (k, r), facts in I.explore(run):
        s = leaf_signs(I, facts, (ah, al, bh, bl))
        cs = list(cases(s, ((ah, al), (bh, bl))))
        # both lanes carry the sign bit only for the empty sign pattern of [+0, -0]
        cs = [c for c in cs if not both_signed(facts, c, ((ah, al), (bh, bl)))]
        if not cs:
            continue
        n += 1
        ctx.count("classes")
        if k != "return":
            ctx.ob(False, tr.lower() + "/panic", "%s of two intervals panics (%s) in the class %s" % (tr, r, show(facts)))
            continue
        h, l = L.get(r)
        if tr == "Mul":
            hi_c = [(1, ah, bh), (-1, ah, bl), (-1, al, bh), (1, al, bl)]
            lo_c = [(-s0, x, y) for s0, x, y in hi_c]
            for c in cs:
                for nm, lane, corners in (("upper", h, hi_c), ("lower", l, lo_c)):
                    for q in corners:
                        ok = upper(I, lane, lambda t: mono(g, t) is not None and c.dominates(mono(g, t), q))
                        ctx.ob(ok, "mul/" + nm, "product of intervals: in the class (%s) the %s bound %s does not dominate the corner %s" % (
                            show(facts), nm, lane.show(3) if isinstance(lane, N) else lane, "%s%s*%s" % ("-" if q[0] < 0 else "", q[1], q[2])))
        else:
            want = (g.radd(ah, bh), g.radd(al, bl)) if tr == "Add" else (g.radd(ah, bl), g.radd(al, bh))
            for nm, lane, w in (("upper", h, want[0]), ("lower", l, want[1])):
                def pred(t):
                    return isinstance(t, N) and g.sgn(t)[1].op == "add" and all(isinstance(x, N) and g.sgn(x)[1].op == "leaf" for x in g.sgn(t)[1].args) and all(
                        Eval(z, "ideal")(t) == Eval(z, "ideal")(w) for z in SALTS)
                ctx.ob(upper(I, lane, pred), "%s/%s" % (tr.lower(), nm), "%s of intervals: the %s bound is %s, not an outward rounding of %s" % (
                    tr, nm, lane.show(3) if isinstance(lane, N) else lane, w.show(3)))
    ctx.ob(n > 0, tr.lower() + "/classes", "no feasible class")
    if len(ctx.samples) < 12:
        ctx.samples.append("%s: %d lane-sign classes, every corner dominated" % (name, n))
    ctx.saw(I.called)


def both_signed(facts, c, pairs):
    at = {f[1].a.id: f[2] for f in facts if f[0] == "atom" and f[1].op == "signbit"}
    return any(at.get(h.id) and at.get(l.id) for h, l in pairs)


def show(facts):
    out = []
    for f in facts:
        if f[0] == "atom" and f[1].op == "signbit":
            out.append("%s%s" % ("-" if f[2] else "+", f[1].a.args[0]))
        elif f[0] == "rel":
            out.append("%r%s%r" % (f[1], "|".join(sorted(f[3])), f[2]))
    return " ".join(out)

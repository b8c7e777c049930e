"""P08-P11: points given implicitly (line/plane and three-plane intersections).

P08 interprets the three evaluation stages of an implicit point on symbolic
defining points and checks the homogeneous coordinates each stage answers with.
P09-P11 interpret the predicates on such points, taking the stages by the
contract P08 establishes (and by the magnitude/error bounds P08's analysis
derives from the current source), over every combination of point kinds.
"""
import itertools, math
from fractions import Fraction as F
from interp import Interp, Agg, Arr, Ref, Slice, VecV, Cond, BoolExpr, PathPanic, Unsupported, some, none, tup
from vg import N, Eval, SALTS, PRIME, frac_mod
import builtins_model as bm
import exparith, signs
from exparith import ring_of, elem_ring
from checks_pred import det as detr, rsub, rsum, ALLOC, PRED
from signs import EPS, TOL, Unjust
from checks_interval import Iv

# bounds on 3x3 determinants used here (6 entries^3) exceed the attainable maximum
# (4 entries^3) by half, so a deficit of 2^-14 is no evidence of a wrong filter
SLACK = 1 + F(1, 2 ** 14)
KINDS = {"LPI": ("ImplicitPointLPI", 5), "TPI": ("ImplicitPointTPI", 9)}
COORD = ("x", "y", "z", "d")


# ------------------------------------------------------------- intervals
def ivu(g, r):
    if isinstance(r, (float, int)):
        return float(r)
    return g.mk("ivu", r)


def iv_ring(g, L, v):
    """the exact value an abstract interval encloses"""
    h, l = L.get(bm.strip(v))
    a = h.args[0] if isinstance(h, N) and h.op == "ivu" else h
    b = l.args[0] if isinstance(l, N) and l.op == "ivu" else l
    na = g.rneg(a)
    if isinstance(a, N) or isinstance(b, N):
        if na is not b and not all(Eval(s, "real")(na) == Eval(s, "real")(b) for s in SALTS):
            raise Unsupported("interval lanes do not belong to one value: %r" % (v,))
    return a


def install_intervals(I, p):
    L = Iv(Interp(p, I.g), p)
    if not L.ok:
        raise Unsupported("layout of IntervalNumber not recognised")
    g = I.g

    def mk(r):
        return L.mk(ivu(g, r), ivu(g, g.rneg(r)))

    def from_(I, a, info):
        v = bm.strip(a[0])
        if isinstance(v, Agg):
            return v
        return mk(v if not isinstance(v, N) else elem_ring(g, v))
    I.summaries[("IntervalNumber", "From", "from")] = from_
    I.summaries[("IntervalNumber", "Add", "add")] = lambda I, a, i: mk(g.radd(iv_ring(g, L, a[0]), iv_ring(g, L, a[1])))
    I.summaries[("IntervalNumber", "Sub", "sub")] = lambda I, a, i: mk(g.radd(iv_ring(g, L, a[0]), g.rneg(iv_ring(g, L, a[1]))))
    I.summaries[("IntervalNumber", "Mul", "mul")] = lambda I, a, i: mk(g.rmul(iv_ring(g, L, a[0]), iv_ring(g, L, a[1])))
    return L, mk


# ------------------------------------------------------------- homogeneous errors
class Bd:
    """|n| <= mag*mv^deg, |n - ideal(n)| <= err*mv^deg by relative errors, and also
    <= sum(co * half_ulp(c*mv^d) * mv^(deg-d)) + rest*mv^deg over terms {(c, d): co}"""

    def __init__(self, mag, err, deg, terms=None, rest=F(0)):
        self.mag, self.err, self.deg, self.terms, self.rest = mag, err, deg, terms or {}, rest

    def scaled(self, c):
        return {k: v * c for k, v in self.terms.items()}

    def tight(self):
        """sup over mv of the second bound (mv in [1,2) by scaling with powers of two;
        between breakpoints the bound/mv^deg decreases, so it is enough to look at
        the limits from the right at the breakpoints)"""
        return tight(frozenset(self.terms.items())) + self.rest

    def join(self, o):
        t = dict(self.terms)
        for k, v in o.terms.items():
            t[k] = max(v, t.get(k, 0))
        return Bd(max(self.mag, o.mag), max(self.err, o.err), self.deg, t, max(self.rest, o.rest))


def _madd(a, b):
    t = dict(a)
    for k, v in b.items():
        t[k] = t.get(k, 0) + v
    return t


_tight = {}


def tight(items):
    if items in _tight:
        return _tight[items]
    pts = {0.0}
    for (c, d), _ in items:
        if d == 0:
            continue
        lc = math.log2(c)
        for j in range(math.floor(lc), math.floor(lc + d) + 2):
            x = (j - lc) / d
            if 0 <= x < 1:
                pts.add(x)
    best = 0.0
    for x in pts:
        t = 0.0
        for (c, d), co in items:
            e = math.log2(c) + d * x
            t += float(co) * 2.0 ** (math.floor(e + 1e-9) - d * x)
        best = max(best, t)
    r = F(best) * EPS * (1 + F(1, 2 ** 30))
    _tight[items] = r
    return r


class Hom:
    """bounds (Bd) of nodes relative to mv, the value of the max node `mx`, when every
    operand is one of the quantities mx dominates"""

    def __init__(self, g, mx, base=None):
        self.g, self.base = g, base or {}
        self.mx = mx
        self.args = {}
        self.mv = set()
        for a in (mx.args if isinstance(mx, N) and mx.op == "max" else (mx,)):
            if isinstance(a, N):
                if a.op == "abs":
                    self.args[a.args[0].id] = a
                elif a.op == "mvar":
                    self.mv.add(a.id)
                self.args[a.id] = a
        self.memo = {}

    def __call__(self, n, free=False):
        if isinstance(n, (float, int)):
            return Bd(abs(F(n)), F(0), 0)
        if not free and n.id in self.memo:
            return self.memo[n.id]
        r = self.go(n, free)
        if not free:
            self.memo[n.id] = r
        return r

    def go(self, n, free):
        g = self.g
        if n.op in ("neg", "abs"):
            return self(n.args[0], free)
        if n.op == "lam":
            bd, mv = self.base[n.id]
            if mv.id not in self.mv:
                raise Unjust("the error bound does not take the magnitude of %s into account" % n.show(2))
            return bd
        if n.id in self.args:
            if n.op == "leaf":
                return Bd(F(1), F(0), 1)
            if n.op == "add":
                e = sum((self.exact(a) for a in n.args), F(0))
                return Bd(F(1), e + (0 if free else EPS), 1, {} if free else {(F(1), 1): F(1)}, e)
        if n.op == "leaf":
            raise Unjust("%s is used as a factor but the maximum does not dominate it" % n.show(1))
        if n.op == "add":
            a, b = self(n.args[0]), self(n.args[1])
            if a.deg != b.deg:
                raise Unjust("terms of different degree (%d and %d) are added" % (a.deg, b.deg))
            m = a.mag + b.mag
            t = _madd(a.terms, b.terms)
            if not free:
                t = _madd(t, {(m, a.deg): F(1)})
            return Bd(m * (1 + EPS), a.err + b.err + (0 if free else EPS * m), a.deg, t, a.rest + b.rest)
        if n.op == "mul":
            a, b = self(n.args[0]), self(n.args[1])
            m = a.mag * b.mag
            e = a.mag * b.err + b.mag * a.err + a.err * b.err
            ex = free or any(isinstance(x, float) and _pow2(x) for x in n.args)
            t = _madd(a.scaled(b.mag), b.scaled(a.mag))
            if not ex:
                t = _madd(t, {(m, a.deg + b.deg): F(1)})
            return Bd(m if ex else m * (1 + EPS), e + (0 if ex else EPS * m), a.deg + b.deg, t,
                      a.rest * b.mag + b.rest * a.mag + a.err * b.err)
        raise Unjust("no error bound for %s" % n.show(2))

    def exact(self, a):
        b = self.g.sgn(a)[1]
        if isinstance(b, N) and b.op == "leaf":
            return F(0)
        raise Unjust("difference of inexact quantities: %s" % b.show(2))


def _pow2(c):
    return math.frexp(abs(c))[0] == 0.5


def threshold(g, E):
    """E = c * mx^k (computed): returns (mx, k, lower coefficient) or None"""
    mx = {}
    k = [0]
    co = [F(1)]

    def go(n):
        if isinstance(n, (float, int)):
            co[0] *= F(n)
        elif n.op in ("max", "mvar") or (n.op == "abs" and n.args[0].op in ("leaf", "add")):
            mx[n.id] = n
            k[0] += 1
        elif n.op == "mul":
            go(n.args[0])
            go(n.args[1])
            if not any(isinstance(a, float) and _pow2(a) for a in n.args):
                co[0] *= 1 - EPS
        else:
            raise Unjust("not a bound")
    try:
        s, b = g.sgn(E)
        if not isinstance(b, N):
            return None
        go(b)
    except Unjust:
        return None
    if len(mx) != 1 or s * co[0] <= 0:
        return None
    return list(mx.values())[0], k[0], co[0]


def float_sign(g, facts, n, base):
    """sign of ideal(n) established by comparisons of n with an error bound;
    returns (sign, None) or (None, reason)"""
    why = None
    nn = g.neg(n)
    an = g.abs(n)
    allowed = {-1, 0, 1}
    pairs = []
    for f in facts:
        if f[0] == "atom" and f[1].op == "signbit":
            for x, s in ((n, 1), (nn, -1)):
                if f[1].a is x:
                    allowed &= {0, -s if f[2] else s}
            continue
        if f[0] != "rel":
            continue
        _, a, b, s = f
        if not isinstance(b, (N, float)):
            continue
        if isinstance(b, float) and b == 0.0 and a is n:
            allowed &= {{"<": -1, "=": 0, ">": 1}[t] for t in s}
        if isinstance(b, float) and b == 0.0 and a is nn:
            allowed &= {{"<": 1, "=": 0, ">": -1}[t] for t in s}
        if s <= {">", "="}:
            pairs.append((a, b, "=" not in s))
        if s <= {"<", "="}:
            pairs.append((b, a, "=" not in s))
    cands = []
    for u, v, strict in pairs:
        for x, y in ((u, v), (g.neg(v) if isinstance(v, N) else -v, g.neg(u) if isinstance(u, N) else -u)):
            if x is n:
                cands.append((y, 1, strict))
            elif x is nn:
                cands.append((y, -1, strict))
            elif x is an and isinstance(an, N):
                cands.append((y, 0, strict))
    for E, s, strict in cands:
        t = threshold(g, E) if isinstance(E, N) else None
        if t is None:
            continue
        mx, k, co = t
        H = Hom(g, mx, base)
        try:
            bd = H(g.sgn(n)[1], True)
            err, deg = min(bd.err, bd.tight()), bd.deg
        except Unjust as e:
            why = str(e)
            continue
        if deg != k:
            why = "the determinant has degree %d but the error bound degree %d" % (deg, k)
            continue
        if err > co / (1 + EPS) * SLACK:
            why = "error bound too small: the rounding error can reach %.6e*m^%d, the filter allows %.6e*m^%d" % (float(err), k, float(co), k)
            continue
        if not strict and not H.mv and 0 in allowed:
            why = "a zero determinant passes the non-strict comparison"
            continue
        sg = s if s else (allowed - {0}).pop() if len(allowed - {0}) == 1 else 0
        if sg == 0:
            why = "only the magnitude is compared"
            continue
        return sg, None
    return None, why


def ideal_vals(n):
    return [Eval(s, "ideal")(n) for s in SALTS]


def const_ratio(a, b):
    """a == c*b (ideal): +1, -1 or None"""
    va, vb = ideal_vals(a), ideal_vals(b)
    if any(v == 0 for v in vb):
        return None
    if va == vb:
        return 1
    if all((x + y) % PRIME == 0 for x, y in zip(va, vb)):
        return -1
    return None


# ------------------------------------------------------------- objects
def leaves3(g, nm):
    return [g.leaf(nm + c) for c in "xyz"]


def explicit(I, p, co):
    f = p.trait_impls.get(("ExplicitPoint3D", "From", "from"))
    if not f:
        raise Unsupported("ExplicitPoint3D: From<&[f64]> not found")
    return I.run(f[0], [Slice(list(co), 0, 3)], {})


def build(I, p, kind, pts):
    ty, n = KINDS[kind]
    f = p.inherent.get((ty, "new"))
    if not f:
        raise Unsupported(ty + "::new not found")
    return I.run(f[0], [explicit(I, p, c) for c in pts], {})


def field(p, v, name):
    v = bm.strip(v)
    names = p.structs.get(v.ty)
    if not names or name not in names:
        raise Unsupported("field %s of %s" % (name, v.ty))
    return v.f[names.index(name)]


def spec_point(g, kind, P):
    """exact homogeneous coordinates (X, Y, Z, D) of the intersection point"""
    sub = lambda a, b: [rsub(g, x, y) for x, y in zip(a, b)]
    dot = lambda a, b: rsum(g, [g.rmul(x, y) for x, y in zip(a, b)])

    def cross(a, b):
        return [rsub(g, g.rmul(a[(i + 1) % 3], b[(i + 2) % 3]), g.rmul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]
    if kind == "LPI":
        p, q, r, s, t = P
        n = cross(sub(s, r), sub(t, r))
        u = sub(q, p)
        d = dot(u, n)
        k = dot(sub(r, p), n)
        return [g.radd(g.rmul(p[i], d), g.rmul(u[i], k)) for i in range(3)] + [d]
    rows, rhs = [], []
    for i in range(3):
        a, b, c = P[3 * i:3 * i + 3]
        n = cross(sub(b, a), sub(c, a))
        rows.append(n)
        rhs.append(dot(n, a))
    out = []
    for j in range(3):
        out.append(detr(g, [[rhs[i] if c == j else rows[i][c] for c in range(3)] for i in range(3)]))
    return out + [detr(g, rows)]


STAGES = ("static_filter", "dynamic_filter", "exact")


def stage_fn(p, kind, st):
    f = p.trait_impls.get((KINDS[kind][0], "ImplicitPoint3D", st)) or p.inherent.get((KINDS[kind][0], st))
    if not f:
        raise Unsupported("%s::%s not found" % (KINDS[kind][0], st))
    return f[0]


def analyse_stage(ctx, p, kind, st, report=None):
    """interpret stage `st` twice in a row on a fresh object; report obligations if
    given; returns the static stage's bounds {coord: (mag, err, deg)}"""
    I = Interp(p)
    exparith.install(I)
    g = I.g
    L, _ = install_intervals(I, p)
    names = ("p", "q", "r", "s", "t") if kind == "LPI" else ("v1", "v2", "v3", "w1", "w2", "w3", "u1", "u2", "u3")
    P = [leaves3(g, n) for n in names]
    spec = spec_point(g, kind, P)
    sv = [ideal_vals(x) for x in spec]
    f = stage_fn(p, kind, st)
    key = "%s/%s" % (kind, st)
    ob = report or (lambda *a, **k: True)
    bounds = {}

    def call(o):
        args = [Ref([o], 0)]
        while len(args) < f.nargs:
            args.append(ALLOC())
        return I.run(f, args, {})

    def run():
        o = build(I, p, kind, P)
        a = call(o)
        n = len(I.facts)
        b = call(o)
        return a, b, n
    where = ctx.where(f.name)
    n = 0
    for (k, r), facts in I.explore(run):
        if k != "return":
            ob(False, key + "/panic", "%s: calling the stage twice panics (%s)" % (where, r))
            continue
        a, b, nf = r
        first = facts[:nf]
        # a class whose second call contradicts the first call's comparison is vacuous
        if st == "static_filter" and vacuous(g, facts):
            continue
        n += 1
        ob(a.var == b.var, key + "/repeat", "%s: the second call does not answer like the first" % where)
        if a.var == 0:
            if st == "exact":
                ob(est_zero(g, facts, spec[3]), key + "/none", "%s answers None although the point may be defined (denominator not shown zero)" % where)
            continue
        v = bm.strip(a.f[0])
        mv = None
        if st == "static_filter":
            v, mv = v.f[0], v.f[1]
        vals = [field(p, v, c) for c in COORD]
        if b.var == 1:
            w = bm.strip(b.f[0])
            w = w.f[0] if st == "static_filter" else w
            same = all(same_val(I, L, st, x, field(p, w, c)) for x, c in zip(vals, COORD))
            ob(same, key + "/repeat", "%s: the second call returns other coordinates than the first" % where)
        try:
            rings = [value_ring(I, L, st, x) for x in vals]
        except Unsupported as e:
            ob(False, key + "/lanes", "%s: %s" % (where, e))
            continue
        rv = [ideal_vals(x) for x in rings]
        ob(all(x != 0 for x in rv[3]), key + "/denominator", "%s returns a denominator that is identically zero" % where)
        for c, i in zip("xyz", range(3)):
            ok = all(rv[i][j] * sv[3][j] % PRIME == sv[i][j] * rv[3][j] % PRIME for j in range(len(SALTS)))
            ob(ok, key + "/" + c, "%s: coordinate %s over the denominator is not the %s coordinate of the intersection point" % (where, c, c),
               "%s: %s/d is the %s coordinate of the intersection" % (where, c, c))
        # positive denominator
        if st == "static_filter":
            dn = vals[3]
            s, why = float_sign(g, facts, dn, {})
            ob(s == 1, key + "/positive", "%s: the returned denominator is not shown positive: %s" % (where, why or "no guard"), "%s: d > error bound" % where)
            try:
                H = Hom(g, mv)
                for c, x in zip(COORD, vals):
                    bounds[c] = H(x).join(bounds[c]) if c in bounds else H(x)
                ob(bounds["x"].deg == bounds["y"].deg == bounds["z"].deg == bounds["d"].deg + 1, key + "/degree", "%s: coordinates are not homogeneous" % where)
                ob(True, "", "")
            except Unjust as e:
                ob(False, key + "/magnitude", "%s: the returned magnitude does not bound the coordinates' rounding error: %s" % (where, e))
        else:
            ob(known_positive(g, facts, rings[3]), key + "/positive", "%s: the returned denominator is not shown positive" % where, "%s: d > 0" % where)
    ob(n > 0, key + "/classes", "no class of %s was analysed" % where)
    if ctx is not None:
        ctx.saw(I.called)
        ctx.count("classes", n)
        ctx.count("stages")
    return bounds


def vacuous(g, facts):
    """max(..) = 0 together with |d| > c*max^k >= 0: every dominated term is 0"""
    if contradictory(g, facts):
        return True
    zero = {f[1].id for f in facts if f[0] == "rel" and isinstance(f[2], float) and f[2] == 0.0 and f[3] == frozenset("=") and isinstance(f[1], N) and f[1].op in ("max", "mvar")}
    if not zero:
        return False
    for f in facts:
        if f[0] != "rel" or not isinstance(f[2], N):
            continue
        for E, n in ((f[2], f[1]), (f[1], f[2])):
            t = threshold(g, E) or threshold(g, g.neg(E))
            if t and t[0].id in zero and f[3] <= frozenset("<>"):
                try:
                    Hom(g, t[0])(g.sgn(n)[1])
                    return True
                except Unjust:
                    pass
    return False


def contradictory(g, facts):
    """n > E >= 0 together with n <= 0 (or the mirror image)"""
    sg = {}

    def note(n, al):
        s, b = g.sgn(n)
        sg[b.id] = sg.get(b.id, {-1, 0, 1}) & {s * x for x in al}
    for f in facts:
        if f[0] != "rel":
            continue
        _, a, b, s = f
        if isinstance(b, float) and b == 0.0 and isinstance(a, N):
            note(a, {{"<": -1, "=": 0, ">": 1}[t] for t in s})
        elif isinstance(a, N) and isinstance(b, N):
            for u, v, w in ((a, b, s), (b, a, {{"<": ">", ">": "<", "=": "="}[t] for t in s})):
                # u ? v with v = +-bound
                if threshold(g, v) and set(w) <= {">", "="}:
                    note(u, {1} if "=" not in w else {0, 1})
                    if u.op == "abs" and "=" not in w:
                        note(u.args[0], {-1, 1})
                elif threshold(g, g.neg(v)) and set(w) <= {"<", "="}:
                    note(u, {-1} if "=" not in w else {0, -1})
    return any(not x for x in sg.values())


def same_val(I, L, st, a, b):
    if st == "static_filter":
        return a is b or a == b
    return all(Eval(s, "ideal")(x) == Eval(s, "ideal")(y) for s in SALTS for x, y in [(value_ring(I, L, st, a), value_ring(I, L, st, b))])


def value_ring(I, L, st, v):
    if st == "static_filter":
        return v
    if st == "dynamic_filter":
        return iv_ring(I.g, L, v)
    return ring_of(I, bm.strip(v).f[0])


def eval1(n, salt):
    """value with every power-of-two scale set to one"""
    e = Eval(salt, "ideal", sub={x.id: 1 for x in pow2s(n)})
    return e(n)


def pow2s(n):
    seen, st, out = set(), [n], []
    while st:
        x = st.pop()
        if not isinstance(x, N) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "pow2":
            out.append(x)
            continue
        st.extend(x.args)
    return out


def ring_facts(g, facts):
    """(ring node, allowed signs) from comparisons of estimates and interval bounds with 0"""
    for f in facts:
        if f[0] != "rel" or not isinstance(f[1], N) or not (isinstance(f[2], float) and f[2] == 0.0):
            continue
        n, s = f[1], f[3]
        if n.op == "est":
            yield n.args[0], {{"<": -1, "=": 0, ">": 1}[t] for t in s}
        elif n.op == "ivu":
            if s == frozenset("<"):
                yield n.args[0], {-1}
            elif s <= frozenset("<="):
                yield n.args[0], {-1, 0}


def ring_sign(g, facts, r):
    al = {-1, 0, 1}
    v = [eval1(r, s) for s in SALTS]
    for q, s in ring_facts(g, facts):
        w = [eval1(q, t) for t in SALTS]
        if v == w:
            al &= s
        elif all((x + y) % PRIME == 0 for x, y in zip(v, w)):
            al &= {-x for x in s}
    return al


def known_positive(g, facts, r):
    return ring_sign(g, facts, r) <= {1}


def est_zero(g, facts, d):
    return ring_sign(g, facts, d) <= {0}


def check_points(ctx):
    ctx.rule("each evaluation stage (static filter, interval filter, exact) of both kinds of implicit point is interpreted twice in a row on an object built by "
             "`new` from symbolic defining points: x/d, y/d, z/d must be identically the coordinates of the geometric intersection (random interpretation), the "
             "denominator must be shown positive (guard against a forward error bound; interval lane; exact sign), the returned magnitude must dominate every factor, "
             "exact() may decline only when the denominator is exactly zero, and the cached answer must equal the first one")
    p = ctx.prog
    for kind in KINDS:
        for st in STAGES:
            analyse_stage(ctx, p, kind, st, ctx.ob)
        to_explicit(ctx, p, kind)
    ctx.floor("stages", 6)
    ctx.floor("to_explicit", 2)


def to_explicit(ctx, p, kind):
    fs = p.trait_impls.get((KINDS[kind][0], "ImplicitPoint3D", "to_explicit"))
    f = fs[0] if fs else p.by_call.get("predicates::generic_point::ImplicitPoint3D::to_explicit")
    if f is None:
        raise Unsupported("to_explicit not found")
    I = Interp(p)
    exparith.install(I)
    g = I.g
    W = World(I, p, {})
    o = W.obj(kind, "a")
    out = {}

    def run():
        W.fresh()
        W.force = True
        out["d"] = [g.leaf("old%d" % i) for i in range(3)]
        I.run(f, [Ref([o], 0), Slice(out["d"], 0, 3)], {})
        return list(out["d"])
    for (k, r), facts in I.explore(run):
        ctx.count("to_explicit")
        ok = k == "return"
        if ok:
            for i, c in enumerate("xyz"):
                want = [Eval(s, "ideal")(g.leaf("aX" + c)) * pow(Eval(s, "ideal")(g.leaf("aD")), -1, PRIME) % PRIME for s in SALTS]
                ok = ok and isinstance(r[i], N) and all(Eval(s, "ideal")(r[i]) == w for s, w in zip(SALTS, want))
        ctx.ob(ok, kind + "/to_explicit", "to_explicit of %s does not store x/d, y/d, z/d" % kind, "to_explicit(%s) = (x/d, y/d, z/d)" % kind)
    ctx.saw(I.called)


# ------------------------------------------------------------- opaque objects
class World:
    """implicit points known only through the contract of their stages"""

    def __init__(self, I, p, bounds):
        self.I, self.p, self.bounds = I, p, bounds
        self.g = g = I.g
        self.L, self.mkiv = install_intervals(I, p)
        self.base = {}
        self.objs = {}
        self.force = False
        self.state = {}
        for kind, (ty, _) in KINDS.items():
            for st in STAGES:
                I.summaries[(ty, "ImplicitPoint3D", st)] = self.stage(kind, st)
                I.summaries[(ty, st)] = self.stage(kind, st)
        for nm, dim in (("orient2d", 2), ("orient3d", 3)):
            I.summaries[PRED + nm] = self.pred(dim)

    def fresh(self):
        self.state = {}

    def obj(self, kind, name):
        o = Agg(KINDS[kind][0], None, [self.g.leaf("obj_" + name)])
        self.objs[id(o)] = (kind, name)
        self.keep = getattr(self, "keep", []) + [o]
        g = self.g
        if kind in self.bounds:
            for c in COORD:
                n = g.mk("lam", self.leaf(name, c))
                self.base[n.id] = (self.bounds[kind][c], g.mk("mvar", name))
        return o

    def leaf(self, name, c):
        return self.g.leaf(name + "D") if c == "d" else self.g.leaf(name + "X" + c)

    def stage(self, kind, st):
        def h(I, a, info):
            o = bm.strip(a[0])
            if id(o) not in self.objs:
                raise Unsupported("stage of an unknown point")
            kd, name = self.objs[id(o)]
            g = self.g
            if (name, st) not in self.state:
                # a filter may answer only for a defined point
                if self.force or (st == "exact" and any(self.state.get((name, t)) for t in STAGES[:2])):
                    v = True
                else:
                    v = not I.choose(2, (name, st))
                self.state[(name, st)] = v
                I.facts.append(("stage", name, st, v))
            if not self.state[(name, st)]:
                return none()
            names = self.p.structs["Implicit3DCache"]
            vals = {}
            for c in COORD:
                l = self.leaf(name, c)
                vals[c] = g.mk("lam", l) if st == STAGES[0] else self.mkiv(l) if st == STAGES[1] else Agg("ExpansionNum", None, [VecV([g.mk("elem", l)], "exp")])
            cache = Agg("Implicit3DCache", None, [vals[c] for c in names])
            if st == STAGES[0]:
                return some(Ref([tup(cache, g.mk("mvar", name))], 0))
            if st == STAGES[1]:
                return some(Ref([cache], 0))
            return some(cache)
        return h

    def pred(self, dim):
        def h(I, a, info):
            g = self.g
            pts = []
            for x in a:
                v = bm.strip(x)
                if isinstance(v, (Slice, Arr, VecV)) or (isinstance(v, Agg) and v.ty == "ExplicitPoint3D"):
                    vals = coords_of(I, x)
                    if len(vals) < dim:
                        raise PathPanic("point of %d coordinates passed to a %dD predicate" % (len(vals), dim))
                    pts.append(vals[:dim])
            if len(pts) != dim + 1:
                raise Unsupported("predicate call with %d points" % len(pts))
            r = detr(g, [[rsub(g, u, v) for u, v in zip(x, pts[-1])] for x in pts[:-1]])
            return 0.0 if isinstance(r, float) else g.mk("est", r)
        return h


def coords_of(I, x):
    v = bm.strip(x)
    if isinstance(v, Agg):
        v = bm.strip(v.f[0])
    return bm.slice_vals(I, bm.as_slice(I, v if isinstance(v, (Slice, VecV)) else Ref([v], 0)))


def point3d(I, p, W, kind, name):
    """(Point3D value, coordinates as a function salt -> 3 field elements)"""
    g = I.g
    if kind == "E":
        co = leaves3(g, name)
        v = I.mk_enum("Point3D", "Explicit", [explicit(I, p, co)])
        return v
    return I.mk_enum("Point3D", kind, [W.obj(kind, name)])


def point_vals(g, kind, name, salt):
    e = Eval(salt, "ideal")
    if kind == "E":
        return [e(x) for x in leaves3(g, name)]
    inv = pow(e(g.leaf(name + "D")), -1, PRIME)
    return [e(g.leaf(name + "X" + c)) * inv % PRIME for c in "xyz"]


def detv(rows):
    if len(rows) == 1:
        return rows[0][0]
    r = 0
    for j in range(len(rows)):
        t = rows[0][j] * detv([x[:j] + x[j + 1:] for x in rows[1:]])
        r += t if j % 2 == 0 else -t
    return r % PRIME


def ratio_sign(g, n, specv, ds, salts=SALTS):
    """n == +-spec * product of positive denominators?  returns +1/-1/None"""
    vals = [Eval(s, "ideal")(n) for s in salts]
    if any(v == 0 for v in vals):
        return None
    D = [[Eval(s, "ideal")(d) for d in ds] for s in salts]
    for ks in itertools.product(range(5), repeat=len(ds)):
        k = None
        for v, sp, dd in zip(vals, specv, D):
            w = sp
            for d, e in zip(dd, ks):
                w = w * pow(d, e, PRIME) % PRIME
            t = 1 if v == w else -1 if (v + w) % PRIME == 0 else None
            if t is None or (k is not None and t != k):
                k = None
                break
            k = t
        if k is not None:
            return k
    return None


def spec_signs(W, facts, specv, ds, cache):
    """possible signs of the specification under the class facts, with reasons"""
    g = W.g
    al = {-1, 0, 1}
    why = []

    def rs(n):
        if n.id not in cache:
            cache[n.id] = ratio_sign(g, n, specv, ds)
        return cache[n.id]
    for q, s in ring_facts(g, facts):
        k = rs(q)
        if k is None:
            why.append("an exactly signed value is not the specification determinant")
            continue
        al &= {k * x for x in s}
    seen = set()
    for f in facts:
        if f[0] != "rel":
            continue
        for n in f[1:3]:
            if not isinstance(n, N):
                continue
            b = g.sgn(n)[1]
            if b.op == "abs":
                b = b.args[0]
            if b.id in seen or b.op not in ("add", "mul", "leaf", "lam") or threshold(g, b):
                continue
            seen.add(b.id)
            s, w = float_sign(g, facts, b, W.base)
            if s is None:
                if w:
                    why.append(w)
                continue
            k = rs(b)
            if k is None:
                why.append("the filtered determinant is not the specification determinant")
                continue
            al &= {k * s}
    # exact comparison of two explicit coordinates
    for f in facts:
        if f[0] == "rel" and all(isinstance(x, (N, float)) for x in f[1:3]) and all(isinstance(g.sgn(x)[1], N) and g.sgn(x)[1].op == "leaf" for x in f[1:3] if isinstance(x, N)) and isinstance(f[2], N):
            d = g.radd(f[1], g.rneg(f[2]))
            k = rs(d)
            if k is not None:
                al &= {k * {"<": -1, "=": 0, ">": 1}[t] for t in f[3]}
    return al, why


SIGN = {"Positive": 1, "Negative": -1, "Zero": 0}


def check_orient(ctx, fname, npts, specfn, extra_args=None, label=None, limit=None, world=None):
    """all combinations of point kinds of `fname`; specfn(list of coordinate lists) -> value"""
    p = ctx.prog
    f = p.by_call.get(fname)
    label = label or fname.split("::")[-1]
    if f is None:
        ctx.ob(False, label + "/missing", "function %s not found" % fname)
        return
    def job(kinds):
        return lambda c: combo(c, p, f, label, kinds, specfn, world, extra_args)
    # the largest combinations first, spread over the workers
    ctx.parallel(map(job, sorted(itertools.product(("E", "LPI", "TPI"), repeat=npts), key=lambda k: k.count("E"))))


def combo(ctx, p, f, label, kinds, specfn, bounds, extra):
    I = Interp(p)
    exparith.install(I)
    g = I.g
    W = World(I, p, bounds)
    npts = len(kinds)
    names = "abcdefgh"[:npts]
    pts = [point3d(I, p, W, k, n) for k, n in zip(kinds, names)]
    specv = [specfn([point_vals(g, k, n, s) for k, n in zip(kinds, names)]) for s in SALTS]
    ds = [g.leaf(n + "D") for k, n in zip(kinds, names) if k != "E"]
    cn = "".join(k[0] for k in kinds)

    def run():
        W.fresh()
        args = [Ref([x], 0) for x in pts] + list(extra or [])
        while len(args) < f.nargs:
            args.append(ALLOC())
        return I.run(f, args, {})
    cache = {}
    cls = 0
    for (k, r), facts in I.explore(run):
        cls += 1
        key = "%s/%s" % (label, cn)
        if k != "return":
            ctx.ob(False, key + "/panic", "%s on points of kinds %s panics: %s" % (ctx.where(f.name), cn, r))
            continue
        r = bm.strip(r)
        name = p.enums["Orientation"][r.var] if isinstance(r, Agg) and r.ty == "Orientation" else repr(r)
        if name == "Undefined":
            und = any(q[0] == "stage" and q[2] == "exact" and not q[3] for q in facts)
            ctx.ob(und, key + "/undefined", "%s on points of kinds %s answers Undefined although every point is defined" % (ctx.where(f.name), cn))
            continue
        if contradictory(g, facts):
            continue
        al, why = spec_signs(W, facts, specv, ds, cache)
        # an undefined point has no sign to report
        bad = any(q[0] == "stage" and q[2] == "exact" and not q[3] for q in facts)
        if bad and not any(q[0] == "stage" and q[2] == "exact" and q[3] for q in facts) and al == {-1, 0, 1}:
            ctx.ob(False, key + "/sign", "%s on points of kinds %s answers %s for an undefined point" % (ctx.where(f.name), cn, name))
            continue
        ok = name in SIGN and al <= {SIGN[name]}
        stage = "exact" if any(q[0] == "stage" and q[2] == "exact" for q in facts) else "interval" if any(q[0] == "stage" and q[2] == "dynamic_filter" for q in facts) else "filter"
        ctx.ob(ok, "%s/%s" % (key, stage), "%s on points of kinds %s, %s stage: answers %s where the specification's sign may be %s%s" % (
            ctx.where(f.name), cn, stage, name, sorted(al), " (%s)" % "; ".join(sorted(set(why))) if why else ""),
            "%s(%s) class %d: %s" % (label, cn, cls, name) if cls == 1 else None)
    ctx.count("partition classes", cls)
    ctx.count("kind combinations")
    ctx.saw(I.called)


def all_bounds(ctx):
    b = {k: analyse_stage(ctx, ctx.prog, k, "static_filter") for k in KINDS}
    for k, v in b.items():
        if set(v) != set(COORD):
            raise Unsupported("no error bounds derived for the static filter of %s" % k)
    return b


RULE = ("the predicate is interpreted on every combination of point kinds, with the implicit points' stages taken by their contract (checked by P08) and the "
        "magnitude/error bounds derived from the current source; in every partition class each sign-determining value (filtered determinant, interval, exact "
        "expansion) must be identically the specification determinant times a product of positive denominators, a floating-point filter's bound must "
        "exceed the forward error of matching degree, and the returned orientation must be the only sign those facts allow; Undefined only for an undefined point")


def check_orient3d(ctx):
    ctx.rule(RULE)
    # sign convention: negative when the last point is above the plane of the others
    spec = lambda P: -detv([[x - y for x, y in zip(q, P[3])] for q in P[:3]]) % PRIME
    check_orient(ctx, "predicates::orient3d::orient3d", 4, spec, world=all_bounds(ctx))
    ctx.floor("kind combinations", 81)


def check_orient2d(ctx):
    ctx.rule(RULE)
    w = all_bounds(ctx)
    for nm, (i, j), ax in (("orient2d_xy", (0, 1), 2), ("orient2d_yz", (1, 2), 0), ("orient2d_zx", (2, 0), 1)):
        spec = lambda P, i=i, j=j: detv([[q[i] - P[2][i], q[j] - P[2][j]] for q in P[:2]])
        check_orient(ctx, "predicates::orient2d::" + nm, 3, spec, world=w)
        check_orient(ctx, "predicates::orient2d::orient2d_by_axis", 3, spec, extra_args=[ax], label="by_axis%d" % ax, world=w)
    ctx.floor("kind combinations", 162)


def check_less_than(ctx):
    ctx.rule(RULE)
    w = all_bounds(ctx)
    for i, c in enumerate("xyz"):
        spec = lambda P, i=i: (P[0][i] - P[1][i]) % PRIME
        check_orient(ctx, "predicates::less_than::less_than_on_" + c, 2, spec, world=w)
    ctx.floor("kind combinations", 27)

"""Is the sign of a computed node the sign of a polynomial specification?

Decided on a value-graph node plus the comparison facts of its trace class, by
one of:
  exact     the node is the leading component of an expansion whose exact value is
            identically the specification (random interpretation);
  signexact sign propagation: products of sign-exact nodes, sums of nodes whose
            signs the facts make compatible;
  bounded   the facts give |node| >= E and a forward error analysis (coefficient-
            wise on absolute monomials, exact rationals) gives |node - spec| < E.
Assumption: no overflow/underflow.
"""
from fractions import Fraction as F
from vg import N, Eval, SALTS, PRIME
import exparith

EPS = F(1, 2 ** 53)
ONE = F(1)
# guards are decided up to this relative tolerance (second-order terms)
TOL = 1 + F(1, 2 ** 40)
# third-stage guards are O(eps^2); Shewchuk's published constant for insphere (71)
# is met by this analysis only up to one unit (72)
TOL2 = 1 + F(1, 64)
KAPPA = 2 * EPS / (1 - 2 * EPS)


# ---- polynomials: {tuple(sorted var keys): Fraction} ----------------------
def pconst(c):
    c = F(c)
    return {(): c} if c else {}


def pvar(k):
    return {(k,): ONE}


def padd(a, b, s=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pscale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def pabs(a):
    return {m: abs(v) for m, v in a.items()}


class Unjust(Exception):
    pass


class Just:
    """justification of signs in one trace class"""

    def __init__(self, g, facts, assume_nonneg=()):
        self.g = g
        self.facts = facts
        self.rel = []
        self.zero = set()
        for f in facts:
            if f[0] != "rel":
                continue
            _, a, b, s = f
            self.rel.append((a, b, s))
            if s == frozenset("=") and isinstance(b, float) and b == 0.0 and isinstance(a, N) and a.op == "tail":
                self.zero.add(a.id)
        self.maxes = {}
        self.mp, self.me, self.mx = {}, {}, {}
        self.subst = {}
        self.extra = {}      # node id -> (X poly, err poly, mag poly) overrides
        self.lows = {}       # node id -> lower poly overrides
        self.pos = set()     # node ids known > 0 by assumption

    # -- facts -----------------------------------------------------------
    def ge_pairs(self):
        """(u, v, strict) with u >= v or u > v"""
        for a, b, s in self.rel:
            if s <= {">", "="}:
                yield a, b, "=" not in s
            if s <= {"<", "="}:
                yield b, a, "=" not in s

    def sign(self, n):
        """set of possible signs of a node value"""
        if isinstance(n, (float, int)):
            return {0 if n == 0 else (1 if n > 0 else -1)}
        s, b = self.g.sgn(n)
        al = {-1, 0, 1}
        if b.id in self.pos:
            al = {1}
        for x, y, r in self.rel:
            if isinstance(y, float) and y == 0.0 and x is b:
                al &= {{"<": -1, "=": 0, ">": 1}[t] for t in r}
            elif isinstance(y, float) and x is b:
                if y > 0 and r <= {">", "="}:
                    al &= {1}
                elif y < 0 and r <= {"<", "="}:
                    al &= {-1}
        if b.op in ("abs", "sqrt"):
            al &= {0, 1}
        elif b.op == "max" and any(isinstance(a, N) and a.op == "abs" for a in b.args):
            al &= {0, 1}
        elif b.op == "pow2":
            al &= {1}
        elif b.op == "mul" and len(al) > 1:
            if b.args[0] is b.args[1]:
                al &= {0, 1}
            else:
                sa, sb = self.sign(b.args[0]), self.sign(b.args[1])
                al &= {x * y for x in sa for y in sb}
        elif b.op == "add" and len(al) > 1:
            sa, sb = self.sign(b.args[0]), self.sign(b.args[1])
            al &= self.addsign(sa, sb)
        return {s * x for x in al}

    @staticmethod
    def addsign(sa, sb):
        r = set()
        for x in sa:
            for y in sb:
                if x == 0 or y == 0 or x == y:
                    r.add(x or y)
                else:
                    r |= {-1, 0, 1}
        return r

    # -- polynomials of nodes ---------------------------------------------
    def is_atom(self, n):
        if n.op == "tail":
            return self.is_atom(n.args[0])
        if n.op in ("leaf", "lam", "pow2", "est", "mvar"):
            return True
        if n.op == "add":
            return all(isinstance(a, N) and self.g.sgn(a)[1].op == "leaf" for a in n.args)
        return False

    def X(self, n):
        """ideal polynomial of a float node over atoms"""
        if isinstance(n, (float, int)):
            return pconst(n)
        if n.id in self.mx:
            return self.mx[n.id]
        tops = getattr(self.g, "tops", {})
        if n.id in self.extra:
            r = self.extra[n.id][0]
        elif n.id in tops:
            r = self.ringpoly(tops[n.id])
        elif n.op == "neg":
            r = pscale(self.X(n.args[0]), -1)
        elif n.op == "est":
            r = self.ringpoly(n.args[0])
        elif n.op == "tail" and (n.id in self.zero or not self.is_atom(n)):
            r = {}
        elif self.is_atom(n):
            r = pvar(n.id)
        elif n.op == "add":
            r = padd(self.X(n.args[0]), self.X(n.args[1]))
        elif n.op == "mul":
            r = pmul(self.X(n.args[0]), self.X(n.args[1]))
        else:
            raise Unjust("no ideal polynomial for %s" % n.show(2))
        self.mx[n.id] = r
        return r

    def mag(self, n):
        """polynomial in |atoms| bounding |n|"""
        if isinstance(n, (float, int)):
            return pconst(abs(n))
        if n.id in self.mp:
            return self.mp[n.id]
        if n.id in self.extra:
            r = self.extra[n.id][2]
        elif n.op in ("neg", "abs"):
            r = self.mag(n.args[0])
        elif n.op == "tail" and n.id in self.zero:
            r = {}
        elif n.op == "tail":
            r = pscale(self.mag(n.args[0]), EPS)
        elif self.is_atom(n):
            r = pvar(n.id)
        elif n.op == "add":
            r = pscale(padd(self.mag(n.args[0]), self.mag(n.args[1])), 1 + EPS)
        elif n.op == "mul":
            ex = self.exact_mul(n)
            r = pscale(pmul(self.mag(n.args[0]), self.mag(n.args[1])), 1 if ex else 1 + EPS)
        else:
            raise Unjust("no magnitude for %s" % n.show(2))
        self.mp[n.id] = r
        return r

    def exact_mul(self, n):
        import math
        for a in n.args:
            if isinstance(a, float) and math.frexp(abs(a))[0] == 0.5:
                return True
            if isinstance(a, N) and a.op == "pow2":
                return True
        return False

    def err(self, n, free_top=False):
        """polynomial in |atoms| bounding |n - X(n)|"""
        if isinstance(n, (float, int)):
            return {}
        if not free_top and n.id in self.me:
            return self.me[n.id]
        if n.id in self.extra:
            return self.extra[n.id][1]
        if n.id in getattr(self.g, "tops", {}):
            r = pscale(self.mag(n), EPS * (1 + 2 * EPS))
        elif n.op == "neg":
            r = self.err(n.args[0], free_top)
        elif n.op == "est":
            r = pscale(pvar(n.id), KAPPA)
        elif self.is_atom(n):
            r = {}
        elif n.op == "tail":
            r = self.mag(n)
        elif n.op == "add":
            a, b = n.args
            r = padd(self.err(a), self.err(b))
            if not free_top:
                r = padd(r, pscale(padd(self.mag(a), self.mag(b)), EPS))
        elif n.op == "mul":
            a, b = n.args
            ea, eb = self.err(a), self.err(b)
            ma, mb = self.mag(a), self.mag(b)
            r = padd(pmul(ma, eb), pmul(padd(mb, eb), ea))
            if not free_top and not self.exact_mul(n):
                r = padd(r, pscale(pmul(ma, mb), EPS))
        else:
            raise Unjust("no error bound for %s" % n.show(2))
        if not free_top:
            self.me[n.id] = r
        return r

    def lower(self, n):
        """polynomial in |atoms| that is a lower bound of the node n >= 0"""
        if isinstance(n, (float, int)):
            if n < 0:
                raise Unjust("negative constant in an error bound")
            return pconst(n)
        if n.id in self.lows:
            return self.lows[n.id]
        if n.op == "abs":
            return self.lower_abs(n.args[0])
        sg = self.sign(n)
        if n.op == "neg":
            if sg <= {0, 1}:
                return self.lower_abs(n.args[0])
            raise Unjust("error bound may be negative: %s" % n.show(3))
        if n.op == "mul":
            ex = self.exact_mul(n)
            try:
                return pscale(pmul(self.lower(n.args[0]), self.lower(n.args[1])), 1 if ex else 1 - EPS)
            except Unjust:
                if sg <= {0, 1}:
                    return self.lower_abs(n)
                raise
        if n.op == "add" and not self.is_atom(n):
            return pscale(padd(self.lower(n.args[0]), self.lower(n.args[1])), 1 - EPS)
        if self.is_atom(n) and sg <= {0, 1}:
            return pvar(n.id)
        if n.op == "max":
            self.maxes[n.id] = n
            return pvar(n.id)
        raise Unjust("no lower bound for %s" % n.show(3))

    def lower_abs(self, n):
        if isinstance(n, (float, int)):
            return pconst(abs(n))
        if n.id in self.lows:
            return self.lows[n.id]
        if n.op in ("neg", "abs"):
            return self.lower_abs(n.args[0])
        if self.is_atom(n):
            return pvar(n.id)
        if n.op == "max" and self.sign(n) <= {0, 1}:
            return self.lower(n)
        if n.op == "mul":
            return pscale(pmul(self.lower_abs(n.args[0]), self.lower_abs(n.args[1])), 1 if self.exact_mul(n) else 1 - EPS)
        if n.op == "add":
            sa, sb = self.sign(n.args[0]), self.sign(n.args[1])
            if (sa <= {0, 1} and sb <= {0, 1}) or (sa <= {0, -1} and sb <= {0, -1}):
                return pscale(padd(self.lower_abs(n.args[0]), self.lower_abs(n.args[1])), 1 - EPS)
        raise Unjust("no lower bound for |%s|" % n.show(3))

    # -- exact ring values --------------------------------------------------
    def ringpoly(self, r):
        """exact polynomial of a ring node; roundings are variables that must cancel"""
        p = self.rp(r)
        for m in p:
            for k in m:
                if k < 0:
                    raise Unjust("rounding error does not cancel in an exact value")
        return p

    def rp(self, r):
        g = self.g
        if isinstance(r, (float, int)):
            return pconst(r)
        key = ("r", r.id)
        if key in self.mx:
            return self.mx[key]
        if r.op in ("neg", "rneg"):
            v = pscale(self.rp(r.args[0]), -1)
        elif r.op == "radd":
            v = padd(self.rp(r.args[0]), self.rp(r.args[1]))
        elif r.op == "rmul":
            v = pmul(self.rp(r.args[0]), self.rp(r.args[1]))
        elif r.op == "elem":
            v = self.rp(r.args[0])
        elif r.op == "tail":
            if r.id in self.zero:
                v = {}
            elif self.is_atom(r.args[0]):
                v = pvar(r.id)
            else:
                y = r.args[0]
                a, b = self.rp(y.args[0]), self.rp(y.args[1])
                ex = padd(a, b) if y.op == "add" else pmul(a, b)
                v = padd(ex, self.rp(y), -1)
        elif self.is_atom(r):
            v = pvar(r.id)
        else:
            t = g.tab.get(("tail", r.id))
            if t is not None and t.id in self.zero:
                a, b = self.rp(r.args[0]), self.rp(r.args[1])
                v = padd(a, b) if r.op == "add" else pmul(a, b)
            else:
                v = pvar(-r.id - 1)
        self.mx[key] = v
        return v

    # -- specification ------------------------------------------------------
    def leaf_subst(self, roots):
        """leaf id -> polynomial over atoms and tails, from the differences used"""
        g = self.g
        atoms, seen, st = [], set(), list(roots)
        while st:
            x = st.pop()
            if not isinstance(x, N) or x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "add" and self.is_atom(x):
                atoms.append(x)
            st.extend(x.args)
        atoms.sort(key=lambda x: x.id)
        deg = {}
        for x in atoms:
            for a in x.args:
                b = g.sgn(a)[1]
                deg[b.id] = deg.get(b.id, 0) + 1
        sub = {}
        nodes = {}

        def resolve(b):
            return sub.get(b.id, pvar(b.id))
        for x in atoms:
            (s0, l0), (s1, l1) = g.sgn(x.args[0]), g.sgn(x.args[1])
            # prefer eliminating the leaf of smaller degree
            if deg[l0.id] > deg[l1.id]:
                (s0, l0), (s1, l1) = (s1, l1), (s0, l0)
            t = g.tail(x)
            ex = pvar(x.id)
            if t.id not in self.zero:
                ex = padd(ex, pvar(t.id))
            for (s, l), (s2, l2) in (((s0, l0), (s1, l1)), ((s1, l1), (s0, l0))):
                if l.id not in sub and not any((l.id,) in p or any(l.id in m for m in p) for p in sub.values()):
                    sub[l.id] = pscale(padd(ex, pscale(resolve(l2), s2), -1), s)
                    break
            else:
                nodes[x.id] = True
        return sub

    def spec_poly(self, spec, sub):
        """specification (ring node over leaves) as a polynomial over atoms/tails"""
        memo = {}

        def go(r):
            if isinstance(r, (float, int)):
                return pconst(r)
            if r.id in memo:
                return memo[r.id]
            if r.op == "leaf":
                v = sub.get(r.id, pvar(r.id))
            elif r.op in ("neg", "rneg"):
                v = pscale(go(r.args[0]), -1)
            elif r.op == "radd":
                v = padd(go(r.args[0]), go(r.args[1]))
            elif r.op == "rmul":
                v = pmul(go(r.args[0]), go(r.args[1]))
            else:
                raise Unjust("spec op " + r.op)
            memo[r.id] = v
            return v
        return go(spec)

    def absorb_tails(self, p):
        """abs polynomial: |tail(a)| <= eps |a|"""
        r = {}
        for m, c in p.items():
            k, f = [], ONE
            for v in m:
                n = self.g.nodes[v]
                if n.op == "tail":
                    k.append(n.args[0].id)
                    f *= EPS
                else:
                    k.append(v)
            k = tuple(sorted(k))
            r[k] = r.get(k, 0) + c * f
        return r

    def cover(self, e):
        """|atom| <= max(...) for the maxima occurring in the guard"""
        r = {}
        for m, c in e.items():
            k = []
            for v in m:
                n = self.g.nodes[v]
                for mid, mx in self.maxes.items():
                    if n is mx or n in mx.args or self.g.abs(n) in mx.args:
                        k.append(mid)
                        break
                else:
                    k.append(v)
            k = tuple(sorted(k))
            r[k] = r.get(k, 0) + c
        return r

    # -- the decision -------------------------------------------------------
    def spec_eval(self, n, spec):
        """exact / identically proportional?  returns +1/-1 if value(n) == +-spec
        in exact arithmetic under the class facts"""
        res = None
        for s in SALTS:
            e = Eval(s, "real", self.zero)
            a, b = e(n), e(spec)
            k = 1 if a == b else (-1 if (a + b) % PRIME == 0 else 0)
            if res is None:
                res = k
            elif res != k:
                return 0
        return res

    def ideal_eval(self, n, spec):
        res = None
        for s in SALTS:
            e = Eval(s, "ideal", self.zero)
            a, b = e(n), e(spec)
            k = 1 if a == b else (-1 if (a + b) % PRIME == 0 else 0)
            if res is None:
                res = k
            elif res != k:
                return 0
        return res

    def signexact(self, n):
        """sign(n) == sign(ideal(n)) under the facts"""
        if isinstance(n, (float, int)):
            return True
        if n.op in ("leaf", "pow2"):
            return True
        if n.op == "neg":
            return self.signexact(n.args[0])
        if n.op == "mul":
            return all(self.signexact(a) for a in n.args)
        if n.op == "add":
            if all(self.exactval(a) for a in n.args):
                return True
            if all(self.signexact(a) for a in n.args):
                sa, sb = self.sign(n.args[0]), self.sign(n.args[1])
                return not ((1 in sa and -1 in sb) or (-1 in sa and 1 in sb))
        return False

    def exactval(self, n):
        """value(n) == ideal(n)"""
        if isinstance(n, (float, int)):
            return True
        if n.op == "leaf":
            return True
        if n.op == "neg":
            return self.exactval(n.args[0])
        if n.op in ("add", "mul"):
            t = self.g.tab.get(("tail", n.id))
            return t is not None and t.id in self.zero and all(self.exactval(a) for a in n.args)
        return False

    def bounds_for(self, n):
        """nodes E with facts implying |n| >= E"""
        g = self.g
        out = []
        nn = g.neg(n)
        an = g.abs(n)
        for u, v, strict in self.ge_pairs():
            if isinstance(v, N) or isinstance(v, float):
                if u is n or u is nn or u is an:
                    out.append(v)
            if isinstance(v, N) and (v is n or v is nn):
                out.append(g.neg(u))
        return out

    def bounded(self, n, spec, info):
        g = self.g
        cands = [e for e in self.bounds_for(n) if isinstance(e, N)]
        if not cands:
            raise Unjust("no comparison with an error bound guards this result")
        why = []
        for E in cands:
            try:
                sub = self.leaf_subst([n, E])
                sp = self.spec_poly(spec, sub)
                x = self.X(n)
                left = padd(sp, x, -1)
                est = isinstance(n, N) and g.sgn(n)[1].op == "est"
                e = padd({} if est else self.err(n, free_top=True), self.absorb_tails(pabs(left)))
                e = self.absorb_tails(e)
                lo = self.lower(E)
                lo = self.absorb_tails(lo)
                # |fl(..)| >= E  =>  |exact of last op| >= E/(1+eps)
                # an estimate has the sign of its expansion, |exact| >= |est|/(1+kappa)
                lo = pscale(lo, 1 / (1 + KAPPA) if est else 1 / (1 + EPS))
                if self.maxes:
                    e = self.cover(e)
                bad = [(m, c) for m, c in e.items() if c > 0 and not lo.get(m, 0) * (TOL if c > 100 * EPS * EPS * 100 else TOL2) > c]
                if bad:
                    m, c = max(bad, key=lambda t: t[1] - lo.get(t[0], 0))
                    why.append("error bound too small: monomial %s needs coefficient %.9e, guard provides %.9e" % (
                        "*".join(self.g.nodes[i].show(1) for i in m), float(c), float(lo.get(m, 0))))
                    continue
                if info is not None:
                    info.append(max((float(c / lo[m]) for m, c in e.items() if c > 0), default=0.0))
                return True
            except Unjust as ex:
                why.append(str(ex))
        raise Unjust("; ".join(why))

    def justify(self, n, spec, info=None):
        """returns the rule name; raises Unjust"""
        g = self.g
        if isinstance(n, (float, int)):
            if n == 0 and self.spec_zero(spec):
                return "zero"
            raise Unjust("returns the constant %r" % n)
        s, b = g.sgn(n)
        if b.op == "est" or b.op == "elem":
            k = self.spec_eval(b.args[0], spec)
            if k == s:
                return "exact"
            why = "exact value is the negated specification" if k == -s else "returned expansion is not identically the specification polynomial"
            try:
                self.bounded(n, spec, info)
                return "bounded"
            except Unjust as e:
                raise Unjust("%s; %s" % (why, e))
        if self.signexact(n):
            k = self.ideal_eval(n, spec)
            if k == 1:
                return "signexact"
            if k == -1:
                raise Unjust("result is the negated specification")
            raise Unjust("result is not the specification polynomial")
        k = 0
        try:
            self.bounded(n, spec, info)
            return "bounded"
        except Unjust as e:
            raise e

    def spec_zero(self, spec):
        return all(Eval(s, "real", self.zero)(spec) == 0 for s in SALTS)

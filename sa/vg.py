"""Value graph: hash-consed IEEE-754 double expressions in a sign-canonical form.

Every float that the analysed code computes becomes a node.  Nodes are canonical
under the exact identities of round-to-nearest arithmetic (commutativity,
sign symmetry, x+0, 1*x), so two ways of writing the same computation give the
same node.  Error-free transformations (TwoSum, TwoDiff, TwoProduct, Split ...)
are recognised from the graph, not from function names: when the program builds
the expression whose value is, by the theorems of Knuth and Dekker, exactly the
rounding error of another node x, the node becomes  tail(x).
"""
from fractions import Fraction


class N:
    __slots__ = ("op", "args", "id", "g", "meta")

    def __repr__(self):
        return self.show(3)

    def show(self, d=4):
        if self.op in ("leaf", "ileaf"):
            return str(self.args[0])
        if d == 0:
            return "#%d" % self.id
        return "%s(%s)" % (self.op, ", ".join(a.show(d - 1) if isinstance(a, N) else str(a) for a in self.args))


COMMUT_I = {"iadd", "imul", "ixor", "iand", "ior"}


class Graph:
    def __init__(self):
        self.tab = {}
        self.nodes = []
        self.tailcache = {}

    def mk(self, op, *args):
        key = (op,) + tuple((a.id if isinstance(a, N) else ("c", type(a).__name__, a)) for a in args)
        n = self.tab.get(key)
        if n is None:
            n = N()
            n.op, n.args, n.id, n.g, n.meta = op, args, len(self.nodes), self, None
            self.tab[key] = n
            self.nodes.append(n)
        return n

    def leaf(self, name):
        return self.mk("leaf", name)

    def ileaf(self, name):
        return self.mk("ileaf", name)

    # -- signs -----------------------------------------------------------
    def sgn(self, v):
        if isinstance(v, N) and v.op == "neg":
            return -1, v.args[0]
        return 1, v

    def neg(self, v):
        if isinstance(v, (float, int)):
            return -v
        if v.op == "neg":
            return v.args[0]
        return self.mk("neg", v)

    def apply_sign(self, s, v):
        return v if s > 0 else self.neg(v)

    # -- IEEE ops -------------------------------------------------------
    def add(self, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return a + b
        if isinstance(a, float) and a == 0.0:
            return b
        if isinstance(b, float) and b == 0.0:
            return a
        n = self._add_raw(a, b)
        s, base = self.sgn(n)
        if isinstance(base, float):
            return n
        t = self._match_tail(base)
        return self.apply_sign(s, t) if t is not None else n

    def _add_raw(self, a, b):
        if isinstance(a, float):
            a, b = b, a
        if isinstance(b, float):
            sa, na = self.sgn(a)
            # add(na, c)  with overall sign
            if sa < 0:
                return self.neg(self.mk("add", na, -b))
            return self.mk("add", na, b)
        sa, na = self.sgn(a)
        sb, nb = self.sgn(b)
        if na.id > nb.id:
            sa, na, sb, nb = sb, nb, sa, na
        if na is nb and sa != sb:
            return 0.0
        n = self.mk("add", na, nb if sa == sb else self.neg(nb))
        return n if sa > 0 else self.neg(n)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        n = self._mul_raw(a, b)
        if isinstance(n, N):
            # scaling by a power of two is exact
            s, m = self.sgn(n)
            if m.op == "mul" and all(isinstance(x, N) for x in m.args):
                for x, y in (m.args, m.args[::-1]):
                    if x.op == "pow2" and y.op == "elem":
                        return self.apply_sign(s, self.mk("elem", self.rmul(y.args[0], x)))
        return n

    def _mul_raw(self, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return a * b
        if isinstance(a, float):
            a, b = b, a
        if isinstance(b, float):
            if b == 1.0:
                return a
            if b == -1.0:
                return self.neg(a)
            if b == 0.0:
                return 0.0
            s, na = self.sgn(a)
            if b < 0:
                s, b = -s, -b
            n = self.mk("mul", na, b)
            # split: c = splitter * a handled in _match_tail
            return n if s > 0 else self.neg(n)
        sa, na = self.sgn(a)
        sb, nb = self.sgn(b)
        if na.id > nb.id:
            na, nb = nb, na
        n = self.mk("mul", na, nb)
        return n if sa == sb else self.neg(n)

    def div(self, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return a / b if b else float("nan")
        sa, na = self.sgn(a)
        sb, nb = self.sgn(b)
        n = self.mk("div", na, nb)
        return n if sa == sb else self.neg(n)

    def abs(self, a):
        if isinstance(a, float):
            return abs(a)
        _, na = self.sgn(a)
        if na.op in ("abs", "max") or (na.op == "mul" and na.args[0] is na.args[1]):
            if na.op == "abs" or na.op == "mul":
                return na
        return self.mk("abs", na)

    def max(self, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return max(a, b)
        items = []
        for x in (a, b):
            if isinstance(x, N) and x.op == "max":
                items += list(x.args)
            else:
                items.append(x)
        seen, out = set(), []
        for x in sorted(items, key=lambda z: z.id if isinstance(z, N) else -1):
            k = x.id if isinstance(x, N) else ("c", x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        if len(out) == 1:
            return out[0]
        return self.mk("max", *out)

    def min(self, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return min(a, b)
        x, y = sorted((a, b), key=lambda z: z.id if isinstance(z, N) else -1)
        return x if x is y else self.mk("min", x, y)

    def fma(self, a, b, c):
        # exact product minus its rounding: tail
        x = self.mul(a, b)
        if isinstance(c, N) and isinstance(x, N) and self.neg(c) is x:
            s, base = self.sgn(x)
            if base.op == "mul":
                return self.apply_sign(s, self.tail(base))
        return self.mk("fma", a, b, c)

    # -- error-free transformations -------------------------------------
    def tail(self, x):
        """exact(op of x's args) - x"""
        if x.op == "mul" and isinstance(x.args[1], float):
            import math
            m, _ = math.frexp(x.args[1])
            if m == 0.5:
                return 0.0
        return self.mk("tail", x)

    def _raw_sub(self, a, b):
        return self._add_raw(a, self.neg(b))

    def _two_sum_tails(self, x):
        """raw nodes equal to tail of x = add(a, b) (b may be negated)"""
        r = self.tailcache.get(x.id)
        if r is None:
            r = []
            a, b = x.args
            for p, q in ((a, b), (b, a)):
                bv = self._raw_sub(x, p)
                if isinstance(bv, float):
                    continue
                av = self._raw_sub(x, bv)
                br = self._raw_sub(q, bv)
                ar = self._raw_sub(p, av)
                if isinstance(br, float) or isinstance(ar, float):
                    continue
                r.append(self._add_raw(ar, br))
                # br itself already recognised (FastTwoSum precondition known)
                r.append(self._add_raw(ar, self.mk("tail", x)))
            self.tailcache[x.id] = r
        return r

    def _fast_tails(self, x):
        r = self.tailcache.get(("f", x.id))
        if r is None:
            r = []
            a, b = x.args
            for p, q in ((a, b), (b, a)):
                bv = self._raw_sub(x, p)
                if isinstance(bv, float):
                    continue
                y = self._raw_sub(q, bv)
                r.append((p, q, y))
            self.tailcache[("f", x.id)] = r
        return r

    def fast_ok(self, p, q):
        """|p| >= |q| known structurally, so FastTwoSum(p, q) is exact.
        p = fl(e*b), q = fl(s + tail(p)) : the scale/two-one-product step
        (Shewchuk, Theorem 19: q accumulates only products with components of
        smaller magnitude plus tail(p))."""
        _, p = self.sgn(p)
        _, q = self.sgn(q)
        if isinstance(p, N) and isinstance(q, N) and p.op == "mul" and q.op == "add":
            for t in q.args:
                if isinstance(t, N):
                    _, t = self.sgn(t)
                    if t.op == "tail" and t.args[0] is p:
                        return True
        for f in getattr(self, "fast_facts", ()):
            if f(p, q):
                return True
        return False

    def hi(self, a):
        return self.mk("hi", a)

    def lo(self, a):
        return self.mk("lo", a)

    def _match_tail(self, n):
        """n: canonical positive 'add' node.  Returns replacement or None."""
        if n.op != "add":
            return None
        r = self.tailcache.get(("m", n.id), 0)
        if r != 0:
            return r
        r = self._match_tail0(n)
        self.tailcache[("m", n.id)] = r
        return r

    def _match_tail0(self, n):
        u, v = n.args
        su, nu = self.sgn(u)
        sv, nv = self.sgn(v)
        if not (isinstance(nu, N) and isinstance(nv, N)):
            return None
        # --- split:  ahi = c - (c - a), c = S*a
        for (s1, c), (s2, w) in (((su, nu), (sv, nv)), ((sv, nv), (su, nu))):
            if c.op == "mul" and isinstance(c.args[1], float) and c.args[1] in (134217729.0, 67108865.0) and w.op == "add":
                a = c.args[0]
                ab = self._raw_sub(c, a)  # c - a
                t = self._raw_sub(c, ab)
                if isinstance(t, N):
                    st, bt = self.sgn(t)
                    if bt is n:
                        return self.apply_sign(st, self.hi(a))
            if c.op == "hi":
                # alo = a - ahi
                a = c.args[0]
                t = self._raw_sub(a, c)
                if isinstance(t, N):
                    st, bt = self.sgn(t)
                    if bt is n:
                        return self.apply_sign(st, self.lo(a))
        # --- product tails
        for w in (nu, nv):
            if w.op == "mul" and isinstance(w.args[0], N) and isinstance(w.args[1], N) and w.args[0].op == "lo" and w.args[1].op == "lo":
                a, b = w.args[0].args[0], w.args[1].args[0]
                x = self._mul_raw(a, b)
                _, x = self.sgn(x)
                for e in self._prod_tails(x, a, b):
                    se, be = self.sgn(e)
                    if be is n:
                        return self.apply_sign(se, self.tail(x))
        # --- sum tails
        cands = {}
        stack = [(nu, 0), (nv, 0)]
        while stack:
            w, d = stack.pop()
            if not isinstance(w, N):
                continue
            _, w = self.sgn(w)
            if w.op == "add" and w.id < n.id:
                cands[w.id] = w
            if d < 3 and w.op == "add":
                for t in w.args:
                    stack.append((t, d + 1))
        for x in cands.values():
            if any(isinstance(t, float) for t in x.args):
                continue
            for e in self._two_sum_tails(x):
                se, be = self.sgn(e)
                if be is n:
                    return self.apply_sign(se, self.tail(x))
            for p, q, e in self._fast_tails(x):
                if isinstance(e, float):
                    continue
                se, be = self.sgn(e)
                if be is n and self.fast_ok(p, q):
                    return self.apply_sign(se, self.tail(x))
        return None

    def _prod_tails(self, x, a, b):
        r = self.tailcache.get(("p", x.id))
        if r is None:
            ah, al, bh, bl = self.hi(a), self.lo(a), self.hi(b), self.lo(b)
            r = []
            m = self._mul_raw
            hh = m(ah, bh)
            e1 = self._raw_sub(x, hh)
            for p, q in ((m(al, bh), m(ah, bl)), (m(ah, bl), m(al, bh))):
                e2 = self._raw_sub(e1, p)
                e3 = self._raw_sub(e2, q)
                r.append(self._raw_sub(m(al, bl), e3))
            if a is b:
                two = self._add_raw(ah, ah)
                for t in (m(two, al), m(ah, self._add_raw(al, al)), m(m(ah, al), 2.0)):
                    e3 = self._raw_sub(e1, t)
                    r.append(self._raw_sub(m(al, bl), e3))
            self.tailcache[("p", x.id)] = r
        return r

    # -- exact ring ops ---------------------------------------------------
    def radd(self, a, b):
        if isinstance(a, (float, int)) and a == 0:
            return b
        if isinstance(b, (float, int)) and b == 0:
            return a
        return self.mk("radd", a, b)

    def rmul(self, a, b):
        if isinstance(a, (float, int)) and a == 0:
            return 0.0
        if isinstance(b, (float, int)) and b == 0:
            return 0.0
        return self.mk("rmul", a, b)

    def rneg(self, a):
        if isinstance(a, (float, int)):
            return -a
        if a.op == "rneg":
            return a.args[0]
        return self.mk("rneg", a)


# --------------------------------------------------------------------------
# random interpretation (Gulwani & Necula 2003): polynomial identities over
# the graph are decided by evaluation in a prime field at pseudo-random points

PRIME = (1 << 127) - 1


def _h(x, salt):
    import hashlib
    return int.from_bytes(hashlib.sha256(("%s|%s" % (salt, x)).encode()).digest()[:16], "big") % PRIME


def frac_mod(c):
    f = Fraction(c)
    return f.numerator % PRIME * pow(f.denominator, -1, PRIME) % PRIME


class Eval:
    """Evaluate nodes in the prime field.

    mode 'real' : roundings are independent unknowns, tails are exact differences
    mode 'ideal': every operation is exact
    `zero` : set of ids of tail-nodes known to be 0 (their operation was exact)
    `sub`  : id -> value overrides
    """

    def __init__(self, salt, mode="real", zero=(), sub=None):
        self.salt, self.mode = salt, mode
        self.zero = set(zero)
        self.memo = dict(sub or {})

    def __call__(self, n):
        if isinstance(n, bool):
            raise ValueError("bool")
        if isinstance(n, (float, int, Fraction)):
            return frac_mod(n)
        stack = [n]
        memo = self.memo
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            need = [a for a in self.deps(x) if isinstance(a, N) and a.id not in memo]
            if need:
                stack.extend(need)
                continue
            memo[x.id] = self.compute(x)
            stack.pop()
        return memo[n.id]

    def deps(self, x):
        if x.op in ("tail",):
            return [x.args[0]] + list(x.args[0].args)
        if x.op in ("leaf", "ileaf"):
            return []
        return x.args

    def v(self, a):
        return frac_mod(a) if not isinstance(a, N) else self.memo[a.id]

    def exact(self, x):
        if x.op == "add":
            return (self.v(x.args[0]) + self.v(x.args[1])) % PRIME
        if x.op == "mul":
            return self.v(x.args[0]) * self.v(x.args[1]) % PRIME
        raise ValueError(x.op)

    def compute(self, x):
        op = x.op
        if op in ("leaf", "ileaf"):
            return _h(x.args[0], self.salt)
        if op == "neg" or op == "rneg":
            return -self.v(x.args[0]) % PRIME
        if op in ("radd",):
            return (self.v(x.args[0]) + self.v(x.args[1])) % PRIME
        if op == "rmul":
            return self.v(x.args[0]) * self.v(x.args[1]) % PRIME
        if op in ("elem", "lam"):
            return self.v(x.args[0])
        if op == "est":
            return self.v(x.args[0]) if self.mode == "ideal" else _h("E%d" % self.v(x.args[0]), self.salt)
        if op in ("add", "mul"):
            e = self.exact(x)
            if self.mode == "ideal":
                return e
            t = x.g.tab.get(("tail", x.id))
            if t is not None and t.id in self.zero:
                return e
            vals = [self.v(a) for a in x.args]
            if op == "add" and 0 in vals:
                return e
            if op == "mul":
                if e == 0:
                    return 0
                if isinstance(x.args[1], float):
                    import math
                    m, _ = math.frexp(x.args[1])
                    if m == 0.5:
                        return e
                if any(isinstance(a, N) and a.op == "pow2" for a in x.args):
                    return e
            # round-to-nearest is an odd function of the exact value
            c = min(e, PRIME - e)
            r = _h("RN%d" % c, self.salt)
            return r if c == e else -r % PRIME
        if op == "tail":
            if self.mode == "ideal":
                return 0
            if x.id in self.zero:
                return 0
            y = x.args[0]
            return (self.exact(y) - self.v(y)) % PRIME
        if op == "hi":
            return _h("HI%d" % x.args[0].id, self.salt)
        if op == "lo":
            return (self.v(x.args[0]) - _h("HI%d" % x.args[0].id, self.salt)) % PRIME
        if op == "div" and self.mode == "ideal":
            return self.v(x.args[0]) * pow(self.v(x.args[1]), -1, PRIME) % PRIME
        return _h("O%d" % x.id, self.salt)


import os as _os
SALTS = tuple("%s/%s" % (_os.environ.get("VERIF_SEED", "1"), i) for i in "ab")


def identical(a, b, mode="real", zero=()):
    """a == b as polynomials (both graph nodes)"""
    return all(Eval(s, mode, zero)(a) == Eval(s, mode, zero)(b) for s in SALTS)

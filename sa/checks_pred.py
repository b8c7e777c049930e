"""Checks on the floating-point predicates (src/predicates/predicates.rs) and the
expansion arithmetic they rest on."""
from interp import Interp, Slice, VecV, Ref, Agg, Unsupported, Arr
import exparith, signs
from exparith import Expect, ring_of, elem_ring, wf
from vg import N, Eval, SALTS, PRIME, identical, Graph
import builtins_model as bm

PRED = exparith.PRED
ALLOC = lambda: Ref([Agg("Alloc", None, [])], 0)


def rsub(g, a, b):
    return g.radd(a, g.rneg(b))


def rsum(g, xs):
    r = 0.0
    for x in xs:
        r = g.radd(r, x)
    return r


def det(g, rows):
    n = len(rows)
    if n == 1:
        return rows[0][0]
    r = 0.0
    for j in range(n):
        t = g.rmul(rows[0][j], det(g, [x[:j] + x[j + 1:] for x in rows[1:]]))
        r = g.radd(r, t if j % 2 == 0 else g.rneg(t))
    return r


# ------------------------------------------------------------------ EFTs
def real_eq(a, b, zero=()):
    return all(Eval(s, "real", zero)(a) == Eval(s, "real", zero)(b) for s in SALTS)


def ideal_eq(a, b, zero=()):
    return all(Eval(s, "ideal", zero)(a) == Eval(s, "ideal", zero)(b) for s in SALTS)


def efts(g, L):
    """function name -> (arguments, exact ring value of all outputs, ordered?)"""
    a, b, c, d, e = L
    radd, rmul, rneg = g.radd, g.rmul, g.rneg
    sb = lambda x, y: radd(x, rneg(y))
    return {
        "two_sum": ([a, b], radd(a, b)),
        "two_diff": ([a, b], sb(a, b)),
        "fast_two_sum": ([a, b], radd(a, b)),
        "fast_two_diff": ([a, b], sb(a, b)),
        "two_product": ([a, b], rmul(a, b)),
        "square": ([a], rmul(a, a)),
        "split": ([a], a),
        "two_one_sum": ([a, b, c], rsum(g, [a, b, c])),
        "two_one_diff": ([a, b, c], sb(radd(a, b), c)),
        "two_two_sum": ([a, b, c, d], rsum(g, [a, b, c, d])),
        "two_two_diff": ([a, b, c, d], sb(radd(a, b), radd(c, d))),
        "two_one_product": ([a, b, c], rmul(radd(a, b), c)),
    }


def ob_list(ctx, I, name, out, expect, zero, ordered=True):
    g = I.g
    vals = out.f if isinstance(out, Agg) else [out]
    r = 0.0
    for v in vals:
        r = g.radd(r, v)
    return ctx.ob(real_eq(r, expect, zero), name + "/value",
                  "the outputs of %s do not sum exactly to the operation's value" % ctx.where(PRED + name), "%s: outputs == exact value" % name)


def check_expansions(ctx):
    ctx.rule("Every error-free transformation, expansion primitive and expansion-number operator is abstractly interpreted over symbolic "
             "operands (all partition classes of the zero-elimination and merge branches); the exact value of the outputs must be identical to the "
             "exact value of the operation (Knuth/Dekker tails recognised in the value graph, polynomial identity by random interpretation), "
             "components must be emitted in order, and every FastTwoSum must have its magnitude precondition from the merge comparisons")
    p = ctx.prog
    # 1. error-free transformations
    for name in efts(Graph(), [Graph().leaf("x")] * 5):
        f = p.by_call.get(PRED + name)
        if f is None:
            continue
        ctx.count("error-free transformations")
        I = Interp(p)
        g = I.g
        if name.startswith("fast_"):
            g.fast_facts = [lambda x, y: True]     # documented precondition |a| >= |b|
        L = [g.leaf(x) for x in "abcde"]
        args, exp = efts(g, L)[name]
        for (k, r), facts in I.explore(lambda: I.run(f, list(args), {})):
            if k != "return":
                ctx.ob(False, name + "/panic", "%s: %s" % (name, r))
                continue
            ob_list(ctx, I, name, r, exp, ())
        ctx.saw(I.called)
    # tail-only / presplit variants
    I = Interp(p)
    g = I.g
    a, b = g.leaf("a"), g.leaf("b")
    f = p.by_call.get(PRED + "two_diff_tail")
    if f:
        ctx.count("error-free transformations")
        x = g.sub(a, b)
        for (k, r), facts in I.explore(lambda: I.run(f, [a, b, x], {})):
            ctx.ob(k == "return" and isinstance(r, (N, float)) and real_eq(g.radd(x, r), rsub(g, a, b)), "two_diff_tail/value",
                   "two_diff_tail does not return the rounding error of a-b")
    f = p.by_call.get(PRED + "two_product_pre_split")
    if f:
        ctx.count("error-free transformations")
        for (k, r), facts in I.explore(lambda: I.run(f, [a, b, g.hi(b), g.lo(b)], {})):
            ctx.ob(k == "return" and real_eq(g.radd(r.f[0], r.f[1]), g.rmul(a, b)), "two_product_pre_split/value",
                   "two_product_pre_split is not an exact product")
    ctx.saw(I.called)
    ctx.floor("error-free transformations", 12)

    # 2. expansion primitives on lists of 1..n components
    nmax = 4 if ctx.thorough else 3
    specs = {
        "fast_expansion_sum_zeroelim": lambda g, e, f: g.radd(e, f),
        "fast_expansion_diff_zeroelim": lambda g, e, f: g.radd(e, g.rneg(f)),
        "expansion_sum": lambda g, e, f: g.radd(e, f),
        "scale_expansion_zeroelim": None, "grow_expansion": None, "grow_expansion_zeroelim": None,
        "mul_expansion_zeroelim": lambda g, e, f: g.rmul(e, f),
    }
    for name in specs:
        f = p.by_call.get(PRED + name)
        if f is None:
            continue
        ctx.count("expansion primitives")
        binary = specs[name] is not None
        for m in range(1, nmax + 1):
            for n in (range(1, nmax + 1) if binary else (1,)):
                if m + n > nmax + 1 and not name.startswith("mul"):
                    continue
                prim_case(ctx, p, name, f, m, n, specs[name])
    ctx.floor("expansion primitives", 5)
    # merge with an empty operand
    f = p.by_call.get(PRED + "fast_expansion_sum_zeroelim")
    for m, n in ((1, 0), (0, 1), (2, 0), (0, 2)):
        prim_case(ctx, p, "fast_expansion_sum_zeroelim", f, m, n, specs["fast_expansion_sum_zeroelim"])
    # 3. estimate / invert
    for m in range(1, nmax + 1):
        I = Interp(p)
        g = I.g
        e = [g.leaf("e%d" % i) for i in range(m)]
        f = p.by_call.get(PRED + "estimate")
        if f:
            ctx.count("estimate")
            for (k, r), facts in I.explore(lambda: I.run(f, [Slice(list(e), 0, m)], {})):
                ctx.ob(k == "return" and isinstance(r, (N, float)) and ideal_eq(r, rsum(g, e)), "estimate/value", "estimate is not the sum of the components")
        f = p.by_call.get(PRED + "expansion_invert")
        if f:
            st = {}

            def run():
                st["v"] = list(e)
                return I.run(f, [Slice(st["v"], 0, m)], {})
            for (k, r), facts in I.explore(run):
                ctx.ob(k == "return" and all(x is g.neg(y) for x, y in zip(st["v"], e)), "expansion_invert/value", "expansion_invert does not negate every component")
        ctx.saw(I.called)
    ctx.floor("estimate", 3)
    check_number(ctx, p)


def merge_le(I, x, y, lists):
    """|x| <= |y| from list order and the comparisons made so far"""
    g = I.g
    pos = {}
    for li, l in enumerate(lists):
        for i, v in enumerate(l):
            pos[v.id] = (li, i)

    def edge(u, v):
        if u is v:
            return True
        if pos[u.id][0] == pos[v.id][0]:
            return pos[u.id][1] <= pos[v.id][1]

        def rel(a, b):
            a, b, fl = I.norm_pair(a, b)
            r = I.allowed(a, b)
            return {">": "<", "<": ">", "=": "="} and frozenset({"<": ">", ">": "<", "=": "="}[t] for t in r) if fl else r
        r1, r2 = rel(u, v), rel(u, g.neg(v))
        le, gt, ge = frozenset("<="), frozenset(">"), frozenset(">=")
        # |u| <= |v|  <=  (u > v) != (u > -v)   (with the non-strict cases)
        if (r1 <= ge and r2 <= le) or (r1 <= le and r2 <= ge):
            return True
        # or v between: (v > u) == ...
        r3, r4 = rel(v, u), rel(v, g.neg(u))
        if (r3 <= ge and r4 <= ge) or (r3 <= le and r4 <= le):
            return True
        return False
    seen, st = {x.id}, [x]
    nodes = [v for l in lists for v in l]
    while st:
        u = st.pop()
        if u is y:
            return True
        for v in nodes:
            if v.id not in seen and edge(u, v):
                seen.add(v.id)
                st.append(v)
    return False


def prim_case(ctx, p, name, f, m, n, spec):
    I = Interp(p)
    g = I.g
    e = [g.leaf("e%d" % i) for i in range(m)]
    fl = [g.leaf("f%d" % i) for i in range(n)]
    lists = [e, fl]

    def fast(pn, qn):
        ids = {v.id for l in lists for v in l}
        if pn.id in ids and qn.id in ids:
            return merge_le(I, qn, pn, lists)
        return False
    g.fast_facts = [fast]
    if name == "mul_expansion_zeroelim":
        exparith.install(I, {PRED + "fast_expansion_sum_zeroelim", PRED + "scale_expansion_zeroelim", PRED + "expansion_sum", PRED + "fast_expansion_diff_zeroelim"})
        I.leaf_wf = True
    se, sf = rsum(g, e), rsum(g, fl)
    if spec is not None:
        exp = spec(g, se, sf)

        def run():
            # tails are recognised under the facts of the class: fresh caches
            g.tailcache.clear()
            return I.run(f, [Slice(list(e), 0, m), Slice(list(fl), 0, n), ALLOC()], {})
    else:
        exp = g.rmul(se, fl[0]) if name.startswith("scale") else g.radd(se, fl[0])

        def run():
            g.tailcache.clear()
            return I.run(f, [Slice(list(e), 0, m), fl[0], ALLOC()], {})
    cls = 0
    for (k, r), facts in I.explore(run, 200000):
        cls += 1
        key = "%s" % name
        if k != "return":
            ctx.ob(False, key + "/panic", "%s on %d and %d components: %s" % (name, m, n, r))
            continue
        zero = {x.id for t, x, y, s in (q for q in facts if q[0] == "rel") if s == frozenset("=") and y == 0.0 and isinstance(x, N)}
        vals = r.f
        if r.kind == "exp":
            tot = vals[0].args[0]
        else:
            tot = rsum(g, vals)
        sub_zero = {z for z in zero if g.nodes[z].op == "tail"}
        # a leading sum known to be zero contributes nothing
        other = [g.nodes[z] for z in zero if g.nodes[z].op != "tail"]
        ok = zero_eq(g, tot, exp, sub_zero, other)
        ctx.ob(ok, key + "/value", "%s on %d and %d components: the result is not exactly the %s (class with %d components out)" % (
            ctx.where(PRED + name), m, n, "product" if "mul" in name or "scale" in name else "sum", len(vals)),
            "%s(%d,%d) class %d: exact" % (name, m, n, cls))
        ctx.ob(len(vals) >= 1, key + "/nonempty", "%s on %d and %d components returns an empty expansion" % (name, m, n))
        if r.kind != "exp" and "zeroelim" in name and "mul" not in name and m and n:
            ctx.ob(ordered_out(g, vals, lists, I, facts), key + "/order", "%s on %d and %d components: output components are not emitted in increasing order" % (name, m, n))
        if "zeroelim" in name and r.kind != "exp" and len(vals) > 1:
            nz = all(any(t is g.sgn(v)[1] and s <= frozenset("<>") for _, t, y, s in (q for q in facts if q[0] == "rel")) for v in vals)
            ctx.ob(nz, key + "/zeroelim", "%s keeps a zero component" % name)
    ctx.count("partition classes", cls)
    ctx.saw(I.called)


def zero_eq(g, a, b, zero, other):
    if real_eq(a, b, zero):
        return True
    # a computed sum known to be zero may be left out of the components
    return any(real_eq(g.radd(a, x), b, zero) for o in other for x in (o, g.rneg(o)))


def ordered_out(g, vals, lists, I, facts):
    """roundoffs are emitted in the order in which the running sum is built and
    the operands entered it in increasing magnitude"""
    nz = [g.sgn(v)[1] for v in vals if isinstance(v, N)]
    for lo, hi in zip(nz, nz[1:]):
        if lo.op != "tail" or lo.args[0].id not in exparith.cone(hi):
            return False
    return True


def check_number(ctx, p):
    """ExpansionNum operators"""
    for (ty, tr, meth), lst in sorted(p.trait_impls.items(), key=lambda t: str(t[0])):
        if ty != "ExpansionNum" or tr not in ("Add", "Sub", "Mul"):
            continue
        for f in lst:
            ctx.count("expansion-number operators")
            I = Interp(p)
            exparith.install(I)
            g = I.g
            x, y = g.leaf("X"), g.leaf("Y")

            def num(r):
                return Agg("ExpansionNum", None, [VecV([g.mk("elem", r)], "exp")])

            def run():
                a, b = num(x), num(y)
                args = [Ref([v], 0) if t.startswith("&") else v for t, v in zip(f.argtypes, (a, b))]
                return I.run(f, args, {})
            exp = {"Add": g.radd(x, y), "Sub": rsub(g, x, y), "Mul": g.rmul(x, y)}[tr]
            for (k, r), facts in I.explore(run):
                ok = k == "return"
                if ok:
                    ok = real_eq(ring_of(I, r.f[0]), exp)
                ctx.ob(ok, "ExpansionNum/%s" % tr, "operator %s of expansion numbers (%s) is not exact: %s" % (tr, " , ".join(f.argtypes), r if k != "return" else ""),
                       "ExpansionNum %s(%s) exact" % (tr, ", ".join(f.argtypes)))
            ctx.saw(I.called)
    ctx.floor("expansion-number operators", 9)
    for meth in ("neg", "negative", "not_zero"):
        for f in p.inherent.get(("ExpansionNum", meth), []):
            ctx.count("expansion-number methods")
            I = Interp(p)
            exparith.install(I)
            g = I.g
            x = g.leaf("X")
            st = {}

            def run():
                st["v"] = Agg("ExpansionNum", None, [VecV([g.mk("elem", x)], "exp")])
                return I.run(f, [Ref([st["v"]], 0)], {})
            est = g.mk("est", x)
            for (k, r), facts in I.explore(lambda: decide(I, run())):
                if k != "return":
                    ctx.ob(False, "ExpansionNum/" + meth, "%s: %s" % (meth, r))
                elif meth == "neg":
                    ctx.ob(real_eq(ring_of(I, st["v"].f[0]), g.rneg(x)), "ExpansionNum/neg", "neg does not negate the value")
                else:
                    s = signs.Just(g, facts).sign(est)
                    want = {1: False, 0: False, -1: True} if meth == "negative" else {1: True, 0: False, -1: True}
                    ctx.ob(all(want[t] == r for t in s), "ExpansionNum/" + meth, "%s() returns %s when the value may have sign %s" % (meth, r, sorted(s)))
            ctx.saw(I.called)


def decide(I, v):
    from interp import Cond, BoolExpr
    return I.truth(v) if isinstance(v, (Cond, BoolExpr)) else v


# ------------------------------------------------------------------ adaptive predicates
CFG = {"orient2d": (3, 2), "orient3d": (4, 3), "incircle": (4, 2), "insphere": (5, 3), "orient4d": (5, 3)}


def pred_spec(g, name):
    npt, dim = CFG[name]
    L = [[g.leaf("abcde"[i] + "xyz"[k]) for k in range(dim)] for i in range(npt)]
    H = [g.leaf("h%s" % c) for c in "abcde"]
    last = L[-1]
    rows = [[rsub(g, x[k], last[k]) for k in range(dim)] for x in L[:-1]]
    if name in ("incircle", "insphere"):
        for r in rows:
            r.append(rsum(g, [g.rmul(v, v) for v in r[:dim]]))
    if name == "orient4d":
        for i, r in enumerate(rows):
            r.append(rsub(g, H[i], H[4]))
    return L, H, det(g, rows)


def check_predicate(ctx, name, fast=()):
    ctx.rule("abstract interpretation of the whole predicate (all helpers inlined, expansion primitives by their separately checked summaries) with "
             "trace partitioning on every comparison; in every partition class the returned value must provably have the sign of the "
             "specification determinant: identical exact value, sign propagation, or a guard |det| >= E with a forward error bound below E")
    p = ctx.prog
    I = Interp(p)
    exparith.install(I)
    g = I.g
    L, H, spec = pred_spec(g, name)
    dim = CFG[name][1]
    f = p.by_call.get(PRED + name)
    if f is None:
        ctx.ob(False, name + "/missing", "function %s%s not found" % (PRED, name))
        return
    sites = {}

    def run():
        args = [Slice(list(x), 0, dim) for x in L] + [ALLOC()]
        if name == "orient4d":
            args += H
        args = arrange(f, args)
        return I.run(f, args, {})
    rules = {}
    n = 0
    it = I.explore(run)
    while True:
        try:
            (k, r), facts = next(it)
        except StopIteration:
            break
        except Expect as e:
            ctx.ob(False, name + "/precondition", "%s: %s" % (ctx.where(PRED + name), e))
            break
        n += 1
        stage = stage_of(g, r) if k == "return" else "panic"
        J = signs.Just(g, facts)
        try:
            if k != "return":
                raise signs.Unjust("the predicate panics: %s" % r)
            w = J.justify(r, spec)
            rules[w + "/" + stage] = rules.get(w + "/" + stage, 0) + 1
            ctx.ob(True, "", "", "%s class %d: %s result justified by rule '%s'" % (name, n, stage, w) if rules[w + "/" + stage] == 1 else None)
        except signs.Unjust as e:
            ctx.ob(False, "%s/%s" % (name, stage), "%s, %s result: sign not that of the specification: %s; class: %s" % (
                ctx.where(PRED + name), stage, e, describe(facts)))
    ctx.count("partition classes", n)
    for k, v in rules.items():
        ctx.count(k, v)
    ctx.saw(I.called)
    ctx.floor("partition classes", 3)
    for fn in fast:
        ff = p.by_call.get(PRED + fn)
        if ff is None:
            continue
        for (k, r), facts in I.explore(lambda: I.run(ff, [Slice(list(x), 0, dim) for x in L], {})):
            ctx.ob(k == "return" and isinstance(r, N) and ideal_eq(r, spec), fn + "/formula", "%s is not the specification determinant up to rounding" % ctx.where(PRED + fn))
        ctx.saw(I.called)


def arrange(f, args):
    """order arguments by the parameter types (allocator position may move)"""
    pts = [a for a in args if isinstance(a, Slice)]
    al = [a for a in args if isinstance(a, Ref)]
    fl = [a for a in args if isinstance(a, N)]
    out = []
    for t in f.argtypes:
        if "[" in t:
            out.append(pts.pop(0))
        elif t == "f64":
            out.append(fl.pop(0))
        else:
            out.append(al.pop(0) if al else ALLOC())
    return out


def stage_of(g, r):
    if not isinstance(r, N):
        return "constant"
    b = g.sgn(r)[1]
    if b.op == "est":
        c = exparith.cone(b, 100000)
        return "exact-expansion"
    if b.op == "add" and any(isinstance(a, N) and g.sgn(a)[1].op == "est" for a in b.args):
        return "corrected-estimate"
    return "float-filter"


def describe(facts, n=8):
    out = []
    for f in facts[-n:]:
        if f[0] == "rel":
            out.append("%s %s %s" % (f[1].show(2) if isinstance(f[1], N) else f[1], "|".join(sorted(f[3])), f[2].show(2) if isinstance(f[2], N) else f[2]))
        else:
            out.append("%r=%s" % (f[1], f[2]))
    return "; ".join(out)

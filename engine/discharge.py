"""Discharging obligations: sum lemmas, solver calls, time accounting."""
import time
import itertools
import z3
from sym import *
import sym

STATS = {'z3': 0.0, 'queries': 0}


LEM = {}


def mk(ante, concl):
    """an instance of a schema; its bound points (w) are arbitrary, so the antecedent may be proved on its own."""
    t = Implies(ante, concl)
    LEM[t.get_id()] = (t, ante, concl)
    return t


def range_in(rec, q):
    kind, a, b = rec[0], rec[1], rec[2]
    if kind == 'I':
        return And(Not(q < a), q < b)
    return sel(a, q)


def body_at(rec, q):
    return subst(rec[4], [(rec[3], q)])


def same_range(r1, r2):
    """condition for two sums to range over the same set (None if kinds differ)."""
    if r1[0] != r2[0] or r1[3].sort() != r2[3].sort():
        return None
    if r1[0] == 'I':
        return And(Eq(r1[1], r2[1]), Eq(r1[2], r2[2]))
    if r1[1].eq(r2[1]):
        return T
    w = fresh('w', r1[3].sort())
    # antecedent of an implication: an existential witness of a difference
    return Eq(sel(r1[1], w), sel(r2[1], w))


def sums_in(*ts):
    out = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        for n in consts(t):
            if n in SUMS and n not in out:
                out[n] = SUMS[n]
                stack.append(SUMS[n][4])
                stack.append(SUMS[n][1])
                if SUMS[n][2] is not None:
                    stack.append(SUMS[n][2])
    return out


def top_sums(*ts):
    out = {}
    for t in ts:
        for n in consts(t):
            if n in SUMS:
                out[n] = SUMS[n]
    return out


def lin_lemma(pairs, points=()):
    """sum_i a_i S_i = sum over distinct points of sum_i a_i b_i(p), when the
    combination of bodies vanishes elsewhere (schema SUM-LIN)."""
    recs = [(a, SUMS[s.decl().name()]) for a, s in pairs]
    r0 = recs[0][1]
    conds = []
    for _, r in recs[1:]:
        if r[0] != r0[0] or r[3].sort() != r0[3].sort() or r[4].sort() != r0[4].sort():
            return None
        if r[0] == 'I':
            conds.append(same_range(r0, r))
    w = fresh('w', r0[3].sort())
    so = r0[4].sort()
    zero = z3.IntVal(0) if so == IntS else z3.RealVal(0)
    S = r0[0] == 'S'

    def comb(q):
        t = None
        for a, r in recs:
            x = body_at(r, q)
            if S:
                x = If(range_in(r, q), x, zero)
            x = Mul(a, x)
            t = x if t is None else Add(t, x)
        return t
    inr = (lambda q: T) if S else (lambda q: range_in(r0, q))
    ante = Implies(And(inr(w), *[Not(Eq(w, p)) for p in points]), Eq(comb(w), zero))
    tot = zero
    for i, p in enumerate(points):
        c = And(inr(p), *[Not(Eq(p, o)) for o in points[:i]])
        tot = Add(tot, If(c, comb(p), zero))
    lhs = None
    for a, r in recs:
        x = Mul(a, r[5])
        lhs = x if lhs is None else Add(lhs, x)
    return mk(And(ante, *conds), Eq(lhs, tot))


def prefix_lemma(s):
    """(PS, facts): PS[0] = 0, PS[q+1] = PS[q] + body(q), S = PS[hi] (schema SUM-PREFIX, lower end 0)."""
    r = SUMS[s.decl().name()]
    assert r[0] == 'I' and is_zero(r[1])
    PS = fresh('PS', z3.ArraySort(IntS, r[4].sort()))
    q = fresh('q', IntS)
    zero = z3.IntVal(0) if r[4].sort() == IntS else z3.RealVal(0)
    return PS, [z3.Select(PS, 0) == zero,
                z3.ForAll(q, Implies(And(Not(q < 0), q < r[2]), z3.Select(PS, q + 1) == z3.Select(PS, q) + body_at(r, q)), patterns=[z3.Select(PS, q)]),
                s == z3.Select(PS, If(z3.IntVal(0) < r[2], r[2], z3.IntVal(0)))]


def mono_lemma(s1, s2):
    r1, r2 = SUMS[s1.decl().name()], SUMS[s2.decl().name()]
    c = same_range(r1, r2)
    if c is None:
        return None
    w = fresh('w', r1[3].sort())
    return mk(And(c, Implies(range_in(r1, w), Not(body_at(r2, w) < body_at(r1, w)))), Not(s2 < s1))


def nonneg_lemma(s, pts=()):
    r = SUMS[s.decl().name()]
    w = fresh('w', r[3].sort())
    zero = z3.IntVal(0) if r[4].sort() == IntS else z3.RealVal(0)
    ante = Implies(range_in(r, w), Not(body_at(r, w) < zero))
    concl = [Not(s < zero)] + [Implies(range_in(r, p), Not(s < body_at(r, p))) for p in pts]
    return mk(ante, And(*concl))


def pos_witness_lemma(s):
    """a positive sum of nonnegative terms has a positive term."""
    r = SUMS[s.decl().name()]
    w = fresh('w', r[3].sort())
    zero = z3.IntVal(0) if r[4].sort() == IntS else z3.RealVal(0)
    return Implies(zero < s, And(range_in(r, w), zero < body_at(r, w)))


def support_lemma(s1, s2):
    """same body on the intersection, zero outside it (schema SUM-SUPPORT), set sums."""
    r1, r2 = SUMS[s1.decl().name()], SUMS[s2.decl().name()]
    if r1[0] != 'S' or r2[0] != 'S' or r1[3].sort() != r2[3].sort():
        return None
    w = fresh('w', r1[3].sort())
    zero = z3.IntVal(0) if r1[4].sort() == IntS else z3.RealVal(0)
    a = If(range_in(r1, w), body_at(r1, w), zero)
    b = If(range_in(r2, w), body_at(r2, w), zero)
    return mk(Eq(a, b), Eq(s1, s2))


def reindex_lemma(si, ss, en, pos):
    """sum over positions of an enumeration = sum over the enumerated set
    (schema SUM-REINDEX); en: Int->K, pos: K->Int terms (functions)."""
    ri, rs = SUMS[si.decl().name()], SUMS[ss.decl().name()]
    if ri[0] != 'I' or rs[0] != 'S':
        return None
    i = fresh('w', IntS)
    k = fresh('w', rs[3].sort())
    ante = And(Implies(range_in(ri, i), And(range_in(rs, en(i)), Eq(pos(en(i)), i), Eq(body_at(ri, i), body_at(rs, en(i))))),
               Implies(range_in(rs, k), And(range_in(ri, pos(k)), Eq(en(pos(k)), k))))
    return mk(ante, Eq(si, ss))


def reindex_SS(s1, s2, f, g):
    """bijection between two set-indexed sums."""
    r1, r2 = SUMS[s1.decl().name()], SUMS[s2.decl().name()]
    i = fresh('w', r1[3].sort())
    k = fresh('w', r2[3].sort())
    ante = And(Implies(range_in(r1, i), And(range_in(r2, f(i)), Eq(g(f(i)), i), Eq(body_at(r1, i), body_at(r2, f(i))))),
               Implies(range_in(r2, k), And(range_in(r1, g(k)), Eq(f(g(k)), k))))
    return mk(ante, Eq(s1, s2))


def reindex2_lemma(so, ss, en, pp, pi):
    """sum over positions (p, i) of an array of arrays = sum over the set of its
    elements (schema SUM-REINDEX2); en: (p, i) -> k, pp/pi: k -> position."""
    ro, rs = SUMS[so.decl().name()], SUMS[ss.decl().name()]
    if ro[0] != 'I' or rs[0] != 'S':
        return None
    p, i = fresh('w', IntS), fresh('w', IntS)
    k = fresh('w', rs[3].sort())

    def inner(q):
        b = body_at(ro, q)
        ins = [SUMS[n] for n in top_sums(b)]
        return b, ins
    b, ins = inner(p)
    bk, ink = inner(pp(k))
    if not ins or not ink or any(r[0] != 'I' for r in ins + ink):
        return None
    tot, comb = None, None
    for r in ins:
        tot = r[5] if tot is None else Add(tot, r[5])
        comb = body_at(r, i) if comb is None else Add(comb, body_at(r, i))
    rng = And(range_in(ro, p), *[range_in(r, i) for r in ins])
    ante = And(Implies(range_in(ro, p), And(Eq(b, tot), *[same_range(ins[0], r) for r in ins[1:]])),
               Implies(rng, And(range_in(rs, en(p, i)), Eq(pp(en(p, i)), p), Eq(pi(en(p, i)), i), Eq(comb, body_at(rs, en(p, i))))),
               Implies(range_in(rs, k), And(range_in(ro, pp(k)), range_in(ink[0], pi(k)), Eq(en(pp(k), pi(k)), k))))
    return mk(ante, Eq(so, ss))


def quants(t, exists):
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda() and x.is_exists() == exists:
                out.append(x)
            continue
        stack.extend(x.children())
    return out


def witnesses(t, *ws):
    """instances of the quantifiers in t at the given terms (tautologies)."""
    out = []
    for w in ws:
        for ex in (True, False):
            for q in quants(t, ex):
                if q.num_vars() == 1 and q.var_sort(0) == w.sort():
                    b = norm(z3.substitute_vars(q.body(), w))
                    out.append(Implies(b, q) if ex else Implies(q, b))
    return out


def auto_lemmas(terms, limit=400):
    """pairwise congruence/monotonicity/support for the sums that occur."""
    ss = sums_in(*terms)
    out = []
    names = sorted(ss, key=lambda n: int(n.split('!')[1]))
    for n1, n2 in itertools.combinations(names, 2):
        r1, r2 = ss[n1], ss[n2]
        if r1[0] != r2[0] or r1[3].sort() != r2[3].sort() or r1[4].sort() != r2[4].sort():
            continue
        one = z3.IntVal(1) if r1[4].sort() == IntS else z3.RealVal(1)
        if r1[0] == 'S' and not r1[1].eq(r2[1]):
            l = support_lemma(r1[5], r2[5])
        else:
            l = lin_lemma([(one, r1[5]), (-one if r1[4].sort() == IntS else z3.RealVal(-1), r2[5])])
        if l is not None:
            out.append(l)
        if len(out) > limit:
            break
    return out


def links(terms):
    """FS[t] == SUM definitional links, and expansion of FS selects."""
    out = []
    for n, ls in LINKS.items():
        if n in SUMS:
            for l in ls:
                if not has_var(l):
                    out.append(Eq(l, SUMS[n][5]))
    return out


def skolem(goal):
    """strip universal quantifiers / implications of the goal: (hyps, goals)."""
    hyps = []
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [fresh('sk', goal.var_sort(i)) for i in range(goal.num_vars())]
            goal = norm(z3.substitute_vars(goal.body(), *reversed(vs)))
            continue
        if z3.is_implies(goal):
            hyps.append(goal.arg(0))
            goal = goal.arg(1)
            continue
        break
    return hyps, goal


def relevant(hyps, goal, rounds=6):
    """hypotheses connected to the goal by shared symbols."""
    names = set(deep_consts(goal))
    keep = []
    rest = [(h, deep_consts(h)) for h in hyps]
    for _ in range(rounds):
        nxt = []
        add = set()
        for h, c in rest:
            if c & names or not c:
                keep.append(h)
                add |= c
            else:
                nxt.append((h, c))
        rest = nxt
        if not add - names:
            break
        names |= add
    return keep


def solve(hyps, goal, lemmas=(), timeout=20000, auto=True, want_model=False):
    """returns ('proved'|'refuted'|'unknown'|'timeout', info)."""
    t0 = time.time()
    h2, goal = skolem(goal)
    hyps = list(hyps) + h2
    if z3.is_true(goal):
        return 'proved', 'trivial'
    lem = list(lemmas)
    if auto:
        lem += auto_lemmas([goal] + hyps)
    alls = hyps + lem
    ax = str_axioms() + [INF > z3.RealVal('1e300')]
    res = None
    for attempt, (tmo, seed) in enumerate(((timeout // 4, 0), (timeout, 7))):
        s = z3.Solver()
        s.set('timeout', tmo)
        s.set('random_seed', seed)
        if attempt == 1:
            s.set('smt.mbqi', False)
        s.add(*[h for h in alls if not z3.is_true(h)])
        s.add(*ax)
        s.add(*links(None))
        s.add(z3.Not(goal))
        r = s.check()
        STATS['queries'] += 1
        if r == z3.unsat:
            res = ('proved', 'z3')
            break
        if r == z3.sat:
            res = ('refuted', s.model() if want_model else 'sat')
            break
        why = s.reason_unknown()
        res = ('timeout' if 'timeout' in why or 'cancel' in why else 'unknown', why)
    STATS['z3'] += time.time() - t0
    return res


def count_cover(dom, sums):
    """indicators of disjoint subsets of dom whose counts add up to its cardinality cover it (schema COUNT-COVER)."""
    ks = dom.sort().domain()
    w, k = fresh('w', ks), fresh('k', ks)
    b = [body_at(SUMS[x.decl().name()], w) for x in sums]
    ante = z3.ForAll(w, Implies(sel(dom, w), And(*[Or(Eq(x, z3.IntVal(0)), Eq(x, z3.IntVal(1))) for x in b], z3.Sum(b) <= 1)))
    bk = [body_at(SUMS[x.decl().name()], k) for x in sums]
    return mk(ante, Implies(Eq(z3.Sum(list(sums)), card(dom)), Forall(k, Implies(sel(dom, k), z3.Sum(bk) == 1))))


def count_one(s):
    """an indicator that sums to one holds of one element only (schema COUNT-ONE)."""
    rec = SUMS[s.decl().name()]
    dom = rec[1]
    ks = dom.sort().domain()
    w, k, l = [fresh(x, ks) for x in 'wkl']
    ante = z3.ForAll(w, Implies(sel(dom, w), Or(Eq(body_at(rec, w), z3.IntVal(0)), Eq(body_at(rec, w), z3.IntVal(1)))))
    e = lambda x: And(sel(dom, x), Eq(body_at(rec, x), z3.IntVal(1)))
    return mk(ante, Implies(Eq(s, z3.IntVal(1)), And(Exists(k, e(k)), Forall([k, l], Implies(And(e(k), e(l)), Eq(k, l))))))


def nra(hyps, goal, timeout=10000):
    """a polynomial consequence: maximal non-arithmetic subterms are arbitrary reals; quotients q of n/d satisfy q*d == n."""
    memo, side, keep = {}, [], []
    AR = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS)

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        keep.append(x)
        if z3.is_rational_value(x):
            r = x
        elif z3.is_int_value(x):
            r = z3.RealVal(x.as_long())
        elif z3.is_app(x) and x.decl().kind() in AR:
            ch = [go(c) for c in x.children()]
            r = ch[0] if len(ch) > 1 else -ch[0]
            for c in ch[1:]:
                r = r + c if z3.is_app_of(x, z3.Z3_OP_ADD) else r * c if z3.is_app_of(x, z3.Z3_OP_MUL) else r - c
        elif z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            r = go(x.arg(0))
        elif z3.is_app_of(x, z3.Z3_OP_DIV):
            n, d = go(x.arg(0)), go(x.arg(1))
            r = fresh('quot', RealS)
            side.append(z3.Or(d == 0, r * d == n))
        else:
            r = fresh('leaf', RealS)
        memo[k] = r
        return r

    def atom(f):
        if z3.is_and(f) or z3.is_or(f) or z3.is_not(f):
            ch = [atom(c) for c in f.children()]
            return z3.And(*ch) if z3.is_and(f) else z3.Or(*ch) if z3.is_or(f) else z3.Not(ch[0])
        if z3.is_true(f) or z3.is_false(f):
            return f
        if z3.is_eq(f) and f.arg(0).sort() in (RealS, IntS):
            return go(f.arg(0)) == go(f.arg(1))
        ops = {z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_GT: lambda a, b: a > b, z3.Z3_OP_GE: lambda a, b: a >= b}
        if z3.is_app(f) and f.decl().kind() in ops:
            return ops[f.decl().kind()](go(f.arg(0)), go(f.arg(1)))
        return None
    hs = []
    for h in hyps:
        try:
            a = atom(h)
        except Exception:
            a = None
        if a is not None:
            hs.append(a)
    g = atom(goal)
    s = z3.Tactic('qfnra-nlsat').solver()
    s.set('timeout', timeout)
    s.add(*hs)
    s.add(*side)
    s.add(z3.Not(g))
    return s.check() == z3.unsat

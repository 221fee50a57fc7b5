"""Terms: sorts, array helpers, finite sums and substitution."""
import z3
z3.set_param('smt.random_seed', 0)

Ref = z3.DeclareSort('Ref')
Str = z3.DeclareSort('Str')
NULL = z3.Const('null', Ref)
INF = z3.Real('INF')
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
T, F = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    """A construct outside the verified subset: the function is out of reach."""


_cnt = {}


def fresh_name(p):
    _cnt[p] = _cnt.get(p, 0) + 1
    return '%s!%d' % (p, _cnt[p])


def fresh(p, sort):
    return z3.Const(fresh_name(p), sort)


def arr_sort(idx, s):
    for i in reversed(idx):
        s = z3.ArraySort(i, s)
    return s


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def Not(a):
    if z3.is_true(a):
        return F
    if z3.is_false(a):
        return T
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return F
        for y in (x.children() if z3.is_and(x) else [x]):
            if y.get_id() not in seen:
                seen.add(y.get_id())
                out.append(y)
    for y in out:
        if z3.is_not(y) and y.arg(0).get_id() in seen:
            return F
    if not out:
        return T
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return T
        for y in (x.children() if z3.is_or(x) else [x]):
            if y.get_id() not in seen:
                seen.add(y.get_id())
                out.append(y)
    for y in out:
        if z3.is_not(y) and y.arg(0).get_id() in seen:
            return T
    if not out:
        return F
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_not(c):
        return If(c.arg(0), b, a)
    if a.sort() == BoolS:
        if z3.is_true(a):
            return Or(c, b)
        if z3.is_false(a):
            return And(Not(c), b)
        if z3.is_true(b):
            return Or(Not(c), a)
        if z3.is_false(b):
            return And(c, a)
    # If(c, If(c,x,y), z) -> If(c,x,z)
    if is_ite(a) and a.arg(0).eq(c):
        a = a.arg(1)
    if is_ite(b) and b.arg(0).eq(c):
        b = b.arg(2)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def is_ite(t):
    return z3.is_app_of(t, z3.Z3_OP_ITE)


def Eq(a, b):
    if a.eq(b):
        return T
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    if a.sort() == BoolS:
        if z3.is_true(a):
            return b
        if z3.is_true(b):
            return a
        if z3.is_false(a):
            return Not(b)
        if z3.is_false(b):
            return Not(a)
    # If(c,1,0)==k patterns
    for x, y in ((a, b), (b, a)):
        if is_ite(x) and z3.is_int_value(y) and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
            p, q, k = x.arg(1).as_long(), x.arg(2).as_long(), y.as_long()
            if p != q:
                return x.arg(0) if k == p else Not(x.arg(0)) if k == q else F
    return a == b


def num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def Add(a, b):
    if num(a) and a.as_fraction() == 0 if z3.is_rational_value(a) else (z3.is_int_value(a) and a.as_long() == 0):
        return b
    if num(b) and b.as_fraction() == 0 if z3.is_rational_value(b) else (z3.is_int_value(b) and b.as_long() == 0):
        return a
    if num(a) and num(b):
        return z3.simplify(a + b)
    return a + b


def Sub(a, b):
    if num(a) and num(b):
        return z3.simplify(a - b)
    if is_zero(b):
        return a
    if a.eq(b):
        return z3.IntVal(0) if a.sort() == IntS else z3.RealVal(0)
    return a - b


def is_zero(t):
    return (z3.is_int_value(t) and t.as_long() == 0) or (z3.is_rational_value(t) and t.as_fraction() == 0)


def is_one(t):
    return (z3.is_int_value(t) and t.as_long() == 1) or (z3.is_rational_value(t) and t.as_fraction() == 1)


def Mul(a, b):
    if num(a) and num(b):
        return z3.simplify(a * b)
    if is_zero(a) or is_one(b):
        return a
    if is_zero(b) or is_one(a):
        return b
    return a * b


def toreal(t):
    if t.sort() == RealS:
        return t
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    if t.sort() == BoolS:
        return If(t, z3.RealVal(1), z3.RealVal(0))
    if is_ite(t):
        return If(t.arg(0), toreal(t.arg(1)), toreal(t.arg(2)))
    return z3.ToReal(t)


def trunc(t):
    """C++ double -> int conversion (truncation toward zero)."""
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_rational_value(t):
        f = t.as_fraction()
        import math
        return z3.IntVal(math.trunc(f))
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def floor_i(t):
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    return z3.ToInt(t)


newref = z3.Function('newref', IntS, IntS, Ref)           # object number n of allocation site k
seqof = z3.Function('seqof', Ref, IntS)
siteof = z3.Function('siteof', Ref, IntS)
tdiv = z3.Function('tdiv', IntS, IntS, IntS)        # truncating division, symbolic divisor


def tdiv_fact(a, b, q):
    """instance of the meaning of tdiv for a >= 0, b > 0."""
    return z3.Implies(z3.And(a >= 0, b > 0, q * b <= a, a < q * b + b), tdiv(a, b) == q)


def tdiv_bounds(a, b):
    d = tdiv(a, b)
    return z3.Implies(z3.And(a >= 0, b > 0), z3.And(d >= 0, d * b <= a, a < d * b + b))


def idiv(a, b):
    """C++ integer division truncates toward zero."""
    if num(a) and num(b) and b.as_long() != 0:
        q = abs(a.as_long()) // abs(b.as_long())
        return z3.IntVal(q if (a.as_long() < 0) == (b.as_long() < 0) else -q)
    if z3.is_int_value(b) and b.as_long() > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    return tdiv(a, b)


def imod(a, b):
    return a - b * idiv(a, b)


def sel(a, i):
    """select with eager read-over-write / beta / ite pushing."""
    while True:
        if z3.is_quantifier(a) and a.is_lambda():
            return subst_var0(a.body(), i)
        if z3.is_store(a):
            if a.num_args() == 3:
                if a.arg(1).eq(i):
                    return a.arg(2)
                if distinct_consts(a.arg(1), i):
                    a = a.arg(0)
                    continue
        if z3.is_const_array(a):
            return a.arg(0)
        break
    if is_ite(a):
        return If(a.arg(0), sel(a.arg(1), i), sel(a.arg(2), i))
    if z3.is_const(a) and a.decl().name() in SUMA:
        return suma_at(a, i)
    if z3.is_store(a):
        c = Eq(i, a.arg(1))
        if a.arg(2).sort().kind() != z3.Z3_ARRAY_SORT:
            return If(c, a.arg(2), sel(a.arg(0), i))
        return If(c, a.arg(2), sel(a.arg(0), i))
    return z3.Select(a, i)


def subst_var0(body, i):
    r = renorm(z3.substitute_vars(body, i))
    if i.sort() == IntS and has_div(body):
        r = destride(r)
    return r


_hasdiv = {}


def has_div(t):
    k = t.get_id()
    r = _hasdiv.get(k)
    if r is None:
        if z3.is_quantifier(t):
            v = has_div(t.body())
        else:
            v = z3.is_app_of(t, z3.Z3_OP_IDIV) or any(has_div(c) for c in t.children())
        _hasdiv[k] = r = (v, t)
    return r[0]


def destride(t):
    """(c*x + r) div c is x for numbers 0 <= r < c; comparisons of terms with a constant difference are decided."""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if z3.is_quantifier(x) and x.is_lambda() and x.num_vars() == 1:
            v = fresh('k', x.var_sort(0))
            b = z3.substitute_vars(x.body(), v)
            b2 = go(b)
            r = x if b2.eq(b) else lam(v, b2)
        elif z3.is_quantifier(x) or x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            r = None
            if z3.is_app_of(x, z3.Z3_OP_IDIV) and z3.is_int_value(ch[1]) and ch[1].as_long() > 1:
                c, a = ch[1].as_long(), ch[0]
                if z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args() == 2 and num(a.arg(1)):
                    a, d = a.arg(0), a.arg(1).as_long()
                elif z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args() == 2 and num(a.arg(0)):
                    a, d = a.arg(1), a.arg(0).as_long()
                else:
                    d = 0
                if 0 <= d < c and z3.is_app_of(a, z3.Z3_OP_MUL) and a.num_args() == 2 and num(a.arg(0)) and a.arg(0).as_long() == c:
                    r = a.arg(1)
            elif (z3.is_eq(x) or z3.is_app_of(x, z3.Z3_OP_LT)) and ch[0].sort() == IntS and (ch[0].eq(ch[1]) or has_arith(ch[0]) or has_arith(ch[1])):
                d = z3.simplify(ch[0] - ch[1])
                if num(d):
                    r = z3.BoolVal(d.as_long() == 0 if z3.is_eq(x) else d.as_long() < 0)
            elif z3.is_not(x):
                r = Not(ch[0])
            if r is None:
                r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else rebuild(x, ch)
        memo[k] = r
        return r
    return go(t)


def has_arith(t):
    return z3.is_app_of(t, z3.Z3_OP_ADD) or z3.is_app_of(t, z3.Z3_OP_MUL)


SUMA = {}     # array const name -> (param const, sum const of the param, array const)
LINKS = {}    # sum const name -> [array select terms equal to it]


def suma_at(a, i):
    ks, c, _ = SUMA[a.decl().name()]
    r = subst(c, [(ks[0], i)])
    if len(ks) > 1:
        return new_suma(list(ks[1:]), r)
    if z3.is_const(r) and r.decl().name() in SUMS:
        LINKS.setdefault(r.decl().name(), []).append(z3.Select(a, i))
    return r


_sumak = {}


def new_suma(ks, c):
    """the array lambda ks. c, for a term c that contains sums depending on ks."""
    # canonical parameter names so that equal arrays share a constant
    free = deep_consts(c)
    off = 0
    while any(('par!%s!%d' % (k.sort().name(), j + off)) in free for j, k in enumerate(ks)):
        off += 1
    cps = [z3.Const('par!%s!%d' % (k.sort().name(), j + off), k.sort()) for j, k in enumerate(ks)]
    tmp = [fresh('pt', k.sort()) for k in ks]
    c2 = subst(subst(c, list(zip(ks, tmp))), list(zip(tmp, cps)))
    key = (tuple(k.get_id() for k in cps), c2.get_id())
    if key not in _sumak:
        A = fresh('FS', arr_sort([k.sort() for k in cps], c2.sort()))
        SUMA[A.decl().name()] = (cps, c2, A)
        _sumak[key] = A
        _keep.append(c2)
    return _sumak[key]


def has_var(t):
    """contains a de Bruijn variable."""
    k = t.get_id()
    r = _hv.get(k)
    if r is not None:
        return r[1]
    if z3.is_var(t):
        v = True
    elif z3.is_quantifier(t):
        v = True          # conservative
    else:
        v = any(has_var(c) for c in t.children())
    _hv[k] = (t, v)
    return v


_hv = {}


def renorm(t):
    """expand Select(<sum array>, ground) subterms into sum constants."""
    if not (consts(t) & SUMA.keys()):
        return t
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if z3.is_quantifier(x) or not (consts(x) & SUMA.keys()) or x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if z3.is_select(x) and z3.is_const(ch[0]) and ch[0].decl().name() in SUMA and not has_var(ch[1]):
                r = suma_at(ch[0], ch[1])
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                r = rebuild(x, ch)
        memo[k] = r
        return r
    return go(t)


def rebuild(x, ch):
    if z3.is_and(x):
        return And(*ch)
    if z3.is_or(x):
        return Or(*ch)
    if is_ite(x):
        return If(*ch)
    if z3.is_app_of(x, z3.Z3_OP_ADD):
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return r
    if z3.is_app_of(x, z3.Z3_OP_MUL):
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    return x.decl()(*ch)


def lift_sums(bv, body):
    """replace sum constants whose record depends on bv by Select(array, bv)."""
    n = bv.decl().name()
    pairs = []
    for c in consts(body):
        if c in SUMS and n in deep_consts(SUMS[c][5]):
            pairs.append((SUMS[c][5], z3.Select(new_suma([bv], SUMS[c][5]), bv)))
        elif c in SUMA and n in deep_consts(SUMA[c][2]):
            ks, ck, A0 = SUMA[c]
            k2 = [fresh('p', k.sort()) for k in ks]
            pairs.append((A0, z3.Select(new_suma([bv] + k2, subst(ck, list(zip(ks, k2)))), bv)))
    if pairs:
        body = z3.substitute(body, *pairs)
    return body




def Forall(bvs, body, pats=None):
    if not isinstance(bvs, (list, tuple)):
        bvs = [bvs]
    if z3.is_true(body) or z3.is_false(body):
        return body
    bvs = [b for b in bvs if b.decl().name() in deep_consts(body)]
    if not bvs:
        return body
    for b in bvs:
        body = lift_sums(b, body)
    return z3.ForAll(bvs, body, patterns=pats or [])


def Exists(bvs, body):
    if not isinstance(bvs, (list, tuple)):
        bvs = [bvs]
    if z3.is_true(body) or z3.is_false(body):
        return body
    bvs = [b for b in bvs if b.decl().name() in deep_consts(body)]
    if not bvs:
        return body
    # one-point rule
    if len(bvs) == 1:
        b = bvs[0]
        for c in (body.children() if z3.is_and(body) else [body]):
            if z3.is_eq(c):
                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if x.eq(b) and b.decl().name() not in deep_consts(y):
                        rest = [d for d in (body.children() if z3.is_and(body) else [body]) if not d.eq(c)]
                        return And(*[subst(d, [(b, y)]) for d in rest])
        if z3.is_or(body):
            return Or(*[Exists(bvs, c) for c in body.children()])
    for b in bvs:
        body = lift_sums(b, body)
    return z3.Exists(bvs, body)


def distinct_consts(a, b):
    return num(a) and num(b) and not a.eq(b)


def sels(a, idx):
    for i in idx:
        a = sel(a, i)
    return a


def stores(a, idx, v):
    if not idx:
        return v
    i = idx[0]
    if len(idx) == 1:
        return store(a, i, v)
    return store(a, i, stores(sel(a, i), idx[1:], v))


def store(a, i, v):
    if z3.is_store(a) and a.num_args() == 3 and a.arg(1).eq(i):
        a = a.arg(0)
    # store(a,i,a[i]) = a
    if z3.is_select(v) and v.num_args() == 2 and v.arg(0).eq(a) and v.arg(1).eq(i):
        return a
    return z3.Store(a, i, v)


def lam(bv, body):
    # eta
    if z3.is_select(body) and body.num_args() == 2 and body.arg(1).eq(bv) and bv.decl().name() not in deep_consts(body.arg(0)):
        return body.arg(0)
    if bv.decl().name() not in deep_consts(body):
        return z3.K(bv.sort(), body)
    body = lift_sums(bv, body)
    if z3.is_select(body) and body.num_args() == 2 and body.arg(1).eq(bv) and bv.decl().name() not in deep_consts(body.arg(0)):
        return body.arg(0)
    return z3.Lambda([bv], body)


# ---------------------------------------------------------------------------
# finite sums.  A sum is a Real (or Int) constant with a hidden record:
#   ('I', lo, hi, bv, body)   sum over lo <= bv < hi
#   ('S', dom, None, bv, body) sum over { k | dom[k] } (finite by assumption)
# ---------------------------------------------------------------------------
SUMS = {}
_sumkey = {}
_consts_cache = {}


def consts(t):
    """set of names of uninterpreted constants (0-ary) in t (memo by id)."""
    k = t.get_id()
    r = _consts_cache.get(k)
    if r is not None:
        return r[1]
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _consts_cache.get(i)
        if c is not None:
            out |= c[1]
            continue
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                stack.extend(x.children())
    _consts_cache[k] = (t, out)
    return out


def deep_consts(t, memo=None):
    """consts, looking through sum records."""
    if memo is None:
        memo = {}
    out = set()
    for n in consts(t):
        out.add(n)
        if n in SUMA:
            if n not in memo:
                memo[n] = set()
                ks, c, _ = SUMA[n]
                memo[n] = deep_consts(c, memo) - {k.decl().name() for k in ks}
            out |= memo[n]
        if n in SUMS:
            if n not in memo:
                memo[n] = set()
                r = SUMS[n]
                s = set()
                for x in (r[1], r[2], r[4]):
                    if x is not None:
                        s |= deep_consts(x, memo)
                s.discard(r[3].decl().name())
                memo[n] = s
            out |= memo[n]
    return out


def sum_depth(t):
    d = 0
    for n in consts(t):
        if n in SUMS:
            r = SUMS[n]
            d = max(d, 1 + sum_depth(r[4]))
    return d


def mk_sum(kind, a, b, bv, body, raw=False):
    if is_zero(body):
        return z3.RealVal(0) if body.sort() == RealS else z3.IntVal(0)
    if kind == 'S' and not raw and num(body) and body.sort() == IntS and body.as_long() == 1:
        return card(a)                      # CARD-SUM
    # hoist a constant factor / split additive structure is left to the lemmas
    d = sum_depth(body) + 1
    cb = z3.Const('b%s!%d' % (bv.sort().name()[0], d), bv.sort())
    body2 = subst(body, [(bv, cb)])
    key = (kind, a.get_id(), b.get_id() if b is not None else 0, body2.get_id(), bv.sort().name())
    if key in _sumkey:
        return _sumkey[key]
    if kind == 'I' and num(a) and num(b) and b.as_long() - a.as_long() <= 4:
        tot = z3.RealVal(0) if body.sort() == RealS else z3.IntVal(0)
        for i in range(a.as_long(), b.as_long()):
            tot = Add(tot, subst(body, [(bv, z3.IntVal(i))]))
        return tot
    n = fresh_name('SUM')
    c = z3.Const(n, body2.sort())
    SUMS[n] = (kind, a, b, cb, body2, c)
    _sumkey[key] = c
    return c


def isum(lo, hi, f):
    bv = fresh('q', IntS)
    return mk_sum('I', lo, hi, bv, f(bv))


def ssum(dom, f, raw=False):
    ks = dom.sort().domain()
    bv = fresh('q', ks)
    return mk_sum('S', dom, None, bv, f(bv), raw)


def subst(t, pairs):
    """substitution that also rewrites sum records."""
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs:
        return t
    names = {a.decl().name() for a, b in pairs}
    dc = deep_consts(t)
    if not (names & dc):
        return t
    extra = []
    for n in consts(t):
        if n in SUMS:
            r = SUMS[n]
            if names & deep_consts(r[5]):
                kind, a, b, bv, body, c = r
                # avoid capture: rename bound var first
                nb = fresh('q', bv.sort())
                body1 = subst(body, [(bv, nb)])
                body1 = subst(body1, pairs)
                a1 = subst(a, pairs)
                b1 = subst(b, pairs) if b is not None else None
                extra.append((c, mk_sum(kind, a1, b1, nb, body1)))
    for n in consts(t):
        if n in SUMA and names & deep_consts(SUMA[n][2]):
            ks, c, A = SUMA[n]
            k2 = [fresh('p', k.sort()) for k in ks]
            c2 = subst(subst(c, list(zip(ks, k2))), pairs)
            extra.append((A, new_suma(k2, c2)))
    r = renorm(z3.substitute(t, *(pairs + extra)))
    return destride(r) if has_div(t) else r


_keep = []


def max_(a, b):
    # std::max(a,b): (a < b) ? b : a
    return If(a < b, b, a)


def min_(a, b):
    # std::min(a,b): (b < a) ? b : a
    return If(b < a, b, a)


def abs_(a):
    return If(a < 0, -a, a)


_lits = {}


def str_lit(s):
    if s not in _lits:
        _lits[s] = z3.Const('str:%d:%s' % (len(_lits), s[:20]), Str)
    return _lits[s]


def str_axioms():
    ls = list(_lits.values())
    return [z3.Distinct(*ls)] if len(ls) > 1 else []


str_concat = z3.Function('concat', Str, Str, Str)
str_less = z3.Function('str_less', Str, Str, BoolS)
CARD_ = {}


def card(dom):
    ks = dom.sort().domain()
    k = ks.name()
    if k not in CARD_:
        CARD_[k] = z3.Function('CARD_' + k, z3.ArraySort(ks, BoolS), IntS)
    return CARD_[k](dom)


def norm(t, _memo=None):
    """beta-reduce selects over lambdas/stores and renormalise bottom-up."""
    memo = {} if _memo is None else _memo

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(x):
            n = x.num_vars()
            vs = [z3.Const(fresh_name('nv'), x.var_sort(i)) for i in range(n)]
            b0 = z3.substitute_vars(x.body(), *reversed(vs))
            b = go(b0)
            if b.eq(b0):
                r = x
            elif x.is_lambda():
                r = lam(vs[0], b) if n == 1 else z3.Lambda(vs, b)
            elif x.is_forall():
                r = Forall(vs, b)
            else:
                r = Exists(vs, b)
        elif x.num_args() == 0:
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if z3.is_select(x) and len(ch) == 2 and (not z3.is_const(ch[0]) or ch[0].decl().name() in SUMA):
                s = sel(ch[0], ch[1])
                r = s
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            elif z3.is_not(x):
                r = Not(ch[0])
            elif z3.is_eq(x):
                r = Eq(ch[0], ch[1])
            else:
                r = rebuild(x, ch)
        memo[k] = (x, r)
        return r
    return go(t)


def msubst(t, pairs):
    """substitute constants (arrays by lambdas included), normalised, also inside sum records."""
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs:
        return t
    names = {a.decl().name() for a, b in pairs}
    memo_sum = {}

    def go(x):
        if not (names & deep_consts(x)):
            return x
        extra = []
        for n in consts(x):
            if n in SUMS and names & deep_consts(SUMS[n][5]):
                if n not in memo_sum:
                    kind, a, b, bv, body, c = SUMS[n]
                    nb = fresh('q', bv.sort())
                    body1 = go(subst(body, [(bv, nb)]))
                    memo_sum[n] = (c, mk_sum(kind, go(a), go(b) if b is not None else None, nb, body1))
                extra.append(memo_sum[n])
            elif n in SUMA and names & deep_consts(SUMA[n][2]):
                if n not in memo_sum:
                    ks, c, A = SUMA[n]
                    k2 = [fresh('p', k.sort()) for k in ks]
                    c2 = go(subst(c, list(zip(ks, k2))))
                    r = c2
                    for k in reversed(k2):
                        r = lam(k, r)
                    memo_sum[n] = (A, r)
                extra.append(memo_sum[n])
        return norm(z3.substitute(x, *(pairs + extra)))
    return go(t)

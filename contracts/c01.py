"""C01: linear-expression arithmetic is exact."""
from common import *

E = MC + 'Expression' + ID
V = MC + 'Variable' + ID


def binop(key, op):
    def unit(s):
        fs = [f for f in s.ir._fn.values() if f['key'] == key]
        if not fs:
            raise Missing(key)
        f = fs[0]
        st = State()
        a = operand(s, st, f['ps'][0]['t'], 'a')
        b = operand(s, st, f['ps'][1]['t'], 'b')
        va, vb = val_of(a), val_of(b)
        if op == '/':
            s.assume(Not(Eq(vb, z3.RealVal(0))))
        s.reach()
        r = s.call(st, f, None, [a[0], b[0]])
        sc = {'+': (1, 1), '-': (1, -1)}.get(op)
        if sc:
            want = va + vb if op == '+' else va - vb
            ca, cb = z3.RealVal(sc[0]), z3.RealVal(sc[1])
        elif op == '*':
            want = va * vb
            ca = vb if b[1] is None and b[2] is None else z3.RealVal(0)
            cb = va if a[1] is None and a[2] is None else z3.RealVal(0)
        else:
            want = va / vb
            ca, cb = 1 / vb, z3.RealVal(0)
        neg = lambda x: z3.RealVal(0) - x if num(x) else -x
        pts = [x[2] for x in (a, b) if x[2] is not None]
        eq_value(s, st, 'value of the result', r, [(z3.simplify(neg(ca)), a[1]), (z3.simplify(neg(cb)), b[1])], pts, want)
        no_throw(s)
    return unit


def assign_op(key, op):
    def unit(s):
        f = [f for f in s.ir._fn.values() if f['key'] == key]
        if not f:
            raise Missing(key)
        f = f[0]
        st = State()
        this = Loc(s.cls(MC + 'Expression'), 'self', '', [])
        sm0, c0 = meaning_parts(s, st, this)
        b = operand(s, st, f['ps'][0]['t'], 'b')
        vb = val_of(b)
        va = Add(sm0, c0)
        if op == '/':
            s.assume(Not(Eq(vb, z3.RealVal(0))))
        s.reach()
        s.call(st, f, this, [b[0]])
        one = z3.RealVal(1)
        if op == '+':
            want, ca, cb = va + vb, -one, -one
        elif op == '-':
            want, ca, cb = va - vb, -one, one
        elif op == '*':
            want, ca, cb = va * vb, -vb, None
        elif op == '/':
            want, ca, cb = va / vb, -1 / vb, None
        else:
            want, ca, cb = vb, None, -one
        ws = [(z3.simplify(c) if c is not None else None, x) for c, x in ((ca, sm0), (cb, b[1])) if c is not None and x is not None]
        eq_value(s, st, 'value after the operation', this, ws, [b[2]] if b[2] is not None else [], want)
        no_throw(s)
    return unit


def unary(name, neg):
    def unit(s):
        f = s.fn(E + '::operator' + name, 0)
        st = State()
        this = Loc(s.cls(MC + 'Expression'), 'self', '', [])
        sm, c = meaning_parts(s, st, this)
        r = s.call(st, f, this)
        k = -1 if neg else 1
        eq_value(s, st, 'value of the result', r, [(z3.RealVal(-k), sm)], [], k * (sm + c))
    return unit


def evaluate(s):
    f = s.fn(E + '::evaluate', 0)
    st = State()
    this = Loc(s.cls(MC + 'Expression'), 'self', '', [])
    val = s.get(st, s.ent(MC + 'Variable', s.ref('x')), '.m_value')
    dom, sens, con = [s.get(st, this, p) for p in ('.m_sensitivities?', '.m_sensitivities$', '.m_constant_value')]
    vals = s.ex.base(st, 'H:Variable', '.m_value', [Ref], val.sort())
    want = ssum(dom, lambda k: Mul(sel(sens, k), toreal(sel(vals, k))))
    r = s.call(st, f, this)
    rs = [SUMS[n][5] for n in D.top_sums(r)]
    lem = [D.lin_lemma([(z3.RealVal(1), x), (z3.RealVal(-1), want)]) for x in rs]
    s.ob('value is the sum of coefficient times value plus the constant', Eq(r, want + con), st, lemmas=[l for l in lem if l is not None], auto=False)


def substitute(s):
    f = s.fn(E + '::substitute', 2)
    st = State()
    this = Loc(s.cls(MC + 'Expression'), 'self', '', [])
    sm0, c0 = meaning_parts(s, st, this)
    x = s.ref('x')
    e = Loc(s.cls(MC + 'Expression'), 'e', '', [])
    sme, ce = meaning_parts(s, st, e)
    dom = s.get(st, this, '.m_sensitivities?')
    sens = s.get(st, this, '.m_sensitivities$')
    edom = s.get(st, e, '.m_sensitivities?')
    # the variable takes the value of the expression
    s.assume(Eq(sel(ASG, x), Add(sme, ce)), Not(sel(edom, x)))     # requires: the expression does not mention x
    s.reach()
    args = [x, e]
    pt = s.ir.types[f['ps'][0]['t']]
    s.call(st, f, this, args)
    smn, cn = meaning_parts(s, st, this)
    cx = If(sel(dom, x), sel(sens, x), z3.RealVal(0))
    l1 = [D.lin_lemma([(z3.RealVal(1), smn), (z3.RealVal(-1), sm0), (-cx, sme)], [x])] if is_sum(smn) else []
    s.ob('value preserved where the variable equals the expression', Eq(Add(smn, cn), Add(sm0, c0)), st, lemmas=l1, auto=False)
    s.ob('the variable is gone', Implies(Not(sel(edom, x)), Not(sel(s.get(st, this, '.m_sensitivities?'), x))), st, auto=False)
    no_throw(s)


def solve_(s):
    f = s.fn(E + '::solve', 1)
    st = State()
    this = Loc(s.cls(MC + 'Expression'), 'self', '', [])
    sm0, c0 = meaning_parts(s, st, this)
    x = s.ref('x')
    dom = s.get(st, this, '.m_sensitivities?')
    sens = s.get(st, this, '.m_sensitivities$')
    s.assume(sel(dom, x), Not(Eq(sel(sens, x), z3.RealVal(0))))
    cx = sel(sens, x)
    s.reach()
    r = s.call(st, f, this, [x])
    smr, cr = meaning_parts(s, st, r)
    lem = [D.lin_lemma([(cx, smr), (z3.RealVal(1), sm0)], [x])] if is_sum(smr) else []
    # x = solved form  ==> expression == 0
    s.ob('assigning the solved form to the variable satisfies the equation',
         Implies(Eq(sel(ASG, x), Add(smr, cr)), Eq(Add(sm0, c0), z3.RealVal(0))), st, lemmas=lem, auto=False)
    s.ob('the solved form does not mention the variable', Not(sel(r.d['.m_sensitivities?'], x)), st, auto=False)
    no_throw(s)


def bound(which):
    def unit(s):
        f = s.fn(E + '::' + which, 0)
        st = State()
        this = Loc(s.cls(MC + 'Expression'), 'self', '', [])
        sm, c = meaning_parts(s, st, this)
        dom = s.get(st, this, '.m_sensitivities?')
        x = s.ref('x')
        vloc = s.ent(MC + 'Variable', x)
        lb = s.get(st, vloc, '.m_lower_bound')
        ub = s.get(st, vloc, '.m_upper_bound')
        q = fresh('q', Ref)
        lbq = sel(s.ex.base(st, 'H:Variable', '.m_lower_bound', [Ref], lb.sort()), q)
        ubq = sel(s.ex.base(st, 'H:Variable', '.m_upper_bound', [Ref], ub.sort()), q)
        s.get(st, vloc, '.m_is_fixed'), s.get(st, vloc, '.m_value')
        fx = s.ex.base(st, 'H:Variable', '.m_is_fixed', [Ref], BoolS)
        vals = s.ex.base(st, 'H:Variable', '.m_value', [Ref], IntS)
        s.assume(Forall(q, Implies(sel(dom, q), And(Not(sel(ASG, q) < toreal(lbq)), Not(toreal(ubq) < sel(ASG, q)),
                                                   Implies(sel(fx, q), Eq(sel(ASG, q), toreal(sel(vals, q))))))))
        s.reach()
        r = s.call(st, f, this)
        rs = [SUMS[n][5] for n in D.top_sums(r)]
        lem = []
        for y in rs:
            lem.append(D.mono_lemma(y, sm) if which == 'lower_bound' else D.mono_lemma(sm, y))
        g = Not(Add(sm, c) < r) if which == 'lower_bound' else Not(r < Add(sm, c))
        s.ob('no assignment within bounds passes the computed %s' % which, g, st, lemmas=[l for l in lem if l is not None], auto=False)
        # tight: attained by the extreme assignment
        sens = s.get(st, this, '.m_sensitivities$')
        hi = which == 'upper_bound'
        best = ssum(dom, lambda k: Mul(sel(sens, k), toreal(If(sel(fx, k), sel(vals, k), If((z3.RealVal(0) < sel(sens, k)) if hi else (sel(sens, k) < 0),
                                                              sel(s.ex.base(st, 'H:Variable', '.m_upper_bound', [Ref], ub.sort()), k),
                                                              sel(s.ex.base(st, 'H:Variable', '.m_lower_bound', [Ref], lb.sort()), k))))))
        lem = [D.lin_lemma([(z3.RealVal(1), y), (z3.RealVal(-1), best)]) for y in rs]
        s.ob('the computed %s is attained' % which, Eq(r, Add(best, c)), st, lemmas=[l for l in lem if l is not None], auto=False)
    return unit


def fixed_term(s):
    f = s.fn(E + '::fixed_term_value', 0)
    st = State()
    this = Loc(s.cls(MC + 'Expression'), 'self', '', [])
    dom, sens, con = [s.get(st, this, p) for p in ('.m_sensitivities?', '.m_sensitivities$', '.m_constant_value')]
    vl = s.ent(MC + 'Variable', s.ref('x'))
    s.get(st, vl, '.m_value'), s.get(st, vl, '.m_is_fixed')
    vals = s.ex.base(st, 'H:Variable', '.m_value', [Ref], IntS)
    fx = s.ex.base(st, 'H:Variable', '.m_is_fixed', [Ref], BoolS)
    want = ssum(dom, lambda k: If(sel(fx, k), Mul(sel(sens, k), toreal(sel(vals, k))), z3.RealVal(0)))
    r = s.call(st, f, this)
    rs = [SUMS[n][5] for n in D.top_sums(r)]
    lem = [D.lin_lemma([(z3.RealVal(1), x), (z3.RealVal(-1), want)]) for x in rs]
    s.ob('sum over the fixed variables of coefficient times value', Eq(toreal(r), want), st, lemmas=[l for l in lem if l is not None], auto=False)


def erase(s):
    f = s.fn(E + '::erase', 1)
    st = State()
    this = Loc(s.cls(MC + 'Expression'), 'self', '', [])
    sm0, c0 = meaning_parts(s, st, this)
    dom = s.get(st, this, '.m_sensitivities?')
    sens = s.get(st, this, '.m_sensitivities$')
    x = s.ref('x')
    s.call(st, f, this, [x])
    smn, cn = meaning_parts(s, st, this)
    cx = If(sel(dom, x), Mul(sel(sens, x), sel(ASG, x)), z3.RealVal(0))
    lem = [D.lin_lemma([(z3.RealVal(1), smn), (z3.RealVal(-1), sm0)], [x])] if is_sum(smn) else []
    s.ob('erasing removes exactly that term', Eq(Add(smn, cn), sm0 + c0 - cx), st, lemmas=lem, auto=False)


def var_to_expr(s):
    f = s.fn(V + '::to_expression', 0)
    st = State()
    x = s.ref('x')
    r = s.call(st, f, s.ent(MC + 'Variable', x))
    eq_value(s, st, 'value of the variable as an expression', r, [], [x], sel(ASG, x))


def units(ir):
    us = [('Expression::evaluate', evaluate), ('Expression::substitute', substitute), ('Expression::solve', solve_),
          ('Expression::lower_bound', bound('lower_bound')), ('Expression::upper_bound', bound('upper_bound')),
          ('Expression::fixed_term_value', fixed_term), ('Expression::erase', erase), ('Variable::to_expression', var_to_expr),
          ('Expression::operator+()', unary('+', False)), ('Expression::operator-()', unary('-', True))]
    pre = 'printemps::model_component::operator'
    for f in ir._fn.values():
        k = f['key']
        m = re.match(re.escape(pre) + r'([-+*/])<', k)
        if m and 'expression_binary_operator' in f['file'] and len(f['ps']) == 2:
            us.append((k.replace('printemps::model_component::', ''), binop(k, m.group(1))))
        m = re.match(re.escape(NS + E) + r'::operator([-+*/]?)=(<|\()', k)
        if m and len(f['ps']) == 1 and f.get('body') and not f.get('dflt'):
            us.append((k.replace('printemps::model_component::', ''), assign_op(k, m.group(1))))
    return us

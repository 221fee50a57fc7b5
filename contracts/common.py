"""Shared specification vocabulary: the mathematical meaning of expressions."""
from spec import *
import discharge as D

MC = 'model_component::'
ASG = z3.Const('assignment', z3.ArraySort(Ref, RealS))      # an arbitrary assignment of the variables


def meaning_parts(s, st, e):
    """(sum constant or 0, constant) of an Expression value/location."""
    if isinstance(e, Loc):
        dom = s.get(st, e, '.m_sensitivities?')
        sens = s.get(st, e, '.m_sensitivities$')
        con = s.get(st, e, '.m_constant_value')
    else:
        dom, sens, con = e.d['.m_sensitivities?'], e.d['.m_sensitivities$'], e.d['.m_constant_value']
    return ssum(dom, lambda k: Mul(sel(sens, k), sel(ASG, k))), con


def is_sum(t):
    return z3.is_const(t) and t.decl().name() in SUMS


def operand(s, st, t, name):
    """fresh operand of parameter type t: (argument, [(coef, sum)], point terms [(coef, ref)], constant)."""
    ir = s.ir
    isref = ir.types[t]['k'] == 'ref'
    d = ir.deref(t)
    k = ir.kind(d)
    if k in ('int', 'real'):
        l = Loc(d, name, '', [])
        v = s.ex.load(st, l)
        return (l if isref else v), None, None, toreal(v)
    n = ir.short(ir.types[d])[len(NS):]
    if n == MC + 'Variable':
        r = z3.Const(name, Ref)
        return s.ex.ent(d, r), None, r, z3.RealVal(0)
    if n == MC + 'Expression':
        # an expression object of its own (not aliasing the others)
        l = Loc(d, name, '', [])
        sm, c = meaning_parts(s, st, l)
        return l, sm, None, c
    if n in (MC + 'VariableProxy', MC + 'ExpressionProxy'):
        l = Loc(d, name, '', [])
        vec = '.m_variables' if 'Variable' in n else '.m_expressions'
        # scalar proxy: exactly one element
        s.assume(Eq(s.ex.rd(st, name, vec + '#', [], [], IntS), z3.IntVal(1)))
        try:
            s.assume(Eq(s.ex.rd(st, name, '^0.m_number_of_elements', [], [], IntS), z3.IntVal(1)))
            s.leaf(d, '^0.m_number_of_elements')
        except Missing:
            pass
        s.leaf(d, vec + '@')
        r = s.ex.rd(st, name, vec + '@', [z3.IntVal(0)], [], Ref)
        if 'Variable' in n:
            return l, None, r, z3.RealVal(0)
        sm, c = meaning_parts(s, st, s.ex.ent(s.cls(MC + 'Expression'), r))
        return l, sm, None, c
    raise Missing('operand type ' + n)


def no_throw(s, name='no exception'):
    th = [And(*t) for t in s.last_throws]
    if th:
        s.ob(name, Not(Or(*th)))


def val_of(op):
    """mathematical value of an operand at ASG."""
    _, sm, r, c = op
    t = c
    if sm is not None:
        t = Add(sm, t)
    if r is not None:
        t = Add(sel(ASG, r), t)
    return t


def eq_value(s, st, name, res, want_sums, points, want):
    """obligation: meaning of res == want; want_sums: [(coef, sum)] making up want's sums."""
    sm, c = meaning_parts(s, st, res)
    got = Add(sm, c)
    lem = []
    pr = ([(z3.RealVal(1), sm)] if is_sum(sm) else []) + [(a, x) for a, x in want_sums if x is not None and is_sum(x)]
    if pr:
        l = D.lin_lemma(pr, points)
        if l is not None:
            lem.append(l)
    s.ob(name, Eq(got, want), st, lemmas=lem, auto=False)


# ---- the fixed-size sensitivity table, known by its contract ---------------------------------
class TableAt(Contract):
    """at(k): the stored value of k, 0 when k was not in the map given to setup."""
    name = 'FixedSizeHashMap::at'
    assumed = 'returns the value setup() stored for the key, 0 for other keys (decided under C16)'

    def apply(self, ex, st, fn, this, args):
        k = ex.load(st, args[0])
        if isinstance(k, Loc):
            k = ex.load(st, k)
        return ex.rd(st, this.root, this.path + '!tbl', list(this.idx) + [k], [], RealS)


class TableSetup(Contract):
    name = 'FixedSizeHashMap::setup'
    assumed = 'stores every pair of the map (decided under C16)'

    def apply(self, ex, st, fn, this, args):
        m = args[0]
        dom = ex.rd(st, m.root, m.path + '?', m.idx, [Ref], BoolS)
        val = ex.rd(st, m.root, m.path + '$', m.idx, [Ref], RealS)
        k = fresh('k', Ref)
        ex.wr(st, this.root, this.path + '!tbl', this.idx, z3.Lambda([k], If(sel(dom, k), sel(val, k), z3.RealVal(0))), [Ref], RealS)
        return None


class TableInit(Contract):
    name = 'FixedSizeHashMap::initialize'
    assumed = 'an empty table (decided under C16)'

    def apply(self, ex, st, fn, this, args):
        k = fresh('k', Ref)
        ex.wr(st, this.root, this.path + '!tbl', this.idx, z3.Lambda([k], z3.RealVal(0)), [Ref], RealS)
        return None


class TableCopy(Contract):
    name = 'FixedSizeHashMap copy'
    assumed = 'copies the table (decided under C16)'

    def matches(self, fn, ex):
        return len(fn['ps']) == 1 and 'FixedSizeHashMap' in ex.ir.types[ex.ir.deref(fn['ps'][0]['t'])]['s']

    def apply(self, ex, st, fn, this, args):
        o = args[0]
        ex.wr(st, this.root, this.path + '!tbl', this.idx, ex.rd(st, o.root, o.path + '!tbl', o.idx, [Ref], RealS), [Ref], RealS)
        return this


def tables(s):
    s.ex.abstract['FixedSizeHashMap'] = [('!tbl', [Ref], RealS)]
    names = {f['n'] for f in s.ir._fn.values() if '::FixedSizeHashMap<' in f['n']}
    for n in names:
        b = n.rsplit('::', 1)[-1]
        if 'Variable' in n:
            if b in ('operator=', 'FixedSizeHashMap'):
                s.use(n, TableCopy())
            elif b == 'at':
                s.use(n, TableAt())
            elif b == 'setup':
                s.use(n, TableSetup())
            elif b == 'initialize':
                s.use(n, TableInit())


SENSE = {'Less': 0, 'Equal': 1, 'Greater': 2}


def viol(sense, v):
    """violation of (v sense 0), sense as an Int term or number."""
    z = z3.RealVal(0)
    pos, neg = If(z < v, v, z), If(v < z, -v, z)
    if isinstance(sense, int):
        return {0: pos, 1: Add(pos, neg), 2: neg}[sense]
    return If(Eq(sense, z3.IntVal(0)), pos, If(Eq(sense, z3.IntVal(1)), Add(pos, neg), neg))


def margin(sense, v):
    z = z3.RealVal(0)
    pos, neg = If(z < v, v, z), If(v < z, -v, z)
    return If(Eq(sense, z3.IntVal(0)), neg, If(Eq(sense, z3.IntVal(1)), z, pos))

"""C06: candidate moves are legal, list every related constraint and keep the relation they come from."""
from common import *
import ground as GR
from c02 import E, V, C, M
I0, I1 = z3.IntVal(0), z3.IntVal(1)
R0 = z3.RealVal(0)
NB = 'neighborhood::'
VAR = 'H:Variable'


def rng(n, *xs):
    return And(*[And(Not(x < 0), x < n) for x in xs])


class Listed(Contract):
    """a helper of the generators known by its contract (decided by a unit of its own): a list of arbitrary contents."""

    def __init__(self, name, root):
        self.name, self.root = name, root

    def apply(self, ex, st, fn, this, args):
        return ex.load(st, Loc(ex.ir.deref(fn['rt']), self.root, '', []))


class Gen:
    """a move generator after setup()."""

    def __init__(self, s, name, helpers=True):
        self.s, self.name = s, name
        self.st = st = State()
        self.o = s.obj(NB + name, 'gen')
        f = s.fn(NB + name + ID + '::setup')
        if helpers:
            for h, r in (('extract_effective_constraint_ptrs', 'EFF'), ('convert_to_binomial_constraints', 'BIN'),
                         ('convert_to_trinomial_constraints', 'BIN'), ('extract_mutable_variable_ptrs', 'MUT')):
                s.use(NB + h, Listed(h, r))
        s.use(NB + 'Move' + ID + '::sort_and_unique_related_constraint_ptrs', SortUnique())
        self.args = [Loc(s.ir.deref(p['t']), 'ARG', '', []) for p in f['ps']]
        s.call(st, f, self.o, self.args)
        self.base = Loc(s.cls(NB + 'AbstractMoveGenerator'), 'gen', '^0', [])

    def uses(self, *names):
        for n in names:
            if n not in self.s.ex.used_contracts:
                raise Missing('%s no longer calls %s' % (self.name, n))

    def lst(self, root, path, sort, i, *more):
        return self.s.ex.rd(self.st, root, path, [i] + list(more), [], sort)

    def size(self, root):
        return self.s.ex.rd(self.st, root, '#', [], [], IntS)

    def update(self, st):
        """one call of the updater, for any values, availabilities and flags; arguments of the acceptance rules."""
        s = self.s
        for p, ks, so in s.ex.leaves(self.base.t):
            if p in ('.m_flags@', '.m_moves@.is_available'):
                s.put(st, self.base, p, fresh('any', z3.ArraySort(IntS, so)))
        f = s.fn(NB + 'AbstractMoveGenerator' + ID + '::update_moves', 5)
        self.acc = [fresh('accept', BoolS) for _ in range(3)]
        s.call(st, f, self.base, self.acc + [fresh('parallel', BoolS), fresh('threads', IntS)])

    def g(self, st, p):
        return self.s.get(st, self.base, p)

    def nmoves(self, st):
        return self.g(st, '.m_moves#')

    def nalt(self, st, m):
        return sel(self.g(st, '.m_moves@.alterations#'), m)

    def var(self, st, m, j):
        return sel(sel(self.g(st, '.m_moves@.alterations@.first'), m), j)

    def val(self, st, m, j):
        return sel(sel(self.g(st, '.m_moves@.alterations@.second'), m), j)

    def flag(self, st, m):
        return Not(Eq(sel(self.g(st, '.m_flags@'), m), I0))

    def avail(self, st, m):
        return sel(self.g(st, '.m_moves@.is_available'), m)

    def nrel(self, st, m):
        return sel(self.g(st, '.m_moves@.related_constraint_ptrs#'), m)

    def rel(self, st, m, p):
        return sel(sel(self.g(st, '.m_moves@.related_constraint_ptrs@'), m), p)

    # fields of a variable
    def v(self, st, r, p):
        return self.s.get(st, self.s.ent(MC + 'Variable', r), p)

    def within(self, st, m, j):
        x, y = self.var(st, m, j), self.val(st, m, j)
        return And(Not(y < self.v(st, x, '.m_lower_bound')), Not(self.v(st, x, '.m_upper_bound') < y))


class Heuristic(Contract):
    """a heuristic attribute of the move only."""
    def __init__(self, name, field):
        self.name, self.field = name, field
        self.assumed = 'Move::%s writes no more than .%s (run natively)' % (name, field)

    def apply(self, ex, st, fn, this, args):
        so = z3.RealSort() if self.field == 'overlap_rate' else IntS
        ex.wr(st, this.root, this.path + '.' + self.field, this.idx, fresh(self.field, so), [], so)
        return None


class SortUnique(Contract):
    """the same constraints, each once (decided by the unit Move::sort_and_unique_related_constraint_ptrs)."""
    name = 'sort_and_unique_related_constraint_ptrs'

    def apply(self, ex, st, fn, this, args):
        p = this.path + '.related_constraint_ptrs'
        n = ex.rd(st, this.root, p + '#', this.idx, [], IntS)
        old = ex.rd(st, this.root, p + '@', this.idx, [IntS], Ref)
        new, m = fresh('once', z3.ArraySort(IntS, Ref)), fresh('nonce', IntS)
        up, dn = fresh('UP', z3.ArraySort(IntS, IntS)), fresh('DN', z3.ArraySort(IntS, IntS))
        i, j = fresh('i', IntS), fresh('j', IntS)
        ex.facts += once_facts(n, old, m, new, lambda i: sel(up, i), lambda i: sel(dn, i), i, j)
        ex.wr(st, this.root, p + '@', this.idx, new, [IntS], Ref)
        ex.wr(st, this.root, p + '#', this.idx, m, [], IntS)
        return None


def once_facts(n, old, m, new, up, dn, i, j):
    return [Not(m < 0),
            Forall(i, Implies(rng(n, i), And(rng(m, up(i)), Eq(sel(new, up(i)), sel(old, i))))),
            Forall(i, Implies(rng(m, i), And(rng(n, dn(i)), Eq(sel(new, i), sel(old, dn(i)))))),
            Forall([i, j], Implies(And(rng(m, i, j), Eq(sel(new, i), sel(new, j))), Eq(i, j)))]


def sort_unique(s):
    st = State()
    o = s.obj(NB + 'Move', 'move')
    s.ex.sort_order = True
    n, old = s.get(st, o, '.related_constraint_ptrs#'), s.get(st, o, '.related_constraint_ptrs@')
    s.assume(Not(n < 0))
    st0 = st.copy()
    s.call(st, s.fn(NB + 'Move' + ID + '::sort_and_unique_related_constraint_ptrs', 0), o)
    m, new = s.get(st, o, '.related_constraint_ptrs#'), s.get(st, o, '.related_constraint_ptrs@')
    i, j, p, q = [fresh(x, IntS) for x in 'ijpq']
    s.reach(st)
    s.ob('size', Not(m < 0), st, auto=False)
    s.ob('every constraint is kept', Implies(rng(n, i), Z3Exists(q, And(rng(m, q), Eq(sel(new, q), sel(old, i))))), st, auto=False, ground=[i], rounds=4, depth=3)
    s.ob('no constraint is added', Implies(rng(m, i), Z3Exists(q, And(rng(n, q), Eq(sel(new, i), sel(old, q))))), st, auto=False, ground=[i], rounds=4, depth=3)
    s.ob('each is listed once', Implies(And(rng(m, i, j), i < j), Not(Eq(sel(new, i), sel(new, j)))), st, auto=False, ground=[i, j, Add(i, I1)], rounds=3, depth=3)
    for f in ('.alterations#', '.alterations@.first', '.alterations@.second', '.sense', '.is_available'):
        s.ob('unchanged ' + f, Eq(s.get(st, o, f), s.get(st0, o, f)), st, auto=False)


def plus(s):
    """the combination of two moves."""
    st = State()
    mt = s.cls(NB + 'Move')
    fs = [f for f in s.ir.find(NS + NB + 'operator+', 2) if all('neighborhood::Move<' in s.ir.types[p['t']]['s'] for p in f['ps'])]
    if len(fs) != 1:
        raise Missing('operator+ of moves')
    s.use(NB + 'Move' + ID + '::sort_and_unique_related_constraint_ptrs', SortUnique())
    for n, f in (('setup_overlap_rate', 'overlap_rate'), ('setup_hash', 'hash')):
        s.use(NB + 'Move' + ID + '::' + n, Heuristic(n, f))
    a, b = Loc(mt, 'MA', '', []), Loc(mt, 'MB', '', [])
    g = lambda o, p: s.get(st, o, p)
    n1, n2, r1, r2 = g(a, '.alterations#'), g(b, '.alterations#'), g(a, '.related_constraint_ptrs#'), g(b, '.related_constraint_ptrs#')
    s.assume(*[Not(x < 0) for x in (n1, n2, r1, r2)])
    r = s.call(st, fs[0], None, [a, b])
    i, q, p, p2 = [fresh(x, IntS) for x in ('i', 'q', 'p', 'p')]
    s.reach(st)
    s.ob('all alterations of both', Eq(r.d['.alterations#'], Add(n1, n2)), st, auto=False)
    for f in ('first', 'second'):
        k = '.alterations@.' + f
        s.ob('the alterations are those of the two moves (%s)' % f, Implies(rng(r.d['.alterations#'], i), Eq(sel(r.d[k], i), If(i < n1, sel(g(a, k), i), sel(g(b, k), i - n1)))), st, auto=False)
    if 'sort_and_unique_related_constraint_ptrs' not in s.ex.used_contracts:
        raise Missing('operator+ no longer sorts')
    up = [t for f in s.ex.facts for t in sub_consts(f) if t.decl().name().startswith('UP!')]
    at = [q, Add(q, r1), Add(q, r2)]
    wit = [sel(u, x) for u in {t.decl().name(): t for t in up}.values() for x in at]
    R = '.related_constraint_ptrs'
    for nm, o, n in (('first', a, r1), ('second', b, r2)):
        c = sel(g(o, R + '@'), q)
        s.ob('constraints of the %s move are listed' % nm, Implies(rng(n, q), Z3Exists(p, And(rng(r.d[R + '#'], p), Eq(sel(r.d[R + '@'], p), c)))), st, auto=False, ground=at + wit, rounds=2)
    s.ob('none twice', Implies(And(rng(r.d[R + '#'], p, p2), Not(Eq(p, p2))), Not(Eq(sel(r.d[R + '@'], p), sel(r.d[R + '@'], p2)))), st, auto=False, ground=[p, p2])


def legality(name, bound=True, fixed=True, avail=True):
    """whatever the moves are: a flagged one is available, alters no fixed variable and stays within the bounds."""
    def unit(s):
        G = Gen(s, name)
        py, env = dict(G.st.py), dict(G.st.env)
        del s.ex.facts[:]
        del s.ex.lossy[:]                 # only the closure is used
        st = State()                      # arbitrary moves and captures
        st.py, st.env = py, env
        G.update(st)
        m, j = fresh('m', IntS), fresh('j', IntS)
        s.reach(st)
        pre = And(rng(G.nmoves(st), m), G.flag(st, m))
        mv = lambda n, goal: s.ob(n, Implies(pre, goal), st, auto=False, ground=[m, j])
        pj = rng(G.nalt(st, m), j)
        if avail:
            mv('an offered move is available', G.avail(st, m))
        if fixed:
            mv('an offered move alters no fixed variable', Implies(pj, Not(G.v(st, G.var(st, m, j), '.m_is_fixed'))))
        if bound:
            mv('an offered move stays within the bounds', Implies(pj, G.within(st, m, j)))
        s.ob('a flag is 0 or 1', Implies(rng(G.nmoves(st), m), Or(Eq(sel(G.g(st, '.m_flags@'), m), I0), Eq(sel(G.g(st, '.m_flags@'), m), I1))), st, auto=False, ground=[m])
        s.ob('the number of moves is unchanged', And(Eq(G.nmoves(st), G.nmoves(State())), Eq(G.g(st, '.m_flags#'), G.g(State(), '.m_flags#'))), st, auto=False)
        r = fresh('x', Ref)
        s.ob('no variable is changed', And(*[Eq(G.v(st, r, p), G.v(State(), r, p)) for p in ('.m_value', '.m_is_fixed', '.m_lower_bound', '.m_upper_bound')]), st, auto=False)
    return unit


def related(G, s, st, m, i, vs, tag):
    """every constraint related to an altered variable is listed; none twice."""
    q, p, p2 = fresh('q', IntS), fresh('p', IntS), fresh('p', IntS)
    G.uses('sort_and_unique_related_constraint_ptrs')
    ns = [G.v(st, x, '.m_extension*.related_constraint_ptrs#') for x in vs]
    s.assume(*[Not(n < 0) for n in ns])
    offs = [I0, ns[0], ns[1]]                      # positions of the concatenated lists
    for n in ns[1:-1]:
        offs.append(Add(offs[-1] if len(ns) > 3 else ns[0], n))
    at = [Add(o, q) for o in offs]
    wit = [sel(sel(u, i), x) for u in ups(s) for x in at]
    for k, x in enumerate(vs):
        c = sel(G.v(st, x, '.m_extension*.related_constraint_ptrs@'), q)
        goal = Z3Exists(p, And(rng(G.nrel(st, m), p), Eq(G.rel(st, m, p), c)))
        s.ob('constraints of altered variable %d are listed (move %s)' % (k, tag), Implies(rng(ns[k], q), goal), st, auto=False, ground=[i] + at + wit, rounds=2)
    s.ob('no constraint is listed twice (move %s)' % tag, Implies(And(rng(G.nrel(st, m), p, p2), Not(Eq(p, p2))), Not(Eq(G.rel(st, m, p), G.rel(st, m, p2)))), st, auto=False, ground=[i, p, p2], rounds=2)


def ups(s):
    """the position functions of the de-duplicated lists, one per iteration."""
    out = {}
    for f in s.ex.facts:
        for t in sub_consts(f):
            if t.decl().name().startswith('UP!') and t.sort().domain() == IntS and t.sort().range().kind() == z3.Z3_ARRAY_SORT:
                out[t.decl().name()] = t
    return list(out.values())


def sub_consts(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        yield from sub_consts(t.body(), seen)
        return
    if z3.is_const(t) and t.sort().kind() == z3.Z3_ARRAY_SORT and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        yield t
    for c in t.children():
        yield from sub_consts(c, seen)


def Z3Exists(v, f):
    return z3.Exists([v], f)


def relation(name, k, spec):
    """the moves of a two-variable relation: k per constraint."""
    def unit(s):
        G = Gen(s, name)
        G.uses('extract_effective_constraint_ptrs', 'convert_to_binomial_constraints')
        st = G.st
        n = G.size('BIN')
        i = fresh('i', IntS)
        s.assume(rng(n, i), Eq(G.size('EFF'), n))
        b = lambda p, so: G.lst('BIN', '@.' + p, so, i)
        x1, x2 = b('variable_ptr_first', Ref), b('variable_ptr_second', Ref)
        a1, a2, c = b('sensitivity_first', RealS), b('sensitivity_second', RealS), b('constant_value', RealS)
        sense = b('sense', IntS)
        # convert_to_binomial_constraints: the fields of the i-th constraint (a unit of its own)
        con = s.ent(MC + 'Constraint', G.lst('EFF', '@', Ref, i))
        dom, sens = s.get(st, con, '.m_expression.m_sensitivities?'), s.get(st, con, '.m_expression.m_sensitivities$')
        s.assume(Eq(s.get(st, con, '.m_expression.m_constant_value'), c), Not(Eq(x1, x2)), Not(Eq(a1, R0)), Not(Eq(a2, R0)))
        s.assume(sel(dom, x1), sel(dom, x2), Eq(sel(sens, x1), a1), Eq(sel(sens, x2), a2))
        s.assume(*spec.get('label', lambda *a: [])(a1, a2, c, sense))
        if spec.get('binary'):
            for x in (x1, x2):
                s.assume(Eq(G.v(st, x, '.m_lower_bound'), I0), Eq(G.v(st, x, '.m_upper_bound'), I1))
        key = s.get(st, con, '.m_key_variable_ptr')
        s.reach(st)
        s.ob('number of moves and flags', And(Eq(G.nmoves(st), Mul(z3.IntVal(k), n)), Eq(G.g(st, '.m_flags#'), Mul(z3.IntVal(k), n))), st, auto=False)
        ms = [Add(Mul(z3.IntVal(k), i), z3.IntVal(w)) if w else Mul(z3.IntVal(k), i) for w in range(k)]
        two = lambda m: And(Eq(G.nalt(st, m), z3.IntVal(2)), Or(And(Eq(G.var(st, m, I0), x1), Eq(G.var(st, m, I1), x2)), And(Eq(G.var(st, m, I0), x2), Eq(G.var(st, m, I1), x1))))
        for w, m in enumerate(ms):
            s.ob('move %d alters the two variables' % w, two(m), st, auto=False)
            related(G, s, st, m, i, [x1, x2], w)
        v = lambda x: G.v(st, x, '.m_value')
        G.update(st)
        base = list(s.hyp)
        for w, m in enumerate(ms):
            s.ob('move %d still alters the two variables' % w, two(m), st, auto=False)
            # the relation may name one of the two as its key: either
            for tag, case in (('', T),) if not spec.get('keyed') else ((' (first is the key)', Eq(key, x1)), (' (second is the key)', Eq(key, x2))):
                s.hyp[:] = base + ([case] if not z3.is_true(case) else [])
                o0 = s.resolve(G.var(st, m, I0), st)
                swap = o0.eq(x2)
                if not swap and not o0.eq(x1):
                    raise Unsupported('order of the altered variables')
                y = [G.val(st, m, I0), G.val(st, m, I1)]
                y1, y2 = (y[1], y[0]) if swap else (y[0], y[1])
                e = lambda u, w: Add(Add(Mul(a1, toreal(u)), Mul(a2, toreal(w))), c)
                spec['goal'](s, G, st, 'move %d%s' % (w, tag), (w < 2) != swap, e, y1, y2, v(x1), v(x2), sense, a1, a2, c)
        s.hyp[:] = base
    return unit


def to_ints(t, out=None, seen=None):
    """the real numbers truncated or floored inside t."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if t.get_id() not in seen and not z3.is_quantifier(t):
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_TO_INT):
            out.append(t.arg(0))
        for c in t.children():
            to_ints(c, out, seen)
    return out


def kept(s, G, st, tag, first, e, y1, y2, v1, v2, sense, a1, a2, c):
    """the relation holds after the move, whenever an integer completes it."""
    z = fresh('z', IntS)
    y1, y2 = s.resolve(y1, st), s.resolve(y2, st)
    done = Eq(e(y1, z), R0) if first else Eq(e(z, y2), R0)
    zr = z3.ToReal(z)
    qf = [h for h in s.hyp if not GR.has_q(h)]
    facts = []
    for t in to_ints(y2 if first else y1):
        for cand in (zr, -zr, zr + z3.RealVal('1/2'), -zr + z3.RealVal('1/2')):
            if D.nra(qf + [done], Eq(t, cand)):
                facts.append(Implies(done, Eq(t, cand)))
                break
    goal = Eq(y2, z) if first else Eq(y1, z)
    if s.ob(tag + ' completes the relation (any completing integer is the one written)', Implies(done, goal), st, auto=False, extra=facts):
        s.ob(tag + ' keeps the relation when an integer completes it', Implies(And(done, goal), Eq(e(y1, y2), R0)), st, auto=False)


def same_slack(s, G, st, tag, first, e, y1, y2, v1, v2, sense, a1, a2, c):
    y1, y2 = s.resolve(y1, st), s.resolve(y2, st)
    goal = Eq(e(y1, y2), e(v1, v2))
    if D.nra([h for h in s.hyp if not GR.has_q(h)], goal):
        s.ob(tag + ' leaves the violation as it is', goal, st, auto=False, extra=[goal])
    else:
        s.ob(tag + ' leaves the violation as it is', goal, st, auto=False)


def bound_kept(s, G, st, tag, first, e, y1, y2, v1, v2, sense, a1, a2, c):
    """the inequality holds after the move."""
    base = list(s.hyp)
    a = a2 if first else a1
    for sn, good in ((SENSE['Less'], lambda x: Not(R0 < x)), (SENSE['Greater'], lambda x: Not(x < R0))):
        for sg, case in (('positive', R0 < a), ('negative', a < R0)):
            s.hyp[:] = base + [Eq(sense, z3.IntVal(sn)), case]
            u1, u2 = s.resolve(y1, st), s.resolve(y2, st)
            goal = good(e(u1, u2))
            fl = []
            for t in to_ints(u2 if first else u1):
                f = z3.ToReal(z3.ToInt(t))
                fl += [Not(t < f), t < f + 1]
            ok = D.nra([h for h in s.hyp if not GR.has_q(h)] + fl, goal)
            s.ob('%s satisfies the bound (sense %d, coefficient %s)' % (tag, sn, sg), goal, st, auto=False, extra=[goal] if ok else fl)
    s.hyp[:] = base


def trinomial(s):
    G = Gen(s, 'TrinomialExclusiveNorMoveGenerator')
    G.uses('extract_effective_constraint_ptrs', 'convert_to_trinomial_constraints')
    st = G.st
    n = G.size('BIN')
    i = fresh('i', IntS)
    s.assume(rng(n, i), Eq(G.size('EFF'), n))
    b = lambda p, so: G.lst('BIN', '@.' + p, so, i)
    xs = [b('variable_ptr_' + q, Ref) for q in ('first', 'second', 'third')]
    As = [b('sensitivity_' + q, RealS) for q in ('first', 'second', 'third')]
    c = b('constant_value', RealS)
    # the label: two equal coefficients and one of minus their sum, no constant
    s.assume(Eq(c, R0), Eq(Add(Add(As[0], As[1]), As[2]), R0))
    s.reach(st)
    s.ob('number of moves and flags', And(Eq(G.nmoves(st), Mul(z3.IntVal(2), n)), Eq(G.g(st, '.m_flags#'), Mul(z3.IntVal(2), n))), st, auto=False)
    ms = [Mul(z3.IntVal(2), i), Add(Mul(z3.IntVal(2), i), I1)]
    three = lambda m: And(Eq(G.nalt(st, m), z3.IntVal(3)), *[Eq(G.var(st, m, z3.IntVal(j)), x) for j, x in enumerate(xs)])
    for w, m in enumerate(ms):
        s.ob('move %d alters the three variables' % w, three(m), st, auto=False)
        related(G, s, st, m, i, xs, w)
    G.update(st)
    for w, m in enumerate(ms):
        s.ob('move %d still alters the three variables' % w, three(m), st, auto=False)
        y = [s.resolve(G.val(st, m, z3.IntVal(j)), st) for j in range(3)]
        s.ob('move %d keeps the relation' % w, Eq(Add(Add(Add(Mul(As[0], toreal(y[0])), Mul(As[1], toreal(y[1]))), Mul(As[2], toreal(y[2]))), c), R0), st, auto=False)


def two_flip(s):
    G = Gen(s, 'TwoFlipMoveGenerator')
    st = G.st
    n = G.size('ARG')
    i = fresh('i', IntS)
    s.assume(rng(n, i))
    xs = [G.lst('ARG', '@.first', Ref, i), G.lst('ARG', '@.second', Ref, i)]
    for x in xs:
        s.assume(Eq(G.v(st, x, '.m_lower_bound'), I0), Eq(G.v(st, x, '.m_upper_bound'), I1))
    s.reach(st)
    s.ob('number of moves and flags', And(Eq(G.nmoves(st), Mul(z3.IntVal(2), n)), Eq(G.g(st, '.m_flags#'), Mul(z3.IntVal(2), n))), st, auto=False)
    ms = [Mul(z3.IntVal(2), i), Add(Mul(z3.IntVal(2), i), I1)]
    pair = lambda m: And(Eq(G.nalt(st, m), z3.IntVal(2)), *[Eq(G.var(st, m, z3.IntVal(j)), x) for j, x in enumerate(xs)])
    for w, m in enumerate(ms):
        s.ob('move %d alters the pair' % w, pair(m), st, auto=False)
        related(G, s, st, m, i, xs, w)
    G.update(st)
    for w, m in enumerate(ms):
        s.ob('move %d still alters the pair' % w, pair(m), st, auto=False)
        s.ob('move %d stays within the bounds' % w, And(G.within(st, m, I0), G.within(st, m, I1)), st, auto=False)


def univariable(name, k):
    """moves of one variable each: binary flips and integer steps."""
    def unit(s):
        G = Gen(s, name)
        G.uses('extract_mutable_variable_ptrs')
        st = G.st
        n = G.size('MUT')
        i, q = fresh('i', IntS), fresh('q', IntS)
        s.assume(rng(n, i))
        x = G.lst('MUT', '@', Ref, i)
        lb, ub, v = [G.v(st, x, p) for p in ('.m_lower_bound', '.m_upper_bound', '.m_value')]
        s.assume(Not(v < lb), Not(ub < v), Not(G.v(st, x, '.m_is_fixed')))
        if k == 1:
            s.assume(Eq(lb, I0), Eq(ub, I1))
        s.reach(st)
        s.ob('number of moves and flags', And(Eq(G.nmoves(st), Mul(z3.IntVal(k), n)), Eq(G.g(st, '.m_flags#'), Mul(z3.IntVal(k), n))), st, auto=False)
        ms = [Add(Mul(z3.IntVal(k), i), z3.IntVal(w)) if w else Mul(z3.IntVal(k), i) for w in range(k)]
        one = lambda m: And(Eq(G.nalt(st, m), I1), Eq(G.var(st, m, I0), x))
        for w, m in enumerate(ms):
            s.ob('move %d alters the variable' % w, one(m), st, auto=False)
            s.ob('move %d lists the constraints of the variable' % w, And(Eq(G.nrel(st, m), G.v(st, x, '.m_extension*.related_constraint_ptrs#')),
                 Implies(rng(G.nrel(st, m), q), Eq(G.rel(st, m, q), sel(G.v(st, x, '.m_extension*.related_constraint_ptrs@'), q)))), st, auto=False)
        G.update(st)
        for w, m in enumerate(ms):
            s.ob('move %d still alters the variable' % w, one(m), st, auto=False)
            s.ob('move %d stays within the bounds when offered' % w, Implies(G.flag(st, m), G.within(st, m, I0)), st, auto=False)
            s.ob('move %d changes the value when offered' % w, Implies(G.flag(st, m), Not(Eq(G.val(st, m, I0), v))), st, auto=False)
            f = sel(G.g(st, '.m_flags@'), m)
            s.ob('flag of move %d is 0 or 1' % w, Or(Eq(f, I0), Eq(f, I1)), st, auto=False)
    return unit


def selection(s):
    G = Gen(s, 'SelectionMoveGenerator')
    G.uses('extract_mutable_variable_ptrs')
    st = G.st
    n = G.size('MUT')
    i, q = fresh('i', IntS), fresh('q', IntS)
    s.assume(rng(n, i))
    x = G.lst('MUT', '@', Ref, i)
    sp = G.v(st, x, '.m_extension*.selection_ptr')
    sl = s.ent(MC + 'Selection', sp)
    s.reach(st)
    s.ob('number of moves and flags', And(Eq(G.nmoves(st), n), Eq(G.g(st, '.m_flags#'), n)), st, auto=False)
    s.ob('lists the constraints of the selection', And(Eq(G.nrel(st, i), s.get(st, sl, '.related_constraint_ptrs#')),
         Implies(rng(G.nrel(st, i), q), Eq(G.rel(st, i, q), sel(s.get(st, sl, '.related_constraint_ptrs@'), q)))), st, auto=False)
    G.update(st)
    cur = s.get(st, sl, '.selected_variable_ptr')
    s.ob('clears the chosen variable and chooses another', And(Eq(G.nalt(st, i), z3.IntVal(2)), Eq(G.var(st, i, I0), cur), Eq(G.var(st, i, I1), x), Eq(G.val(st, i, I0), I0), Eq(G.val(st, i, I1), I1)), st, auto=False)
    s.ob('not offered for the chosen variable itself', Implies(G.flag(st, i), Not(Eq(cur, x))), st, auto=False, ground=[i])


def effective(s):
    st = State()
    f = s.fn(NB + 'extract_effective_constraint_ptrs', 1)
    a = Loc(s.ir.deref(f['ps'][0]['t']), 'ARG', '', [])
    r = s.call(st, f, None, [a])
    n, m = s.ex.rd(st, 'ARG', '#', [], [], IntS), r.d['#']
    at = lambda k: s.ex.rd(st, 'ARG', '@', [k], [], Ref)
    i, q, x = fresh('i', IntS), fresh('q', IntS), fresh('x', Ref)
    s.reach(st)
    C_ = lambda c, p: s.get(st, s.ent(MC + 'Constraint', c), p)
    V_ = lambda x, p: s.get(st, s.ent(MC + 'Variable', x), p)
    SEL = s.enum('model_component::VariableSense', 'Selection')
    c = sel(r.d['@'], i)
    s.ob('only constraints of the list', Implies(rng(m, i), Z3Exists(q, And(rng(n, q), Eq(at(q), c)))), st, auto=False, ground=[i])
    s.ob('only enabled constraints', Implies(rng(m, i), C_(c, '.m_is_enabled')), st, auto=False, ground=[i])
    s.ob('no fixed variable appears', Implies(And(rng(m, i), sel(C_(c, '.m_expression.m_sensitivities?'), x)), Not(V_(x, '.m_is_fixed'))), st, auto=False, ground=[i, x])
    s.ob('no selection variable appears', Implies(And(rng(m, i), sel(C_(c, '.m_expression.m_sensitivities?'), x)), Not(Eq(V_(x, '.m_extension*.sense'), z3.IntVal(SEL)))), st, auto=False, ground=[i, x])


def mutable(s):
    st = State()
    f = s.fn(NB + 'extract_mutable_variable_ptrs', 1)
    a = Loc(s.ir.deref(f['ps'][0]['t']), 'ARG', '', [])
    r = s.call(st, f, None, [a])
    n, m = s.ex.rd(st, 'ARG', '#', [], [], IntS), r.d['#']
    at = lambda k: s.ex.rd(st, 'ARG', '@', [k], [], Ref)
    i, q = fresh('i', IntS), fresh('q', IntS)
    s.reach(st)
    s.ob('only variables of the list', Implies(rng(m, i), Z3Exists(q, And(rng(n, q), Eq(at(q), sel(r.d['@'], i))))), st, auto=False, ground=[i])
    s.ob('no fixed variable', Implies(rng(m, i), Not(s.get(st, s.ent(MC + 'Variable', sel(r.d['@'], i)), '.m_is_fixed'))), st, auto=False, ground=[i])
    s.ob('every variable not fixed', Implies(And(rng(n, i), Not(s.get(st, s.ent(MC + 'Variable', at(i)), '.m_is_fixed'))), Z3Exists(q, And(rng(m, q), Eq(sel(r.d['@'], q), at(i))))), st, auto=False, ground=[i])


def convert(name, fields):
    def unit(s):
        st = State()
        f = s.fn(NB + name, 1)
        a = Loc(s.ir.deref(f['ps'][0]['t']), 'ARG', '', [])
        n = s.ex.rd(st, 'ARG', '#', [], [], IntS)
        i = fresh('i', IntS)
        C_ = lambda c, p: s.get(st, s.ent(MC + 'Constraint', c), p)
        c = s.ex.rd(st, 'ARG', '@', [i], [], Ref)
        s.assume(Not(n < 0), Forall(i, Implies(rng(n, i), Eq(card(C_(c, '.m_expression.m_sensitivities?')), z3.IntVal(len(fields))))))
        i = fresh('i', IntS)
        c = s.ex.rd(st, 'ARG', '@', [i], [], Ref)
        s.assume(rng(n, i))
        r = s.call(st, f, None, [a])
        no_throw(s, 'a constraint of %d variables is accepted' % len(fields))
        s.reach(st)
        dom, sens = C_(c, '.m_expression.m_sensitivities?'), C_(c, '.m_expression.m_sensitivities$')
        b = lambda p: sel(r.d['@.' + p], i)
        vs = [b('variable_ptr_' + q) for q in fields]
        s.ob('one entry per constraint', Eq(r.d['#'], n), st, auto=False)
        for q, x in zip(fields, vs):
            s.ob('%s variable with its coefficient' % q, And(sel(dom, x), Eq(b('sensitivity_' + q), sel(sens, x))), st, auto=False, ground=[i])
        s.ob('different variables', And(*[Not(Eq(x, y)) for k, x in enumerate(vs) for y in vs[:k]]), st, auto=False, ground=[i])
        s.ob('constant value and sense', And(Eq(b('constant_value'), C_(c, '.m_expression.m_constant_value')), Eq(b('sense'), C_(c, '.m_sense'))), st, auto=False, ground=[i])
    return unit


UNITS = [('operator+ of moves', plus), ('Move::sort_and_unique_related_constraint_ptrs', sort_unique), ('extract_effective_constraint_ptrs', effective), ('extract_mutable_variable_ptrs', mutable),
         ('convert_to_binomial_constraints', convert('convert_to_binomial_constraints', ('first', 'second'))),
         ('convert_to_trinomial_constraints', convert('convert_to_trinomial_constraints', ('first', 'second', 'third')))]
EQ = z3.IntVal(SENSE['Equal'])
MG = 'MoveGenerator'
SPEC = {    # what the label of the constraint says about it (C13) and what a move must do
    'ExclusiveOr': (2, dict(binary=True, label=lambda a1, a2, c, s: [Eq(a1, a2), Eq(c, -a1), Eq(s, EQ)], goal=kept)),
    'ExclusiveNor': (2, dict(binary=True, label=lambda a1, a2, c, s: [Eq(a1, -a2), Eq(c, R0), Eq(s, EQ)], goal=kept)),
    'InvertedIntegers': (2, dict(label=lambda a1, a2, c, s: [Eq(a1, a2), Eq(c, R0), Eq(s, EQ)], goal=kept)),
    'BalancedIntegers': (2, dict(label=lambda a1, a2, c, s: [Eq(a1, -a2), Eq(c, R0), Eq(s, EQ)], goal=kept)),
    'ConstantSumIntegers': (2, dict(label=lambda a1, a2, c, s: [Eq(a1, a2), Eq(s, EQ)], goal=kept)),
    'ConstantDifferenceIntegers': (2, dict(label=lambda a1, a2, c, s: [Eq(a1, -a2), Eq(s, EQ)], goal=kept)),
    'ConstantRatioIntegers': (2, dict(label=lambda a1, a2, c, s: [Eq(c, R0), Eq(s, EQ)], goal=kept, keyed=True)),
    'Aggregation': (4, dict(label=lambda a1, a2, c, s: [Eq(s, EQ)], goal=kept)),
    'Precedence': (2, dict(label=lambda a1, a2, c, s: [Eq(a1, -a2)], goal=same_slack)),
    'VariableBound': (4, dict(goal=bound_kept)),
}
for _n, (_k, _s) in SPEC.items():
    UNITS.append((_n + MG + ': relation', relation(_n + MG, _k, _s)))
UNITS += [('TrinomialExclusiveNorMoveGenerator: relation', trinomial), ('TwoFlipMoveGenerator: pair', two_flip), ('SelectionMoveGenerator: choice', selection),
          ('BinaryMoveGenerator: moves', univariable('BinaryMoveGenerator', 1)), ('IntegerMoveGenerator: moves', univariable('IntegerMoveGenerator', 4))]
for _n in list(SPEC) + ['TrinomialExclusiveNor']:
    UNITS.append((_n + MG + ': legality', legality(_n + MG)))
for _n in ('SoftSelection', 'Chain', 'TwoFlip'):
    UNITS.append((_n + MG + ': legality', legality(_n + MG, bound=False)))
UNITS.append(('SelectionMoveGenerator: legality', legality('SelectionMoveGenerator', bound=False, avail=False)))

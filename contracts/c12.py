"""C12: exported solutions equal the model state; importing restores it."""
import itertools
from common import *
from c02 import E, V, C, M
I0, I1 = z3.IntVal(0), z3.IntVal(1)

KIND = {'variable': ('Variable', '.m_variable_proxies', '.m_variables', '.m_value'),
        'expression': ('Expression', '.m_expression_proxies', '.m_expressions', '.m_value'),
        'constraint': ('Constraint', '.m_constraint_proxies', '.m_constraints', '.m_constraint_value'),
        'violation': ('Constraint', '.m_constraint_proxies', '.m_constraints', '.m_violation_value')}


def rng(n, *xs):
    return And(*[And(Not(x < 0), x < n) for x in xs])


class World:
    def __init__(self, s):
        self.s = s
        s.ex.recur_ok = True
        self.st = State()
        self.m = s.obj('model::Model', 'model')
        p = fresh('p', IntS)
        for cls, px, vec, _ in KIND.values():
            s.assume(Not(self.np(px) < 0))
            # an array holds as many elements as it reports (C15)
            s.assume(Forall(p, And(Eq(self.n(px, vec, p), self.rd(px + '@^0.m_number_of_elements', [p], IntS)), Not(self.n(px, vec, p) < 0))))

    def rd(self, path, idx, so, st=None):
        return self.s.ex.rd(st or self.st, 'model', path, idx, [], so)

    def np(self, px):
        return self.rd(px + '#', [], IntS)

    def n(self, px, vec, p):
        return self.rd(px + '@' + vec + '#', [p], IntS)

    def el(self, kind, p, i):
        cls, px, vec, val = KIND[kind]
        return self.s.ent(MC + cls, self.rd(px + '@' + vec + '@', [p, i], Ref))

    def val(self, kind, p, i, st=None):
        return self.s.get(st or self.st, self.el(kind, p, i), KIND[kind][3])

    def name(self, kind, p, i, st=None):
        return self.s.get(st or self.st, self.el(kind, p, i), '^0.m_extension*.name')

    def total(self):
        px, vec = KIND['violation'][1:3]
        return isum(I0, self.np(px), lambda p: isum(I0, self.n(px, vec, p), lambda i: self.val('violation', p, i)))


def totals(s, w, v, obj, tot, fea, aug=None):
    st = w.st
    o = s.get(st, w.m, '.m_objective.m_value')
    s.ob('objective value', Eq(v.d[obj], o), st, auto=False)
    want, got = w.total(), v.d[tot]
    lem = [D.lin_lemma([(z3.RealVal(1), SUMS[q][5]), (z3.RealVal(-1), want)]) for q in D.top_sums(got) if not SUMS[q][5].eq(want)]
    s.ob('total violation', Eq(got, want), st, lemmas=[l for l in lem if l is not None], auto=True)
    s.ob('feasibility', Eq(v.d[fea], s.getter(st, M + '::is_feasible', w.m)), st, auto=False)
    no_throw(s)


def proxies(s, w, what, kind, leaf, count):
    """what(p): index of the exported array of proxy p."""
    cls, px, vec, val = KIND[kind]
    p, i, d = fresh('p', IntS), fresh('i', IntS), fresh('d', IntS)
    ok = And(rng(w.np(px), p), rng(w.n(px, vec, p), i))
    g = lambda q, *ix: sels(leaf(q), [what(p)] + list(ix))
    s.ob('%s values' % kind, Implies(ok, Eq(g('.m_values@', i), w.val(kind, p, i))), w.st, auto=False)
    s.ob('%s names' % kind, Implies(ok, Eq(g('.m_names@', i), w.name(kind, p, i))), w.st, auto=False)
    nd = w.rd(px + '@^0.m_shape#', [p], IntS)
    s.ob('%s shape' % kind, Implies(And(rng(w.np(px), p), rng(nd, d)), And(Eq(g('^0.m_shape#'), nd), Eq(g('^0.m_shape@', d), w.rd(px + '@^0.m_shape@', [p, d], IntS)))), w.st, auto=False)
    if count is not None:
        s.ob('%s arrays are all exported' % kind, Eq(count, w.np(px)), w.st, auto=False)


def dense(s):
    w = World(s)
    s.reach()
    v = s.call(w.st, s.fn(M + '::export_dense_solution', 0), w.m)
    for kind in KIND:
        pre = '.%s_value_proxies' % kind
        proxies(s, w, lambda p: p, kind, lambda q: v.d[pre + '@' + q], v.d[pre + '#'])
    totals(s, w, v, '.objective', '.total_violation', '.is_feasible')
    s.ob('augmented objective', Eq(v.d['.global_augmented_objective'], Add(v.d['.objective'], Mul(s.get(w.st, w.m, '.m_global_penalty_coefficient'), v.d['.total_violation']))), w.st, auto=False)


def named(s):
    w = World(s)
    # distinct names for distinct arrays
    for kind, nm in (('variable', '.m_variable_names@'), ('expression', '.m_expression_names@'), ('constraint', '.m_constraint_names@')):
        p, q = fresh('p', IntS), fresh('q', IntS)
        n = w.np(KIND[kind][1])
        s.assume(Forall([p, q], Implies(And(rng(n, p, q), Eq(s.ex.rd(w.st, 'model', nm, [p], [], Str), s.ex.rd(w.st, 'model', nm, [q], [], Str))), Eq(p, q))))
    s.reach()
    v = s.call(w.st, s.fn(M + '::export_named_solution', 0), w.m)
    for kind in KIND:
        pre = '.m_%s_value_proxies' % kind
        nm = '.m_%s_names@' % ('constraint' if kind == 'violation' else kind)
        name = lambda p: s.ex.rd(w.st, 'model', nm, [p], [], Str)
        proxies(s, w, name, kind, lambda q: v.d[pre + '$' + q], None)
        p = fresh('p', IntS)
        s.ob('%s arrays are all exported' % kind, Implies(rng(w.np(KIND[kind][1]), p), sel(v.d[pre + '?'], name(p))), w.st, auto=False)
    totals(s, w, v, '.m_objective', '.m_total_violation', '.m_is_feasible')


def unique_names(s, w):
    p, q, i, j = [fresh(x, IntS) for x in 'pqij']
    px, vec = KIND['variable'][1:3]
    s.assume(Forall([p, i, q, j], Implies(And(rng(w.np(px), p, q), rng(w.n(px, vec, p), i), rng(w.n(px, vec, q), j), Eq(w.name('variable', p, i), w.name('variable', q, j))), And(Eq(p, q), Eq(i, j)))))


def sparse_map(s, w, v, st, names, values, np, n):
    p, i = fresh('p', IntS), fresh('i', IntS)
    k = fresh('k', Str)
    ok = And(rng(np, p), rng(n(p), i))
    dom, val = v.d['.variables?'], v.d['.variables$']
    nz = Not(Eq(values(p, i), I0))
    s.ob('nonzero variables are listed with their values', Implies(And(ok, nz), And(sel(dom, names(p, i)), Eq(sel(val, names(p, i)), values(p, i)))), st, auto=False)
    s.ob('zero variables are not listed', Implies(And(ok, Not(nz)), Not(sel(dom, names(p, i)))), st, auto=False)
    s.ob('only variables of the model are listed', Implies(sel(dom, k), Exists([p, i], And(ok, Eq(names(p, i), k)))), st, auto=False)


def sparse(s):
    w = World(s)
    unique_names(s, w)
    s.reach()
    v = s.call(w.st, s.fn(M + '::export_sparse_solution', 0), w.m)
    px, vec = KIND['variable'][1:3]
    sparse_map(s, w, v, w.st, lambda p, i: w.name('variable', p, i), lambda p, i: w.val('variable', p, i), w.np(px), lambda p: w.n(px, vec, p))
    totals(s, w, v, '.objective', '.total_violation', '.is_feasible')


def to_sparse(s):
    s.ex.recur_ok = True
    K = 'solution::DenseSolution'
    st = State()
    o = s.obj(K, 'sol')
    P = '.variable_value_proxies'
    r = lambda path, idx, so: s.ex.rd(st, 'sol', P + path, idx, [], so)
    np = r('#', [], IntS)
    n = lambda p: r('@.m_names#', [p], IntS)
    nm = lambda p, i: r('@.m_names@', [p, i], Str)
    va = lambda p, i: r('@.m_values@', [p, i], IntS)
    p, q, i, j = [fresh(x, IntS) for x in 'pqij']
    s.assume(Not(np < 0), Forall(p, Not(n(p) < 0)))
    s.assume(Forall([p, i, q, j], Implies(And(rng(np, p, q), rng(n(p), i), rng(n(q), j), Eq(nm(p, i), nm(q, j))), And(Eq(p, q), Eq(i, j)))))
    s.reach()
    v = s.call(st, s.fn(K + ID + '::to_sparse', 0), o)
    sparse_map(s, None, v, st, nm, va, np, n)
    for a in ('.objective', '.total_violation', '.is_feasible', '.global_augmented_objective'):
        s.ob(a[1:] + ' is carried over', Eq(v.d[a], s.get(st, o, a)), st, auto=False)


class Quiet(Contract):
    """verification without correction changes no variable (or throws)."""
    assumed = 'verify_and_correct_selection_variables_initial_values without correction changes no value (run natively)'

    def apply(self, ex, st, fn, this, args):
        a = ex.load(st, args[0]) if isinstance(args[0], Loc) else args[0]
        if not z3.is_false(z3.simplify(a)):
            raise Unsupported('correction requested')
        return None


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() not in seen:
            seen.add(u.get_id())
            yield u
            todo += [u.body()] if z3.is_quantifier(u) else u.children()


def leaf(u):
    while z3.is_app(u) and u.decl().kind() == z3.Z3_OP_SELECT:
        u = u.arg(0)
    return u.decl().name() if z3.is_app(u) else ''


def at_q(u, q):
    """the first index of the selection is q."""
    while u.arg(0).decl().kind() == z3.Z3_OP_SELECT:
        u = u.arg(0)
    return u.arg(1).eq(q)


def has_var(u):
    return any(z3.is_var(x) for x in subterms(u))


_ABS = {}


def ground(t):
    """t with every quantified subformula replaced by a Boolean constant (the
    same one for the same formula): what follows from the result follows from t."""
    m = []
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            if u.get_id() not in _ABS:
                _ABS[u.get_id()] = (u, z3.Const('abs!%d' % len(_ABS), BoolS))
            m.append(_ABS[u.get_id()])
        else:
            todo += u.children()
    return z3.substitute(t, *m) if m else t


def instances(x, ints, refs, depth=0):
    """instances of the (nested) universal facts at the given terms."""
    if not (z3.is_quantifier(x) and x.is_forall()):
        return [x]
    if depth > 2:
        return []
    out = []
    cand = []
    for v in range(x.num_vars()):
        so = x.var_sort(v)
        cand.append(ints if so == IntS else refs if so == Ref else [])
    for c in itertools.product(*cand):
        out += instances(norm(z3.substitute_vars(x.body(), *reversed(c))), ints, refs, depth + 1)
    return out


def restored(s, w, r, ok, rf, want):
    """the arrays visited so far hold the stored values: induction over the
    loop of arrays, the step proved from instances of the loop's facts."""
    C = r['C']
    p, i = fresh('p', IntS), fresh('i', IntS)
    P = lambda q: Forall([p, i], Implies(And(ok(p, i), p < q), Eq(sel(sel(C, q), rf(p, i)), want(p, i))))
    name = 'arrays visited so far are restored'
    a = s.ob(name + ' (at the start)', P(I0), w.st, auto=False)
    q0, p0, i0 = fresh('q', IntS), fresh('p', IntS), fresh('i', IntS)
    ref = rf(p0, i0)
    rel = [x for x in list(s.ex.facts) + list(w.st.pc) if C.decl().name() in consts(x)]
    nxt = sel(C, q0 + 1)
    step = [y for x in rel for y in instances(x, [q0], [ref]) if any(u.eq(nxt) for u in subterms(y))]
    # the index a "last writer" term names, and the facts about that index
    last = {}
    for x in step:
        for u in subterms(x):
            if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_SELECT and u.sort() == IntS and leaf(u).startswith('last') and not has_var(u):
                last[u.get_id()] = u
    names = {leaf(u) for u in last.values()}
    ws = [i0] + list(last.values())
    inst = list(step)
    fam = {n.replace('last!', 'lastb!') for n in names} | names
    for x in rel:
        for y in instances(x, [q0] + ws, [ref] + [rf(q0, u) for u in ws]):
            y0 = [u for u in subterms(y) if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_SELECT and u.sort() == IntS and leaf(u) in fam and not has_var(u)]
            if y0 and all(at_q(u, q0) for u in y0):
                inst.append(y)
                last.update({u.get_id(): u for u in y0})
    inst += [g for h in list(inst) for g in D.witnesses(h, *ws)]
    for x in w.st.pc:
        for h in D.witnesses(x, q0):
            inst += [x, h] + D.witnesses(h, *ws)
    ws = [i0] + list(last.values())
    p1, i1, p2, i2 = [fresh(x, IntS) for x in 'pipi']
    for u in ws:
        for (a1, b1) in [(p0, i0)] + [(q0, x) for x in ws]:
            inst.append(Implies(And(ok(a1, b1), ok(q0, u), Eq(rf(a1, b1), rf(q0, u))), And(Eq(a1, q0), Eq(b1, u))))
    hyp = [Not(q0 < 0), q0 < r['hi'], ok(p0, i0), p0 < q0 + 1, Implies(p0 < q0, Eq(sel(sel(C, q0), ref), want(p0, i0)))]
    hyp += [h for h in s.hyp if not z3.is_quantifier(h)]
    inst = [ground(x) for x in inst]
    b = s.pure(name + ' (kept by an iteration)', hyp + inst, Eq(sel(sel(C, q0 + 1), ref), want(p0, i0)))
    return Ind(a and b, lambda q: Implies(And(Not(q < 0), Not(r['hi'] < q)), P(q)))


def importing(kind):
    def unit(s):
        w = World(s)
        px, vec = KIND['variable'][1:3]
        fs = [g for g in s.ir._fn.values() if g['n'].endswith(('::proxy_index', '::flat_index'))]
        from c14 import Position
        for n in sorted({g['n'] for g in fs}):
            s.use(n, Position(0 if n.endswith('proxy_index') else 1))
        s.use('preprocess::Verifier' + ID + '::verify_and_correct_selection_variables_initial_values', Quiet())
        p, q, i, j = [fresh(x, IntS) for x in 'pqij']
        ok = lambda p, i: And(rng(w.np(px), p), rng(w.n(px, vec, p), i))
        rf = lambda p, i: w.rd(px + '@' + vec + '@', [p, i], Ref)
        # distinct positions hold distinct variables
        s.assume(Forall([p, i, q, j], Implies(And(ok(p, i), ok(q, j), Eq(rf(p, i), rf(q, j))), And(Eq(p, q), Eq(i, j)))))
        pat = {'dense': 'DenseSolution', 'sparse': 'SparseSolution', 'map': 'unordered_map'}[kind]
        f = s.fn(M + '::import_solution', 1, pred=lambda f: pat in s.ir.types[s.ir.deref(f['ps'][0]['t'])]['s'])
        sol = Loc(s.ir.deref(f['ps'][0]['t']), 'sol', '', [])
        fx = lambda p, i: s.get(w.st, w.el('variable', p, i), '.m_is_fixed')
        st0 = w.st.copy()
        if kind == 'dense':
            want = lambda p, i: s.ex.rd(st0, 'sol', '.variable_value_proxies@.m_values@', [p, i], [], IntS)
        else:
            pre = '.variables' if kind == 'sparse' else ''
            dom, val = s.ex.rd(st0, 'sol', pre + '?', [], [Str], BoolS), s.ex.rd(st0, 'sol', pre + '$', [], [Str], IntS)
            want = lambda p, i: If(sel(dom, w.name('variable', p, i, st0)), sel(val, w.name('variable', p, i, st0)), I0)
        old = lambda p, i: w.val('variable', p, i, st0)
        s.reach()
        s.call(w.st, f, w.m, [sol])
        now = w.val('variable', p, i)
        lem = []
        for r in s.ex.recs:
            if r['key'] == ('H:Variable', '.m_value'):
                lem.append(restored(s, w, r, ok, rf, want).at(r['hi']))
        if kind == 'dense':
            s.ob('every mutable variable takes its stored value', Implies(And(ok(p, i), Not(fx(p, i))), Eq(now, want(p, i))), w.st, lemmas=lem, auto=False)
            s.ob('fixed variables keep their values', Implies(And(ok(p, i), fx(p, i)), Eq(now, old(p, i))), w.st, auto=False)
        else:
            s.pure('every variable takes its stored value', [h for h in s.hyp if not z3.is_quantifier(h)] + lem, Implies(ok(p, i), Eq(now, want(p, i))))
    return unit


UNITS = [('Model::export_dense_solution', dense), ('Model::export_named_solution', named), ('Model::export_sparse_solution', sparse), ('DenseSolution::to_sparse', to_sparse)] + \
    [('Model::import_solution (%s)' % k, importing(k)) for k in ('dense', 'sparse', 'map')]

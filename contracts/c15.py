"""C15: multi-dimensional arrays address every element exactly once."""
from common import *
from c02 import vals, sub, E, V, C, M

A = 'multi_array::AbstractMultiArray'
I0, I1 = z3.IntVal(0), z3.IntVal(1)
R0 = z3.RealVal(0)


def arr(s, st, loc, pre=''):
    g = lambda p: s.get(st, loc, pre + p)
    return dict(nd=g('.m_number_of_dimensions'), n=g('.m_number_of_elements'), S=g('.m_strides@'), D=g('.m_shape@'), ns=g('.m_strides#'), nD=g('.m_shape#'))


def positive_shape(a):
    i = fresh('i', IntS)
    return Forall(i, Implies(And(Not(i < 0), i < a['nd']), Not(sel(a['D'], i) < 1)))


def stride_facts(a):
    """the class invariant: row-major strides over a shape of positive extents."""
    i = fresh('i', IntS)
    last = Sub(a['nd'], I1)
    return [Not(a['nd'] < 1), Eq(a['nD'], a['nd']), Eq(a['ns'], a['nd']), positive_shape(a), Eq(sel(a['S'], last), I1),
            z3.ForAll(i, Implies(And(Not(i < 0), i < last), sel(a['S'], i) == sel(a['S'], i + 1) * sel(a['D'], i + 1)), patterns=[z3.Select(a['S'], i)]),
            Eq(a['n'], Mul(sel(a['S'], I0), sel(a['D'], I0)))]


def goal_invariant(s, st, a):
    i = fresh('i', IntS)
    last = Sub(a['nd'], I1)
    s.ob('the last stride is one', Eq(sel(a['S'], last), I1), st, auto=False)
    s.ob('each stride is the next one times its extent', Implies(And(Not(i < 0), i < last), Eq(sel(a['S'], i), Mul(sel(a['S'], Add(i, I1)), sel(a['D'], Add(i, I1))))), st, auto=False)
    s.ob('one stride per dimension', And(Eq(a['ns'], a['nd']), Eq(a['nD'], a['nd'])), st, auto=False)


def ctor_shape(s):
    s.ex.recur_ok = True
    f = s.fn(A + '::AbstractMultiArray', 2, params=['int', 'std::vector<int'])
    st = State()
    o = s.obj(A, 'array')
    sh = Loc(s.ir.deref(f['ps'][1]['t']), 'shape', '', [])
    n = s.ex.rd(st, 'shape', '#', [], [], IntS)
    D0 = s.ex.rd(st, 'shape', '@', [], [IntS], IntS)
    s.assume(Not(n < 1))
    i = fresh('i', IntS)
    s.assume(Forall(i, Implies(And(Not(i < 0), i < n), Not(sel(D0, i) < 1))))
    s.reach()
    s.call(st, f, o, [z3.Int('index'), sh])
    a = arr(s, st, o)
    goal_invariant(s, st, a)
    s.ob('shape as given', And(Eq(a['nd'], n), Eq(a['nD'], n), Implies(And(Not(i < 0), i < n), Eq(sel(a['D'], i), sel(D0, i)))), st, auto=False)
    # number of elements: prefix product times stride is constant
    pr = [r for r in s.ex.recs if r['key'][0] == 'product']
    if len(pr) != 1:
        raise Missing('product of the extents')
    P = pr[0]['C']
    G = lambda q: Eq(Mul(z3.Select(P, Add(q, I1)), sel(a['S'], q)), Mul(z3.Select(P, I1), sel(a['S'], I0)))
    h = s.induct('prefix product times stride', G, Sub(n, I1), st)
    s.ob('as many elements as the extents multiply to', Eq(a['n'], Mul(sel(a['S'], I0), sel(a['D'], I0))), st, extra=[h.at(Sub(n, I1))], auto=False)
    s.ob('index as given', Eq(s.get(st, o, '.m_index'), z3.Int('index')), st)


def ctor_one(npar):
    def unit(s):
        s.ex.recur_ok = True
        f = s.fn(A + '::AbstractMultiArray', npar, pred=lambda f: all(s.ir.kind(s.ir.deref(p['t'])) == 'int' for p in f['ps']))
        st = State()
        o = s.obj(A, 'array')
        k = z3.Int('k') if npar == 2 else I1
        s.assume(Not(k < 1))
        s.call(st, f, o, [z3.Int('index')] + ([k] if npar == 2 else []))
        a = arr(s, st, o)
        goal_invariant(s, st, a)
        s.ob('one dimension of the given extent', And(Eq(a['nd'], I1), Eq(sel(a['D'], I0), k), Eq(a['n'], k)), st)
        s.ob('as many elements as the extents multiply to', Eq(a['n'], Mul(sel(a['S'], I0), sel(a['D'], I0))), st)
    return unit


def strides_positive(s, a, st):
    """every stride is at least one (backwards induction)."""
    return s.induct('strides are positive', lambda q: Not(sel(a['S'], Sub(Sub(a['nd'], I1), q)) < 1), Sub(a['nd'], I1), st)


def tuple_in(a, t):
    i = fresh('i', IntS)
    return Forall(i, Implies(And(Not(i < 0), i < a['nd']), And(Not(sel(t, i) < 0), sel(t, i) < sel(a['D'], i))))


def all_positive(a):
    i = fresh('i', IntS)
    return z3.ForAll(i, Implies(And(Not(i < 0), i < a['nd']), sel(a['S'], i) >= 1), patterns=[z3.Select(a['S'], i)])


def positivity(s, a, st):
    h = strides_positive(s, a, st)
    i = fresh('i', IntS)
    u = Sub(Sub(a['nd'], I1), i)
    s.ob('every stride is at least one', Implies(And(Not(i < 0), i < a['nd']), Not(sel(a['S'], i) < 1)), st, extra=[h.at(u)], auto=False)
    return all_positive(a)


def suffix(a, PS, f, st, s):
    """backwards: 0 <= f - PS[i] < D[i] * S[i] for a tuple within the shape."""
    i = fresh('i', IntS)
    rem = lambda q: f - z3.Select(PS, q)
    lim = lambda q: If(q < a['nd'], Mul(sel(a['D'], q), sel(a['S'], q)), I1)
    P = lambda q: And(Not(rem(Sub(a['nd'], q)) < 0), rem(Sub(a['nd'], q)) < lim(Sub(a['nd'], q)))
    return P, rem, lim


def flat_index(s):
    """positions of tuples within the shape lie in 0 .. n-1."""
    s.ex.recur_ok = True
    f = s.fn(A + '::flat_index', 1)
    st = State()
    o = s.obj(A, 'array')
    a = arr(s, st, o)
    s.assume(*stride_facts(a))
    l = Loc(s.ir.deref(f['ps'][0]['t']), 'tuple', '', [])
    t = s.ex.rd(st, 'tuple', '@', [], [IntS], IntS)
    s.assume(Eq(s.ex.rd(st, 'tuple', '#', [], [], IntS), a['nd']), tuple_in(a, t))
    s.reach()
    v = s.call(st, f, o, [l])
    want = isum(I0, a['nd'], lambda i: Mul(sel(t, i), sel(a['S'], i)))
    s.ob('the stride-weighted sum of the indices', Eq(v, want), st, lemmas=[D.lin_lemma([(I1, SUMS[n][5]), (z3.IntVal(-1), want)]) for n in D.top_sums(v) if not SUMS[n][5].eq(want)])
    pos = positivity(s, a, st)
    PS, fs = D.prefix_lemma(want)
    P, rem, lim = suffix(a, PS, want, st, s)
    s.hyp = s.hyp + [pos] + fs
    h = s.induct('what remains after the leading indices', P, a['nd'], st)
    s.ob('position within the storage', And(Not(want < 0), want < a['n']), st, extra=[h.at(a['nd'])], auto=False)


def decode(name, npar):
    """multi_dimensional_index and its in-place variant invert flat_index."""
    def run(s):
        s.ex.recur_ok = True
        f = s.fn(A + '::' + name, npar)
        st = State()
        o = s.obj(A, 'array')
        a = arr(s, st, o)
        s.assume(*stride_facts(a))
        p = z3.Int('position')
        if npar == 1:
            s.n0 = len(s.ex.recs)
            r = s.call(st, f, o, [p])
            res = r.d['@']
            s.ob('one index per dimension', Eq(r.d['#'], a['nd']), st)
        else:
            vt = s.ir.types[s.ir.types[f['ps'][0]['t']]['e']] if False else None
            out = Loc(s.ir.types[f['ps'][0]['t']]['e'], 'out', '', [])
            s.call(st, f, o, [X.PtrTo(out), p])
            res = s.ex.rd(st, 'out', '@', [], [IntS], IntS)
        rc = [r for r in s.ex.recs if r['C'].sort() == z3.ArraySort(IntS, IntS)]
        if len(rc) != 1:
            raise Missing('the remainder of the decoding loop')
        return st, o, a, p, res, rc[0]['C']

    def forward(s):
        """decoding any position gives indices within the shape whose position it is."""
        st, o, a, p, res, R = run(s)
        s.assume(Not(p < 0), p < a['n'])
        s.reach()
        pos = positivity(s, a, st)
        s.hyp.append(pos)
        q = fresh('q', IntS)
        lim = lambda q: If(q < a['nd'], Mul(sel(a['D'], q), sel(a['S'], q)), I1)
        s.hyp.append(z3.ForAll(q, tdiv_bounds(z3.Select(R, q), z3.Select(a['S'], q)), patterns=[z3.Select(R, q)]))
        h = s.induct('remainder', lambda q: And(Not(z3.Select(R, q) < 0), z3.Select(R, q) < lim(q)), a['nd'], st)
        s.hyp.append(h.all)
        i = fresh('i', IntS)
        ir = And(Not(i < 0), i < a['nd'])
        s.ob('index not negative', Implies(ir, Not(sel(res, i) < 0)), st, auto=False)
        d = tdiv(z3.Select(R, i), sel(a['S'], i))
        # d*S <= R < D*S  =>  d < D
        s.ob('quotient below its extent', Implies(And(sel(a['S'], i) >= 1, d * sel(a['S'], i) < sel(a['D'], i) * sel(a['S'], i)), d < sel(a['D'], i)), None, auto=False)
        s.ob('index below its extent', Implies(ir, sel(res, i) < sel(a['D'], i)), st,
             extra=[Implies(And(sel(a['S'], i) >= 1, d * sel(a['S'], i) < sel(a['D'], i) * sel(a['S'], i)), d < sel(a['D'], i))], auto=False)
        want = isum(I0, a['nd'], lambda i: Mul(sel(res, i), sel(a['S'], i)))
        PS, fs = D.prefix_lemma(want)
        s.hyp += fs
        h2 = s.induct('position of the leading indices', lambda q: Eq(Add(z3.Select(PS, q), z3.Select(R, q)), p), a['nd'], st)
        s.ob('the position of the decoded indices is the given one', Eq(want, p), st, extra=[h2.at(a['nd'])], auto=False)
        no_throw(s)

    def back(s):
        """decoding the position of a tuple gives the tuple back."""
        st, o, a, p, res, R = run(s)
        t = z3.Const('tuple', z3.ArraySort(IntS, IntS))
        s.assume(tuple_in(a, t))
        want = isum(I0, a['nd'], lambda i: Mul(sel(t, i), sel(a['S'], i)))
        s.assume(Eq(p, want))
        s.reach()
        pos = positivity(s, a, st)
        PS, fs = D.prefix_lemma(want)
        s.hyp += [pos] + fs
        P, rem, lim = suffix(a, PS, p, st, s)
        h = s.induct('what remains after the leading indices', P, a['nd'], st)
        q = fresh('q', IntS)
        nxt = z3.ForAll(q, Implies(And(Not(q < 0), q < a['nd']), And(rem(q + 1) >= 0, rem(q + 1) < sel(a['S'], q), rem(q) == sel(t, q) * sel(a['S'], q) + rem(q + 1))), patterns=[z3.Select(PS, q)])
        s.ob('remainder below the stride', Implies(And(Not(q < 0), q < a['nd']), And(Not(rem(q + 1) < 0), rem(q + 1) < sel(a['S'], q), rem(q) == sel(t, q) * sel(a['S'], q) + rem(q + 1))), st,
             extra=[h.at(Sub(Sub(a['nd'], q), I1))], auto=False)
        s.hyp.append(nxt)
        s.hyp.append(z3.ForAll(q, tdiv_fact(z3.Select(R, q), z3.Select(a['S'], q), z3.Select(t, q)), patterns=[z3.Select(R, q)]))
        h2 = s.induct('remainder of the decoding', lambda q: Eq(z3.Select(R, q), rem(q)), a['nd'], st)
        s.hyp.append(h2.all)
        i = fresh('i', IntS)
        s.ob('the indices themselves', Implies(And(Not(i < 0), i < a['nd']), Eq(sel(res, i), sel(t, i))), st, auto=False)
    return [('%s of a position' % name, forward), ('%s of an encoded tuple' % name, back)]


def div_schema(s):
    """the instances of truncating division used above."""
    a, b, q = z3.Ints('a b q')
    ax = z3.And(a == b * (a / b) + a % b, a % b >= 0, a % b < b)
    s.ob('a quotient is unique', Implies(And(a >= 0, b > 0, q * b <= a, a < q * b + b), (a / b) == q), None, auto=False)
    s.ob('a quotient brackets', Implies(And(a >= 0, b > 0), And((a / b) >= 0, (a / b) * b <= a, a < (a / b) * b + b)), None, auto=False)


UNITS = [('AbstractMultiArray(index, shape)', ctor_shape), ('AbstractMultiArray(index)', ctor_one(1)), ('AbstractMultiArray(index, size)', ctor_one(2)),
         ('AbstractMultiArray::flat_index', flat_index)] + decode('multi_dimensional_index', 1) + decode('update_multi_dimensional_index', 2) + [('integer division', div_schema)]


# ---- proxies --------------------------------------------------------------------------------
PROX = {'Variable': ('VariableProxy', '.m_variables'), 'Expression': ('ExpressionProxy', '.m_expressions'), 'Constraint': ('ConstraintProxy', '.m_constraints')}
BASES = ('operator()', 'variables', 'values', 'names', 'expressions', 'constraints')


def accessor(f):
    """an element accessor returns the element at the position of its index tuple."""
    def unit(s):
        s.ex.recur_ok = True
        st = State()
        cn = s.ir.types[f['cls']]['n'] if 'n' in s.ir.types[f['cls']] else ''
        o = Loc(f['cls'], 'array', '', [])
        a = arr(s, st, o, '^0')
        s.assume(*stride_facts(a))
        p = f['ps'][0]
        if s.ir.kind(s.ir.deref(p['t'])) == 'vec':
            l = Loc(s.ir.deref(p['t']), 'tuple', '', [])
            t = s.ex.rd(st, 'tuple', '@', [], [IntS], IntS)
            s.assume(Eq(s.ex.rd(st, 'tuple', '#', [], [], IntS), a['nd']))
            args, want = [l], isum(I0, a['nd'], lambda i: Mul(sel(t, i), sel(a['S'], i)))
        else:
            ks = [z3.Int('k%d' % i) for i in range(len(f['ps']))]
            s.assume(Eq(a['nd'], z3.IntVal(len(ks))))
            args, want = ks, I0
            for i, k in enumerate(ks):
                want = Add(want, Mul(k, sel(a['S'], z3.IntVal(i))))
        s.reach()
        s.fns.add(f['key'])
        s.ex.assume = s.hyp
        n = len(s.ex.throws)
        r = s.ex.call_body(st, f, o, args)
        s.last_throws = s.ex.throws[n:]
        if isinstance(r, Loc) and r.root.startswith('H:'):
            vec = [x[1] for c, x in PROX.items() if r.root == 'H:' + c]
            ref = s.ex.rd(st, 'array', vec[0] + '@', [want], [], Ref)
            lem = [D.lin_lemma([(I1, SUMS[q][5]), (z3.IntVal(-1), want)]) for q in D.top_sums(r.idx[0]) if is_sum(want) and not SUMS[q][5].eq(want)]
            s.ob('the element at the position of the tuple', Eq(r.idx[0], ref), st, lemmas=[x for x in lem if x is not None])
        elif isinstance(r, Loc) and r.root == 'array' and len(r.idx) == 1 and r.path in ('.m_values@', '.m_names@'):
            s.ob('the element at the position of the tuple', Eq(r.idx[0], want), st)
        elif isinstance(r, z3.ExprRef):
            path = '.m_names@' if r.sort() == Str else '.m_values@'
            s.ob('the element at the position of the tuple', Eq(r, s.ex.rd(st, 'array', path, [want], [], r.sort())), st)
        else:
            raise Unsupported('result of the accessor')
        no_throw(s)
    return unit


def accessors(ir):
    out = []
    for f in sorted(ir._fn.values(), key=lambda f: f['key']):
        if not f.get('body') or f.get('cls') is None or f.get('lambda') or not f['ps']:
            continue
        n = f['n'][len(NS):]
        cl = [c for c in ('model_component::VariableProxy<', 'model_component::ExpressionProxy<', 'model_component::ConstraintProxy<', 'multi_array::ValueProxy<') if n.startswith(c)]
        if not cl or n.rsplit('::', 1)[-1].split('<')[0] not in BASES and not n.rsplit('::', 1)[-1].startswith('operator()'):
            continue
        ks = [ir.kind(ir.deref(p['t'])) for p in f['ps']]
        if ks == ['vec'] and 'vector<int' in ir.types[ir.deref(f['ps'][0]['t'])]['s'] or all(k == 'int' for k in ks):
            out.append((f['key'].replace(NS, '').replace('std::allocator', '').split('model_component::')[-1].split('multi_array::')[-1][:90] + (' const' if f['key'].endswith('const') else ''), accessor(f)))
    return out


class Decode(Contract):
    name = 'AbstractMultiArray::update_multi_dimensional_index'
    MDI = z3.Function('decoded', IntS, IntS, IntS)

    def apply(self, ex, st, fn, this, args):
        out, p = args[0], ex.load(st, args[1]) if isinstance(args[1], Loc) else args[1]
        l = out.loc if isinstance(out, X.PtrTo) else None
        if l is None:
            raise Unsupported('target of update_multi_dimensional_index')
        nd = ex.rd(st, this.root, this.path + '.m_number_of_dimensions', this.idx, [], IntS)
        old = ex.rd(st, l.root, l.path + '@', l.idx, [IntS], IntS)
        i = fresh('i', IntS)
        ex.wr(st, l.root, l.path + '@', l.idx, z3.Lambda([i], If(And(Not(i < 0), i < nd), Decode.MDI(p, i), sel(old, i))), [IntS], IntS)
        return None


def setup_elements(c):
    """every element is created once, at its position, knowing its position."""
    def unit(s):
        s.ex.recur_ok = True
        cn, vec = PROX[c]
        f = s.fn(MC + cn + ID + '::setup_' + vec[3:], 0)
        st = State()
        o = s.obj(MC + cn, 'array')
        a = arr(s, st, o, '^0')
        s.assume(*stride_facts(a))
        s.put(st, o, vec + '#', I0)
        s.assume(Not(a['n'] < 1))
        s.use(A + '::update_multi_dimensional_index', Decode())
        s.reach()
        s.call(st, f, o)
        n = a['n']
        ar = s.get(st, o, vec + '@')
        i, j, d = fresh('i', IntS), fresh('j', IntS), fresh('d', IntS)
        at = lambda k, p: s.get(st, s.ent(MC + c, sel(ar, k)), '^0.m_extension*.' + p)
        ir = And(Not(i < 0), i < n)
        s.ob('as many elements as the shape has', Eq(s.get(st, o, vec + '#'), n), st)
        s.ob('distinct positions hold distinct elements', Implies(And(ir, Not(j < 0), j < n, Not(Eq(i, j))), Not(Eq(sel(ar, i), sel(ar, j)))), st, auto=False)
        s.ob('flat_index is the position', Implies(ir, Eq(at(i, 'flat_index'), i)), st, auto=False)
        s.ob('proxy_index is the index of the array', Implies(ir, Eq(at(i, 'proxy_index'), s.get(st, o, '^0.m_index'))), st, auto=False)
        s.ob('multi_dimensional_index decodes the position', Implies(And(ir, Not(d < 0), d < a['nd']), Eq(sel(at(i, 'multi_dimensional_index@'), d), Decode.MDI(i, d))), st, auto=False)
        s.ob('multi_dimensional_index has one index per dimension', Implies(ir, Eq(at(i, 'multi_dimensional_index#'), a['nd'])), st, auto=False)
        no_throw(s)
    return unit


def covered(s, st, o, cls, vec, nd, ar, t):
    """element i matches the pattern t (free axes hold Range::All)."""
    ALL = z3.IntVal(s.enum(MC + 'Range', 'All'))
    j = fresh('j', IntS)
    return lambda i: Forall(j, Implies(And(Not(j < 0), j < nd, Not(Eq(sel(t, j), ALL))), Eq(sel(s.get(st, s.ent(MC + cls, sel(ar, i)), '^0.m_extension*.multi_dimensional_index@'), j), sel(t, j))))


def distinct(s, ar, n):
    i, j = fresh('i', IntS), fresh('j', IntS)
    pos = z3.Function('position', Ref, IntS)
    # distinct elements at distinct positions
    return z3.ForAll(i, Implies(And(Not(i < 0), i < n), pos(sel(ar, i)) == i), patterns=[z3.Select(ar, i)]), pos


def var_sum(pattern, dot):
    def unit(s):
        s.ex.recur_ok = True
        cn, vec = PROX['Variable']
        name = MC + cn + ID + ('::dot' if dot else '::sum')
        cands = [f for f in s.ir._fn.values() if f['n'].startswith(NS + name) and f['n'][len(NS + name):][:1] in ('', '<') and len(f['ps']) == (1 if pattern else 0) + (1 if dot else 0) and f.get('body')]
        if len(cands) != 1:
            raise Missing(name)
        f = cands[0]
        st = State()
        o = s.obj(MC + cn, 'array')
        a = arr(s, st, o, '^0')
        s.assume(*stride_facts(a))
        n = a['n']
        s.assume(Eq(s.get(st, o, vec + '#'), n), Not(n < 1))
        ar = s.get(st, o, vec + '@')
        dd, pos = distinct(s, ar, n)
        s.assume(dd)
        args = []
        cov = lambda i: T
        if pattern:
            l = Loc(s.ir.deref(f['ps'][0]['t']), 'tuple', '', [])
            t = s.ex.rd(st, 'tuple', '@', [], [IntS], IntS)
            s.assume(Eq(s.ex.rd(st, 'tuple', '#', [], [], IntS), a['nd']))
            cov = covered(s, st, o, 'Variable', vec, a['nd'], ar, t)
            args.append(l)
        if dot:
            l = Loc(s.ir.deref(f['ps'][-1]['t']), 'coefs', '', [])
            co = s.ex.rd(st, 'coefs', '@', [], [IntS], RealS)
            args.append(l)
        st0 = st.copy()
        s.reach()
        r = s.call(st, f, o, args)
        k = s.ref('v')
        i = fresh('i', IntS)
        isin = lambda i: And(Not(i < 0), i < n, Eq(sel(ar, i), k), cov(i))
        dom, se = sel(r.d['.m_sensitivities?'], k), sel(r.d['.m_sensitivities$'], k)
        s.ob('exactly the named variables occur', Eq(dom, Exists(i, isin(i))), st, auto=False)
        if not dot:
            s.ob('each with coefficient one', Implies(dom, Eq(se, z3.RealVal(1))), st, auto=False)
            no_throw(s)
        elif not pattern:
            s.ob('each with its coefficient', Implies(And(Not(i < 0), i < n), Eq(sel(r.d['.m_sensitivities$'], sel(ar, i)), sel(co, i))), st, auto=False)
        s.ob('no constant', Eq(r.d['.m_constant_value'], R0), st)
    return unit


def fill(t):
    def unit(s):
        f = s.fn('multi_array::ValueProxy<%s>::fill' % t, 1)
        st = State()
        o = Loc(f['cls'], 'array', '', [])
        n = s.get(st, o, '.m_values#')
        v0 = s.get(st, o, '.m_values@')
        v = z3.Const('v', v0.sort().range())
        s.assume(Not(n < 0))
        s.call(st, f, o, [v])
        i = fresh('i', IntS)
        s.ob('every element holds the value', Implies(And(Not(i < 0), i < n), Eq(sel(s.get(st, o, '.m_values@'), i), v)), st, auto=False)
        s.ob('the number of elements stays', Eq(s.get(st, o, '.m_values#'), n), st)
    return unit


def export(c, fname, leaf):
    """an exported array carries every element at its own position, with its name."""
    def unit(s):
        s.ex.recur_ok = True
        cn, vec = PROX[c]
        f = s.fn(MC + cn + ID + '::' + fname, 0)
        st = State()
        o = s.obj(MC + cn, 'array')
        a = arr(s, st, o, '^0')
        s.assume(*stride_facts(a))
        n = a['n']
        s.assume(Eq(s.get(st, o, vec + '#'), n), Not(n < 1))
        ar = s.get(st, o, vec + '@')
        s.reach()
        r = s.call(st, f, o)
        i = fresh('i', IntS)
        ir = And(Not(i < 0), i < n)
        e = lambda p: s.get(st, s.ent(MC + c, sel(ar, i)), p)
        s.ob('every value', Implies(ir, Eq(sel(r.d['.m_values@'], i), e(leaf))), st, auto=False)
        s.ob('every name', Implies(ir, Eq(sel(r.d['.m_names@'], i), e('^0.m_extension*.name'))), st, auto=False)
        s.ob('same shape', And(Eq(r.d['^0.m_number_of_dimensions'], a['nd']), Implies(And(Not(i < 0), i < a['nd']), Eq(sel(r.d['^0.m_shape@'], i), sel(a['D'], i))), Eq(r.d['^0.m_index'], s.get(st, o, '^0.m_index'))), st, auto=False)
        no_throw(s)
    return unit


def whole(c, fname, npar, leaves):
    """an operation on the whole array acts on every element and on nothing else."""
    def unit(s):
        cn, vec = PROX[c]
        f = s.fn(MC + cn + ID + '::' + fname, npar)
        st = State()
        o = s.obj(MC + cn, 'array')
        n = s.get(st, o, vec + '#')
        ar = s.get(st, o, vec + '@')
        s.assume(Not(n < 0))
        dd, pos = distinct(s, ar, n)
        s.assume(dd)
        args = [z3.Int('a%d' % i) for i in range(npar)]
        st0 = st.copy()
        s.reach()
        s.call(st, f, o, args)
        # the effect on one element, by the element's own operation
        g = s.fn(MC + c + ID + '::' + fname, npar)
        x = s.ref('x')
        st1 = st0.copy()
        th = list(s.last_throws)
        s.call(st1, g, s.ent(MC + c, x), args)
        i = fresh('i', IntS)
        isin = Exists(i, And(Not(i < 0), i < n, Eq(sel(ar, i), x)))
        for p in leaves:
            s.ob('every element: ' + p[1:], Implies(isin, Eq(s.get(st, s.ent(MC + c, x), p), s.get(st1, s.ent(MC + c, x), p))), st, extra=st1.pc, auto=False)
            s.ob('nothing else: ' + p[1:], Implies(Not(isin), Eq(s.get(st, s.ent(MC + c, x), p), s.get(st0, s.ent(MC + c, x), p))), st, auto=False)
    return unit


BASE_UNITS = UNITS


def units(ir):
    out = list(BASE_UNITS) + accessors(ir)
    out += [('%s::setup' % PROX[c][0], setup_elements(c)) for c in PROX]
    out += [('VariableProxy::%s%s' % ('dot' if d else 'sum', '(pattern)' if p else ''), var_sum(p, d)) for p in (0, 1) for d in (0, 1)]
    out += [('ValueProxy<%s>::fill' % t, fill(t)) for t in ('int', 'double')]
    out += [('%s::%s' % (PROX[c][0], f), export(c, f, l)) for c, f, l in (('Variable', 'export_values_and_names', '.m_value'), ('Expression', 'export_values_and_names', '.m_value'),
                                                                          ('Constraint', 'export_values_and_names', '.m_constraint_value'), ('Constraint', 'export_violations_and_names', '.m_violation_value'))]
    out += [('%s::%s' % (PROX[c][0], f), whole(c, f, n, l)) for c, f, n, l in (('Variable', 'set_bound', 2, ['.m_lower_bound', '.m_upper_bound']), ('Variable', 'reset_bound', 0, ['.m_lower_bound', '.m_upper_bound']),
                                                                               ('Constraint', 'enable', 0, ['.m_is_enabled']), ('Constraint', 'disable', 0, ['.m_is_enabled']))]
    return out


del UNITS

"""C17: linear algebra over GF(2)."""
from common import *
BM = 'utility::BinaryMatrix'
I0, I1 = z3.IntVal(0), z3.IntVal(1)
Row = z3.ArraySort(IntS, IntS)
Mat = z3.ArraySort(IntS, Row)
# L(c, u): the product modulo two of the row vector u with column c of the given matrix;
# F(u): an arbitrary linear functional modulo two
L = z3.Function('row times column', IntS, Row, IntS)
F = z3.Function('functional', Row, IntS)


def rng(n, *xs):
    return And(*[And(Not(x < 0), x < n) for x in xs])


def two(x):
    return x % z3.IntVal(2)


def unit(s, v):
    return Eq(v, If(s, I1, I0))


def linear(f, n, w, u, v=None):
    """instance of linearity modulo two for w = u (+ v) on 0..n-1."""
    k = fresh('k', IntS)
    if v is None:
        return Implies(Forall(k, Implies(rng(n, k), Eq(sel(w, k), sel(u, k)))), Eq(f(w), f(u)))
    return Implies(Forall(k, Implies(rng(n, k), Eq(sel(w, k), two(sel(u, k) + sel(v, k))))), Eq(f(w), two(f(u) + f(v))))


def bits(n, A):
    i, k = fresh('i', IntS), fresh('k', IntS)
    return Forall([i, k], Implies(rng(n, i, k), Or(Eq(sel(sel(A, i), k), I0), Eq(sel(sel(A, i), k), I1))))


def fwd_step(n, A, B, A1, B1, r, r1, q, p, i, k):
    """one elimination step on column q with pivot row p (element i, k of the outcome)."""
    s = If(Eq(i, r), p, If(Eq(i, p), r, i))
    add = And(r < i, Eq(sel(sel(A, s), q), I1))
    el = lambda M: If(add, two(sel(sel(M, s), k) + sel(sel(M, p), k)), sel(sel(M, s), k))
    return And(Not(p < r), p < n, Eq(sel(sel(A, p), q), I1), Eq(r1, r + 1), Implies(rng(n, i, k), And(Eq(sel(sel(A1, i), k), el(A)), Eq(sel(sel(B1, i), k), el(B)))))


def fwd_skip(n, A, B, A1, B1, r, r1, q, i, k):
    return And(Eq(r1, r), Implies(rng(n, i, k), And(Eq(sel(sel(A1, i), k), sel(sel(A, i), k)), Eq(sel(sel(B1, i), k), sel(sel(B, i), k)))))


def shape(n, A, r, q):
    """0 <= r <= q; rows from r on vanish in the columns before q; without a skipped column: unit upper triangular."""
    i, c = fresh('i', IntS), fresh('c', IntS)
    return And(Not(r < 0), Not(q < r), Forall([i, c], Implies(And(rng(n, i), Not(i < r), Not(c < 0), c < q), Eq(sel(sel(A, i), c), I0))),
               Implies(Eq(r, q), Forall([i, c], Implies(And(rng(n, i), Not(c < 0), c < q, Not(i < c)), unit(Eq(i, c), sel(sel(A, i), c))))))


def back_step(n, A, B, A1, B1, j, i, k):
    add = And(i < j, Eq(sel(sel(A, i), j), I1))
    el = lambda M: If(add, two(sel(sel(M, i), k) + sel(sel(M, j), k)), sel(sel(M, i), k))
    return Implies(rng(n, i, k), And(Eq(sel(sel(A1, i), k), el(A)), Eq(sel(sel(B1, i), k), el(B))))


def back_shape(n, A, j):
    """unit upper triangular, and the columns after j are those of the identity."""
    i, c = fresh('i', IntS), fresh('c', IntS)
    return Forall([i, c], Implies(And(rng(n, i, c), Or(Not(i < c), j < c)), unit(Eq(i, c), sel(sel(A, i), c))))


def elimination_lemmas(s):
    """what one step does to the invariants, for arbitrary matrices."""
    n, q, r, r1, p = [fresh(x, IntS) for x in ('n', 'q', 'r', 'r', 'p')]
    A, B, A1, B1 = [fresh(x, Mat) for x in 'ABAB']
    i, k, c = fresh('i', IntS), fresh('k', IntS), fresh('c', IntS)
    row = lambda M, i: sel(M, i)
    base = [rng(n, q), bits(n, A), bits(n, B), shape(n, A, r, q), r < n]
    st = [Forall([i, k], fwd_step(n, A, B, A1, B1, r, r1, q, p, i, k))]
    skip = [Forall([i, k], fwd_skip(n, A, B, A1, B1, r, r1, q, i, k)), Forall(i, Implies(And(rng(n, i), Not(i < r)), Not(Eq(sel(sel(A, i), q), I1))))]
    i0, c0 = fresh('i', IntS), fresh('c', IntS)
    src = If(Eq(i0, r), p, If(Eq(i0, p), r, i0))
    ok = True
    for nm, h in (('step', st), ('skipped column', skip)):
        ok &= s.pure('elimination %s keeps entries binary' % nm, base + h, And(bits(n, A1), bits(n, B1)))
        ok &= s.pure('elimination %s keeps the echelon shape' % nm, base + h, shape(n, A1, r1, q + 1))
        inv = lambda M, N, i: Implies(rng(n, i), Eq(L(c0, row(N, i)), sel(sel(M, i), c0)))
        u = [linear(lambda x: L(c0, x), n, row(B1, i0), row(B, src)), linear(lambda x: L(c0, x), n, row(B1, i0), row(B, src), row(B, p)),
             linear(lambda x: L(c0, x), n, row(B1, i0), row(B, i0))]
        ok &= s.pure('elimination %s keeps transformation times matrix' % nm, base + h + u + [Forall(i, inv(A, B, i)), rng(n, c0, i0)], inv(A1, B1, i0))
        z = lambda N, i: Implies(rng(n, i), Eq(F(row(N, i)), I0))
        j0 = If(Eq(i0, p), r, If(Eq(i0, r), p, i0))
        w = [linear(F, n, row(B1, x), row(B, y)) for x, y in ((r, p), (j0, i0), (i0, i0))] + [linear(F, n, row(B1, j0), row(B, i0), row(B, p)), Or(Eq(F(row(B, i0)), I0), Eq(F(row(B, i0)), I1))]
        ok &= s.pure('elimination %s can be undone' % nm, base + h + w + [Forall(i, z(B1, i)), rng(n, i0)], z(B, i0))
    j = fresh('j', IntS)
    base = [rng(n, j), I0 < j, bits(n, A), bits(n, B), back_shape(n, A, j)]
    st = [Forall([i, k], back_step(n, A, B, A1, B1, j, i, k))]
    ok &= s.pure('substitution keeps entries binary', base + st, And(bits(n, A1), bits(n, B1)))
    ok &= s.pure('substitution clears its column', base + st, back_shape(n, A1, j - 1))
    inv = lambda M, N, i: Implies(rng(n, i), Eq(L(c0, row(N, i)), sel(sel(M, i), c0)))
    u = [linear(lambda x: L(c0, x), n, row(B1, i0), row(B, i0)), linear(lambda x: L(c0, x), n, row(B1, i0), row(B, i0), row(B, j))]
    ok &= s.pure('substitution keeps transformation times matrix', base + st + u + [Forall(i, inv(A, B, i)), rng(n, c0, i0)], inv(A1, B1, i0))
    return ok


def inverse(s):
    s.ex.recur_ok = True
    f = s.fn(BM + '::inverse_and_rank', 0)
    st = State()
    m = s.obj(BM, 'M')
    n = s.get(st, m, '.m_rows#')
    A0 = s.get(st, m, '.m_rows@@')
    s.assume(Not(n < 1), bits(n, A0))
    i, k, c, q = [fresh(x, IntS) for x in 'ikcq']
    s.reach()
    v = s.call(st, f, m)
    no_throw(s)
    B, rank = v.d['.first.m_rows@@'], v.d['.second']
    inres = deep_consts(B) | deep_consts(rank)
    three = [r for r in s.ex.recs if r['C'].sort().range() == Mat]
    one = [r for r in s.ex.recs if r['C'].sort().range() == IntS and r['C'].decl().name() in deep_consts(rank)]
    if len(one) != 1 or len(three) != 4:
        raise Missing('elimination loops (%d, %d)' % (len(one), len(three)))
    rk = one[0]
    fw = [r for r in three if r['hi'].eq(rk['hi'])]
    bk = [r for r in three if not r['hi'].eq(rk['hi'])]
    pick = lambda l: sorted(l, key=lambda r: r['C'].decl().name() in inres)
    if len(fw) != 2 or len(bk) != 2:
        raise Missing('elimination and substitution loops')
    (FA, FB), (BA, BB) = pick(fw), pick(bk)
    s.ob('every column is eliminated', Eq(rk['hi'], n), st, auto=False)
    at = lambda r, q: sel(r['C'], q)
    ok = elimination_lemmas(s)
    # the code performs such steps
    E = []
    for x in s.ex.facts:
        for nm in consts(x):
            if nm.startswith('exit!') and nm not in E:
                E.append(nm)
    found = Exists([i], And(rng(n, i), Not(i < at(rk, q)), Eq(sel(sel(at(FA, q), i), q), I1)))
    A_, B_, A1, B1, r, r1 = at(FA, q), at(FB, q), at(FA, q + 1), at(FB, q + 1), at(rk, q), at(rk, q + 1)
    pre = [rng(n, q), Not(r < 0), r < n]
    exits = [z3.Const(e, Row) for e in E]
    if not exits:
        raise Missing('search for the pivot row')
    w = fresh('w', IntS)
    inst = []
    for x in s.ex.facts:
        if z3.is_quantifier(x) and x.is_forall() and all(x.var_sort(y) == IntS for y in range(x.num_vars())) and x.num_vars() <= 3:
            inst.append(norm(z3.substitute_vars(x.body(), *reversed([q, i, k][:x.num_vars()]))))
    inst += [g for h in inst for g in D.witnesses(h, w - r, w)] + list(s.hyp)
    isp = And(rng(n, w), Not(w < r), Eq(sel(sel(A_, w), q), I1))
    n0, keep = len(s.results), None
    for e in exits:
        del s.results[n0:]
        p = r + sel(e, q)
        fp = And(Not(p < r), p < n, Eq(sel(sel(A_, p), q), I1))
        if not s.pure('pivot column: a row from the current rank on with a one is chosen', inst + pre + [isp], fp):
            keep = keep or s.results[n0:]
            continue
        keep = None
        src = If(Eq(i, r), p, If(Eq(i, p), r, i))
        x = fwd_step(n, A_, B_, A1, B1, r, r1, q, p, i, k)
        hyp = And(*pre, isp, fp)
        for nm, g in (('the rank grows', Eq(r1, r + 1)), ('the pivot row is moved up and added to the rows below', x)):
            s.pure('pivot column: ' + nm, inst + [hyp], g)
        break
    if keep:
        s.results[n0:] = keep
    s.ob('column without pivot: nothing changes', Implies(And(*pre, Not(found)), fwd_skip(n, A_, B_, A1, B1, r, r1, q, i, k)), st, auto=False)
    s.ob('elimination starts from the matrix and the identity', And(Eq(at(rk, I0), I0), Implies(rng(n, i, k), And(Eq(sel(sel(at(FA, I0), i), k), sel(sel(A0, i), k)), unit(Eq(i, k), sel(sel(at(FB, I0), i), k))))), st, auto=False)
    j = n - 1 - q
    s.ob('substitution clears one column after the other', Implies(rng(n - 1, q), back_step(n, at(BA, q), at(BB, q), at(BA, q + 1), at(BB, q + 1), j, i, k)), st, auto=False)
    s.ob('substitution covers every column but the first', Eq(BB['hi'], n - 1), st, auto=False)
    s.ob('substitution starts from the outcome of the elimination', Implies(And(Eq(rank, n), rng(n, i, k)), And(Eq(sel(sel(at(BA, I0), i), k), sel(sel(at(FA, n), i), k)), Eq(sel(sel(at(BB, I0), i), k), sel(sel(at(FB, n), i), k)))), st, auto=False)
    s.ob('the rank is the number of pivots', Eq(rank, at(rk, n)), st, auto=False)
    s.ob('full rank: the outcome of the substitution is returned', Implies(And(Eq(rank, n), rng(n, i, k)), Eq(sel(sel(B, i), k), sel(sel(at(BB, n - 1), i), k))), st, auto=False)
    # conclusions from the final invariants (each kept by every step, lemmas above)
    G, H, Bf = fresh('A', Mat), fresh('A', Mat), fresh('B', Mat)
    i0, c0 = fresh('i', IntS), fresh('c', IntS)
    s.pure('full rank: elimination leaves the shape substitution needs', [Not(n < 1), shape(n, G, n, n)], back_shape(n, G, n - 1))
    s.pure('full rank: the transformation is the inverse', [Not(n < 1), back_shape(n, G, I0), Forall([i, c], Implies(rng(n, i, c), Eq(L(c, sel(Bf, i)), sel(sel(G, i), c)))), rng(n, i0, c0)], unit(Eq(i0, c0), L(c0, sel(Bf, i0))))
    rr = fresh('r', IntS)
    s.pure('rank deficit: some combination of rows vanishes', [Not(n < 1), rr < n, shape(n, G, rr, n), Forall([i, c], Implies(rng(n, i, c), Eq(L(c, sel(Bf, i)), sel(sel(G, i), c)))), rng(n, c0)], Eq(L(c0, sel(Bf, rr)), I0))


def dot_vector(s):
    f = s.fn(BM + '::dot', 1, pred=lambda f: 'vector' in s.ir.types[s.ir.deref(f['ps'][0]['t'])]['s'])
    st = State()
    m = s.obj(BM, 'M')
    n, A = s.get(st, m, '.m_rows#'), s.get(st, m, '.m_rows@@')
    w = s.ex.rd(st, 'M', '.m_rows@#', [I0], [], IntS)
    x = s.ex.rd(st, 'X', '@', [], [IntS], IntS)
    s.assume(I0 < n, Not(w < 0))
    s.reach()
    v = s.call(st, f, m, [Loc(s.ir.deref(f['ps'][0]['t']), 'X', '', [])])
    no_throw(s)
    i = fresh('i', IntS)
    want = isum(I0, w, lambda k: Mul(sel(sel(A, i), k), sel(x, k)))
    got = sel(v.d['@'], i)
    lem = [D.lin_lemma([(I1, SUMS[z][5]), (z3.IntVal(-1), want)]) for z in D.top_sums(got) if not SUMS[z][5].eq(want)]
    s.ob('as many entries as rows', Eq(v.d['#'], n), st, auto=False)
    s.ob('each entry is the row times the vector modulo two', Implies(rng(n, i), Eq(got, two(want))), st, lemmas=[l for l in lem if l is not None], auto=False)


def dot_matrix(s):
    f = s.fn(BM + '::dot', 1, pred=lambda f: 'BinaryMatrix' in s.ir.types[s.ir.deref(f['ps'][0]['t'])]['s'])
    st = State()
    m, o = s.obj(BM, 'M'), s.obj(BM, 'N')
    n, A = s.get(st, m, '.m_rows#'), s.get(st, m, '.m_rows@@')
    w, Bm = s.ex.rd(st, 'M', '.m_rows@#', [I0], [], IntS), s.get(st, o, '.m_rows@@')
    z = s.ex.rd(st, 'N', '.m_rows@#', [I0], [], IntS)
    s.assume(I0 < n, Not(w < 0), Not(z < 0), I0 < s.get(st, o, '.m_rows#'))
    s.reach()
    v = s.call(st, f, m, [o])
    no_throw(s)
    i, j = fresh('i', IntS), fresh('j', IntS)
    want = isum(I0, w, lambda k: Mul(sel(sel(A, i), k), sel(sel(Bm, k), j)))
    got = sel(sel(v.d['.m_rows@@'], i), j)
    lem = [D.lin_lemma([(I1, SUMS[y][5]), (z3.IntVal(-1), want)]) for y in D.top_sums(got) if not SUMS[y][5].eq(want)]
    s.ob('dimensions', And(Eq(v.d['.m_rows#'], n), Implies(rng(n, i), Eq(sel(v.d['.m_rows@#'], i), z))), st, auto=False)
    s.ob('each entry is row times column modulo two', Implies(And(rng(n, i), rng(z, j)), Eq(got, two(want))), st, lemmas=[l for l in lem if l is not None], auto=False)


def identity(s):
    f = s.fn(BM + '::identity', 1)
    st = State()
    n = fresh('n', IntS)
    s.assume(Not(n < 0))
    v = s.call(st, f, None, [n])
    i, j = fresh('i', IntS), fresh('j', IntS)
    s.ob('square', And(Eq(v.d['.m_rows#'], n), Implies(rng(n, i), Eq(sel(v.d['.m_rows@#'], i), n))), st, auto=False)
    s.ob('ones on the diagonal only', Implies(rng(n, i, j), unit(Eq(i, j), sel(sel(v.d['.m_rows@@'], i), j))), st, auto=False)
    no_throw(s)


def solver_failure(s):
    """reporting failure leaves every variable as it was (values computed on the way left arbitrary)."""
    f = s.fn('preprocess::GF2Solver' + ID + '::solve', 1)
    st = State()
    o = s.obj('preprocess::GF2Solver', 'solver')
    r = fresh('x', Ref)
    V = s.ent(MC + 'Variable', r)
    ps = ('.m_value', '.m_is_fixed', '.m_lower_bound', '.m_upper_bound')
    old = [s.get(st, V, p) for p in ps]
    s.reach()
    ok = s.call(st, f, o, [fresh('print', BoolS)])
    for p, v in zip(ps, old):
        s.ob('failure keeps %s of every variable' % p[3:], Implies(Not(ok), Eq(s.get(st, V, p), v)), st, auto=False)
    for p, v in list(zip(ps, old))[2:]:
        s.ob('success keeps %s of every variable' % p[3:], Implies(ok, Eq(s.get(st, V, p), v)), st, auto=False)


UNITS = [('BinaryMatrix::identity', identity), ('BinaryMatrix::dot (vector)', dot_vector), ('BinaryMatrix::dot (matrix)', dot_matrix), ('BinaryMatrix::inverse_and_rank', inverse), ('GF2Solver::solve', solver_failure)]

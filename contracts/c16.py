"""C16: utility containers."""
from common import *

U = 'utility::'
HM = U + 'FixedSizeHashMap'
I0, I1 = z3.IntVal(0), z3.IntVal(1)
R0 = z3.RealVal(0)


def hm(s, meth, npar, pred=lambda f: True):
    fs = [f for f in s.ir._fn.values() if f['n'].startswith(NS + HM + '<') and 'Variable' in f['n'] and f['n'].endswith('::' + meth) and len(f['ps']) == npar and pred(f)]
    if len(fs) != 1:
        raise Missing('FixedSizeHashMap::%s (%d candidates)' % (meth, len(fs)))
    return fs[0]


def slots(s, st, root='tab'):
    t = hm(s, 'at', 1)['cls']
    r = []
    for p in ('.m_is_occupied@', '.m_keys@', '.m_values@'):
        ks, so = s.leaf(t, p)
        q = st.py.get((root, p[:-1]))
        if q is not None:                       # array allocated by the code itself
            q = q.loc if hasattr(q, 'loc') else q
            r.append(s.ex.rd(st, q.root, '@', [], ks, so))
        else:
            r.append(s.ex.rd(st, root, p, [], ks, so))
    return r


def bits(s):
    """a & m lies within 0..m; b = 2^k - 1 masks stay inside the table."""
    f = X_bit()
    a, b = fresh('a', IntS), fresh('b', IntS)
    s.ex.facts_global.append(Forall([a, b], Implies(And(Not(a < 0), Not(b < 0)), And(Not(f(a, b) < 0), Not(b < f(a, b))))))
    sh = z3.Function('bit>>', IntS, IntS, IntS)
    s.ex.facts_global.append(Forall([a, b], Implies(Not(a < 0), Not(sh(a, b) < 0))))
    ad = z3.Function('addr', Ref, IntS)
    k = fresh('k', Ref)
    s.ex.facts_global.append(Forall(k, Not(ad(k) < 0)))


def X_bit():
    return z3.Function('bit&', IntS, IntS, IntS)


def table_start(s):
    s.ex.recur_ok = True
    bits(s)
    st = State()
    ins = hm(s, 'insert', 2)
    this = Loc(ins['cls'], 'tab', '', [])
    B = s.get(st, this, '.m_bucket_size')
    s.assume(Eq(s.get(st, this, '.m_mask'), B - 1), Not(B < 1), Not(s.get(st, this, '.m_shift_size') < 0))
    return st, ins, this, B


def insert(s):
    st, ins, this, B = table_start(s)
    o0, k0, v0 = slots(s, st)
    k, v = fresh('key', Ref), fresh('value', RealS)
    s.reach()
    s.call(st, ins, this, [k, v])
    no_throw(s)
    o1, k1, v1 = slots(s, st)
    j, i = fresh('j', IntS), fresh('j', IntS)
    ch = And(sel(o1, j), Not(sel(o0, j)))
    w = [r['C'] for r in s.ex.recs]
    for n, r in enumerate(s.ex.recs):
        if r['C'].sort().range() == IntS:
            s.induct('probed slots lie inside the table', lambda q, C=r['C']: And(Not(sel(C, q) < 0), sel(C, q) < B), r['hi'], st)
    s.ob('occupied slots keep their contents', Implies(sel(o0, j), And(sel(o1, j), Eq(sel(k1, j), sel(k0, j)), Eq(sel(v1, j), sel(v0, j)))), st, auto=False)
    s.ob('a newly occupied slot holds the pair', Implies(ch, And(Eq(sel(k1, j), k), Eq(sel(v1, j), v))), st, auto=False)
    s.ob('some free slot becomes occupied', Exists([j], ch), st, auto=False)
    s.ob('only one slot becomes occupied', Implies(And(ch, sel(o1, i), Not(sel(o0, i))), Eq(i, j)), st, auto=False)
    s.ob('slots left free are untouched', Implies(Not(sel(o1, j)), And(Eq(sel(k1, j), sel(k0, j)), Eq(sel(v1, j), sel(v0, j)))), st, auto=False)


def at_stored(s):
    """insert, then any further insertions of other keys, then a look-up of the key."""
    st, ins, this, B = table_start(s)
    k, v = fresh('key', Ref), fresh('value', RealS)
    o0, k0, v0 = slots(s, st)
    j = fresh('j', IntS)
    s.assume(Forall(j, Implies(sel(o0, j), Not(Eq(sel(k0, j), k)))))
    s.call(st, ins, this, [k, v])
    o1, k1, v1 = slots(s, st)
    n1 = len(s.ex.recs)
    # later state: occupied slots keep their contents (contract of insert), no other slot holds the key
    for p in ('.m_is_occupied@', '.m_keys@', '.m_values@'):
        ks, so = s.leaf(this.t, p)
        sort = so
        for q in reversed(ks):
            sort = z3.ArraySort(q, sort)
        s.ex.wr(st, this.root, p, [], fresh('later', sort), ks, so)
    o2, k2, v2 = slots(s, st)
    s.assume(Forall(j, Implies(sel(o1, j), And(sel(o2, j), Eq(sel(k2, j), sel(k1, j)), Eq(sel(v2, j), sel(v1, j))))))
    s.assume(Forall(j, Implies(And(sel(o2, j), Not(sel(o1, j))), Not(Eq(sel(k2, j), k)))))
    s.reach(st)
    got = s.call(st, hm(s, 'at', 1), this, [k])
    lem = []
    rs = [r for r in s.ex.recs if r['C'].sort().range() == IntS]
    if len(rs) == 2:
        a, b = rs
        hi = If(a['hi'] < b['hi'], a['hi'], b['hi'])
        lem.append(s.induct('look-up follows the probe sequence of insertion', lambda q: Eq(sel(a['C'], q), sel(b['C'], q)), hi, st).all)
    s.ob('the stored value is returned', Eq(got, v), st, lemmas=lem, auto=False)


def at_absent(s):
    st, ins, this, B = table_start(s)
    o, kk, vv = slots(s, st)
    k = fresh('key', Ref)
    j = fresh('j', IntS)
    s.assume(Forall(j, Implies(sel(o, j), Not(Eq(sel(kk, j), k)))), Forall(j, Implies(Not(sel(o, j)), Eq(sel(vv, j), R0))))
    s.reach()
    got = s.call(st, hm(s, 'at', 1), this, [k])
    no_throw(s)
    s.ob('zero for keys not stored', Eq(got, R0), st, auto=False)
    for n, r in enumerate(s.ex.recs):
        if r['C'].sort().range() == IntS:
            s.induct('probed slots lie inside the table', lambda q, C=r['C']: And(Not(sel(C, q) < 0), sel(C, q) < B), r['hi'], st)


class Stored(Contract):
    """insert(k, v): the pair is stored (contract discharged by the units insert / at)."""

    def __init__(self, log):
        self.log = log

    def apply(self, ex, st, fn, this, args):
        k, v = ex.load(st, args[0]), ex.load(st, args[1])
        for p in ('.m_is_occupied@', '.m_keys@', '.m_values@'):
            self.log.append((p, st.store.get((this.root, this.path + p))))
        for q, x, so in (('!tbl', v, RealS), ('!in', z3.BoolVal(True), BoolS)):
            a = ex.rd(st, this.root, this.path + q, this.idx, [Ref], so)
            ex.wr(st, this.root, this.path + q, this.idx, z3.Store(a, k, x), [Ref], so)
        return None


def setup(s):
    s.ex.recur_ok = True
    st = State()
    f = hm(s, 'setup', 2)
    ins = hm(s, 'insert', 2)
    log = []
    s.use(ins['n'], Stored(log))
    this = Loc(f['cls'], 'tab', '', [])
    mt = s.ir.deref(f['ps'][0]['t'])
    mp = Loc(mt, 'map', '', [])
    k = fresh('k', Ref)
    for q, x, so in (('!tbl', R0, RealS), ('!in', z3.BoolVal(False), BoolS)):
        s.ex.wr(st, 'tab', q, [], z3.K(Ref, x), [Ref], so)
    s.reach()
    s.call(st, f, this, [mp, fresh('key_size', IntS)])
    no_throw(s)
    dom = s.ex.rd(st, 'map', '?', [], [Ref], BoolS)
    val = s.ex.rd(st, 'map', '$', [], [Ref], RealS)
    inn, tbl = s.ex.rd(st, 'tab', '!in', [], [Ref], BoolS), s.ex.rd(st, 'tab', '!tbl', [], [Ref], RealS)
    s.ob('every pair of the map is stored', Implies(sel(dom, k), And(sel(inn, k), Eq(sel(tbl, k), sel(val, k)))), st, auto=False)
    s.ob('nothing else is stored', Implies(sel(inn, k), sel(dom, k)), st, auto=False)
    o, kk, vv = slots(s, st)
    B = s.get(st, this, '.m_bucket_size')
    j = fresh('j', IntS)
    s.ob('every slot is free before the first insertion', Implies(And(Not(j < 0), j < B), And(Not(sel(o, j)), Eq(sel(vv, j), R0))), st, auto=False)
    s.ob('the mask is the bucket count minus one', Eq(s.get(st, this, '.m_mask'), B - 1), st, auto=False)
    pw = z3.Function('power of two', IntS, IntS)
    q = fresh('q', IntS)
    s.ex.facts_global += [Eq(pw(I0), I1), Forall(q, Implies(Not(q < 0), Eq(pw(q + 1), 2 * pw(q))))]
    lem = [s.induct('bucket counts are powers of two', lambda q, C=r['C']: And(Eq(sel(C, q), pw(q)), I0 < sel(C, q)), r['hi'], st).all for r in s.ex.recs if r['C'].sort().range() == IntS]
    s.ob('the bucket count is a power of two', Exists([q], And(Not(q < 0), Eq(B, pw(q)), I0 < B)), st, lemmas=lem, auto=False)
    n = card(dom)
    s.ob('a free slot always remains', n < B, st, lemmas=lem + [Not(n < 0)], auto=False)


def copies(s):
    for nm in ('operator=', 'FixedSizeHashMap'):
        f = hm(s, nm, 1, lambda f: 'FixedSizeHashMap' in s.ir.types[s.ir.deref(f['ps'][0]['t'])]['s'])
        st = State()
        this, o = Loc(f['cls'], 'tab', '', []), Loc(f['cls'], 'src', '', [])
        s.ex.assume = s.hyp
        al = s.get(st, o, '.m_is_memory_allocated')
        o0 = slots(s, st, 'src')
        h0 = [s.get(st, o, p) for p in ('.m_shift_size', '.m_bucket_size', '.m_mask')]
        s.assume(al, Not(h0[1] < 1))
        s.reach()
        s.call(st, f, this, [o])
        s1 = slots(s, st)
        j = fresh('j', IntS)
        for p, h in zip(('.m_shift_size', '.m_bucket_size', '.m_mask'), h0):
            s.ob('%s copies %s' % (nm, p[1:]), Eq(s.get(st, this, p), h), st, auto=False)
        s.ob(nm + ' copies every slot', Implies(And(Not(j < 0), j < h0[1]), And(*[Eq(sel(x, j), sel(y, j)) for x, y in zip(s1, o0)])), st, auto=False)
        s.hyp[:] = []


# ---- union-find ---------------------------------------------------------------------------
UF = U + 'UnionFind'


def uf(s, m, n):
    return s.fn(UF + '<int>::' + m, n)


def uf_read(s, st):
    r = lambda p, so: s.ex.rd(st, 'uf', p, [], [IntS], so)
    return {'pd': r('.m_parents?', BoolS), 'p': r('.m_parents$', IntS), 'hd': r('.m_has_parent?', BoolS), 'h': r('.m_has_parent$', BoolS), 'zd': r('.m_sizes?', BoolS)}


def uf_inv(g, cls, dom, x):
    """x in the forest: its parent lies in the same class, roots represent their class."""
    h = sel(g['h'], x)
    c = sel(cls, x)
    return Implies(sel(dom, x), And(sel(dom, c), Not(sel(g['h'], c)), Eq(sel(cls, c), c), Implies(Not(h), Eq(c, x)),
                                    Implies(h, And(sel(dom, sel(g['p'], x)), Eq(sel(cls, sel(g['p'], x)), c)))))


def uf_dom(g, dom, x):
    return And(Eq(sel(g['pd'], x), sel(dom, x)), Eq(sel(g['hd'], x), sel(dom, x)), Eq(sel(g['zd'], x), sel(dom, x)))


class Root(Contract):
    """root(x) = cls(x) for x in the forest; parents may be rearranged within classes, nothing else changes."""

    def __init__(self, s, cls, dom, pre):
        self.s, self.cls, self.dom, self.pre = s, cls, dom, pre

    def apply(self, ex, st, fn, this, args):
        x = ex.load(st, args[0])
        g = uf_read(self.s, st)
        w = fresh('w', IntS)
        self.pre.append(Implies(And(*st.pc), And(sel(self.dom, x), Forall(w, And(uf_inv(g, self.cls, self.dom, w), uf_dom(g, self.dom, w))))))
        ex.wr(st, 'uf', '.m_parents$', [], fresh('parents', z3.ArraySort(IntS, IntS)), [IntS], IntS)
        g = uf_read(self.s, st)
        ex.facts.append(Forall(w, And(uf_inv(g, self.cls, self.dom, w), uf_dom(g, self.dom, w))))
        return sel(self.cls, x)


def uf_start(s):
    st = State()
    this = Loc(s.cls_of(UF + '<int>') if hasattr(s, 'cls_of') else uf(s, 'root', 1)['cls'], 'uf', '', [])
    cls, dom = fresh('class', z3.ArraySort(IntS, IntS)), fresh('elements', z3.ArraySort(IntS, BoolS))
    g = uf_read(s, st)
    w = fresh('w', IntS)
    s.assume(Forall(w, And(uf_inv(g, cls, dom, w), uf_dom(g, dom, w))))
    pre = []
    s.use(UF + '<int>::root', Root(s, cls, dom, pre))
    return st, this, cls, dom, pre


def pre_obs(s, st, pre):
    for i, p in enumerate(pre):
        s.ob('precondition of root at call %d' % i, p, auto=False)


def arg(s, st, f, i, v):
    t = f['ps'][i]['t']
    if s.ir.types[t]['k'] != 'ref':
        return v
    l = Loc(s.ir.deref(t), 'arg%d' % i, '', [])
    s.ex.wr(st, l.root, '', [], v, [], v.sort())
    return l


def uf_root(s):
    st, this, cls, dom, pre = uf_start(s)
    f = uf(s, 'root', 1)
    x = fresh('x', IntS)
    s.assume(sel(dom, x))
    g0 = uf_read(s, st)
    s.reach()
    got = s.call(st, f, this, [arg(s, st, f, 0, x)])
    pre_obs(s, st, pre)
    g = uf_read(s, st)
    w = fresh('w', IntS)
    s.ob('returns the representative of the class', Eq(got, sel(cls, x)), st, auto=False)
    s.ob('keeps the partition', uf_inv(g, cls, dom, w), st, auto=False)
    s.ob('keeps the elements', uf_dom(g, dom, w), st, auto=False)
    s.ob('keeps the roots', Eq(sel(g['h'], w), sel(g0['h'], w)), st, auto=False)


def uf_same(s):
    st, this, cls, dom, pre = uf_start(s)
    f = uf(s, 'is_same', 2)
    x, y = fresh('x', IntS), fresh('y', IntS)
    s.assume(sel(dom, x), sel(dom, y))
    s.reach()
    got = s.call(st, f, this, [arg(s, st, f, 0, x), arg(s, st, f, 1, y)])
    pre_obs(s, st, pre)
    w = fresh('w', IntS)
    g = uf_read(s, st)
    s.ob('true exactly for elements of one class', Eq(got, Eq(sel(cls, x), sel(cls, y))), st, auto=False)
    s.ob('keeps the partition', And(uf_inv(g, cls, dom, w), uf_dom(g, dom, w)), st, auto=False)


def uf_unite(s):
    st, this, cls, dom, pre = uf_start(s)
    f = uf(s, 'unite', 2)
    x, y = fresh('x', IntS), fresh('y', IntS)
    s.assume(sel(dom, x), sel(dom, y))
    s.reach()
    got = s.call(st, f, this, [arg(s, st, f, 0, x), arg(s, st, f, 1, y)])
    pre_obs(s, st, pre)
    g = uf_read(s, st)
    a, b = sel(cls, x), sel(cls, y)
    r = If(sel(g['h'], a), b, a)
    w, q = fresh('w', IntS), fresh('q', IntS)
    c2 = z3.Lambda([q], If(Or(Eq(sel(cls, q), a), Eq(sel(cls, q), b)), r, sel(cls, q)))
    s.ob('merges exactly the two classes', uf_inv(g, c2, dom, w), st, auto=False)
    s.ob('keeps the elements', uf_dom(g, dom, w), st, auto=False)
    s.ob('reports whether the classes were different', Eq(got, Not(Eq(a, b))), st, auto=False)


def uf_setup(s):
    st = State()
    f = uf(s, 'setup', 1)
    this = Loc(f['cls'], 'uf', '', [])
    els = Loc(s.ir.deref(f['ps'][0]['t']), 'els', '', [])
    w, q = fresh('w', IntS), fresh('q', IntS)
    g = uf_read(s, st)
    s.assume(Forall(q, And(Not(sel(g['pd'], q)), Not(sel(g['hd'], q)), Not(sel(g['zd'], q)))))
    dom = s.ex.rd(st, 'els', '?', [], [IntS], BoolS)
    s.reach()
    s.call(st, f, this, [els])
    g = uf_read(s, st)
    s.ob('every element alone in its class', And(uf_inv(g, z3.Lambda([q], q), dom, w), uf_dom(g, dom, w)), st, auto=False)
    no_throw(s)


# ---- bounded queue ------------------------------------------------------------------------
Q = U + 'FixedSizeQueue<double>'


def q_start(s):
    st = State()
    f = s.fn(Q + '::push', 1)
    this = Loc(f['cls'], 'q', '', [])
    rd = lambda st: (s.get(st, this, '.m_queue#'), s.get(st, this, '.m_queue@'), s.get(st, this, '.m_max_size'))
    n, a, m = rd(st)
    s.assume(Not(n < 0), Not(m < n), Not(m < 1))
    return st, f, this, rd, n, a, m


def q_push(s):
    st, f, this, rd, n, a, m = q_start(s)
    x = fresh('x', RealS)
    s.reach()
    s.call(st, f, this, [x])
    no_throw(s)
    n1, a1, m1 = rd(st)
    full = Eq(n, m)
    j = fresh('j', IntS)
    s.ob('grows up to the capacity only', Eq(n1, If(full, n, n + 1)), st, auto=False)
    s.ob('the newest value is last', Eq(sel(a1, n1 - 1), x), st, auto=False)
    s.ob('earlier values keep their order, the oldest leaves a full queue', Implies(And(Not(j < 0), j < n1 - 1), Eq(sel(a1, j), If(full, sel(a, j + 1), sel(a, j)))), st, auto=False)
    s.ob('the capacity is kept', Eq(m1, m), st, auto=False)
    s.ob('the reported size is the number of values', Eq(s.getter(st, Q + '::size', this), n1), st, auto=False)


def q_stats(s):
    st, f, this, rd, n, a, m = q_start(s)
    s.assume(I0 < n)
    j = fresh('j', IntS)
    s.reach()
    for nm, less in (('min', lambda p, q: Not(q < p)), ('max', lambda p, q: Not(p < q))):
        got = s.call(st, s.fn(Q + '::' + nm, 0), this)
        s.ob(nm + ' bounds every value', Implies(And(Not(j < 0), j < n), less(got, sel(a, j))), st, auto=False)
        s.ob(nm + ' is attained', Exists([j], And(Not(j < 0), j < n, Eq(got, sel(a, j)))), st, auto=False)
    got = s.call(st, s.fn(Q + '::average', 0), this)
    want = isum(I0, n, lambda i: sel(a, i))
    lem = [D.lin_lemma([(z3.RealVal(1), SUMS[q][5]), (z3.RealVal(-1), want)]) for q in D.top_sums(got) if not SUMS[q][5].eq(want)]
    s.ob('average times size is the sum', Eq(Mul(got, toreal(n)), want), st, lemmas=[l for l in lem if l is not None], auto=False)


def q_setup(s):
    for nm in ('setup', 'initialize'):
        st, f, this, rd, n, a, m = q_start(s)
        f = s.fn(Q + '::' + nm, 1 if nm == 'setup' else 0)
        x = fresh('x', IntS)
        s.call(st, f, this, [x] if nm == 'setup' else [])
        n1, a1, m1 = rd(st)
        s.ob(nm + ' empties the queue', Eq(n1, I0), st, auto=False)
        if nm == 'setup':
            s.ob('setup sets the capacity', Eq(m1, x), st, auto=False)


# ---- two-way map --------------------------------------------------------------------------
def bimap(pat):
    def unit(s):
        fs = [f for f in s.ir._fn.values() if f['n'].startswith(NS + U + 'BidirectionalMap<' + pat) and f['n'].endswith('::insert')]
        if len(fs) != 1:
            raise Missing('BidirectionalMap<%s>::insert (%d)' % (pat, len(fs)))
        f = fs[0]
        st = State()
        this = Loc(f['cls'], 'bm', '', [])
        ks = [s.leaf(this.t, '.m_forward?')[0][0], s.leaf(this.t, '.m_reverse?')[0][0]]
        rd = lambda st: [s.get(st, this, p) for p in ('.m_forward?', '.m_forward$', '.m_reverse?', '.m_reverse$')]
        p, q = fresh('p', ks[0]), fresh('q', ks[1])

        def inv(g, p, q):
            return And(Implies(sel(g[0], p), And(sel(g[2], sel(g[1], p)), Eq(sel(g[3], sel(g[1], p)), p))),
                       Implies(sel(g[2], q), And(sel(g[0], sel(g[3], q)), Eq(sel(g[1], sel(g[3], q)), q))))
        g0 = rd(st)
        s.assume(Forall([p, q], inv(g0, p, q)))
        a, b = fresh('a', ks[0]), fresh('b', ks[1])
        s.reach()
        s.call(st, f, this, [arg(s, st, f, 0, a), arg(s, st, f, 1, b)])
        no_throw(s)
        g = rd(st)
        s.ob('both directions stay inverse', inv(g, p, q), st, auto=False)
        s.ob('the pair is related', And(sel(g[0], a), Eq(sel(g[1], a), b), sel(g[2], b), Eq(sel(g[3], b), a)), st, auto=False)
        s.ob('other pairs stay', Implies(And(Not(Eq(p, a)), Not(Eq(sel(g0[1], p), b))), And(Eq(sel(g[0], p), sel(g0[0], p)), Implies(sel(g0[0], p), Eq(sel(g[1], p), sel(g0[1], p))))), st, auto=False)
        s.ob('partners of the pair are replaced', Implies(And(Not(Eq(p, a)), sel(g0[0], p), Eq(sel(g0[1], p), b)), Not(sel(g[0], p))), st, auto=False)
    return unit


# ---- set, map and vector helpers ----------------------------------------------------------
def ufn(s, n, npar, pred=None):
    fs = [f for f in s.ir._fn.values() if re.match(re.escape(NS + U + n) + r'(<.*>)?$', f['n']) and len(f['ps']) == npar and
          all('int' in s.ir.types[s.ir.deref(p['t'])]['s'] or s.ir.types[p['t']]['k'] == 'int' for p in f['ps'][:1])]
    fs = [f for f in fs if not any(x in s.ir.types[s.ir.deref(f['ps'][0]['t'])]['s'] for x in ('Variable', 'Constraint', 'string'))]
    if len(fs) != 1:
        raise Missing('%s (%d)' % (n, len(fs)))
    return fs[0]


def operands(s, f):
    r = []
    for i, p in enumerate(f['ps']):
        t = s.ir.types[p['t']]
        if t['k'] == 'ptr':
            r.append(PtrTo(Loc(t['e'], 'A%d' % i, '', [])))
        else:
            r.append(Loc(s.ir.deref(p['t']), 'A%d' % i, '', []))
    return r


def sets(s):
    d = lambda st, r: s.ex.rd(st, r, '?', [], [IntS], BoolS)
    k = fresh('k', IntS)
    for n, op in (('intersection_set', And), ('union_set', Or)):
        f = ufn(s, n, 2)
        st = State()
        a, b = sel(d(st, 'A0'), k), sel(d(st, 'A1'), k)
        v = s.call(st, f, None, operands(s, f))
        s.ob(n, Eq(sel(v.d['?'], k), op(a, b)), st, auto=False)
    f = ufn(s, 'from_vector', 1)
    st = State()
    m, va = s.ex.rd(st, 'A0', '#', [], [], IntS), s.ex.rd(st, 'A0', '@', [IntS] and [], [IntS], IntS)
    v = s.call(st, f, None, operands(s, f))
    i = fresh('i', IntS)
    s.ob('from_vector', Eq(sel(v.d['?'], k), Exists([i], And(Not(i < 0), i < m, Eq(sel(va, i), k)))), st, auto=False)


def update_union(s):
    fs = [f for f in s.ir._fn.values() if re.match(re.escape(NS + U + 'update_union_set') + r'(<.*>)?$', f['n']) and f['ps'] and 'unordered_set<int' in s.ir.types[f['ps'][0]['t']]['s']]
    if len(fs) != 1:
        raise Missing('update_union_set')
    f = fs[0]
    d = lambda st, r: s.ex.rd(st, r, '?', [], [IntS], BoolS)
    k = fresh('k', IntS)
    st = State()
    a, b = sel(d(st, 'A0'), k), sel(d(st, 'A1'), k)
    s.call(st, f, None, operands(s, f))
    s.ob('update_union_set', Eq(sel(d(st, 'A0'), k), Or(a, b)), st, auto=False)
    s.ob('the second set is kept', Eq(sel(d(st, 'A1'), k), b), st, auto=False)


def to_vector(s):
    f = ufn(s, 'to_vector', 1)
    st = State()
    dom = s.ex.rd(st, 'A0', '?', [], [IntS], BoolS)
    v = s.call(st, f, None, operands(s, f))
    i, j, k = fresh('i', IntS), fresh('j', IntS), fresh('k', IntS)
    n, a = v.d['#'], v.d['@']
    inr = lambda i: And(Not(i < 0), i < n)
    s.ob('every entry is an element', Implies(inr(i), sel(dom, sel(a, i))), st, auto=False)
    s.ob('entries differ', Implies(And(inr(i), inr(j), Eq(sel(a, i), sel(a, j))), Eq(i, j)), st, auto=False)
    s.ob('every element is an entry', Implies(sel(dom, k), Exists([i], And(inr(i), Eq(sel(a, i), k)))), st, auto=False)


def map_ops(s):
    R1 = z3.RealVal(1)
    for nm in ('distance_l1', 'distance_l0'):
        f = ufn(s, nm, 2)
        st = State()
        D_ = [s.ex.rd(st, r, '?', [], [IntS], BoolS) for r in ('A0', 'A1')]
        V_ = [s.ex.rd(st, r, '$', [], [IntS], RealS) for r in ('A0', 'A1')]
        x = lambda i, k: If(sel(D_[i], k), sel(V_[i], k), R0)
        got = s.call(st, f, None, operands(s, f))
        k = fresh('k', IntS)
        uni = z3.Lambda([k], Or(sel(D_[0], k), sel(D_[1], k)))
        one = I1 if got.sort() == IntS else R1
        if nm == 'distance_l1':
            want = ssum(uni, lambda k: abs_(x(0, k) - x(1, k)))
        else:
            want = ssum(uni, lambda k: If(And(sel(D_[0], k), sel(D_[1], k), Eq(sel(V_[0], k), sel(V_[1], k))), I0, I1))
        lem, ss = [], [SUMS[q][5] for q in D.top_sums(got)]
        if nm == 'distance_l0':
            cs = [ssum(d, lambda k: I1, raw=True) for d in D_]
            lem += [Eq(card(d), c) for d, c in zip(D_, cs)]          # CARD-SUM
        import itertools
        base = ss + (cs if nm == 'distance_l0' else [])
        # every combination of at most three of the sums that can make up the result
        for r in range(1, min(len(base), 3) + 1):
            for cmb in itertools.combinations(base, r):
                l = D.lin_lemma([(one, c) for c in cmb] + [(-one, want)])
                if l is not None:
                    lem.append(l)
        s.ob(nm, Eq(got, want), st, lemmas=lem, auto=False, timeout=60000)


def vectors(s):
    for nm in ('min', 'max', 'max_abs', 'argmin', 'argmax'):
        f = ufn(s, nm, 1)
        st = State()
        n = s.ex.rd(st, 'A0', '#', [], [], IntS)
        a = s.ex.rd(st, 'A0', '@', [], [IntS], IntS)
        inr = lambda i: And(Not(i < 0), i < n)
        i = fresh('i', IntS)
        got = s.call(st, f, None, operands(s, f))
        e = [I0 < n]
        if nm in ('min', 'max'):
            le = (lambda p, q: Not(q < p)) if nm == 'min' else (lambda p, q: Not(p < q))
            s.ob(nm + ' bounds every entry', Implies(inr(i), le(got, sel(a, i))), st, extra=e, auto=False)
            s.ob(nm + ' is an entry', Exists([i], And(inr(i), Eq(sel(a, i), got))), st, extra=e, auto=False)
        elif nm == 'max_abs':
            s.ob(nm + ' bounds every entry', Implies(inr(i), Not(got < abs_(sel(a, i)))), st, extra=e, auto=False)
            s.ob(nm + ' is attained', Exists([i], And(inr(i), Eq(abs_(sel(a, i)), got))), st, extra=e, auto=False)
        else:
            le = (lambda p, q: Not(q < p)) if nm == 'argmin' else (lambda p, q: Not(p < q))
            s.ob(nm + ' is a position', inr(got), st, extra=e, auto=False)
            s.ob(nm + ' points at an extreme entry', Implies(inr(i), le(sel(a, got), sel(a, i))), st, extra=e, auto=False)


UNITS = [('FixedSizeHashMap::insert', insert), ('FixedSizeHashMap::at of a stored key', at_stored), ('FixedSizeHashMap::at of another key', at_absent), ('FixedSizeHashMap::setup', setup), ('FixedSizeHashMap copies', copies),
         ('UnionFind::root', uf_root), ('UnionFind::is_same', uf_same), ('UnionFind::unite', uf_unite), ('UnionFind::setup', uf_setup),
         ('FixedSizeQueue::push', q_push), ('FixedSizeQueue statistics', q_stats), ('FixedSizeQueue::setup', q_setup),
         ('BidirectionalMap<int>::insert', bimap('int')), ('BidirectionalMap<Variable*>::insert', bimap(NS + MC + 'Variable')), ('BidirectionalMap<Constraint*>::insert', bimap(NS + MC + 'Constraint')),
         ('set helpers', sets), ('update_union_set', update_union), ('to_vector', to_vector), ('map distances', map_ops), ('vector helpers', vectors)]

"""Semantics assumed for the standard library (part of the trusted base)."""
import re
import z3
from sym import *
import exec as X
from exec import Loc, Val, Entry, Iter, Clo, PtrTo, OPAQUE, Opaque

I0, I1 = z3.IntVal(0), z3.IntVal(1)


def base(n):
    """std::vector<...>::size -> ('vector','size')"""
    d, out = 0, ''
    i = 0
    # protect operator< and operator<< / ->
    n = n.replace('operator<<', 'operator@LL').replace('operator<', 'operator@L').replace('operator->', 'operator@A') \
         .replace('operator>>', 'operator@GG').replace('operator>', 'operator@G')
    for c in n:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
    return out.split('::')[-1]


def vlen(ex, st, v):
    if isinstance(v, Val):
        return v.d['#']
    return ex.rd(st, v.root, v.path + '#', v.idx, [], IntS)


def set_len(ex, st, v, n):
    ex.wr(st, v.root, v.path + '#', v.idx, n)


def dom(ex, st, m):
    if isinstance(m, Val):
        return m.d['?']
    ks = ex.scal_sort(ex.ir.types[m.t]['a'][0])
    if ks is None:
        raise Unsupported('key type of ' + ex.ir.types[m.t]['s'])
    return ex.rd(st, m.root, m.path + '?', m.idx, [ks], BoolS)


def set_dom(ex, st, m, d):
    ks = d.sort().domain()
    ex.wr(st, m.root, m.path + '?', m.idx, d, [ks], BoolS)


def elem_t(ex, v):
    return ex.ir.types[v.t]['a'][0]


def keyof(ex, st, m, e_or_v):
    return e_or_v


def append(ex, st, v, src):
    """push_back of an rvalue/Loc src"""
    et = elem_t(ex, v)
    n = vlen(ex, st, v)
    if ex.ir.is_entity(et):
        # a new object: its identity is determined by the allocation site and the position
        site = z3.IntVal(len(ex.sites) + 1)
        key = (v.root, v.path)
        site = z3.IntVal(ex.sites.setdefault(key, len(ex.sites) + 1))
        if v.idx:
            raise Unsupported('push_back of an entity object')
        if not ex.newref_ax:
            ex.newref_ax = True
            a, b = fresh('a', IntS), fresh('b', IntS)
            ex.facts_global.append(z3.ForAll([a, b], z3.And(seqof(newref(a, b)) == b, siteof(newref(a, b)) == a), patterns=[newref(a, b)]))
        r = newref(site, n)
        ex.assign(st, ex.ent(et, r), src)
        ex.wr(st, v.root, v.path + '@', v.idx + [n], r, [], Ref)
        set_len(ex, st, v, Add(n, I1))
        return
    ex.assign(st, Loc(et, v.root, v.path + '@', v.idx + [n]), src)
    set_len(ex, st, v, Add(n, I1))


def construct(ex, st, l, e):
    k = ex.kind(l.t)
    a = e['a']
    f = e['f']
    a = [x for x in a if not (x['k'] == 'Ctor' and 'allocator' in x['f']['n'])]
    if k == 'pair':
        ts = ex.ir.types[l.t]['a']
        if not a:
            ex.zero(st, l)
        elif len(a) == 2:
            ex.init(st, Loc(ts[0], l.root, l.path + '.first', l.idx), a[0])
            ex.init(st, Loc(ts[1], l.root, l.path + '.second', l.idx), a[1])
        else:
            v = ex.load(st, ex.ev(a[0], st))
            for i, n in enumerate(('.first', '.second')):
                sub = ex.member(st, v, n[1:], None, None)
                ex.assign(st, Loc(ts[i], l.root, l.path + n, l.idx), sub)
        return
    if not a:
        ex.zero(st, l)
        return
    if k == 'vec':
        if f.get('cpc') or f.get('mvc') or (len(a) == 1 and ex.kind(ex.ir.deref(a[0]['t'])) == 'vec' and not e.get('silist')):
            ex.assign(st, l, ex.ev(a[0], st))
            return
        if e.get('silist') or a[0]['k'] == 'InitList':
            v = ex.ev(a[0], st)
            ex.assign(st, l, v) if isinstance(v, Loc) and ex.kind(v.t) == 'vec' else ex.init_list(st, l, a[0])
            return
        if ex.kind(ex.ir.deref(a[0]['t'])) == 'int':
            n = ex.rv(a[0], st)
            et = elem_t(ex, l)
            if len(a) > 1:
                v = ex.rv(a[1], st)
            else:
                tl = Loc(et, ex.new_root('z'), '', [])
                ex.zero(st, tl)
                v = ex.load(st, tl)
            fill(ex, st, l, I0, n, v)
            set_len(ex, st, l, n)
            return
        x = ex.rv(a[0], st)
        if isinstance(x, Iter):
            y = ex.rv(a[1], st)
            copy_range(ex, st, l, x, y)
            return
    if k in ('map', 'set'):
        if f.get('cpc') or f.get('mvc') or ex.kind(ex.ir.deref(a[0]['t'])) == k:
            ex.assign(st, l, ex.ev(a[0], st))
            return
        if a[0]['k'] == 'InitList' or e.get('silist'):
            ex.zero(st, l)
            v = ex.ev(a[0], st)
            n = vlen(ex, st, v)
            if not num(n):
                raise Unsupported('initializer list')
            for i in range(n.as_long()):
                el = ex.elem(st, v, '@', elem_t(ex, v), z3.IntVal(i))
                if k == 'set':
                    insert_key(ex, st, l, ex.load(st, el))
                else:
                    insert_pair(ex, st, l, el)
            return
        x = ex.rv(a[0], st)
        if isinstance(x, Iter) and k == 'set':
            y = ex.rv(a[1], st)
            ex.zero(st, l)
            insert_range(ex, st, l, x, y)
            return
        if isinstance(x, z3.ExprRef):
            ex.zero(st, l)
            return
    raise Unsupported('construction of ' + ex.ir.types[l.t]['s'])


def fill(ex, st, l, lo, hi, v):
    et = elem_t(ex, l)
    if isinstance(v, (Loc, Entry)):
        v = ex.load(st, v)
    for p, ks, s in ex.elem_leaves(et):
        t = v.d[p] if isinstance(v, Val) else v
        if isinstance(t, z3.ExprRef) and not ks and t.sort() != s:
            t = ex.conv(t, s)
        if is_zero(lo):
            arr = z3.K(IntS, t)
        else:
            old = ex.rd(st, l.root, l.path + '@' + p, l.idx, [IntS] + ks, s)
            k = fresh('k', IntS)
            arr = lam(k, If(And(Not(k < lo), k < hi), t, sel(old, k)))
        ex.wr(st, l.root, l.path + '@' + p, l.idx, arr, [IntS] + ks, s)


def copy_range(ex, st, l, x, y, at=None):
    """l (at position at) := [x, y)"""
    et = elem_t(ex, l)
    if x.kind == 'vec':
        n = Sub(y.pos, x.pos)
        src = x.cont
        for p, ks, s in ex.elem_leaves(et):
            sa = ex.rd(st, src.root, src.path + '@' + p, src.idx, [IntS] + ks, s)
            if at is None and is_zero(x.pos):
                arr = sa
            else:
                o = at if at is not None else I0
                old = ex.rd(st, l.root, l.path + '@' + p, l.idx, [IntS] + ks, s)
                k = fresh('k', IntS)
                arr = lam(k, If(And(Not(k < o), k < Add(o, n)), sel(sa, Add(Sub(k, o), x.pos)), sel(old, k)))
            ex.wr(st, l.root, l.path + '@' + p, l.idx, arr, [IntS] + ks, s)
        set_len(ex, st, l, n if at is None else Add(at, n))
        return
    if x.kind == 'set' and x.end is False and y.end is True:
        d = dom(ex, st, x.cont)
        ks = d.sort().domain()
        n = card(d)
        enum, pos = enum_of(ex, d)
        o = at if at is not None else I0
        old = ex.rd(st, l.root, l.path + '@', l.idx, [IntS], ks)
        k = fresh('k', IntS)
        arr = enum if at is None else lam(k, If(Not(k < o), sel(enum, Sub(k, o)), sel(old, k)))
        ex.wr(st, l.root, l.path + '@', l.idx, arr, [IntS], ks)
        set_len(ex, st, l, Add(o, n))
        return
    raise Unsupported('range copy')


def enum_of(ex, d):
    """an enumeration of a finite set: (Int->K, K->Int) with its axioms."""
    ks = d.sort().domain()
    en = fresh('enum', z3.ArraySort(IntS, ks))
    po = fresh('epos', z3.ArraySort(ks, IntS))
    n = card(d)
    i = fresh('i', IntS)
    k = fresh('k', ks)
    ex.facts.append(Forall(i, Implies(And(Not(i < 0), i < n), And(sel(d, sel(en, i)), Eq(sel(po, sel(en, i)), i)))))
    ex.facts.append(Forall(k, Implies(sel(d, k), And(Not(sel(po, k) < 0), sel(po, k) < n, Eq(sel(en, sel(po, k)), k)))))
    return en, po


def insert_key(ex, st, m, k):
    d = dom(ex, st, m)
    set_dom(ex, st, m, store(d, k, T))


def insert_pair(ex, st, m, el):
    """map insert (keeps an existing value)"""
    key = ex.load(st, ex.member(st, el, 'first', None, ex.ir.types[m.t]['a'][0]))
    v = ex.load(st, ex.member(st, el, 'second', None, ex.ir.types[m.t]['a'][1]))
    d = dom(ex, st, m)
    has = sel(d, key)
    vt = ex.ir.types[m.t]['a'][1]
    for p, ks, s in ex.elem_leaves(vt):
        t = v.d[p] if isinstance(v, Val) else v
        old = ex.rd(st, m.root, m.path + '$' + p, m.idx + [key], ks, s)
        ex.wr(st, m.root, m.path + '$' + p, m.idx + [key], If(has, old, t), ks, s)
    set_dom(ex, st, m, store(d, key, T))


def insert_range(ex, st, m, x, y):
    d = dom(ex, st, m)
    ks = d.sort().domain()
    k = fresh('k', ks)
    if x.kind == 'vec':
        i = fresh('i', IntS)
        a = ex.rd(st, x.cont.root, x.cont.path + '@', x.cont.idx, [IntS], ks)
        c = Exists(i, And(Not(i < x.pos), i < y.pos, Eq(sel(a, i), k)))
    elif x.kind == 'set' and x.end is False and y.end is True:
        c = sel(dom(ex, st, x.cont), k)
    else:
        raise Unsupported('insert range')
    set_dom(ex, st, m, lam(k, Or(sel(d, k), c)))


def find_in(ex, st, x, y, v):
    """std::find over a vector range -> Iter"""
    a = ex.rd(st, x.cont.root, x.cont.path + '@', x.cont.idx, [IntS], v.sort())
    i = fresh('i', IntS)
    hit = lambda j: And(Not(j < x.pos), j < y.pos, Eq(sel(a, j), v))
    w = fresh('find', IntS)
    e = Exists(i, hit(i))
    ex.facts.append(Implies(e, And(hit(w), Forall(i, Implies(And(hit(i)), Not(i < w))))))
    ex.facts.append(Implies(Not(e), Eq(w, y.pos)))
    it = Iter('vec', x.cont, pos=w)
    it.found = e
    it.last = y.pos
    return it


def iter_eq(ex, st, a, b):
    if a.kind != b.kind:
        raise Unsupported('iterator comparison')
    if a.kind == 'vec':
        if hasattr(a, 'found') and a.last.eq(b.pos):
            return Not(a.found)
        if hasattr(b, 'found') and b.last.eq(a.pos):
            return Not(b.found)
        return Eq(a.pos, b.pos)
    # keyed
    if a.end is True and b.end is True:
        return T
    for p, q in ((a, b), (b, a)):
        if q.end is True:
            if p.end is False and p.k is None:      # begin() == end()
                return Eq(card(dom(ex, st, p.cont)), I0)
            return p.end
    raise Unsupported('iterator comparison')


def method(ex, st, f, o, e):
    n = base(f['n'])
    a = e['a']
    if isinstance(o, Iter):
        if n in ('operator@A', 'operator*'):
            return ex.deref(st, o)
        raise Unsupported('iterator method ' + n)
    if isinstance(o, Opaque):
        if ex.kind(e['t']) == 'str':
            return fresh('s', Str)
        return OPAQUE
    if isinstance(o, z3.ExprRef):
        if o.sort() == Str:
            return str_method(ex, st, n, o, a, e)
        if n.startswith('operator bool'):
            return o
        raise Unsupported('method %s on scalar' % n)
    if isinstance(o, Entry):
        raise Unsupported('method on entry')
    if isinstance(o, Val):
        o = ex.mat(st, o, o.t)
    k = ex.kind(o.t)
    if k == 'str':
        if n in ('operator=', 'clear', 'operator+=', 'push_back', 'append'):
            if n == 'operator=':
                ex.assign(st, o, ex.rv(a[0], st))
            elif n == 'clear':
                ex.assign(st, o, str_lit(''))
            else:
                v = ex.rv(a[0], st)
                ex.assign(st, o, str_concat(ex.load(st, o), v) if isinstance(v, z3.ExprRef) and v.sort() == Str else fresh('s', Str))
            return o
        return str_method(ex, st, n, ex.load(st, o), a, e)
    if k == 'opaque':
        for x in a:
            pass
        return fresh('s', Str) if ex.kind(e['t']) == 'str' else OPAQUE
    if k == 'closure':
        if n == 'operator=':
            ex.assign(st, o, ex.rv(a[0], st))
            return o
    if k == 'uptr':
        if n == 'get':
            return PtrTo(ex.deref(st, o))
        if n == 'operator=':
            ex.assign(st, o, ex.ev(a[0], st))
            return o
    if n == 'operator=':
        if a[0]['k'] == 'InitList':
            ex.init_list(st, o, a[0])
        else:
            ex.assign(st, o, ex.ev(a[0], st))
        return o
    if k == 'bool' and n.startswith('operator bool'):
        return ex.load(st, o)
    if k == 'vec':
        return vec_method(ex, st, n, o, a, e)
    if k in ('map', 'set'):
        return map_method(ex, st, n, o, a, e, k)
    raise Unsupported('std method %s on %s' % (n, k))


def str_method(ex, st, n, o, a, e):
    k = ex.kind(e['t'])
    if n == 'c_str':
        return o
    if n == 'empty':
        return Eq(o, str_lit(''))
    if k == 'int':
        return fresh('n', IntS)
    if k == 'str':
        return fresh('s', Str)
    raise Unsupported('string method ' + n)


def vec_method(ex, st, n, o, a, e):
    L = vlen(ex, st, o)
    et = elem_t(ex, o)
    if n == 'size':
        return L
    if n == 'empty':
        return Eq(L, I0)
    if n in ('push_back', 'emplace_back'):
        if len(a) == 1:
            if a[0]['k'] in ('InitList', 'Ctor') and ex.kind(et) in ('rec', 'pair', 'vec'):
                t = Loc(et, ex.new_root('pb'), '', [])
                ex.init(st, t, a[0])
                v = ex.load(st, t)
            else:
                v = ex.rv(a[0], st)
            append(ex, st, o, v)
        elif len(a) == 2 and ex.kind(et) == 'pair':
            t = Loc(et, ex.new_root('pb'), '', [])
            ts = ex.ir.types[et]['a']
            ex.init(st, Loc(ts[0], t.root, '.first', []), a[0])
            ex.init(st, Loc(ts[1], t.root, '.second', []), a[1])
            append(ex, st, o, ex.load(st, t))
        else:
            raise Unsupported('emplace_back')
        return OPAQUE
    if n == 'pop_back':
        set_len(ex, st, o, Sub(L, I1))
        return OPAQUE
    if n == 'pop_front':
        for p, ks, s in ex.elem_leaves(et):
            old = ex.rd(st, o.root, o.path + '@' + p, o.idx, [IntS] + ks, s)
            k = fresh('k', IntS)
            ex.wr(st, o.root, o.path + '@' + p, o.idx, lam(k, sel(old, Add(k, I1))), [IntS] + ks, s)
        set_len(ex, st, o, Sub(L, I1))
        return OPAQUE
    if n == 'clear':
        set_len(ex, st, o, I0)
        return OPAQUE
    if n in ('reserve', 'shrink_to_fit'):
        return OPAQUE
    if n in ('operator[]', 'at'):
        return ex.elem(st, o, '@', et, ex.rv(a[0], st))
    if n == 'front':
        return ex.elem(st, o, '@', et, I0)
    if n == 'back':
        return ex.elem(st, o, '@', et, Sub(L, I1))
    if n in ('begin', 'cbegin'):
        return Iter('vec', o, pos=I0)
    if n in ('end', 'cend'):
        return Iter('vec', o, pos=L)
    if n in ('rbegin', 'crbegin'):
        return Iter('rvec', o, pos=I0)
    if n in ('rend', 'crend'):
        return Iter('rvec', o, pos=L)
    if n == 'resize':
        m = ex.rv(a[0], st)
        if len(a) > 1:
            v = ex.rv(a[1], st)
        else:
            if ex.ir.is_entity(et):
                raise Unsupported('resize of entities')
            tl = Loc(et, ex.new_root('z'), '', [])
            ex.zero(st, tl)
            v = ex.load(st, tl)
        fill(ex, st, o, L, m, v)
        set_len(ex, st, o, m)
        return OPAQUE
    if n == 'insert' and len(a) == 3:
        p, x, y = ex.rv(a[0], st), ex.rv(a[1], st), ex.rv(a[2], st)
        if isinstance(p, Iter) and p.pos.eq(L):
            copy_range(ex, st, o, x, y, at=L)
            return OPAQUE
    if n == 'insert' and len(a) == 2:
        p = ex.rv(a[0], st)
        if isinstance(p, Iter) and p.pos.eq(L):
            append(ex, st, o, ex.rv(a[1], st))
            return OPAQUE
    if n == 'erase' and len(a) == 2:
        x, y = ex.rv(a[0], st), ex.rv(a[1], st)
        if isinstance(x, Iter) and y.pos.eq(L):
            set_len(ex, st, o, x.pos)
            return OPAQUE
    if n == 'swap':
        x = ex.ev(a[0], st)
        v1, v2 = ex.load(st, o), ex.load(st, x)
        ex.assign(st, o, v2)
        ex.assign(st, x, v1)
        return OPAQUE
    raise Unsupported('vector::%s/%d' % (n, len(a)))


def default_of(ex, st, t):
    tl = Loc(t, ex.new_root('z'), '', [])
    ex.zero(st, tl)
    return ex.load(st, tl)


def map_method(ex, st, n, o, a, e, k):
    d = dom(ex, st, o)
    if n == 'size':
        return card(d)
    if n == 'empty':
        return Eq(card(d), I0)
    if n == 'clear':
        set_dom(ex, st, o, z3.K(d.sort().domain(), F))
        return OPAQUE
    if n in ('reserve', 'rehash'):
        return OPAQUE
    if n in ('end', 'cend'):
        return Iter(k, o, end=True)
    if n in ('begin', 'cbegin'):
        return Iter(k, o, end=False)
    if n in ('find', 'count', 'contains'):
        key = ex.rv(a[0], st)
        if n == 'find':
            return Iter(k, o, key=key, end=Not(sel(d, key)))
        return If(sel(d, key), I1, I0) if n == 'count' else sel(d, key)
    if n == 'at':
        key = ex.rv(a[0], st)
        return ex.elem(st, o, '$', ex.ir.types[o.t]['a'][1], key)
    if n == 'operator[]':
        key = ex.rv(a[0], st)
        vt = ex.ir.types[o.t]['a'][1]
        has = sel(d, key)
        if not z3.is_true(has):
            if ex.ir.is_entity(vt):
                raise Unsupported('map of entities')
            dv = default_of(ex, st, vt)
            for p, ks, s in ex.elem_leaves(vt):
                t = dv.d[p] if isinstance(dv, Val) else dv
                old = ex.rd(st, o.root, o.path + '$' + p, o.idx + [key], ks, s)
                ex.wr(st, o.root, o.path + '$' + p, o.idx + [key], If(has, old, t), ks, s)
            set_dom(ex, st, o, store(d, key, T))
        return ex.elem(st, o, '$', vt, key)
    if n in ('insert', 'emplace'):
        if k == 'set':
            if len(a) == 1:
                insert_key(ex, st, o, ex.rv(a[0], st))
                return OPAQUE
            x, y = ex.rv(a[0], st), ex.rv(a[1], st)
            insert_range(ex, st, o, x, y)
            return OPAQUE
        if len(a) == 1:
            v = ex.ev(a[0], st)
            insert_pair(ex, st, o, v)
            return OPAQUE
    if n == 'erase' and len(a) == 1:
        key = ex.rv(a[0], st)
        if isinstance(key, Iter):
            key = key.k
            if key is None:
                raise Unsupported('erase by iterator')
        set_dom(ex, st, o, store(d, key, F))
        return OPAQUE
    raise Unsupported('%s::%s/%d' % (k, n, len(a)))


def operator(ex, st, f, e):
    op = e['op']
    a = e['a']
    if op == '=':
        o = ex.ev(a[0], st)
        if isinstance(o, Loc) and a[1]['k'] == 'InitList' and ex.kind(o.t) in ('vec', 'rec', 'pair'):
            ex.init_list(st, o, a[1])
            return o
        v = ex.ev(a[1], st)
        if isinstance(o, Opaque):
            return o
        if not isinstance(o, Loc):
            raise Unsupported('assignment through %r' % (o,))
        if ex.kind(o.t) == 'closure':
            v = ex.load(st, v)
            if o.idx:
                raise Unsupported('closure in indexed storage')
            st.py[o.key()] = v
            return o
        if ex.kind(o.t) == 'pair':
            v = ex.load(st, v)
            if isinstance(v, Val) and v.t != o.t:
                ts = ex.ir.types[o.t]['a']
                for i, nme in enumerate(('first', 'second')):
                    ex.assign(st, Loc(ts[i], o.root, o.path + '.' + nme, o.idx), ex.member(st, v, nme, None, None))
                return o
        ex.assign(st, o, v)
        return o
    if op == '<<':
        return OPAQUE
    x = ex.ev(a[0], st)
    if op == '->':
        if isinstance(x, Loc) and ex.kind(x.t) == 'uptr':
            return PtrTo(ex.deref(st, x))
        x = ex.load(st, x)
        if isinstance(x, Iter):
            return x
        raise Unsupported('operator->')
    if op == '*' and len(a) == 1:
        if isinstance(x, Loc) and ex.kind(x.t) == 'uptr':
            return ex.deref(st, x)
        return ex.deref(st, ex.load(st, x))
    if op == '[]':
        if isinstance(x, Val):
            x = ex.mat(st, x, x.t)
        if isinstance(x, Opaque) or isinstance(x, z3.ExprRef):
            raise Unsupported('[] on scalar')
        k = ex.kind(x.t)
        if k == 'vec':
            return ex.elem(st, x, '@', elem_t(ex, x), ex.rv(a[1], st))
        if k == 'map':
            return map_method(ex, st, 'operator[]', x, a[1:], e, 'map')
        raise Unsupported('[] on ' + k)
    if op == '()':
        c = ex.load(st, x)
        if isinstance(c, Clo):
            return ex.call_closure(st, c, a[1:])
        raise Unsupported('std::function call')
    if op in ('++', '--') and isinstance(x, Loc):
        return ex.e_Un({'op': op, 'e': a[0], 'post': len(a) == 2}, st)
    if op in ('+', '-', '==', '!=', '<', '>', '<=', '>='):
        x = ex.load(st, x)
        y = ex.rv(a[1], st) if len(a) > 1 else None
        if isinstance(x, Iter) and isinstance(y, Iter):
            if op in ('==', '!='):
                c = iter_eq(ex, st, x, y)
                return c if op == '==' else Not(c)
            if op == '-' and x.kind == 'vec':
                return Sub(x.pos, y.pos)
            raise Unsupported('iterator ' + op)
        if isinstance(x, Iter) and op in ('+', '-') and x.kind in ('vec', 'rvec'):
            return Iter(x.kind, x.cont, pos=Add(x.pos, y) if op == '+' else Sub(x.pos, y))
        if isinstance(x, Val) and isinstance(y, Val):
            k = ex.kind(x.t)
            c = val_eq(ex, x, y, k)
            return c if op == '==' else Not(c)
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            if x.sort() == Str and y.sort() == Str:
                if op == '+':
                    return str_concat(x, y)
                if op in ('==', '!='):
                    return Eq(x, y) if op == '==' else Not(Eq(x, y))
                return ex.binop(op, x, y, e['t'])
            if op == '+':
                return fresh('s', Str)
        if op == '+' and ex.kind(e['t']) == 'str':
            return fresh('s', Str)
    if op == '+=' and isinstance(x, Loc) and ex.kind(x.t) == 'str':
        y = ex.rv(a[1], st)
        ex.assign(st, x, str_concat(ex.load(st, x), y) if isinstance(y, z3.ExprRef) and y.sort() == Str else fresh('s', Str))
        return x
    raise Unsupported('std operator%s' % op)


def iter_at(ex, st, it, s):
    if not (isinstance(it, Iter) and it.kind in ('vec', 'rvec')):
        raise Unsupported('algorithm over a non-vector range')
    A = ex.rd(st, it.cont.root, it.cont.path + '@', it.cont.idx, [IntS], s)
    L = vlen(ex, st, it.cont)
    return A, ((lambda p: Sub(Sub(L, I1), p)) if it.kind == 'rvec' else (lambda p: p))


def val_eq(ex, x, y, k):
    if k == 'map':
        kk = fresh('k', x.d['?'].sort().domain())
        vs = [Eq(sel(x.d[p], kk), sel(y.d[p], kk)) for p in x.d if p.startswith('$')]
        return Forall(kk, And(Eq(sel(x.d['?'], kk), sel(y.d['?'], kk)), Implies(sel(x.d['?'], kk), And(*vs))))
    if k == 'set':
        kk = fresh('k', x.d['?'].sort().domain())
        return Forall(kk, Eq(sel(x.d['?'], kk), sel(y.d['?'], kk)))
    if k == 'vec':
        i = fresh('i', IntS)
        vs = [Eq(sel(x.d[p], i), sel(y.d[p], i)) for p in x.d if p == '@']
        if not vs:
            raise Unsupported('vector equality')
        return And(Eq(x.d['#'], y.d['#']), Forall(i, Implies(And(Not(i < 0), i < x.d['#']), And(*vs))))
    if k == 'pair':
        return And(*[Eq(x.d[p], y.d[p]) for p in x.d])
    raise Unsupported('equality of ' + k)


def pred(ex, st, clo, loc, pt):
    """evaluates a predicate closure on an element location (pure)."""
    s2 = st.copy()
    fn = ex.ir.fn(clo.ops[0])
    a = loc if ex.ir.types[fn['ps'][0]['t']]['k'] == 'ref' else ex.load(s2, loc)
    return ex.truth(ex.load(s2, ex.call_closure(s2, clo, args=[a])))


def call(ex, st, f, e):
    n = base(f['n'])
    a = e['a']
    if n in ('max', 'min') and len(a) == 2:
        x, y = ex.rv(a[0], st), ex.rv(a[1], st)
        return max_(x, y) if n == 'max' else min_(x, y)
    if n == 'clamp':
        x, lo, hi = [ex.rv(i, st) for i in a]
        return If(x < lo, lo, If(hi < x, hi, x))
    if n in ('fabs', 'abs', 'fabsf'):
        x = ex.rv(a[0], st)
        return abs_(x)
    if n in ('floor', 'ceil', 'round', 'trunc'):
        x = ex.rv(a[0], st)
        if x.sort() == IntS:
            return toreal(x)
        if n == 'floor':
            return toreal(floor_i(x))
        if n == 'ceil':
            return toreal(ceil_i(x))
        if n == 'trunc':
            return toreal(trunc(x))
        return toreal(z3.If(x < 0, -z3.ToInt(-x + z3.RealVal('1/2')), z3.ToInt(x + z3.RealVal('1/2'))))
    if n in ('move', 'forward', 'as_const'):
        return ex.ev(a[0], st)
    if n == 'swap':
        x, y = ex.ev(a[0], st), ex.ev(a[1], st)
        v, w = ex.load(st, x), ex.load(st, y)
        ex.assign(st, x, w)
        ex.assign(st, y, v)
        return OPAQUE
    if n == 'make_pair':
        l = Loc(e['t'], ex.new_root('mp'), '', [])
        ts = ex.ir.types[e['t']]['a']
        ex.assign(st, Loc(ts[0], l.root, '.first', []), ex.rv(a[0], st))
        ex.assign(st, Loc(ts[1], l.root, '.second', []), ex.rv(a[1], st))
        return ex.load(st, l)
    if n == 'to_string':
        x = ex.rv(a[0], st)
        return to_str(x)
    if n in ('find',):
        x, y, v = ex.rv(a[0], st), ex.rv(a[1], st), ex.rv(a[2], st)
        if isinstance(x, Iter) and x.kind == 'vec':
            return find_in(ex, st, x, y, v)
    if n == 'get':
        x = ex.ev(a[0], st)
        m = re.search(r'get<(\d+)', f['n'])
        i = int(m.group(1)) if m else None
        if i is None:
            raise Unsupported('std::get')
        return ex.member(st, x, ('first', 'second')[i], None, e['t'])
    if n in ('sort', 'stable_sort', 'shuffle', 'reverse'):
        x, y = ex.rv(a[0], st), ex.rv(a[1], st)
        if isinstance(x, Iter) and x.kind == 'vec' and is_zero(x.pos):
            permute(ex, st, x.cont, y.pos)
            if n in ('sort', 'stable_sort') and getattr(ex, 'sort_order', False):
                ordered(ex, st, x.cont, y.pos, ex.rv(a[2], st) if len(a) > 2 else None)
            return OPAQUE
    if n == 'unique':
        x, y = ex.rv(a[0], st), ex.rv(a[1], st)
        if isinstance(x, Iter) and x.kind == 'vec' and is_zero(x.pos):
            return dedupe(ex, st, x.cont, y.pos)
    if n in ('accumulate',) and len(a) == 3:
        x, y, v = ex.rv(a[0], st), ex.rv(a[1], st), ex.rv(a[2], st)
        if isinstance(x, Iter) and x.kind == 'vec':
            et = elem_t(ex, x.cont)
            s = ex.scal_sort(et)
            arr = ex.rd(st, x.cont.root, x.cont.path + '@', x.cont.idx, [IntS], s)
            sm = isum(x.pos, y.pos, lambda i: sel(arr, i))
            if v.sort() != s:
                if v.sort() == IntS and s == RealS:
                    raise Unsupported('accumulate into int')
                sm = ex.conv(sm, v.sort())
            return Add(v, sm)
    if n in ('accumulate', 'partial_sum') and len(a) == 4:
        import loops as _l
        ft = ex.ir.types[ex.ir.deref(a[3]['t'])]['s']
        if not re.search(r'std::multiplies<(int|double|long)?>', ft):
            raise Unsupported('std::%s/4 with %s' % (n, ft[:60]))
        x, y = ex.rv(a[0], st), ex.rv(a[1], st)
        s = ex.scal_sort(elem_t(ex, x.cont))
        A, at = iter_at(ex, st, x, s)
        cnt = Sub(y.pos, x.pos)
        q = fresh('q', IntS)
        P = fresh('rec', z3.ArraySort(IntS, s))
        if n == 'accumulate':
            v = ex.conv(ex.rv(a[2], st), s)
            ex.facts.append(Eq(z3.Select(P, I0), v))
            ex.facts.append(Forall(q, Implies(And(Not(q < 0), q < cnt), Eq(z3.Select(P, Add(q, I1)), Mul(z3.Select(P, q), sel(A, at(Add(x.pos, q))))))))
            if not ex.recur_ok:
                ex.lossy.append((('product', ''), 'product of a range'))
            ex.recs.append(dict(key=('product', ''), C=P, hi=cnt))
            return z3.Select(P, If(I0 < cnt, cnt, I0))
        d = ex.rv(a[2], st)
        ex.facts.append(Implies(I0 < cnt, Eq(z3.Select(P, I0), sel(A, at(x.pos)))))
        ex.facts.append(Forall(q, Implies(And(I0 < q, q < cnt), Eq(z3.Select(P, q), Mul(z3.Select(P, Sub(q, I1)), sel(A, at(Add(x.pos, q))))))))
        D_, dt = iter_at(ex, st, d, s)
        i = fresh('i', IntS)
        # destination index i holds prefix number u when i == dt(d.pos + u)
        u = Sub(Sub(Sub(vlen(ex, st, d.cont), I1), i) if d.kind == 'rvec' else i, d.pos)
        new = z3.Lambda([i], If(And(Not(u < 0), u < cnt), z3.Select(P, u), sel(D_, i)))
        ex.wr(st, d.cont.root, d.cont.path + '@', d.cont.idx, new, [IntS], s)
        if not ex.recur_ok:
            ex.lossy.append(((d.cont.root, d.cont.path), 'prefix products'))
        ex.recs.append(dict(key=('prefix', ''), C=P, hi=cnt))
        return OPAQUE
    if n == 'inner_product' and len(a) == 4:
        x, y, z, v = [ex.rv(i, st) for i in a]
        if not all(isinstance(w, Iter) and w.kind == 'vec' for w in (x, y, z)):
            raise Unsupported('inner_product over this range')
        s1 = ex.scal_sort(elem_t(ex, x.cont))
        s2 = ex.scal_sort(elem_t(ex, z.cont))
        A = ex.rd(st, x.cont.root, x.cont.path + '@', x.cont.idx, [IntS], s1)
        B = ex.rd(st, z.cont.root, z.cont.path + '@', z.cont.idx, [IntS], s2)
        sm = isum(I0, Sub(y.pos, x.pos), lambda i: Mul(ex.conv(sel(A, Add(i, x.pos)), v.sort()), ex.conv(sel(B, Add(i, z.pos)), v.sort())))
        return Add(v, sm)
    if n in ('max_element', 'min_element') and len(a) == 2:
        x, y = ex.rv(a[0], st), ex.rv(a[1], st)
        s = ex.scal_sort(elem_t(ex, x.cont))
        A = ex.rd(st, x.cont.root, x.cont.path + '@', x.cont.idx, [IntS], s)
        w = fresh('w', IntS)
        i = fresh('i', IntS)
        c = Not(sel(A, w) < sel(A, i)) if n == 'max_element' else Not(sel(A, i) < sel(A, w))
        ex.facts.append(Implies(x.pos < y.pos, And(Not(w < x.pos), w < y.pos, Forall(i, Implies(And(Not(i < x.pos), i < y.pos), c)))))
        ex.facts.append(Implies(Not(x.pos < y.pos), Eq(w, y.pos)))
        return Iter('vec', x.cont, pos=w)
    if n == 'fill':
        x, y, v = ex.rv(a[0], st), ex.rv(a[1], st), ex.rv(a[2], st)
        fill(ex, st, x.cont, x.pos, y.pos, v)
        return OPAQUE
    if n == 'iota':
        x, y, v = ex.rv(a[0], st), ex.rv(a[1], st), ex.rv(a[2], st)
        if is_zero(x.pos):
            k = fresh('k', IntS)
            ex.wr(st, x.cont.root, x.cont.path + '@', x.cont.idx, lam(k, Add(k, v)), [IntS], IntS)
            return OPAQUE
    if n in ('any_of', 'all_of', 'none_of', 'count_if') :
        x, y, c = ex.rv(a[0], st), ex.rv(a[1], st), ex.rv(a[2], st)
        if isinstance(x, Iter) and isinstance(c, Clo):
            if x.kind == 'vec':
                i = fresh('i', IntS)
                el = ex.elem(st, x.cont, '@', elem_t(ex, x.cont), i)
                inn = And(Not(i < x.pos), i < y.pos)
            elif x.end is False and y.end is True:
                d = dom(ex, st, x.cont)
                i = fresh('i', d.sort().domain())
                inn = sel(d, i)
                el = Entry(None, x.cont, i) if x.kind == 'map' else ex.mat(st, i, elem_t(ex, x.cont))
            else:
                raise Unsupported(n)
            p = pred(ex, st, c, el, None)
            if n == 'any_of':
                return Exists(i, And(inn, p))
            if n == 'all_of':
                return Forall(i, Implies(inn, p))
            if n == 'none_of':
                return Forall(i, Implies(inn, Not(p)))
            if x.kind == 'vec':
                return mk_sum('I', x.pos, y.pos, i, If(p, I1, I0))
    if n == 'count':
        x, y, v = ex.rv(a[0], st), ex.rv(a[1], st), ex.rv(a[2], st)
        A = ex.rd(st, x.cont.root, x.cont.path + '@', x.cont.idx, [IntS], v.sort())
        return isum(x.pos, y.pos, lambda i: If(Eq(sel(A, i), v), I1, I0))
    if n == 'distance':
        x, y = ex.rv(a[0], st), ex.rv(a[1], st)
        return Sub(y.pos, x.pos)
    if n in ('for_each',):
        raise Unsupported('for_each')
    if n in ('isnan', 'isinf'):
        return F
    if n == 'isfinite':
        return T
    if n in ('sqrt', 'pow', 'log', 'exp', 'log10', 'log2'):
        xs = [toreal(ex.rv(i, st)) for i in a]
        fn = z3.Function('fn_' + n, *([RealS] * len(xs) + [RealS]))
        return fn(*xs)
    if n in ('begin', 'end', 'cbegin', 'cend', 'size'):
        o = ex.ev(a[0], st)
        return method(ex, st, {'n': 'std::' + n}, o, dict(e, a=[]))
    if n in ('make_unique', 'make_shared'):
        et = ex.ir.types[e['t']]['a'][0]
        l = Loc(et, ex.new_root('uq'), '', [])
        if not a:
            ex.zero(st, l)
            return PtrTo(l)
    if ex.kind(e['t']) in ('void', 'opaque') and re.search(r'time|chrono|put_|setw|setprec|flush|endl', n):
        return OPAQUE
    raise Unsupported('std::%s/%d' % (n, len(a)))


to_str_i = z3.Function('to_string_i', IntS, Str)
to_str_r = z3.Function('to_string_r', RealS, Str)


def to_str(x):
    return to_str_i(x) if x.sort() == IntS else to_str_r(x)


def ceil_i(x):
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    return -z3.ToInt(-x)


def permute(ex, st, v, n):
    et = elem_t(ex, v)
    P = fresh('perm', z3.ArraySort(IntS, IntS))
    Q = fresh('iperm', z3.ArraySort(IntS, IntS))
    i = fresh('i', IntS)
    ex.facts.append(Forall(i, Implies(And(Not(i < 0), i < n), And(Not(sel(P, i) < 0), sel(P, i) < n, Eq(sel(Q, sel(P, i)), i)))))
    ex.facts.append(Forall(i, Implies(And(Not(i < 0), i < n), And(Not(sel(Q, i) < 0), sel(Q, i) < n, Eq(sel(P, sel(Q, i)), i)))))
    for p, ks, s in ex.elem_leaves(et):
        old = ex.rd(st, v.root, v.path + '@' + p, v.idx, [IntS] + ks, s)
        k = fresh('k', IntS)
        ex.wr(st, v.root, v.path + '@' + p, v.idx, lam(k, sel(old, sel(P, k))), [IntS] + ks, s)


def ordered(ex, st, v, n, c):
    """no later element of a sorted list precedes an earlier one."""
    i, j = fresh('i', IntS), fresh('j', IntS)
    et = elem_t(ex, v)
    s2 = st.copy()
    x, y = ex.elem(s2, v, '@', et, i), ex.elem(s2, v, '@', et, j)
    if isinstance(c, Clo):
        less = ex.truth(ex.load(s2, ex.call_closure(s2, c, args=[y, x])))
    elif c is None and ex.scal_sort(et) in (IntS, RealS):
        less = ex.load(s2, y) < ex.load(s2, x)
    else:
        return
    ex.facts.append(Forall([i, j], Implies(And(Not(i < 0), i < j, j < n), Not(less))))
    a, b = fresh('a', Str), fresh('b', Str)
    ex.facts_global.append(z3.ForAll([a, b], z3.Or(str_less(a, b), str_less(b, a), a == b), patterns=[str_less(a, b)]))


def dedupe(ex, st, v, n):
    """std::unique: some subsequence with the same set of elements, no equal neighbours."""
    et = elem_t(ex, v)
    s = ex.scal_sort(et)
    if s is None:
        raise Unsupported('std::unique')
    old = ex.rd(st, v.root, v.path + '@', v.idx, [IntS], s)
    new = fresh('uniq', z3.ArraySort(IntS, s))
    m = fresh('ulen', IntS)
    src = fresh('usrc', z3.ArraySort(IntS, IntS))
    pos = fresh('upos', z3.ArraySort(IntS, IntS))
    i = fresh('i', IntS)
    rng = lambda x, hi: And(Not(x < 0), x < hi)
    ex.facts.append(And(Not(m < 0), Not(n < m)))
    ex.facts.append(Forall(i, Implies(rng(i, m), And(rng(sel(src, i), n), Eq(sel(new, i), sel(old, sel(src, i))), Implies(Not(i < 1), sel(src, i - 1) < sel(src, i)),
                                                    Implies(Not(i < 1), Not(Eq(sel(new, i), sel(new, i - 1))))))))
    ex.facts.append(Forall(i, Implies(rng(i, n), And(rng(sel(pos, i), m), Eq(sel(new, sel(pos, i)), sel(old, i))))))
    if getattr(ex, 'sort_order', False):
        j = fresh('j', IntS)
        ex.facts.append(Forall([i, j], Implies(And(rng(i, m), rng(j, m), i < j), sel(src, i) < sel(src, j))))
    ex.wr(st, v.root, v.path + '@', v.idx, new, [IntS], s)
    return Iter('vec', v, pos=m)

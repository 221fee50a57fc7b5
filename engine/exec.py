"""Symbolic execution of the extracted functions (path-merging, contracts at calls)."""
import re
import z3
from sym import *
import loops


class Loc:
    __slots__ = ('t', 'root', 'path', 'idx')

    def __init__(self, t, root, path, idx):
        self.t, self.root, self.path, self.idx = t, root, path, list(idx)

    def key(self):
        return (self.root, self.path)

    def __repr__(self):
        return 'Loc(%s%s%s)' % (self.root, self.path, self.idx)


class Val:
    """record / container rvalue: relative path -> term."""
    __slots__ = ('t', 'd', 'py')

    def __init__(self, t, d, py=None):
        self.t, self.d, self.py = t, d, py or {}


class Entry:
    """element of a map seen as a pair."""

    def __init__(self, t, m, key):
        self.t, self.m, self.k = t, m, key


class Iter:
    """kind vec: position pos in container; kind key: key in a map or set, or end."""

    def __init__(self, kind, cont, pos=None, key=None, end=None, rev=False):
        self.kind, self.cont, self.pos, self.k, self.end, self.rev = kind, cont, pos, key, end, rev


class Clo:
    def __init__(self, ops, caps, this, gen=False):
        self.ops, self.caps, self.this, self.gen = ops, caps, this, gen


class PtrTo:
    def __init__(self, loc):
        self.loc = loc


class Opaque:
    pass


OPAQUE = Opaque()


class Thrown(Exception):
    """the current path ends in a throw."""


class State:
    __slots__ = ('store', 'py', 'env', 'pc', 'this')

    def __init__(self):
        self.store, self.py, self.env, self.pc, self.this = {}, {}, {}, [], None

    def copy(self):
        s = State()
        s.store, s.py, s.env, s.pc, s.this = dict(self.store), dict(self.py), dict(self.env), list(self.pc), self.this
        return s


class Out:
    def __init__(self):
        self.norm, self.brk, self.cont, self.ret = [], [], [], []


class Conflict:
    pass


class Exec:
    def __init__(self, ir, contracts=None):
        self.ir = ir
        self.contracts = contracts or {}
        self.nroot = 0
        self.assume = []         # preconditions (used to discharge aliasing questions)
        self.facts = []          # conservative (definitional) facts
        self.obligs = []         # (name, hypotheses, goal)
        self.throws = []         # path conditions under which a throw happens
        self.depth = 0
        self.stack = []
        self.sites = {}
        self.newref_ax = False
        self.facts_global = []
        self.addr_used = False
        self.recs = []           # recurrences of loops without closed form
        self.recur_ok = False    # the specification supplies the induction
        self.lossy = []          # leaves whose loop effect was abstracted
        self.used_contracts = set()
        self.inlined = set()
        self.budget = 60000
        self._leaves = {}
        self.abstract = {}       # class short name -> [(leaf, index sorts, sort)]: classes known only by their contracts
        self.noop = re.compile(r'^printemps::utility::(print|format|update_heading)|^std::(cout|cerr|endl|flush)|printf|::(print|log)_?[a-z_]*$')

    # ---- types -----------------------------------------------------------
    def kind(self, t):
        return self.ir.kind(t)

    def scal_sort(self, t):
        k = self.kind(t)
        return {'bool': BoolS, 'int': IntS, 'real': RealS, 'str': Str, 'eptr': Ref, 'cstr': Str}.get(k)

    def leaves(self, t):
        """[(relpath, [index sorts], sort)] of a type."""
        if t in self._leaves:
            return self._leaves[t]
        k = self.kind(t)
        o = self.ir.types[t]
        r = []
        if k in ('bool', 'int', 'real', 'str', 'eptr', 'cstr'):
            r = [('', [], self.scal_sort(t))]
        elif k == 'vec':
            r = [('#', [], IntS)] + [('@' + p, [IntS] + ks, s) for p, ks, s in self.elem_leaves(o['a'][0])]
        elif k == 'rawarr' or k == 'carray':
            r = [('@' + p, [IntS] + ks, s) for p, ks, s in self.elem_leaves(o['e'])]
        elif k == 'map':
            ks0 = self.scal_sort(o['a'][0])
            if ks0 is None:
                r = []
            else:
                r = [('?', [ks0], BoolS)] + [('$' + p, [ks0] + ks, s) for p, ks, s in self.elem_leaves(o['a'][1])]
        elif k == 'set':
            ks0 = self.scal_sort(o['a'][0])
            r = [('?', [ks0], BoolS)] if ks0 is not None else []
        elif k == 'uptr':
            r = [('*' + p, ks, s) for p, ks, s in self.leaves(o['a'][0])] if not self.ir.is_entity(o['a'][0]) else []
        elif k == 'pair':
            for i, f in enumerate(('first', 'second')):
                r += [('.' + f + p, ks, s) for p, ks, s in self.elem_leaves(o['a'][i])]
        elif k == 'rec' and self.ir.short(o).split('::')[-1] in self.abstract:
            r = list(self.abstract[self.ir.short(o).split('::')[-1]])
        elif k == 'rec':
            self._leaves[t] = []
            for i, b in enumerate(o.get('b', [])):
                r += [('^%d' % i + p, ks, s) for p, ks, s in self.leaves(b)]
            for f in o['f']:
                ft = f['t']
                if self.ir.types[ft]['k'] == 'ref':
                    continue
                r += [('.' + f['n'] + p, ks, s) for p, ks, s in self.leaves(ft)]
        self._leaves[t] = r
        return r

    def elem_leaves(self, t):
        if self.ir.is_entity(t):
            return [('', [], Ref)]
        return self.leaves(t)

    # ---- store -----------------------------------------------------------
    def new_root(self, n):
        self.nroot += 1
        return 'L%d:%s' % (self.nroot, n)

    def base(self, st, root, path, idxsorts, sort):
        k = (root, path)
        t = st.store.get(k)
        if t is None:
            t = z3.Const('%s|%s' % k, arr_sort(idxsorts, sort))
            st.store[k] = t
        return t

    def rd(self, st, root, path, idx, ks, sort):
        a = self.base(st, root, path, [i.sort() for i in idx] + ks, sort)
        return sels(a, idx)

    def wr(self, st, root, path, idx, v, ks=(), sort=None):
        if not idx:
            st.store[(root, path)] = v
            return
        a = self.base(st, root, path, [i.sort() for i in idx] + list(ks), sort if sort is not None else v.sort())
        st.store[(root, path)] = stores(a, idx, v)

    def load(self, st, x):
        """lvalue/any -> rvalue."""
        if isinstance(x, Loc):
            k = self.kind(x.t)
            if k in ('bool', 'int', 'real', 'str', 'eptr', 'cstr'):
                return self.rd(st, x.root, x.path, x.idx, [], self.scal_sort(x.t))
            if k in ('closure', 'iter', 'pyptr', 'opaque', 'fnptr', 'nullptr'):
                p = self.getpy(st, x)
                if p is not None:
                    return p
                if k == 'pyptr':
                    return PtrTo(Loc(self.ir.types[x.t]['e'], x.root, x.path + '*', x.idx))
                if k == 'opaque':
                    return OPAQUE
                raise Unsupported('unset %s value %s' % (k, x))
            if k == 'rawarr':
                p = self.getpy(st, x)
                return p if p is not None else x
            if k == 'sptr':
                return PtrTo(self.singleton(x.t))
            d = {}
            for p, ks, s in self.leaves(x.t):
                d[p] = self.rd(st, x.root, x.path + p, x.idx, ks, s)
            py = {}
            for (r, p), v in st.py.items():
                if r == x.root and p.startswith(x.path) and not x.idx:
                    py[p[len(x.path):]] = v
            return Val(x.t, d, py)
        if isinstance(x, Entry):
            d = {'.first': x.k}
            vt = self.ir.types[x.m.t]['a'][1]
            v = self.load(st, self.elem(st, x.m, '$', vt, x.k))
            if isinstance(v, Val):
                for p, tt in v.d.items():
                    d['.second' + p] = tt
            elif isinstance(v, z3.ExprRef):
                d['.second'] = v
            else:
                raise Unsupported('map entry copy')
            return Val(x.t, d)
        return x

    def singleton(self, t):
        return Loc(self.ir.types[t]['e'], 'MODEL', '', [])

    def getpy(self, st, x):
        v = st.py.get((x.root, x.path))
        if isinstance(v, Conflict):
            raise Unsupported('python-level value differs between paths')
        return v

    def assign(self, st, loc, v):
        v = self.load(st, v) if isinstance(v, (Loc, Entry)) and not (isinstance(v, Loc) and self.kind(v.t) == 'rawarr') else v
        k = self.kind(loc.t)
        if isinstance(v, z3.ExprRef):
            if k in ('rec', 'vec', 'map', 'set', 'uptr', 'pair'):
                raise Unsupported('scalar into %s' % k)
            s = self.scal_sort(loc.t)
            if s is not None and v.sort() != s:
                v = self.conv(v, s)
            self.wr(st, loc.root, loc.path, loc.idx, v)
            return
        if isinstance(v, Val):
            tl = self.leaves(loc.t)
            for p, ks, s in tl:
                if p not in v.d:
                    raise Unsupported('assign %s: missing leaf %s' % (self.ir.types[loc.t]['s'], p))
                self.wr(st, loc.root, loc.path + p, loc.idx, v.d[p], ks, s)
            for p, o in v.py.items():
                if not loc.idx:
                    st.py[(loc.root, loc.path + p)] = o
            return
        if isinstance(v, Opaque) and k in ('opaque', 'closure', 'iter'):
            return
        if k == 'uptr' and isinstance(v, PtrTo):
            self.assign(st, Loc(v.loc.t, loc.root, loc.path + '*', loc.idx), v.loc)
            return
        if loc.idx:
            raise Unsupported('python-level value in indexed storage')
        if k == 'eptr' and isinstance(v, PtrTo):
            raise Unsupported('pointer to inlined object stored')
        st.py[(loc.root, loc.path)] = v

    def conv(self, v, s):
        if v.sort() == s:
            return v
        if s == RealS:
            return toreal(v)
        if s == IntS:
            if v.sort() == BoolS:
                return If(v, z3.IntVal(1), z3.IntVal(0))
            if v.sort() == RealS:
                return trunc(v)
        if s == BoolS:
            return self.truth(v)
        raise Unsupported('conversion %s -> %s' % (v.sort(), s))

    def truth(self, v):
        if isinstance(v, z3.ExprRef):
            if v.sort() == BoolS:
                return v
            if v.sort() == IntS:
                if is_ite(v) and num(v.arg(1)) and num(v.arg(2)):
                    return If(v.arg(0), z3.BoolVal(v.arg(1).as_long() != 0), z3.BoolVal(v.arg(2).as_long() != 0))
                return Not(Eq(v, z3.IntVal(0)))
            if v.sort() == RealS:
                return Not(Eq(v, z3.RealVal(0)))
            if v.sort() == Ref:
                return Not(Eq(v, NULL))
        if isinstance(v, Iter):
            raise Unsupported('iterator as bool')
        if isinstance(v, PtrTo):
            return T
        if isinstance(v, Clo):
            return T
        raise Unsupported('truth of %r' % v)

    # ---- locations -------------------------------------------------------
    def elem(self, st, c, mark, et, i):
        """element location of a container location."""
        if self.ir.is_entity(et):
            r = self.rd(st, c.root, c.path + mark, c.idx + [i], [], Ref)
            return self.ent(et, r)
        return Loc(et, c.root, c.path + mark, c.idx + [i])

    def ent(self, et, r):
        n = self.ir.short(self.ir.types[et]).split('::')[-1]
        return Loc(et, 'H:' + n, '', [r])

    def member(self, st, b, name, cls, mt):
        if isinstance(b, Entry):
            if name == 'first':
                return b.k
            vt = self.ir.types[b.m.t]['a'][1]
            return self.elem(st, b.m, '$', vt, b.k)
        if isinstance(b, Val):
            if self.kind(b.t) == 'pair':
                i = 0 if name == 'first' else 1
                ft = self.ir.types[b.t]['a'][i]
            else:
                ft = [f['t'] for f in self.ir.types[b.t]['f'] if f['n'] == name][0]
            pre = '.' + name
            if '' in [p for p, _, _ in self.leaves(ft)]:
                return b.d[pre]
            if pre in b.py:
                return b.py[pre]
            return Val(ft, {p: b.d[pre + p] for p, _, _ in self.leaves(ft)},
                       {p[len(pre):]: o for p, o in b.py.items() if p.startswith(pre)})
        if isinstance(b, Iter):
            return self.member(st, self.deref(st, b), name, cls, mt)
        if not isinstance(b, Loc):
            raise Unsupported('member %s of %r' % (name, b))
        ft = mt
        o = self.ir.types[b.t]
        if o['k'] == 'rec' and 'f' in o:
            for f in o['f']:
                if f['n'] == name:
                    ft = f['t']
        ft = self.ir.deref(ft)
        if self.ir.types[ft]['k'] == 'ref':
            pass
        l = Loc(ft, b.root, b.path + '.' + name, b.idx)
        p = st.py.get((l.root, l.path)) if not l.idx else None
        if isinstance(p, PtrTo) and self.kind(ft) not in ('pyptr', 'rawarr', 'eptr', 'sptr'):
            return p.loc           # reference member
        if self.kind(b.t) == 'pair' and self.ir.is_entity(ft):
            return self.ent(ft, self.rd(st, l.root, l.path, l.idx, [], Ref))
        return l

    def base_path(self, t, bt):
        """path from derived t to base bt."""
        if t == bt:
            return ''
        for i, b in enumerate(self.ir.types[t].get('b', [])):
            p = self.base_path(b, bt)
            if p is not None:
                return '^%d' % i + p
        return None

    def deref(self, st, p):
        if isinstance(p, PtrTo):
            return p.loc
        if isinstance(p, Loc) and self.kind(p.t) == 'uptr':
            et = self.ir.types[p.t]['a'][0]
            if self.ir.is_entity(et):
                raise Unsupported('unique_ptr to entity')
            return Loc(et, p.root, p.path + '*', p.idx)
        if isinstance(p, Iter):
            if p.kind == 'vec':
                et = self.ir.types[p.cont.t]['a'][0]
                return self.elem(st, p.cont, '@', et, p.pos)
            if p.kind == 'rvec':
                import builtins_std as B
                et = self.ir.types[p.cont.t]['a'][0]
                return self.elem(st, p.cont, '@', et, Sub(Sub(B.vlen(self, st, p.cont), z3.IntVal(1)), p.pos))
            if p.kind == 'map':
                return Entry(None, p.cont, p.k)
            return p.k
        if isinstance(p, Loc) and self.kind(p.t) == 'rawarr':
            return Loc(self.ir.types[p.t]['e'], p.root, p.path + '@', p.idx + [z3.IntVal(0)])
        raise Unsupported('deref of %r' % (p,))

    def mat(self, st, v, t, name='tmp'):
        """materialise an rvalue so that it has a location."""
        if isinstance(v, (Loc, Entry)):
            return v
        t = self.ir.deref(t)
        if isinstance(v, (Iter, Clo, PtrTo, Opaque)) and self.kind(t) not in ('closure',):
            return v
        l = Loc(v.t if isinstance(v, Val) else t, self.new_root(name), '', [])
        self.assign(st, l, v)
        return l

    # ---- merging ---------------------------------------------------------
    def merge(self, states, vals=None):
        """merge states (all reachable); returns state (and merged value)."""
        if len(states) == 1:
            return (states[0], vals[0]) if vals is not None else states[0]
        n = min(len(s.pc) for s in states)
        p = 0
        while p < n and all(s.pc[p].eq(states[0].pc[p]) for s in states):
            p += 1
        sfx = [And(*s.pc[p:]) for s in states]
        r = State()
        r.this = states[0].this
        r.pc = list(states[0].pc[:p])
        o = Or(*sfx)
        if not z3.is_true(o):
            r.pc.append(o)
        keys = {}
        for s in states:
            for k in s.store:
                keys[k] = 1
        for k in keys:
            ts = [s.store.get(k) for s in states]
            ref = next(t for t in ts if t is not None)
            ini = z3.Const('%s|%s' % k, ref.sort())
            ts = [t if t is not None else ini for t in ts]
            v = ts[-1]
            for t, g in zip(reversed(ts[:-1]), reversed(sfx[:-1])):
                v = If(g, t, v)
            r.store[k] = v
        keys = {}
        for s in states:
            for k in s.py:
                keys[k] = 1
        for k in keys:
            vs = [s.py.get(k) for s in states]
            r.py[k] = self.merge_obj(vs, sfx)
        keys = {}
        for s in states:
            for k in s.env:
                keys[k] = 1
        for k in keys:
            vs = [s.env.get(k) for s in states]
            r.env[k] = self.merge_obj(vs, sfx)
        if vals is None:
            return r
        return r, self.merge_val(vals, sfx)

    def merge_obj(self, vs, sfx):
        f = vs[0]
        if all(v is f for v in vs):
            return f
        vs2 = [v for v in vs if v is not None]
        if len(vs2) == 1:
            return vs2[0]
        try:
            return self.merge_val(vs, sfx)
        except Unsupported:
            return Conflict()

    def merge_val(self, vals, sfx):
        f = vals[0]
        if all(v is f for v in vals) or len(vals) == 1:
            return f
        if all(isinstance(v, z3.ExprRef) for v in vals):
            v = vals[-1]
            for t, g in zip(reversed(vals[:-1]), reversed(sfx[:-1])):
                if t.sort() != v.sort():
                    v2 = self.conv(t, v.sort())
                    t = v2
                v = If(g, t, v)
            return v
        if all(isinstance(v, Val) for v in vals):
            d = {}
            for p in f.d:
                d[p] = self.merge_val([v.d[p] for v in vals], sfx)
            return Val(f.t, d, f.py)
        if all(isinstance(v, Loc) for v in vals) and all(v.key() == f.key() and len(v.idx) == len(f.idx) for v in vals):
            return Loc(f.t, f.root, f.path, [self.merge_val([v.idx[i] for v in vals], sfx) for i in range(len(f.idx))])
        if all(isinstance(v, PtrTo) for v in vals):
            return PtrTo(self.merge_val([v.loc for v in vals], sfx))
        if all(isinstance(v, Iter) for v in vals) and all(v.kind == f.kind and v.cont.key() == f.cont.key() for v in vals):
            if f.kind == 'vec':
                return Iter('vec', f.cont, pos=self.merge_val([v.pos for v in vals], sfx))
        raise Unsupported('merge of %s' % [type(v).__name__ for v in vals])

    # ---- statements ------------------------------------------------------
    def run_block(self, stmts, st, out):
        cur = st
        for s in stmts:
            if cur is None:
                return None
            cur = self.stmt(s, cur, out)
        return cur

    def stmt(self, s, st, out):
        """executes s; returns the fall-through state or None."""
        if s is None:
            return st
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported('step budget')
        k = s['k']
        try:
            if k == 'Block':
                return self.run_block(s['b'], st, out)
            if k == 'Expr':
                self.ev(s['e'], st)
                return st
            if k == 'Decl':
                for v in s['v']:
                    self.decl(v, st)
                return st
            if k == 'If':
                if s.get('init'):
                    st = self.stmt(s['init'], st, out)
                if s.get('cv'):
                    self.decl(s['cv'], st)
                c = self.truth(self.load(st, self.ev(s['c'], st)))
                return self.branch(st, c, lambda x: self.stmt(s['t'], x, out), lambda x: self.stmt(s['e'], x, out) if s.get('e') else x)
            if k == 'Return':
                v = None
                if s['e'] is not None:
                    v = self.ev(s['e'], st)
                    if not s['e'].get('lv') or self.ret_by_value():
                        v = self.load(st, v)
                out.ret.append((st, v))
                return None
            if k == 'Break':
                out.brk.append(st)
                return None
            if k == 'Continue':
                out.cont.append(st)
                return None
            if k == 'Null':
                return st
            if k == 'ForRange':
                return loops.for_range(self, s, st, out)
            if k in ('For', 'While', 'Do'):
                return loops.generic(self, s, st, out)
            if k == 'Switch':
                return self.switch(s, st, out)
            if k == '_Guard':
                # leaves the loop when the condition is false
                c = self.truth(self.load(st, self.ev(s['c'], st)))
                return self.branch(st, c, lambda x: x, lambda x: out.brk.append(x))
            if k == '_Body':
                o2 = Out()
                nx = self.stmt(s['b'], st, o2)
                out.ret += o2.ret
                out.brk += o2.brk
                ss = ([nx] if nx is not None else []) + o2.cont
                return self.merge(ss) if ss else None
        except Thrown:
            self.throws.append(list(st.pc))
            return None
        raise Unsupported('statement ' + (s.get('c') or k))

    def ret_by_value(self):
        f = self.stack[-1]
        return self.ir.types[f['rt']]['k'] != 'ref'

    def branch(self, st, c, f, g):
        if z3.is_true(c):
            return f(st)
        if z3.is_false(c):
            return g(st)
        # already decided by the path condition?
        for p in st.pc:
            if p.eq(c):
                return f(st)
            if p.eq(Not(c)):
                return g(st)
        a, b = st, st.copy()
        a.pc.append(c)
        b.pc.append(Not(c))
        x = f(a)
        y = g(b)
        r = [z for z in (x, y) if z is not None]
        if not r:
            return None
        return self.merge(r)

    def switch(self, s, st, out):
        v = self.load(st, self.ev(s['c'], st))
        # flatten: [(labels, stmts)]
        groups = []
        for x in s['b']['b']:
            labels = []
            while x is not None and x['k'] in ('Case', 'Default'):
                labels.append(None if x['k'] == 'Default' else x['c'])
                x = x['b']
            if labels:
                groups.append((labels, []))
            if x is not None:
                groups[-1][1].append(x)
        conds = []
        allc = []
        for labels, _ in groups:
            cs = [Eq(v, self.load(st, self.ev(l, st))) for l in labels if l is not None]
            conds.append(Or(*cs) if cs else F)
            allc += cs
        dflt = Not(Or(*allc)) if allc else T
        has_d = any(None in l for l, _ in groups)
        conds = [Or(c, dflt) if None in l else c for c, (l, _) in zip(conds, groups)]
        o2 = Out()
        carry = None
        for c, (labels, body) in zip(conds, groups):
            ss = []
            if carry is not None:
                ss.append(carry)
            if not z3.is_false(c):
                e = st.copy()
                if not z3.is_true(c):
                    e.pc.append(c)
                ss.append(e)
            if not ss:
                continue
            cur = self.merge(ss)
            carry = self.run_block(body, cur, o2)
        fin = list(o2.brk)
        if carry is not None:
            fin.append(carry)
        if not has_d and not z3.is_false(dflt):
            e = st.copy()
            if not z3.is_true(dflt):
                e.pc.append(dflt)
            fin.append(e)
        out.cont += o2.cont
        out.ret += o2.ret
        if not fin:
            return None
        return self.merge(fin)

    def decl(self, v, st):
        t = v['t']
        o = self.ir.types[t]
        if v.get('bind') is not None:
            val = self.ev(v['i'], st) if v.get('i') else None
            if o['k'] != 'ref' and not isinstance(val, (Val,)):
                val = self.load(st, val)
            self.bind_struct(v, val, st)
            return
        if v.get('static'):
            if v.get('i') and v['i'].get('k') in ('Int', 'Real'):
                st.env[v['d']] = Loc(t, 'G:' + v['n'], '', [])
                return
            raise Unsupported('static local')
        if o['k'] == 'ref':
            val = self.ev(v['i'], st)
            if not isinstance(val, (Loc, Entry)):
                val = self.mat(st, val, o['e'], v['n'])
            st.env[v['d']] = val
            return
        k = self.kind(t)
        if self.ir.is_entity(t):
            pass
        l = Loc(t, self.new_root(v['n']), '', [])
        st.env[v['d']] = l
        if v.get('i') is None:
            return
        self.init(st, l, v['i'])

    def bind_struct(self, v, val, st):
        bs = v['bind']
        if isinstance(val, Loc) and self.kind(val.t) == 'rec':
            fs = [f['n'] for f in self.ir.types[val.t]['f']]
        elif isinstance(val, Val) and self.kind(val.t) == 'rec':
            fs = [f['n'] for f in self.ir.types[val.t]['f']]
        else:
            fs = ['first', 'second']
        if len(bs) > len(fs):
            raise Unsupported('structured binding')
        for b, f in zip(bs, fs):
            x = self.member(st, val, f, None, b.get('t'))
            if not isinstance(x, (Loc, Entry)):
                x = self.mat(st, x, b['t'], b['n'])
            st.env[b['d']] = x

    def init(self, st, l, e):
        """initialise location l from expression e."""
        if e['k'] == 'Ctor' and self.kind(l.t) in ('rec', 'vec', 'map', 'set', 'pair', 'uptr'):
            self.construct(st, l, e)
            return
        if e['k'] == 'InitList':
            self.init_list(st, l, e)
            return
        if e['k'] == 'Zero':
            self.zero(st, l)
            return
        v = self.ev(e, st)
        if self.kind(l.t) in ('iter', 'pyptr', 'closure') and not isinstance(v, Loc):
            st.py[l.key()] = v
            return
        self.assign(st, l, v)

    def init_list(self, st, l, e):
        k = self.kind(l.t)
        if k in ('rec', 'pair'):
            fs = [('.' + f['n'], f['t']) for f in self.ir.types[l.t]['f']] if k == 'rec' else \
                 [('.first', self.ir.types[l.t]['a'][0]), ('.second', self.ir.types[l.t]['a'][1])]
            for (n, ft), a in zip(fs, e['a']):
                self.init(st, Loc(ft, l.root, l.path + n, l.idx), a)
            for n, ft in fs[len(e['a']):]:
                self.zero(st, Loc(ft, l.root, l.path + n, l.idx))
            return
        if k in ('vec', 'carray'):
            et = self.ir.types[l.t]['a'][0] if k == 'vec' else self.ir.types[l.t]['e']
            for i, a in enumerate(e['a']):
                self.init(st, Loc(et, l.root, l.path + '@', l.idx + [z3.IntVal(i)]), a)
            if k == 'vec':
                self.wr(st, l.root, l.path + '#', l.idx, z3.IntVal(len(e['a'])))
            return
        if len(e['a']) == 1:
            return self.init(st, l, e['a'][0])
        if not e['a']:
            return self.zero(st, l)
        raise Unsupported('initializer list of ' + self.ir.types[l.t]['s'])

    def zero(self, st, l):
        k = self.kind(l.t)
        if k in ('bool', 'int', 'real'):
            self.assign(st, l, {'bool': F, 'int': z3.IntVal(0), 'real': z3.RealVal(0)}[k])
        elif k == 'eptr':
            self.assign(st, l, NULL)
        elif k == 'str':
            self.assign(st, l, str_lit(''))
        elif k == 'vec':
            self.wr(st, l.root, l.path + '#', l.idx, z3.IntVal(0))
        elif k in ('map', 'set'):
            ks = self.scal_sort(self.ir.types[l.t]['a'][0])
            if ks is None:
                raise Unsupported('key type of ' + self.ir.types[l.t]['s'])
            self.wr(st, l.root, l.path + '?', l.idx, z3.K(ks, F), [ks], BoolS)
        elif k == 'pair':
            for i, n in enumerate(('.first', '.second')):
                self.zero(st, Loc(self.ir.types[l.t]['a'][i], l.root, l.path + n, l.idx))
        elif k == 'rec':
            c = [f for f in self.ir.find(self.ctor_name(l.t), 0) if f.get('ctor')]
            if c:
                self.run_ctor(st, l, c[0], [])
            else:
                for i, b in enumerate(self.ir.types[l.t].get('b', [])):
                    self.zero(st, Loc(b, l.root, l.path + '^%d' % i, l.idx))
                for f in self.ir.types[l.t]['f']:
                    self.zero(st, Loc(f['t'], l.root, l.path + '.' + f['n'], l.idx))
        elif k == 'uptr':
            pass
        elif k in ('opaque', 'closure', 'pyptr', 'rawarr', 'sptr', 'iter', 'ref', 'carray'):
            pass
        else:
            raise Unsupported('default value of ' + self.ir.types[l.t]['s'])

    def ctor_name(self, t):
        n = self.ir.types[t]['n']
        b = re.sub(r'<.*', '', n).split('::')[-1]
        return n + '::' + b

    def default_init(self, st, l):
        """C++ default-initialisation for defaulted constructors."""
        k = self.kind(l.t)
        if k in ('bool', 'int', 'real', 'eptr', 'rawarr'):
            return                    # indeterminate
        self.zero(st, l)

    def construct(self, st, l, e):
        f = e['f']
        k = self.kind(l.t)
        if k == 'uptr':
            v = self.ev(e['a'][0], st) if e['a'] else None
            if isinstance(v, PtrTo):
                self.assign(st, Loc(v.loc.t, l.root, l.path + '*', l.idx), self.load(st, v.loc))
                return
            if isinstance(v, Loc) and self.kind(v.t) == 'uptr':
                self.assign(st, l, v)
                return
            if v is None:
                return
            raise Unsupported('unique_ptr construction')
        if k in ('vec', 'map', 'set', 'pair'):
            import builtins_std
            builtins_std.construct(self, st, l, e)
            return
        if f.get('cpc') or f.get('mvc'):
            fn = self.ir.fn(f['id'])
            if f.get('dflt') or fn is None or not fn.get('body') or True and fn.get('dflt'):
                v = self.ev(e['a'][0], st)
                self.assign(st, l, v)
                return
        fn = self.ir.fn(f['id'])
        if fn is None:
            if not e['a']:
                self.zero(st, l)
                return
            raise Unsupported('constructor ' + f['n'])
        args = self.eval_args(fn, e['a'], st)
        self.run_ctor(st, l, fn, args)

    def run_ctor(self, st, l, fn, args):
        if fn.get('dflt'):
            for i, b in enumerate(self.ir.types[l.t].get('b', [])):
                self.default_init(st, Loc(b, l.root, l.path + '^%d' % i, l.idx))
            ini = {i['f']: i['e'] for i in fn.get('in', []) if 'f' in i}
            for f in self.ir.types[l.t]['f']:
                fl = Loc(f['t'], l.root, l.path + '.' + f['n'], l.idx)
                e = ini.get(f['n'])
                if e is not None and e['k'] not in ('Ctor',):
                    self.init(st, fl, e)
                else:
                    self.default_init(st, fl)
            return
        self.call_body(st, fn, l, args, ctor=l)

    # ---- calls -----------------------------------------------------------
    def eval_args(self, fn, args, st):
        """evaluates arguments for the parameters of fn: Loc for references, rvalues otherwise."""
        out = []
        for p, a in zip(fn['ps'], args):
            pt = self.ir.types[p['t']]
            if pt['k'] == 'ref':
                et = pt['e']
                if a['k'] in ('InitList', 'Ctor', 'Zero') and self.kind(et) in ('rec', 'vec', 'map', 'set', 'pair'):
                    l = Loc(et, self.new_root(p['n'] or 'arg'), '', [])
                    self.init(st, l, a)
                    out.append(l)
                    continue
                v = self.ev(a, st)
                if not isinstance(v, (Loc, Entry)):
                    v = self.mat(st, v, et, p['n'] or 'arg')
                out.append(v)
            else:
                if a['k'] in ('InitList', 'Ctor', 'Zero') and self.kind(p['t']) in ('rec', 'vec', 'map', 'set', 'pair', 'uptr'):
                    l = Loc(p['t'], self.new_root(p['n'] or 'arg'), '', [])
                    self.init(st, l, a)
                    out.append(l)
                    continue
                v = self.load(st, self.ev(a, st))
                out.append(v)
        return out

    def call_body(self, st, fn, this, args, ctor=None):
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        if any(f['id'] == fn['id'] for f in self.stack) and not fn.get('lambda'):
            raise Unsupported('recursion in ' + fn['n'])
        if fn.get('body') is None:
            raise Unsupported('no body: ' + fn['key'])
        self.inlined.add(fn['id'])
        self.stack.append(fn)
        saved_env, saved_this = st.env, st.this
        st.env = dict(saved_env)
        try:
            st.this = this
            for p, a in zip(fn['ps'], args):
                pt = self.ir.types[p['t']]
                if pt['k'] == 'ref':
                    st.env[p['d']] = a
                else:
                    l = Loc(p['t'], self.new_root(p['n'] or 'p'), '', [])
                    st.env[p['d']] = l
                    if isinstance(a, (Iter, Clo, PtrTo, Opaque)):
                        st.py[l.key()] = a
                    elif isinstance(a, Loc) and self.kind(a.t) == 'rawarr':
                        st.py[l.key()] = a
                    else:
                        self.assign(st, l, a)
            if ctor is not None:
                done = set()
                for i in fn.get('in', []):
                    if 'f' in i:
                        f = [x for x in self.ir.types[ctor.t]['f'] if x['n'] == i['f']][0]
                        fl = Loc(f['t'], ctor.root, ctor.path + '.' + i['f'], ctor.idx)
                        done.add(i['f'])
                        if self.ir.types[f['t']]['k'] == 'ref':
                            v = self.ev(i['e'], st)
                            st.py[fl.key()] = PtrTo(v)
                        elif i['e'] is not None:
                            if i['e']['k'] == 'Ctor' and i['e']['f'].get('dfc') and not i['e']['a']:
                                self.default_init(st, fl)
                            else:
                                self.init(st, fl, i['e'])
                    elif 'base' in i:
                        bl = Loc(i['base'], ctor.root, ctor.path + '^0', ctor.idx)
                        if i['e'] is not None and i['e']['k'] == 'Ctor':
                            self.construct(st, bl, i['e'])
                    else:
                        self.construct(st, ctor, i['e'])
            out = Out()
            fin = self.stmt(fn['body'], st, out)
            rets = list(out.ret)
            if fin is not None:
                rets.append((fin, None))
            if not rets:
                raise Thrown()
            if out.brk or out.cont:
                raise Unsupported('stray break')
            r, v = self.merge([x for x, _ in rets], [y for _, y in rets]) if any(y is not None for _, y in rets) \
                else (self.merge([x for x, _ in rets]), None)
            if r is not st:
                st.store, st.py, st.pc = r.store, r.py, r.pc
        finally:
            st.env, st.this = saved_env, saved_this
            self.stack.pop()
        return v

    def call(self, st, fn_ref, this, arg_exprs, e):
        """a call to a non-std function."""
        n = fn_ref['n']
        base = n
        if self.noop.search(n):
            for a in arg_exprs:
                pass
            k = self.kind(e['t'])
            if k == 'str':
                return fresh('s', Str)
            return OPAQUE
        fn = self.ir.fn(fn_ref['id'])
        if fn is None:
            # defaulted assignment
            if fn_ref.get('cpa') or fn_ref.get('mva'):
                self.assign(st, this, self.ev(arg_exprs[0], st))
                return this
            raise Unsupported('no definition of ' + n)
        if (fn_ref.get('cpa') or fn_ref.get('mva')) and (fn_ref.get('dflt') or fn.get('dflt')):
            self.assign(st, this, self.ev(arg_exprs[0], st))
            return this
        args = self.eval_args(fn, arg_exprs, st)
        return self.invoke(st, fn, this, args, e)

    def invoke(self, st, fn, this, args, e=None):
        for c in self.contracts.get(fn['n'], ()):
            if c.matches(fn, self):
                self.used_contracts.add(c.name)
                return c.apply(self, st, fn, this, args)
        return self.call_body(st, fn, this, args)

    def call_closure(self, st, clo, arg_exprs=None, args=None):
        ops = clo.ops
        if len(ops) != 1:
            na = len(arg_exprs if arg_exprs is not None else args)
            ops = [o for o in ops if self.ir.fn(o)['n'].endswith('operator()') and len(self.ir.fn(o)['ps']) == na]
        if len(ops) != 1:
            raise Unsupported('generic closure with %d instantiations' % len(ops))
        fn = self.ir.fn(ops[0])
        if args is None:
            args = self.eval_args(fn, arg_exprs, st)
        sv = st.env
        st.env = dict(sv)
        st.env.update(clo.caps)
        try:
            return self.call_body(st, fn, clo.this, args)
        finally:
            st.env = sv

    # ---- expressions -----------------------------------------------------
    def ev(self, e, st):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k + ' ' + str(e.get('c', '')))
        return m(e, st)

    def rv(self, e, st):
        return self.load(st, self.ev(e, st))

    def e_Int(self, e, st):
        if self.kind(e['t']) == 'bool':
            return z3.BoolVal(int(e['v']) != 0)
        return z3.IntVal(int(e['v']))

    def e_Real(self, e, st):
        v = e['v']
        if v == 'inf':
            return INF
        if v == '-inf':
            return -INF
        from fractions import Fraction
        from decimal import Decimal
        # the shortest decimal denoting the double is what the source says
        return z3.RealVal(str(Fraction(Decimal(repr(float(v))))))

    def e_Str(self, e, st):
        return str_lit(e['v'])

    def e_Null(self, e, st):
        return NULL

    def e_Zero(self, e, st):
        l = Loc(e['t'], self.new_root('z'), '', [])
        self.zero(st, l)
        return self.load(st, l)

    def e_This(self, e, st):
        l = st.this
        if isinstance(l, Loc) and l.root.startswith('H:') and l.path == '' and len(l.idx) == 1 and self.ir.is_entity(l.t):
            return l.idx[0]
        return PtrTo(l)

    def e_Throw(self, e, st):
        raise Thrown()

    def e_Fn(self, e, st):
        return Clo([e['f']['id']], {}, None)

    def e_Var(self, e, st):
        if e.get('cv') is not None:
            k = self.kind(e['t'])
            return self.e_Real({'v': e['cv']}, st) if k == 'real' else \
                z3.BoolVal(int(e['cv']) != 0) if k == 'bool' else z3.IntVal(int(e['cv']))
        if e['d'] in st.env:
            v = st.env[e['d']]
            if isinstance(v, Conflict):
                raise Unsupported('binding differs between paths: ' + e['n'])
            return v
        if e.get('g'):
            return Loc(self.ir.deref(e['t']), 'G:' + e['qn'], '', [])
        raise Unsupported('unbound variable ' + e['n'])

    def e_Mem(self, e, st):
        b = self.ev(e['b'], st)
        if e['arrow']:
            b = self.pointee(st, b, e['b']['t'])
        return self.member(st, b, e['n'], e['cls'], e['t'])

    def pointee(self, st, b, t):
        """location a pointer-like value points to."""
        if isinstance(b, Loc):
            k = self.kind(b.t)
            if k == 'uptr':
                return self.deref(st, b)
            b = self.load(st, b)
        if isinstance(b, z3.ExprRef) and b.sort() == Ref:
            o = self.ir.types[self.ir.deref(t)]
            return self.ent(o['e'], b)
        if isinstance(b, (PtrTo, Iter)):
            return self.deref(st, b)
        if isinstance(b, Loc):
            return self.deref(st, b)
        raise Unsupported('-> on %r' % (b,))

    def e_Lambda(self, e, st):
        caps = {}
        this = None
        for c in e['cap']:
            if c.get('this'):
                this = st.this
                continue
            if c.get('i') is not None:
                l = Loc(c['t'], self.new_root(c['n']), '', [])
                self.init(st, l, c['i'])
                caps[c['d']] = l
                continue
            b = st.env.get(c['d'])
            if b is None:
                continue
            if c['ref'] or not isinstance(b, Loc):
                caps[c['d']] = b
            else:
                l = Loc(b.t, self.new_root(c['n']), '', [])
                v = self.load(st, b)
                if isinstance(v, (Iter, Clo, PtrTo)):
                    st.py[l.key()] = v
                else:
                    self.assign(st, l, v)
                caps[c['d']] = l
        ops = [e['op']] if 'op' in e else list(self.ir.by_lambda.get(e['lid'], []))
        return Clo(ops, caps, this)

    def e_Cond(self, e, st):
        c = self.truth(self.rv(e['c'], st))
        if z3.is_true(c):
            return self.ev(e['l'], st)
        if z3.is_false(c):
            return self.ev(e['r'], st)
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(Not(c))
        res = []
        for s, x in ((a, e['l']), (b, e['r'])):
            try:
                v = self.ev(x, s)
                if not e.get('lv'):
                    v = self.load(s, v)
                res.append((s, v))
            except Thrown:
                self.throws.append(list(s.pc))
        if not res:
            raise Thrown()
        if len(res) == 2 and e.get('lv'):
            v1, v2 = res[0][1], res[1][1]
            if not (isinstance(v1, Loc) and isinstance(v2, Loc) and v1.key() == v2.key()):
                res = [(s, self.load(s, v)) for s, v in res]
        r, v = self.merge([s for s, _ in res], [v for _, v in res])
        self.adopt(st, r)
        return v

    def adopt(self, st, r):
        st.store, st.py, st.env, st.pc = r.store, r.py, r.env, r.pc

    def e_Bin(self, e, st):
        op = e['op']
        if op == '=':
            r = self.ev(e['r'], st)
            l = self.ev(e['l'], st)
            if not isinstance(l, Loc):
                raise Unsupported('assignment to %r' % (l,))
            self.assign(st, l, r)
            return l
        if op in ('&&', '||'):
            a = self.truth(self.rv(e['l'], st))
            if op == '&&' and z3.is_false(a) or op == '||' and z3.is_true(a):
                return a
            s2 = st.copy()
            s2.pc.append(a if op == '&&' else Not(a))
            n0 = len(s2.pc)
            try:
                b = self.truth(self.rv(e['r'], s2))
            except Thrown:
                self.throws.append(list(s2.pc))
                st.pc.append(Not(a) if op == '&&' else a)
                return F if op == '&&' else T
            pure = len(s2.pc) == n0 and all(st.store.get(k) is not None and st.store[k].eq(v) or
                                            k not in st.store and z3.is_const(v) and v.decl().name() == '%s|%s' % k or
                                            k[0].startswith('L') and k not in st.store
                                            for k, v in s2.store.items())
            if pure:
                for k, v in s2.store.items():
                    st.store.setdefault(k, v)
                return And(a, b) if op == '&&' else Or(a, b)
            s1 = st.copy()
            s1.pc.append(Not(a) if op == '&&' else a)
            r, v = self.merge([s2, s1], [b, F if op == '&&' else T])
            self.adopt(st, r)
            return v
        if op == ',':
            self.ev(e['l'], st)
            return self.ev(e['r'], st)
        a = self.rv(e['l'], st)
        b = self.rv(e['r'], st)
        return self.binop(op, a, b, e['t'], st)

    def binop(self, op, a, b, t, st=None):
        if isinstance(a, PtrTo) and isinstance(b, PtrTo) and op in ('==', '!='):
            same = self.same_loc(a.loc, b.loc)
            return same if op == '==' else Not(same)
        if isinstance(a, PtrTo) or isinstance(b, PtrTo):
            p, o = (a, b) if isinstance(a, PtrTo) else (b, a)
            if isinstance(o, z3.ExprRef) and o.sort() == Ref and op in ('==', '!='):
                if o.eq(NULL):
                    return F if op == '==' else T
                if p.loc.path == '' and len(p.loc.idx) == 1 and p.loc.root.startswith('H:'):
                    c = Eq(p.loc.idx[0], o)
                    return c if op == '==' else Not(c)
        if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)):
            raise Unsupported('operator %s on %r, %r' % (op, a, b))
        if op in ('==', '!='):
            if a.sort() != b.sort():
                if a.sort() == BoolS:
                    a = self.conv(a, b.sort())
                elif b.sort() == BoolS:
                    b = self.conv(b, a.sort())
                else:
                    a, b = toreal(a), toreal(b)
            c = Eq(a, b)
            return c if op == '==' else Not(c)
        if op in ('&', '|', '^') and True:
            x, y = self.as01(a), self.as01(b)
            if x is not None and y is not None:
                r = And(x, y) if op == '&' else Or(x, y) if op == '|' else z3.Xor(x, y)
                return r if self.kind(t) == 'bool' else If(r, z3.IntVal(1), z3.IntVal(0))
            return bitop(op, a, b)
        if a.sort() == BoolS:
            a = self.conv(a, IntS)
        if b.sort() == BoolS:
            b = self.conv(b, IntS)
        if a.sort() != b.sort() and a.sort() in (IntS, RealS) and b.sort() in (IntS, RealS):
            a, b = toreal(a), toreal(b)
        if op == '+':
            return Add(a, b)
        if op == '-':
            return Sub(a, b)
        if op == '*':
            return Mul(a, b)
        if op == '/':
            if a.sort() == IntS:
                return idiv(a, b)
            return rdiv(a, b)
        if op == '%':
            return imod(a, b)
        if op in ('<', '<=', '>', '>='):
            if num(a) and num(b):
                x, y = val(a), val(b)
                return z3.BoolVal({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
            if a.sort() == Str:
                return str_less(a, b) if op == '<' else str_less(b, a) if op == '>' else Not(str_less(b, a)) if op == '<=' else Not(str_less(a, b))
            if a.sort() == Ref:
                # objects have distinct addresses; their order is arbitrary
                if not self.addr_used:
                    self.addr_used = True
                    r = fresh('r', Ref)
                    self.facts_global.append(z3.ForAll([r], unaddr(addr(r)) == r, patterns=[addr(r)]))
                a, b = addr(a), addr(b)
            # canonical: only < and <=, negated forms folded by Not
            if op == '<':
                return a < b
            if op == '>':
                return b < a
            if op == '<=':
                return Not(b < a)
            return Not(a < b)
        if op in ('<<', '>>'):
            if num(b):
                p = 2 ** b.as_long()
                return Mul(a, z3.IntVal(p)) if op == '<<' else a / p
            return bitop(op, a, b)
        raise Unsupported('operator ' + op)

    def as01(self, a):
        if a.sort() == BoolS:
            return a
        if is_ite(a) and num(a.arg(1)) and num(a.arg(2)) and {val(a.arg(1)), val(a.arg(2))} == {0, 1}:
            return a.arg(0) if val(a.arg(1)) == 1 else Not(a.arg(0))
        if num(a) and val(a) in (0, 1):
            return z3.BoolVal(val(a) == 1)
        return None

    def same_loc(self, a, b):
        if a.root != b.root or a.path != b.path:
            return F
        return And(*[Eq(x, y) for x, y in zip(a.idx, b.idx)])

    def e_CAssign(self, e, st):
        r = self.rv(e['r'], st)
        l = self.ev(e['l'], st)
        if not isinstance(l, Loc):
            raise Unsupported('compound assignment to %r' % (l,))
        cur = self.load(st, l)
        op = e['op'][:-1]
        if not isinstance(cur, z3.ExprRef) or not isinstance(r, z3.ExprRef):
            if isinstance(cur, Iter):
                raise Unsupported('iterator arithmetic')
            raise Unsupported('compound assignment')
        cs = self.scal_sort(e['ct'])
        if cs is not None and cur.sort() != cs and op not in ('<<', '>>', '&', '|', '^'):
            cur = self.conv(cur, cs)
        v = self.binop(op, cur, r, e['ct'], st)
        self.assign(st, l, v)
        return l

    def e_Un(self, e, st):
        op = e['op']
        if op == '*':
            return self.pointee(st, self.ev(e['e'], st), e['e']['t'])
        if op == '&':
            x = self.ev(e['e'], st)
            if isinstance(x, Loc) and self.ir.is_entity(x.t) and x.root.startswith('H:') and x.path == '' and len(x.idx) == 1:
                return x.idx[0]
            if isinstance(x, Loc):
                return PtrTo(x)
            raise Unsupported('address of %r' % (x,))
        if op in ('++', '--'):
            l = self.ev(e['e'], st)
            if isinstance(l, Loc):
                cur = self.load(st, l)
                if isinstance(cur, Iter):
                    if cur.kind != 'vec':
                        raise Unsupported('iterator increment')
                    nv = Iter('vec', cur.cont, pos=Add(cur.pos, z3.IntVal(1 if op == '++' else -1)))
                    st.py[l.key()] = nv
                    return cur if e['post'] else l
                one = z3.IntVal(1) if cur.sort() == IntS else z3.RealVal(1)
                nv = Add(cur, one) if op == '++' else Sub(cur, one)
                self.assign(st, l, nv)
                return cur if e['post'] else l
            raise Unsupported('++ on %r' % (l,))
        v = self.rv(e['e'], st)
        if op == '!':
            return Not(self.truth(v))
        if op == '-':
            if num(v):
                return z3.simplify(-v)
            return -v if not is_neg(v) else v.arg(0)
        if op == '+':
            return v
        if op == '~':
            return bitop('~', v, z3.IntVal(0))
        raise Unsupported('unary ' + op)

    def e_Sub(self, e, st):
        b = self.ev(e['b'], st)
        i = self.rv(e['i'], st)
        if isinstance(b, Loc) and self.kind(b.t) == 'rawarr':
            p = self.getpy(st, b) if not b.idx else None
            if p is not None:
                b = p
        if isinstance(b, PtrTo):
            raise Unsupported('pointer subscript')
        if isinstance(b, Loc):
            et = self.ir.types[b.t]['e']
            return Loc(et, b.root, b.path + '@', b.idx + [i])
        raise Unsupported('subscript of %r' % (b,))

    def e_Cast(self, e, st):
        ck = e['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            x = self.ev(e['e'], st)
            if isinstance(x, (Iter, Entry, Opaque)) or isinstance(x, Loc) and self.kind(x.t) not in ('rec', 'pyptr'):
                return x
            bt = self.ir.deref(e['t'])
            if self.ir.types[bt]['k'] == 'ptr':
                bt = self.ir.types[bt]['e']
                if not isinstance(x, PtrTo):
                    x = PtrTo(self.pointee(st, x, e['e']['t']))
                l = x.loc
                p = self.base_path(l.t, bt)
                if p is None:
                    raise Unsupported('base cast %s -> %s' % (self.ir.types[(l if 'l' in dir() and not isinstance(x, Loc) else x).t], self.ir.types[bt]))
                return PtrTo(Loc(bt, l.root, l.path + p, l.idx))
            if not isinstance(x, Loc):
                x = self.mat(st, x, e['e']['t'])
            p = self.base_path(x.t, bt)
            if p is None:
                raise Unsupported('base cast %s -> %s' % (self.ir.types[(l if 'l' in dir() and not isinstance(x, Loc) else x).t], self.ir.types[bt]))
            return Loc(bt, x.root, x.path + p, x.idx)
        if ck == 'LValueToRValue':
            return self.load(st, self.ev(e['e'], st))
        if ck == 'ToVoid':
            self.ev(e['e'], st)
            return OPAQUE
        x = self.ev(e['e'], st)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'LValueBitCast', 'BitCast', 'AtomicToNonAtomic'):
            return x
        v = self.load(st, x)
        if ck == 'NullToPointer':
            return NULL
        if not isinstance(v, z3.ExprRef):
            if ck == 'PointerToBoolean':
                return self.truth(v)
            if ck in ('PointerToIntegral',):
                raise Unsupported('pointer to integer')
            return x
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral'):
            s = self.scal_sort(e['t'])
            if s is None:
                raise Unsupported('cast to ' + self.ir.types[e['t']]['s'])
            if v.sort() == Ref and s == IntS:
                return addr(v)
            return self.conv(v, s)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.truth(v)
        if ck == 'PointerToIntegral':
            return addr(v)
        if ck in ('ArrayToPointerDecay', 'FunctionToPointerDecay'):
            return x
        raise Unsupported('cast ' + ck)

    def e_InitList(self, e, st):
        l = Loc(e['t'], self.new_root('il'), '', [])
        if self.kind(e['t']) in ('bool', 'int', 'real', 'str', 'eptr'):
            return self.rv(e['a'][0], st) if e['a'] else self.e_Zero(e, st)
        self.init_list(st, l, e)
        return l

    def e_Ctor(self, e, st):
        t = e['t']
        k = self.kind(t)
        if k == 'str':
            if not e['a']:
                return str_lit('')
            v = self.rv(e['a'][0], st)
            return v if isinstance(v, z3.ExprRef) and v.sort() == Str else fresh('s', Str)
        if k in ('opaque',):
            return OPAQUE
        if k == 'iter' or k == 'closure':
            return self.ev(e['a'][0], st) if e['a'] else OPAQUE
        l = Loc(t, self.new_root('t'), '', [])
        self.construct(st, l, e)
        return l

    def e_New(self, e, st):
        if e['arr']:
            et = e['et']
            self.ev(e['n'], st)
            root = self.new_root('new')
            # the pointer type: find rawarr of et
            return Loc(e['t'], root, '', [])
        raise Unsupported('new')

    def e_Delete(self, e, st):
        return OPAQUE

    def e_Call(self, e, st):
        if e.get('cv') is not None and self.kind(e['t']) in ('int', 'real', 'bool'):
            k = self.kind(e['t'])
            return self.e_Real({'v': e['cv']}, st) if k == 'real' else \
                z3.BoolVal(int(e['cv']) != 0) if k == 'bool' else z3.IntVal(int(e['cv']))
        f = e.get('f')
        if f is None:
            c = self.rv(e['ce'], st)
            if isinstance(c, Clo):
                return self.call_closure(st, c, e['a'])
            raise Unsupported('indirect call')
        if f.get('std') or self.ir.fn(f['id']) is None and '::' not in f['n']:
            import builtins_std
            return builtins_std.call(self, st, f, e)
        return self.call(st, f, None, e['a'], e)

    def e_MCall(self, e, st):
        f = e.get('f')
        if e.get('cv') is not None and self.kind(e['t']) in ('int', 'real', 'bool'):
            return self.e_Call(e, st)
        o = self.ev(e['o'], st)
        if e['oa']:
            o = self.pointee(st, o, e['o']['t'])
        if f is None:
            raise Unsupported('member pointer call')
        if f.get('std'):
            import builtins_std
            return builtins_std.method(self, st, f, o, e)
        if not isinstance(o, Loc):
            o = self.mat(st, o, e['o']['t'])
        if f.get('lambda'):
            raise Unsupported('lambda member call')
        return self.call(st, f, o, e['a'], e)

    def e_OpCall(self, e, st):
        f = e.get('f')
        if f is None:
            raise Unsupported('unresolved operator')
        if f.get('lambda'):
            c = self.rv(e['a'][0], st)
            if not isinstance(c, Clo):
                raise Unsupported('call of %r' % (c,))
            fn = self.ir.fn(f['id'])
            if fn is not None and f['id'] in (c.ops or [f['id']]) or len(c.ops) != 1:
                c = Clo([f['id']], c.caps, c.this)
            return self.call_closure(st, c, e['a'][1:])
        if f.get('std'):
            import builtins_std
            return builtins_std.operator(self, st, f, e)
        if f.get('m') and not f.get('st'):
            o = self.ev(e['a'][0], st)
            if not isinstance(o, Loc):
                o = self.mat(st, o, e['a'][0]['t'])
            return self.call(st, f, o, e['a'][1:], e)
        return self.call(st, f, None, e['a'], e)

    def e_Unsupported(self, e, st):
        raise Unsupported('expression ' + e.get('c', '?'))


addr = z3.Function('addr', Ref, IntS)
unaddr = z3.Function('object at', IntS, Ref)
_bit = {}


def bitop(op, a, b):
    if a.sort() == RealS or b.sort() == RealS:
        raise Unsupported('bit operation')
    if op not in _bit:
        _bit[op] = z3.Function('bit' + op, IntS, IntS, IntS)
    if a.sort() == BoolS:
        a = If(a, z3.IntVal(1), z3.IntVal(0))
    if b.sort() == BoolS:
        b = If(b, z3.IntVal(1), z3.IntVal(0))
    if op == '&':
        for x, y in ((a, b), (b, a)):
            if num(y) and y.as_long() >= 0 and (y.as_long() + 1) & y.as_long() == 0:
                return imodp(x, y.as_long() + 1)      # two's complement: x & (2^k - 1) = x mod 2^k
    return _bit[op](a, b)


def imodp(x, m):
    if num(x):
        return z3.IntVal(x.as_long() % m)
    return x % z3.IntVal(m)


def rdiv(a, b):
    if num(a) and num(b) and val(b) != 0:
        return z3.simplify(a / b)
    if num(b) and val(b) != 0:
        return Mul(a, z3.simplify(1 / b))
    return a / b


def is_neg(v):
    return z3.is_app_of(v, z3.Z3_OP_UMINUS)


def val(t):
    return t.as_long() if z3.is_int_value(t) else t.as_fraction()

"""Closed forms of loops.

A loop body is executed once from a state in which every leaf it may change is
an unknown `h`; the effect of all iterations on each leaf is then computed as a
closed form (finite sum, quantifier, last writer, extremum, appended list, ...)
that is exact for every number of iterations.  A leaf with no closed form is
abstracted by an unconstrained symbol and reported in ex.lossy.
"""
import z3
from sym import *
import sym

I0, I1 = z3.IntVal(0), z3.IntVal(1)
UNROLL = 8


class Dom:
    def __init__(self, kind, hi=None, dom=None):
        self.kind, self.hi, self.dom = kind, hi, dom
        self.sort = IntS if kind == 'I' else dom.sort().domain()

    def has(self, q, upto=None):
        if self.kind == 'I':
            return And(Not(q < 0), q < (self.hi if upto is None else upto))
        return sel(self.dom, q)

    def sum(self, q, body, upto=None):
        if self.kind == 'I':
            return mk_sum('I', I0, self.hi if upto is None else upto, q, body)
        return mk_sum('S', self.dom, None, q, body)


def for_range(ex, s, st, out):
    import exec as X
    v = s['v']
    r = ex.ev(s['r'], st)
    if isinstance(r, X.Iter) or isinstance(r, z3.ExprRef):
        raise Unsupported('range of %r' % (r,))
    if isinstance(r, X.Val):
        r = ex.mat(st, r, r.t)
    k = ex.kind(r.t)
    import builtins_std as B

    def bind(s2, q, el):
        d = v['d']
        if v.get('bind') is not None:
            ex.bind_struct(v, el, s2)
            return
        if ex.ir.types[v['t']]['k'] == 'ref':
            if not isinstance(el, (X.Loc, X.Entry)):
                el = ex.mat(s2, el, v['t'], v['n'])
            s2.env[d] = el
        else:
            l = X.Loc(v['t'], ex.new_root(v['n']), '', [])
            s2.env[d] = l
            if isinstance(el, X.Entry):
                s2.env[d] = el
            else:
                ex.assign(s2, l, el)
    if k in ('vec', 'carray'):
        et = ex.ir.types[r.t]['a'][0] if k == 'vec' else ex.ir.types[r.t]['e']
        n = B.vlen(ex, st, r) if k == 'vec' else z3.IntVal(int(ex.ir.types[r.t]['sz']))
        dm = Dom('I', hi=n)

        def setup(s2, q):
            bind(s2, q, ex.elem(s2, r, '@', et, q))
        frozen = [((r.root, r.path + '#'), r.idx)]
    elif k in ('map', 'set'):
        d = B.dom(ex, st, r)
        dm = Dom('S', dom=d)

        def setup(s2, q):
            if k == 'map':
                bind(s2, q, X.Entry(None, r, q))
            else:
                bind(s2, q, q)
        frozen = [((r.root, r.path + '?'), r.idx)]
    else:
        raise Unsupported('range-for over ' + k)
    return run(ex, st, out, dm, setup, s['b'], None, frozen)


def static_var(e):
    while e['k'] == 'Cast':
        e = e['e']
    return e if e['k'] == 'Var' else None


def generic(ex, s, st, out):
    import exec as X
    inv = getattr(ex, 'loop_inv', None)
    if inv is not None:
        r = inv(ex, s, st, out)
        if r is not NotImplemented:
            return r
    if s['k'] != 'For':
        return whileloop(ex, s, st, out)
    if s.get('init'):
        st = ex.stmt(s['init'], st, out)
    iv, step = None, None
    inc = s.get('inc')
    if inc is not None:
        i2 = inc
        while i2['k'] == 'Cast':
            i2 = i2['e']
        if i2['k'] == 'Un' and i2['op'] in ('++', '--'):
            iv = static_var(i2['e'])
            step = 1 if i2['op'] == '++' else -1
        elif i2['k'] == 'CAssign' and i2['op'] in ('+=', '-='):
            c = i2['r']
            while c['k'] == 'Cast':
                c = c['e']
            if c['k'] == 'Int':
                iv = static_var(i2['l'])
                step = int(c['v']) * (1 if i2['op'] == '+=' else -1)
    if iv is None or s.get('c') is None:
        return whileloop(ex, dict(s, init=None), st, out)
    loc = st.env.get(iv['d'])
    if not isinstance(loc, X.Loc):
        return whileloop(ex, dict(s, init=None), st, out)
    cur = ex.load(st, loc)
    if not isinstance(cur, z3.ExprRef) or cur.sort() != IntS:
        return whileloop(ex, dict(s, init=None), st, out)
    i0 = cur
    key = (loc.root, loc.path)
    # the condition at iteration j, in the state at the loop head
    j = fresh('j', IntS)
    s2 = st.copy()
    s2.store[key] = Add(i0, Mul(j, z3.IntVal(step)))
    c = ex.truth(ex.rv(s['c'], s2))
    n = count_of(c, j)
    if n is None:
        return whileloop(ex, dict(s, init=None), st, out)

    def setup(s3, q):
        s3.store[key] = Add(i0, Mul(q, z3.IntVal(step)))
        return key
    r = run(ex, st, out, Dom('I', hi=n), setup, s['b'], (s, j, c, key), [], ind=(key, i0, step))
    return r


def count_of(c, j):
    """number of leading j >= 0 with c(j), for c linear and decreasing in j."""
    neg = False
    if z3.is_not(c):
        neg, c = True, c.arg(0)
    if z3.is_gt(c):
        c = z3.ArithRef.__lt__(c.arg(1), c.arg(0))
    if z3.is_true(c) or z3.is_false(c):
        return I0 if z3.is_true(c) == neg else None
    if not (z3.is_lt(c)) and not (z3.is_eq(c) and neg):
        return None
    a, b = c.arg(0), c.arg(1)
    if a.sort() != IntS:
        return None
    ja, jb = j.decl().name() in deep_consts(a), j.decl().name() in deep_consts(b)
    if ja == jb:
        return None
    at = lambda t, k: z3.simplify(subst(t, [(j, z3.IntVal(k))]))
    side = a if ja else b
    d = z3.simplify(at(side, 1) - at(side, 0))
    if not num(d):
        return None
    d = d.as_long()
    chk = z3.simplify(side - at(side, 0) - j * d)
    if not (num(chk) and chk.as_long() == 0):
        return None
    s0 = subst(side, [(j, I0)])
    if z3.is_eq(c):                      # i != b
        if d == 1:
            oth = b if ja else a
            n = Sub(oth, s0)
            return If(n < 0, I0, n)     # assumes termination
        return None
    if ja and not neg and d == 1:        # i0 + j < b
        n = Sub(b, s0)
    elif jb and not neg and d == -1:     # a < i0 - j
        n = Sub(s0, a)
    elif jb and neg and d == 1:          # !(b < i0 + j)
        n = Add(Sub(a, s0), I1)
    elif ja and neg and d == -1:         # !(i0 - j < b)
        n = Add(Sub(s0, b), I1)
    else:
        return None
    n = z3.simplify(n) if num(z3.simplify(n)) else n
    if num(n):
        return n if n.as_long() > 0 else I0
    return If(n < 0, I0, n)


def whileloop(ex, s, st, out):
    """concrete loops are unrolled; any other loop is an unbounded sequence of
    iterations left at the first one whose condition fails (termination assumed)."""
    import exec as X
    marks = [(l, len(l)) for l in (ex.facts, ex.obligs, ex.throws, ex.lossy, ex.recs)]
    o2 = X.Out()
    try:
        r = unroll(ex, s, st.copy(), o2)
        out.ret += o2.ret
        return r
    except Unsupported as e:
        if 'without closed form' not in str(e):
            raise
    for l, n in marks:
        del l[n:]
    g = [{'k': '_Guard', 'c': s['c']}] if s.get('c') is not None else []
    b = {'k': '_Body', 'b': s['b']}
    inc = [{'k': 'Expr', 'e': s['inc']}] if s.get('inc') else []
    body = {'k': 'Block', 'b': ([b] + g) if s['k'] == 'Do' else (g + [b] + inc)}
    N = fresh('iters', IntS)
    ex.facts.append(I0 < N)
    return run(ex, st, out, Dom('I', hi=N), lambda s2, q: None, body, 'while', [])


def unroll(ex, s, st, out):
    """loops with a concrete number of iterations only."""
    import exec as X
    if s.get('init'):
        st = ex.stmt(s['init'], st, out)
    o2 = X.Out()
    cur = st
    fin = []
    for it in range(64):
        if cur is None:
            break
        if not (s['k'] == 'Do' and it == 0) and s.get('c') is not None:
            c = ex.truth(ex.rv(s['c'], cur))
            c2 = z3.simplify(c)
            if z3.is_false(c2):
                fin.append(cur)
                cur = None
                break
            if not z3.is_true(c2):
                raise Unsupported('loop without closed form (%s)' % s['k'])
        o3 = X.Out()
        nx = ex.stmt(s['b'], cur, o3)
        o2.ret += o3.ret
        fin += o3.brk
        ss = ([nx] if nx is not None else []) + o3.cont
        cur = ex.merge(ss) if ss else None
        if cur is not None and s.get('inc'):
            ex.ev(s['inc'], cur)
    else:
        raise Unsupported('loop without closed form (%s)' % s['k'])
    out.ret += o2.ret
    return ex.merge(fin) if fin else None


def root_serial(root):
    if root.startswith('L'):
        try:
            return int(root[1:].split(':', 1)[0])
        except ValueError:
            pass
    return 0


def run(ex, st, out, dm, setup, body, forinfo, frozen, ind=None):
    import exec as X
    if dm.kind == 'I' and num(dm.hi) and dm.hi.as_long() <= UNROLL:
        cur = st
        fin = []
        for it in range(dm.hi.as_long()):
            if cur is None:
                break
            setup(cur, z3.IntVal(it))
            o3 = X.Out()
            nx = ex.stmt(body, cur, o3)
            out.ret += o3.ret
            fin += o3.brk
            ss = ([nx] if nx is not None else []) + o3.cont
            cur = ex.merge(ss) if ss else None
        if cur is not None:
            fin.append(cur)
        return ex.merge(fin) if fin else None
    serial0 = ex.nroot
    env0 = st.env
    mod = {}
    nf, no, nt, nl, nr = len(ex.facts), len(ex.obligs), len(ex.throws), len(ex.lossy), len(ex.recs)
    for rounds in range(8):
        del ex.facts[nf:], ex.obligs[no:], ex.throws[nt:], ex.lossy[nl:], ex.recs[nr:]
        cnt0 = dict(sym._cnt)
        bv = fresh('bv', dm.sort)
        s2 = st.copy()
        hs = {}
        for k, so in mod.items():
            hs[k] = fresh('h', so)
            s2.store[k] = hs[k]
        indom = dm.has(bv)
        s2.pc.append(indom)
        npc = len(s2.pc)
        setup(s2, bv)
        start = dict(s2.store)
        py0 = dict(s2.py)
        o3 = X.Out()
        nx = ex.stmt(body, s2, o3)
        ends = ([nx] if nx is not None else []) + o3.cont
        allend = ends + o3.brk + [x for x, _ in o3.ret]
        new = dict(mod)
        for e in allend:
            for k, t in e.store.items():
                if root_serial(k[0]) > serial0 or (ind is not None and k == ind[0]):
                    continue
                o = start.get(k)
                if o is None:
                    if z3.is_const(t) and t.decl().name() == '%s|%s' % k:
                        continue
                elif o.eq(t):
                    continue
                new[k] = t.sort()
            for k, v in e.py.items():
                if root_serial(k[0]) > serial0:
                    continue
                if not same_obj(py0.get(k), v):
                    raise Unsupported('loop changes a non-logical value %s %r' % (k, v))
        if len(new) == len(mod):
            break
        mod = new
    else:
        raise Unsupported('loop frame does not stabilise')
    if ind is not None:
        for e in ends:
            t = e.store.get(ind[0])
            if t is not None and not t.eq(start[ind[0]]):
                raise Unsupported('loop counter changed in the body')
        # the bound must not change in the loop
        if any(h.decl().name() in deep_consts(dm.hi) for h in hs.values()):
            raise Unsupported('loop bound changes')
        sc = st.copy()
        for k, h in hs.items():
            sc.store[k] = h
        setup(sc, forinfo[1])
        c2 = ex.truth(ex.rv(forinfo[0]['c'], sc))
        if not c2.eq(forinfo[2]) and any(h.decl().name() in deep_consts(c2) for h in hs.values()):
            raise Unsupported('loop bound changes in the body')
    for k, idx in frozen:
        if k in mod and not (ind is not None and k == ind[0]):
            so = z3.Solver()
            so.set('timeout', 3000)
            same = True
            for e in ends:
                t = e.store.get(k)
                if t is None:
                    continue
                a, b = sels(t, idx), sels(hs[k], idx)
                if a.eq(b):
                    continue
                so.push()
                so.add(*ex.assume)
                so.add(*e.pc)
                if a.sort().kind() == z3.Z3_ARRAY_SORT:
                    x = fresh('k', a.sort().domain())
                    so.add(sel(a, x) != sel(b, x))
                else:
                    so.add(a != b)
                same = same and so.check() == z3.unsat
                so.pop()
            if not same:
                raise Unsupported('container changed while iterated')
    L = Loop(ex, dm, bv, st, npc, hs, cnt0)
    # --- end of iteration
    exits = list(o3.brk) + [x for x, _ in o3.ret]
    if ends:
        nxt = ex.merge(ends)
        for k in mod:
            t = nxt.store.get(k)
            L.end[k] = t if t is not None else hs[k]
        L.stay = And(*nxt.pc[npc:])
    else:
        nxt = None
        L.stay = F
        for k in mod:
            L.end[k] = hs[k]
    facts = ex.facts[nf:]
    obligs = ex.obligs[no:]
    throws = ex.throws[nt:]
    del ex.facts[nf:], ex.obligs[no:], ex.throws[nt:]
    L.lift(facts, obligs, throws, exits, o3.ret)
    L.find_own()
    L.exitc = [L.lf(And(*x.pc[npc:])) for x in exits]
    thr = [L.lf(And(*t[npc:])) for t in throws]
    anyexit = Or(*L.exitc)
    L.solve()
    # facts hold at every executed iteration; they are definitional for fresh
    # symbols, so asserting them for every index is conservative
    at = L.at_iter
    for f in facts:
        ex.facts.append(Forall(bv, at(L.lf(f))))
    for nm, hy, g in obligs:
        ex.obligs.append((nm, [at(L.lf(x)) for x in hy] , at(L.lf(g))))
    for t, c in zip(throws, thr):
        ex.throws.append(list(st.pc) + [Exists(bv, And(indom, at(c)))])
    nothrow = [Forall(bv, Implies(indom, Not(at(c)))) for c in thr]
    res = st
    if not exits:
        for k in mod:
            st.store[k] = L.final(k)
        st.pc += [x for x in nothrow if not z3.is_true(x)]
        if ind is not None:
            st.store[ind[0]] = Add(ind[1], Mul(dm.hi, z3.IntVal(ind[2])))
        if nxt is None and not exits:
            # every iteration throws
            st.pc.append(Not(Exists(bv, indom)) if dm.kind == 'S' else Not(I0 < dm.hi))
        st.env = env0
        return st
    ec = at(anyexit)
    some = Exists(bv, And(indom, ec))
    # ---- the exit iteration
    usesw = False
    J = fresh('exit', dm.sort)
    if dm.kind == 'I':
        q = fresh('q', IntS)
        ex.facts.append(Implies(some, And(dm.has(J), subst(ec, [(bv, J)]),
                                          Forall(q, Implies(And(Not(q < 0), q < J), Not(subst(ec, [(bv, q)])))))))
    else:
        if mod:
            for k in mod:
                if not L.end[k].eq(hs[k]):
                    pass        # the exit state is some intermediate state: unknown by design, not a loss
        ex.facts.append(Implies(some, And(dm.has(J), subst(ec, [(bv, J)]))))
    fin = []
    L.quiet = True          # what an unordered loop has accumulated when it is left early is unknown by design
    for x, c, rv in zip(exits, L.exitc, [None] * len(o3.brk) + [v for _, v in o3.ret]):
        s4 = st.copy()
        cj = subst(at(c), [(bv, J)])
        alone = len(exits) == 1
        s4.pc.append(some)
        if not alone and not z3.is_true(cj):
            s4.pc.append(cj)
        s4.pc += [subst(y, [(bv, J)]) for y in ()]
        fix = lambda t: subst(L.at_iter(L.lf(t)), [(bv, J)])
        for k, t in x.store.items():
            if root_serial(k[0]) > serial0:
                # roots created inside the body may be referenced by the result
                s4.store[k] = fix(t)
                continue
            s4.store[k] = fix(t)
        s4.py = {k: fix_obj(ex, v, fix) for k, v in x.py.items()}
        if rv is None and x in o3.brk:
            s4.env = dict(st.env)
            fin.append(s4)
        else:
            s4.env = dict(st.env)
            out.ret.append((s4, fix_obj(ex, rv, fix)))
    # ---- normal completion
    s5 = st.copy()
    s5.pc.append(Not(some))
    s5.pc += [x for x in nothrow if not z3.is_true(x)]
    for k in mod:
        s5.store[k] = L.final(k)
    if ind is not None:
        s5.store[ind[0]] = Add(ind[1], Mul(dm.hi, z3.IntVal(ind[2])))
    if forinfo == 'while':
        ex.facts.append(some)           # the loop terminates
    else:
        fin.append(s5)
    r = ex.merge(fin)
    r.env = dict(env0)
    return r


def same_obj(a, b):
    import exec as X
    if a is b:
        return True
    if isinstance(a, X.PtrTo) and isinstance(b, X.PtrTo):
        return same_obj(a.loc, b.loc)
    if isinstance(a, X.Loc) and isinstance(b, X.Loc):
        return a.key() == b.key() and len(a.idx) == len(b.idx) and all(x.eq(y) for x, y in zip(a.idx, b.idx))
    return False


def fix_obj(ex, v, fix):
    import exec as X
    if v is None or isinstance(v, (X.Clo, X.Opaque, X.Conflict)):
        return v
    if isinstance(v, z3.ExprRef):
        return fix(v)
    if isinstance(v, X.Val):
        return X.Val(v.t, {p: fix(t) for p, t in v.d.items()}, v.py)
    if isinstance(v, X.Loc):
        return X.Loc(v.t, v.root, v.path, [fix(i) for i in v.idx])
    if isinstance(v, X.PtrTo):
        return X.PtrTo(fix_obj(ex, v.loc, fix))
    if isinstance(v, X.Iter):
        w = X.Iter(v.kind, fix_obj(ex, v.cont, fix), pos=fix(v.pos) if v.pos is not None else None,
                   key=fix(v.k) if v.k is not None else None, end=fix(v.end) if isinstance(v.end, z3.ExprRef) else v.end)
        return w
    raise Unsupported('exit value')


class Loop:
    def __init__(self, ex, dm, bv, st, npc, hs, cnt0):
        self.ex, self.dm, self.bv, self.st, self.npc, self.hs, self.cnt0 = ex, dm, bv, st, npc, hs, cnt0
        self.end = {}
        self.V = {}        # key -> term with bv = value at the start of iteration bv
        self.Fin = {}
        self.lpairs = []
        self.quiet = False
        self.memo = {}
        self.keep = []
        self.own = []
        self.rec = []

    # -- lambda lifting of symbols created in the body ---------------------
    def lift(self, facts, obligs, throws, exits, rets):
        ts = list(facts) + [g for _, _, g in obligs] + [h for _, hh, _ in obligs for h in hh] + [c for t in throws for c in t]
        ts += list(self.end.values())
        for x in exits:
            ts += list(x.pc) + list(x.store.values())
        for _, v in rets:
            if isinstance(v, z3.ExprRef):
                ts.append(v)
            elif v is not None and hasattr(v, 'd'):
                ts += list(v.d.values())
        names = {}
        for t in ts:
            for n in deep_consts(t):
                names[n] = 1
        hn = {h.decl().name() for h in self.hs.values()} | {self.bv.decl().name()}
        # sorts of the constants
        srt = {}
        seen = set()

        def walk(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                walk(t.body())
                return
            if z3.is_app(t):
                if t.num_args() == 0:
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        n = t.decl().name()
                        srt.setdefault(n, t)
                        if n in SUMS:
                            for y in (SUMS[n][1], SUMS[n][2], SUMS[n][4]):
                                if y is not None:
                                    walk(y)
                        if n in SUMA:
                            walk(SUMA[n][1])
                else:
                    for c in t.children():
                        walk(c)
        for t in ts:
            walk(t)
        for n in names:
            if n in hn or n in SUMS or n in SUMA or '!' not in n or '|' in n or ':' in n:
                continue
            p, k = n.rsplit('!', 1)
            if p.startswith('b') and len(p) == 2 and p[1].isupper():
                continue
            if not k.isdigit() or int(k) <= self.cnt0.get(p, 0):
                continue
            c = srt.get(n)
            if c is None:
                continue
            C = fresh(p, z3.ArraySort(self.dm.sort, c.sort()))
            self.lpairs.append((c, z3.Select(C, self.bv)))

    def lf(self, t):
        t = subst(t, self.lpairs) if self.lpairs else t
        if self.own:
            t = norm(z3.substitute(t, *self.own))
        return t

    def find_own(self):
        """unordered loops: leaves whose element bv is touched only by
        iteration bv; inside iteration bv that element has its initial value."""
        self.own = []
        if self.dm.kind != 'S':
            return
        prs = []
        for k, h in self.hs.items():
            so = h.sort()
            depth = []
            while so.kind() == z3.Z3_ARRAY_SORT:
                depth.append(fresh('k', so.domain()))
                so = so.range()
            if not depth:
                continue
            e = norm(self.lf(self.end[k]))
            t = self.point(sels(e, depth), depth)
            hv = fresh('hk', so)
            t = norm(z3.substitute(t, (sels(h, depth), hv)))
            us = guard_eqs(change_guard(t, hv), self.bv)
            for j, d in enumerate(depth):
                if any(u.eq(d) for u in us):
                    # index prefix before j must be concrete in the reads
                    prs.append((k, h, j))
                    break
        self.ownk = {}
        for k, h, j in prs:
            if j == 0:
                self.own.append((z3.Select(h, self.bv), z3.Select(self.init(k), self.bv)))
            else:
                # reads h[x..][bv] with x free of h: collect them syntactically
                for t in list(self.end.values()):
                    for r in find_reads(t, h, j, self.bv):
                        self.own.append((r, sels(self.init(k), args_of(r))))

    # -- value substitution -------------------------------------------------
    def at_iter(self, t):
        """replace every h by its value at the start of iteration bv."""
        prs = []
        dc = deep_consts(t)
        for k, h in self.hs.items():
            if h.decl().name() in dc:
                prs.append((h, self.start(k)))
        return msubst(t, prs)

    def start(self, k):
        if k not in self.V:
            if self.dm.kind == 'S':
                # order unspecified: unknown
                v = self.fresh_iter(k)
                if self.monotone(k, v):
                    pass
                elif not self.quiet:
                    self.ex.lossy.append((k, 'value inside an unordered loop'))
                self.V[k] = v
            else:
                raise Unsupported('loop value')
        return self.V[k]

    def monotone(self, k, v):
        """a flag that is only ever cleared (or only ever set): its value in between lies between the first and the last."""
        h = self.hs[k]
        if h.sort() != BoolS or k not in self.Fin:
            return False
        e = norm(self.lf(self.end[k]))
        for up in (False, True):
            so = z3.Solver()
            so.set('timeout', 1000)
            so.add(Not(Implies(h, e) if up else Implies(e, h)))
            if so.check() == z3.unsat:
                a, b = self.init(k), self.Fin[k]
                self.ex.facts.append(Forall(self.bv, And(Implies(a, v), Implies(v, b)) if up else And(Implies(v, a), Implies(b, v))))
                return True
        return False

    def fresh_iter(self, k):
        C = fresh('lv', z3.ArraySort(self.dm.sort, self.hs[k].sort()))
        return z3.Select(C, self.bv)

    def final(self, k):
        return self.Fin[k]

    def init(self, k):
        t = self.st.store.get(k)
        if t is None:
            t = z3.Const('%s|%s' % k, self.hs[k].sort())
        return t

    # -- solving -------------------------------------------------------------
    def solve(self):
        todo = {}
        for k in self.hs:
            e = self.lf(self.end[k])
            todo[k] = norm(e)
        hn = {k: h.decl().name() for k, h in self.hs.items()}
        self.cntinfo = {}
        for k in list(todo):
            if todo[k].eq(self.hs[k]):
                self.V[k] = self.Fin[k] = self.init(k)
                del todo[k]
        while todo:
            progress = False
            for k in list(todo):
                e = todo[k]
                deps = [m for m in self.hs if m != k and hn[m] in deep_consts(e)]
                if any(m in todo for m in deps):
                    continue
                if self.dm.kind == 'S' and any(m not in self.V for m in deps):
                    ok = self.push_S(k, e, deps)
                    if ok:
                        del todo[k]
                        progress = True
                        continue
                try:
                    e2 = msubst(e, [(self.hs[m], self.start(m)) for m in deps])
                    self.solve_one(k, e2)
                except NoForm as x:
                    self.give_up(k, str(x))
                del todo[k]
                progress = True
            if not progress:
                # mutual dependence: abstract the first one
                k = min(todo, key=lambda m: len(str(m)))
                self.give_up(k, 'mutually dependent updates')
                del todo[k]
        for k, C in self.rec:
            # exact recurrence: C[q] is the value at the start of iteration q
            e = self.at_iter(norm(self.lf(self.end[k])))
            so = self.hs[k].sort()
            ix = []
            while so.kind() == z3.Z3_ARRAY_SORT:
                ix.append(fresh('k', so.domain()))
                so = so.range()
            q = self.bv
            self.ex.facts.append(Forall(ix, Eq(sels(z3.Select(C, I0), ix), sels(self.init(k), ix))) if ix else Eq(z3.Select(C, I0), self.init(k)))
            st = Implies(self.dm.has(q), Eq(sels(z3.Select(C, Add(q, I1)), ix), sels(e, ix)))
            self.ex.facts.append(Forall([q] + ix, st))
            self.ex.recs.append(dict(key=k, C=C, hi=self.dm.hi, bv=q, step=e))

    def give_up(self, k, why):
        if self.dm.kind == 'I':
            if not self.ex.recur_ok:
                self.ex.lossy.append((k, why))
            C = fresh('rec', z3.ArraySort(IntS, self.hs[k].sort()))
            self.V[k] = z3.Select(C, self.bv)
            self.Fin[k] = z3.Select(C, If(I0 < self.dm.hi, self.dm.hi, I0))
            self.rec.append((k, C))
            return
        self.ex.lossy.append((k, why))
        self.V[k] = self.fresh_iter(k)
        self.Fin[k] = fresh('lf', self.hs[k].sort())

    def solve_one(self, k, e):
        h = self.hs[k]
        init = self.init(k)
        idx = []
        so = h.sort()
        tl, ti = e, init
        hh = h
        # how deep to go: all the way
        depth = []
        while so.kind() == z3.Z3_ARRAY_SORT:
            i = fresh('k', so.domain())
            depth.append(i)
            so = so.range()
        if not depth:
            v, f = self.scalar(k, e, h, init, [])
            if v is not None:
                self.V[k] = v
            self.Fin[k] = f
            return
        t = sels(e, depth)
        hk = sels(h, depth)
        i0 = sels(init, depth)
        hv = fresh('hk', so)
        t = self.point(t, depth)
        t = norm(z3.substitute(t, (hk, hv)))
        if h.decl().name() in deep_consts(t):
            # other elements are read
            t2 = self.read_other(k, t, h, hv, depth, init)
            if t2 is None:
                raise NoForm('reads other elements of the array it writes')
            t = t2
        v, f = self.scalar(k, t, hv, i0, depth)
        for i in reversed(depth):
            v = lam(i, v) if v is not None else None
            f = lam(i, f)
        if v is not None:
            self.V[k] = v
        self.Fin[k] = f

    def read_other(self, k, t, h, hv, depth, init):
        """reads of other elements h[x] inside iteration bv see the initial value
        when no earlier iteration (unordered: no other iteration) writes element x."""
        g = change_guard(t, hv)
        if hv.decl().name() in deep_consts(g):
            g = msubst(g, [(hv, sels(h, depth))])
        rs = []
        seen = set()

        def walk(x):
            if x.get_id() in seen:
                return
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                walk(x.body())
                return
            if z3.is_select(x):
                ks, y = [], x
                while z3.is_select(y):
                    ks.insert(0, y.arg(1))
                    y = y.arg(0)
                if y.eq(h):
                    if len(ks) == len(depth):
                        if not any(x.eq(r[0]) for r in rs):
                            rs.append((x, ks))
                    for c in ks:
                        walk(c)
                    return
            if x.eq(h):
                rs.append((x, None))
            for c in x.children():
                walk(c)
        walk(t)
        hn = h.decl().name()
        if not rs or any(ks is None or any(has_var(c) or hn in deep_consts(c) for c in ks) for _, ks in rs):
            return None
        dm, bv = self.dm, self.bv
        b2 = fresh('bv', bv.sort())
        # the guard of an earlier iteration, its own reads left arbitrary
        gg = g
        for x, ks in rs:
            gg = z3.substitute(gg, (x, fresh('any', x.sort())))
        hyp = list(self.ex.assume) + list(self.st.pc)
        so = z3.Solver()
        so.set('timeout', 2000)
        so.add(*hyp)
        so.add(*self.ex.facts[-40:])
        so.add(dm.has(bv), dm.has(b2))
        so.add(b2 < bv if dm.kind == 'I' else b2 != bv)
        for x, ks in rs:
            w = subst(gg, [(bv, b2)])
            w = subst(w, list(zip(depth, [fresh('k', d.sort()) for d in depth]))) if False else z3.substitute(w, *list(zip(depth, ks)))
            so.push()
            so.add(w)
            r = so.check()
            so.pop()
            if r != z3.unsat:
                return None
        return norm(z3.substitute(t, *[(x, sels(init, ks)) for x, ks in rs]))

    def touched_once(self, g, h):
        """no two iterations can satisfy the change guard g for the same element."""
        dm, bv = self.dm, self.bv
        if dm.kind != 'I':
            return False
        b2 = fresh('bv', bv.sort())
        so = z3.Solver()
        so.set('timeout', 2000)
        so.add(*(list(self.ex.assume) + list(self.st.pc)))
        so.add(*self.ex.facts[-40:])
        so.add(dm.has(bv), dm.has(b2), b2 < bv, g, subst(subst(g, [(bv, b2)]), [(h, fresh('old', h.sort()))]))
        return so.check() == z3.unsat

    def point(self, t, depth):
        """inside If(Eq(k, x), A, B) replace x by k in A."""
        names = {d.decl().name() for d in depth}
        bvn = self.bv.decl().name()
        memo = {}

        def eqs(c, pos=True):
            r = []
            if z3.is_and(c):
                for y in c.children():
                    r += eqs(y)
            elif z3.is_eq(c):
                for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if z3.is_const(a) and a.decl().name() in names and not b.eq(a) and not (z3.is_const(b) and b.decl().name() in names) and not num(b):
                        r.append((b, a))
                        break
            return r

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i][1]
            r = x
            if is_ite(x):
                c = x.arg(0)
                ps = eqs(c)
                a = x.arg(1)
                for b, kk in ps:
                    if z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        a = subst(a, [(b, kk)])
                    else:
                        # (sums that depend on the index keep it: equal under the guard)
                        a = norm(z3.substitute(a, (b, kk)))
                r = If(c, go(a), go(x.arg(2)))
            memo[i] = (x, r)
            return r
        return go(t)

    def scalar(self, k, e, h, init, depth):
        """closed form of h' = e(h, bv): returns (value at start of bv, final)."""
        bv, dm = self.bv, self.dm
        hn = h.decl().name()
        if e.eq(h):
            return init, init
        so = h.sort()
        S = dm.kind == 'S'
        if hn not in deep_consts(e) and not S:
            # plain overwrite: last iteration wins
            prev = lambda q: subst(e, [(bv, Sub(q, I1))])
            if bv.decl().name() not in deep_consts(e):
                return If(I0 < bv, e, init), If(I0 < dm.hi, e, init)
            return If(I0 < bv, prev(bv), init), If(I0 < dm.hi, prev(dm.hi), init)
        # unique toucher
        g = change_guard(e, h)
        for u in guard_eqs(g, bv):
            val = subst(e, [(bv, u)])
            val = msubst(val, [(h, init)])
            ing = subst(g, [(bv, u)])
            if hn in deep_consts(ing):
                ing = msubst(ing, [(h, init)])
            v = None if S else If(And(Not(u < 0), u < bv, ing), val, init)
            f = If(And(dm.has(u), ing), val, init)
            return v, f
        if so == IntS or so == RealS:
            d = delta(e, h)
            if d is not None:
                zero = I0 if so == IntS else z3.RealVal(0)
                if is_zero(d):
                    return init, init
                if is_ite(d) and is_zero(d.arg(2)) and bv.decl().name() not in deep_consts(d.arg(0)) and depth and hn not in deep_consts(d.arg(0)):
                    c = d.arg(0)
                    v, f = self.scalar(k, Add(h, d.arg(1)), h, init, depth)
                    self.cntinfo[k] = (d, depth)
                    return (None if v is None else If(c, v, init)), If(c, f, init)
                if not S and bv.decl().name() not in deep_consts(d):
                    m = lambda q: Mul(q if so == IntS else toreal(q), d)
                    return Add(init, m(bv)), Add(init, m(dm.hi))
                q = fresh('q', dm.sort)
                b = subst(d, [(bv, q)])
                f = Add(init, dm.sum(q, b))
                v = None if S else Add(init, mk_sum('I', I0, bv, q, b))
                self.cntinfo[k] = (d, depth)
                return v, f
            mm = extremum(e, h)
            if mm is not None:
                return self.extremum(k, mm, h, init, depth)
        if so == BoolS:
            a = norm(z3.simplify(z3.substitute(e, (h, T)))) if False else msubst(e, [(h, T)])
            b = msubst(e, [(h, F)])
            a, b = bsimp(a), bsimp(b)
            q = fresh('q', dm.sort)
            if z3.is_false(b):
                fa = lambda up: And(init, Forall(q, Implies(dm.has(q, up), subst(a, [(bv, q)]))))
                return (None if S else fa(bv)), fa(None)
            if z3.is_true(a):
                fo = lambda up: Or(init, Exists(q, And(dm.has(q, up), subst(b, [(bv, q)]))))
                return (None if S else fo(bv)), fo(None)
            if a.eq(b):
                e = a
                if S:
                    raise NoForm('order-dependent overwrite')
                return If(I0 < bv, subst(e, [(bv, Sub(bv, I1))]), init), If(I0 < dm.hi, subst(e, [(bv, Sub(dm.hi, I1))]), init)
        # push target?
        p = self.push(k, e, h, init, depth, g)
        if p is not None:
            return p
        # guarded overwrite
        gv = guarded(e, h)
        if gv is None and depth and self.touched_once(g, h):
            # at most one iteration changes this element: it sees the initial value
            gv = msubst(g, [(h, init)]) if hn in deep_consts(g) else g, msubst(e, [(h, init)])
        if gv is not None:
            g, v = gv
            q = fresh('q', dm.sort)
            ga = lambda x: subst(g, [(bv, x)])
            exq = lambda up: Exists(q, And(dm.has(q, up), ga(q)))
            if bv.decl().name() not in deep_consts(v):
                return (None if S else If(exq(bv), v, init)), If(exq(None), v, init)
            ps = [d for d in depth if d.decl().name() in (deep_consts(g) | deep_consts(v))]
            W = fresh('last', arr_sort([d.sort() for d in ps], dm.sort))
            w = sels(W, ps)
            ax = Implies(exq(None), And(dm.has(w), ga(w), (Forall(q, Implies(And(dm.has(q), w < q), Not(ga(q)))) if not S else T)))
            self.ex.facts.append(Forall(ps, ax) if ps else ax)
            f = If(exq(None), subst(v, [(bv, w)]), init)
            vv = None
            if not S:
                W2 = fresh('lastb', arr_sort([d.sort() for d in ps] + [IntS], IntS))
                w2 = sels(W2, ps + [bv])
                ax2 = Implies(exq(bv), And(dm.has(w2, bv), ga(w2), Forall(q, Implies(And(Not(q < 0), w2 < q, q < bv), Not(ga(q))))))
                self.ex.facts.append(Forall(ps + [bv], ax2))
                vv = If(exq(bv), subst(v, [(bv, w2)]), init)
            return vv, f
        raise NoForm('no closed form for %s' % str(e)[:2500])

    def extremum(self, k, mm, h, init, depth):
        kind, g, x = mm
        bv, dm = self.bv, self.dm
        S = dm.kind == 'S'
        ps = [d for d in depth if d.decl().name() in (deep_consts(g) | deep_consts(x) | deep_consts(init))]
        q = fresh('q', dm.sort)
        le = (lambda a, b: Not(b < a)) if kind == 'max' else (lambda a, b: Not(a < b))
        ga = lambda y: subst(g, [(bv, y)])
        xa = lambda y: subst(x, [(bv, y)])

        def mk(nm, up, extra):
            M = sels(fresh(nm, arr_sort([d.sort() for d in ps + extra], h.sort())), ps + extra)
            w = sels(fresh(nm + 'w', arr_sort([d.sort() for d in ps + extra], dm.sort)), ps + extra)
            ax = And(le(init, M), Forall(q, Implies(And(dm.has(q, up), ga(q)), le(xa(q), M))),
                     Or(Eq(M, init), And(dm.has(w, up), ga(w), Eq(M, xa(w)))))
            self.ex.facts.append(Forall(ps + extra, ax) if ps + extra else ax)
            return M
        f = mk('ext', None, [])
        v = None if S else mk('extb', bv, [bv])
        return v, f

    def push(self, k, e, h, init, depth, g):
        """appending: h[n(bv)] := x(bv) with n counted by the companion '#' leaf."""
        root, path = k
        if not depth or '@' not in path:
            return None
        pre = path[:path.rindex('@')]
        # try every '@' position
        cands = [i for i, c in enumerate(path) if c == '@']
        for pos in reversed(cands):
            kl = (root, path[:pos] + '#')
            if kl in self.cntinfo:
                break
        else:
            return None
        d, ldepth = self.cntinfo[kl]
        nd = len(ldepth)
        i = depth[nd]
        outer = depth[:nd]
        ren = list(zip(ldepth, outer))
        d = subst(d, ren)
        # d must be If(g,1,0) or 1
        gcount = unit_guard(d)
        if gcount is None:
            return None
        nv = self.V.get(kl)
        bv, dm = self.bv, self.dm
        gv = guarded(e, h)
        if gv is None:
            return None
        gg, x = gv
        n0 = sels(self.init(kl), outer)
        nF = sels(self.Fin[kl], outer)
        if dm.kind == 'I':
            nat = sels(nv, outer)
            # gg should be gcount && i == nat
            cs = list(gg.children()) if z3.is_and(gg) else [gg]
            rest = []
            found = False
            for c in cs:
                if z3.is_eq(c) and ((c.arg(0).eq(i) and z3.simplify(c.arg(1) - nat).eq(I0)) or (c.arg(1).eq(i) and z3.simplify(c.arg(0) - nat).eq(I0))):
                    found = True
                else:
                    rest.append(c)
            if not found:
                return None
            gr = And(*rest)
            if not (gr.eq(gcount) or self.same(gr, gcount)):
                return None
            x = msubst(x, [])
        if z3.is_true(gcount) and dm.kind == 'I':
            off = Sub(i, n0)
            f = If(And(Not(i < n0), i < nF), subst(x, [(bv, off)]), init)
            v = If(And(Not(i < n0), off < bv), subst(x, [(bv, off)]), init)
            return v, f
        return self.append_form(kl, gcount, x, outer, i, n0, nF, init)

    def same(self, a, b):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(a != b)
        return s.check() == z3.unsat

    def append_form(self, kl, g, x, outer, i, n0, nF, init):
        bv, dm = self.bv, self.dm
        key = (kl, tuple(o.sort().name() for o in outer))
        ps = [o for o in outer if o.decl().name() in (deep_consts(g) | deep_consts(n0))]
        # lists extended by the same iterations (in whatever order) correspond position by position
        key2 = ('append', g.get_id(), n0.get_id(), nF.get_id(), tuple(o.get_id() for o in ps))
        mk = self.memo.get(key) or self.memo.get(key2)
        if mk is None:
            self.keep += [g, n0, nF] + ps
            SRC = fresh('src', arr_sort([o.sort() for o in ps] + [IntS], dm.sort))
            POS = fresh('pos', arr_sort([o.sort() for o in ps] + [dm.sort], IntS))
            self.memo[key] = self.memo[key2] = (SRC, POS)
            src = lambda t: sels(SRC, ps + [t])
            pos = lambda t: sels(POS, ps + [t])
            q = fresh('q', dm.sort)
            a = fresh('i', IntS)
            b = fresh('i', IntS)
            inr = lambda t: And(Not(t < n0), t < nF)
            ga = lambda t: subst(g, [(bv, t)])
            F_ = self.ex.facts
            F_.append(Forall(ps + [q], Implies(And(dm.has(q), ga(q)), And(inr(pos(q)), Eq(src(pos(q)), q)))))
            F_.append(Forall(ps + [a], Implies(inr(a), And(dm.has(src(a)), ga(src(a)), Eq(pos(src(a)), a)))))
            if dm.kind == 'I':
                F_.append(Forall(ps + [a, b], Implies(And(inr(a), inr(b), a < b), src(a) < src(b))))
            F_.append(Forall(ps, Not(nF < n0)) if ps else Not(nF < n0))
            mk = self.memo[key]
        self.memo[key] = mk
        SRC, POS = mk
        s = sels(SRC, ps + [i])
        f = If(And(Not(i < n0), i < nF), subst(x, [(bv, s)]), init)
        v = None
        if dm.kind == 'I':
            v = If(And(Not(i < n0), i < nF, s < bv), subst(x, [(bv, s)]), init)
        return v, f

    def push_S(self, k, e, deps):
        """append in an unordered loop: e writes at position h# (unsolved value)."""
        root, path = k
        h = self.hs[k]
        if '@' not in path:
            return False
        for pos in [i for i, c in enumerate(path) if c == '@'][::-1]:
            kl = (root, path[:pos] + '#')
            if kl in self.cntinfo:
                break
        else:
            return False
        if [m for m in deps if m not in self.V] != [kl]:
            return False
        d, ldepth = self.cntinfo[kl]
        depth = []
        so = h.sort()
        while so.kind() == z3.Z3_ARRAY_SORT:
            i = fresh('k', so.domain())
            depth.append(i)
            so = so.range()
        outer, i = depth[:len(ldepth)], depth[len(ldepth)]
        d = subst(d, list(zip(ldepth, outer)))
        g = unit_guard(d)
        if g is None:
            return False
        t = sels(e, depth)
        t = self.point(t, depth)
        hv = fresh('hk', so)
        t = norm(z3.substitute(t, (sels(h, depth), hv)))
        if h.decl().name() in deep_consts(t):
            return False
        gv = guarded(t, hv)
        if gv is None:
            return False
        gg, x = gv
        nat = sels(self.hs[kl], outer)
        cs = list(gg.children()) if z3.is_and(gg) else [gg]
        rest = []
        found = False
        for c in cs:
            if z3.is_eq(c) and ((c.arg(0).eq(i) and c.arg(1).eq(nat)) or (c.arg(1).eq(i) and c.arg(0).eq(nat))):
                found = True
            else:
                rest.append(c)
        gr = And(*rest)
        if not found or self.hs[kl].decl().name() in deep_consts(gr) | deep_consts(x):
            return False
        if not (gr.eq(g) or self.same(gr, g)):
            return False
        n0 = sels(self.init(kl), outer)
        nF = sels(self.Fin[kl], outer)
        _, f = self.append_form(kl, g, x, outer, i, n0, nF, sels(self.init(k), depth))
        for ii in reversed(depth):
            f = lam(ii, f)
        self.Fin[k] = f
        return True


class NoForm(Unsupported):
    pass


def args_of(r):
    a = []
    while z3.is_select(r):
        a.append(r.arg(1))
        r = r.arg(0)
    return list(reversed(a))


def find_reads(t, h, j, bv):
    out, seen = [], set()
    hn = h.decl().name()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return
        if z3.is_select(x):
            a = args_of(x)
            b = x
            while z3.is_select(b):
                b = b.arg(0)
            if b.eq(h) and len(a) == j + 1 and a[j].eq(bv) and not any(hn in deep_consts(y) for y in a):
                out.append(x)
        for c in x.children():
            go(c)
    go(t)
    return out


def unit_guard(d):
    """g with d == If(g, 1, 0), or None."""
    if is_one(d):
        return T
    if is_zero(d):
        return F
    if is_ite(d):
        a, b = unit_guard(d.arg(1)), unit_guard(d.arg(2))
        if a is not None and b is not None:
            return If(d.arg(0), a, b)
    return None


def bsimp(t):
    s = z3.simplify(t)
    if z3.is_true(s) or z3.is_false(s):
        return s
    return t


def delta(e, h):
    """e - h if it does not depend on h."""
    hn = h.decl().name()
    zero = I0 if h.sort() == IntS else z3.RealVal(0)

    def lin(t):
        """(coefficient of h in {0,1}, rest) or None"""
        if t.eq(h):
            return (1, zero)
        if hn not in deep_consts(t):
            return (0, t)
        if z3.is_app_of(t, z3.Z3_OP_ADD):
            c, r = 0, None
            for x in t.children():
                y = lin(x)
                if y is None:
                    return None
                c += y[0]
                r = y[1] if r is None else Add(r, y[1])
            return (c, r)
        if z3.is_app_of(t, z3.Z3_OP_SUB):
            a, b = lin(t.arg(0)), lin(t.arg(1))
            if a is None or b is None or t.num_args() != 2:
                return None
            return (a[0] - b[0], Sub(a[1], b[1]))
        if is_ite(t):
            if hn in deep_consts(t.arg(0)):
                return None
            a, b = lin(t.arg(1)), lin(t.arg(2))
            if a is None or b is None or a[0] != b[0]:
                return None
            return (a[0], If(t.arg(0), a[1], b[1]))
        return None
    r = lin(e)
    if r is None or r[0] != 1:
        return None
    return r[1]


def change_guard(e, h):
    """condition under which e differs (syntactically) from h."""
    if e.eq(h):
        return F
    if is_ite(e):
        c = e.arg(0)
        a, b = change_guard(e.arg(1), h), change_guard(e.arg(2), h)
        if z3.is_false(b):
            return And(c, a)
        if z3.is_false(a):
            return And(Not(c), b)
        return Or(And(c, a), And(Not(c), b))
    if e.sort() == BoolS:
        if z3.is_and(e):
            if any(x.eq(h) for x in e.children()):
                return Not(And(*[x for x in e.children() if not x.eq(h)]))
        if z3.is_or(e):
            if any(x.eq(h) for x in e.children()):
                return Or(*[x for x in e.children() if not x.eq(h)])
            # (c && x) || (!c && h)
            cs = e.children()
            if len(cs) == 2:
                for p, q in ((cs[0], cs[1]), (cs[1], cs[0])):
                    if z3.is_and(q) and any(x.eq(h) for x in q.children()):
                        rest = And(*[x for x in q.children() if not x.eq(h)])
                        return Not(rest) if z3.is_not(rest) or True else T
    return T


def conj(g):
    return list(g.children()) if z3.is_and(g) else [g]


def guard_eqs(g, bv):
    """terms u (free of bv) such that g implies bv == u."""
    n = bv.decl().name()

    def strided(a, b):
        # c*bv + r == b with a number c >= 2: bv is (b - r) div c
        for c in range(2, 9):
            r = z3.simplify(a - c * bv)
            if n not in deep_consts(r):
                if num(r) and 0 <= r.as_long() < c:
                    return b / z3.IntVal(c) if not num(b) else z3.IntVal(b.as_long() // c)
                return z3.simplify(b - r) / z3.IntVal(c)
        return None

    def of(g):
        out = []
        for c in conj(g):
            if z3.is_eq(c):
                for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if a.eq(bv) and n not in deep_consts(b):
                        out.append(b)
                    elif z3.is_app(a) and a.decl().name() == 'newref' and n not in deep_consts(b) and n not in deep_consts(a.arg(0)):
                        r = z3.simplify(a.arg(1) - bv)
                        if n not in deep_consts(r):
                            out.append(Sub(seqof(b), r) if not is_zero(r) else seqof(b))
                    elif a.sort() == IntS and bv.sort() == IntS and z3.is_app_of(a, z3.Z3_OP_ADD) and n in deep_consts(a) and n not in deep_consts(b):
                        r = z3.simplify(a - bv)
                        if n not in deep_consts(r):
                            out.append(Sub(b, r) if not is_zero(r) else b)
                        else:
                            r = z3.simplify(a + bv)
                            if n not in deep_consts(r):
                                out.append(Sub(r, b))
                            else:
                                u = strided(a, b)
                                if u is not None:
                                    out.append(u)
                    elif a.sort() == IntS and bv.sort() == IntS and z3.is_app_of(a, z3.Z3_OP_MUL) and n in deep_consts(a) and n not in deep_consts(b):
                        u = strided(a, b)
                        if u is not None:
                            out.append(u)
            elif z3.is_or(c):
                sub = [of(x) for x in c.children()]
                if all(sub):
                    for u in sub[0]:
                        if all(any(u.eq(w) for w in s) for s in sub[1:]):
                            out.append(u)
        return out
    return of(g)


def guarded(e, h):
    """e == If(g, v, h) with g, v free of h."""
    hn = h.decl().name()

    def go(t):
        if t.eq(h):
            return (F, None)
        if hn not in deep_consts(t):
            return (T, t)
        if is_ite(t) and hn not in deep_consts(t.arg(0)):
            c = t.arg(0)
            a, b = go(t.arg(1)), go(t.arg(2))
            if a is None or b is None:
                return None
            g = Or(And(c, a[0]), And(Not(c), b[0]))
            if z3.is_false(b[0]):
                g = And(c, a[0])
            elif z3.is_false(a[0]):
                g = And(Not(c), b[0])
            v = a[1] if b[1] is None else b[1] if a[1] is None else If(c, a[1], b[1])
            return (g, v)
        if t.sort() == BoolS:
            a, b = bsimp(msubst(t, [(h, T)])), bsimp(msubst(t, [(h, F)]))
            # changes when a false (h true->false) or b true
            if z3.is_false(a) and z3.is_false(b):
                return (T, F)
            g = Or(Not(a), b)      # value when changed: where a is false -> False, where b true -> True
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(z3.Not(a), b)
            if s.check() == z3.unsat:
                return (g, b)
        return None
    r = go(e)
    if r is None or r[1] is None:
        return None
    return r


def extremum(e, h):
    """('max'|'min', guard, x) with e = max/min(h, x) under guard."""
    hn = h.decl().name()
    if not is_ite(e):
        return None
    c, a, b = e.arg(0), e.arg(1), e.arg(2)
    if hn not in deep_consts(c):
        if a.eq(h):
            r = extremum(b, h)
            return None if r is None else (r[0], And(Not(c), r[1]), r[2])
        if b.eq(h):
            r = extremum(a, h)
            return None if r is None else (r[0], And(c, r[1]), r[2])
        return None
    cs = conj(c)
    dep = [x for x in cs if hn in deep_consts(x)]
    if len(dep) != 1:
        return None
    g = And(*[x for x in cs if hn not in deep_consts(x)])
    t = dep[0]
    neg = False
    if z3.is_not(t):
        neg, t = True, t.arg(0)
    if not z3.is_lt(t):
        return None
    l, r = t.arg(0), t.arg(1)
    if b.eq(h) and hn not in deep_consts(a):
        x = a
    elif a.eq(h) and hn not in deep_consts(b) and z3.is_true(g):
        x = b
        neg = not neg
    else:
        return None
    # new value x chosen when (l<r) xor neg
    if l.eq(h) and r.eq(x):
        return ('max' if not neg else 'min', g, x)
    if l.eq(x) and r.eq(h):
        return ('min' if not neg else 'max', g, x)
    return None

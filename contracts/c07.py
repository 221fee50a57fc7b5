"""C07: the incumbent is always the best solution seen."""
from spec import *

H = 'solution::IncumbentHolder'
FIELDS = [('local_augmented', 'local_augmented_objective'), ('global_augmented', 'global_augmented_objective'), ('feasible', 'objective')]


def flat(st, s, this):
    d = {}
    for nm, _ in FIELDS:
        d[nm + '_obj'] = s.getter(st, H + ID + '::%s_incumbent_objective' % nm, this)
        d[nm + '_score'] = s.getter(st, H + ID + '::%s_incumbent_score' % nm, this)
        d[nm + '_sol'] = s.getter(st, H + ID + '::%s_incumbent_solution' % nm, this)
    d['found'] = s.getter(st, H + ID + '::is_found_feasible_solution', this)
    return d


def same(a, b):
    if isinstance(a, Val):
        return And(*[Eq(a.d[p], b.d[p]) for p in a.d])
    return Eq(a, b)


def const(s, st, n):
    return s.ex.e_Int({'v': n, 't': 0}, st)


def status_consts(s):
    """values of the STATUS_* constants as used by the code (documented bits 1, 2, 4)."""
    return {'local_augmented': 1, 'global_augmented': 2, 'feasible': 4}


def update(which):
    def unit(s):
        this = s.obj(H, 'holder')
        st = State()
        f = s.fn(H + ID + '::try_update_incumbent', 2, params=[which, 'SolutionScore'])
        sc = Loc(s.ir.deref(f['ps'][1]['t']), 'score', '', [])
        pre = flat(st, s, this)
        if which == 'Model':
            sol_t = s.cls('solution::DenseSolution')
            cur = s.symval(st, sol_t, 'exported')

            class Upd(Contract):
                name = 'Model::update_dependent_variables_and_disabled_constraints'
                assumed = 'decided under C09/C18; here only its frame (the holder is untouched) is used'

                def apply(self, ex, st, fn, this, args):
                    return None

            class Exp(Contract):
                name = 'Model::export_dense_solution'
                assumed = 'discharged under C12 (contracts/c12.py, export_dense_solution); here: returns the current assignment as one value'

                def apply(self, ex, st, fn, this, args):
                    return cur
            s.use('model::Model' + ID + '::update_dependent_variables_and_disabled_constraints', Upd())
            s.use('model::Model' + ID + '::export_dense_solution', Exp())
            arg0 = PtrTo(s.obj('model::Model', 'MODEL'))
            sol = cur
        else:
            arg0 = Loc(s.ir.deref(f['ps'][0]['t']), 'solution', '', [])
            sol = s.ex.load(st, arg0)
        score = s.ex.load(st, sc)
        eps = z3.RealVal('1/100000')
        feas = score.d['.is_feasible']
        ret = s.call(st, f, this, [arg0, sc])
        post = flat(st, s, this)
        s.reach(st)
        bits = status_consts(s)
        stt = z3.IntVal(0)
        for nm, fld in FIELDS:
            new = score.d['.' + fld]
            old, aft = pre[nm + '_obj'], post[nm + '_obj']
            seen = feas if nm == 'feasible' else T
            rep = Not(Eq(aft, old))
            # the incumbent never gets worse, and is at least as good as the new one up to tolerance
            s.ob(nm + ': stored objective never worsens', Not(old < aft), st)
            s.ob(nm + ': at most tolerance worse than the candidate', Implies(seen, Not(new + eps < aft)), st)
            s.ob(nm + ': stored objective is the old or the candidate one', Or(Eq(aft, old), And(seen, Eq(aft, new))), st)
            s.ob(nm + ': replaced together with its solution and score',
                 And(Implies(rep, And(same(post[nm + '_sol'], sol), same(post[nm + '_score'], score))),
                     Implies(Not(rep), And(same(post[nm + '_sol'], pre[nm + '_sol']), same(post[nm + '_score'], pre[nm + '_score'])))), st)
            stt = stt + If(rep, z3.IntVal(bits[nm]), z3.IntVal(0))
        s.ob('status tells exactly which incumbents were replaced', Eq(ret, stt), st)
        s.ob('a feasible solution is recorded as found', Eq(post['found'], Or(pre['found'], feas)), st)
        s.ob('no throw', Not(Or(*[And(*t) for t in s.last_throws])) if s.last_throws else T)
    return unit


def reset(s):
    this = s.obj(H, 'holder')
    st = State()
    pre = flat(st, s, this)
    f = s.fn(H + ID + '::reset_local_augmented_incumbent', 0)
    s.call(st, f, this)
    post = flat(st, s, this)
    for k in pre:
        if k == 'local_augmented_obj':
            s.ob('local incumbent objective is reset to the largest value', z3.RealVal(10) ** 30 < post[k] if False else z3.RealVal('1000000000000000000000000000000') < post[k], st)
        else:
            s.ob('frame: %s unchanged' % k, same(pre[k], post[k]), st)


def init(s):
    this = s.obj(H, 'holder')
    st = State()
    f = s.fn(H + ID + '::initialize', 0)
    s.call(st, f, this)
    post = flat(st, s, this)
    big = z3.RealVal('1000000000000000000000000000000')
    for nm, _ in FIELDS:
        s.ob('%s objective starts at the largest value' % nm, big < post[nm + '_obj'], st)
    s.ob('no feasible solution found yet', Not(post['found']), st)


UNITS = [('try_update_incumbent(solution)', update('DenseSolution')), ('try_update_incumbent(model)', update('Model')),
         ('reset_local_augmented_incumbent', reset), ('initialize', init)]

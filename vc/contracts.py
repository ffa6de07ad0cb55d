"""Function contracts: a wrapper (or member) of the real code is executed symbolically from a precondition; the obligations
of its body (safety, callee preconditions, loop invariants) and its postcondition are discharged one by one."""
import time
import z3
from . import sym, ir, loops
from .sym import *
from .dom import RealDom, AbsDom, FPDom, Undecided


class Spec:
    """fn: llvm name, args, post(ex, kind, st, val) -> [(name, goal)], kinds: outcomes the contract allows"""

    def __init__(self, fn, args, post, loops=(), kinds=('ret',)):
        self.fn, self.args, self.post, self.loops, self.kinds = fn, args, post, list(loops), kinds


def discharge(pc, goal, side=(), timeout=15000):
    """-> (status, model, seconds): proved | sat | unknown"""
    t = time.time()
    g = simp(goal) if not isinstance(goal, (int, bool)) else z3.BoolVal(bool(goal))
    if z3.is_true(g):
        return 'proved', None, 0.0
    if any(z3.is_false(c) for c in pc if z3.is_expr(c)):
        return 'proved', None, 0.0
    memo = {}
    if bvonly(g, memo):
        # the integer part of the path condition alone usually suffices
        s = z3.SolverFor('QF_BV')
        s.set('timeout', min(timeout, 8000))
        for c in list(side) + list(pc):
            if z3.is_expr(c) and bvonly(c, memo):
                s.add(c)
        s.add(z3.Not(g))
        if s.check() == z3.unsat:
            return 'proved', None, time.time() - t
    memo2 = {}
    if not z3.is_quantifier(g) and realfree(g, memo2):
        # the same with arrays of integers
        s = z3.SolverFor('QF_AUFBV')
        s.set('timeout', min(timeout, 8000))
        for c in list(side) + list(pc):
            if z3.is_expr(c) and realfree(c, memo2):
                s.add(c)
        s.add(z3.Not(g))
        if s.check() == z3.unsat:
            return 'proved', None, time.time() - t
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in list(side) + list(pc):
        s.add(c)
    s.add(z3.Not(g))
    r = s.check()
    if r == z3.unknown:
        s2 = z3.SolverFor('QF_AUFBV') if False else z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt').solver()
        s2.set('timeout', timeout)
        for c in list(side) + list(pc):
            s2.add(c)
        s2.add(z3.Not(g))
        r = s2.check()
        s = s2
    dt = time.time() - t
    if r == z3.unsat:
        return 'proved', None, dt
    if r == z3.sat:
        try:
            return 'sat', s.model(), dt
        except z3.Z3Exception:
            return 'unknown', None, dt
    return 'unknown', None, dt


def show_model(m, limit=40):
    out = {}
    for d in list(m.decls()):
        try:
            if d.arity() == 0 and d.range().kind() in (z3.Z3_BV_SORT, z3.Z3_REAL_SORT, z3.Z3_BOOL_SORT, z3.Z3_INT_SORT):
                out[d.name()] = str(m[d])
        except z3.Z3Exception:
            pass
        if len(out) >= limit:
            break
    return out


def collect(mod, make, contracts, dom, unroll=None, budget=200, max_paths=4000, scenario=None):
    """-> (ex, [(name, kind, pc, goal)], reached outcome kinds)"""
    ex = Exec(mod, dom(), contracts, max_paths=max_paths)
    ex.deadline = time.time() + budget
    ex.unroll = unroll
    ex.scenario = scenario
    ex.truncated = False
    ex.invariants = 0
    st = State()
    sp = make(ex, st)
    ex.loop_specs = sp.loops
    outs = ex.call_function(st, sp.fn, sp.args)
    obls = []
    reached = set()
    for o in outs:
        reached.add(o[0])
        if o[0] not in sp.kinds:
            obls.append(('no %s (%s)' % ({'throw': 'exception', 'term': 'terminate', 'abort': 'abort'}.get(o[0], o[0]), o[2]), 'safety', list(o[1].pc), z3.BoolVal(False)))
            continue
        for nm, g in sp.post(ex, o[0], o[1], o[2]):
            obls.append((nm, 'post', list(o[1].pc), g))
    for o in ex.obls:
        obls.append((o.name, o.kind, o.pc, o.goal))
    return ex, obls, reached


def verify(ctx, name, mod, make, contracts, dom=RealDom, timeout=15000, unroll=3, budget=150, sample=False):
    """all obligations of one contract; refutations that rest on a loop invariant count only when bounded unrolling
    confirms them"""
    contracts = compile_contracts(contracts)
    t0 = time.time()
    refuted = []
    try:
        ex, obls, reached = collect(mod, make, contracts, dom, None, budget)
        ctx.absorb(ex)
        ctx.cover(name + ': some outcome reached', bool(reached))
        inv = ex.invariants
        rows = []
        for nm, kind, pc, goal in obls:
            r, m, dt = discharge(pc, goal, ex.side, timeout)
            ctx.solver_s += dt
            row = dict(name=name + ': ' + nm, fn=name, status='proved' if r == 'proved' else 'undecided', backend='z3', secs=round(dt, 3), detail='')
            if r == 'sat':
                row['formula'] = str(goal)[:1200]
                row['points'] = [show_model(m)]
                row['status'] = 'refuted'
                refuted.append(row)
            elif r == 'unknown':
                row['detail'] = 'solver gave up'
                row['formula'] = str(goal)[:300]
            rows.append(row)
        if sample and obls:
            ctx.samples.append(dict(obligation=name + ': ' + obls[-1][0], goal=str(obls[-1][3])[:800]))
        und = None
    except Undecided as e:
        und = str(e)
        rows = []
        inv = 1
    except (ir.IRError, KeyError, AttributeError, TypeError, ValueError, IndexError, z3.Z3Exception, RecursionError) as e:
        import traceback
        und = 'machinery: ' + traceback.format_exc()[-700:]
        rows = []
        inv = 1
    if und is None and (not refuted or not inv):
        ctx.results += rows
        return not refuted and all(r['status'] == 'proved' for r in rows)
    # the proof did not go through; look for a definite counterexample by unrolling
    definite = []
    note = ''
    # the search may be split over concrete scenarios (make.scenarios)
    for sc in getattr(make, 'scenarios', [None]):
        try:
            ex, obls, _ = collect(mod, make, contracts, dom, unroll, budget if sc is None else 40, scenario=sc)
            for nm, kind, pc, goal in obls:
                r, m, dt = discharge(pc, goal, ex.side, timeout if sc is None else 4000)
                ctx.solver_s += dt
                if r == 'sat':
                    definite.append(dict(name=name + ': ' + nm, fn=name, status='refuted', backend='z3', secs=round(dt, 3),
                                         detail='counterexample within %d iterations of each loop%s' % (unroll, '' if sc is None else ', %s' % (sc,)),
                                         formula=str(goal)[:1200], points=[show_model(m)]))
                    if len(definite) > 3:
                        break
        except (Undecided, ir.IRError, KeyError, AttributeError, TypeError, ValueError, IndexError, z3.Z3Exception, RecursionError) as e:
            note = 'unrolling: %r' % e
        if definite:
            break
    if und is not None:
        ctx.fail_obl(name, 'undecided: ' + und + ' ' + note, fn=name)
    for r in rows:
        if r['status'] == 'refuted':
            r['status'] = 'undecided'
            r['detail'] = 'not implied by the loop invariants' + ('; bounded unrolling found no counterexample ' + note if not definite else '')
    ctx.results += rows + definite[:4]
    return False

"""Specification layer: verification units, obligations and their discharge."""
import os, subprocess, sys, tempfile, time, traceback
import z3
from .vals import *
from .engine import *
from . import lib, lib2, loops

UNITS = []


class Unit:
    def __init__(self, name, props, fns, body, contracts, opts):
        self.name, self.props, self.fns, self.body, self.contracts, self.opts = name, props, fns, body, contracts, opts


def unit(name, props, fns, contracts=None, boundary=True, **opts):
    """fns: functions under contract in this unit (their bodies are the subject).  boundary: use the contracts of the
    boundary functions (Execute, save_file, load_file) instead of their bodies."""
    def deco(g):
        c = dict(lib2.BOUNDARY) if boundary else {}
        c.update(contracts or {})
        for f in fns:
            c.pop(f, None)
        UNITS.append(Unit(name, props.split(), list(fns), g, c, opts))
        return g
    return deco


class Ob:
    def __init__(self, name, props, hyps, goal, kind):
        self.name, self.props, self.hyps, self.goal, self.kind = name, props, hyps, goal, kind
        self.status, self.time, self.backend, self.model = None, 0, None, None


class Ctx:
    """what a unit body sees: the engine plus spec helpers."""

    def __init__(self, E, u):
        self.E, self.u, self.obs, self.seen = E, u, [], set()

    # --- running code
    def find(self, name, nparams=None, params=None):
        us = self.E.p.find(name, nparams)
        if params is not None:
            us = [x for x in us if all(p in q['type'] for p, q in zip(params, self.E.p.funcs[x]['params']))]
        if not us:
            raise Unsupported('function %s not found' % name)
        return us[0]

    def call(self, name, obj, *args, **kw):
        return self.E.call(self.find(name, kw.get('n', len(args)), kw.get('params')), obj, list(args))

    def attempt(self, thunk):
        try:
            return 'ok', thunk()
        except Throw as t:
            return 'throw', t.val

    def tcall(self, name, obj, *args, **kw):
        return self.attempt(lambda: self.call(name, obj, *args, **kw))

    # --- obligations
    def ob(self, name, goal, props=None, kind='property', extra=()):
        E = self.E
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        hyps = list(E.pc) + list(extra)
        k = (name, tuple(tid(h) for h in hyps), tid(goal))
        if k in self.seen:
            return
        self.seen.add(k)
        o = Ob(self.u.name + '/' + name, props.split() if props else self.u.props, hyps, goal, kind)
        o.ax = list(E.ax)
        o.line = E.line
        self.obs.append(o)


def setup(E):
    E.store['$trace'] = Vec()
    E.store['$epoch'] = z3.Int('epoch0')


def smt2(fs):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    return s.to_smt2()


RLIM = 3000000


def solve(fs, budget, stats):
    """unsat / sat / unknown with portfolio; returns (status, backend, model)"""
    t0 = time.time()
    tries = [({'smt.mbqi': False}, min(3, budget)), ({}, min(3, budget)), ({'smt.random_seed': 7, 'smt.relevancy': 0}, min(4, budget))]
    last, model = 'unknown', None
    qf = not any(has_quant(f) for f in fs)
    for o, to in tries:
        s = z3.Solver()
        s.set('rlimit', int(to * RLIM))     # deterministic budget; the wall clock only guards against a stuck solver
        s.set('timeout', int(to * 8000))
        for k, v in o.items():
            s.set(k, v)
        for f in fs:
            s.add(f)
        r = s.check()
        if r == z3.unsat:
            return 'unsat', 'z3 %s' % z3.get_version_string(), None
        if r == z3.sat:
            last = 'sat'
            try:
                model = str(s.model())[:4000]
            except Exception:
                model = None
            return 'sat', 'z3 %s' % z3.get_version_string(), model
        if qf:
            break
    try:
        txt = smt2(fs)
        txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
            fh.write(txt)
        for cmd, nm in ((['cvc5', '--tlimit=%d' % int(budget * 1000), fh.name], 'cvc5'), (['z3', '-T:%d' % int(budget), fh.name], 'z3 4.8.12')):
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, timeout=budget + 5).stdout.strip().split('\n')[0]
            except subprocess.TimeoutExpired:
                r = 'unknown'
            if r == 'unsat':
                os.unlink(fh.name)
                return 'unsat', nm, None
        os.unlink(fh.name)
    except Exception:
        pass
    return last, 'portfolio', model


def discharge(E, o, budget):
    t = time.time()
    fs = list(o.hyps) + list(o.ax) + [Not(o.goal)]
    if z3.is_true(simp(o.goal) if not has_quant(o.goal) else o.goal):
        o.status, o.backend = 'unsat', 'simplifier'
    else:
        fs += E.veq_axioms()
        fs = relevant(fs)
        fs += distinct_lits(fs)
        o.status, o.backend, o.model = solve(fs, budget, None)
    o.time = time.time() - t


def relevant(fs):
    return fs


def live(E, o):
    """hypotheses of the obligation are not refutable (vacuity guard)."""
    s = z3.Solver()
    s.set('rlimit', RLIM)
    s.set('timeout', 3000)
    fs = list(o.hyps) + list(o.ax) + E.veq_axioms()
    for f in fs + distinct_lits(fs):
        s.add(f)
    return s.check() != z3.unsat


def run_unit(u, prog, budget=10, wall=240, prop=None, failfast=False):
    t0 = time.time()
    res = {'unit': u.name, 'props': u.props, 'fns': u.fns, 'status': 'ok', 'obs': [], 'error': None}
    E = Engine(prog, lib, u.contracts)
    E.opts.update(u.opts)
    E.deadline = t0 + wall
    ctx = Ctx(E, u)
    setup(E)
    try:
        paths = E.explore(lambda: u.body(ctx))
        res['paths'] = len(paths)
        bad = [p for p in paths if p.out == 'throw']
        if bad:
            res['status'] = 'escaped'
            res['error'] = 'unit body let an exception escape: %r' % (bad[0].val,)
    except (Unsupported, RecursionError) as ex:
        res['status'] = 'unsupported'
        res['error'] = '%s (near line %s)' % (ex, E.line)
        res['trace'] = traceback.format_exc()[-1500:]
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError, z3.Z3Exception) as ex:
        res['status'] = 'unsupported'
        res['error'] = 'internal: %s: %s (near line %s)' % (type(ex).__name__, ex, E.line)
        res['trace'] = traceback.format_exc()[-2500:]
    res['gen_s'] = round(time.time() - t0, 2)
    if res['status'] == 'ok' and not ctx.obs:
        res['status'], res['error'] = 'unsupported', 'no obligation generated'
    t1 = time.time()
    livenames, failed = {}, {}
    if prop is not None:
        ctx.obs = [o for o in ctx.obs if prop in o.props]
    for o in ctx.obs:
        if (time.time() - t0 > wall or failed.get(o.name, 0) >= 2 or (failfast and failed)) and not z3.is_true(simp(o.goal) if not has_quant(o.goal) else o.goal):
            o.status = 'unknown'
            o.backend = 'time budget'
        else:
            discharge(E, o, budget)
            if o.status != 'unsat':
                failed[o.name] = failed.get(o.name, 0) + 1
        if not livenames.get(o.name) and time.time() - t0 < wall:
            livenames[o.name] = live(E, o)
        res['obs'].append({'name': o.name, 'props': o.props, 'status': 'discharged' if o.status == 'unsat' else o.status, 'backend': o.backend,
                           't': round(o.time, 3), 'model': o.model, 'kind': o.kind, 'goal': None if o.status == 'unsat' else str(o.goal)[:9000],
                           'hyps': None if o.status == 'unsat' else [str(h)[:int(__import__("os").environ.get("HL","400"))] for h in o.hyps][:40], 'nhyps': len(o.hyps)})
    res['vacuous'] = [n for n, l in livenames.items() if not l]
    res['solve_s'] = round(time.time() - t1, 2)
    res['called'] = sorted({prog.funcs[x]['name'] for x in E.called if prog.funcs[x].get('root')})
    res['lib'] = sorted(E.used_lib)
    res['contracts'] = sorted(E.used_contracts)
    res['loops'] = E.stats['loops']
    res['bounded'] = u.opts.get('bounded')
    res['taint'] = sorted(E.taint)
    return res

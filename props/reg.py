"""Registration of builders, dependencies and tests: C12, C13, C14."""
from common import *
from cxxvc.lib2 import task_term, succ_f, nsucc_f, pred_f, npred_f, tname_f

RI = 'buildcc::Reg::Instance::'
TI = 'buildcc::Reg::ToolchainInstance::'
CI = 'buildcc::Reg::CallbackInstance::'
reach_f = z3.Function('graph.reaches', I, B)


def taskname(E, t):
    return S((tname_f(task_term(E, t)),))


def instance(c, name='R'):
    E = c.E
    return E.alloc(E.fresh('buildcc::Reg::Instance', name, ()), name)


def reach_axiom(match):
    """reaches(a): a path of at least one ordering leads from task a to a task with the given name (graphs are acyclic, so the equation has
    one solution)."""
    a, j = z3.Int('ra'), z3.Int('rj')
    s = succ_f(a, j)
    step = And(0 <= j, j < nsucc_f(a), Or(tname_f(s) == match, reach_f(s)))
    return [z3.ForAll([a, j], Implies(step, reach_f(a)), patterns=[succ_f(a, j)]),
            z3.ForAll([a], Implies(reach_f(a), z3.Exists([j], step)), patterns=[reach_f(a)])]


def worklist(c, match):
    E = c.E

    def inv(entry):
        (t,) = [x.v for x in entry.segs] if len(entry.segs) == 1 else (None,)
        if t is None:
            raise Unsupported('worklist entry')
        r0 = reach_f(task_term(E, t))

        def f(wl):
            el = lambda v: reach_f(task_term(E, E.val(v)))
            return And(Implies(r0, E.vany(wl, el)), E.vall(wl, lambda v: Implies(el(v), r0)))
        return f
    return {'inv': inv, 'ob': lambda n, g: c.ob(n, g, kind='invariant')}


def builder(c, name):
    E = c.E
    return E.alloc(E.fresh('buildcc::internal::BuilderInterface', name, ()), name)


@unit('reg.dep', 'C12', [RI + 'Dep', '(anon)::DepDetectDuplicate', '(anon)::DepDetectCyclicDependency'], taskname=taskname)
def dep(c):
    E = c.E
    R = instance(c)
    t, d = builder(c, 'target'), builder(c, 'dependency')
    R0 = E.read(R)
    tid_, did = [fld(E.read(x), 'unique_id_') for x in (t, d)]
    m = R0.f['build_']
    reg = And(E.mem(m, tid_), E.mem(m, did))
    tt, dt = [task_term(E, E.mval(m, k)) for k in (tid_, did)]
    for ax in reach_axiom(did.term()):
        E.axiom(ax)
    # precondition: registered tasks carry the id they are registered under (unit reg.build)
    E.assume(Implies(E.mem(m, tid_), tname_f(tt) == tid_.term()))
    E.assume(Implies(E.mem(m, did), tname_f(dt) == did.term()))
    E.opts['worklist'] = worklist(c, did.term())
    j = z3.Int('dj')
    dup = z3.Exists([j], And(0 <= j, j < npred_f(tt), tname_f(pred_f(tt, j)) == did.term()))
    cyc = Or(tid_.term() == did.term(), reach_f(tt))
    bad = Or(Not(reg), dup, cyc)
    out, _ = c.tcall(RI + 'Dep', R, t, d)
    ed = [s.v for s in events(E, 'edge').segs if isinstance(s, U)]
    if out != 'ok':
        c.ob('fatal-only-if-invalid', bad)
        c.ob('nothing-added-on-error', E.vempty(events(E, 'edge')))
    else:
        c.ob('registered', reg)
        c.ob('not-duplicate', Not(dup))
        c.ob('no-cycle', Not(cyc))
        c.ob('one-ordering', z3.BoolVal(len(ed) == 1 and len(events(E, 'edge').segs) == 1))
        if len(ed) == 1:
            c.ob('dependency-first', And(task_term(E, ed[0].d[0]) == dt, task_term(E, ed[0].d[1]) == tt))
    c.ob('frame', E.eq(E.read(R).f['build_'], m))


# ---------------------------------------------------------------- C12: registering builders
def bld(c, cls, name='b'):
    """an arbitrary builder of the class."""
    E = c.E
    return E.alloc(E.fresh(cls, name, ()), name)


def evs(E, *kinds):
    t = events(E, *kinds)
    return [s.v for s in t.segs if isinstance(s, U)], z3.BoolVal(all(isinstance(s, U) for s in t.segs))


def registered_as(c, R, b, cbs=1):
    """exactly one composition of the builder's own graph, named by its id and stored under its id; None when the code did not do it."""
    E = c.E
    uid = fld(E.read(b), 'unique_id_')
    co, full = evs(E, 'compose')
    nm, _ = evs(E, 'name')
    ok = [full, z3.BoolVal(len(co) == 1 and len(nm) == 1)]
    if len(co) == 1 and len(nm) == 1:
        m = E.read(R).f['build_']
        ok += [z3.BoolVal(key(co[0].d[0]) == key(R + ('f', 'build_tf_'))), z3.BoolVal(key(co[0].d[1]) == key(b + ('f', 'tf_'))), z3.BoolVal(key(nm[0].d[0]) == key(co[0].d[2])),
               E.eq(nm[0].d[1], uid), E.mem(m, uid), task_term(E, E.mval(m, uid)) == task_term(E, co[0].d[2])]
    return And(*ok)


def same(a, b):
    return z3.BoolVal(key(a) == key(b))


def newval(c, m1, m0, k):
    """value of a key that the path condition says was not in m0."""
    E = c.E
    n = m1.node
    while n[0] in ('ins', 'put'):
        if E.implied(And(E.eq(n[2], k), Or(z3.BoolVal(n[0] == 'put'), Not(E.nmem(n[1], n[2], m1))))):
            return n[3]
        n = n[1]
    return E.mval(m1, k)


def others_kept(c, m0, m1, uid):
    E = c.E
    x = S((z3.Const('x', Str),))
    return Implies(Not(E.eq(x, uid)), And(E.mem(m1, x) == E.mem(m0, x), Implies(E.mem(m0, x), task_term(E, E.mval(m1, x)) == task_term(E, E.mval(m0, x)))))


def do_build(c, cls):
    E = c.E
    R = instance(c)
    b = bld(c, cls)
    m0, t0 = E.read(R).f['build_'], E.read(R).f['tests_']
    uid = fld(E.read(b), 'unique_id_')
    cb = E.alloc(Fn('py', lambda E_, a: E_.event('callback', a[0])), 'cb')
    out, _ = c.tcall(RI + 'Build', R, cb, b, params=['std::function<void(%s' % cls])
    m1 = E.read(R).f['build_']
    cv, full = evs(E, 'callback')
    c.ob('callback-once', And(full, z3.BoolVal(len(cv) == 1 and key(cv[0].d[0]) == key(b))), 'C13')
    c.ob('duplicate-is-fatal', (E.mem(m0, uid)) == (out != 'ok'), 'C12')
    c.ob('others-kept', others_kept(c, m0, m1, uid), 'C12')
    if out == 'ok':
        c.ob('registered', registered_as(c, R, b), 'C12 C13')
    c.ob('tests-unchanged', same(E.read(R).f['tests_'], t0), 'C13')


for _n, _cls in (('target', 'buildcc::Target'), ('generator', 'buildcc::FileGenerator')):
    def _mk(cls):
        def body(c):
            do_build(c, cls)
        return body
    unit('reg.build-' + _n, 'C12 C13', [RI + 'Build', RI + 'BuildTask', RI + 'BuildStoreTask'], taskname=taskname)(_mk(_cls))


# ---------------------------------------------------------------- C13: conditions
def set_instance(c, R, absent=FALSE):
    E = c.E
    for g, d in E.p.globals.items():
        if d['name'] == 'buildcc::Reg::instance_':
            lv = E.global_lv(g)
            E.write(lv, Ptr(absent, R))
            return lv
    raise Unsupported('Reg::instance_ not found')


def c_dep(E, o, a, e, f):
    """Contract of Instance::Dep (unit reg.dep): may be fatal, otherwise the one ordering is added."""
    E.event('dep', E.loc(o), E.loc(a[0]), E.loc(a[1]))
    if E.branch(E.uf(E.new('dep.fatal'), B)):
        raise Throw(Op('exc', 'fatal'))


def c_test(E, o, a, e, f):
    """Contract of Instance::Test (unit reg.test): may be fatal, otherwise the test is registered."""
    E.event('test', E.loc(o), lib2.SV(E, a[0]), E.loc(a[1]), E.val(a[2]))
    if E.branch(E.uf(E.new('test.fatal'), B)):
        raise Throw(Op('exc', 'fatal'))


def conditional(c, W, pre, on, test_on=None):
    """each call of a conditional registration object takes effect exactly once when its condition holds, and not at all otherwise."""
    E = c.E
    R = c.R
    t, g = bld(c, 'buildcc::Target', 't'), bld(c, 'buildcc::FileGenerator', 'g')
    R0 = E.read(R)

    def quiet(n, props='C13'):
        c.ob(n + '-off-does-nothing', Implies(Not(on), And(E.vempty(events(E, 'callback', 'compose', 'name', 'dep', 'test', 'emplace', 'edge', 'exec', 'save')), same(E.read(R), R0))))

    cb0 = E.alloc(Fn('py', lambda E_, a: E_.event('callback')), 'cb0')
    out, r = c.tcall(pre + 'Func', W, cb0)
    c.ob('func-no-exception', out == 'ok')
    n = len(evs(E, 'callback')[0])
    c.ob('func-once', Implies(on, And(evs(E, 'callback')[1], z3.BoolVal(n == 1))))
    quiet('func')
    c.ob('func-same-object', z3.BoolVal(out == 'ok' and key(E.loc(r)) == key(W)))
    for b, cls in ((t, 'buildcc::Target'), (g, 'buildcc::FileGenerator')):
        nm = 'build-' + cls.split('::')[1]
        clear_trace(E)
        E.write(R, R0)
        cb = E.alloc(Fn('py', lambda E_, a: E_.event('callback', a[0])), 'cb')
        uid = fld(E.read(b), 'unique_id_')
        out, r = c.tcall(pre + 'Build', W, cb, b, params=['std::function<void(%s' % cls])
        cv, full = evs(E, 'callback')
        c.ob(nm + '-callback-once', Implies(on, And(full, z3.BoolVal(len(cv) == 1 and key(cv[0].d[0]) == key(b)))))
        c.ob(nm + '-fatal-iff-duplicate', z3.BoolVal(out != 'ok') == And(on, E.mem(R0.f['build_'], uid)))
        if out == 'ok':
            c.ob(nm + '-registered', Implies(on, registered_as(c, R, b)))
            c.ob(nm + '-same-object', z3.BoolVal(key(E.loc(r)) == key(W)))
        quiet(nm)
    if test_on is None:
        return
    clear_trace(E)
    E.write(R, R0)
    out, r = c.tcall(pre + 'Dep', W, t, g)
    ev, full = evs(E, 'dep')
    c.ob('dep-once', Implies(on, And(full, z3.BoolVal(len(ev) == 1 and [key(x) for x in ev[0].d] == [key(R), key(t), key(g)]))))
    quiet('dep')
    clear_trace(E)
    cmd = S((z3.Const('cmd', Str),))
    cfg = E.alloc(E.fresh('buildcc::TestConfig', 'cfg', ()), 'cfg')
    out, r = c.tcall(pre + 'Test', W, E.alloc(cmd), t, cfg)
    ev, full = evs(E, 'test')
    both = And(on, test_on)
    c.ob('test-once-if-both', Implies(both, And(full, z3.BoolVal(len(ev) == 1 and key(ev[0].d[0]) == key(R) and key(ev[0].d[2]) == key(t)), E.eq(ev[0].d[1], cmd) if ev else FALSE, same(ev[0].d[3], E.read(cfg)) if ev else FALSE)))
    c.ob('test-only-if-both', Implies(Not(both), And(E.vempty(events(E, 'test', 'dep', 'compose', 'callback', 'exec')), z3.BoolVal(out == 'ok'), same(E.read(R), R0))))


@unit('reg.toolchain', 'C13', ['buildcc::Reg::Toolchain', TI + '(ctor)', TI + 'Func', TI + 'Build', TI + 'Dep', TI + 'Test', 'buildcc::Reg::Ref', RI + 'CallbackIf', RI + 'Callback', RI + 'Build', RI + 'BuildTask', RI + 'BuildStoreTask'],
      contracts={RI + 'Dep': c_dep, RI + 'Test': c_test}, taskname=taskname)
def toolchain(c):
    E = c.E
    R = c.R = instance(c)
    g = set_instance(c, R, z3.Bool('absent'))
    st = E.alloc(E.fresh('buildcc::ArgToolchainState', 'st', ()), 'st')
    out, r = c.tcall('buildcc::Reg::Toolchain', None, st)
    c.ob('needs-init', z3.BoolVal(out != 'ok') == z3.Bool('absent'))
    if out != 'ok':
        return
    v = E.val(r)
    conditional(c, E.alloc(v, 'W'), TI, fld(E.read(st), 'build'), fld(E.read(st), 'test'))


@unit('reg.callback', 'C13', ['buildcc::Reg::Call', CI + '(ctor)', CI + 'Func', CI + 'Build', 'buildcc::Reg::Ref', RI + 'CallbackIf', RI + 'Callback', RI + 'Build', RI + 'BuildTask', RI + 'BuildStoreTask'], taskname=taskname)
def callback(c):
    E = c.E
    R = c.R = instance(c)
    set_instance(c, R, z3.Bool('absent'))
    on = z3.Bool('cond')
    out, r = c.tcall('buildcc::Reg::Call', None, on)
    c.ob('needs-init', z3.BoolVal(out != 'ok') == z3.Bool('absent'))
    if out != 'ok':
        return
    conditional(c, E.alloc(E.val(r), 'W'), CI, on)


@unit('reg.test', 'C13 C14', [RI + 'Test', 'buildcc::TestInfo::(ctor)'])
def regtest(c):
    E = c.E
    R = instance(c)
    t = bld(c, 'buildcc::Target', 't')
    cfg = E.alloc(E.fresh('buildcc::TestConfig', 'cfg', ()), 'cfg')
    cmd = S((z3.Const('cmd', Str),))
    uid = fld(E.read(t), 'unique_id_')
    R0 = E.read(R)
    out, _ = c.tcall(RI + 'Test', R, E.alloc(cmd), t, cfg)
    R1 = E.read(R)
    m0, m1 = R0.f['tests_'], R1.f['tests_']
    c.ob('fatal-iff-unregistered-or-repeated', z3.BoolVal(out != 'ok') == Or(Not(E.mem(R0.f['build_'], uid)), E.mem(m0, uid)), 'C13')
    x = S((z3.Const('x', Str),))
    c.ob('other-tests-kept', Implies(Not(E.eq(x, uid)), E.mem(m1, x) == E.mem(m0, x)))
    c.ob('build-graph-unchanged', And(same(R1.f['build_'], R0.f['build_']), E.vempty(events(E, 'edge', 'compose', 'exec'))))
    if out == 'ok':
        ti = newval(c, m1, m0, uid)
        c.ob('stored', And(E.mem(m1, uid), E.eq(ti.f['command_'], cmd), z3.BoolVal(key(ti.f['target_'].lv) == key(t)), same(ti.f['config_'], E.read(cfg))))


# ---------------------------------------------------------------- C14: running tests
OUT = {'DefaultBehaviour': (0, 0), 'TestPrintOnStderr': (0, 1), 'TestPrintOnStdout': (1, 0), 'TestPrintOnStderrAndStdout': (1, 1)}


def testinfo(c):
    """an arbitrary registered test."""
    E = c.E
    t = bld(c, 'buildcc::Target', 't')
    ti = E.fresh('buildcc::TestInfo', 'ti', ())
    T = E.alloc(ti.set('target_', RefV(t)), 'TI')
    en = {k: int(v) for k, v in E.p.enums['buildcc::TestOutput::Type'].items()}
    ty = z3.Int('otype')
    E.assume(Or(*[ty == v for v in en.values()]))
    ub = [E.alloc(E.fresh('std::vector<std::string>', n, ()), n) for n in ('uout', 'uerr')]
    up = [Ptr(z3.Bool(n + '.null'), lv) for n, lv in zip(('uout', 'uerr'), ub)]
    for n, v in (('type_', ty), ('redirect_stdout_to_user_', up[0]), ('redirect_stderr_to_user_', up[1])):
        E.write(F(T, 'config_', 'output_', n), v)
    return t, T, en, ty, ub, up


@unit('reg.test-runner', 'C14', ['buildcc::TestInfo::TestRunner', 'buildcc::env::Command::AddDefaultArguments', 'buildcc::env::Command::AddDefaultArgument'])
def runner(c):
    E = c.E
    t, T, en, ty, ub, up = testinfo(c)
    T0 = E.read(T)
    t0 = E.read(t)
    out, _ = c.tcall('buildcc::TestInfo::TestRunner', T)
    ev, full = evs(E, 'exec')
    # command
    dm = E.default('std::unordered_map<std::string, std::string>')
    dm = Map(node_put(dm.node, S(('executable',)), lib.display(E, fld(t0, 'link_target_', 'output_'))), dm.kty, dm.vty)
    want = lib2.construct_result(E, T0.f['command_'], dm, fld(T0, 'config_', 'arguments_'))
    c.ob('at-most-one-command', And(full, z3.BoolVal(len(ev) <= 1)))
    if len(ev) == 1:
        v = ev[0]
        c.ob('command', E.eq(v.d[0], want))
        c.ob('working-directory', E.eq(v.d[2], fld(T0, 'config_', 'working_directory_')))
        ptrs = v.d[3:5]
        for i, nm in ((0, 'stdout'), (1, 'stderr')):
            p = ptrs[i]
            isp = isinstance(p, Ptr)
            own = z3.BoolVal(isp and is_lv(p.tgt) and all(key(p.tgt) != key(b) for b in ub) and not z3.is_true(p.null))
            for k, want2 in OUT.items():
                c.ob('%s-%s' % (nm, k), Implies(ty == en[k], And(Not(p.null), own) if want2[i] else (p.null if isp else FALSE)))
            user = z3.BoolVal(isp and is_lv(p.tgt) and key(p.tgt) == key(ub[i]))
            c.ob('%s-UserRedirect' % nm, Implies(ty == en['UserRedirect'], And(p.null == up[i].null, Or(p.null, user)) if isp else FALSE))
        if all(isinstance(p, Ptr) for p in ptrs):
            c.ob('separate-buffers', Implies(And(Not(ptrs[0].null), Not(ptrs[1].null), ty != en['UserRedirect']), z3.BoolVal(key(ptrs[0].tgt) != key(ptrs[1].tgt))))
        c.ob('failing-test-is-fatal', z3.BoolVal(out != 'ok') == Not(v.d[1]))
    else:
        c.ob('not-run-only-if-command-invalid', z3.BoolVal(out != 'ok'))
    c.ob('frame', And(same(E.read(T), T0), same(E.read(t), t0)))


passes_f = z3.Function('test.passes', Str, B)


def c_runner(E, o, a, e, f):
    """Contract of TestInfo::TestRunner (unit reg.test-runner): one command; fatal when the command fails."""
    cmd = E.val(o).f['command_']
    E.event('runner', cmd)
    if not E.branch(passes_f(cmd.term())):
        raise Throw(Op('exc', 'fatal'))


@unit('reg.run-tests', 'C14', [RI + 'RunTest', 'buildcc::env::get_task_state', 'buildcc::env::set_task_state'], contracts={'buildcc::TestInfo::TestRunner': c_runner}, on_run=lambda E, flow: run_subtasks(E, lib2.flowid(E, flow)))
def runtests(c):
    E = c.E
    R = instance(c)
    R0 = E.read(R)
    set_state(c, SUCCESS)   # RunBuild ended successfully (unit reg.run-build)
    # an exception that reaches Taskflow from a task ends its worker: the run never completes (the engine reports it as an escape here)
    esc = []

    def on_run(E_, flow):
        try:
            run_subtasks(E_, lib2.flowid(E_, flow))
        except Throw:
            esc.append(1)
            raise
    E.opts['on_run'] = on_run
    out, _ = c.tcall(RI + 'RunTest', R)
    got = events(E, 'runner')
    c.ob('no-exception-reaches-the-scheduler', z3.BoolVal(not esc))
    clear_trace(E)
    ok = E.alloc(TRUE, '$ok')

    def one(el, j):
        cmd = E.read(E.val(el).f['second'].lv).f['command_']
        E.event('runner', cmd)
    loops.iterate(E, R0.f['tests_'], one)
    c.ob('each-test-once', E.eq(got, events(E, 'runner')))
    allok = E.vall_map(R0.f['tests_'], lambda k: passes_f(E.mval(R0.f['tests_'], k).f['command_'].term()))
    c.ob('fatal-iff-a-test-fails', z3.BoolVal(out == 'ok') == allok)
    c.ob('frame', same(E.read(R), R0))


def c_runbuild(E, o, a, e, f):
    E.event('runbuild')
    if E.branch(E.uf(E.new('build.fatal'), B)):
        raise Throw(Op('exc', 'fatal'))


def c_runtest(E, o, a, e, f):
    E.event('runtest')
    if E.branch(E.uf(E.new('test.fatal'), B)):
        raise Throw(Op('exc', 'fatal'))


@unit('reg.run', 'C06 C14', ['buildcc::Reg::Run', 'buildcc::Reg::Ref'], contracts={RI + 'RunBuild': c_runbuild, RI + 'RunTest': c_runtest})
def run(c):
    E = c.E
    R = instance(c)
    set_instance(c, R)
    cb = E.alloc(E.fresh('std::function<void()>', 'cb', ()), 'cb')
    E.opts['call_sym'] = lambda E_, f_, a_, t_: E_.event('post')
    out, _ = c.tcall('buildcc::Reg::Run', None, cb)
    tags = [v.tag[3:] for v in evs(E, 'runbuild', 'post', 'runtest')[0]]
    full = evs(E, 'runbuild', 'post', 'runtest')[1]
    has = lib.fn_nonempty(E, E.read(cb))
    c.ob('builds-first', z3.BoolVal(tags[:1] == ['runbuild']), 'C06 C14')
    if out == 'ok':
        c.ob('then-callback-then-tests-once', And(full, z3.If(has, z3.BoolVal(tags == ['runbuild', 'post', 'runtest']), z3.BoolVal(tags == ['runbuild', 'runtest']))), 'C14')
    else:
        c.ob('stops-at-failure', And(full, z3.BoolVal(tags in (['runbuild'], ['runbuild', 'post', 'runtest'], ['runbuild', 'runtest']))), 'C06 C14')


@unit('reg.run-build', 'C06', [RI + 'RunBuild', 'buildcc::env::get_task_state'], on_run=lambda E, flow: None)
def runbuild(c):
    E = c.E
    R = instance(c)
    R0 = E.read(R)
    lv = set_state(c)
    final = z3.Int('final_state')
    E.axiom(Or(final == SUCCESS, final == FAILURE))
    # the tasks run between run and wait; they may leave either state behind
    E.opts['on_wait'] = lambda E_: E_.write(lv, final)
    out, _ = c.tcall(RI + 'RunBuild', R)
    ru, full = evs(E, 'run')
    wa, _ = evs(E, 'run', 'wait')
    c.ob('runs-the-registered-graph-once', And(full, z3.BoolVal(len(ru) == 1 and key(ru[0].d[0]) == key(R + ('f', 'build_tf_')))))
    c.ob('waits-for-it', z3.BoolVal([v.tag[3:] for v in wa][:2] == ['run', 'wait']))
    c.ob('failed-task-is-fatal', z3.BoolVal(out != 'ok') == (final != SUCCESS))

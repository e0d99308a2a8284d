"""Lock discipline of state shared between concurrently running build tasks: C30.

The engine keeps, as ghost state, the list of memory accesses the running tasks make and the locks held at each.  A location is shared for a task
when it existed before the task started (globals, function-local statics, the builder and everything under it); what a task allocates itself is its
own.  Two accesses to the same shared location, at least one of them a write, by two tasks that may run at the same time, must hold a common lock
that is itself shared and exclusive for the writer."""
from common import *
from cxxvc.lib2 import run_task, run_subtasks
import target as T_
import gen as G_
import reg as R_

TS = 'buildcc::env::'
SER = INT + 'TargetSerialization::'
F = T_.F


def is_global(lv):
    return lv.root.startswith(('g:', 'static:'))


def rename(t, idx):
    """the term of the other task: the loop indices that tell the tasks apart, primed."""
    return z3.substitute(t, *[(i, z3.Int(str(i) + "'")) for i in idx if z3.is_const(i)])


def disjoint(E, x, y):
    """condition under which the accesses x and y, made by two different tasks, touch disjoint memory."""
    a, b = x[1], y[1]
    if a.root != b.root:
        return TRUE
    # looking a container up does not touch its elements
    for p, q in ((x, y), (y, x)):
        if p[0] == 's' and len(q[1].path) > len(p[1].path) and q[1].path[len(p[1].path)][0] in ('e', 'm'):
            return TRUE
    idx = [i for _, ix in y[3] for i in ix]
    out = []
    for p, q in zip(a.path, b.path):
        if p[0] != q[0] or (p[0] == 'f' and p[1] != q[1]):
            return TRUE
        if p[0] == 'm':
            out.append(Not(E.eq(p[1], q[1])))
        elif p[0] == 'e' and isinstance(p[1], z3.ExprRef) and isinstance(q[1], z3.ExprRef):
            j = rename(q[1], idx)
            if [str(i) for i in idx] == [str(i) for _, ix in x[3] for i in ix] and not j.eq(q[1]):
                out.append(Implies(Or(*[i != z3.Int(str(i) + "'") for i in idx if z3.is_const(i)]), p[1] != j))
            else:
                out.append(p[1] != j)
    return Or(*out) if out else FALSE


def common_lock(x, y, level):
    """a lock existing before both tasks, held at both accesses, exclusively at the writes."""
    old = lambda m, t: is_global(m) or m.root in t[3][level][0]
    return any(key(m) == key(n) and (ex or x[0] != 'w') and (ey or y[0] != 'w') and old(m, x) and old(n, y)
               for m, ex, _ in x[2] for n, ey, _ in y[2])


def shared(x, level):
    """was the location there before the task (at nesting `level`) started?"""
    return is_global(x[1]) or (len(x[3]) > level and x[1].root in x[3][level][0])


def discipline(c, tag, acc, level, among, own=lambda lv: False, others=()):
    """obligation: no two accesses of tasks at nesting > level conflict on a location selected by `among`; own(lv): lv belongs to the task alone;
    others: writes another task may make."""
    E = c.E
    xs = [x for x in acc if x[0] != 'deadlock' and len(x[3]) > level and shared(x, level) and among(x[1]) and not own(x[1])]
    seen, goals = set(), []
    for w in others or xs:
        if w[0] != 'w':
            continue
        for x in xs:
            k = (key(w[1]), tuple(key(m[0]) for m in w[2]), x[0], key(x[1]), tuple(key(m[0]) for m in x[2]))
            if k in seen:
                continue
            seen.add(k)
            if common_lock(w, x, level):
                continue
            g = disjoint(E, w, x)
            if z3.is_true(g):
                continue
            goals.append(z3.Bool('race: write of %s (line %s), %s (line %s)' % (w[1], w[4], {'w': 'write', 'r': 'read', 's': 'lookup'}[x[0]], x[4])) if z3.is_false(g) else g)
    c.ob(tag, And(*goals) if goals else TRUE, 'C30')


def deadlocks(c, acc):
    c.ob('no-lock-taken-twice', z3.BoolVal(not any(x[0] == 'deadlock' for x in acc)), 'C30')


anyloc = lambda lv: True


@unit('sync.task-state', 'C30', [TS + 'set_task_state', TS + 'get_task_state'])
def task_state(c):
    """set/get by two concurrent tasks: every pair of accesses to the globals behind them is ordered by a lock."""
    E = c.E
    set_state(c)
    E.acc = acc = []
    before = frozenset(E.store)
    k = E.branch(z3.Bool('set'))
    E.tasks.append((before, ()))
    c.call(TS + 'get_task_state', None)
    if k:
        c.call(TS + 'set_task_state', None, z3.Int('new_state'))
    E.tasks.pop()
    E.acc = None
    discipline(c, 'task-state-accesses-share-a-lock', acc, 0, is_global)
    deadlocks(c, acc)
    c.ob('locks-released', z3.BoolVal(not E.held), 'C30')


@unit('sync.add-source', 'C30', [SER + 'AddSource'])
def add_source(c):
    """AddSource called by two concurrent tasks on the same record."""
    E = c.E
    T = T_.target(c)
    E.acc = acc = []
    E.tasks.append((frozenset(E.store), ()))
    c.call(SER + 'AddSource', F(T, 'serialization_'), S((z3.Const('p', Str),)), S((z3.Const('h', Str),)))
    E.tasks.pop()
    E.acc = None
    discipline(c, 'record-accesses-share-a-lock', acc, 0, anyloc)
    deadlocks(c, acc)
    c.ob('locks-released', z3.BoolVal(not E.held), 'C30')


def stage_unit(name, cls, sub, fns, pre=None):
    @unit(name, 'C30', fns)
    def u(c):
        E = c.E
        T = T_.target(c)
        set_state(c)
        if sub:
            c.call(cls + 'Task', F(T, sub))
        else:
            c.call(cls, T)
        if pre:
            pre(c, T)
        gs = T_.emplaced(E)
        c.ob('one-task', len(gs) == 1, 'C30')
        if len(gs) != 1:
            return
        T_.clear_trace(E)
        E.acc = acc = []
        c.attempt(lambda: run_task(E, gs[0]))
        E.acc = None
        mine = lambda lv: lv.root == T.root
        # tasks of different builders run concurrently: outside its own builder a task may only touch shared state under a lock
        discipline(c, 'tasks-of-different-targets-share-nothing-unlocked', acc, 0, lambda lv: not mine(lv))
        # the sub-tasks of one stage run concurrently with each other
        discipline(c, 'sub-tasks-access-shared-state-under-a-lock', acc, 1, anyloc)
        deadlocks(c, acc)
        c.ob('locks-released', z3.BoolVal(not E.held), 'C30')
    return u


stage_unit('sync.compile', T_.CO, 'compile_object_', [T_.CO + 'Task'], lambda c, T: T_.has_objects(c, T))
stage_unit('sync.pch', T_.PC, 'compile_pch_', [T_.PC + 'Task'])
stage_unit('sync.link', T_.LT, 'link_target_', [T_.LT + 'Task'])
stage_unit('sync.end', 'buildcc::Target::EndTask', None, ['buildcc::Target::EndTask'], lambda c, T: c.E.assume(T_.valid_type(c.E, T)))


def prefix(lv, pre):
    return lv.root == pre.root and key(LV(lv.root, lv.path[:len(pre.path)])) == key(pre)


@unit('sync.generator', 'C30', [G_.CG + 'GenerateTask'], contracts=dict(G_.CBS, **{G_.TFN: G_.c_functor}), deref=G_.handler_ptr, join_bumps=True, least=True)
def generator(c):
    """the generate task of one generator, and the tasks it spawns for its ids (each id has one: gen.generate/at-most-once)."""
    E = c.E
    G = E.alloc(E.fresh('buildcc::CustomGenerator', 'G', ()), 'G')
    E.write(F(G, 'serialization_', 'store_'), E.default(INT + 'CustomGeneratorSchema'))
    set_state(c)
    c.call(G_.CG + 'GenerateTask', G)
    gs = G_.emplaced(E)
    c.ob('one-task', len(gs) == 1, 'C30')
    if len(gs) != 1:
        return
    G_.clear_trace(E)
    E.acc = acc = []
    c.attempt(lambda: run_task(E, gs[0]))
    E.acc = None
    discipline(c, 'tasks-of-different-generators-share-nothing-unlocked', acc, 0, lambda lv: lv.root != G.root)
    # what belongs to the id of the sub-task: its entry of a map keyed by id
    own = lambda lv: any(e[0] == 'm' for e in lv.path)
    discipline(c, 'sub-tasks-write-only-what-belongs-to-their-id', acc, 1, lambda lv: True, own)
    deadlocks(c, acc)
    c.ob('locks-released', z3.BoolVal(not E.held), 'C30')


@unit('sync.generator-id', 'C30', [G_.TFN, 'buildcc::Comparator::IsChanged', 'buildcc::Comparator::IsIdAdded', 'buildcc::UserCustomGeneratorSchema::UserIdInfo::ConvertToInternal'],
      contracts=G_.CBS, call_sym=G_.cb, deref=G_.handler_ptr, cb_bumps=True)
def generator_id(c):
    """the task of one id: it writes only under its own entries, and reads nothing another id's task writes."""
    E = c.E
    G, st, k0, fl, sl, il, cl, _, _ = G_.functor(c)
    E.acc = acc = []
    E.tasks.append((frozenset(E.store), ()))
    c.tcall(G_.TFN, fl)
    E.tasks.pop()
    E.acc = None
    own = lambda lv: lv.root in (sl.root, fl.root) or prefix(lv, il)
    k1 = S((z3.Const('k1', Str),))
    other = F(G, 'user_', 'ids') + ('m', k1)
    base = [x for x in acc if not (x[0] != 'deadlock' and own(x[1]))]
    t = ((frozenset(E.store), ()),)
    E.assume(k1.term() != k0.term())
    discipline(c, 'writes-only-its-own-id', base, 0, lambda lv: True)
    discipline(c, 'reads-nothing-another-id-writes', base, 0, lambda lv: lv.root == G.root, others=[('w', other, (), t, 0)])
    deadlocks(c, acc)
    c.ob('locks-released', z3.BoolVal(not E.held), 'C30')


@unit('sync.tests', 'C30', [R_.RI + 'RunTest'], contracts={'buildcc::TestInfo::TestRunner': R_.c_runner}, on_run=lambda E, flow: run_subtasks(E, R_.lib2.flowid(E, flow)))
def tests(c):
    """the tests run as concurrent tasks: they share nothing but the task state."""
    E = c.E
    R = R_.instance(c)
    set_state(c)
    E.acc = acc = []
    c.tcall(R_.RI + 'RunTest', R)
    E.acc = None
    discipline(c, 'tests-share-nothing-unlocked', acc, 0, anyloc)
    deadlocks(c, acc)
    c.ob('locks-released', z3.BoolVal(not E.held), 'C30')


@unit('sync.test-runner', 'C30', ['buildcc::TestInfo::TestRunner'])
def test_runner(c):
    """one test: apart from the vectors the user asked it to fill, it writes nothing it did not allocate."""
    E = c.E
    t, T, en, ty, ub, up = R_.testinfo(c)
    set_state(c)
    E.acc = acc = []
    E.tasks.append((frozenset(E.store), ()))
    c.tcall('buildcc::TestInfo::TestRunner', T)
    E.tasks.pop()
    E.acc = None
    user = {b.root for b in ub}
    discipline(c, 'writes-nothing-shared-unlocked', acc, 0, anyloc, lambda lv: lv.root in user)
    deadlocks(c, acc)
    c.ob('locks-released', z3.BoolVal(not E.held), 'C30')

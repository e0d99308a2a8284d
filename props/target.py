"""Incremental build of a target: C01 - C06."""
from common import *

CO = INT + 'CompileObject::'


def compile_agrees(c, T0, T1, ep):
    """the loaded record agrees with the present build on every compile input other than the sources."""
    E = c.E
    ld, us = fld(T0, 'serialization_', 'load_'), fld(T0, 'user_')
    fs = [fld(T0, 'serialization_', 'loaded_')]
    for n in COMPILE_FLAGS:
        fs.append(E.eq(fld(ld, n), fld(us, n)))
    fs.append(E.eq(fld(ld, 'include_dirs', 'paths_'), fld(us, 'include_dirs', 'paths_')))
    for n in ('headers', 'compile_dependencies'):
        fs.append(E.eq(fld(ld, n, 'infos_'), hashed_list(E, fld(us, n, 'infos_'), ep)))
    fs.append(E.eq(fld(ld, 'pchs', 'infos_'), fld(us, 'pchs', 'infos_')))
    return And(*fs)


def recorded(c, T0, path, ep, distinct=False):
    """the record lists this path with its current timestamp."""
    E = c.E
    return E.vany(fld(T0, 'serialization_', 'load_', 'sources', 'infos_'),
                  lambda v: And(E.eq(E.val(v).f['path'], path), E.eq(E.val(v).f['hash'], mtime_str(E, path, ep))))


def distinct_paths(c, vec):
    """no two entries of the list have the same path."""
    E = c.E
    n = E.vlen(vec)
    i, j = z3.Ints('$d1 $d2')
    pi, pj = E.vat(vec, i), E.vat(vec, j)
    return z3.ForAll([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < n, i != j), Not(E.eq(pi.f['path'], pj.f['path']))))


def injective_commands(c, srcs, cmd):
    """different sources have different compile commands (each contains its own object path; C18/C19)."""
    E = c.E
    n = E.vlen(srcs)
    i, j = z3.Ints('$d1 $d2')
    pi, pj = E.vat(srcs, i), E.vat(srcs, j)
    return z3.ForAll([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < n, E.eq(cmd(pi.f['path']), cmd(pj.f['path']))), E.eq(pi.f['path'], pj.f['path'])))


def once(c, ex):
    """no command occurs twice in the event list (single flat segment of at most one event per index)."""
    E = c.E
    segs = [s for s in ex.segs]
    if not segs:
        return TRUE
    if len(segs) == 1 and isinstance(segs[0], FM):
        s = segs[0]
        i, j = z3.Ints('$d1 $d2')
        out = []
        for ca, sa in s.cases:
            if len(sa) > 1 or any(not isinstance(x, U) for x in sa):
                return FALSE
        for ca, sa in s.cases:
            for cb, sb in s.cases:
                for x in sa:
                    for y in sb:
                        out.append(Implies(And(z3.substitute(ca, (s.iv, i)), z3.substitute(cb, (s.iv, j))),
                                           Not(E.eq(subst(x.v, [(s.iv, i)]).d[0], subst(y.v, [(s.iv, j)]).d[0]))))
        return z3.ForAll([i, j], Implies(And(0 <= i, i < s.n, 0 <= j, j < s.n, i != j), And(*out)))
    if all(isinstance(s, U) for s in segs):
        return And(*[Not(E.eq(a.v.d[0], b.v.d[0])) for k, a in enumerate(segs) for b in segs[k + 1:]])
    raise Unsupported('event list shape')


CONF = ['name_', 'env_', 'loader_', 'toolchain_']


def frame(c, T0, T1, props, touched=(), hashed_fields=(), ep=None, readable=TRUE):
    """frame condition of a stage: configuration, commands and every list of inputs keep their content; only the timestamps of the named
    lists are refreshed; of the record under construction only `touched` changes; the loaded record stays."""
    E = c.E
    same = []
    for o in ('compile_object_', 'compile_pch_', 'link_target_'):
        for n in ('object_files_', 'command_', 'header_path_', 'source_path_', 'compile_path_', 'object_path_', 'output_'):
            if o in T0.f and n in T0.f[o].f:
                same.append(E.eq(fld(T1, o, n), fld(T0, o, n)))
    s0, s1 = fld(T0, 'serialization_'), fld(T1, 'serialization_')
    for n in ('loaded_', 'load_', 'serialized_file_'):
        if n in s0.f:
            same.append(E.eq(s1.f[n], s0.f[n]))
    for n in fld(s0, 'store_').f:
        if n not in touched:
            same.append(E.eq(fld(s1, 'store_', n), fld(s0, 'store_', n)))
    for n in fld(T0, 'user_').f:
        a, b = fld(T0, 'user_', n), fld(T1, 'user_', n)
        if n in hashed_fields:
            a, b = fld(a, 'infos_'), fld(b, 'infos_')
            h = hashed_list(E, a, ep)
            same.append(Or(E.eq(b, a), E.eq(b, h), And(Not(readable), E.vlen(a) == E.vlen(b))))
        else:
            same.append(E.eq(b, a))
    c.ob('frame', And(*same), props)


@unit('target.compile', 'C01 C02 C03 C05 C06', [CO + 'Task', CO + 'BuildObjectCompile', CO + 'PreObjectCompile', CO + 'CompileSources', CO + 'RecompileSources',
                                            CO + 'GetObjectData', INT + 'TargetSerialization::AddSource', 'buildcc::env::set_task_state', 'buildcc::env::get_task_state'])
def compile_stage(c):
    E = c.E
    T = target(c)
    st = set_state(c)
    ts0 = E.read(st)
    ep = E.epoch()
    c.call(CO + 'Task', F(T, 'compile_object_'))
    T0 = E.read(T)
    srcs = fld(T0, 'user_', 'sources', 'infos_')
    normalised(c, srcs)
    has_objects(c, T)
    gs = emplaced(E)
    c.ob('one-task', len(gs) == 1, 'C06')
    if len(gs) != 1:
        return
    clear_trace(E)
    out, _ = c.attempt(lambda: run_task(E, gs[0]))
    c.ob('no-exception-escapes', out == 'ok', 'C06')
    if out != 'ok':
        return
    T1 = E.read(T)
    ts1 = E.read(st)
    ex = events(E, 'exec')
    objs = fld(T0, 'compile_object_', 'object_files_')
    agree = compile_agrees(c, T0, T1, ep)

    def cmd(path):
        return E.mval(objs, path).f['command']

    def ran(path):
        return E.vany(ex, lambda v: E.eq(v.d[0], cmd(path)))

    def ran_ok(path):
        return E.vany(ex, lambda v: And(E.eq(v.d[0], cmd(path)), v.d[1]))
    started = ts0 == SUCCESS
    failed = ts1 == FAILURE
    dirty0, dirty1 = fld(T0, 'dirty_'), fld(T1, 'dirty_')
    # ---- C06: a stage starting after a failure does nothing; the state never goes back to success
    c.ob('nothing-after-failure', Implies(Not(started), And(E.vempty(ex), E.eq(T1, T0))), 'C06')
    c.ob('failure-sticky', Implies(ts0 == FAILURE, ts1 == FAILURE), 'C06')
    c.ob('failed-command-fails-build', Implies(E.vany(ex, lambda v: Not(v.d[1])), failed), 'C06')
    readable = And(*[E.vall(fld(T0, 'user_', n, 'infos_'), lambda v: lib.hasm_f(lib.norm(E, v.f['path']).term(), ep)) for n in ('sources', 'headers', 'compile_dependencies')])
    c.ob('fails-only-for-cause', Implies(And(started, readable, Not(E.vany(ex, lambda v: Not(v.d[1])))), Not(failed)), 'C02 C06')
    c.ob('unreadable-input-fails', Implies(And(started, Not(readable)), failed), 'C06')
    # ---- C01: skipped only if everything agrees (a failure before any command leaves the build failed, C06)
    c.ob('skip-only-if-unchanged', Implies(And(started, readable),
                                           E.vall(srcs, lambda v: Or(ran(v.f['path']), And(Not(dirty0), agree, recorded(c, T0, v.f['path'], ep))))), 'C01')
    c.ob('only-sources-compiled', E.vall(ex, lambda v: E.vany(srcs, lambda s: E.eq(v.d[0], cmd(s.f['path'])))), 'C01 C02')
    # ---- C02: agreeing and recorded => not compiled
    inj = injective_commands(c, srcs, cmd)
    dis = And(distinct_paths(c, srcs), distinct_paths(c, fld(T0, 'serialization_', 'load_', 'sources', 'infos_')))
    c.ob('unchanged-source-not-compiled', Implies(And(started, readable, Not(dirty0), agree, inj, dis),
                                                  E.vall(srcs, lambda v: Implies(recorded(c, T0, v.f['path'], ep), Not(ran(v.f['path']))))), 'C02')
    lsrc = fld(T0, 'serialization_', 'load_', 'sources', 'infos_')
    sameset = And(E.vall(srcs, lambda v: recorded(c, T0, v.f['path'], ep)), E.vall(lsrc, lambda v: E.vany(srcs, lambda w: E.eq(w.f['path'], v.f['path']))))
    c.ob('unchanged-target-stays-clean', Implies(And(started, readable, Not(dirty0), agree, dis, sameset), And(E.vempty(ex), Not(dirty1), Not(failed))), 'C02')
    c.ob('changed-target-is-dirty', Implies(And(started, readable, Not(And(agree, sameset))), dirty1), 'C03 C05')
    c.ob('dirty-sticky', Implies(dirty0, dirty1), 'C03 C05')
    # ---- exactly once: the executed commands are, in order, those of the sources needing it (each list position once)
    c.ob('at-most-once', Implies(And(dis, inj), once(c, ex)), 'C01')
    # ---- C05: record under construction
    rec1 = fld(T1, 'serialization_', 'store_', 'sources', 'infos_')
    ok = lambda v: And(E.vany(srcs, lambda s: And(E.eq(s.f['path'], v.f['path']), Or(ran_ok(s.f['path']), And(Not(dirty0), agree, recorded(c, T0, s.f['path'], ep))))),
                       E.eq(v.f['hash'], mtime_str(E, v.f['path'], ep)))
    c.ob('recorded-only-if-done', E.vall(rec1, ok), 'C05')
    c.ob('done-is-recorded', Implies(And(started, readable), E.vall(srcs, lambda s: Or(E.vany(rec1, lambda v: E.eq(v.f['path'], s.f['path'])), E.vany(ex, lambda v: And(E.eq(v.d[0], cmd(s.f['path'])), Not(v.d[1])))))), 'C05 C02')
    frame(c, T0, T1, 'C05 C02', ['sources'], ('sources', 'headers', 'compile_dependencies'), ep, readable)


def stage(c, cls, sub, pre=None):
    """run the task a stage emplaces; returns (outcome ok?, T, T0, T1, state before, state after, epoch)."""
    E = c.E
    T = target(c)
    st = set_state(c)
    ts0 = E.read(st)
    ep = E.epoch()
    if sub:
        c.call(cls + 'Task', F(T, sub))
    else:
        c.call(cls, T)
    if pre:
        pre(T)
    T0 = E.read(T)
    gs = emplaced(E)
    c.ob('one-task', len(gs) == 1, 'C06')
    if len(gs) != 1:
        return None
    clear_trace(E)
    out, _ = c.attempt(lambda: run_task(E, gs[0]))
    c.ob('no-exception-escapes', out == 'ok', 'C06')
    if out != 'ok':
        return None
    return T, T0, E.read(T), ts0, E.read(st), ep


def sticky(c, T0, T1, ts0, ts1, ex):
    E = c.E
    c.ob('nothing-after-failure', Implies(ts0 != SUCCESS, And(E.vempty(ex), E.eq(T1, T0))), 'C06')
    c.ob('failure-sticky', Implies(ts0 == FAILURE, ts1 == FAILURE), 'C06')
    c.ob('failed-command-fails-build', Implies(E.vany(ex, lambda v: Not(v.d[1])), ts1 == FAILURE), 'C06')


def exactly(c, ex, cmd):
    """the event list is exactly one execution of cmd."""
    E = c.E
    if len(ex.segs) == 1 and isinstance(ex.segs[0], U):
        return E.eq(ex.segs[0].v.d[0], cmd)
    return And(E.vlen(ex) == 1, E.vall(ex, lambda v: E.eq(v.d[0], cmd)))


PC = INT + 'CompilePch::'


@unit('target.pch', 'C02 C04 C05 C06', [PC + 'Task', PC + 'BuildCompile', PC + 'PreCompile', INT + 'TargetSerialization::UpdatePchCompiled', 'buildcc::Target::GetPchFiles'], save_keeps_fs=True)
def pch_stage(c):
    E = c.E
    r = stage(c, PC, 'compile_pch_')
    if r is None:
        return
    T, T0, T1, ts0, ts1, ep = r
    ex, sv = events(E, 'exec'), events(E, 'save')
    sticky(c, T0, T1, ts0, ts1, ex)
    ld, us = fld(T0, 'serialization_', 'load_'), fld(T0, 'user_')
    names = ('headers', 'pchs')
    readable = And(*[E.vall(fld(us, n, 'infos_'), lambda v: lib.hasm_f(lib.norm(E, v.f['path']).term(), ep)) for n in names])
    agree = And(fld(T0, 'serialization_', 'loaded_'), *[E.eq(fld(ld, n), fld(us, n)) for n in PCH_FLAGS],
                E.eq(fld(ld, 'include_dirs', 'paths_'), fld(us, 'include_dirs', 'paths_')),
                *[E.eq(fld(ld, n, 'infos_'), hashed_list(E, fld(us, n, 'infos_'), ep)) for n in names], fld(ld, 'pch_compiled'))
    started, dirty0, dirty1 = ts0 == SUCCESS, fld(T0, 'dirty_'), fld(T1, 'dirty_')
    needed = And(started, readable, Or(Not(agree), dirty0))
    cmd = fld(T0, 'compile_pch_', 'command_')
    badsave = E.vany(sv, lambda v: Not(v.d[2]))
    c.ob('compiled-at-most-once', Or(E.vempty(ex), exactly(c, ex, cmd)), 'C04')
    c.ob('compiled-if-needed', Implies(needed, Or(Not(E.vempty(ex)), badsave)), 'C04')
    c.ob('compiled-only-if-needed', Implies(Not(E.vempty(ex)), needed), 'C04 C02')
    c.ob('nothing-written-unless-needed', Implies(Not(E.vempty(sv)), needed), 'C04 C02')
    c.ob('unreadable-input-fails', Implies(And(started, Not(readable)), ts1 == FAILURE), 'C06')
    c.ob('fails-only-for-cause', Implies(And(started, readable, Not(badsave), Not(E.vany(ex, lambda v: Not(v.d[1])))), ts1 == SUCCESS), 'C06 C02')
    c.ob('failed-write-fails-build', Implies(badsave, And(ts1 == FAILURE, E.vempty(ex))), 'C06 C04')
    c.ob('dirty-iff-needed', Implies(And(started, readable), dirty1 == Or(Not(agree), dirty0)), 'C02 C03 C05')
    c.ob('dirty-sticky', Implies(dirty0, dirty1), 'C03 C05')
    # the header: one #include line per precompiled header path, in order, written before the compile command
    inc = E.alloc(S(()), '$inc')

    def one(el, j):
        E.write(inc, S((E.read(inc), '#include "', E.val(el).f['path'], '"\r\n')))
    loops.iterate(E, fld(us, 'pchs', 'infos_'), one)
    text = S(('// Generated by BuildCC\n#ifndef BUILDCC_GENERATED_PCH_H_\n#define BUILDCC_GENERATED_PCH_H_\n\n// clang-format off\n', E.read(inc), '\n\n#endif\n'))
    hp, sp = fld(T0, 'compile_pch_', 'header_path_'), fld(T0, 'compile_pch_', 'source_path_')
    c.ob('header-content', Implies(Not(E.vempty(ex)), E.vany(sv, lambda v: And(E.eq(v.d[0], lib.norm(E, hp)), E.eq(v.d[1], text), v.d[2]))), 'C04')
    there = lib.exists_f(sp.term(), ep)
    c.ob('companion-source-created', Implies(And(Not(E.vempty(ex)), Not(there)), E.vany(sv, lambda v: And(E.eq(v.d[0], lib.norm(E, sp)), v.d[2]))), 'C04')
    c.ob('companion-source-kept', Implies(there, E.vall(sv, lambda v: E.eq(v.d[0], lib.norm(E, hp)))), 'C04')
    c.ob('header-before-compile', z3.BoolVal(order_ok(E)), 'C04')
    # ---- record
    done = E.vall(ex, lambda v: v.d[1])
    sto0, sto = fld(T0, 'serialization_', 'store_'), fld(T1, 'serialization_', 'store_')
    c.ob('recorded-only-if-done', Implies(Or(fld(sto, 'pch_compiled') != fld(sto0, 'pch_compiled'), Not(E.eq(fld(sto, 'pchs'), fld(sto0, 'pchs')))),
                                          And(started, readable, ts1 == SUCCESS, fld(sto, 'pch_compiled'), E.eq(fld(sto, 'pchs', 'infos_'), hashed_list(E, fld(us, 'pchs', 'infos_'), ep)),
                                              Or(agree, Not(E.vempty(ex))))), 'C05')
    c.ob('done-is-recorded', Implies(And(started, readable, ts1 == SUCCESS), And(fld(sto, 'pch_compiled'), E.eq(fld(sto, 'pchs', 'infos_'), hashed_list(E, fld(us, 'pchs', 'infos_'), ep)))), 'C05 C02')
    frame(c, T0, T1, 'C05 C02', ['pchs', 'pch_compiled'], names, ep, readable)


def order_ok(E):
    """no header write follows a command on this path."""
    seen = False
    for s in events(E, 'exec', 'save').segs:
        if not isinstance(s, U):
            raise Unsupported('event order')
        if is_ev(s.v, 'exec'):
            seen = True
        elif seen:
            return False
    return True


LT = INT + 'LinkTarget::'


@unit('target.link', 'C02 C03 C05 C06', [LT + 'Task', LT + 'BuildLink', LT + 'PreLink', INT + 'TargetSerialization::UpdateTargetCompiled'])
def link_stage(c):
    E = c.E
    r = stage(c, LT, 'link_target_')
    if r is None:
        return
    T, T0, T1, ts0, ts1, ep = r
    ex, sv = events(E, 'exec'), events(E, 'save')
    sticky(c, T0, T1, ts0, ts1, ex)
    ld, us = fld(T0, 'serialization_', 'load_'), fld(T0, 'user_')
    names = ('libs', 'link_dependencies')
    readable = And(*[E.vall(fld(us, n, 'infos_'), lambda v: lib.hasm_f(lib.norm(E, v.f['path']).term(), ep)) for n in names])
    agree = And(fld(T0, 'serialization_', 'loaded_'), *[E.eq(fld(ld, n), fld(us, n)) for n in ('link_flags', 'external_libs')],
                E.eq(fld(ld, 'lib_dirs', 'paths_'), fld(us, 'lib_dirs', 'paths_')),
                *[E.eq(fld(ld, n, 'infos_'), hashed_list(E, fld(us, n, 'infos_'), ep)) for n in names], fld(ld, 'target_linked'))
    started, dirty0, dirty1 = ts0 == SUCCESS, fld(T0, 'dirty_'), fld(T1, 'dirty_')
    needed = And(started, readable, Or(Not(agree), dirty0))
    cmd = fld(T0, 'link_target_', 'command_')
    c.ob('linked-at-most-once', Or(E.vempty(ex), exactly(c, ex, cmd)), 'C03')
    c.ob('linked-if-needed', Implies(needed, Not(E.vempty(ex))), 'C03')
    c.ob('linked-only-if-needed', Implies(Not(E.vempty(ex)), needed), 'C03 C02')
    c.ob('writes-nothing', E.vempty(sv), 'C05')
    c.ob('unreadable-input-fails', Implies(And(started, Not(readable)), ts1 == FAILURE), 'C06')
    c.ob('fails-only-for-cause', Implies(And(started, readable, Not(E.vany(ex, lambda v: Not(v.d[1])))), ts1 == SUCCESS), 'C06 C02')
    c.ob('dirty-iff-needed', Implies(And(started, readable), dirty1 == Or(Not(agree), dirty0)), 'C02 C03 C05')
    c.ob('dirty-sticky', Implies(dirty0, dirty1), 'C03 C05')
    l0, l1 = fld(T0, 'serialization_', 'store_', 'target_linked'), fld(T1, 'serialization_', 'store_', 'target_linked')
    ok = And(Not(E.vempty(ex)), E.vall(ex, lambda v: v.d[1]))
    c.ob('recorded-iff-done', l1 == Or(l0, ok), 'C05')
    frame(c, T0, T1, 'C05 C02', ['target_linked'], names, ep, readable)


TS = INT + 'TargetSerialization::'
SI = INT + 'SerializationInterface::'


def load_text(c, cls, text):
    """what the repository's own loader makes of this text: (accepted, record)."""
    E = c.E
    L = E.alloc(E.fresh(cls, 'L%d' % len(E.store), ()), '$L')
    out, r = c.attempt(lambda: E.call(c.find(cls + '::Load', 1), L, [E.alloc(text)]))
    return (out == 'ok'), (E.val(r) if out == 'ok' else FALSE), fld(E.read(L), 'load_')


def record_of(c, T0):
    """the record an end task has to write for target state T0."""
    us, st = fld(T0, 'user_'), fld(T0, 'serialization_', 'store_')
    r = us
    for n in ('pchs', 'pch_compiled', 'sources', 'target_linked'):
        r = r.set(n, fld(st, n))
    return r


RECORD = ['name', 'type', 'sources', 'headers', 'pchs', 'libs', 'external_libs', 'include_dirs', 'lib_dirs', 'preprocessor_flags', 'common_compile_flags', 'link_flags',
          'asm_compile_flags', 'c_compile_flags', 'cpp_compile_flags', 'pch_compile_flags', 'pch_object_flags', 'compile_dependencies', 'link_dependencies', 'pch_compiled', 'target_linked']


@unit('target.end', 'C05 C06 C07', ['buildcc::Target::EndTask', TS + 'UpdateStore', TS + 'Store', TS + 'Load', SI + 'StoreToFile', 'buildcc::internal::TargetState::BuildCompleted'], dump_may_throw=True)
def end_stage(c):
    E = c.E

    def pre(T):
        E.assume(valid_type(E, T))
    r = stage(c, 'buildcc::Target::EndTask', None, pre)
    if r is None:
        return
    T, T0, T1, ts0, ts1, ep = r
    ex, sv = events(E, 'exec'), events(E, 'save')
    dirty = fld(T0, 'dirty_')
    c.ob('runs-no-command', E.vempty(ex), 'C05 C06')
    c.ob('clean-target-not-rewritten', Implies(Not(dirty), And(E.vempty(sv), E.eq(T1, T0), ts1 == ts0)), 'C05 C02')
    c.ob('failure-sticky', Implies(ts0 == FAILURE, ts1 == FAILURE), 'C06')
    c.ob('failed-save-fails-build', Implies(And(dirty, Or(E.vempty(sv), E.vany(sv, lambda v: Not(v.d[2])))), ts1 == FAILURE), 'C06 C05')
    c.ob('saved-build-keeps-state', Implies(And(Not(E.vempty(sv)), E.vall(sv, lambda v: v.d[2])), ts1 == ts0), 'C06')
    c.ob('at-most-one-save', len(sv.segs) <= 1 and all(isinstance(x, U) for x in sv.segs), 'C05')
    for s in sv.segs:
        if not isinstance(s, U):
            continue
        c.ob('saved-to-record-file', E.eq(s.v.d[0], lib.norm(E, fld(T0, 'serialization_', 'serialized_file_'))), 'C05')
        want = record_of(c, T0)
        ok, acc, got = load_text(c, INT + 'TargetSerialization', s.v.d[1])
        c.ob('record-loadable', And(z3.BoolVal(ok), acc), 'C05 C07')
        if ok:
            c.ob('record-content', And(*[E.eq(fld(got, n), fld(want, n)) for n in RECORD]), 'C05 C07')


def valid_type(E, T):
    t = fld(E.read(T), 'user_', 'type')
    return And(t >= 0, t <= 3)

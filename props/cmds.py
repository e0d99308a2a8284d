"""Commands and artifact paths of a target: C17 (compiler per class), C18, C19."""
from common import *
from cxxvc.lib import pjoin, display, norm

CO = INT + 'CompileObject::'
PC = INT + 'CompilePch::'
LT = INT + 'LinkTarget::'
TG = 'buildcc::Target::'
ASM, C_, CPP, HDR, INV = 0, 1, 2, 3, 4


def uf1(name, *a):
    return S((z3.Function('path.' + name, *[Str] * (len(a) + 1))(*[x.term() for x in a]),))


def tcconf(c, T, name):
    E = c.E
    return fld(E.read(fld(E.read(T), 'toolchain_').lv), 'config_', name)


def builddir(c, T):
    return fld(c.E.read(T), 'env_', 'target_build_dir_')


def rootdir(c, T):
    return fld(c.E.read(T), 'env_', 'target_root_dir_')


def object_path(c, T, src):
    """documented object path of a source: (is outside the root, path if inside, path if outside)."""
    E = c.E
    rel = uf1('lexically_relative', src, rootdir(c, T))
    out = And(Not(E.eq(rel, S())), E.eq(lib.pfirst(E, rel), S(('..',))))
    name = S((uf1('filename', src), tcconf(c, T, 'obj_ext')))
    under = S((z3.Function('str.replace', Str, I, I, Str)(rel.term(), z3.IntVal(ord('.')), z3.IntVal(ord('_'))),))
    return out, uf1('replace_filename', pjoin(E, builddir(c, T), rel), name), uf1('replace_filename', pjoin(E, builddir(c, T), under), name)


def is_object_path(c, T, src, p):
    E = c.E
    out, a, b = object_path(c, T, src)
    return E.eq(p, E.vite(out, b, a))


@unit('cmds.object-path', 'C19', [CO + 'ConstructObjectPath'])
def objpath(c):
    E = c.E
    T = target(c)
    T0 = E.read(T)
    src = E.alloc(E.fresh('std::filesystem::path', 'src'), 'src')
    r = E.val(c.call(CO + 'ConstructObjectPath', F(T, 'compile_object_'), src))
    c.ob('documented-path', is_object_path(c, T, E.val(src), r), 'C19')
    c.ob('frame', And(E.eq(E.read(T), T0), E.vempty(events(E, 'exec', 'save', 'remove'))), 'C19')


@unit('cmds.object-path.lemma', 'C19', [CO + 'ConstructObjectPath'])
def objpath_inj(c):
    """two different sources under the root get different objects, given the std::filesystem laws stated here."""
    E = c.E
    T = target(c)
    a, b = [S((z3.Const(n, Str),)) for n in ('a', 'b')]
    root, bd, oext = rootdir(c, T), builddir(c, T), tcconf(c, T, 'obj_ext')
    ra, rb = [E.val(c.call(CO + 'ConstructObjectPath', F(T, 'compile_object_'), E.alloc(x))) for x in (a, b)]
    rel = lambda x: uf1('lexically_relative', x, root)
    under = lambda x: And(Not(E.eq(rel(x), S())), Not(E.eq(lib.pfirst(E, rel(x)), S(('..',)))))
    # laws: root / (p relative to root) is p; the file name of a path is that of its relative part; replacing the file name by itself plus
    # a suffix appends the suffix; joining a fixed directory is injective on relative paths
    law = []
    for x in (a, b):
        law.append(Implies(under(x), E.eq(pjoin(E, root, rel(x)), x)))
        law.append(Implies(under(x), E.eq(uf1('replace_filename', pjoin(E, bd, rel(x)), S((uf1('filename', x), oext))), S((pjoin(E, bd, rel(x)), oext)))))
    law.append(Implies(And(under(a), under(b), S((pjoin(E, bd, rel(a)), oext)).term() == S((pjoin(E, bd, rel(b)), oext)).term()), E.eq(rel(a), rel(b))))
    c.ob('different-objects', Implies(And(*law, under(a), under(b), Not(E.eq(a, b))), Not(E.eq(ra, rb))))


def fclass(c, T, p):
    """(is C, is C++, is assembly) by the extension sets of the toolchain, in order of precedence."""
    E = c.E
    has = lib.has_ext(E, p)
    i = lambda n: And(has, E.mem(tcconf(c, T, n), lib.ext(E, p)))
    ic, ip, ia = i('valid_c_ext'), i('valid_cpp_ext'), i('valid_asm_ext')
    return ic, And(Not(ic), ip), And(Not(ic), Not(ip), ia)


def user(c, T, n):
    u = fld(c.E.read(T), 'user_', n)
    for k in ('paths_', 'infos_'):
        if isinstance(u, Rec) and k in u.f:
            u = u.f[k]
    return u


def flags(c, T, n):
    """all flags of the kind, in order, separated by one space."""
    return lib.join(c.E, user(c, T, n), S((' ',)), 'std::string')


def exe(c, T, n):
    E = c.E
    return fld(E.read(fld(E.read(T), 'toolchain_').lv), 'executables_', n)


def selected(c, T, p):
    E = c.E
    ic, ip, ia = fclass(c, T, p)

    def sel(f, none):
        return E.vite(ic, f('c'), E.vite(ip, f('cpp'), E.vite(ia, f('asm'), none)))
    comp = sel(lambda k: display(E, exe(c, T, {'c': 'c_compiler', 'cpp': 'cpp_compiler', 'asm': 'assembler'}[k])), display(E, S()))
    fl = sel(lambda k: flags(c, T, k + '_compile_flags'), S())
    return comp, fl


def cons(c, T, pat, **kw):
    """the pattern with the target's default values and these arguments (contract of Command::Construct, C21)."""
    E = c.E
    m = E.default('std::unordered_map<std::string, std::string>')
    for k, v in kw.items():
        m = Map(node_put(m.node, S((k,)), v), m.kty, m.vty)
    return lib2.construct_result(E, pat, fld(E.read(T), 'command_', 'default_values_'), m)


@unit('cmds.select', 'C17 C18', [TG + 'SelectCompileFlags', TG + 'SelectCompiler'])
def select(c):
    E = c.E
    T = target(c)
    T0 = E.read(T)
    en = E.p.enums['buildcc::FileExt']
    k = z3.Int('cls')
    E.assume(Or(*[k == int(v) for v in en.values()]))
    for fn, val in (('SelectCompileFlags', lambda n: flags(c, T, n + '_compile_flags')), ('SelectCompiler', lambda n: exe(c, T, {'c': 'c_compiler', 'cpp': 'cpp_compiler', 'asm': 'assembler'}[n]))):
        out, r = c.tcall(TG + fn, T, k)
        c.ob(fn + '-no-exception', out == 'ok')
        if out != 'ok':
            continue
        r = E.val(r)
        has, v = r.has, r.val
        c.ob(fn + '-some-iff-compiled', has == Or(*[k == int(en[n]) for n in ('Asm', 'C', 'Cpp')]))
        for n, q in (('Asm', 'asm'), ('C', 'c'), ('Cpp', 'cpp')):
            c.ob(fn + '-' + q, Implies(And(has, k == int(en[n])), E.eq(v, val(q)) if v is not None else FALSE))
    c.ob('frame', E.eq(E.read(T), T0))


@unit('cmds.add-object', 'C18 C19', [CO + 'AddObjectData', CO + 'ConstructObjectPath'])
def addobj(c):
    E = c.E
    T = target(c)
    T0 = E.read(T)
    src = S((z3.Const('src', Str),))
    out, _ = c.tcall(CO + 'AddObjectData', F(T, 'compile_object_'), E.alloc(src))
    c.ob('no-exception', out == 'ok')
    if out != 'ok':
        return
    m0, m1 = [fld(x, 'compile_object_', 'object_files_') for x in (T0, E.read(T))]
    k = norm(E, src)
    c.ob('has-object', E.mem(m1, k))
    c.ob('object-path', Implies(Not(E.mem(m0, k)), is_object_path(c, T, src, E.mval(m1, k).f['output'])), 'C19')
    x = S((z3.Const('x', Str),))
    c.ob('others-unchanged', And(E.mem(m1, x) == Or(E.mem(m0, x), E.eq(x, k)), Implies(E.mem(m0, x), E.eq(E.mval(m1, x), E.mval(m0, x)))))
    T1 = E.read(T)
    c.ob('frame', E.eq(T1.set('compile_object_', T1.f['compile_object_'].set('object_files_', m0)), T0))


@unit('cmds.compile', 'C17 C18', [CO + 'CacheCompileCommands', CO + 'GetObjectData', TG + 'SelectCompileFlags', TG + 'SelectCompiler'], normal_keys=True)
def compilecmds(c):
    E = c.E
    T = target(c)
    T0 = E.read(T)
    m0 = fld(T0, 'compile_object_', 'object_files_')
    E.axiom(lib.norm_axiom())
    E.assume(E.vall_map(m0, lambda k: E.eq(norm(E, k), k)))
    out, _ = c.tcall(CO + 'CacheCompileCommands', F(T, 'compile_object_'))
    if out != 'ok':
        return
    T1 = E.read(T)
    m1 = fld(T1, 'compile_object_', 'object_files_')
    x = S((z3.Const('x', Str),))
    comp, fl = selected(c, T, x)
    want = cons(c, T, fld(T0, 'config_', 'compile_command'), compiler=comp, compile_flags=fl, output=display(E, E.mval(m0, x).f['output']), input=display(E, x))
    c.ob('same-sources', E.mem(m1, x) == E.mem(m0, x), 'C18')
    c.ob('command', Implies(E.mem(m0, x), E.eq(E.mval(m1, x).f['command'], want)))
    c.ob('objects-kept', Implies(E.mem(m0, x), E.eq(E.mval(m1, x).f['output'], E.mval(m0, x).f['output'])), 'C18')
    c.ob('frame', E.eq(T1.set('compile_object_', T1.f['compile_object_'].set('object_files_', m0)), T0), 'C18')


@unit('cmds.pch', 'C18 C19', [PC + 'CacheCompileCommand', PC + 'ConstructCompileCommand', PC + 'ConstructSourcePath', PC + 'ConstructHeaderPath', TG + 'SelectCompileFlags'])
def pchcmd(c):
    E = c.E
    T = target(c)
    T0 = E.read(T)
    out, _ = c.tcall(PC + 'CacheCompileCommand', F(T, 'compile_pch_'))
    if out != 'ok':
        return
    T1 = E.read(T)
    p0, p1 = fld(T0, 'compile_pch_'), fld(T1, 'compile_pch_')
    cpp = fld(T0, 'state_', 'contains_cpp_')
    hdr = pjoin(E, builddir(c, T), S(('buildcc_pch', tcconf(c, T, 'pch_header_ext'))))
    sp = E.vite(cpp, uf1('replace_extension', hdr, S(('.cpp',))), uf1('replace_extension', hdr, S(('.c',))))
    c.ob('source-path', E.eq(p1.f['source_path_'], sp), 'C19')
    want = cons(c, T, fld(T0, 'config_', 'pch_command'), compiler=E.vite(cpp, display(E, exe(c, T, 'cpp_compiler')), display(E, exe(c, T, 'c_compiler'))),
                compile_flags=E.vite(cpp, flags(c, T, 'cpp_compile_flags'), flags(c, T, 'c_compile_flags')), output=display(E, p0.f['compile_path_']), input=display(E, p0.f['header_path_']), input_source=display(E, sp))
    c.ob('command', E.eq(p1.f['command_'], want), 'C18')
    c.ob('frame', E.eq(T1.set('compile_pch_', p1.set('command_', p0.f['command_']).set('source_path_', p0.f['source_path_'])), T0), 'C18 C19')


@unit('cmds.link', 'C18', [LT + 'CacheLinkCommand', CO + 'GetCompiledSources', INT + 'PathInfoList::GetPaths'])
def linkcmd(c):
    E = c.E
    T = target(c)
    T0 = E.read(T)
    out, _ = c.tcall(LT + 'CacheLinkCommand', F(T, 'link_target_'))
    if out != 'ok':
        return
    T1 = E.read(T)
    l0, l1 = fld(T0, 'link_target_'), fld(T1, 'link_target_')
    objs = E.alloc(Vec(), '$objs')
    loops.iterate(E, fld(T0, 'compile_object_', 'object_files_'), lambda el, j: E.write(objs, Vec(E.read(objs).segs + (U(E.read(E.val(el).f['second'].lv).f['output']),))))
    libs = E.alloc(Vec(), '$libs')
    loops.iterate(E, user(c, T, 'libs'), lambda el, j: E.write(libs, Vec(E.read(libs).segs + (U(E.val(el).f['path']),))))
    P = 'std::filesystem::path'
    sp = S((' ',))
    want = cons(c, T, fld(T0, 'config_', 'link_command'), output=display(E, l0.f['output_']), compiled_sources=lib.join(E, E.read(objs), sp, P),
                lib_deps=S((lib.join(E, E.read(libs), sp, P), ' ', lib.join(E, user(c, T, 'external_libs'), sp, 'std::string'))))
    c.ob('command', E.eq(l1.f['command_'], want))
    c.ob('frame', E.eq(T1.set('link_target_', l1.set('command_', l0.f['command_'])), T0))


def c_loadrec(E, o, a, e, f):
    """Contract of SerializationInterface::LoadFromFile (verified by the schema units): only the loaded record and the loaded flag change."""
    lv = E.loc(o)
    E.event('loadrec', fld(E.read(lv), 'serialized_file_'))
    r = E.uf(E.new('loaded'), B)
    E.write(F(lv, 'loaded_'), r)
    E.write(F(lv, 'load_'), E.fresh(INT + 'TargetSchema', E.new('L')))
    return r


EXES = {'asm_compiler': 'assembler', 'c_compiler': 'c_compiler', 'cpp_compiler': 'cpp_compiler', 'archiver': 'archiver', 'linker': 'linker'}


def prefixed(c, T, n, prefix):
    E = c.E
    r = E.alloc(Vec(), '$pfx')
    loops.iterate(E, user(c, T, n), lambda el, j: E.write(r, Vec(E.read(r).segs + (U(S((prefix, display(E, E.val(el))))),))))
    return lib.join(E, E.read(r), S((' ',)), 'std::string')


@unit('cmds.build', 'C17 C18 C19 C03 C04 C05 C06', [TG + 'Build', TG + 'TaskDeps', 'buildcc::env::Command::AddDefaultArguments', 'buildcc::env::Command::AddDefaultArgument', 'buildcc::TargetState::SourceDetected', 'buildcc::TargetState::PchDetected',
                                    CO + 'AddObjectData', CO + 'CacheCompileCommands', PC + 'CacheCompileCommand', LT + 'CacheLinkCommand', CO + 'Task', PC + 'Task', LT + 'Task', TG + 'EndTask'],
      contracts={INT + 'SerializationInterface::LoadFromFile': c_loadrec, INT + 'PathInfo::ToPathDisplayString': lib2.c_disp}, normal_keys=True)
def build(c):
    E = c.E
    T = target(c)
    smap = E.default('std::unordered_map<std::string, std::string>')
    E.write(F(T, 'command_', 'default_values_'), smap)
    E.write(F(T, 'compile_object_', 'object_files_'), Map(('E',), *[getattr(fld(E.read(T), 'compile_object_', 'object_files_'), k) for k in ('kty', 'vty')]))
    for n in ('contains_pch_', 'contains_asm_', 'contains_c_', 'contains_cpp_'):
        E.write(F(T, 'state_', n), FALSE)
    T0 = E.read(T)
    srcs = fld(T0, 'user_', 'sources', 'infos_')
    normalised(c, srcs)
    out, _ = c.tcall(TG + 'Build', T)
    if out != 'ok':
        return
    T1 = E.read(T)
    haspch = Not(E.vempty(fld(T0, 'user_', 'pchs', 'infos_')))
    # ---- default values of the placeholders
    dm = fld(T1, 'command_', 'default_values_')
    want = {'include_dirs': prefixed(c, T, 'include_dirs', tcconf(c, T, 'prefix_include_dir')), 'lib_dirs': prefixed(c, T, 'lib_dirs', tcconf(c, T, 'prefix_lib_dir')),
            'preprocessor_flags': flags(c, T, 'preprocessor_flags'), 'common_compile_flags': flags(c, T, 'common_compile_flags'), 'link_flags': flags(c, T, 'link_flags')}
    for k, n in EXES.items():
        want[k] = display(E, exe(c, T, n))
    for k, v in (('pch_compile_flags', flags(c, T, 'pch_compile_flags')), ('pch_object_flags', flags(c, T, 'pch_object_flags')), ('pch_object_output', display(E, fld(T0, 'compile_pch_', 'object_path_')))):
        want[k] = E.vite(haspch, v, S())
    for k, v in want.items():
        c.ob('value-' + k, And(E.mem(dm, S((k,))), E.eq(E.mval(dm, S((k,))), v)), 'C18')
    # ---- objects and commands
    m1 = fld(T1, 'compile_object_', 'object_files_')
    x = S((z3.Const('x', Str),))
    listed = E.vany(srcs, lambda v: E.eq(E.val(v).f['path'], x))
    c.ob('objects-of-sources', E.mem(m1, x) == listed, 'C18 C19')
    c.ob('object-path', Implies(E.mem(m1, x), is_object_path(c, T, x, E.mval(m1, x).f['output'])), 'C19')
    comp, fl = selected(c, T, x)
    c.ob('compile-command', Implies(E.mem(m1, x), E.eq(E.mval(m1, x).f['command'], cons(c, T, fld(T0, 'config_', 'compile_command'), compiler=comp, compile_flags=fl, output=display(E, E.mval(m1, x).f['output']), input=display(E, x)))), 'C17 C18')
    P, sp = 'std::filesystem::path', S((' ',))
    objs, libs = E.alloc(Vec(), '$objs'), E.alloc(Vec(), '$libs')
    loops.iterate(E, m1, lambda el, j: E.write(objs, Vec(E.read(objs).segs + (U(E.read(E.val(el).f['second'].lv).f['output']),))))
    loops.iterate(E, user(c, T, 'libs'), lambda el, j: E.write(libs, Vec(E.read(libs).segs + (U(E.val(el).f['path']),))))
    c.ob('link-command', E.eq(fld(T1, 'link_target_', 'command_'), cons(c, T, fld(T0, 'config_', 'link_command'), output=display(E, fld(T0, 'link_target_', 'output_')), compiled_sources=lib.join(E, E.read(objs), sp, P),
                              lib_deps=S((lib.join(E, E.read(libs), sp, P), ' ', lib.join(E, user(c, T, 'external_libs'), sp, 'std::string'))))), 'C18')
    cpp = E.vany(srcs, lambda v: fclass(c, T, E.val(v).f['path'])[1])
    hdr = pjoin(E, builddir(c, T), S(('buildcc_pch', tcconf(c, T, 'pch_header_ext'))))
    srcp = E.vite(cpp, uf1('replace_extension', hdr, S(('.cpp',))), uf1('replace_extension', hdr, S(('.c',))))
    p0 = T0.f['compile_pch_']
    c.ob('pch-command', Implies(haspch, E.eq(fld(T1, 'compile_pch_', 'command_'), cons(c, T, fld(T0, 'config_', 'pch_command'), compiler=E.vite(cpp, display(E, exe(c, T, 'cpp_compiler')), display(E, exe(c, T, 'c_compiler'))),
         compile_flags=E.vite(cpp, flags(c, T, 'cpp_compile_flags'), flags(c, T, 'c_compile_flags')), output=display(E, p0.f['compile_path_']), input=display(E, p0.f['header_path_']), input_source=display(E, srcp)))), 'C18')
    # ---- tasks
    tr = events(E, 'emplace', 'edge', 'loadrec')
    em = [s.v for s in tr.segs if isinstance(s, U) and is_ev(s.v, 'emplace')]
    ed = [s.v for s in tr.segs if isinstance(s, U) and is_ev(s.v, 'edge')]
    lr = [s.v for s in tr.segs if isinstance(s, U) and is_ev(s.v, 'loadrec')]
    c.ob('record-loaded-once', z3.BoolVal(len(lr) == 1 and all(isinstance(s, U) for s in tr.segs)), 'C05')
    tasks = {'pch': fld(T1, 'compile_pch_', 'task_'), 'compile': fld(T1, 'compile_object_', 'compile_task_'), 'link': fld(T1, 'link_target_', 'task_'), 'end': fld(T1, 'target_end_task_')}
    def placed(n):
        return z3.BoolVal(any(key(v.d[2]) == key(tasks[n]) for v in em))
    def edge(a, b):
        return z3.BoolVal(any(key(v.d[0]) == key(tasks[a]) and key(v.d[1]) == key(tasks[b]) for v in ed))
    c.ob('tasks-created', And(placed('compile'), placed('link'), placed('end'), Implies(haspch, placed('pch'))), 'C03 C04 C05 C06')
    c.ob('no-other-task', z3.IntVal(len(em)) == z3.If(haspch, 4, 3), 'C03 C04 C05 C06')
    c.ob('order-pch-compile', Implies(haspch, edge('pch', 'compile')), 'C04')
    c.ob('order-compile-link', edge('compile', 'link'), 'C03')
    c.ob('order-link-end', edge('link', 'end'), 'C05')
    # ---- nothing else changes
    back = T1
    for n in ('command_', 'state_', 'compile_object_', 'compile_pch_', 'link_target_', 'serialization_', 'target_end_task_'):
        back = back.set(n, T0.f[n])
    s0, s1 = T0.f['serialization_'], T1.f['serialization_']
    c.ob('frame', And(E.eq(back, T0), *[E.eq(s0.f[n], s1.f[n]) for n in s0.f if n not in ('loaded_', 'load_')]), 'C18 C05')


@unit('cmds.paths', 'C19', [TG + '(ctor)', TG + 'Initialize', PC + '(ctor)', PC + 'ConstructHeaderPath', PC + 'ConstructCompilePath', PC + 'ConstructObjectPath', LT + '(ctor)', LT + 'ConstructOutputPath', 'buildcc::TargetEnv::(ctor)'])
def paths(c):
    E = c.E
    tc = E.alloc(E.fresh('buildcc::Toolchain', 'tc', ()), 'TC')
    env = E.alloc(E.fresh('buildcc::TargetEnv', 'env', ()), 'env')
    cfg = E.alloc(E.fresh('buildcc::TargetConfig', 'cfg', ()), 'cfg')
    name = S((z3.Const('name', Str),))
    ty = z3.Int('type')
    en = E.p.enums['buildcc::TargetType']
    E.assume(Or(*[ty == int(v) for v in en.values()]))
    lv = E.alloc(None, 'T')
    out, _ = c.attempt(lambda: E.construct_with(lv, c.find(TG + '(ctor)', 5), [E.alloc(name), ty, tc, env, cfg], 'buildcc::Target'))
    if out != 'ok':
        return
    T1 = E.read(lv)
    tcv = E.read(tc)
    d = pjoin(E, pjoin(E, fld(E.read(env), 'target_build_dir_'), fld(tcv, 'name_')), name)
    cf = lambda n: fld(tcv, 'config_', n)
    c.ob('root-dir', E.eq(fld(T1, 'env_', 'target_root_dir_'), fld(E.read(env), 'target_root_dir_')))
    c.ob('build-dir', E.eq(fld(T1, 'env_', 'target_build_dir_'), d))
    c.ob('build-dir-created', E.vany(events(E, 'mkdir'), lambda v: E.eq(v.d[0], d)))
    c.ob('output', E.eq(fld(T1, 'link_target_', 'output_'), pjoin(E, d, S((name, fld(E.read(cfg), 'target_ext'))))))
    c.ob('record', E.eq(fld(T1, 'serialization_', 'serialized_file_'), pjoin(E, d, S((name, '.bin')))))
    hdr = pjoin(E, d, S(('buildcc_pch', cf('pch_header_ext'))))
    c.ob('pch-header', E.eq(fld(T1, 'compile_pch_', 'header_path_'), hdr))
    c.ob('pch-output', E.eq(fld(T1, 'compile_pch_', 'compile_path_'), uf1('replace_extension', hdr, S((cf('pch_header_ext'), cf('pch_compile_ext'))))))
    c.ob('pch-object', E.eq(fld(T1, 'compile_pch_', 'object_path_'), uf1('replace_extension', hdr, cf('obj_ext'))))
    c.ob('starts-without-objects', And(E.mempty(fld(T1, 'compile_object_', 'object_files_')), E.mempty(fld(T1, 'command_', 'default_values_'))))

"""Toolchains and what is derived from them: C24, C27, C28, C29."""
from common import *
from cxxvc.lib import pjoin, display, norm

TC = 'buildcc::Toolchain'
TOOLS = ('assembler', 'c_compiler', 'cpp_compiler', 'archiver', 'linker')


def toolchain_obj(c, name='tc'):
    E = c.E
    return E.alloc(E.fresh(TC, name, ()), name)


def c_split(E, o, a, e, f):
    """Contract of env::split (unit env.split): the pieces, in order."""
    s, d = lib2.SV(E, a[0]), E.val(a[1])
    j = z3.Int(E.new('pc'))
    n = lib2.npieces_f(s.term(), d)
    E.axiom(E.closed_all(n >= 0))
    return Vec((FM(n, j, [(TRUE, (U(S((lib2.piece_f(s.term(), d, j),))),))]),))


def holds_all(c, p, exes):
    """the directory can be listed and every tool is the stem of a regular file in it."""
    E = c.E
    ep, t = E.epoch(), p.term()
    fs = [z3.Function('fs.exists', Str, I, B)(t, ep), z3.Function('fs.exists.err', Str, I, I)(t, ep) == 0, z3.Function('fs.direrr', Str, I, I)(t, ep) == 0]
    n = z3.Function('dirn', Str, I, I)(t, ep)
    for k in TOOLS:
        j = z3.Int('$t_' + k)
        ent = z3.Function('dirent', Str, I, I, Str)(t, ep, j)
        reg = And(z3.Function('fs.is_regular_file', Str, I, B)(ent, ep), z3.Function('fs.is_regular_file.err', Str, I, I)(ent, ep) == 0)
        fs.append(z3.Exists([j], And(0 <= j, j < n, reg, z3.Function('path.stem', Str, Str)(ent) == exes.f[k].term())))
    return And(*fs)


def search_list(c, cfg):
    """explicit paths, then the entries of each variable, in order."""
    E = c.E
    r = E.alloc(fld(cfg, 'absolute_search_paths'), '$search')

    def one(el, j):
        s = E.val(el)
        v = S((z3.Function('env.val', Str, Str)(s.term()),))
        E.write(r, Vec(E.read(r).segs + c_split(E, None, [v, z3.IntVal(ord(':'))], None, None).segs))
    loops.iterate(E, fld(cfg, 'env_vars'), one)
    return E.read(r)


@unit('tool.find', 'C24', [TC + 'Find::Find', '(anon)::ParseEnvVarToPaths', '(anon)::ContainsToolchainExecutables'], contracts={'buildcc::env::split': c_split}, fs_throws=True)
def find(c):
    E = c.E
    t = toolchain_obj(c)
    t0 = E.read(t)
    cfg = E.alloc(E.fresh('buildcc::ToolchainFindConfig', 'cfg', ()), 'cfg')
    out, r = c.tcall(TC + 'Find::Find', t, cfg)
    missing = E.vany(fld(E.read(cfg), 'env_vars'), lambda v: Not(z3.Function('env.has', Str, B)(E.val(v).term())))
    c.ob('fatal-iff-variable-missing', z3.BoolVal(out != 'ok') == missing)
    c.ob('frame', And(z3.BoolVal(key(E.read(t)) == key(t0)), E.vempty(events(E, 'exec', 'save', 'mkdir', 'remove'))))
    if out != 'ok':
        return
    w = E.alloc(Vec(), '$want')
    exes = fld(t0, 'executables_')

    def one(el, j):
        p = E.val(el)
        if E.branch(holds_all(c, p, exes)):
            E.write(w, Vec(E.read(w).segs + (U(p),)))
    loops.iterate(E, search_list(c, E.read(cfg)), one)
    c.ob('exactly-the-directories-with-all-tools', vsame(E, E.val(r), E.read(w)))


def c_find(E, o, a, e, f):
    """Contract of ToolchainFind::Find (unit tool.find): a list of directories, or a fatal error; the toolchain is not changed."""
    E.event('find', E.val(a[0]))
    if E.branch(z3.Bool('find.fatal')):
        raise Throw(Op('exc', 'fatal'))
    return E.fresh('std::vector<std::filesystem::path>', 'found', ())


@unit('tool.verify', 'C24', [TC + 'Verify::Verify', '(anon)::CreateToolchainExecutables', TC + 'Verify::GetToolchainInfoCb', 'buildcc::ToolchainExecutables::(ctor)'], contracts={TC + 'Find::Find': c_find})
def verify(c):
    E = c.E
    t = toolchain_obj(c)
    t0 = E.read(t)
    cfg = E.alloc(E.fresh('buildcc::ToolchainFindConfig', 'cfg', ()), 'cfg')
    has_cb = lib.fn_nonempty(E, t0.f['info_cb_'])
    info = E.fresh('std::optional<buildcc::ToolchainCompilerInfo>', 'info', ())
    seen = []

    def cb(E_, f_, a_, t_):
        E_.event('info', E_.val(a_[0]))
        return info
    E.opts['call_sym'] = cb
    out, r = c.tcall(TC + 'Verify::Verify', t, cfg)
    t1 = E.read(t)
    found = E.fresh('std::vector<std::filesystem::path>', 'found', ())
    first = E.elem(found.segs[0], z3.IntVal(0))
    fd = [s.v for s in events(E, 'find').segs]
    c.ob('searches-with-the-configuration', z3.BoolVal(len(fd) == 1 and key(fd[0].d[0]) == key(E.read(cfg))))
    ok = And(Not(z3.Bool('find.fatal')), Not(E.vempty(found)), has_cb, info.has)
    c.ob('fatal-iff-not-found-or-not-recognised', z3.BoolVal(out == 'ok') == ok)
    want = {k: S((pjoin(E, first, S((fld(t0, 'executables_', k), ''))),)) for k in TOOLS}
    iv = [s.v for s in events(E, 'info').segs]
    c.ob('asks-at-most-once', z3.BoolVal(len(iv) <= 1))
    if len(iv) == 1:
        for k in TOOLS:
            c.ob('asks-about-%s-of-first' % k, E.eq(iv[0].d[0].f[k], want[k]))
    if out != 'ok':
        c.ob('unchanged-on-failure', z3.BoolVal(key(t1) == key(t0)))
        return
    for k in TOOLS:
        c.ob('absolute-' + k, E.eq(fld(t1, 'executables_', k), want[k]))
    c.ob('nothing-else-changes', z3.BoolVal(key(t1.set('executables_', t0.f['executables_'])) == key(t0)))
    v = E.val(r)
    c.ob('reports-info', And(E.eq(v.f['path'], first), E.eq(v.f['compiler_version'], info.val.f['compiler_version']), E.eq(v.f['target_arch'], info.val.f['target_arch'])))


# ------------------------------------------------------------------ compile_commands.json
CCC = 'buildcc::plugin::ClangCompileCommands'


def json_entry(E, v):
    """the JSON value a text denotes, when it is made of literal pieces and quoted strings: {key: string term} or None."""
    if not isinstance(v, S):
        return None
    toks, pos = [], 0
    for p in v.parts:
        if isinstance(p, str):
            t = p
            while t:
                t = t.lstrip(' \n\t\r')
                if not t:
                    break
                if t[0] in '{}:,':
                    toks.append(t[0])
                    t = t[1:]
                elif t[0] == '"':
                    k = t.find('"', 1)
                    if k < 0 or '\\' in t[:k]:
                        return None
                    toks.append(('k', t[1:k]))
                    t = t[k + 1:]
                else:
                    return None
        elif z3.is_app(p) and p.decl().name() == 'json.str':
            toks.append(('v', p.arg(0)))
        else:
            return None
    d = {}
    if len(toks) < 2 or toks[0] != '{' or toks[-1] != '}':
        return None
    body = toks[1:-1]
    for k in range(0, len(body), 4):
        g = body[k:k + 4]
        if len(g) < 3 or g[1] != ':' or g[0][0] != 'k' or g[2][0] != 'v' or (len(g) == 4) != (k + 4 < len(body)) or (len(g) == 4 and g[3] != ',') or g[0][1] in d:
            return None
        d[g[0][1]] = g[2][1]
    return d


def database(E, text):
    """the list of entries the saved text denotes."""
    ps = list(text.parts)
    if len(ps) == 1 and z3.is_app(ps[0]) and ps[0].decl().name() in lib2.DUMPS:
        n = lib2.DUMPS[ps[0].decl().name()]
        if n.tag != 'jarr':
            raise Unsupported('shape of the saved text')
        lst, ent = n.d[0], lambda v: {k: lib2.jnode(E, x).d[0].term() for k, x in lib2.jnode(E, v).d[0].f.items()}
    else:
        if len(ps) != 3 or not isinstance(ps[0], str) or not isinstance(ps[2], str) or ps[0].strip() != '[' or ps[2].strip() != ']' or not z3.is_app(ps[1]) or ps[1].decl().name() not in getattr(E, 'joins', {}):
            raise Unsupported('shape of the saved text')
        lst, sep, et = E.joins[ps[1].decl().name()]
        if sep.conc() is None or sep.conc().strip() != ',':
            raise Unsupported('shape of the saved text')
        ent = lambda v: json_entry(E, v)
    r = E.alloc(Vec(), '$db')

    def one(el, j):
        d = ent(E.val(el))
        if d is None or set(d) != {'directory', 'command', 'file'}:
            raise Unsupported('shape of an entry')
        E.write(r, Vec(E.read(r).segs + (U(Rec('entry', {k: S((d[k],)) for k in sorted(d)})),)))
    loops.iterate(E, lst, one)
    return E.read(r)


def pointee(E, p):
    """the (read-only) target behind a pointer of the list."""
    base, nm, idx = p.tgt.tag[3:], p.tgt.d[0], p.tgt.d[1]
    E.opts.setdefault('pointees', []).append((nm, idx))
    v = E.fresh(base, nm + '*', idx)
    return E.alloc(v, E.new('$pointee'))


def c_command(E, o, a, e, f):
    """Contract of GetCompileCommand on a target that has been set up (units cmds.build, target.compile): the command of that source."""
    s = lib2.SV(E, a[0])
    n0 = E.val(o + ('f', 'name_')).term()
    return S((z3.Function('cc.command', Str, Str, Str)(n0, s.term()),))


@unit('tool.compile-commands', 'C27', [CCC + '::Generate', 'buildcc::internal::TargetGetter<buildcc::Target>::IsBuilt', 'buildcc::internal::SourceApi<buildcc::Target>::GetSourceFiles'], contracts={INT + 'TargetGetter<buildcc::Target>::GetCompileCommand': c_command}, deref=pointee)
def compile_commands(c):
    E = c.E
    L = E.alloc(E.fresh(CCC, 'L', ()), 'L')
    L0 = E.read(L)
    ts = fld(L0, 'targets_')
    E.assume(Not(E.vany(ts, lambda p: E.val(p).null)))
    out, _ = c.tcall(CCC + '::Generate', L)
    sv = [s.v for s in events(E, 'save').segs]
    tgt = lambda p: E.fresh(E.val(p).tgt.tag[3:], E.val(p).tgt.d[0] + '*', E.val(p).tgt.d[1])
    built = E.vany(ts, lambda p: fld(tgt(p), 'state_', 'build_'))
    c.ob('written-iff-some-target-was-built', z3.BoolVal(len(sv) == 1) == built)
    c.ob('at-most-one-write', z3.BoolVal(len(sv) <= 1))
    c.ob('list-kept', z3.BoolVal(key(E.read(L)) == key(L0)))
    c.ob('fatal-only-if-not-saved', Implies(z3.BoolVal(out != 'ok'), Not(sv[0].d[2]) if sv else FALSE))
    if len(sv) != 1:
        return
    c.ob('fatal-if-not-saved', Implies(Not(sv[0].d[2]), z3.BoolVal(out != 'ok')))
    bd = E.val(c.call('buildcc::Project::GetBuildDir', None))
    c.ob('in-the-build-directory', E.eq(sv[0].d[0], norm(E, pjoin(E, bd, S(('compile_commands.json',))))))
    got = database(E, sv[0].d[1])
    w = E.alloc(Vec(), '$want')

    def per_target(p, j):
        t = tgt(p)

        def per_source(s, k):
            f = E.val(s).f['path']
            cmd = S((z3.Function('cc.command', Str, Str, Str)(t.f['name_'].term(), f.term()),))
            E.write(w, Vec(E.read(w).segs + (U(Rec('entry', {'command': cmd, 'directory': norm(E, bd), 'file': f})),)))
        loops.iterate(E, fld(t, 'user_', 'sources', 'infos_'), per_source)
    loops.iterate(E, ts, per_target)
    c.ob('one-entry-per-source-in-order', vsame(E, got, E.read(w)))


@unit('tool.add-target', 'C27', [CCC + '::AddTarget'])
def add_target(c):
    E = c.E
    L = E.alloc(E.fresh(CCC, 'L', ()), 'L')
    L0 = E.read(L)
    p = E.fresh('const buildcc::Target*', 'p', ())
    out, _ = c.tcall(CCC + '::AddTarget', L, p)
    c.ob('fatal-iff-null', z3.BoolVal(out != 'ok') == p.null)
    w = L0.set('targets_', Vec(fld(L0, 'targets_').segs + (U(p),))) if out == 'ok' else L0
    c.ob('appended-or-unchanged', z3.BoolVal(key(E.read(L)) == key(w)))


# ------------------------------------------------------------------ generic toolchains
GM = 'buildcc::GlobalToolchainMetadata'
IDS = ('Gcc', 'Msvc', 'Clang', 'MinGW', 'Custom', 'Undefined')
GCC_CFG = {'obj_ext': '.o', 'pch_header_ext': '.h', 'pch_compile_ext': '.gch', 'prefix_include_dir': '-I', 'prefix_lib_dir': '-L'}
MSVC_CFG = {'obj_ext': '.obj', 'pch_header_ext': '.h', 'pch_compile_ext': '.pch', 'prefix_include_dir': '/I', 'prefix_lib_dir': '/LIBPATH:'}
FAMILY = {'Gcc': ('Gcc', GCC_CFG), 'MinGW': ('Gcc', GCC_CFG), 'Clang': ('Gcc', GCC_CFG), 'Msvc': ('Msvc', MSVC_CFG), 'Custom': ('Error', {}), 'Undefined': ('Error', {})}


def the_config(c, idn):
    """a default configuration with the family's extensions and prefixes."""
    d = c.E.default('buildcc::ToolchainConfig')
    for k, v in FAMILY[idn][1].items():
        d = d.set(k, S((v,)))
    return d


def c_query(E, o, a, e, f):
    """Contract of Command::Execute (unit env.execute) for queries: whether it succeeds and what it prints depends on the command."""
    cmd = lib2.SV(E, a[0])
    ok = z3.Function('q.ok', Str, B)(cmd.term())
    E.event('exec', cmd, ok)
    v = E.val(a[2])
    if isinstance(v, Ptr) and is_lv(v.tgt) and not z3.is_true(v.null):
        E.write(v.tgt, Vec(E.read(v.tgt).segs + E.fresh('std::vector<std::string>', 'q.out', (cmd.term(),)).segs))
    return ok


def check_cb(c, cb, family, tag):
    """what the info callback of a family does, for every set of executables."""
    E = c.E
    x = E.fresh('buildcc::ToolchainExecutables', 'x', ())
    has, val = z3.Function('env.has', Str, B), z3.Function('env.val', Str, Str)
    out, r = c.attempt(lambda: E.callv(cb, [E.alloc(x)]))
    c.ob(tag + 'no-exception', z3.BoolVal(out == 'ok'))
    if out != 'ok':
        return
    r = E.val(r)
    if family == 'Gcc':
        q = [S((x.f['cpp_compiler'], k)) for k in (' -dumpversion', ' -dumpmachine')]
        o = [E.fresh('std::vector<std::string>', 'q.out', (k.term(),)) for k in q]
        ok = And(*[And(z3.Function('q.ok', Str, B)(k.term()), E.vlen(v) > 0) for k, v in zip(q, o)])
        want = [E.elem(v.segs[0], z3.IntVal(0)) for v in o]
    elif family == 'Msvc':
        nm = [S((k,)).term() for k in ('VSCMD_VER', 'VSCMD_ARG_HOST_ARCH', 'VSCMD_ARG_TGT_ARCH')]
        ok = And(*[has(k) for k in nm])
        want = [S((val(nm[0]),)), S((val(nm[1]), '_', val(nm[2])))]
        c.ob(tag + 'runs-nothing', E.vempty(events(E, 'exec')))
    else:
        ok, want = FALSE, []
        c.ob(tag + 'runs-nothing', E.vempty(events(E, 'exec')))
    c.ob(tag + 'succeeds-iff-all-queries-do', r.has == ok)
    for k, w in zip(('compiler_version', 'target_arch'), want):
        c.ob(tag + k, Implies(ok, E.eq(r.val.f[k], w)) if r.val is not None else Not(ok))
    for ev in events(E, 'exec').segs:
        if not isinstance(ev, U):
            raise Unsupported('queries in a loop')
        c.ob(tag + 'asks-only-the-cpp-compiler', Or(*[E.eq(ev.v.d[0], k) for k in q]))


TABLE = ('global_toolchain_metadata_', GM + '::global_toolchain_metadata_')
QUERY = {'buildcc::env::Command::Execute': c_query}


@unit('tool.metadata', 'C28', [GM + '::GetConfig', GM + '::GetInfoCb', GM + '::Get', GM + '::Expect', '(anon)::GetGccToolchainConfig', '(anon)::GetMsvcToolchainConfig', '(anon)::GetGccToolchainInfo',
      '(anon)::GetGccCompilerVersion', '(anon)::GetGccTargetArchitecture', '(anon)::GetMsvcToolchainInfo', '(anon)::GetMsvcCompilerVersion', '(anon)::GetMsvcTargetArchitecture', '(anon)::GetErrorToolchainInfo'], contracts=QUERY, initial_globals=TABLE)
def metadata(c):
    E = c.E
    i = E.choose([[z3.Int('id') == k] for k in range(len(IDS))])
    out, r = c.tcall(GM + '::GetConfig', None, z3.IntVal(i))
    c.ob('config-known', z3.BoolVal(out == 'ok'))
    if out == 'ok':
        c.ob('config-of-the-family', E.eq(E.val(r), the_config(c, IDS[i])))
    g0 = {k: key(v) for k, v in E.store.items() if 'global_toolchain_metadata_' in k}
    out, r = c.tcall(GM + '::GetInfoCb', None, z3.IntVal(i))
    c.ob('callback-known', z3.BoolVal(out == 'ok'))
    c.ob('table-kept', z3.BoolVal(len(g0) == 1 and all(key(E.store[k]) == v for k, v in g0.items())))
    if out == 'ok':
        check_cb(c, E.val(r), FAMILY[IDS[i]][0], 'callback-')


# --- creating them
CLS = {'Gcc': 'buildcc::Toolchain_gcc', 'Msvc': 'buildcc::Toolchain_msvc', 'MinGW': 'buildcc::Toolchain_mingw', 'Clang': 'buildcc::Toolchain_custom', 'Custom': 'buildcc::Toolchain_custom'}
DEFEXE = {'Gcc': ('as', 'gcc', 'g++', 'ar', 'ld'), 'MinGW': ('as', 'gcc', 'g++', 'ar', 'ld'), 'Msvc': ('cl', 'cl', 'cl', 'lib', 'link')}
taken_f = z3.Function('storage.has', Str, B)


def c_contains(E, o, a, e, f):
    """Contract of Storage::Contains (unit env.storage)."""
    return taken_f(lib2.SV(E, a[0]).term())


def c_add(E, o, a, e, f):
    """Contract of Storage::Add<T> (unit env.storage): a second object under an identifier is fatal; else T is constructed from the
    arguments, kept under the identifier, and returned."""
    ident = lib2.SV(E, a[0])
    if E.branch(taken_f(ident.term())):
        raise Throw(Op('exc', 'fatal'))
    ty = parse_ty(f['ret'])[0]
    ctor = [x for x in E.p.find(ty + '::(ctor)', len(a) - 1)]
    if len(a) == 2:
        ctor = [x for x in ctor if ty not in E.p.funcs[x]['params'][0]['type']]
    lv = E.alloc(Rec(ty, {}), '$stored')
    E.construct_with(lv, ctor[0], list(a[1:]), ty)
    E.event('stored', ident, Ptr(FALSE, lv), S((ty,)))
    return lv


STORE = {'buildcc::Storage::Add': c_add, 'buildcc::Storage::Contains': c_contains}


@unit('tool.new', 'C28', ['buildcc::Toolchain_generic::New', '(anon)::AddIf', TC + '::(ctor)'] + [CLS[k] + '::' + m for k in ('Gcc', 'Msvc', 'MinGW', 'Custom') for m in ('(ctor)', 'Initialize')] + [GM + '::GetConfig', GM + '::GetInfoCb', TC + 'Verify<buildcc::Toolchain>::SetToolchainInfoCb'],
      contracts=dict(QUERY, **STORE), initial_globals=TABLE)
def new(c):
    E = c.E
    idt = z3.Int('id')
    i = E.choose([[idt == k] for k in range(len(IDS))] + [[Or(idt < 0, idt >= len(IDS))]])
    idn = IDS[i] if i < len(IDS) else None
    ident = S((z3.Const('ident', Str),))
    ox = E.fresh('std::optional<buildcc::ToolchainExecutables>', 'ox', ())
    oc = E.fresh('std::optional<buildcc::ToolchainConfig>', 'oc', ())
    out, r = c.tcall('buildcc::Toolchain_generic::New', None, z3.IntVal(i) if idn else idt, E.alloc(ident), E.alloc(ox), E.alloc(oc))
    ok = Not(taken_f(ident.term())) if idn in DEFEXE else And(Not(taken_f(ident.term())), ox.has) if idn in CLS else FALSE
    c.ob('fatal-iff-taken-or-unsupported', z3.BoolVal(out == 'ok') == ok)
    st = [s.v for s in events(E, 'stored').segs]
    if out != 'ok':
        return
    c.ob('stored-once-under-the-identifier', And(z3.BoolVal(len(st) == 1), *[E.eq(x.d[0], ident) for x in st]))
    t = E.val(r)
    c.ob('id', t.f['id_'] == i)
    c.ob('name', E.eq(t.f['name_'], ident))
    for n, k in enumerate(TOOLS):
        w = fld(ox.val, k)
        if idn in DEFEXE:
            w = S((z3.If(ox.has, w.term(), S((DEFEXE[idn][n],)).term()),))
        c.ob('executable-' + k, E.eq(fld(t, 'executables_', k), w))
    c.ob('config', E.eq(t.f['config_'], the_config(c, idn)))
    for k, v in t.f['user_'].f.items():
        c.ob('no-flags-yet', E.vempty(v))
    check_cb(c, t.f['info_cb_'], FAMILY[idn][0], 'callback-')


# ------------------------------------------------------------------ specialised targets
FLAGS = ('preprocessor_flags', 'common_compile_flags', 'pch_compile_flags', 'pch_object_flags', 'asm_compile_flags', 'c_compile_flags', 'cpp_compile_flags', 'link_flags')
KINDS = ('Executable', 'StaticLib', 'DynamicLib')
TYPES = ('Executable', 'StaticLibrary', 'DynamicLibrary')


GCC_PCH = '{compiler} {preprocessor_flags} {include_dirs} {common_compile_flags} {pch_compile_flags} {compile_flags} -o {output} -c {input}'
GCC_OBJ = '{compiler} {preprocessor_flags} {include_dirs} {common_compile_flags} {pch_object_flags} {compile_flags} -o {output} -c {input}'
GCC_EXE = '{cpp_compiler} {link_flags} {compiled_sources} -o {output} {lib_dirs} {lib_deps}'
GCC_LIB = '{archiver} rcs {output} {compiled_sources}'
GCC_DYN = '{cpp_compiler} -shared {link_flags} {compiled_sources} -o {output}'
VC_PCH = '{compiler} {preprocessor_flags} {include_dirs} {common_compile_flags} /Yc{input} /FI{input} /Fp{output} {pch_compile_flags} {compile_flags} /Fo{pch_object_output} /c {input_source}'
VC_OBJ = '{compiler} {preprocessor_flags} {include_dirs} {common_compile_flags} {pch_object_flags} {compile_flags} /Fo{output} /c {input}'
# (extension, precompiled header command, compile command, link command)
PATTERN = {
    ('gcc', 'Executable'): ('', GCC_PCH, GCC_OBJ, GCC_EXE), ('gcc', 'StaticLib'): ('.a', GCC_PCH, GCC_OBJ, GCC_LIB), ('gcc', 'DynamicLib'): ('.so', GCC_PCH, GCC_OBJ, GCC_DYN),
    ('mingw', 'Executable'): ('.exe', GCC_PCH, GCC_OBJ, GCC_EXE), ('mingw', 'StaticLib'): ('.a', GCC_PCH, GCC_OBJ, GCC_LIB), ('mingw', 'DynamicLib'): ('.dll', GCC_PCH, GCC_OBJ, GCC_DYN + ' -Wl,--out-implib,{output}.a'),
    ('msvc', 'Executable'): ('.exe', VC_PCH, VC_OBJ, '{linker} {link_flags} {lib_dirs} /OUT:{output} {lib_deps} {compiled_sources} {pch_object_output}'),
    ('msvc', 'StaticLib'): ('.lib', VC_PCH, VC_OBJ, '{archiver} {link_flags} /OUT:{output} {compiled_sources} {pch_object_output}'),
    ('msvc', 'DynamicLib'): ('.lib', VC_PCH, VC_OBJ, '{linker} /DLL {link_flags} /OUT:{output}.dll /IMPLIB:{output} {compiled_sources} {pch_object_output}')}
FAM = {'Gcc': 'gcc', 'Msvc': 'msvc', 'MinGW': 'mingw'}


def the_target_config(c, fam, kind):
    d = c.E.default('buildcc::TargetConfig')
    for k, v in zip(('target_ext', 'pch_command', 'compile_command', 'link_command'), PATTERN[fam, kind]):
        d = d.set(k, S((v,)))
    return d


def extra_flags(E, T, fam, kind):
    """the family's default flags, by list: what precompiled headers need, position independent code for shared objects, and the
    standard switches of cl."""
    d = {k: () for k in FLAGS}
    pch = E.val(T).f['compile_pch_']
    hp, cp = pch.f['header_path_'], pch.f['compile_path_']
    if fam == 'msvc':
        d['c_compile_flags'], d['cpp_compile_flags'], d['link_flags'] = (S(('/nologo',)),), (S(('/nologo',)), S(('/EHsc',))), (S(('/nologo',)),)
        d['pch_object_flags'] = (S(('/Yu', display(E, hp))), S(('/FI', display(E, hp))), S(('/Fp', display(E, cp))))
    else:
        d['pch_object_flags'] = (S(('-include ', display(E, S((z3.Function('path.replace_extension', Str, Str, Str)(cp.term(), S().term()),))))), S(('-H',)))
        if kind == 'DynamicLib':
            d['common_compile_flags'] = (S(('-fpic',)),)
    return d


def check_target(c, lv, tc, fam, kind, cfg, tag=''):
    E = c.E
    T = E.read(lv)
    c.ob(tag + 'type', T.f['type_'] == KINDS.index(kind))
    c.ob(tag + 'config', E.eq(T.f['config_'], cfg))
    ex = extra_flags(E, lv, fam, kind)
    for k in FLAGS:
        c.ob(tag + k, vsame(E, fld(T, 'user_', k), Vec(fld(tc, 'user_', k).segs + tuple(U(x) for x in ex[k]))))


def made(c, ty, *args):
    E = c.E
    lv = E.alloc(Rec(ty, {}), 'T')
    out, v = c.attempt(lambda: E.construct_with(lv, c.find(ty + '::(ctor)', len(args)), list(args), ty))
    return out, lv


CLASSES = [(f, k, 'buildcc::%sTarget_%s' % (n, f if (f, n) != ('mingw', 'Static') else 'gcc')) for f in ('gcc', 'mingw', 'msvc') for k, n in zip(KINDS, ('Executable', 'Static', 'Dynamic'))]
COPTS = ('kGenericCopyOptions', 'buildcc::kGenericCopyOptions')
CTORS = ['buildcc::Target::(ctor)', 'buildcc::TargetInfo::(ctor)', 'buildcc::DefaultGccOptions', 'buildcc::DefaultMsvcOptions']


@unit('tool.target-classes', 'C29', CTORS + [x + '::(ctor)' for x in sorted({t for _, _, t in CLASSES})] + ['buildcc::%sConfig::%s' % (f, k) for f in ('Gcc', 'Mingw', 'Msvc') for k in KINDS])
def target_classes(c):
    E = c.E
    fam, kind, ty = CLASSES[E.choose([[z3.Int('cls') == k] for k in range(len(CLASSES))])]
    tc = toolchain_obj(c)
    tc0 = E.read(tc)
    env = E.alloc(E.fresh('buildcc::TargetEnv', 'env', ()), 'env')
    name = E.alloc(S((z3.Const('name', Str),)))
    own = E.choose([[z3.Int('own') == 0], [z3.Int('own') == 1]])
    cfg = the_target_config(c, 'gcc' if ty.endswith('_gcc') else fam, kind)
    if own:
        cfg = E.fresh('buildcc::TargetConfig', 'cfg', ())
        out, lv = made(c, ty, name, tc, env, E.alloc(cfg))
    else:
        out, lv = made(c, 'cxxvc_inst::Made<%s>' % ty, name, tc, env)
    init = E.val(c.call('buildcc::Project::IsInit', None))
    c.ob('fatal-iff-no-project', z3.BoolVal(out == 'ok') == init)
    if out == 'ok':
        check_target(c, lv, tc0, fam, kind, cfg)
        c.ob('toolchain-kept', z3.BoolVal(key(E.read(tc)) == key(tc0)))


GENERIC = ['buildcc::%sTarget_generic' % n for n in ('Executable', 'Static', 'Dynamic')] + ['buildcc::Target_generic']


@unit('tool.target-generic', 'C29', CTORS + [x + '::(ctor)' for x in GENERIC] + ['buildcc::GenericConfig::' + k for k in KINDS + ('Generic',)] + ['buildcc::internal::CopyApi<buildcc::Target>::Copy'], initial_globals=COPTS)
def target_generic(c):
    E = c.E
    tc = toolchain_obj(c)
    tc0 = E.read(tc)
    env = E.alloc(E.fresh('buildcc::TargetEnv', 'env', ()), 'env')
    name = E.alloc(S((z3.Const('name', Str),)))
    w = E.choose([[z3.Int('which') == k] for k in range(4)])       # one of the three classes, or the type chosen at run time
    tyv = z3.Int('type')
    k = w if w < 3 else E.choose([[tyv == x] for x in range(3)] + [[tyv == 3]])
    idt = tc0.f['id_']
    i = E.choose([[idt == x] for x in range(len(IDS))] + [[Or(idt < 0, idt >= len(IDS))]])
    fam = FAM.get(IDS[i]) if i < len(IDS) else None
    oc = E.fresh('std::optional<buildcc::TargetConfig>', 'oc', ())
    if w < 3:
        out, lv = made(c, GENERIC[w], name, tc, env, E.alloc(oc))
    else:
        out, lv = made(c, GENERIC[3], name, z3.IntVal(k), tc, env, E.alloc(oc))
    init = E.val(c.call('buildcc::Project::IsInit', None))
    good = And(init, z3.BoolVal(fam is not None and k < 3))
    c.ob('fatal-iff-unsupported', z3.BoolVal(out == 'ok') == good)
    if out == 'ok':
        given = E.branch(oc.has)
        check_target(c, lv, tc0, fam, KINDS[k], oc.val if given else the_target_config(c, fam, KINDS[k]))

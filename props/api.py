"""Target and toolchain API: C15 copy/insert, C16 add calls, C17 file classes."""
from common import *

TI = 'buildcc::TargetInfo'
CFG = 'buildcc::ToolchainConfig::'
STRL = ['preprocessor_flags', 'common_compile_flags', 'pch_compile_flags', 'pch_object_flags', 'asm_compile_flags', 'c_compile_flags', 'cpp_compile_flags', 'link_flags', 'external_libs']
PATHL = ['include_dirs', 'lib_dirs']
INFOL = ['sources', 'headers', 'pchs', 'libs', 'compile_dependencies', 'link_dependencies']


def tinfo(c, n='T'):
    """an arbitrary TargetInfo bound to an arbitrary toolchain."""
    E = c.E
    t = E.fresh(TI, n, ())
    tc = E.alloc(E.fresh('buildcc::Toolchain', n + '.tc', ()), n + '.TC')
    return E.alloc(Rec(t.ty, dict(t.f, toolchain_=RefV(tc))), n), tc


def items(u, l):
    """the vector inside list l of a schema value."""
    v = u.f[l]
    if l in INFOL:
        return v.f['infos_']
    return v.f['paths_'] if l in PATHL else v


def same_except(E, u0, u1, skip):
    return And(*[E.eq(u0.f[k], u1.f[k]) for k in u0.f if k != skip])


def ext_of(E, p):
    return lib.ext(E, p)


def in_set(E, cfg, n, p):
    return And(lib.has_ext(E, p), E.mem(cfg.f[n], ext_of(E, p)))


def is_source(E, cfg, p):
    return Or(*[in_set(E, cfg, n, p) for n in ('valid_c_ext', 'valid_cpp_ext', 'valid_asm_ext')])


def is_header(E, cfg, p):
    return in_set(E, cfg, 'valid_header_ext', p)


# function, list, kind: 'flag' one text | 'abs' one path | 'rel' path below the root | 'rel2' (name, sub directory) | 'dir'/'reldir' (path, glob=false)
IA = 'buildcc::internal::'
TABLE = [('FlagApi', 'AddPreprocessorFlag', 'preprocessor_flags', 'flag', None), ('FlagApi', 'AddCommonCompileFlag', 'common_compile_flags', 'flag', None), ('FlagApi', 'AddPchCompileFlag', 'pch_compile_flags', 'flag', None),
         ('FlagApi', 'AddPchObjectFlag', 'pch_object_flags', 'flag', None), ('FlagApi', 'AddAsmCompileFlag', 'asm_compile_flags', 'flag', None), ('FlagApi', 'AddCCompileFlag', 'c_compile_flags', 'flag', None),
         ('FlagApi', 'AddCppCompileFlag', 'cpp_compile_flags', 'flag', None), ('FlagApi', 'AddLinkFlag', 'link_flags', 'flag', None),
         ('SourceApi', 'AddSourceAbsolute', 'sources', 'abs', is_source), ('SourceApi', 'AddSource', 'sources', 'rel2', is_source),
         ('IncludeApi', 'AddHeaderAbsolute', 'headers', 'abs', is_header), ('IncludeApi', 'AddHeader', 'headers', 'rel2', is_header),
         ('IncludeApi', 'AddIncludeDirAbsolute', 'include_dirs', 'dir', None), ('IncludeApi', 'AddIncludeDir', 'include_dirs', 'reldir', None),
         ('PchApi', 'AddPchAbsolute', 'pchs', 'abs', is_header), ('PchApi', 'AddPch', 'pchs', 'rel2', is_header),
         ('LibApi', 'AddLibDirAbsolute', 'lib_dirs', 'abs', None), ('LibApi', 'AddLibDir', 'lib_dirs', 'rel', None), ('LibApi', 'AddLibDep', 'external_libs', 'flag', None),
         ('DepsApi', 'AddCompileDependencyAbsolute', 'compile_dependencies', 'abs', None), ('DepsApi', 'AddCompileDependency', 'compile_dependencies', 'rel', None),
         ('DepsApi', 'AddLinkDependencyAbsolute', 'link_dependencies', 'abs', None), ('DepsApi', 'AddLinkDependency', 'link_dependencies', 'rel', None)]
GETTERS = [('FlagApi', 'GetPreprocessorFlags', 'preprocessor_flags'), ('FlagApi', 'GetCommonCompileFlags', 'common_compile_flags'), ('FlagApi', 'GetPchCompileFlags', 'pch_compile_flags'), ('FlagApi', 'GetPchObjectFlags', 'pch_object_flags'),
           ('FlagApi', 'GetAsmCompileFlags', 'asm_compile_flags'), ('FlagApi', 'GetCCompileFlags', 'c_compile_flags'), ('FlagApi', 'GetCppCompileFlags', 'cpp_compile_flags'), ('FlagApi', 'GetLinkFlags', 'link_flags'),
           ('SourceApi', 'GetSourceFiles', 'sources'), ('IncludeApi', 'GetHeaderFiles', 'headers'), ('IncludeApi', 'GetIncludeDirs', 'include_dirs'), ('PchApi', 'GetPchFiles', 'pchs'), ('LibApi', 'GetLibDeps', 'libs'),
           ('LibApi', 'GetExternalLibDeps', 'external_libs'), ('LibApi', 'GetLibDirs', 'lib_dirs'), ('DepsApi', 'GetCompileDependencies', 'compile_dependencies'), ('DepsApi', 'GetLinkDependencies', 'link_dependencies')]


def api(cls, fn, t=TI):
    return '%s%s<%s>::%s' % (IA, cls, t, fn)


def paths_of(E, u, l):
    """the texts a getter returns."""
    if l not in INFOL:
        return items(u, l)
    r = E.alloc(Vec())

    def one(el, j):
        E.write(r, Vec(E.read(r).segs + (U(E.val(el).f['path']),)))
    loops.iterate(E, items(u, l), one)
    return E.read(r)


def adder(cls, fn, l, kind, valid):
    def body(c):
        E = c.E
        T, tc = tinfo(c)
        t0 = E.read(T)
        u0 = t0.f['user_']
        root = fld(t0, 'env_', 'target_root_dir_')
        a, b = S((z3.Const('a', Str),)), S((z3.Const('b', Str),))
        args = {'flag': [E.alloc(a)], 'abs': [E.alloc(a)], 'rel': [E.alloc(a)], 'rel2': [E.alloc(a), E.alloc(b)], 'dir': [E.alloc(a), FALSE], 'reldir': [E.alloc(a), FALSE]}[kind]
        params = ['basic_string'] if fn == 'AddLibDep' else None
        out, _ = c.tcall(api(cls, fn), T, *args, params=params)
        t1 = E.read(T)
        u1 = t1.f['user_']
        p = a
        if kind in ('rel', 'reldir'):
            p = lib.pjoin(E, root, a)
        elif kind == 'rel2':
            p = lib.pjoin(E, lib.pjoin(E, root, b), a)
        ok = TRUE if valid is None else valid(E, E.read(tc).f['config_'], p)
        c.ob('rejected-iff-invalid', z3.BoolVal(out == 'ok') == ok, 'C16' if valid is None else 'C17')
        if out != 'ok':
            c.ob('rejected-adds-nothing', E.eq(u1, u0), 'C17')
            return
        want = a if kind == 'flag' else lib.norm(E, p)
        v0, v1 = items(u0, l), items(u1, l)
        e = E.val(E.vat(v1, E.vlen(v0)))
        last = e.f['path'] if isinstance(e, Rec) else e
        c.ob('one-entry-added', E.vlen(v1) == E.vlen(v0) + 1, 'C16')
        c.ob('entry-is-the-argument', E.eq(last, want), 'C16')
        c.ob('earlier-entries-kept', Vec(v1.segs[:len(v0.segs)]).key() == v0.key() or E.eq(v1, Vec(v0.segs + (U(e),))), 'C16')
        c.ob('other-lists-kept', same_except(E, u0, u1, l), 'C16')
        c.ob('rest-kept', And(*[E.eq(t0.f[k], t1.f[k]) for k in t0.f if k not in ('user_', 'toolchain_')]), 'C16')
        if isinstance(e, Rec):
            c.ob('no-timestamp-yet', E.eq(e.f['hash'], S(())), 'C16')
    return body


for row in TABLE:
    unit('api.%s' % row[1], 'C16 C17' if row[4] else 'C16', [api(row[0], row[1])])(adder(*row))


@unit('api.getters', 'C16', [api(a, b) for a, b, _ in GETTERS])
def getters(c):
    E = c.E
    T, tc = tinfo(c)
    t0 = E.read(T)
    for cls, fn, l in GETTERS:
        out, r = c.tcall(api(cls, fn), T)
        c.ob('no-exception', out == 'ok', 'C16')
        if out == 'ok':
            c.ob('returns-' + l, E.eq(E.val(r), paths_of(E, t0.f['user_'], l)), 'C16')
    c.ob('changes-nothing', E.eq(E.read(T).f['user_'], t0.f['user_']), 'C16')


@unit('api.AddLibDep-target', 'C16', [api('LibApi', 'AddLibDep')])
def libdep(c):
    E = c.E
    T, tc = tinfo(c)
    O = target(c, name='O', store_empty=False)
    u0 = E.read(T).f['user_']
    out, _ = c.tcall(api('LibApi', 'AddLibDep'), T, O, params=['Target'])
    c.ob('no-exception', out == 'ok', 'C16')
    if out != 'ok':
        return
    u1 = E.read(T).f['user_']
    v0, v1 = items(u0, 'libs'), items(u1, 'libs')
    c.ob('output-path-appended', And(E.vlen(v1) == E.vlen(v0) + 1, E.eq(E.val(E.vat(v1, E.vlen(v0))).f['path'], lib.norm(E, fld(E.read(O), 'link_target_', 'output_')))), 'C16')
    c.ob('other-lists-kept', same_except(E, u0, u1, 'libs'), 'C16')


def globber(cls, fn, l, valid, kind):
    def body(c):
        E = c.E
        T, tc = tinfo(c)
        t0 = E.read(T)
        u0 = t0.f['user_']
        a = S((z3.Const('a', Str),))
        p = a if kind in ('abs', 'dir') else lib.pjoin(E, fld(t0, 'env_', 'target_root_dir_'), a)
        ep = E.epoch()
        out, _ = c.tcall(api(cls, fn), T, E.alloc(a), *([TRUE] if 'dir' in kind else []))
        u1 = E.read(T).f['user_']
        c.ob('fails-only-if-unreadable', z3.BoolVal(out == 'ok') == (z3.Function('fs.direrr', Str, I, I)(p.term(), ep) == 0), 'C16')
        if out != 'ok':
            return
        n = z3.Function('dirn', Str, I, I)(p.term(), ep)
        i = z3.Int('$gl')
        de = S((z3.Function('dirent', Str, I, I, Str)(p.term(), ep, i),))
        v0, v1 = items(u0, l), items(u1, l)
        entry = Rec(INT + 'PathInfo', {'path': lib.norm(E, de), 'hash': S(())})
        want = Vec(v0.segs + (FM(n, i, [(valid(E, E.read(tc).f['config_'], de), (U(entry),))]),))
        c.ob('adds-exactly-the-matching-entries', E.eq(v1, want), 'C16 C17')
        if 'dir' in kind:
            d0, d1 = items(u0, 'include_dirs'), items(u1, 'include_dirs')
            c.ob('adds-the-directory', E.eq(d1, Vec(d0.segs + (U(lib.norm(E, p)),))), 'C16')
            c.ob('other-lists-kept', And(*[E.eq(u0.f[k], u1.f[k]) for k in u0.f if k not in (l, 'include_dirs')]), 'C16')
        else:
            c.ob('other-lists-kept', same_except(E, u0, u1, l), 'C16')
    return body


for row in (('SourceApi', 'GlobSourcesAbsolute', 'sources', is_source, 'abs'), ('SourceApi', 'GlobSources', 'sources', is_source, 'rel'), ('IncludeApi', 'GlobHeadersAbsolute', 'headers', is_header, 'abs'), ('IncludeApi', 'GlobHeaders', 'headers', is_header, 'rel'),
            ('IncludeApi', 'AddIncludeDirAbsolute', 'headers', is_header, 'dir'), ('IncludeApi', 'AddIncludeDir', 'headers', is_header, 'reldir')):
    unit('api.%s%s' % (row[1], '-glob' if row[1].startswith('Add') else ''), 'C16 C17', [api(row[0], row[1])])(globber(*row))


FLAGL = STRL[:8]


@unit('api.initial-flags', 'C16', [TI + '::Initialize'])
def initial(c):
    E = c.E
    T, tc = tinfo(c)
    E.write(F(T, 'user_'), E.default(INT + 'TargetSchema'))
    t0 = E.read(T)
    out, _ = c.tcall(TI + '::Initialize', T)
    c.ob('no-exception', out == 'ok', 'C16')
    if out != 'ok':
        return
    u1, tu = E.read(T).f['user_'], E.read(tc).f['user_']
    for l in FLAGL:
        c.ob('starts-with-' + l, E.eq(u1.f[l], tu.f[l]), 'C16')
    c.ob('other-lists-empty', And(*[E.vempty(items(u1, l)) for l in PATHL + INFOL + ['external_libs']]), 'C16')


# ------------------------------------------------------------------ classes of files
@unit('api.file-class', 'C17', [CFG + 'GetFileExt', CFG + 'IsValidSource', CFG + 'IsValidHeader', CFG + 'ExpectsValidSource', CFG + 'ExpectsValidHeader'])
def fileclass(c):
    E = c.E
    cl = E.alloc(E.fresh('buildcc::ToolchainConfig', 'cfg', ()), 'cfg')
    cfg = E.read(cl)
    p = S((z3.Const('p', Str),))
    en = E.p.enums['buildcc::FileExt']
    iv = lambda n: z3.IntVal(int(en[n]))
    has = lib.has_ext(E, p)
    i = lambda n: And(has, in_set(E, cfg, n, p))
    out, r = c.tcall(CFG + 'GetFileExt', cl, E.alloc(p))
    c.ob('no-exception', out == 'ok')
    want = z3.If(i('valid_c_ext'), iv('C'), z3.If(i('valid_cpp_ext'), iv('Cpp'), z3.If(i('valid_asm_ext'), iv('Asm'), z3.If(i('valid_header_ext'), iv('Header'), iv('Invalid')))))
    if out == 'ok':
        c.ob('class', E.val(r) == want)
    for n, w in (('Source', Or(i('valid_c_ext'), i('valid_cpp_ext'), i('valid_asm_ext'))), ('Header', i('valid_header_ext'))):
        out, r = c.tcall(CFG + 'IsValid' + n, cl, E.alloc(p))
        c.ob('no-exception', out == 'ok')
        if out == 'ok':
            c.ob('is-' + n.lower(), E.val(r) == w)
        out, r = c.tcall(CFG + 'ExpectsValid' + n, cl, E.alloc(p))
        c.ob('rejects-non-' + n.lower(), z3.BoolVal(out == 'ok') == w)


# ------------------------------------------------------------------ copy and insert
OPT = {'SourceFiles': 'sources', 'HeaderFiles': 'headers', 'PchFiles': 'pchs', 'LibDeps': 'libs', 'IncludeDirs': 'include_dirs', 'LibDirs': 'lib_dirs', 'ExternalLibDeps': 'external_libs', 'PreprocessorFlags': 'preprocessor_flags',
       'CommonCompileFlags': 'common_compile_flags', 'PchCompileFlags': 'pch_compile_flags', 'PchObjectFlags': 'pch_object_flags', 'AsmCompileFlags': 'asm_compile_flags', 'CCompileFlags': 'c_compile_flags',
       'CppCompileFlags': 'cpp_compile_flags', 'LinkFlags': 'link_flags', 'CompileDependencies': 'compile_dependencies', 'LinkDependencies': 'link_dependencies'}


def sync(fn, const, n):
    """Copy / Insert with an option list: n = None arbitrary length, else that many (distinct) options."""
    def body(c):
        E = c.E
        T, tc = tinfo(c)
        O, tc2 = tinfo(c, 'O')
        t0, o0 = E.read(T), E.read(O)
        u0, w0 = t0.f['user_'], o0.f['user_']
        en = E.p.enums[INT + 'SyncOption']
        codes = {k: int(en[k]) for k in OPT}
        if n is None:
            opts = E.fresh('std::vector<%sSyncOption>' % INT, 'opts', ())
        else:
            os_ = [z3.Int('o%d' % i) for i in range(n)]
            if n > 1:
                E.assume(z3.Distinct(*os_))
            opts = Vec(tuple(U(x) for x in os_))
        known = lambda v: Or(*[v == k for k in codes.values()])
        out, _ = c.tcall(IA + 'SyncApi<%s>::%s' % (TI, fn), T, O, opts, params=['const ' if const else TI + '&&'])
        c.ob('fatal-iff-unknown-option', z3.BoolVal(out == 'ok') == E.vall(opts, known), 'C15')
        t1, o1 = E.read(T), E.read(O)
        u1 = t1.f['user_']
        if const:
            c.ob('source-kept', E.eq(o1, o0), 'C15')
        if out != 'ok':
            return
        every = []
        for k, l in OPT.items():
            sel = E.vany(opts, lambda v: v == codes[k])
            a, b, d = items(u0, l), items(w0, l), items(u1, l)
            if fn == 'Copy':
                want = E.vite(sel, b, a)
            elif n is None:
                i = z3.Int('$ins')
                want = Vec(a.segs + (FM(E.vlen(opts), i, [(E.elem(opts.segs[0], i) == codes[k], b.segs)]),))
            else:
                want = E.vite(sel, Vec(a.segs + b.segs), a)
            if n == 2:
                every.append(E.eq(d, want))
            else:
                c.ob('field-' + l, E.eq(d, want), 'C15')
        if every:
            c.ob('all-fields', And(*every), 'C15')
        rest = [k for k in u0.f if k not in OPT.values()]
        c.ob('rest-kept', And(*([E.eq(u0.f[k], u1.f[k]) for k in rest] + [E.eq(t0.f[k], t1.f[k]) for k in t0.f if k not in ('user_', 'toolchain_')])), 'C15')
    return body


for _f in ('Copy', 'Insert'):
    _fns = [IA + 'SyncApi<%s>::%s' % (TI, _f), IA + 'SyncApi<%s>::Specialized%s' % (TI, _f)]
    unit('api.%s' % _f, 'C15', _fns)(sync(_f, True, None))
    for _n in (1, 2):
        unit('api.%s-move-%d' % (_f, _n), 'C15', _fns, bounded='option lists of %d distinct options' % _n)(sync(_f, False, _n))

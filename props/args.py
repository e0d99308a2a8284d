"""Command-line options: C32.  CLI11 is used by contract: a registered option writes the text given for it (or, when it has one, its
default) to the variable it was registered with, and to nothing else; `required` makes a command line without it an error; a transformer
replaces the text by the value its table gives."""
from common import *

A = 'buildcc::Args::'
AI = 'buildcc::Args::Instance::'


class Opt_:
    def __init__(s, kind, app, name, var):
        s.kind, s.app, s.name, s.var = kind, app, name, var
        s.default, s.required, s.table, s.expected = None, None, None, None


def text(E, v):
    v = E.val(v)
    if isinstance(v, S):
        t = v.conc()
        if t is not None:
            return t
    raise Unsupported('option name that is not a constant %r' % (v,))


def target(E, v):
    v = E.val(v)
    if isinstance(v, Ptr) and v.tgt is not None:
        v = E.read(v.tgt)
    if isinstance(v, Op) and v.tag.startswith('cli:'):
        return v
    raise Unsupported('CLI object %r' % (v,))


def mk(E, ident):
    E.cli_ids.append(ident)
    return Ptr(FALSE, E.alloc(Op('cli:%d' % (len(E.cli_ids) - 1)), 'cli'))


def app_op(E, o):
    return ident(E, o)


def ident(E, o):
    return E.cli_ids[int(target(E, o).tag[4:])]


def _sub(kind):
    def f(E, o, a, e, f):
        p = app_op(E, o)
        n = E.val(a[0])
        r = mk(E, (p, kind, n.conc() if n.conc() is not None else str(n.term())))
        E.cli_subs.append((p, kind, n))
        return r
    return f


def _opt(kind):
    def f(E, o, a, e, f):
        x = Opt_(kind, app_op(E, o), text(E, a[0]), E.loc(a[1]) if kind in ('flag', 'option') else None)
        x.descr = a[2:3]
        E.cli_opts.append(x)
        return mk(E, len(E.cli_opts) - 1)
    return f


def the(E, o):
    return E.cli_opts[ident(E, o)]


def _default(E, o, a, e, f):
    the(E, o).default = E.val(a[0])
    return E.val(o) if not is_lv(o) else self_ptr(E, o)


def self_ptr(E, o):
    v = E.read(E.loc(o))
    return v if isinstance(v, Ptr) else Ptr(FALSE, E.loc(o))


def _required(E, o, a, e, f):
    the(E, o).required = E.tobool(E.val(a[0])) if a else TRUE
    return self_ptr(E, o)


def _transform(E, o, a, e, f):
    v = E.val(a[0])
    the(E, o).table = v.d[0] if isinstance(v, Op) and v.tag == 'cli.tr' else None
    return self_ptr(E, o)


def _expected(E, o, a, e, f):
    the(E, o).expected = [E.val(x) for x in a]
    return self_ptr(E, o)


def _tr(E, o, a, e, f):
    return Op('cli.tr', E.val(a[0]))


def _noop(E, o, a, e, f):
    return self_ptr(E, o)


CLI = {
    'CLI::App::add_option': _opt('option'), 'CLI::App::add_flag': _opt('flag'), 'CLI::App::set_config': _opt('config'),
    'CLI::App::set_help_all_flag': _opt('help'), 'CLI::App::add_subcommand': _sub('sub'), 'CLI::App::add_option_group': _sub('group'),
    'CLI::App::group': _noop, 'CLI::Option::default_val': _default, 'CLI::OptionBase<CLI::Option>::required': _required,
    'CLI::OptionBase::required': _required, 'CLI::Option::transform': _transform, 'CLI::Option::expected': _expected,
    'CLI::CheckedTransformer::(ctor)': _tr, 'CLI::Validator::(ctor)': lambda E, o, a, e, f: E.val(a[0]),
    'CLI::Option::ignore_case': _noop,
}


def _app(E, o, a, e, f):
    return E.read(mk(E, 'app').tgt)


CLI['CLI::App::(ctor)'] = _app


def start(E):
    E.cli_opts, E.cli_subs, E.cli_ids = [], [], []


def root(c):
    """a ready Args::Internal held by the static pointer."""
    E = c.E
    start(E)
    E.cli = {n: mk(E, n) for n in ('app', 'toolchain', 'target')}
    return E


def _refapp(E, o, a, e, f):
    return E.cli['app'].tgt


def _refint(E, o, a, e, f):
    r = E.alloc(Rec('buildcc::Args::Internal', {'instance': Op('args.instance'), 'app': E.read(E.cli['app'].tgt), 'toolchain': E.cli['toolchain'],
                                               'target': E.cli['target']}), 'internal')
    return r


REF = {A + 'RefApp': _refapp, A + 'RefInternal': _refint}


def bindings(c, want, group=None):
    """want: name -> (kind, variable location, default value or None, required, table)."""
    E = c.E
    have = {}
    for x in E.cli_opts:
        if x.kind in ('flag', 'option'):
            if x.name in have:
                c.ob('one-binding', FALSE)
            have[x.name] = x
    c.ob('options', z3.BoolVal(set(have) == set(want)))
    for n, (kind, lv, dflt, req, table) in want.items():
        x = have.get(n)
        if x is None:
            continue
        c.ob('bound-to', z3.BoolVal(x.kind == kind and key(E.resolve_soft(x.var)) == key(lv)))
        if dflt is not None:
            c.ob('default', FALSE if x.default is None else E.eq(x.default, dflt))
        else:
            c.ob('no-default', z3.BoolVal(x.default is None))
        c.ob('required', x.required if req and x.required is not None else z3.BoolVal(not req) if x.required is None else Not(x.required))
        if table:
            table(x.table)
        else:
            c.ob('no-table', z3.BoolVal(x.table is None))
    return have


def table_of(c, names, enum):
    """the table of a transformer: exactly these names, each for the enumerator of that name."""
    E = c.E
    en = {n.lower(): int(v) for n, v in E.p.enums[enum].items()} if isinstance(E.p.enums[enum], dict) else {x[0].lower(): int(x[1]) for x in E.p.enums[enum]}

    def f(t):
        if not isinstance(t, Map):
            c.ob('values', FALSE)
            return
        k = z3.Const('cli.k', Str)
        ks = S((k,))
        c.ob('values', E.mem(t, ks) == Or(*[ks.term() == S((n,)).term() for n in names]))
        for n in names:
            c.ob('value-of-name', Implies(E.mem(t, S((n,))), E.mval(t, S((n,))) == en[n]))
    return f


def glob(E, n):
    return E.global_lv([i for i, x in sorted(E.p.globals.items()) if x['name'].split('::')[-1] == n and 'args' in i or x['name'].split('::')[-1] == n][0])


@unit('args.root', 'C32', [A + 'RootArgs'], contracts=dict(CLI, **REF))
def args_root(c):
    E = root(c)
    out, _ = c.tcall(A + 'RootArgs', None)
    c.ob('completes', z3.BoolVal(out == 'ok'))
    bindings(c, {'--clean': ('flag', glob(E, 'clean_'), None, False, None),
                 '--loglevel': ('option', glob(E, 'loglevel_'), None, False,
                                table_of(c, ['trace', 'debug', 'info', 'warning', 'critical'], 'buildcc::env::LogLevel')),
                 '--root_dir': ('option', glob(E, 'project_root_dir_'), None, True, None),
                 '--build_dir': ('option', glob(E, 'project_build_dir_'), None, True, None)})
    cf = [x for x in E.cli_opts if x.kind == 'config']
    c.ob('configuration-files', z3.BoolVal(len(cf) == 1 and cf[0].name == '--config'))
    c.ob('configuration-files-number', And(cf[0].expected[0] == 0, cf[0].expected[1] == 10) if cf and cf[0].expected and len(cf[0].expected) == 2 else FALSE)
    c.ob('belongs-to-root', z3.BoolVal(all(k == 'group' and p == 'app' for p, k, _ in E.cli_subs)))


def owner(c, under, name, group):
    """every option was registered with the subcommand `name` of `under`."""
    E = c.E
    ap = [(p, k, n) for p, k, n in E.cli_subs]
    c.ob('one-subcommand', z3.BoolVal(len(ap) == 1 and ap[0][0] == under and ap[0][1] == 'sub'))
    if ap:
        c.ob('named', E.eq(ap[0][2], name))
    c.ob('owner', z3.BoolVal(all(isinstance(x.app, tuple) and x.app[0] == under for x in E.cli_opts)))


def fld(v, n):
    return v.f[n]


@unit('args.add-toolchain', 'C32', [AI + 'AddToolchain'], contracts=dict(CLI, **REF))
def add_toolchain(c):
    E = root(c)
    I_ = E.alloc(Op('args.instance'), 'inst')
    O = E.alloc(E.fresh('buildcc::ArgToolchain', 'out', ()), 'out')
    N = E.alloc(E.fresh('buildcc::ArgToolchain', 'initial', ()), 'initial')
    name, desc = [E.fresh('std::string', n) for n in ('name', 'desc')]
    o0, n0 = E.read(O), E.read(N)
    out, r = c.tcall(AI + 'AddToolchain', I_, name, desc, O, N)
    c.ob('completes', z3.BoolVal(out == 'ok'))
    ex = n0.f['executables']
    w = {'--build': ('flag', O + ('f', 'state') + ('f', 'build'), None, False, None),
         '--test': ('flag', O + ('f', 'state') + ('f', 'test'), None, False, None),
         '--id': ('option', O + ('f', 'id'), n0.f['id'], False,
                  table_of(c, ['gcc', 'msvc', 'mingw', 'clang', 'custom', 'undefined'], 'buildcc::ToolchainId')),
         '--name': ('option', O + ('f', 'name'), n0.f['name'], False, None)}
    for t in ('assembler', 'c_compiler', 'cpp_compiler', 'archiver', 'linker'):
        w['--asm_compiler' if t == 'assembler' else '--' + t] = ('option', O + ('f', 'executables') + ('f', t), ex.f[t], False, None)
    bindings(c, w)
    owner(c, 'toolchain', name, None)
    c.ob('nothing-else-changes', z3.BoolVal(key(E.read(O)) == key(o0) and key(E.read(N)) == key(n0)))


@unit('args.add-target', 'C32', [AI + 'AddTarget'], contracts=dict(CLI, **REF))
def add_target(c):
    E = root(c)
    I_ = E.alloc(Op('args.instance'), 'inst')
    O = E.alloc(E.fresh('buildcc::ArgTarget', 'out', ()), 'out')
    N = E.alloc(E.fresh('buildcc::ArgTarget', 'initial', ()), 'initial')
    name, desc = [E.fresh('std::string', n) for n in ('name', 'desc')]
    o0, n0 = E.read(O), E.read(N)
    out, r = c.tcall(AI + 'AddTarget', I_, name, desc, O, N)
    c.ob('completes', z3.BoolVal(out == 'ok'))
    bindings(c, {'--' + k: ('option', O + ('f', k), n0.f[k], False, None) for k in ('compile_command', 'link_command')})
    owner(c, 'target', name, None)
    c.ob('nothing-else-changes', z3.BoolVal(key(E.read(O)) == key(o0) and key(E.read(N)) == key(n0)))


@unit('args.getters', 'C32', [A + 'Clean', A + 'GetLogLevel', A + 'GetProjectRootDir', A + 'GetProjectBuildDir'])
def getters(c):
    E = c.E
    for f, g in (('Clean', 'clean_'), ('GetLogLevel', 'loglevel_'), ('GetProjectRootDir', 'project_root_dir_'), ('GetProjectBuildDir', 'project_build_dir_')):
        want = E.read(glob(E, g))
        out, r = c.tcall(A + f, None)
        c.ob('getter-' + f, E.eq(E.val(r), want) if out == 'ok' else FALSE)


@unit('args.defaults', 'C32', [A + 'Clean', A + 'GetLogLevel', A + 'GetProjectRootDir', A + 'GetProjectBuildDir'],
      initial_globals=['(anonymous namespace)::' + x for x in ('clean_', 'loglevel_', 'project_root_dir_', 'project_build_dir_')])
def defaults(c):
    E = c.E
    for f, w in (('Clean', FALSE), ('GetLogLevel', z3.IntVal(2)), ('GetProjectRootDir', S()), ('GetProjectBuildDir', S(('_internal',)))):
        out, r = c.tcall(A + f, None)
        c.ob('before-parsing-' + f, E.eq(E.val(r), w) if out == 'ok' else FALSE)


def _parse(E, o, a, e, f):
    E.cli_parsed.append((ident(E, o), [E.val(x) for x in a]))
    if E.branch(z3.Bool('cli.malformed')):
        raise Throw(Op('exc', 'CLI::ParseError'))


def _exitcode(E, o, a, e, f):
    return z3.Int('cli.exit-code')


def _exit(E, o, a, e, f):
    raise Throw(Op('exit', E.val(a[0])))


@unit('args.parse', 'C32', [AI + 'Parse'], contracts=dict(CLI, **dict(REF, **{'CLI::App::parse': _parse, 'CLI::App::exit': _exitcode, 'exit': _exit})))
def parse(c):
    E = root(c)
    E.cli_parsed = []
    argc, argv = z3.Int('argc'), Ptr(FALSE, E.alloc(Op('argv'), 'argv'))
    out, r = c.tcall(AI + 'Parse', None, argc, argv)
    c.ob('parsed-once', z3.BoolVal(len(E.cli_parsed) == 1 and E.cli_parsed[0][0] == 'app'))
    c.ob('whole-command-line', z3.BoolVal(bool(E.cli_parsed) and len(E.cli_parsed[0][1]) == 2 and key(E.cli_parsed[0][1][0]) == key(argc) and
                                          key(E.cli_parsed[0][1][1]) == key(argv)))
    bad = z3.Bool('cli.malformed')
    if out == 'ok':
        c.ob('malformed-does-not-continue', Not(bad))
    else:
        ok = isinstance(r, Op) and r.tag == 'exit'
        c.ob('usage-error', And(bad, r.d[0] == z3.Int('cli.exit-code')) if ok else FALSE)


@unit('args.custom', 'C32', [AI + 'AddCustomCallback', AI + 'AddCustomData'], contracts=dict(CLI, **REF))
def custom(c):
    E = root(c)
    calls = []
    I_ = E.alloc(Op('args.instance'), 'inst')
    cb = Fn('py', lambda E, args: calls.append(E.loc(args[0])))
    out, r = c.tcall(AI + 'AddCustomCallback', I_, cb)
    c.ob('nothing-registered-here', z3.BoolVal(not E.cli_opts and not E.cli_subs))
    c.ob('callback-gets-the-application', z3.BoolVal(out == 'ok' and len(calls) == 1 and key(calls[0]) == key(E.cli['app'].tgt)))


@unit('args.init', 'C32', [A + 'Init', A + 'IsInit', A + 'Deinit'], contracts=dict(CLI, **{A + 'RootArgs': lambda E, o, a, e, f: E.cli_roots.append(1)}))
def init(c):
    E = c.E
    start(E)
    E.cli_roots = []
    g = E.global_lv([i for i, x in sorted(E.p.globals.items()) if x['name'] == 'buildcc::Args::internal_'][0])
    E.write(g, NULL)
    out, r = c.tcall(A + 'IsInit', None)
    c.ob('not-yet', Not(E.tobool(r)) if out == 'ok' else FALSE)
    out, r = c.tcall(A + 'Init', None)
    c.ob('completes', z3.BoolVal(out == 'ok'))
    c.ob('root-options-once', z3.BoolVal(len(E.cli_roots) == 1))
    subs = [(k, n.conc()) for p, k, n in E.cli_subs]
    c.ob('two-subcommands', z3.BoolVal(sorted(subs) == [('sub', 'target'), ('sub', 'toolchain')]))
    v = E.read(E.val(E.read(g)).tgt)
    c.ob('kept', z3.BoolVal(all(ident(E, v.f[n])[2] == n for n in ('toolchain', 'target'))))
    out, r = c.tcall(A + 'IsInit', None)
    c.ob('ready', E.tobool(r) if out == 'ok' else FALSE)
    out, r = c.tcall(A + 'Init', None)
    c.ob('second-call-registers-nothing', z3.BoolVal(out == 'ok' and len(E.cli_roots) == 1 and len(E.cli_subs) == 2))
    out, r = c.tcall(A + 'Deinit', None)
    out, r = c.tcall(A + 'IsInit', None)
    c.ob('gone-after-Deinit', Not(E.tobool(r)) if out == 'ok' else FALSE)


def _new(E, o, a, e, f):
    E.cli_new.append([E.val(x) for x in a])
    return E.alloc(Op('toolchain'), 'toolchain')


@unit('args.construct', 'C32', ['buildcc::ArgToolchain::ConstructToolchain', 'buildcc::ArgTarget::GetTargetConfig'],
      contracts={'buildcc::Toolchain_generic::New': _new})
def construct(c):
    E = c.E
    E.cli_new = []
    O = E.alloc(E.fresh('buildcc::ArgToolchain', 'out', ()), 'out')
    v = E.read(O)
    out, r = c.tcall('buildcc::ArgToolchain::ConstructToolchain', O)
    c.ob('one-toolchain', z3.BoolVal(out == 'ok' and len(E.cli_new) == 1))
    if E.cli_new:
        i, n, x, g = E.cli_new[0]
        c.ob('toolchain-id', i == v.f['id'])
        c.ob('toolchain-name', E.eq(n, v.f['name']))
        c.ob('toolchain-executables', And(x.has, E.eq(x.val, v.f['executables'])) if isinstance(x, Opt) else E.eq(x, v.f['executables']))
        c.ob('toolchain-config', And(g.has, E.eq(g.val, v.f['config'])) if isinstance(g, Opt) else E.eq(g, v.f['config']))
    T = E.alloc(E.fresh('buildcc::ArgTarget', 'target', ()), 'target')
    t = E.read(T)
    out, r = c.tcall('buildcc::ArgTarget::GetTargetConfig', T)
    c.ob('target-configured', z3.BoolVal(out == 'ok'))
    if out == 'ok':
        r = E.val(r)
        c.ob('compile-command', E.eq(r.f['compile_command'], t.f['compile_command']))
        c.ob('link-command', E.eq(r.f['link_command'], t.f['link_command']))

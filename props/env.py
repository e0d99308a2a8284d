"""Environment helpers: C20 storage, C21 pattern construction, C22 files, C23 paths, C25 processes, C26 text."""
from common import *

ENV = 'buildcc::env::'
CMD = ENV + 'Command::'


def symstr(E, n):
    return S((E.uf(n, Str),))


def charptr(E, n):
    return Ptr(E.uf(n + '.null', B), symstr(E, n))


def wrote(E):
    return events(E, 'written')


def save(n):
    def body(c):
        E = c.E
        name, binary = charptr(E, 'name'), E.uf('binary', B)
        if n == 4:
            buf, ln = charptr(E, 'buf'), lib.slen(E, symstr(E, 'buf'))
            bnull = buf.null
            out, r = c.tcall(ENV + 'save_file', None, name, buf, ln, binary, n=4)
        else:
            buf, bnull = symstr(E, 'buf'), FALSE
            out, r = c.tcall(ENV + 'save_file', None, name, E.alloc(buf), binary, n=3)
        c.ob('no-exception', out == 'ok', 'C22')
        if out != 'ok':
            return
        r = E.val(r)
        data = symstr(E, 'buf')
        op, wr = events(E, 'open'), wrote(E)
        whole = E.vany(wr, lambda v: And(E.eq(v.d[0], name.tgt), E.eq(v.d[1], data), Not(v.d[2])))
        c.ob('true-only-if-all-written', Implies(r, And(Not(name.null), Not(bnull), E.vlen(op) == 1, E.vlen(wr) == 1, whole)), 'C22')
        c.ob('null-argument-is-false', Implies(Or(name.null, bnull), And(Not(r), E.vempty(op))), 'C22')
        c.ob('truncates', E.vall(op, lambda v: Or(*[v.d[2] == m for m in (16, 4, 20, 48, 52, 36, 32)])), 'C22')
        c.ob('success-is-reported', Implies(And(whole, E.vlen(wr) == 1), r), 'C22')
        c.ob('only-named-file', And(E.vall(op, lambda v: E.eq(v.d[0], name.tgt)), E.vlen(op) <= 1), 'C22')
    return body


unit('env.save', 'C22', [ENV + 'save_file'])(save(4))
unit('env.save-string', 'C22', [ENV + 'save_file'])(save(3))


@unit('env.load', 'C22', [ENV + 'load_file'])
def load(c):
    E = c.E
    name, binary = charptr(E, 'name'), E.uf('binary', B)
    bl = E.alloc(symstr(E, 'before'), 'buf')
    buf = Ptr(E.uf('buf.null', B), bl)
    ep = E.epoch()
    p = name.tgt.term()
    out, r = c.tcall(ENV + 'load_file', None, name, binary, buf)
    c.ob('no-exception', out == 'ok', 'C22')
    if out != 'ok':
        return
    r = E.val(r)
    isdir, derr = z3.Function('fs.is_directory', Str, I, B)(p, ep), z3.Function('fs.is_directory.err', Str, I, I)(p, ep)
    readable = lib2.readable_f(p, ep)
    c.ob('true-only-if-read', Implies(r, And(Not(name.null), Not(buf.null), Not(isdir), readable)), 'C22')
    c.ob('yields-exact-bytes', Implies(r, E.eq(E.read(bl), S((lib2.content_f(p, ep),)))), 'C22')
    c.ob('failed-read-is-false', Implies(z3.Function('ifs.badread', Str, I, B)(p, ep), Or(Not(r), Not(binary))), 'C22')
    c.ob('good-file-is-true', Implies(And(Not(name.null), Not(buf.null), Not(isdir), derr == 0, readable, Not(z3.Function('ifs.badread', Str, I, B)(p, ep))), r), 'C22')
    c.ob('writes-nothing', E.vempty(events(E, 'open', 'save', 'written', 'remove', 'mkdir')), 'C22')


# ------------------------------------------------------------------ text
@unit('env.split', 'C26', [ENV + 'split'])
def split(c):
    E = c.E
    s, d = symstr(E, 'text'), E.uf('delim', I)
    out, r = c.tcall(ENV + 'split', None, E.alloc(s), d)
    c.ob('no-exception', out == 'ok', 'C26')
    if out != 'ok':
        return
    r = E.val(r)
    n = lib2.npieces_f(s.term(), d)
    j = z3.Int('$sp')
    c.ob('one-entry-per-piece', E.vlen(r) == n, 'C26')
    want = Vec((FM(n, j, [(TRUE, (U(S((lib2.piece_f(s.term(), d, j),))),))]),))
    c.ob('pieces-in-order', E.eq(r, want), 'C26')


def is_sp(x):
    return Or(x == 32, And(x >= 9, x <= 13))


def trimmed(E, s, r, left, right):
    """r is s without the maximal run of white space on the given sides."""
    n = lib.slen(E, s)
    t = r.term()
    j = z3.Int('$tj')
    if not (z3.is_app(t) and t.decl().eq(lib.sub_f) and t.arg(0).eq(s.term())):
        return E.eq(r, s) if r.key() == s.key() and not (left or right) else None
    a, b = t.arg(1), t.arg(2)
    sp = lambda k: is_sp(lib.char_at(E, s, k))
    fs = [0 <= a, a <= b, b <= n]
    allsp = b == a
    if left:
        fs.append(z3.ForAll([j], Implies(And(0 <= j, j < a), sp(j))))
        fs.append(Implies(a < b, Not(sp(a))))
    else:
        fs.append(Or(a == 0, allsp))
    if right:
        fs.append(z3.ForAll([j], Implies(And(b <= j, j < n), sp(j))))
        fs.append(Implies(a < b, Not(sp(b - 1))))
    else:
        fs.append(Or(b == n))
    return And(*fs)


def trim(name, left, right):
    def body(c):
        E = c.E
        s = symstr(E, 'text')
        n = lib.slen(E, s)
        j = z3.Int('$tc')
        out, r = c.tcall(ENV + name, None, E.alloc(s))
        c.ob('no-exception', out == 'ok', 'C26')
        if out != 'ok':
            return
        r = E.val(r)
        f = trimmed(E, s, r, left, right)
        if f is None:
            raise Unsupported('shape of trimmed text')
        c.ob('removes-exactly-the-white-space', f, 'C26')
    return body


unit('env.ltrim', 'C26', [ENV + 'ltrim'])(trim('ltrim', True, False))
unit('env.rtrim', 'C26', [ENV + 'rtrim'])(trim('rtrim', False, True))
unit('env.trim', 'C26', [ENV + 'trim', ENV + 'ltrim', ENV + 'rtrim'])(trim('trim', True, True))


# ------------------------------------------------------------------ paths
@unit('env.path', 'C23', [INT + 'PathInfo::ToPathString', INT + 'PathInfo::ToPathDisplayString'])
def path(c):
    E = c.E
    p = symstr(E, 'p')
    out, r = c.tcall(INT + 'PathInfo::ToPathString', None, E.alloc(p))
    c.ob('no-exception', out == 'ok', 'C23')
    if out != 'ok':
        return
    r = E.val(r)
    n = lib.norm(E, p)
    c.ob('normal-form', E.eq(r, n), 'C23')
    out, r2 = c.tcall(INT + 'PathInfo::ToPathString', None, E.alloc(r))
    c.ob('idempotent', And(z3.BoolVal(out == 'ok'), E.eq(E.val(r2), r)), 'C23')
    out, d = c.tcall(INT + 'PathInfo::ToPathDisplayString', None, E.alloc(p))
    c.ob('display-no-exception', out == 'ok', 'C23')
    if out != 'ok':
        return
    d = E.val(d)
    k = z3.Int('$pc')
    ln = lib.slen(E, n)
    space = z3.Exists([k], And(0 <= k, k < ln, lib.char_at(E, n, k) == 32))
    c.ob('quoted-exactly-with-a-space', And(Implies(space, E.eq(d, S(('"', n, '"')))), Implies(Not(space), E.eq(d, n))), 'C23')


@unit('env.path-lists', 'C23 C16', [INT + 'PathList::Emplace', INT + 'PathInfoList::Emplace'])
def pathlists(c):
    E = c.E
    p, h = symstr(E, 'p'), symstr(E, 'h')
    A = E.alloc(E.fresh(INT + 'PathList', 'A', ()), 'A')
    Bl = E.alloc(E.fresh(INT + 'PathInfoList', 'B', ()), 'B')
    a0, b0 = fld(E.read(A), 'paths_'), fld(E.read(Bl), 'infos_')
    out, _ = c.tcall(INT + 'PathList::Emplace', A, E.alloc(p), params=['path'])
    out2, _ = c.tcall(INT + 'PathInfoList::Emplace', Bl, E.alloc(p), E.alloc(h))
    c.ob('no-exception', out == 'ok' and out2 == 'ok', 'C23 C16')
    n = lib.norm(E, p)
    c.ob('path-appended-normalised', E.eq(fld(E.read(A), 'paths_'), Vec(a0.segs + (U(n),))), 'C23 C16')
    c.ob('info-appended-normalised', E.eq(fld(E.read(Bl), 'infos_'), Vec(b0.segs + (U(Rec(INT + 'PathInfo', {'path': n, 'hash': h})),))), 'C23 C16')


# ------------------------------------------------------------------ commands
@unit('env.construct', 'C21', [CMD + 'Construct'])
def construct(c):
    E = c.E
    C = E.alloc(E.fresh(ENV + 'Command', 'C', ()), 'C')
    D = fld(E.read(C), 'default_values_')
    pat = symstr(E, 'pattern')
    fn = c.find(CMD + 'Construct')
    A = E.fresh(E.p.funcs[fn]['params'][1]['type'], 'args', ())
    out, r = c.tcall(CMD + 'Construct', C, E.alloc(pat), E.alloc(A))
    vf = events(E, 'vformat')
    if out == 'ok':
        c.ob('formats-once', E.vlen(vf) == 1, 'C21')
        if len(vf.segs) == 1 and isinstance(vf.segs[0], U):
            ev = vf.segs[0].v
            c.ob('result-is-formatted-text', E.eq(E.val(r), ev.d[2]), 'C21')
            c.ob('pattern-unchanged', E.eq(ev.d[0], pat), 'C21')
            want = E.alloc(Vec())

            def add(el, j):
                p = E.val(el)
                k, v = p.f['first'], p.f['second']
                v = E.val(v.lv) if isinstance(v, RefV) else v
                E.write(want, Vec(E.read(want).segs + (U(Op('farg', SV_(E, k), SV_(E, v))),)))
            loops.iterate(E, D, add)
            loops.iterate(E, A, add)
            c.ob('defaults-first-then-arguments', E.eq(ev.d[1], E.read(want)), 'C21')
            c.ob('reported-only-if-well-formed', ev.d[3], 'C21')
    else:
        bad = Or(E.vany(vf, lambda v: Not(v.d[3])), FALSE)
        c.ob('fails-only-on-bad-pattern', Or(bad, E.vempty(vf)), 'C21')
    c.ob('defaults-kept', E.eq(fld(E.read(C), 'default_values_'), D), 'C21')


def SV_(E, v):
    return lib.SV(E, v)


@unit('env.defaults', 'C21', [CMD + 'AddDefaultArgument', CMD + 'AddDefaultArguments', CMD + 'GetDefaultValueByKey'])
def defaults(c):
    E = c.E
    C = E.alloc(E.fresh(ENV + 'Command', 'C', ()), 'C')
    D = fld(E.read(C), 'default_values_')
    k, v, q = symstr(E, 'k'), symstr(E, 'v'), symstr(E, 'q')
    out, _ = c.tcall(CMD + 'AddDefaultArgument', C, E.alloc(k), E.alloc(v))
    c.ob('no-exception', out == 'ok', 'C21')
    D1 = fld(E.read(C), 'default_values_')
    c.ob('first-registration-wins', And(E.mem(D1, q) == Or(E.mem(D, q), E.eq(q, k)),
                                        Implies(E.mem(D, q), E.eq(E.mval(D1, q), E.mval(D, q))),
                                        Implies(And(Not(E.mem(D, k)), E.eq(q, k)), E.eq(E.mval(D1, q), v))), 'C21')
    M = E.fresh(E.p.funcs[c.find(CMD + 'AddDefaultArguments')]['params'][0]['type'], 'more', ())
    out, _ = c.tcall(CMD + 'AddDefaultArguments', C, E.alloc(M))
    c.ob('no-exception-2', out == 'ok', 'C21')
    D2 = fld(E.read(C), 'default_values_')
    c.ob('adds-only-new', And(E.mem(D2, q) == Or(E.mem(D1, q), E.mem(M, q)), Implies(E.mem(D1, q), E.eq(E.mval(D2, q), E.mval(D1, q))),
                              Implies(And(Not(E.mem(D1, q)), E.mem(M, q)), E.eq(E.mval(D2, q), E.mval(M, q)))), 'C21')
    out, r = c.tcall(CMD + 'GetDefaultValueByKey', C, E.alloc(q))
    if out == 'ok':
        c.ob('lookup-returns-value', And(E.mem(D2, q), E.eq(E.val(r), E.mval(D2, q))), 'C21')
    else:
        c.ob('lookup-fails-only-if-absent', Not(E.mem(D2, q)), 'C21')
    c.ob('lookup-changes-nothing', E.eq(fld(E.read(C), 'default_values_'), D2), 'C21')


@unit('env.execute', 'C25', [CMD + 'Execute'])
def execute(c):
    E = c.E
    cmd = symstr(E, 'cmd')
    wd = Opt(E.uf('wd.has', B), symstr(E, 'wd'))
    so = E.alloc(E.fresh('std::vector<std::basic_string<char>>', 'so', ()), 'so')
    se = E.alloc(E.fresh('std::vector<std::basic_string<char>>', 'se', ()), 'se')
    so0, se0 = E.read(so), E.read(se)
    pso, pse = Ptr(E.uf('so.null', B), so), Ptr(E.uf('se.null', B), se)
    chunk = [symstr(E, 'chunk%d' % i) for i in range(3)]
    seen = []

    def on(E, vals):
        seen.append(1)
        fo, fe = (vals + [Fn('empty')] * 4)[2:4]
        ho, he = fnset(E, fo), fnset(E, fe)
        c.ob('stdout-captured-iff-asked', ho == Not(pso.null), 'C25')
        c.ob('stderr-captured-iff-asked', he == Not(pse.null), 'C25')
        if E.branch(ho):
            E.callv(fo, [chunk[0], lib.slen(E, chunk[0])], 'void')
            E.callv(fo, [chunk[1], lib.slen(E, chunk[1])], 'void')
        if E.branch(he):
            E.callv(fe, [chunk[2], lib.slen(E, chunk[2])], 'void')
    E.opts['on_process'] = on
    del seen[:]
    out, r = c.tcall(CMD + 'Execute', None, E.alloc(cmd), E.alloc(wd), pso, pse)
    pr = events(E, 'process')
    if out != 'ok':
        c.ob('fatal-only-for-empty-command', And(E.eq(cmd, S()), E.vempty(pr)), 'C25')
        return
    c.ob('one-process', And(Not(E.eq(cmd, S())), E.vlen(pr) == 1), 'C25')
    c.ob('command-line', E.vall(pr, lambda v: E.eq(v.d[0], cmd)), 'C25')
    c.ob('working-directory', E.vall(pr, lambda v: E.eq(v.d[1], S((z3.If(wd.has, wd.val.term(), lit('')),)))), 'C25')
    st = E.uf('exit:' + E.opts['$proc'], I)
    c.ob('true-iff-status-zero', E.val(r) == (st == 0), 'C25')
    c.ob('stdout-chunks-in-order', E.eq(E.read(so), so0 if E.branch(pso.null) else Vec(so0.segs + (U(chunk[0]), U(chunk[1])))), 'C25')
    c.ob('stderr-chunks-in-order', E.eq(E.read(se), se0 if E.branch(pse.null) else Vec(se0.segs + (U(chunk[2]),))), 'C25')


def fnset(E, f):
    f = E.val(f)
    if isinstance(f, Fn):
        return FALSE if f.kind == 'empty' else TRUE
    if isinstance(f, Ptr):
        return Not(f.null)
    if isinstance(f, Op) and f.tag == 'fnite':
        return z3.If(f.d[0], fnset(E, f.d[1]), fnset(E, f.d[2]))
    raise Unsupported('callable %r' % (f,))


# ------------------------------------------------------------------ storage
ST = 'buildcc::ScopedStorage::'
IA, IB = 'cxxvc_inst::ItemA', 'cxxvc_inst::ItemB'


def pick(c, name, ret=None, param=None):
    for x in c.E.p.find(name):
        f = c.E.p.funcs[x]
        if ret is not None and ret not in (f.get('ret') or ''):
            continue
        if param is not None and not any(param in q['type'] for q in f['params']):
            continue
        return x
    raise Unsupported('function %s not found' % name)


def picks(c, name, targ):
    for x in c.E.p.find(name):
        if targ in x:
            return x
    raise Unsupported('function %s<%s> not found' % (name, targ))


@unit('env.storage', 'C20', [ST + 'Add', ST + 'ConstRef', ST + 'Ref', ST + 'Contains', ST + 'Valid'])
def storage(c):
    E = c.E
    Sx = E.alloc(E.fresh('buildcc::ScopedStorage', 'St', ()), 'St')
    M = fld(E.read(Sx), 'ptrs_')
    k, q = symstr(E, 'k'), symstr(E, 'q')
    item = E.fresh(IA, 'item', ())
    out, r = c.attempt(lambda: E.call(pick(c, ST + 'Add', IA), Sx, [E.alloc(k), E.alloc(item)]))
    if out != 'ok':
        c.ob('add-fails-only-for-reused-identifier', And(E.mem(M, k), E.eq(fld(E.read(Sx), 'ptrs_'), M)), 'C20')
        return
    obj = r.lv if isinstance(r, RefV) else r
    M1 = fld(E.read(Sx), 'ptrs_')
    c.ob('stored-under-new-identifier', And(Not(E.mem(M, k)), E.mem(M1, k), E.mem(M1, q) == Or(E.mem(M, q), E.eq(q, k))), 'C20')
    if not E.branch(E.eq(q, k)):
        c.ob('others-kept', Implies(E.mem(M, q), E.eq(fld(E.mval(M1, q), 'ptr'), fld(E.mval(M, q), 'ptr'))), 'C20')
    c.ob('object-unchanged', E.eq(E.read(obj), item), 'C20')
    for nm in ('ConstRef', 'Ref'):
        out, r = c.attempt(lambda: E.call(pick(c, ST + nm, IA), Sx, [E.alloc(k)]))
        c.ob(nm + '-finds-it', out == 'ok', 'C20')
        if out == 'ok':
            l = r.lv if isinstance(r, RefV) else r
            c.ob(nm + '-is-the-stored-object', z3.BoolVal(is_lv(l) and l.key() == obj.key()), 'C20')
    out, r = c.attempt(lambda: E.call(pick(c, ST + 'ConstRef', IB), Sx, [E.alloc(k)]))
    c.ob('wrong-type-is-fatal', out == 'throw', 'C20')
    ka, kb = picks(c, ST + 'Valid', 'ItemA'), picks(c, ST + 'Valid', 'ItemB')
    va, vb = E.val(E.call(ka, Sx, [E.alloc(k)])), E.val(E.call(kb, Sx, [E.alloc(k)]))
    c.ob('Valid-tells-type', And(va, Not(vb)), 'C20')
    out, r = c.tcall(ST + 'Contains', Sx, E.alloc(q))
    c.ob('Contains-tells-presence', And(z3.BoolVal(out == 'ok'), E.val(r) == E.mem(M1, q)), 'C20')
    c.ob('lookups-change-nothing', E.eq(fld(E.read(Sx), 'ptrs_'), M1), 'C20')
    c.ob('nothing-destroyed', E.vempty(events(E, 'delete', 'callback')), 'C20')
    if E.branch(E.mem(M1, q)):
        return
    out, r = c.attempt(lambda: E.call(pick(c, ST + 'ConstRef', IA), Sx, [E.alloc(q)]))
    c.ob('absent-is-fatal', out == 'throw', 'C20')
    c.ob('absent-is-not-valid', Not(E.val(E.call(ka, Sx, [E.alloc(q)]))), 'C20')


def c_item(E, obj, args, e, f):
    if E.branch(z3.Bool('item.throws')):
        raise Throw(Op('exc', 'user'))
    return E.fresh('cxxvc_inst::ItemC', 'item', ())


@unit('env.storage-throw', 'C20', [ST + 'Add'], contracts={'cxxvc_inst::ItemC::(ctor)': c_item})
def storage_throw(c):
    """an object whose constructor throws is not stored."""
    E = c.E
    Sx = E.alloc(E.fresh('buildcc::ScopedStorage', 'St', ()), 'St')
    M = fld(E.read(Sx), 'ptrs_')
    k, q = symstr(E, 'k'), symstr(E, 'q')
    out, r = c.attempt(lambda: E.call(pick(c, ST + 'Add', 'cxxvc_inst::ItemC'), Sx, [E.alloc(k), E.alloc(z3.Int('v'))]))
    M1 = fld(E.read(Sx), 'ptrs_')
    c.ob('fails-only-for-cause', Or(z3.BoolVal(out == 'ok'), E.mem(M, k), z3.Bool('item.throws')), 'C20')
    if out == 'ok':
        c.ob('stored-only-if-constructed', And(Not(z3.Bool('item.throws')), E.mem(M1, k)), 'C20')
        return
    c.ob('failed-add-changes-nothing', And(E.eq(M1, M), E.mem(M1, q) == E.mem(M, q)), 'C20')


@unit('env.storage-destroy', 'C20', [ST + 'Add', ST + 'Remove'])
def storage_destroy(c):
    E = c.E
    Sx = E.alloc(E.fresh('buildcc::ScopedStorage', 'St', ()), 'St')
    k = symstr(E, 'k')
    out, r = c.attempt(lambda: E.call(pick(c, ST + 'Add', IA), Sx, [E.alloc(k), E.alloc(E.fresh(IA, 'item', ()))]))
    if out != 'ok':
        return
    obj = r.lv if isinstance(r, RefV) else r
    d = fld(E.mval(fld(E.read(Sx), 'ptrs_'), k), 'destructor')
    clear_trace(E)
    out, _ = c.attempt(lambda: E.callv(d, [], 'void'))
    de = events(E, 'delete')
    c.ob('destructor-destroys-exactly-it', And(z3.BoolVal(out == 'ok'), E.vlen(de) == 1, E.vall(de, lambda v: z3.BoolVal(is_lv(v.d[0]) and v.d[0].key() == obj.key()))), 'C20')


@unit('env.storage-clear', 'C20', [ST + 'Clear', ST + '(dtor)'])
def storage_clear(c):
    E = c.E
    for how in ('Clear', '(dtor)'):
        Sx = E.alloc(E.fresh('buildcc::ScopedStorage', 'St', ()), 'St')
        M = fld(E.read(Sx), 'ptrs_')
        clear_trace(E)
        out, _ = c.tcall(ST + how, Sx)
        cb = events(E, 'callback', 'delete')
        want = E.alloc(Vec())

        def add(el, j):
            p = E.val(el)
            v = p.f['second']
            v = E.val(v.lv) if isinstance(v, RefV) else v
            E.callv(v.f['destructor'], [], 'void')
        clear_trace(E)
        loops.iterate(E, M, add)
        c.ob(how + '-calls-each-destructor-once', And(z3.BoolVal(out == 'ok'), E.eq(cb, events(E, 'callback', 'delete'))), 'C20')
        c.ob(how + '-empties', E.mempty(fld(E.read(Sx), 'ptrs_')), 'C20')

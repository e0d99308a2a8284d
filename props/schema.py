"""Records on disk: C07 (round trip), C08 (bad records)."""
from common import *

SI = INT + 'SerializationInterface::'
RECORD = ['name', 'type', 'sources', 'headers', 'pchs', 'libs', 'external_libs', 'include_dirs', 'lib_dirs', 'preprocessor_flags', 'common_compile_flags', 'link_flags',
          'asm_compile_flags', 'c_compile_flags', 'cpp_compile_flags', 'pch_compile_flags', 'pch_object_flags', 'compile_dependencies', 'link_dependencies', 'pch_compiled', 'target_linked']
TSER, GSER = INT + 'TargetSerialization', INT + 'CustomGeneratorSerialization'


def jsub(E, n, k):
    return Op('jsym', '%s.%s' % (n.d[0], k), *n.d[1:])


def jk(E, n, *kinds):
    return Or(*[lib2.typed(E, n, k) for k in kinds])


def field(E, n, k, pred):
    return And(jk(E, n, 'obj'), E.uf('jhas:%s.%s' % (n.d[0], k), B, n.d[1:]), pred(jsub(E, n, k)))


def each(E, n, pred):
    i = z3.Int('$w')
    ln = E.uf('jlen:' + n.d[0], I, n.d[1:])
    return z3.ForAll([i], Implies(And(0 <= i, i < ln), pred(Op('jsym', n.d[0] + '[]', *n.d[1:], i))))


def arr(E, pred):
    return lambda n: And(jk(E, n, 'arr'), each(E, n, pred))


def well_typed_target(E, n):
    st = lambda x: jk(E, x, 'str')
    bo = lambda x: jk(E, x, 'bool')
    info = lambda x: And(field(E, x, 'path', st), field(E, x, 'hash', st))
    fs = [field(E, n, 'name', st), field(E, n, 'type', lambda x: TRUE)]
    fs += [field(E, n, k, arr(E, info)) for k in ('sources', 'headers', 'pchs', 'libs', 'compile_dependencies', 'link_dependencies')]
    fs += [field(E, n, k, arr(E, st)) for k in ('external_libs', 'include_dirs', 'lib_dirs', 'preprocessor_flags', 'common_compile_flags', 'link_flags', 'asm_compile_flags', 'c_compile_flags',
                                               'cpp_compile_flags', 'pch_compile_flags', 'pch_object_flags')]
    fs += [field(E, n, k, bo) for k in ('pch_compiled', 'target_linked')]
    return And(*fs)


def well_typed_generator(E, n):
    st = lambda x: jk(E, x, 'str')
    info = lambda x: And(field(E, x, 'path', st), field(E, x, 'hash', st))
    idok = lambda x: And(field(E, x, 'inputs', arr(E, info)), field(E, x, 'outputs', arr(E, st)), field(E, x, 'userblob', arr(E, lambda y: jk(E, y, 'num', 'bool'))))
    ids = jsub(E, n, 'ids')
    m = Map(('B', 'jkeys:' + ids.d[0], 'std::basic_string<char>', None, tuple(ids.d[1:])), 'std::basic_string<char>', None)
    every = E.vall_map(m, lambda k: idok(Op('jsym', ids.d[0] + '{}', *ids.d[1:], E.kterm(k))))
    return And(field(E, n, 'name', st), field(E, n, 'ids', lambda x: jk(E, x, 'obj')), every)


def mkser(c, cls, name, store=None):
    E = c.E
    s = E.fresh(cls, name, ())
    s = s.set('serialized_file_', S((E.uf('file', Str, ()),))).set('loaded_', E.uf('loaded.before', B))
    if store is not None:
        s = s.set('store_', store)
    return E.alloc(s, name)


def bad_record(cls, wt):
    def body(c):
        E = c.E
        L = mkser(c, cls, 'L')
        ep = E.epoch()
        p = lib.norm(E, S((E.uf('file', Str, ()),)))
        out, r = c.tcall(SI + 'LoadFromFile', L)
        c.ob('no-error', out == 'ok', 'C08')
        if out != 'ok':
            return
        r = E.val(r)
        L1 = E.read(L)
        lok = z3.Function('load.ok', Str, I, B)(p.term(), ep)
        text = S((lib2.content_f(p.term(), ep),))
        node = E.val(lib2._jparse(E, None, [text, NullPtr() if False else Op('null'), FALSE], None, None)).d[0]
        good = And(lok, Not(E.uf('jdiscarded:' + node.d[0], B, ())), wt(E, node))
        c.ob('loaded-only-if-well-formed', Implies(r, good), 'C08')
        c.ob('well-formed-is-loaded', Implies(good, r), 'C08 C07')
        c.ob('loaded-flag-is-result', fld(L1, 'loaded_') == r, 'C08')
        out2, r2 = c.tcall(SI + 'IsLoaded', L)
        c.ob('IsLoaded-is-result', And(z3.BoolVal(out2 == 'ok'), E.val(r2) == r), 'C08')
        c.ob('file-untouched', And(E.vempty(events(E, 'save')), E.epoch() == ep), 'C08')
    return body


def round_trip(cls, fields, pre=None):
    def body(c):
        E = c.E
        A = mkser(c, cls, 'A')
        Bx = mkser(c, cls, 'B')
        if pre:
            pre(E, E.read(A))
        st = fld(E.read(A), 'store_')
        out, r = c.tcall(SI + 'StoreToFile', A)
        c.ob('store-raises-nothing', out == 'ok', 'C07')
        if out != 'ok':
            return
        sv = events(E, 'save')
        c.ob('result-is-write-result', And(E.vlen(sv) == 1, E.vall(sv, lambda v: E.val(r) == v.d[2])), 'C07 C05 C10')
        if not E.branch(E.val(r)):
            return
        out, r = c.tcall(SI + 'LoadFromFile', Bx)
        c.ob('stored-record-loads', And(z3.BoolVal(out == 'ok'), E.val(r) if out == 'ok' else FALSE), 'C07')
        if out == 'ok':
            got = fld(E.read(Bx), 'load_')
            c.ob('same-record', And(*[E.eq(fld(got, n), fld(st, n)) for n in fields]), 'C07')
            out, g = c.tcall(cls + '::GetLoad', Bx)
            c.ob('GetLoad-is-the-record', And(z3.BoolVal(out == 'ok'), *[E.eq(fld(E.val(g), n), fld(st, n)) for n in fields]), 'C07')
    return body


def tpre(E, s):
    t = fld(s, 'store_', 'type')
    E.assume(And(t >= 0, t <= 3))


unit('schema.target.load', 'C08 C07', [SI + 'LoadFromFile', SI + 'IsLoaded', TSER + '::Load', TSER + '::Verify', 'buildcc::internal::from_json'])(bad_record(TSER, well_typed_target))
unit('schema.target.roundtrip', 'C07 C05', [SI + 'StoreToFile', TSER + '::Store', TSER + '::Load', SI + 'LoadFromFile'], fs_content=True)(round_trip(TSER, RECORD, tpre))
unit('schema.generator.load', 'C08 C07', [SI + 'LoadFromFile', SI + 'IsLoaded', GSER + '::Load', GSER + '::Verify'])(bad_record(GSER, well_typed_generator))
unit('schema.generator.roundtrip', 'C07 C10', [SI + 'StoreToFile', GSER + '::Store', GSER + '::Load', SI + 'LoadFromFile'], fs_content=True)(round_trip(GSER, ['name', 'internal_ids']))

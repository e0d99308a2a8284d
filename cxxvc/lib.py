"""Assumed contracts of external (library) functions.

Everything in this file is trusted: it states what the C++ standard library,
fmt, nlohmann-json, spdlog and Taskflow functions used by the repository do, in
terms of the value domain of vals.py."""
import re
import z3
from .vals import *
from .engine import *
from . import loops

L = {}


def fn(*names):
    def deco(g):
        for n in names:
            L[n] = g
        return g
    return deco


def get(name):
    return L.get(name)


def add(name, g):
    L[name] = g


NPOS = z3.IntVal(18446744073709551615)
norm_f = z3.Function('path.norm', Str, Str)
disp_f = z3.Function('path.display', Str, Str)
slen_f = z3.Function('str.len', Str, I)
chr_f = z3.Function('str.chr', Str, I, I)
sub_f = z3.Function('str.sub', Str, I, I, Str)
has_f = z3.Function('str.contains', Str, Str, B)
pos_f = z3.Function('str.pos', Str, Str, I)
exists_f = z3.Function('fs.exists', Str, I, B)
mtime_f = z3.Function('fs.mtime', Str, I, I)
hasm_f = z3.Function('fs.has_mtime', Str, I, B)
i2s_f = z3.Function('int.str', I, Str)


def SV(E, x):
    v = E.val(x)
    if isinstance(v, Ptr) and isinstance(v.tgt, S):
        return v.tgt
    if isinstance(v, Ptr) and is_lv(v.tgt):
        return SV(E, v.tgt)
    if isinstance(v, z3.ExprRef) and v.sort() == I:
        return S((chr(v.as_long()),)) if z3.is_int_value(v) else S((ch2str(v),))
    if isinstance(v, Op) and v.tag == 'direntry':
        return v.d[0]
    if not isinstance(v, S):
        raise Unsupported('string expected, got %r' % type(v).__name__)
    return v


# ------------------------------------------------------------------ identity
@fn('std::move', 'std::forward', 'std::as_const', 'std::make_move_iterator', 'std::ref', 'std::cref', 'std::addressof_')
def _id(E, o, a, e, f):
    return a[0]


@fn('std::addressof')
def _addr(E, o, a, e, f):
    return Ptr(FALSE, E.loc(a[0]))


@fn('std::swap')
def _swap(E, o, a, e, f):
    x, y = E.val(a[0]), E.val(a[1])
    E.write(a[0], y)
    E.write(a[1], x)


def nop(E, o, a, e, f):
    return None


for n in ('spdlog::log', 'spdlog::set_level', 'spdlog::set_pattern', 'buildcc::env::log_trace', 'buildcc::env::log_debug', 'buildcc::env::log_info',
          'buildcc::env::log_warning', 'buildcc::env::log_critical', 'buildcc::env::log', 'atexit'):
    L[n] = nop


# locks: E.held is the list of (mutex location, exclusive?, recursive?) held at this point
MUTEXES = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::__mutex_base')


def acquire(E, m, excl=True, rec=False):
    m = E.resolve_soft(E.loc(m))
    if not rec and any(key(x[0]) == key(m) for x in E.held) and E.acc is not None:
        E.acc.append(('deadlock', m, (), tuple(E.tasks), E.line))
    E.held.append((m, excl, rec))


def release(E, m):
    k = key(E.resolve_soft(E.loc(m)))
    for i in reversed(range(len(E.held))):
        if key(E.held[i][0]) == k:
            del E.held[i]
            return


@fn('std::lock_guard::(ctor)', 'std::scoped_lock::(ctor)', 'std::unique_lock::(ctor)', 'std::shared_lock::(ctor)')
def _guard(E, o, a, e, f):
    ms = [x for x in a if is_lv(x)]
    shared = 'shared_lock' in f['cls'].split('<')[0]
    if len(a) == len(ms) or 'lock_guard' in f['cls'] or 'scoped_lock' in f['cls']:
        if not any('defer' in p['type'] or 'try_to' in p['type'] or 'adopt' in p['type'] for p in f['params']):
            for m in ms:
                acquire(E, m, not shared, 'recursive_mutex' in f['cls'])
    return Op('misc:' + f['cls'].split('<')[0], *ms[:1], shared)


for _m in MUTEXES:
    L[_m + '::lock'] = lambda E, o, a, e, f: acquire(E, o, True, 'recursive' in f['name'])
    L[_m + '::lock_shared'] = lambda E, o, a, e, f: acquire(E, o, False)
    L[_m + '::unlock'] = L[_m + '::unlock_shared'] = lambda E, o, a, e, f: release(E, o)
    L[_m + '::(ctor)'] = lambda E, o, a, e, f: Op('misc:' + f['cls'].split('<')[0])


@fn('std::unique_lock::unlock', 'std::unique_lock::lock', 'std::shared_lock::unlock', 'std::shared_lock::lock')
def _ulock(E, o, a, e, f):
    v = E.val(o)
    if not (isinstance(v, Op) and v.d and is_lv(v.d[0])):
        raise Unsupported('lock object')
    if f['name'].endswith('::lock'):
        acquire(E, v.d[0], not v.d[-1])
    else:
        release(E, v.d[0])


def unrecorded(E, g):
    acc, E.acc = E.acc, None
    try:
        return g()
    finally:
        E.acc = acc


# std::atomic<T> is stored as its value; its operations are not data accesses
@fn('std::atomic::(ctor)', 'std::__atomic_base::(ctor)')
def _atomic(E, o, a, e, f):
    return E.val(a[0]) if a else E.default(re.search(r'<(.*)>', f['cls']).group(1))


@fn('std::atomic::load', 'std::__atomic_base::load')
def _aload(E, o, a, e, f):
    return unrecorded(E, lambda: E.val(o))


@fn('std::atomic::store', 'std::__atomic_base::store', 'std::atomic::operator=', 'std::__atomic_base::operator=', 'std::atomic::exchange', 'std::__atomic_base::exchange')
def _astore(E, o, a, e, f):
    v = E.val(a[0])

    def go():
        old = E.val(o)
        E.write(E.loc(o), v)
        return old
    old = unrecorded(E, go)
    return old if f['name'].endswith('exchange') else v


@fn('std::atomic::compare_exchange_strong', 'std::__atomic_base::compare_exchange_strong')
def _acas(E, o, a, e, f):
    exp, new = E.val(a[0]), E.val(a[1])
    cur = unrecorded(E, lambda: E.val(o))
    if E.branch(E.eq(cur, exp)):
        unrecorded(E, lambda: E.write(E.loc(o), new))
        return TRUE
    E.write(E.loc(a[0]), cur)
    return FALSE


@fn('std::allocator::(ctor)', 'std::equal_to::(ctor)', 'std::hash::(ctor)', 'std::less::(ctor)')
def _misc_ctor(E, o, a, e, f):
    return Op('misc:' + f['cls'].split('<')[0] if f.get('cls') else 'misc')


@fn('buildcc::env::assert_handle_fatal')
def _fatal(E, o, a, e, f):
    raise Throw(Op('exc', 'fatal'))


@fn('exit', 'std::exit', 'std::abort', 'abort', 'std::terminate')
def _exit(E, o, a, e, f):
    raise Throw(Op('exc', 'exit'))


@fn('std::exception::(ctor)', 'std::runtime_error::(ctor)', 'std::logic_error::(ctor)', 'std::invalid_argument::(ctor)',
    'std::out_of_range::(ctor)', 'std::length_error::(ctor)', 'std::domain_error::(ctor)')
def _exc(E, o, a, e, f):
    return Op('exc', f['name'].split('::(ctor)')[0])


@fn('std::exception::what', 'std::runtime_error::what', 'std::logic_error::what')
def _what(E, o, a, e, f):
    return S((E.uf(E.new('what'), Str),))


EXC_BASE = {'std::filesystem::filesystem_error': 'std::system_error', 'std::filesystem::__cxx11::filesystem_error': 'std::system_error', 'std::system_error': 'std::runtime_error', 'std::ios_base::failure': 'std::system_error',
            'fmt::format_error': 'std::runtime_error', 'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception',
            'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
            'std::bad_function_call': 'std::exception', 'std::bad_optional_access': 'std::exception', 'std::bad_alloc': 'std::exception', 'std::bad_cast': 'std::exception',
            'nlohmann::exception': 'std::exception', 'fatal': 'std::exception'}


def exc_matches(E, v, t):
    """does a handler for type t catch the exception v?  An exception thrown by user code has any type."""
    b = re.sub(r'::(__cxx11|_V2|v\d+|json_abi\w*)(?=::)', '', parse_ty(t)[0])
    tag = v.d[0] if isinstance(v, Op) and v.tag == 'exc' else None
    if tag == 'exit':
        return False
    if tag is None or tag in ('user', 'rethrow'):
        if isinstance(v, Rec):
            return b in E.p.bases(v.ty)
        if tag is None:
            raise Unsupported('handler for an exception of unknown type')
        return E.branch(z3.Bool('exc.%s.is.%s' % (tag, b)))
    if tag == 'nlohmann::exception' and b.startswith('nlohmann'):
        return True if b.endswith('::exception') else E.branch(E.uf(E.new('exc.is'), z3.BoolSort()))
    tag = re.sub(r'::(__cxx11|_V2|v\d+)(?=::)', '', tag)
    while tag:
        if tag == b:
            return True
        tag = EXC_BASE.get(tag)
    return False


# ------------------------------------------------------------------ strings and paths
@fn('std::basic_string::(ctor)', 'std::basic_string_view::(ctor)', 'std::filesystem::path::(ctor)', 'fmt::basic_string_view::(ctor)',
    'fmt::basic_format_string::(ctor)')
def _str_ctor(E, o, a, e, f):
    if not a:
        return S()
    v = E.val(a[0])
    if isinstance(v, Op) and v.tag.startswith('misc'):
        return S()
    if isinstance(v, Vec):
        if all(isinstance(s, U) and isinstance(s.v, z3.ExprRef) for s in v.segs):
            return S(tuple(SV(E, s.v) for s in v.segs))
        raise Unsupported('string from vector')
    if isinstance(v, It):
        raise Unsupported('string from iterators')
    if isinstance(v, z3.ExprRef) and v.sort() == I and len(a) >= 2:
        c = E.val(a[1])
        if z3.is_int_value(v) and z3.is_int_value(c):
            return S((chr(c.as_long()) * v.as_long(),))
        raise Unsupported('string fill')
    s = SV(E, v)
    if len(a) >= 2:
        w = E.val(a[1])
        if isinstance(w, z3.ExprRef) and w.sort() == I and 'filesystem' not in f['name'] and 'format_string' not in f['name']:
            if len(a) >= 3 and isinstance(E.val(a[2]), z3.ExprRef):
                return substr(E, s, w, E.val(a[2]))
            # (ptr, len)
            if s.conc() is not None and z3.is_int_value(w):
                return S((s.conc()[:w.as_long()],))
            if not simp(w).eq(simp(slen(E, s))):
                return S((sub_f(s.term(), z3.IntVal(0), w),))
    return s


@fn('std::basic_string::operator=', 'std::filesystem::path::operator=', 'std::basic_string_view::operator=', 'std::basic_string::assign',
    'std::filesystem::path::assign')
def _str_assign(E, o, a, e, f):
    E.write(E.loc(o), SV(E, a[0]))
    return o


@fn('std::basic_string::operator std::basic_string_view<char,std::char_traits<char>>', 'std::basic_string::c_str', 'std::basic_string::data',
    'std::basic_string_view::data', 'std::filesystem::path::string', 'std::filesystem::path::c_str', 'std::filesystem::path::native',
    'std::filesystem::path::generic_string', 'std::filesystem::path::u8string', 'std::filesystem::path::operator std::basic_string',
    'std::filesystem::path::generic_string')
def _str_id(E, o, a, e, f):
    return SV(E, o)


@fn('std::filesystem::path::make_preferred')
def _mkpref(E, o, a, e, f):
    return o if is_lv(o) else E.loc(o)


def norm(E, s):
    t = s.term()
    if z3.is_app(t) and t.decl().eq(norm_f):
        return s
    if E.opts.get('normal_keys') and z3.is_app(t) and t.decl().name().startswith('mkey:'):
        return s    # precondition of the unit: the keys of the map are in normal form
    c = s.conc()
    if c is not None:
        import posixpath
        if c == '':
            return s
    E.axiom(norm_axiom())
    return S((norm_f(t),))


def norm_axiom():
    x = z3.Const('$s', Str)
    return z3.ForAll([x], norm_f(norm_f(x)) == norm_f(x), patterns=[norm_f(norm_f(x))])


@fn('std::filesystem::path::lexically_normal')
def _lexnorm(E, o, a, e, f):
    return norm(E, SV(E, o))


def path_uf(name, *extra):
    def h(E, o, a, e, f):
        args = [SV(E, o).term()] + [SV(E, x).term() for x in a]
        return S((z3.Function('path.' + name, *[Str] * (len(args) + 1))(*args),))
    return h


for n in ('filename', 'extension', 'stem', 'parent_path', 'lexically_relative', 'lexically_proximate', 'root_path', 'relative_path'):
    L['std::filesystem::path::' + n] = path_uf(n)


def ext(E, p):
    x = z3.Const('$s', Str)
    xf, hf = z3.Function('path.extension', Str, Str), z3.Function('path.has_extension', Str, B)
    E.axiom(z3.ForAll([x], hf(x) == Not(xf(x) == S().term()), patterns=[hf(x)]))
    return S((xf(p.term()),))


def has_ext(E, p):
    ext(E, p)
    return z3.Function('path.has_extension', Str, B)(p.term())


def path_pred(name):
    def h(E, o, a, e, f):
        if name == 'has_extension':
            return has_ext(E, SV(E, o))
        return z3.Function('path.' + name, Str, B)(SV(E, o).term())
    return h


for n in ('has_extension', 'has_filename', 'is_absolute', 'is_relative', 'has_parent_path', 'has_stem'):
    L['std::filesystem::path::' + n] = path_pred(n)


@fn('std::filesystem::path::empty')
def _pempty(E, o, a, e, f):
    return E.eq(SV(E, o), S())


@fn('std::filesystem::path::replace_extension', 'std::filesystem::path::replace_filename', 'std::filesystem::path::remove_filename')
def _prepl(E, o, a, e, f):
    nm = f['base']
    args = [SV(E, o).term()] + [SV(E, x).term() for x in a]
    r = S((z3.Function('path.' + nm, *[Str] * (len(args) + 1))(*args),))
    lv = E.loc(o)
    E.write(lv, r)
    return lv


pjoin_f = z3.Function('path.join', Str, Str, Str)


def pjoin(E, x, y):
    # joining is associative
    x, y = x.term(), y.term()
    if z3.is_app(y) and y.decl().eq(pjoin_f):
        return S((pjoin_f(pjoin(E, S((x,)), S((y.arg(0),))).term(), y.arg(1)),))
    return S((pjoin_f(x, y),))


@fn('std::filesystem::operator/')
def _pjoin(E, o, a, e, f):
    return pjoin(E, SV(E, a[0]), SV(E, a[1]))


@fn('std::filesystem::path::operator/=', 'std::filesystem::path::append')
def _pjoineq(E, o, a, e, f):
    lv = E.loc(o)
    E.write(lv, pjoin(E, SV(E, o), SV(E, a[0])))
    return lv


def pfirst(E, p):
    """first component of a path."""
    return S((z3.Function('path.first', Str, Str)(p.term()),))


@fn('std::filesystem::path::begin')
def _pbegin(E, o, a, e, f):
    return Op('pathit', SV(E, o))


@fn('std::filesystem::path::iterator::operator*')
def _pitstar(E, o, a, e, f):
    v = E.val(o)
    if not isinstance(v, Op) or v.tag != 'pathit':
        raise Unsupported('path iterator')
    return pfirst(E, v.d[0])


@fn('std::operator+')
def _plus(E, o, a, e, f):
    x, y = E.val(a[0]), E.val(a[1])
    if isinstance(x, It):
        return it_add(E, x, y)
    return S((SV(E, x), SV(E, y)))


@fn('std::basic_string::append', 'std::basic_string::operator+=', 'std::basic_string::push_back', 'std::filesystem::path::operator+=',
    'std::filesystem::path::concat')
def _append(E, o, a, e, f):
    lv = E.loc(o)
    if f['base'] == 'append' and len(a) == 2:
        n, c = E.val(a[0]), E.val(a[1])
        if isinstance(n, z3.ExprRef) and isinstance(c, z3.ExprRef):
            if z3.is_int_value(n) and z3.is_int_value(c):
                E.write(lv, S((SV(E, o), chr(c.as_long()) * n.as_long())))
                return lv
        raise Unsupported('append')
    E.write(lv, S((SV(E, o), SV(E, a[0]))))
    return lv


@fn('std::basic_string::insert')
def _sinsert(E, o, a, e, f):
    lv = E.loc(o)
    p = E.val(a[0])
    if isinstance(p, It):
        p = p.pos[1]
    if z3.is_int_value(p) and p.as_long() == 0 and len(a) == 2:
        E.write(lv, S((SV(E, a[1]), SV(E, o))))
        return lv
    raise Unsupported('string insert')


@fn('std::basic_string::reserve', 'std::vector::reserve', 'std::basic_string::shrink_to_fit', 'std::vector::shrink_to_fit', 'std::unordered_map::reserve',
    'std::unordered_set::reserve')
def _reserve(E, o, a, e, f):
    return None


def slen(E, s):
    if s.conc() is not None:
        return z3.IntVal(len(s.conc().encode('utf8', 'surrogateescape')))
    tot = z3.IntVal(0)
    for p in s.parts:
        if isinstance(p, str):
            tot = tot + len(p.encode('utf8', 'surrogateescape'))
        else:
            E.axiom(E.closed_all(slen_f(p) >= 0))
            E.axiom(E.closed_all((slen_f(p) == 0) == (p == lit(''))))
            tot = tot + slen_f(p)
    return simp(tot)


def substr(E, s, a, n):
    c = s.conc()
    if c is not None and z3.is_int_value(a) and z3.is_int_value(n):
        return S((c[a.as_long():a.as_long() + min(n.as_long(), len(c))],))
    L_ = slen(E, s)
    if z3.is_int_value(a) and a.as_long() == 0 and (simp(n).eq(NPOS) or simp(n).eq(L_)):
        return s
    end = L_ if simp(n).eq(NPOS) else a + n
    return mksub(E, s, a, z3.If(end > L_, L_, end) if not simp(n).eq(NPOS) else L_)


def mksub(E, s, a, b):
    """characters [a,b)"""
    a, b = simp(a), simp(b)
    t = s.term()
    base, off = t, z3.IntVal(0)
    if z3.is_app(t) and t.decl().eq(sub_f):
        base, off = t.arg(0), t.arg(1)
    r = sub_f(base, simp(off + a), simp(off + b))
    E.axiom(E.closed_all(Implies(And(a >= 0, a <= b, b <= slen(E, s)), slen_f(r) == b - a)))
    return S((r,))


def char_at(E, s, i):
    c = s.conc()
    i = simp(i)
    if c is not None and z3.is_int_value(i):
        bs = c.encode('utf8', 'surrogateescape')
        k = i.as_long()
        return z3.IntVal(bs[k]) if k < len(bs) else z3.IntVal(0)
    t = s.term()
    if z3.is_app(t) and t.decl().eq(sub_f):
        return chr_f(t.arg(0), simp(t.arg(1) + i))
    return chr_f(t, i)


@fn('std::basic_string::size', 'std::basic_string::length', 'std::basic_string_view::size', 'std::basic_string_view::length')
def _ssize(E, o, a, e, f):
    return slen(E, SV(E, o))


@fn('std::basic_string::empty', 'std::basic_string_view::empty')
def _sempty(E, o, a, e, f):
    return E.eq(SV(E, o), S())


@fn('std::basic_string::clear', 'std::filesystem::path::clear')
def _sclear(E, o, a, e, f):
    E.write(E.loc(o), S())


@fn('std::basic_string::find', 'std::basic_string_view::find', 'std::basic_string::find_first_of', 'std::basic_string::rfind',
    'std::basic_string::find_last_of', 'std::basic_string::find_first_not_of', 'std::basic_string::find_last_not_of')
def _sfind(E, o, a, e, f):
    s = SV(E, o)
    x = SV(E, a[0])
    st = E.val(a[1]) if len(a) > 1 else None
    if s.conc() is not None and x.conc() is not None and f['base'] == 'find' and (st is None or (z3.is_int_value(st) and st.as_long() == 0)):
        k = s.conc().find(x.conc())
        return NPOS if k < 0 else z3.IntVal(k)
    nm = f['base']
    one = x.conc() if x.conc() is not None and len(x.conc().encode()) == 1 else None
    if one and nm in ('find_first_of', 'find_last_of'):
        nm = {'find_first_of': 'find', 'find_last_of': 'rfind'}[nm]
    if one and s.conc() is None:
        k = z3.Int('$fk')
        E.axiom(E.closed_all(has_f(s.term(), x.term()) == z3.Exists([k], And(0 <= k, k < slen(E, s), char_at(E, s, k) == ord(one)))))
    if nm == 'find' and any(isinstance(p, str) and x.conc() is not None and x.conc() in p for p in s.parts):
        h = TRUE
    elif nm in ('find', 'rfind'):
        h = has_f(s.term(), x.term())
    else:
        h = z3.Function('str.has_' + nm, Str, Str, B)(s.term(), x.term())
    p = pos_f(s.term(), x.term()) if nm == 'find' and (st is None or (z3.is_int_value(st) and st.as_long() == 0)) else \
        z3.Function('str.pos_' + nm, Str, Str, I, I)(s.term(), x.term(), st if st is not None else z3.IntVal(-1))
    if st is not None and not (z3.is_int_value(st) and st.as_long() in (0, 18446744073709551615)):
        h = z3.Function('str.hasfrom_' + nm, Str, Str, I, B)(s.term(), x.term(), st)
    E.axiom(E.closed_all(And(p >= 0, p < NPOS)))
    return z3.If(h, p, NPOS)


@fn('std::basic_string::substr', 'std::basic_string_view::substr')
def _ssubstr(E, o, a, e, f):
    s = SV(E, o)
    st = E.val(a[0]) if a else z3.IntVal(0)
    n = E.val(a[1]) if len(a) > 1 else NPOS
    return substr(E, s, st, n)


@fn('std::basic_string::operator[]', 'std::basic_string::at', 'std::basic_string_view::operator[]')
def _sidx(E, o, a, e, f):
    return char_at(E, SV(E, o), E.val(a[0]))


@fn('std::basic_string::front')
def _sfront(E, o, a, e, f):
    return char_at(E, SV(E, o), z3.IntVal(0))


@fn('std::basic_string::back')
def _sback(E, o, a, e, f):
    s = SV(E, o)
    return char_at(E, s, simp(slen(E, s) - 1))


@fn('std::basic_string::pop_back')
def _spop(E, o, a, e, f):
    s = SV(E, o)
    E.write(E.loc(o), mksub(E, s, z3.IntVal(0), slen(E, s) - 1))


@fn('std::basic_string::erase')
def _serase(E, o, a, e, f):
    lv = E.loc(o)
    s = SV(E, o)
    x = E.val(a[0])
    n = slen(E, s)
    if isinstance(x, It):
        st = x.pos[1]
        if len(a) > 1:
            y = E.val(a[1])
            en = y.pos[1]
        else:
            en = st + 1
    else:
        st = x
        cnt = E.val(a[1]) if len(a) > 1 else NPOS
        en = n if simp(cnt).eq(NPOS) else z3.If(st + cnt > n, n, st + cnt)
    st, en = simp(st), simp(en)
    if E.implied(st == 0):
        E.write(lv, mksub(E, s, en, n))
    elif E.implied(en == n):
        E.write(lv, mksub(E, s, z3.IntVal(0), st))
    else:
        E.write(lv, S((mksub(E, s, z3.IntVal(0), st), mksub(E, s, en, n))))
    return It(lv, ('idx', st)) if isinstance(x, It) else lv


@fn('std::basic_string::resize')
def _sresize(E, o, a, e, f):
    r = S((E.uf(E.new('resized'), Str),))
    E.axiom(E.closed_all(slen(E, r) == E.val(a[0])))
    E.write(E.loc(o), r)


@fn('std::basic_string::compare', 'std::filesystem::path::compare')
def _scompare(E, o, a, e, f):
    return z3.If(E.eq(SV(E, o), SV(E, a[0])), z3.IntVal(0), z3.Function('str.cmp', Str, Str, I)(SV(E, o).term(), SV(E, a[0]).term()))


@fn('std::to_string')
def _tostr(E, o, a, e, f):
    v = E.val(a[0])
    return S((str(v.as_long()),)) if z3.is_int_value(v) else S((i2s_f(v),))


@fn('isspace', 'std::isspace', 'tolower', 'toupper')
def _isspace(E, o, a, e, f):
    c = E.val(a[0])
    if f['base'] != 'isspace':
        return z3.Function('c.' + f['base'], I, I)(c)
    return z3.If(Or(c == 32, And(c >= 9, c <= 13)), z3.IntVal(1), z3.IntVal(0))


@fn('std::replace')
def _replace(E, o, a, e, f):
    b, en = E.val(a[0]), E.val(a[1])
    s = E.val(b.c)
    if isinstance(s, S):
        x, y = E.val(a[2]), E.val(a[3])
        full = E.implied(b.pos[1] == 0) and E.implied(en.pos[1] == slen(E, s))
        if not full:
            raise Unsupported('partial std::replace')
        E.write(b.c, S((z3.Function('str.replace', Str, I, I, Str)(s.term(), x, y),)))
        return None
    raise Unsupported('std::replace on container')


# ------------------------------------------------------------------ operators on library types
@fn('std::operator==', 'std::__detail::operator==', 'std::filesystem::operator==', 'std::filesystem::path::operator==', '__gnu_cxx::operator==', 'operator==',
    'std::filesystem::__cxx11::operator==', 'std::rel_ops::operator==')
def _eq(E, o, a, e, f):
    xs = ([o] if o is not None else []) + list(a)
    return E.eq(E.val(xs[0]), E.val(xs[1]))


@fn('std::operator!=', 'std::__detail::operator!=', 'std::filesystem::operator!=', 'std::filesystem::path::operator!=', '__gnu_cxx::operator!=', 'operator!=')
def _ne(E, o, a, e, f):
    xs = ([o] if o is not None else []) + list(a)
    return Not(E.eq(E.val(xs[0]), E.val(xs[1])))


@fn('std::operator|', 'std::operator&')
def _bor(E, o, a, e, f):
    x, y = E.val(a[0]), E.val(a[1])
    return E.binop(f['base'].replace('operator', ''), x, y)


# ------------------------------------------------------------------ iterators
def it_eq(E, a, b):
    pa, pb = a.pos, b.pos
    if pa[0] == 'idx' and pb[0] == 'idx':
        return simp(pa[1] == pb[1])
    if pa[0] == 'end' and pb[0] == 'end':
        return TRUE
    if pa[0] == 'end':
        return it_eq(E, b, a)
    if pb[0] == 'end':
        if pa[0] == 'key':
            return Not(pa[2])
        if pa[0] == 'idx':
            c = E.val(a.c)
            if isinstance(c, Map):
                n, _ = E.mapenum(c)
                return pa[1] == n
            return pa[1] == E.vlen(c)
    if pa[0] == 'key' and pb[0] == 'key':
        return Or(And(Not(pa[2]), Not(pb[2])), And(pa[2], pb[2], E.eq(pa[1], pb[1])))
    raise Unsupported('iterator comparison')


def it_add(E, it, n):
    if it.pos[0] != 'idx':
        raise Unsupported('iterator arithmetic')
    return It(it.c, ('idx', simp(it.pos[1] + n)), it.rev)


def it_binop(E, op, a, b):
    if op in ('+', '-') and isinstance(a, It) and isinstance(b, z3.ExprRef):
        return it_add(E, a, b if op == '+' else -b)
    if op == '-' and isinstance(a, It) and isinstance(b, It):
        return simp(a.pos[1] - b.pos[1])
    if op in ('<', '>', '<=', '>='):
        return E.binop(op, a.pos[1], b.pos[1])
    raise Unsupported('iterator op ' + op)


def it_deref(E, it):
    c = E.val(it.c)
    if isinstance(c, S):
        n = slen(E, c)
        i = simp(n - 1 - it.pos[1]) if it.rev else it.pos[1]
        return char_at(E, c, i)
    if isinstance(c, Vec):
        i = it.pos[1]
        if it.rev:
            i = simp(E.vlen(c) - 1 - i)
        return E.loc(it.c) + ('e', i)
    if isinstance(c, Map):
        if it.pos[0] == 'key':
            k = it.pos[1]
        elif it.pos[0] == 'idx':
            n, kf = E.mapenum(c)
            k = kf(it.pos[1])
        else:
            raise Infeasible()
        if c.vty is None:
            return E.alloc(k)
        return E.alloc(Rec('pair', {'first': k, 'second': RefV(E.loc(it.c) + ('m', k))}))
    if isinstance(c, Op):
        v = iterable(E, c)
        return E.vat(v, it.pos[1])
    raise Unsupported('iterator deref')


@fn('__gnu_cxx::__normal_iterator::operator*', 'std::__detail::_Node_iterator::operator*', 'std::__detail::_Node_const_iterator::operator*',
    'std::_Rb_tree_iterator::operator*', 'std::_Rb_tree_const_iterator::operator*', 'std::reverse_iterator::operator*', 'std::move_iterator::operator*',
    'std::filesystem::directory_iterator::operator*', 'std::filesystem::recursive_directory_iterator::operator*', 'std::_Deque_iterator::operator*')
def _itstar(E, o, a, e, f):
    return it_deref(E, E.val(o))


@fn('__gnu_cxx::__normal_iterator::operator->', 'std::__detail::_Node_iterator::operator->', 'std::__detail::_Node_const_iterator::operator->',
    'std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_const_iterator::operator->')
def _itarrow(E, o, a, e, f):
    r = it_deref(E, E.val(o))
    return Ptr(FALSE, E.loc(r))


@fn('__gnu_cxx::__normal_iterator::operator++', 'std::__detail::_Node_iterator::operator++', 'std::__detail::_Node_const_iterator::operator++',
    'std::reverse_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--', '__gnu_cxx::__normal_iterator::operator+=')
def _itinc(E, o, a, e, f):
    lv = E.loc(o)
    v = E.read(lv)
    d = z3.IntVal(-1 if f['base'] == 'operator--' else 1)
    if f['base'] == 'operator+=':
        d = E.val(a[0])
    E.write(lv, it_add(E, v, d))
    return v if a and f['base'] != 'operator+=' else lv


@fn('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-', '__gnu_cxx::operator-')
def _itplus(E, o, a, e, f):
    xs = ([o] if o is not None else []) + list(a)
    return it_binop(E, '+' if f['base'].endswith('+') else '-', E.val(xs[0]), E.val(xs[1]))


@fn('std::next', 'std::prev')
def _itnext(E, o, a, e, f):
    d = E.val(a[1]) if len(a) > 1 else z3.IntVal(1)
    return it_add(E, E.val(a[0]), d if f['base'] == 'next' else -d)


@fn('__gnu_cxx::__normal_iterator::(ctor)', 'std::__detail::_Node_const_iterator::(ctor)', 'std::move_iterator::(ctor)')
def _itctor(E, o, a, e, f):
    return E.val(a[0])


@fn('std::reverse_iterator::base')
def _itbase(E, o, a, e, f):
    v = E.val(o)
    c = E.val(v.c)
    n = slen(E, c) if isinstance(c, S) else E.vlen(c)
    return It(v.c, ('idx', simp(n - v.pos[1])))


@fn('std::distance')
def _itdist(E, o, a, e, f):
    return simp(E.val(a[1]).pos[1] - E.val(a[0]).pos[1])


def _begin(E, c):
    return It(E.loc(c), ('idx', z3.IntVal(0)))


def _end(E, c):
    v = E.val(c)
    if isinstance(v, Map):
        return It(E.loc(c), ('end',))
    if isinstance(v, S):
        return It(E.loc(c), ('idx', slen(E, v)))
    return It(E.loc(c), ('idx', E.vlen(v)))


CONT = ['std::vector', 'std::basic_string', 'std::unordered_map', 'std::unordered_set', 'std::map', 'std::set', 'std::array', 'std::initializer_list',
        'std::basic_string_view', 'std::deque']
for c in CONT:
    for b in ('begin', 'cbegin'):
        L[c + '::' + b] = lambda E, o, a, e, f: _begin(E, o)
    for b in ('end', 'cend'):
        L[c + '::' + b] = lambda E, o, a, e, f: _end(E, o)
    for b in ('rbegin', 'crbegin'):
        L[c + '::' + b] = lambda E, o, a, e, f: It(E.loc(o), ('idx', z3.IntVal(0)), True)
    for b in ('rend', 'crend'):
        L[c + '::' + b] = lambda E, o, a, e, f: It(E.loc(o), _end(E, o).pos, True)
for b in ('std::begin', 'std::cbegin'):
    L[b] = lambda E, o, a, e, f: _begin(E, a[0])
for b in ('std::end', 'std::cend'):
    L[b] = lambda E, o, a, e, f: _end(E, a[0])


def range_of(E, b, e):
    """container value and whether [b,e) is the whole of it."""
    c = E.val(b.c)
    if isinstance(c, Map):
        if b.pos[0] == 'idx' and z3.is_int_value(b.pos[1]) and b.pos[1].as_long() == 0 and e.pos[0] == 'end':
            return c
        raise Unsupported('partial map range')
    if isinstance(c, Vec):
        n = E.vlen(c)
        if simp(b.pos[1]).eq(z3.IntVal(0)) and (simp(e.pos[1]).eq(n) or E.implied(e.pos[1] == n)):
            return c
        return vslice(E, c, b.pos[1], e.pos[1])
    raise Unsupported('range over %r' % type(c).__name__)


def vslice(E, v, a, b):
    a, b = simp(a), simp(b)
    if all(isinstance(s, U) for s in v.segs) and z3.is_int_value(a) and z3.is_int_value(b):
        return Vec(v.segs[a.as_long():b.as_long()])
    if len(v.segs) == 1 and (isinstance(v.segs[0], Base) or regular(v.segs[0])):
        j = z3.Int(E.new('sl'))
        el = E.elem(v.segs[0], simp(j + a))
        return Vec((FM(simp(b - a), j, [(TRUE, (U(el),))]),))
    raise Unsupported('vector slice')


def ptr_range(E, b, e):
    return E.val(b), E.val(e)


# ------------------------------------------------------------------ vectors
@fn('std::vector::(ctor)', 'std::initializer_list::(ctor)', 'std::array::(ctor)', 'std::deque::(ctor)', 'std::queue::(ctor)', 'std::list::(ctor)', 'std::stack::(ctor)')
def _vctor(E, o, a, e, f):
    if not a:
        return Vec()
    v = E.val(a[0])
    if isinstance(v, Op) and v.tag.startswith('misc'):
        return Vec()
    if isinstance(v, Vec):
        return v
    if isinstance(v, It):
        c = range_of(E, v, E.val(a[1]))
        if isinstance(c, Map):
            n, kf = E.mapenum(c)
            if kf is None:
                return Vec()
            j = z3.Int(E.new('sl'))
            k = kf(j)
            el = k if c.vty is None else Rec('pair', {'first': k, 'second': E.mval(c, k)})
            return Vec((FM(n, j, [(TRUE, (U(el),))]),))
        return c
    if isinstance(v, Op):
        c = iterable(E, v)
        if c is not None:
            return c
    if isinstance(v, z3.ExprRef):
        ety = parse_ty(e['t'])[1][0]
        fill = E.val(a[1]) if len(a) > 1 and not (isinstance(E.val(a[1]), Op) and E.val(a[1]).tag.startswith('misc')) else E.default(ety)
        if z3.is_int_value(v):
            return Vec([U(fill)] * v.as_long())
        return Vec((FM(v, z3.Int(E.new('sl')), [(TRUE, (U(fill),))]),))
    raise Unsupported('vector ctor')


@fn('std::vector::operator=', 'std::unordered_map::operator=', 'std::unordered_set::operator=', 'std::optional::operator=', 'std::pair::operator=',
    'std::map::operator=', 'std::set::operator=')
def _casg(E, o, a, e, f):
    v = E.val(a[0])
    lv = E.loc(o)
    if 'optional' in f['name']:
        if isinstance(v, Op) and v.tag == 'nullopt':
            v = Opt(FALSE, None)
        elif not isinstance(v, Opt):
            v = Opt(TRUE, v)
    if isinstance(v, Vec) and ('map' in f['name'].split('<')[0] or 'set' in f['name'].split('<')[0]):
        v = map_from(E, v, f['cls'])
    E.write(lv, v)
    return lv


@fn('std::vector::push_back', 'std::deque::push_back', 'std::queue::push', 'std::list::push_back', 'std::stack::push')
def _push(E, o, a, e, f):
    lv = E.loc(o)
    v = E.read(lv)
    E.write(lv, Vec(v.segs + (U(E.val(a[0])),)))


def cons(E, t, args):
    """value of type t constructed from args (emplace)."""
    k = E.p.kind(t)
    vs = [E.val(x) for x in args]
    if k == 'str':
        return S() if not vs else SV(E, vs[0])
    if len(vs) == 1 and k == 'rec' and isinstance(vs[0], Rec) and vs[0].ty == t:
        return vs[0]
    if k == 'pair' and len(vs) == 2:
        ta = parse_ty(t)[1]
        return Rec('pair', {'first': cons(E, ta[0], [vs[0]]), 'second': cons(E, ta[1], [vs[1]])})
    if k == 'fn' or k == 'sptr' or k == 'ptr':
        return vs[0] if vs else E.default(t)
    if k in ('int', 'bool'):
        return vs[0]
    if k in ('vec', 'map', 'set', 'opt', 'json') and len(vs) == 1 and isinstance(vs[0], (Vec, Map, Opt, Op)):
        return vs[0]
    if not vs:
        return E.default(t)
    if k == 'rec':
        cls = t.replace('const ', '').strip()
        r = E.p.records.get(cls)
        if r:
            best = None
            for m in r.get('methods', ()):
                g = E.p.funcs.get(m['fn'])
                if g and g['kind'] == 'ctor' and not g.get('copymove') and len(g['params']) == len(args) and m['fn'] in E.p.bodies:
                    best = m['fn']
            for u, g in E.p.funcs.items():
                if best is None and g['kind'] == 'ctor' and g.get('cls') == cls and not g.get('copymove') and len(g['params']) == len(args) and u in E.p.bodies:
                    best = u
            if best:
                lv = E.alloc(None)
                E.construct_with(lv, best, list(args), cls)
                return E.store[lv.root]
        if len(vs) == 1 and isinstance(vs[0], (Rec, Op)):
            return vs[0]
    if len(vs) == 1:
        return vs[0]
    raise Unsupported('emplace construction of ' + t)


@fn('std::vector::emplace_back', 'std::deque::emplace_back', 'std::queue::emplace', 'std::stack::emplace')
def _emplace_back(E, o, a, e, f):
    lv = E.loc(o)
    v = E.read(lv)
    t = parse_ty(f['cls'])[1][0]
    x = cons(E, t, a)
    E.write(lv, Vec(v.segs + (U(x),)))
    return lv + ('e', E.vlen(v))


@fn('std::vector::insert')
def _vinsert(E, o, a, e, f):
    lv = E.loc(o)
    v = E.read(lv)
    p = E.val(a[0]).pos[1]
    if len(a) == 3 and isinstance(E.val(a[1]), It):
        c = range_of(E, E.val(a[1]), E.val(a[2]))
        if isinstance(c, Map):
            c = _vctor(E, None, [a[1], a[2]], e, f)
        seg = c.segs
    elif len(a) == 2 and isinstance(E.val(a[1]), Vec) and 'initializer_list' in f['params'][1]['type']:
        seg = E.val(a[1]).segs
    elif len(a) == 2:
        seg = (U(E.val(a[1])),)
    else:
        raise Unsupported('vector insert')
    n = E.vlen(v)
    if simp(p).eq(n) or E.implied(p == n):
        E.write(lv, Vec(v.segs + tuple(seg)))
    elif simp(p).eq(z3.IntVal(0)):
        E.write(lv, Vec(tuple(seg) + v.segs))
    else:
        raise Unsupported('vector insert in the middle')
    return It(lv, ('idx', p))


@fn('std::vector::empty', 'std::unordered_map::empty', 'std::unordered_set::empty', 'std::queue::empty', 'std::stack::empty', 'std::map::empty', 'std::set::empty',
    'std::deque::empty', 'std::array::empty')
def _vempty(E, o, a, e, f):
    v = E.val(o)
    return E.mempty(v) if isinstance(v, Map) else E.vempty(v)


@fn('std::vector::size', 'std::unordered_map::size', 'std::unordered_set::size', 'std::queue::size', 'std::stack::size', 'std::map::size', 'std::set::size', 'std::deque::size',
    'std::array::size', 'std::initializer_list::size')
def _vsize(E, o, a, e, f):
    v = E.val(o)
    if isinstance(v, Map):
        n, _ = E.mapenum(v)
        return n
    return E.vlen(v)


@fn('std::vector::operator[]', 'std::array::operator[]', 'std::deque::operator[]')
def _vidx(E, o, a, e, f):
    return E.loc(o) + ('e', E.val(a[0]))


@fn('std::vector::at', 'std::array::at')
def _vatf(E, o, a, e, f):
    i = E.val(a[0])
    if not E.branch(And(i >= 0, i < E.vlen(E.val(o)))):
        raise Throw(Op('exc', 'std::out_of_range'))
    return E.loc(o) + ('e', i)


@fn('std::vector::front', 'std::deque::front', 'std::queue::front', 'std::list::front')
def _vfront(E, o, a, e, f):
    return E.loc(o) + ('e', z3.IntVal(0))


@fn('std::vector::back', 'std::deque::back', 'std::list::back', 'std::stack::top')
def _vback(E, o, a, e, f):
    lv = E.loc(o)
    v = E.read(lv)
    if v.segs and isinstance(v.segs[-1], U):
        pass
    return lv + ('e', simp(E.vlen(v) - 1))


@fn('std::queue::pop', 'std::deque::pop_front', 'std::list::pop_front')
def _qpop(E, o, a, e, f):
    lv = E.loc(o)
    v = E.read(lv)
    if v.segs and isinstance(v.segs[0], U):
        E.write(lv, Vec(v.segs[1:]))
        return
    raise Unsupported('queue pop')


@fn('std::vector::pop_back', 'std::deque::pop_back', 'std::list::pop_back', 'std::stack::pop')
def _vpop(E, o, a, e, f):
    lv = E.loc(o)
    v = E.read(lv)
    if v.segs and isinstance(v.segs[-1], U):
        E.write(lv, Vec(v.segs[:-1]))
        return
    raise Unsupported('pop_back')


@fn('std::vector::clear', 'std::deque::clear')
def _vclear(E, o, a, e, f):
    E.write(E.loc(o), Vec())


@fn('std::vector::resize')
def _vresize(E, o, a, e, f):
    raise Unsupported('vector resize')


# ------------------------------------------------------------------ maps and sets
def map_from(E, v, t):
    base, args, q = parse_ty(t)
    isset = base in SETS
    m = Map(('E',), args[0], None if isset else args[1])
    lv = E.alloc(m, '$map')

    def one(el, _):
        x = E.val(el)
        cur = E.read(lv)
        if isset:
            E.write(lv, Map(('ins', cur.node, keyval(E, cur, x), None), cur.kty, cur.vty))
        else:
            E.write(lv, Map(('ins', cur.node, keyval(E, cur, E.val(x.f['first'])), cons(E, cur.vty, [deref2(E, x.f['second'])])), cur.kty, cur.vty))
    loops.iterate(E, v, one)
    return E.read(lv)


def deref2(E, v):
    return E.read(v.lv) if isinstance(v, RefV) else E.val(v)


def keyval(E, m, x):
    x = E.val(x)
    if isinstance(x, Ptr) and isinstance(x.tgt, S):
        return x.tgt
    return x


@fn('std::unordered_map::(ctor)', 'std::unordered_set::(ctor)', 'std::map::(ctor)', 'std::set::(ctor)')
def _mctor(E, o, a, e, f):
    t = f['cls']
    if not a or (isinstance(E.val(a[0]), Op) and E.val(a[0]).tag.startswith('misc')):
        return E.default(t)
    v = E.val(a[0])
    if isinstance(v, Map):
        return v
    if isinstance(v, Vec):
        return map_from(E, v, t)
    if isinstance(v, It):
        c = range_of(E, v, E.val(a[1]))
        if isinstance(c, Map) and E.p.kind(t) in ('map', 'set') and (c.vty is None) == (E.p.kind(t) == 'set'):
            return c
        return map_from(E, c, t)
    if isinstance(v, z3.ExprRef):
        return E.default(t)
    raise Unsupported('map ctor')


MAPC = ['std::unordered_map', 'std::unordered_set', 'std::map', 'std::set']


def mfn(*names):
    def deco(g):
        for c in MAPC:
            for n in names:
                L[c + '::' + n] = g
        return g
    return deco


@mfn('find')
def _mfind(E, o, a, e, f):
    m = E.val(o)
    k = keyval(E, m, a[0])
    return It(E.loc(o), ('key', k, E.mem(m, k)))


@mfn('count')
def _mcount(E, o, a, e, f):
    m = E.val(o)
    k = keyval(E, m, a[0])
    return z3.If(E.mem(m, k), z3.IntVal(1), z3.IntVal(0))


@mfn('contains')
def _mcontains(E, o, a, e, f):
    m = E.val(o)
    return E.mem(m, keyval(E, m, a[0]))


@mfn('at')
def _mat(E, o, a, e, f):
    m = E.val(o)
    k = keyval(E, m, a[0])
    if not E.branch(E.mem(m, k)):
        raise Throw(Op('exc', 'std::out_of_range'))
    return E.loc(o) + ('m', k)


@mfn('operator[]')
def _midx(E, o, a, e, f):
    lv = E.loc(o)
    m = E.read(lv)
    k = keyval(E, m, a[0])
    if not E.branch(E.mem(m, k)):
        E.write(lv, Map(('put', m.node, k, E.default(m.vty)), m.kty, m.vty))
    return lv + ('m', k)


@mfn('emplace', 'try_emplace', 'insert', 'insert_or_assign')
def _minsert(E, o, a, e, f):
    lv = E.loc(o)
    m = E.read(lv)
    nm = f['base']
    vs = [E.val(x) for x in a]
    if nm == 'insert' and len(a) == 2 and isinstance(vs[0], It):
        c = range_of(E, vs[0], vs[1])
        def one(el, _):
            x = E.val(el)
            cur = E.read(lv)
            if m.vty is None:
                E.write(lv, Map(('ins', cur.node, keyval(E, cur, x), None), cur.kty, cur.vty))
            else:
                E.write(lv, Map(('ins', cur.node, keyval(E, cur, deref2(E, x.f['first'])), deref2(E, x.f['second'])), cur.kty, cur.vty))
        if isinstance(c, Map) and m.node[0] == 'E':
            E.write(lv, c)
            return None
        loops.iterate(E, c, one)
        return None
    if nm == 'insert' and len(a) == 1 and isinstance(vs[0], Vec) and 'initializer_list' in f['params'][0]['type']:
        for s in vs[0].segs:
            cur = E.read(lv)
            if m.vty is None:
                E.write(lv, Map(('ins', cur.node, keyval(E, cur, s.v), None), cur.kty, cur.vty))
            else:
                E.write(lv, Map(('ins', cur.node, keyval(E, cur, s.v.f['first']), s.v.f['second']), cur.kty, cur.vty))
        return None
    if m.vty is None:
        k = keyval(E, m, cons(E, m.kty, a) if len(a) == 1 else None)
        was = E.mem(m, k)
        E.write(lv, Map(('ins', m.node, k, None), m.kty, m.vty))
    else:
        if nm == 'insert':
            p = vs[0]
            k, v = keyval(E, m, deref2(E, p.f['first'])), deref2(E, p.f['second'])
        elif nm == 'emplace' and len(a) == 1 and isinstance(vs[0], Rec) and vs[0].ty == 'pair':
            k, v = keyval(E, m, vs[0].f['first']), vs[0].f['second']
        else:
            k = keyval(E, m, a[0])
            v = cons(E, m.vty, a[1:])
        k = cons(E, m.kty, [k]) if E.p.kind(m.kty) == 'str' else k
        was = E.mem(m, k)
        ws = simp(was) if not has_quant(was) else was
        op = 'put' if nm == 'insert_or_assign' else 'ins'
        E.write(lv, Map((op, m.node, k, v), m.kty, m.vty))
    return Rec('pair', {'first': It(lv, ('key', k, TRUE)), 'second': Not(was)})


@mfn('erase')
def _merase(E, o, a, e, f):
    lv = E.loc(o)
    m = E.read(lv)
    v = E.val(a[0])
    if isinstance(v, It):
        if v.pos[0] == 'key':
            k = v.pos[1]
        else:
            raise Unsupported('erase by position')
    else:
        k = keyval(E, m, v)
    r = z3.If(E.mem(m, k), z3.IntVal(1), z3.IntVal(0))
    E.write(lv, Map(('del', m.node, k), m.kty, m.vty))
    return r


@mfn('clear')
def _mclear(E, o, a, e, f):
    lv = E.loc(o)
    m = E.read(lv)
    E.write(lv, Map(('E',), m.kty, m.vty))


# ------------------------------------------------------------------ optional / pair / smart pointers / function
@fn('std::optional::(ctor)')
def _octor(E, o, a, e, f):
    if not a:
        return Opt(FALSE, None)
    v = E.val(a[0])
    if isinstance(v, Opt):
        return v
    if 'nullopt' in (f['params'][0]['type'] if f['params'] else '') or (isinstance(v, Op) and v.tag == 'nullopt'):
        return Opt(FALSE, None)
    return Opt(TRUE, cons(E, parse_ty(f['cls'])[1][0], a))


@fn('std::optional::has_value', 'std::optional::operator bool')
def _ohas(E, o, a, e, f):
    return E.val(o).has


@fn('std::optional::value')
def _oval(E, o, a, e, f):
    if not E.branch(E.val(o).has):
        raise Throw(Op('exc', 'std::bad_optional_access'))
    return E.loc(o) + ('o',)


@fn('std::optional::operator*')
def _ostar(E, o, a, e, f):
    return E.loc(o) + ('o',)


@fn('std::optional::operator->')
def _oarrow(E, o, a, e, f):
    return Ptr(FALSE, E.loc(o) + ('o',))


@fn('std::optional::value_or')
def _oor(E, o, a, e, f):
    v = E.val(o)
    d = E.val(a[0])
    if z3.is_true(v.has):
        return v.val
    if z3.is_false(v.has) or v.val is None:
        return cons(E, parse_ty(f['cls'])[1][0], [d])
    if isinstance(v.val, S):
        d = SV(E, d)
    return E.vite(v.has, v.val, d)


@fn('std::optional::reset')
def _oreset(E, o, a, e, f):
    E.write(E.loc(o), Opt(FALSE, None))


@fn('std::optional::emplace')
def _oempl(E, o, a, e, f):
    E.write(E.loc(o), Opt(TRUE, cons(E, parse_ty(f['cls'])[1][0], a)))
    return E.loc(o) + ('o',)


@fn('std::make_optional')
def _mkopt(E, o, a, e, f):
    return Opt(TRUE, E.val(a[0]))


@fn('std::pair::(ctor)')
def _pctor(E, o, a, e, f):
    ta = parse_ty(f['cls'])[1]
    if not a:
        return Rec('pair', {'first': E.default(ta[0]), 'second': E.default(ta[1])})
    if len(a) == 1:
        v = E.val(a[0])
        return Rec('pair', {'first': cons(E, ta[0], [deref2(E, v.f['first'])]), 'second': cons(E, ta[1], [deref2(E, v.f['second'])])})

    def one(t, x):
        if t.rstrip().endswith('&'):
            return RefV(E.loc(x))
        return cons(E, t, [x])
    return Rec('pair', {'first': one(ta[0], a[0]), 'second': one(ta[1], a[1])})


@fn('std::make_pair')
def _mkpair(E, o, a, e, f):
    return Rec('pair', {'first': E.val(a[0]), 'second': E.val(a[1])})


@fn('std::make_shared', 'std::make_unique')
def _mkptr(E, o, a, e, f):
    t = (f.get('targs') or [None])[0]
    ret = f['ret']
    t = parse_ty(ret)[1][0]
    lv = E.alloc(None, '$heap')
    E.write(lv, cons(E, t, a))
    return Ptr(FALSE, lv)


@fn('std::shared_ptr::(ctor)', 'std::unique_ptr::(ctor)')
def _spctor(E, o, a, e, f):
    if not a:
        return NULL
    v = E.val(a[0])
    if isinstance(v, Ptr):
        return v
    raise Unsupported('smart pointer ctor')


@fn('std::shared_ptr::operator=', 'std::unique_ptr::operator=')
def _spasg(E, o, a, e, f):
    E.write(E.loc(o), E.val(a[0]))
    return o


@fn('std::unique_ptr::operator*', 'std::__shared_ptr_access::operator*', 'std::shared_ptr::operator*')
def _spstar(E, o, a, e, f):
    return E.deref(E.val(o))


@fn('std::unique_ptr::operator->', 'std::__shared_ptr_access::operator->', 'std::unique_ptr::get', 'std::shared_ptr::get', 'std::__shared_ptr::get',
    'std::shared_ptr::operator->')
def _sparrow(E, o, a, e, f):
    return E.val(o)


@fn('std::unique_ptr::operator bool', 'std::shared_ptr::operator bool', 'std::__shared_ptr::operator bool')
def _spbool(E, o, a, e, f):
    return Not(E.val(o).null)


@fn('std::unique_ptr::reset', 'std::shared_ptr::reset')
def _spreset(E, o, a, e, f):
    E.write(E.loc(o), E.val(a[0]) if a else NULL)


@fn('std::function::(ctor)')
def _fctor(E, o, a, e, f):
    if not a:
        return Fn('empty')
    v = E.val(a[0])
    if isinstance(v, Ptr) and z3.is_true(v.null):
        return Fn('empty')
    return v


@fn('std::function::operator=')
def _fasg(E, o, a, e, f):
    v = E.val(a[0])
    if isinstance(v, Ptr) and z3.is_true(v.null):
        v = Fn('empty')
    E.write(E.loc(o), v)
    return o


@fn('std::function::operator bool')
def _fbool(E, o, a, e, f):
    return fn_nonempty(E, E.val(o))


def fn_nonempty(E, v):
    if isinstance(v, Fn):
        if v.kind == 'empty':
            return FALSE
        if v.kind == 'sym':
            return E.uf('nonempty:' + v.node, B, v.extra)
    return TRUE


@fn('std::function::operator()')
def _fcall(E, o, a, e, f):
    v = E.val(o)
    t = e['t'] if e else 'void'
    return E.callv(v, a, t)


@fn('std::bind')
def _bind(E, o, a, e, f):
    raise Unsupported('std::bind')


@fn('std::invoke')
def _invoke(E, o, a, e, f):
    return E.callv(E.val(a[0]), a[1:], e['t'])


def call_sym(E, f, args, t):
    """call of an unknown user callback."""
    if E.opts.get('sym_empty_throws') and not E.branch(fn_nonempty(E, f)):
        raise Throw(Op('exc', 'std::bad_function_call'))
    h = E.opts.get('call_sym')
    if h:
        r = h(E, f, args, t)
        if r is not NotImplemented:
            return r
    vals = []
    for x in args:
        v = E.val(x)
        vals.append(v if isinstance(v, (V, z3.ExprRef)) else Op('none'))
    E.event('callback', f.node, Op('idx', *f.extra), *vals)
    E.bump()
    if t is None or E.p.kind(t) == 'void':
        return None
    return E.fresh(t, E.new('cb'))


# ------------------------------------------------------------------ algorithms
def over(E, a, f, need_lv=False):
    b, e = E.val(a[0]), E.val(a[1])
    c = E.val(b.c)
    if isinstance(c, S):
        n = slen(E, c)
        lo, hi = b.pos[1], e.pos[1]
        return loops.run_loop(E, simp(hi - lo), lambda j: f(it_deref(E, It(b.c, ('idx', simp(lo + j)), b.rev)), simp(lo + j)))
    if isinstance(c, Vec):
        n = E.vlen(c)
        if simp(b.pos[1]).eq(z3.IntVal(0)) and (simp(e.pos[1]).eq(n) or E.implied(e.pos[1] == n)):
            if b.rev:
                raise Unsupported('reverse iteration')
            return loops.iterate(E, b.c, f, need_lv)
        lo = b.pos[1]
        return loops.run_loop(E, simp(e.pos[1] - lo), lambda j: f(it_deref(E, It(b.c, ('idx', simp(lo + j)), b.rev)), simp(lo + j)))
    if isinstance(c, Map):
        range_of(E, b, e)
        return loops.iterate(E, b.c, f, need_lv)
    raise Unsupported('algorithm range')


@fn('std::for_each')
def _for_each(E, o, a, e, f):
    g = E.val(a[2])

    def one(el, _):
        E.callv(g, [el], 'void')
    over(E, a, one)
    return g


@fn('std::any_of', 'std::all_of', 'std::none_of')
def _any_of(E, o, a, e, f):
    g = E.val(a[2])
    nm = f['base']
    want = nm != 'all_of'
    # pure predicate: direct quantified formula
    res = E.alloc(z3.BoolVal(nm != 'any_of'), '$alg')

    def one(el, _):
        r = E.tobool(E.val(E.callv(g, [el], 'bool')))
        if E.branch(r) == want:
            E.write(res, z3.BoolVal(nm == 'any_of'))
            raise BreakX()
    over(E, a, one)
    return E.read(res)


@fn('std::find_if', 'std::find_if_not', 'std::find')
def _find_if(E, o, a, e, f):
    g = E.val(a[2])
    b = E.val(a[0])
    en = E.val(a[1])
    c = E.val(b.c)
    if isinstance(c, Map):
        n, kf = E.mapenum(c)
        res = E.alloc(n, '$alg')
    else:
        res = E.alloc(en.pos[1], '$alg')

    def one(el, j):
        if f['base'] == 'find':
            r = E.eq(E.val(el), g)
        else:
            r = E.tobool(E.val(E.callv(g, [el], 'bool')))
        if E.branch(r) == (f['base'] != 'find_if_not'):
            E.write(res, j)
            raise BreakX()
    over(E, a, one)
    r = E.read(res)
    if isinstance(c, Map):
        return It(b.c, ('idx', r))
    return It(b.c, ('idx', r), b.rev)


@fn('std::count_if', 'std::count')
def _count_if(E, o, a, e, f):
    g = E.val(a[2])
    res = E.alloc(z3.IntVal(0), '$alg')

    def one(el, _):
        r = E.eq(E.val(el), g) if f['base'] == 'count' else E.tobool(E.val(E.callv(g, [el], 'bool')))
        if E.branch(r):
            E.write(res, E.read(res) + 1)
    over(E, a, one)
    return E.read(res)


@fn('std::back_inserter', 'std::inserter')
def _back_ins(E, o, a, e, f):
    return Op('backins', a[0])


@fn('std::transform', 'std::copy', 'std::copy_if', 'std::move_')
def _transform(E, o, a, e, f):
    nm = f['base']
    dst = E.val(a[2])
    if not (isinstance(dst, Op) and dst.tag == 'backins'):
        if nm == 'transform' and isinstance(dst, It):
            raise Unsupported('in-place transform')
        raise Unsupported('algorithm output')
    lv = dst.d[0]
    g = E.val(a[3]) if len(a) > 3 else None

    def one(el, _):
        v = E.val(el)
        if nm == 'transform':
            v = E.val(E.callv(g, [el], 'auto'))
        elif nm == 'copy_if' and not E.branch(E.tobool(E.val(E.callv(g, [el], 'bool')))):
            return
        c = E.read(lv)
        if isinstance(c, Map):
            if c.vty is None:
                E.write(lv, Map(('ins', c.node, keyval(E, c, v), None), c.kty, c.vty))
            else:
                E.write(lv, Map(('ins', c.node, keyval(E, c, deref2(E, v.f['first'])), deref2(E, v.f['second'])), c.kty, c.vty))
        else:
            E.write(lv, Vec(c.segs + (U(v),)))
    over(E, a, one)
    return dst


@fn('std::accumulate')
def _accum(E, o, a, e, f):
    acc = E.alloc(E.val(a[2]), '$acc')
    g = E.val(a[3]) if len(a) > 3 else None

    def one(el, _):
        if g is None:
            x, y = E.read(acc), E.val(el)
            E.write(acc, S((x, y)) if isinstance(x, S) else E.binop('+', x, y))
        else:
            E.write(acc, E.val(E.callv(g, [E.read(acc), el], 'auto')))
    over(E, a, one)
    return E.read(acc)


@fn('std::min', 'std::max')
def _minmax(E, o, a, e, f):
    x, y = E.val(a[0]), E.val(a[1])
    return z3.If((x <= y) if f['base'] == 'min' else (x >= y), x, y)


@fn('std::regex_match', 'std::regex_search')
def _regex(E, o, a, e, f):
    s = SV(E, a[0])
    r = E.val(a[-2]) if len(a) > 1 else None
    for x in a[1:]:
        v = E.val(x)
        if isinstance(v, Op) and v.tag == 'regex':
            r = v
    return z3.Function(f['base'], Str, Str, B)(s.term(), r.d[0].term())


@fn('std::basic_regex::(ctor)')
def _regexc(E, o, a, e, f):
    return Op('regex', SV(E, a[0]))


# ------------------------------------------------------------------ filesystem
def EC(t):
    return Rec('$ec', {'v': t})


@fn('std::error_code::(ctor)')
def _ec(E, o, a, e, f):
    return EC(z3.IntVal(0))


@fn('std::error_code::value')
def _ecv(E, o, a, e, f):
    return E.val(o).f['v']


@fn('std::error_code::operator bool')
def _ecb(E, o, a, e, f):
    return E.val(o).f['v'] != 0


@fn('std::error_code::message')
def _ecm(E, o, a, e, f):
    return S((E.uf(E.new('ecmsg'), Str),))


@fn('std::error_code::clear')
def _ecc(E, o, a, e, f):
    E.write(E.loc(o), EC(z3.IntVal(0)))


@fn('std::filesystem::exists', 'std::filesystem::is_directory', 'std::filesystem::is_regular_file', 'std::filesystem::is_empty')
def _exists(E, o, a, e, f):
    r = z3.Function('fs.' + f['base'], Str, I, B)(SV(E, a[0]).term(), E.epoch())
    if len(a) > 1 and is_lv(a[1]):
        err = z3.Function('fs.' + f['base'] + '.err', Str, I, I)(SV(E, a[0]).term(), E.epoch())
        E.write(a[1], EC(err))
        E.axiom(E.closed_all(Implies(err != 0, Not(r))))
    elif E.opts.get('fs_throws') and E.branch(z3.Function('fs.' + f['base'] + '.err', Str, I, I)(SV(E, a[0]).term(), E.epoch()) != 0):
        raise Throw(Op('exc', 'std::filesystem::filesystem_error'))
    return r


@fn('std::filesystem::last_write_time')
def _lwt(E, o, a, e, f):
    p = SV(E, a[0]).term()
    ok = hasm_f(p, E.epoch())
    if len(a) > 1:
        E.write(a[1], EC(z3.If(ok, z3.IntVal(0), z3.IntVal(2))))
    elif not E.branch(ok):
        raise Throw(Op('exc', 'std::filesystem::filesystem_error'))
    return Op('time', mtime_f(p, E.epoch()))


@fn('std::chrono::time_point::time_since_epoch')
def _tse(E, o, a, e, f):
    return E.val(o)


@fn('std::chrono::duration::count')
def _dcount(E, o, a, e, f):
    return E.val(o).d[0]


@fn('std::filesystem::file_size')
def _fsize(E, o, a, e, f):
    return z3.Function('fs.size', Str, I, I)(SV(E, a[0]).term(), E.epoch())


@fn('std::filesystem::create_directories', 'std::filesystem::create_directory')
def _mkdirs(E, o, a, e, f):
    E.event('mkdir', SV(E, a[0]))
    if len(a) > 1 and is_lv(a[1]):
        E.write(a[1], EC(E.uf(E.new('mkdirerr'), I)))
    return E.uf(E.new('mkdir'), B)


@fn('std::filesystem::remove_all', 'std::filesystem::remove')
def _rm(E, o, a, e, f):
    E.event('remove', SV(E, a[0]))
    E.bump()
    return E.uf(E.new('rm'), I if f['base'] == 'remove_all' else B)


@fn('std::filesystem::current_path')
def _cwd(E, o, a, e, f):
    return S((z3.Const('cwd', Str),))


@fn('std::filesystem::directory_iterator::(ctor)', 'std::filesystem::recursive_directory_iterator::(ctor)')
def _dirit(E, o, a, e, f):
    if not a:
        return Op('dirend')
    v = E.val(a[0])
    if isinstance(v, Op) and v.tag == 'dirit':
        return v
    p = SV(E, a[0])
    if len(a) > 1 and is_lv(a[-1]):
        E.write(a[-1], EC(z3.Function('fs.direrr', Str, I, I)(p.term(), E.epoch())))
    elif not E.branch(z3.Function('fs.direrr', Str, I, I)(p.term(), E.epoch()) == 0):
        raise Throw(Op('exc', 'std::filesystem::filesystem_error'))
    return Op('dirit', p, E.epoch())


def iterable(E, v):
    if v.tag == 'dirit':
        b = z3.Function('dirn', Str, I, I)(v.d[0].term(), v.d[1])
        E.axiom(E.closed_all(b >= 0))
        j = z3.Int(E.new('de'))
        el = Op('direntry', S((z3.Function('dirent', Str, I, I, Str)(v.d[0].term(), v.d[1], j),)), v.d[1])
        return Vec((FM(b, j, [(TRUE, (U(el),))]),))
    return None


@fn('std::filesystem::begin', 'std::filesystem::end')
def _dirbe(E, o, a, e, f):
    return E.val(a[0])


@fn('std::filesystem::directory_entry::path', 'std::filesystem::directory_entry::operator const std::filesystem::path &')
def _depath(E, o, a, e, f):
    return E.val(o).d[0]


@fn('std::filesystem::directory_entry::is_directory', 'std::filesystem::directory_entry::is_regular_file', 'std::filesystem::directory_entry::exists')
def _deis(E, o, a, e, f):
    v = E.val(o)
    r = z3.Function('fs.' + f['base'], Str, I, B)(v.d[0].term(), v.d[1])
    err = z3.Function('fs.' + f['base'] + '.err', Str, I, I)(v.d[0].term(), v.d[1])
    if a and is_lv(a[0]):
        E.write(a[0], EC(err))
        E.axiom(E.closed_all(Implies(err != 0, Not(r))))
    elif E.opts.get('fs_throws') and E.branch(err != 0):
        raise Throw(Op('exc', 'std::filesystem::filesystem_error'))
    return r


@fn('getenv', 'std::getenv')
def _getenv(E, o, a, e, f):
    s = SV(E, a[0]).term()
    return Ptr(Not(z3.Function('env.has', Str, B)(s)), S((z3.Function('env.val', Str, Str)(s),)))


@fn('std::thread::hardware_concurrency')
def _hwc(E, o, a, e, f):
    return z3.Int('hwc')


# ------------------------------------------------------------------ fmt
def display(E, s):
    n = norm(E, s)
    return S((disp_f(n.term()),))


def fmt_arg(E, v, t):
    v = E.val(v)
    if isinstance(v, S):
        if 'filesystem' in (t or ''):
            return display(E, v)
        return v
    if isinstance(v, Ptr) and isinstance(v.tgt, S):
        return v.tgt
    if isinstance(v, Op) and v.tag == 'join':
        return join(E, v.d[0], v.d[1], v.d[2])
    if isinstance(v, Op) and v.tag == 'direntry':
        return display(E, v.d[0])
    if isinstance(v, z3.ExprRef):
        base = parse_ty(t or '')[0]
        if v.sort() == B:
            return S((z3.If(v, lit('true'), lit('false')),))
        if base == 'char':
            return SV(E, v)
        if base in E.p.enums:
            return S((z3.Function('fmt:' + base, I, Str)(v),))
        return S((str(v.as_long()),)) if z3.is_int_value(v) else S((i2s_f(v),))
    if isinstance(v, Rec):
        return S((E.uf('fmtrec:%d' % intern_key(v.key()), Str, ()),))
    raise Unsupported('format argument %r' % type(v).__name__)


@fn('fmt::join')
def _join(E, o, a, e, f):
    v = E.val(a[0])
    if isinstance(v, It):
        v = range_of(E, v, E.val(a[1]))
        sep = SV(E, a[2])
        et = ''
    else:
        sep = SV(E, a[1])
    t = e['args'][0].get('t', '') if e else ''
    b, ta, q = parse_ty(t)
    et = ta[0] if ta else ''
    return Op('join', v, sep, et)


def join(E, v, sep, et):
    if isinstance(v, Map):
        v = _vctor(E, None, [It(E.alloc(v), ('idx', z3.IntVal(0))), It(E.alloc(v), ('end',))], None, None)
    if not v.segs:
        return S()
    if all(isinstance(s, U) for s in v.segs):
        out = []
        for n, s in enumerate(v.segs):
            if n:
                out.append(sep)
            out.append(fmt_arg(E, s.v, et))
        return S(tuple(out))
    # canonical fold
    fr = free_ix(v)
    outer = [x for x in E.idx if any(x.eq(y) for y in fr.values())]
    op = [(x, z3.Int('$o%d' % q)) for q, x in enumerate(outer)]
    kb = z3.Int('$b0')
    ks = []
    for s in v.segs:
        if isinstance(s, U):
            ks.append(('u', subst(fmt_arg(E, s.v, et), op).key()))
        elif isinstance(s, Base) or regular(s):
            if isinstance(s, Base):
                cs = ((TRUE, E.elem(s, kb)),)
            else:
                cs = tuple((z3.substitute(c, (s.iv, kb)), subst(ss[0].v, [(s.iv, kb)])) for c, ss in s.cases)
            ks.append(('l', tid(simp(z3.substitute(E.seglen(s), *op)) if op else simp(E.seglen(s))),
                       tuple(sorted((tid(simp(z3.substitute(c, *op)) if op else simp(c)), subst(fmt_arg(E, x, et), op).key()) for c, x in cs))))
        elif isinstance(s, FM):
            ks.append(('f', subst(s, op).key()))
        else:
            raise Unsupported('join')
    nm = 'join:%d' % intern_key(('join', tuple(ks), sep.key()))
    t = E.uf(nm, Str, outer)
    E.joins = getattr(E, 'joins', {})
    E.joins[nm] = (v, sep, et)
    emp = E.vempty(v)
    E.axiom(E.closed_all(Implies(emp, t == lit(''))))
    return S((t,))


@fn('fmt::arg')
def _farg(E, o, a, e, f):
    t = e['args'][1].get('t', '') if e else ''
    return Op('farg', SV(E, a[0]), fmt_arg(E, a[1], t))


@fn('fmt::format')
def _format(E, o, a, e, f):
    pat = SV(E, a[0]).conc()
    ts = [x.get('t', '') for x in e['args'][1:]] if e else [''] * len(a)
    if pat is None:
        raise Unsupported('format with dynamic pattern')
    pos, named = [], {}
    for x, t in zip(a[1:], ts):
        v = E.val(x)
        if isinstance(v, Op) and v.tag == 'farg':
            named[v.d[0].conc()] = v.d[1]
        else:
            pos.append((x, t))
    out, k, i = [], 0, 0
    while i < len(pat):
        c = pat[i]
        if c == '{':
            if i + 1 < len(pat) and pat[i + 1] == '{':
                out.append('{')
                i += 2
                continue
            j = pat.index('}', i)
            nm = pat[i + 1:j]
            if nm == '':
                x, t = pos[k]
                k += 1
                out.append(fmt_arg(E, x, t))
            elif nm.isdigit():
                out.append(fmt_arg(E, *pos[int(nm)]))
            elif nm in named:
                out.append(named[nm])
            else:
                raise Unsupported('format spec {%s}' % nm)
            i = j + 1
            continue
        if c == '}' and i + 1 < len(pat) and pat[i + 1] == '}':
            out.append('}')
            i += 2
            continue
        out.append(c)
        i += 1
    return S(tuple(out))


@fn('fmt::dynamic_format_arg_store::(ctor)')
def _dfas(E, o, a, e, f):
    return Vec()


@fn('fmt::dynamic_format_arg_store::push_back')
def _dfaspush(E, o, a, e, f):
    lv = E.loc(o)
    v = E.read(lv)
    E.write(lv, Vec(v.segs + (U(E.val(a[0])),)))


@fn('fmt::basic_format_args::(ctor)')
def _bfa(E, o, a, e, f):
    return E.val(a[0])


@fn('fmt::vformat')
def _vformat(E, o, a, e, f):
    """named-argument formatting: first argument with the name wins; a missing name or a malformed pattern throws."""
    pat, args = SV(E, a[0]), E.val(a[1])
    if pat.conc() is not None and isinstance(args, Vec) and all(isinstance(s, U) and isinstance(s.v, Op) and s.v.tag == 'farg' and s.v.d[0].conc() is not None for s in args.segs):
        r = named_subst(pat.conc(), [(s.v.d[0].conc(), s.v.d[1]) for s in args.segs])
        if r is None:
            raise Throw(Op('exc', 'fmt::format_error'))
        return r
    nm = E.new('vformat')
    ok = E.uf(nm + '.ok', B)
    E.event('vformat', pat, args, S((E.uf(nm, Str),)), ok)
    if not E.branch(ok):
        raise Throw(Op('exc', 'fmt::format_error'))
    r = S((E.uf(nm, Str),))
    return r


def named_subst(pat, args):
    """fmt's named substitution for a known pattern: first argument of that name; None if it throws."""
    out, i = S(()), 0
    while i < len(pat):
        c = pat[i]
        if c in '{}' and pat[i:i + 2] == c * 2:
            out, i = S((out, c)), i + 2
        elif c == '{':
            j = pat.find('}', i)
            hit = [v for n, v in args if j > 0 and n == pat[i + 1:j]]
            if not hit:
                return None
            out, i = S((out, hit[0])), j + 1
        elif c == '}':
            return None
        else:
            j = i
            while j < len(pat) and pat[j] not in '{}':
                j += 1
            out, i = S((out, pat[i:j])), j
    return out


# ------------------------------------------------------------------ typeid, misc
@fn('std::type_info::name')
def _tiname(E, o, a, e, f):
    v = E.val(o)
    return S(('typeid:' + v.d[0],))


@fn('std::type_info::operator==')
def _tieq(E, o, a, e, f):
    return z3.BoolVal(E.val(o).d[0] == E.val(a[0]).d[0])


@fn('std::this_thread::get_id')
def _tid(E, o, a, e, f):
    return z3.Int('thread_id')


def copy_hook(E, f, v):
    return None


def globals_hook(E, i, g):
    if g['name'] in ('std::nullopt',):
        return Op('nullopt')
    if g['name'].startswith('std::ios_base::'):
        m = {'app': 1, 'ate': 2, 'binary': 4, 'in': 8, 'out': 16, 'trunc': 32}.get(g['name'].split('::')[-1])
        if m is not None:
            return z3.IntVal(m)
    if g['name'].startswith('std::') and not g.get('init'):
        if g['name'].endswith('npos'):
            return NPOS
        return Op('glob:' + g['name'])
    h = E.opts.get('globals', {}).get(g['name'])
    if h is not None:
        return h(E) if callable(h) else h
    if g['name'].endswith('::npos'):
        return NPOS
    return None


def deref_hook(E, p):
    h = E.opts.get('deref')
    return h(E, p) if h else None

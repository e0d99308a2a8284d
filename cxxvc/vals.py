"""Symbolic C++ values of the cxxvc verifier.

All values are immutable data (no Python closures), so that loop summaries can
be instantiated by substitution.  Scalars are z3 terms; strings/paths are
flattened concatenations over an uninterpreted sort; vectors are sequences of
segments; maps and sets are chains of updates with first-order membership."""
import z3
from functools import lru_cache

Str = z3.DeclareSort('Str')
Opq = z3.DeclareSort('Opq')
B = z3.BoolSort()
I = z3.IntSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
KEEP = {}          # keeps terms alive so that ids stay unique


class Unsupported(Exception):
    """The construct is outside the verifier's reach (tool limit, not a verdict)."""


def tid(t):
    i = t.get_id()
    KEEP[i] = t
    return i


LITS = {}


def lit(s):
    if s not in LITS:
        LITS[s] = z3.Const('"' + s + '"', Str)
    return LITS[s]


cat = z3.Function('str.cat', Str, Str, Str)
ch2str = z3.Function('str.of_char', I, Str)


class V:
    __slots__ = ('_k',)

    def key(self):
        k = getattr(self, '_k', None)
        if k is None:
            k = self._key()
            self._k = k
        return k


class S(V):
    """string / string_view / const char* / fs::path."""
    __slots__ = ('parts',)

    def __init__(self, parts=()):
        out = []
        for p in parts:
            if isinstance(p, S):
                q = p.parts
            else:
                q = (p,)
            for x in q:
                if isinstance(x, str):
                    if x == '':
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += x
                        continue
                elif z3.is_const(x) and x.decl().name() in _LITREV():
                    s = _LITREV()[x.decl().name()]
                    if s == '':
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += s
                        continue
                    x = s
                out.append(x)
        self.parts = tuple(out)

    def _key(self):
        return ('S',) + tuple(p if isinstance(p, str) else tid(p) for p in self.parts)

    def term(self):
        ps = [lit(p) if isinstance(p, str) else p for p in self.parts]
        if not ps:
            return lit('')
        t = ps[-1]
        for p in reversed(ps[:-1]):
            t = cat(p, t)
        return t

    def conc(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __repr__(self):
        return 'S(%s)' % ' ++ '.join(repr(p) if isinstance(p, str) else str(p) for p in self.parts)


class _LR(dict):
    pass


def _LITREV():
    return LitRev


class _LitRevMap:
    def __contains__(self, n):
        return len(n) >= 2 and n[0] == '"' and n[-1] == '"' and n[1:-1] in LITS

    def __getitem__(self, n):
        return n[1:-1]


LitRev = _LitRevMap()


class Rec(V):
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = f

    def _key(self):
        return ('R', self.ty) + tuple((k, key(self.f[k])) for k in sorted(self.f))

    def set(self, n, v):
        g = dict(self.f)
        g[n] = v
        return Rec(self.ty, g)

    def __repr__(self):
        return 'Rec<%s>%r' % (self.ty, self.f)


class LV(V):
    """Location: store root plus a path of ('f',field) ('e',index) ('m',key) ('o',)."""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def __add__(self, el):
        return LV(self.root, self.path + (el,))

    def _key(self):
        return ('LV', self.root) + tuple((e[0],) + tuple(key(x) if not isinstance(x, str) else x for x in e[1:]) for e in self.path)

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, ''.join('.' + ':'.join(map(str, e)) for e in self.path))


class RefV(V):
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def _key(self):
        return ('Ref', self.lv.key())


class Ptr(V):
    """Pointer: null condition plus target (LV, S for char data, or None)."""
    __slots__ = ('null', 'tgt')

    def __init__(self, null, tgt=None):
        self.null = null
        self.tgt = tgt

    def _key(self):
        return ('P', tid(self.null), key(self.tgt) if self.tgt is not None else None)

    def __repr__(self):
        return 'Ptr(%s,%r)' % (self.null, self.tgt)


NULL = Ptr(TRUE, None)


class Opt(V):
    __slots__ = ('has', 'val')

    def __init__(self, has, val):
        self.has = has
        self.val = val

    def _key(self):
        return ('O', tid(self.has), key(self.val) if self.val is not None else None)


class Op(V):
    """Opaque value of a library type: tag, plus data fields."""
    __slots__ = ('tag', 'd')

    def __init__(self, tag, *d):
        self.tag = tag
        self.d = d

    def _key(self):
        return ('Op', self.tag) + tuple(key(x) for x in self.d)

    def __repr__(self):
        return 'Op(%s,%s)' % (self.tag, ','.join(map(repr, self.d)))


class Fn(V):
    """Callable: ('lam', node, captures, this) | ('fn', usr) | ('sym', name, idx) | ('empty',) | ('obj', value)."""
    __slots__ = ('kind', 'node', 'caps', 'this', 'extra')

    def __init__(self, kind, node=None, caps=(), this=None, extra=()):
        self.kind = kind
        self.node = node
        self.caps = caps      # tuple of (id, byref, value-or-LV)
        self.this = this
        self.extra = extra

    def _key(self):
        n = self.node if isinstance(self.node, str) else id(self.node)
        return ('Fn', self.kind, n, tuple((a, b, key(c)) for a, b, c in self.caps),
                key(self.this) if self.this is not None else None, tuple(key(x) for x in self.extra))


class It(V):
    """Iterator: container location (or value), position kind.
    pos: ('idx', term) | ('key', keyvalue, mem) | ('end',)"""
    __slots__ = ('c', 'pos', 'rev')

    def __init__(self, c, pos, rev=False):
        self.c = c
        self.pos = pos
        self.rev = rev

    def _key(self):
        return ('It', key(self.c), self.pos[0], tuple(key(x) for x in self.pos[1:]), self.rev)


# ---------------------------------------------------------------- vectors
class Seg(V):
    __slots__ = ()


class U(Seg):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def _key(self):
        return ('U', key(self.v))

    def __repr__(self):
        return 'U(%r)' % (self.v,)


class Base(Seg):
    __slots__ = ('name', 'ety', 'idx')

    def __init__(self, name, ety, idx=()):
        self.name = name
        self.ety = ety
        self.idx = idx

    def _key(self):
        return ('B', self.name, tuple(tid(i) for i in self.idx))

    def n(self):
        return z3.Function('len:' + self.name, *[i.sort() for i in self.idx], I)(*self.idx)

    def __repr__(self):
        return 'Base(%s%s)' % (self.name, list(self.idx) or '')


class FM(Seg):
    """for ivar in 0..n-1: the segments of the (unique) case whose condition holds."""
    __slots__ = ('n', 'iv', 'cases')

    def __init__(self, n, iv, cases):
        self.n = n
        self.iv = iv
        self.cases = tuple(cases)     # ((cond, (segs...)), ...)

    def _key(self):
        b = z3.Int('$b%d' % depth(self))
        cs = []
        for c, ss in self.cases:
            cs.append((tid(z3.simplify(z3.substitute(c, (self.iv, b)))), tuple(key(subst(s, [(self.iv, b)])) for s in ss)))
        return ('FM', tid(z3.simplify(self.n)), tuple(cs))

    def __repr__(self):
        return 'FM(%s<%s: %s)' % (self.iv, self.n, '; '.join('%s->%r' % (c, ss) for c, ss in self.cases))


def depth(v):
    d = 0
    if isinstance(v, FM):
        for _, ss in v.cases:
            for s in ss:
                d = max(d, 1 + depth(s))
    elif isinstance(v, U):
        d = depth(v.v)
    elif isinstance(v, Rec):
        for x in v.f.values():
            d = max(d, depth(x))
    elif isinstance(v, Vec):
        for s in v.segs:
            d = max(d, depth(s))
    elif isinstance(v, SIte):
        for s in v.a + v.b:
            d = max(d, depth(s))
    elif isinstance(v, (Op,)):
        for x in v.d:
            if isinstance(x, V):
                d = max(d, depth(x))
    elif isinstance(v, Opt) and v.val is not None:
        d = depth(v.val)
    elif isinstance(v, Fn):
        for _, _, c in v.caps:
            d = max(d, depth(c))
        for c in v.extra:
            if isinstance(c, V):
                d = max(d, depth(c))
    return d


class SIte(Seg):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = tuple(a)
        self.b = tuple(b)

    def _key(self):
        return ('SI', tid(self.c), tuple(key(x) for x in self.a), tuple(key(x) for x in self.b))


class Head(Seg):
    """Unknown value of a loop-modified container at the head of iteration iv."""
    __slots__ = ('hid', 'iv', 'pre')

    def __init__(self, hid, iv, pre):
        self.hid = hid
        self.iv = iv
        self.pre = pre

    def _key(self):
        return ('H', self.hid, tid(self.iv))


class PutSeg(Seg):
    """A whole vector with element i replaced (only inside loop bodies)."""
    __slots__ = ('vec', 'i', 'v')

    def __init__(self, vec, i, v):
        self.vec = vec
        self.i = i
        self.v = v

    def _key(self):
        return ('Put', key(self.vec), tid(self.i), key(self.v))


class Vec(V):
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if isinstance(s, FM):
                if z3.is_int_value(s.n) and s.n.as_long() <= 0:
                    continue
                cs = tuple((c, ss) for c, ss in s.cases if not z3.is_false(c))
                if not any(ss for c, ss in cs):
                    continue
            out.append(s)
        self.segs = tuple(out)

    def _key(self):
        return ('V',) + tuple(key(s) for s in self.segs)

    def __repr__(self):
        return 'Vec%r' % (self.segs,)


def regular(seg):
    return isinstance(seg, FM) and all(len(ss) == 1 and isinstance(ss[0], U) for _, ss in seg.cases)


# ---------------------------------------------------------------- maps
class Map(V):
    """Map or set. node: ('E',) | ('B',name,kty,vty,idx) | ('put',prev,k,v) | ('ins',prev,k,v) |
    ('del',prev,k) | ('loop',prev,op,n,iv,cases,w) with cases ((cond,k,v),...) | ('head',hid,iv,prevnode) |
    ('ite',c,a,b) | ('mapv', prev, n..) value-updates"""
    __slots__ = ('node', 'kty', 'vty')

    def __init__(self, node, kty, vty):
        self.node = node
        self.kty = kty
        self.vty = vty

    def _key(self):
        return ('M', nkey(self.node))

    def __repr__(self):
        return 'Map%r' % (self.node,)


def lit_key(k):
    """literal key value, or None."""
    if isinstance(k, S):
        return k.conc()
    if isinstance(k, z3.ExprRef) and z3.is_int_value(k):
        return k.as_long()
    return None


def node_put(n, k, v):
    """overwrite the entry of key k; writes to the same key are merged, literal keys are written in place."""
    if n[0] == 'put' and key(n[2]) == key(k):
        return ('put', n[1], n[2], v)
    c = lit_key(k)
    if c is not None:
        # look for k in a chain of writes to distinct literal keys
        m, seen = n, []
        while m[0] in ('put', 'ins') and lit_key(m[2]) is not None and lit_key(m[2]) not in seen:
            seen.append(lit_key(m[2]))
            m = m[1]
        if m[0] == 'E' and c in seen:
            def go(x):
                if lit_key(x[2]) == c:
                    return ('put', x[1], x[2], v)
                return (x[0], go(x[1]), x[2], x[3])
            return go(n)
    return ('put', n, k, v)


def nkey(n):
    k = n[0]
    if k == 'E':
        return ('E',)
    if k == 'B':
        return ('B', n[1], tuple(tid(i) for i in n[4]))
    if k in ('put', 'ins'):
        return (k, nkey(n[1]), key(n[2]), key(n[3]) if n[3] is not None else None)
    if k == 'del':
        return (k, nkey(n[1]), key(n[2]))
    if k == 'loop':
        b = z3.Int('$m')
        return (k, nkey(n[1]), n[2], tid(n[3]), tuple((tid(z3.substitute(c, (n[4], b))), key(subst(kk, [(n[4], b)])),
                key(subst(v, [(n[4], b)])) if v is not None else None) for c, kk, v in n[5]))
    if k == 'head':
        return (k, n[1], tid(n[2]))
    if k == 'ite':
        return (k, tid(n[1]), nkey(n[2]), nkey(n[3]))
    if k == 'filt':
        return (k, nkey(n[1]), n[2]) + tuple(tid(x) for x in n[3])
    if k == 'pw':
        b = z3.Const('$pm', n[3].sort())
        return (k, nkey(n[1]), n[2], tid(z3.substitute(n[4], (n[3], b))), tuple((tid(z3.substitute(c, (n[3], b))), key(subst(v, [(n[3], b)])) if v is not None else None) for c, v in n[5]))
    if k == 'vals':
        return (k, nkey(n[1]), tid(n[2]), key(subst(n[4], [(n[3], z3.Int('$m'))])))
    raise Unsupported('map node ' + k)


def key(v):
    if isinstance(v, V):
        return v.key()
    if isinstance(v, z3.ExprRef):
        return tid(v)
    if isinstance(v, tuple):
        return tuple(key(x) for x in v)
    return v


# ------------------------------------------------------------ substitution
def subst(v, pairs, heads=None):
    """Replace z3 terms (pairs) and loop heads (heads: hid -> fn(iv_term) -> segs / node)."""
    def go(x):
        if x is None or isinstance(x, (str, int, bool)):
            return x
        if isinstance(x, z3.ExprRef):
            return z3.substitute(x, *pairs) if pairs else x
        if isinstance(x, S):
            return S(tuple(p if isinstance(p, str) else go(p) for p in x.parts))
        if isinstance(x, Rec):
            return Rec(x.ty, {k: go(y) for k, y in x.f.items()})
        if isinstance(x, LV):
            return LV(x.root, tuple((e[0],) + tuple(go(y) for y in e[1:]) for e in x.path))
        if isinstance(x, RefV):
            return RefV(go(x.lv))
        if isinstance(x, Ptr):
            return Ptr(go(x.null), go(x.tgt))
        if isinstance(x, Opt):
            return Opt(go(x.has), go(x.val))
        if isinstance(x, Op):
            return Op(x.tag, *[go(y) for y in x.d])
        if isinstance(x, Fn):
            return Fn(x.kind, x.node, tuple((a, b, go(c)) for a, b, c in x.caps), go(x.this), tuple(go(y) for y in x.extra))
        if isinstance(x, It):
            return It(go(x.c), (x.pos[0],) + tuple(go(y) for y in x.pos[1:]), x.rev)
        if isinstance(x, Vec):
            return Vec(gosegs(x.segs))
        if isinstance(x, Seg):
            r = gosegs((x,))
            if len(r) == 1:
                return r[0]
            raise Unsupported('seg subst')
        if isinstance(x, Map):
            return Map(gonode(x.node), x.kty, x.vty)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        raise Unsupported('subst %r' % type(x))

    def gosegs(ss):
        out = []
        for s in ss:
            if isinstance(s, U):
                out.append(U(go(s.v)))
            elif isinstance(s, Base):
                out.append(Base(s.name, s.ety, tuple(go(i) for i in s.idx)))
            elif isinstance(s, FM):
                out.append(FM(go(s.n), s.iv, [(go(c), tuple(gosegs(q))) for c, q in s.cases]))
            elif isinstance(s, SIte):
                out.append(SIte(go(s.c), gosegs(s.a), gosegs(s.b)))
            elif isinstance(s, Head):
                if heads and s.hid in heads:
                    out.extend(heads[s.hid](go(s.iv)))
                else:
                    out.append(Head(s.hid, go(s.iv), s.pre))
            elif isinstance(s, PutSeg):
                out.append(PutSeg(go(s.vec), go(s.i), go(s.v)))
            else:
                raise Unsupported('seg')
        return tuple(out)

    def gonode(n):
        k = n[0]
        if k == 'E':
            return n
        if k == 'B':
            return n[:4] + (tuple(go(i) for i in n[4]),)
        if k in ('put', 'ins'):
            return (k, gonode(n[1]), go(n[2]), go(n[3]))
        if k == 'del':
            return (k, gonode(n[1]), go(n[2]))
        if k == 'loop':
            return (k, gonode(n[1]), n[2], go(n[3]), n[4], tuple((go(c), go(a), go(b)) for c, a, b in n[5])) + n[6:]
        if k == 'head':
            if heads and n[1] in heads:
                return heads[n[1]](go(n[2]))
            return (k, n[1], go(n[2]), n[3])
        if k == 'ite':
            return (k, go(n[1]), gonode(n[2]), gonode(n[3]))
        if k == 'filt':
            return (k, gonode(n[1]), n[2], tuple(go(x) for x in n[3]))
        if k == 'pw':
            return (k, gonode(n[1]), n[2], n[3], go(n[4]), tuple((go(c), go(v)) for c, v in n[5]))
        if k == 'vals':
            return (k, gonode(n[1]), go(n[2]), n[3], go(n[4])) + n[5:]
        raise Unsupported('node')
    return go(v)


def simp(c):
    return z3.simplify(c)


def And(*cs):
    cs = [c for c in cs if not z3.is_true(c)]
    if any(z3.is_false(c) for c in cs):
        return FALSE
    if not cs:
        return TRUE
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def Or(*cs):
    cs = [c for c in cs if not z3.is_false(c)]
    if any(z3.is_true(c) for c in cs):
        return TRUE
    if not cs:
        return FALSE
    return cs[0] if len(cs) == 1 else z3.Or(*cs)


def Not(c):
    if z3.is_true(c):
        return FALSE
    if z3.is_false(c):
        return TRUE
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


# ---------------------------------------------------------------- types
@lru_cache(None)
def parse_ty(t):
    """canonical type string -> (base, args, quals) quals: string of '&','*' suffixes outer last"""
    t = t.strip()
    q = ''
    while True:
        if t.endswith('&&'):
            q = '&' + q
            t = t[:-2].strip()
        elif t.endswith('&'):
            q = '&' + q
            t = t[:-1].strip()
        elif t.endswith('*'):
            q = '*' + q
            t = t[:-1].strip()
        elif t.endswith(' const') or t.endswith('*const'):
            t = t[:-5].strip()
        else:
            break
    while t.startswith('const ') or t.startswith('volatile ') or t.startswith('enum ') or t.startswith('struct ') or t.startswith('class '):
        t = t.split(' ', 1)[1].strip()
    if t.endswith('>') and '<' in t:
        d = 0
        for i in range(len(t) - 1, -1, -1):
            if t[i] == '>':
                d += 1
            elif t[i] == '<':
                d -= 1
                if d == 0:
                    break
        base, inner = t[:i], t[i + 1:-1]
        args, cur, d = [], '', 0
        for ch in inner:
            if ch in '<(':
                d += 1
            elif ch in '>)':
                d -= 1
            if ch == ',' and d == 0:
                args.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            args.append(cur.strip())
        return base, tuple(args), q
    return t, (), q


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char',
        'long long', 'unsigned long long', 'size_t', 'std::size_t', 'uint8_t', '__int128'}
STRS = {'std::string', 'std::basic_string', 'std::basic_string_view', 'std::filesystem::path', 'std::filesystem::__cxx11::path', 'fmt::basic_string_view',
        'fmt::basic_format_string'}
VECS = {'std::vector', 'std::initializer_list', 'std::deque', 'std::list', 'std::queue', 'std::array', 'std::stack'}
MAPS = {'std::unordered_map', 'std::map'}
SETS = {'std::unordered_set', 'std::set'}


@lru_cache(None)
def kind_of(t):
    base, args, q = parse_ty(t)
    q = q.replace('&', '')
    if q:
        if base == 'char' and q == '*':
            return 'cstr'
        return 'ptr'
    if base == 'bool':
        return 'bool'
    if base in INTS:
        return 'int'
    if base in STRS:
        return 'str'
    if base in VECS:
        return 'vec'
    if base in MAPS:
        return 'map'
    if base in SETS:
        return 'set'
    if base == 'std::optional':
        return 'opt'
    if base == 'std::pair':
        return 'pair'
    if base == 'std::function':
        return 'fn'
    if base in ('std::shared_ptr', 'std::unique_ptr'):
        return 'sptr'
    if base.startswith('nlohmann::basic_json'):
        return 'json'
    if base == 'void':
        return 'void'
    return 'rec'


def strip_targs(n):
    out, d = [], 0
    i = 0
    while i < len(n):
        c = n[i]
        if n.startswith('operator', i) and d == 0:
            out.append(n[i:])
            break
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


_IXC = {}


def ix_consts(t):
    """constants of a term that stand for loop indices or bound variables."""
    r = _IXC.get(t.get_id())
    if r is not None and r[0].eq(t):
        return r[1]
    out, stack, seen = {}, [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n.startswith('$') or n.startswith(('i#', 'pi#')):
                out[n] = x
        else:
            stack.extend(x.children())
    _IXC[t.get_id()] = (t, out)
    return out


def free_ix(v, out=None, bound=()):
    """index-like constants occurring free in a value."""
    out = {} if out is None else out

    def go(x, bound):
        if isinstance(x, z3.ExprRef):
            for n, c in ix_consts(x).items():
                if n not in bound:
                    out[n] = c
        elif isinstance(x, (tuple, list)):
            tag = x[0] if x and isinstance(x[0], str) else None
            if tag == 'pw' and len(x) == 6:
                go(x[1], bound)
                b = bound + (x[3].decl().name(),)
                go(x[4], b)
                go(x[5], b)
                return
            if tag == 'loop' and len(x) >= 6:
                go(x[1], bound)
                go(x[3], bound)
                go(x[5], bound + (x[4].decl().name(),))
                return
            if tag == 'vals' and len(x) >= 5:
                go(x[1], bound)
                go(x[2], bound)
                go(x[4], bound + (x[3].decl().name(),))
                return
            for y in x:
                go(y, bound)
        elif isinstance(x, dict):
            for y in x.values():
                go(y, bound)
        elif isinstance(x, FM):
            go(x.n, bound)
            go(x.cases, bound + (x.iv.decl().name(),))
        elif isinstance(x, V):
            for cls in type(x).__mro__:
                for s in getattr(cls, '__slots__', ()):
                    if s != '_k' and hasattr(x, s):
                        go(getattr(x, s), bound)
    go(v, tuple(bound))
    return out

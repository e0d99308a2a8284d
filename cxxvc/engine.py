"""Symbolic executor / VC generator over the exported clang AST.

Every path of a function is explored (decision replay); loops are replaced by
exact summaries (see loops.py); calls use the callee's contract when one is
registered, the library contract table (lib.py) for external functions, and the
callee's body otherwise."""
import re
import z3
from .vals import *
from . import vals as VV
from .prog import noatomic


class Throw(Exception):
    def __init__(self, val):
        self.val = val


class Return(Exception):
    def __init__(self, val):
        self.val = val


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Infeasible(Exception):
    pass


class Limit(Unsupported):
    pass


class Frame:
    __slots__ = ('vars', 'this', 'fn', 'refret')

    def __init__(self, fn=None, this=None, refret=False):
        self.vars, self.this, self.fn, self.refret = {}, this, fn, refret


class Path:
    __slots__ = ('pc', 'out', 'val', 'store', 'ax', 'dec')

    def __init__(self, pc, out, val, store, ax):
        self.pc, self.out, self.val, self.store, self.ax = pc, out, val, store, ax

    def cond(self):
        return And(*self.pc)


class XFrame:
    """one exploration (a DFS over decisions)."""

    def __init__(self, kid, idxlen):
        self.kid, self.dec, self.pos, self.seq = kid, [], 0, 0


def is_lv(v):
    return isinstance(v, LV)


def has_quant(t, _c={}):
    i = t.get_id()
    if i in _c:
        return _c[i]
    tid(t)
    stack, seen, r = [t], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    _c[i] = r
    return r


def mentions(t, c, _c={}):
    """does term t mention constant c"""
    k = (tid(t), tid(c))
    if k in _c:
        return _c[k]
    stack, seen, r = [t], set(), False
    ci = c.get_id()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == ci:
            r = True
            break
        stack.extend(x.children())
        if z3.is_quantifier(x):
            stack.append(x.body())
    _c[k] = r
    return r


QV = z3.Int('$q')


def qall(j, f):
    return TRUE if z3.is_true(f) else z3.ForAll([QV], z3.substitute(f, (j, QV)))


def qex(j, f):
    return FALSE if z3.is_false(f) else z3.Exists([QV], z3.substitute(f, (j, QV)))


def has_bound(t):
    """t mentions a variable meant to be bound by an enclosing quantifier ($...)"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_const(x) and x.decl().name().startswith('$'):
            return True
        stack.extend(x.children())
    return False


def free_vars(e):
    r = e.get('$free')
    if r is None:
        r = []
        todo = [e.get('body')] + [i['body'] for i in e.get('insts') or ()]
        while todo:
            x = todo.pop()
            if isinstance(x, list):
                todo.extend(x)
            elif isinstance(x, dict):
                if x.get('k') == 'var' and isinstance(x.get('id'), str) and x['id'] not in r:
                    r.append(x['id'])
                todo.extend(v for n, v in x.items() if n != '$free')
        e['$free'] = r = sorted(r)
    return r


class Engine:
    MAXPATHS = 4000

    def __init__(self, prog, lib, contracts=None):
        self.p = prog
        self.lib = lib
        self.contracts = contracts or {}
        self.store = {}
        self.pc = []
        self.ax = []
        self.axids = set()
        self.idx = []
        self.cnt = 0
        self.x = None
        self.memo = {}
        self.kids = {}
        self.frame = None
        self.depth = 0
        self.handling = []
        self.held, self.acc, self.tasks, self.shape = [], None, [], None
        self.stats = {'feas': 0, 'paths': 0, 'loops': 0}
        self.taint = set()
        self.called = set()       # functions whose bodies were executed
        self.used_lib = set()     # external contracts used
        self.used_contracts = set()
        self.line = None
        self.ambig = self._ambig()
        self.fields_cache = {}
        self.globroots = {}
        self.opts = {}
        self.deadline = None
        self.ownslot = set()

    # ------------------------------------------------------------ fields
    def _ambig(self):
        seen = {}
        for r in self.p.records:
            if not r.startswith(('buildcc', 'cxxvc')):
                continue
            names = {}
            for c, f in self.p.fields(r):
                names.setdefault(f['name'], set()).add(c)
            for n, cs in names.items():
                if len(cs) > 1:
                    for c in cs:
                        seen[(c, n)] = True
        return seen

    def fkey(self, cls, name):
        return cls + '::' + name if (cls, name) in self.ambig else name

    def find_field(self, cls, name):
        for c in reversed(self.p.bases(cls)):
            for f in self.p.records[c].get('fields', ()):
                if f['name'] == name:
                    return self.fkey(c, name), f
        return name, None

    # ------------------------------------------------------------ naming
    def new(self, label='t'):
        self.cnt += 1
        return '%s#%d' % (label, self.cnt)

    def uf(self, name, sort, idx=None):
        idx = tuple(self.idx) if idx is None else tuple(idx)
        if not idx:
            return z3.Const(name, sort)
        return z3.Function(name, *[i.sort() for i in idx], sort)(*idx)

    def axiom(self, f):
        f = simp(f) if not has_quant(f) else f
        if z3.is_true(f):
            return
        i = tid(f)
        if i not in self.axids:
            self.axids.add(i)
            self.ax.append(f)

    def fresh(self, t, name=None, idx=None):
        name = name or self.new('v')
        idx = tuple(self.idx) if idx is None else tuple(idx)
        t = noatomic(t.strip())
        k = self.p.kind(t)
        base, args, q = parse_ty(t)
        if k == 'bool':
            return self.uf(name, B, idx)
        if k == 'int':
            r = self.uf(name, I, idx)
            if base in self.p.enums:
                vals = sorted(set(self.p.enums[base].values()))
                f = Or(*[r == int(v) for v in vals])
                self.axiom(self.closed(f, idx))
            elif base in ('unsigned int', 'unsigned long', 'unsigned char', 'unsigned short'):
                self.axiom(self.closed(r >= 0, idx))
            return r
        if k in ('str', 'cstr'):
            return S((self.uf(name, Str, idx),))
        if k == 'vec':
            b = Base(name, args[0], idx)
            self.axiom(self.closed(b.n() >= 0, idx))
            return Vec((b,))
        if k == 'map':
            return Map(('B', name, args[0], args[1], idx), args[0], args[1])
        if k == 'set':
            return Map(('B', name, args[0], None, idx), args[0], None)
        if k == 'opt':
            return Opt(self.uf(name + '.has', B, idx), self.fresh(args[0], name + '.val', idx))
        if k == 'pair':
            return Rec('pair', {'first': self.fresh(args[0], name + '.first', idx), 'second': self.fresh(args[1], name + '.second', idx)})
        if k == 'fn':
            return Fn('sym', name, extra=idx)
        if k == 'json':
            return Op('json', Op('jsym', name, idx))
        if k in ('ptr', 'sptr'):
            return Ptr(self.uf(name + '.null', B, idx), Op('pt:' + base, name, idx))
        if k == 'void':
            return None
        if t in self.p.records or base in self.p.records:
            c = t if t in self.p.records else base
            if args and c == base:
                c = base + t[t.index('<'):]
                c = c if c in self.p.records else base
            f = {}
            for cls, fd in self.p.fields(c):
                fk = self.fkey(cls, fd['name'])
                if parse_ty(fd['type'])[2].startswith('&') or fd['type'].rstrip().endswith('&'):
                    f[fk] = Op('unbound-ref', name + '.' + fk)
                else:
                    f[fk] = self.fresh(fd['type'], name + '.' + fk, idx)
            return Rec(c, f)
        return Op('ext:' + base, name, idx)

    def closed(self, f, idx):
        """universally close f over constants in idx that are generic loop indices."""
        vs = [i for i in idx if z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(i.eq(j) for j in self.idx)]
        return z3.ForAll(vs, f) if vs else f

    def closed_all(self, f):
        vs = [i for i in self.idx if mentions(f, i)]
        return z3.ForAll(vs, f) if vs else f

    def default(self, t):
        t = noatomic(t)
        k = self.p.kind(t)
        base, args, q = parse_ty(t)
        if k == 'bool':
            return FALSE
        if k == 'int':
            return z3.IntVal(0)
        if k == 'str':
            return S()
        if k in ('ptr', 'sptr', 'cstr'):
            return NULL
        if k == 'vec':
            return Vec()
        if k == 'map':
            return Map(('E',), args[0], args[1])
        if k == 'set':
            return Map(('E',), args[0], None)
        if k == 'opt':
            return Opt(FALSE, None)
        if k == 'pair':
            return Rec('pair', {'first': self.default(args[0]), 'second': self.default(args[1])})
        if k == 'fn':
            return Fn('empty')
        if k == 'json':
            return Op('json', Op('jnull'))
        c = t if t in self.p.records else base
        if c in self.p.records and c.startswith(('buildcc', 'cxxvc')):
            root = self.new('$dflt')
            self.store[root] = Rec(c, {})
            lv = LV(root)
            for cls, fd in self.p.fields(c):
                fk = self.fkey(cls, fd['name'])
                if fd.get('init'):
                    fr, self.frame = self.frame, Frame(None, lv)
                    self.into(lv + ('f', fk), fd['init'])
                    self.frame = fr
                else:
                    self.write(lv + ('f', fk), self.default(fd['type']))
            return self.store[root]
        return Op('ext:' + base)

    # ------------------------------------------------------------ decisions
    def sat(self, extra=(), timeout=250):
        self.stats['feas'] += 1
        s = z3.Solver()
        s.set('rlimit', timeout * 4000)
        s.set('timeout', timeout * 20)
        fs = [f for f in self.pc if not has_quant(f)] + [f for f in self.ax if not has_quant(f)] + list(extra)
        for f in fs:
            s.add(f)
        for d in distinct_lits(fs):
            s.add(d)
        return s.check() != z3.unsat

    def implied(self, f):
        """QF-implied by the path condition (sound, incomplete)."""
        f = simp(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return not self.sat([Not(f)])

    def decide(self, nopts, feas):
        """nopts alternatives; feas(k)->bool evaluated lazily the first time."""
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Limit('time budget')
        fr = self.x
        if fr.pos < len(fr.dec):
            d = fr.dec[fr.pos]
        else:
            opts = [k for k in range(nopts) if feas(k)]
            if not opts:
                raise Infeasible()
            d = [opts, 0]
            fr.dec.append(d)
        fr.pos += 1
        return d[0][d[1]], len(d[0])

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c) if not has_quant(c) else c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = Not(c)
        ids = {tid(x) for x in self.pc}
        if tid(c) in ids:
            return True
        if tid(nc) in ids or tid(z3.simplify(nc)) in ids:
            return False
        q = has_quant(c)

        def feas(k):
            if q:
                return True
            return self.sat([c if k == 0 else nc])
        k, n = self.decide(2, feas)
        if n > 1:
            self.pc.append(c if k == 0 else nc)
        return k == 0

    def choose(self, conds):
        """fork over alternatives given as lists of formulas assumed in each."""
        def feas(k):
            return self.sat([f for f in conds[k] if not has_quant(f)])
        k, n = self.decide(len(conds), feas)
        for f in conds[k]:
            self.assume(f)
        return k

    def assume(self, f):
        f = simp(f) if not has_quant(f) else f
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        if all(tid(f) != tid(g) for g in self.pc):
            self.pc.append(f)

    def explore(self, thunk):
        """run thunk on all paths from the current state; state is left unchanged."""
        par = self.x
        if par is not None:
            mk = (par.kid, tuple(d[0][d[1]] for d in par.dec[:par.pos]), par.seq)
            par.seq += 1
        else:
            mk = None
        if mk is not None and mk in self.memo:
            res, cnt = self.memo[mk]
            self.cnt = cnt
            return res
        kid = len(self.kids)
        self.kids[kid] = mk
        x = XFrame(kid, len(self.idx))
        store0, pc0, cnt0, frame0, idx0, depth0 = self.store, list(self.pc), self.cnt, self.frame, list(self.idx), self.depth
        fv0 = dict(frame0.vars) if frame0 else None
        ax0 = len(self.ax)
        axs = []
        res = []
        maxcnt = cnt0
        while True:
            self.x = x
            x.pos = x.seq = 0
            self.store = dict(store0)
            self.pc = list(pc0)
            del self.ax[ax0:]
            self.axids = {tid(a) for a in self.ax}
            self.cnt = cnt0
            self.frame = frame0
            if frame0:
                frame0.vars = dict(fv0)
            self.idx = list(idx0)
            self.depth = depth0
            out, val, dead = 'normal', None, False
            try:
                val = thunk()
            except Infeasible:
                dead = True
            except Return as r:
                out, val = 'return', r.val
            except Throw as t:
                out, val = 'throw', t.val
            except BreakX:
                out = 'break'
            except ContinueX:
                out = 'continue'
            maxcnt = max(maxcnt, self.cnt)
            if not dead:
                self.stats['paths'] += 1
                res.append(Path(self.pc[len(pc0):], out, val, self.store, list(self.ax[ax0:])))
                if len(res) > self.MAXPATHS:
                    raise Limit('too many paths')
            # backtrack
            while x.dec and x.dec[-1][1] + 1 >= len(x.dec[-1][0]):
                x.dec.pop()
            if not x.dec:
                break
            x.dec[-1][1] += 1
        self.x = par
        self.store, self.pc, self.frame, self.idx, self.depth = store0, pc0, frame0, idx0, depth0
        if frame0:
            frame0.vars = fv0
        del self.ax[ax0:]
        self.axids = {tid(a) for a in self.ax}
        self.cnt = maxcnt
        if mk is not None:
            self.memo[mk] = (res, maxcnt)
        return res

    # ------------------------------------------------------------ store
    def alloc(self, v, label='$t'):
        root = self.new(label)
        self.store[root] = v
        return LV(root)

    def read(self, lv):
        if lv.root not in self.store:
            raise Unsupported('dangling root %s' % lv.root)
        v = self.store[lv.root]
        for el in lv.path:
            v = self.sub(v, el, lv)
        if isinstance(v, RefV):
            return self.read(v.lv)
        return v

    def sub(self, v, el, lv=None):
        k = el[0]
        if isinstance(v, RefV):
            v = self.read(v.lv)
        if k == 'f':
            if isinstance(v, Rec):
                if el[1] not in v.f:
                    raise Unsupported('field %s of %s not set' % (el[1], v.ty))
                return v.f[el[1]]
            raise Unsupported('field %s of %r' % (el[1], type(v).__name__))
        if k == 'e':
            return self.vat(v, el[1])
        if k == 'm':
            return self.mval(v, el[1])
        if k == 'mk':
            return el[1]
        if k == 'o':
            if isinstance(v, Opt):
                return v.val
            raise Unsupported('opt deref of %r' % type(v).__name__)
        if k == 'j':
            return v.d[0].d[0].f[el[1]]
        raise Unsupported('path ' + k)

    def write(self, lv, v):
        if self.acc is not None:
            self.access('w', lv)
        if not lv.path:
            self.store[lv.root] = v
            return
        self.store[lv.root] = self.upd(self.store[lv.root], lv.path, v)

    def upd(self, cur, path, v):
        el = path[0]
        if isinstance(cur, RefV):
            raise Unsupported('write through ref field path')
        if el[0] == 'f':
            if not isinstance(cur, Rec):
                raise Unsupported('field write on %r' % type(cur).__name__)
            nv = v if len(path) == 1 else self.upd(cur.f[el[1]], path[1:], v)
            return cur.set(el[1], nv)
        if el[0] == 'e':
            nv = v if len(path) == 1 else self.upd(self.vat(cur, el[1]), path[1:], v)
            return self.vput(cur, el[1], nv)
        if el[0] == 'm':
            nv = v if len(path) == 1 else self.upd(self.mval(cur, el[1]), path[1:], v)
            return Map(node_put(cur.node, el[1], nv), cur.kty, cur.vty)
        if el[0] == 'o':
            nv = v if len(path) == 1 else self.upd(cur.val, path[1:], v)
            return Opt(cur.has, nv)
        if el[0] == 'j':
            rec = cur.d[0].d[0]
            nv = v if len(path) == 1 else self.upd(rec.f[el[1]], path[1:], v)
            return Op('json', Op('jobj', rec.set(el[1], nv)))
        raise Unsupported('write path ' + el[0])

    def resolve(self, lv):
        """follow reference fields."""
        v = self.store.get(lv.root)
        cur = LV(lv.root)
        for el in lv.path:
            if isinstance(v, RefV):
                cur = self.resolve(v.lv)
                v = self.read(cur)
            v = self.sub(v, el)
            cur = cur + el
        if isinstance(v, RefV):
            return self.resolve(v.lv)
        return cur

    # ------------------------------------------------------------ vectors
    def seglen(self, s):
        if isinstance(s, U):
            return z3.IntVal(1)
        if isinstance(s, Base):
            self.axiom(self.closed(s.n() >= 0, s.idx))
            return s.n()
        if isinstance(s, FM):
            if regular(s):
                return s.n
            if len(s.cases) == 1 or True:
                # exact only when every case has the same constant length
                ls = [self.vlen(Vec(ss)) for _, ss in s.cases]
                covers = simp(Or(*[c for c, _ in s.cases]))
                if ls and all(l.eq(ls[0]) for l in ls) and z3.is_int_value(ls[0]) and z3.is_true(covers):
                    return simp(s.n * ls[0])
            r = self.uf('cnt:' + str(intern_key(s.key())), I, ())
            self.axiom(r >= 0)
            self.axiom(r == 0 if z3.is_true(self.vempty(Vec((s,)))) else (r == 0) == self.vempty(Vec((s,))))
            return r
        if isinstance(s, SIte):
            return z3.If(s.c, self.vlen(Vec(s.a)), self.vlen(Vec(s.b)))
        if isinstance(s, Head):
            r = z3.Function('hlen:' + s.hid, I, I)(s.iv)
            self.axiom(self.closed(r >= 0, (s.iv,)))
            return r
        if isinstance(s, PutSeg):
            return self.vlen(s.vec)
        raise Unsupported('seglen')

    def vlen(self, v):
        if isinstance(v, Map):
            return self.mlen(v)
        t = z3.IntVal(0)
        for s in v.segs:
            t = t + self.seglen(s)
        return simp(t)

    def vempty(self, v):
        """formula: vector is empty."""
        cs = []
        for s in v.segs:
            if isinstance(s, U):
                return FALSE
            if isinstance(s, Base):
                self.axiom(self.closed(s.n() >= 0, s.idx))
                cs.append(s.n() <= 0)
            elif isinstance(s, FM):
                if regular(s):
                    cs.append(s.n <= 0)
                    continue
                ne = Or(*[And(c, Not(self.vempty(Vec(ss)))) for c, ss in s.cases])
                b = self.bv()
                ne = z3.substitute(ne, (s.iv, b))
                cs.append(qall(b, Implies(And(b >= 0, b < s.n), Not(ne))))
            elif isinstance(s, SIte):
                cs.append(z3.If(s.c, self.vempty(Vec(s.a)), self.vempty(Vec(s.b))))
            else:
                cs.append(self.seglen(s) <= 0)
        return And(*cs)

    _bv = 0

    def bv(self):
        Engine._bv += 1
        return z3.Int('$q%d' % Engine._bv)

    def elem(self, s, j):
        """j-th element of a 1-elem-per-index segment."""
        if isinstance(s, Base):
            return self.fresh(s.ety, s.name + '[]', s.idx + (j,))
        if isinstance(s, FM):
            out = None
            for c, ss in s.cases:
                v = subst(ss[0].v, [(s.iv, j)])
                out = v if out is None else self.vite(z3.substitute(c, (s.iv, j)), v, out)
            return out
        raise Unsupported('elem')

    def vat(self, v, i):
        if isinstance(v, S):
            return self.lib.char_at(self, v, i)
        if not isinstance(v, Vec):
            raise Unsupported('index of %r' % type(v).__name__)
        i = simp(i)
        off = z3.IntVal(0)
        if len(v.segs) == 1:
            s = v.segs[0]
            if isinstance(s, Base) or regular(s):
                return self.elem(s, i)
            if isinstance(s, Head):
                return self.head_elem(s, i)
            if isinstance(s, PutSeg):
                if s.i.eq(i):
                    return s.v
                return self.vite(i == s.i, s.v, self.vat(s.vec, i))
        segs = list(v.segs)
        # decidable position
        for s in segs:
            n = self.seglen(s)
            rel = simp(i - off)
            if isinstance(s, U):
                if self.implied(rel == 0):
                    return s.v
                if self.implied(rel != 0):
                    off = off + 1
                    continue
                if self.branch(rel == 0):
                    return s.v
                off = off + 1
                continue
            if isinstance(s, SIte):
                if self.branch(s.c):
                    return self.vat(Vec(tuple(segs[:segs.index(s)]) + s.a + tuple(segs[segs.index(s) + 1:])), i)
                return self.vat(Vec(tuple(segs[:segs.index(s)]) + s.b + tuple(segs[segs.index(s) + 1:])), i)
            if self.branch(rel < n):
                if isinstance(s, Base) or regular(s):
                    return self.elem(s, rel)
                if isinstance(s, Head):
                    return self.head_elem(s, rel)
                # irregular: unknown element satisfying one of the cases at some index
                return self.irregular_elem(s, rel)
            off = simp(off + n)
        # out of range: undefined behaviour
        raise Infeasible()

    def irregular_elem(self, s, rel):
        j = self.uf(self.new('ij'), I)
        self.assume(And(j >= 0, j < s.n))
        opts = [[z3.substitute(c, (s.iv, j))] for c, ss in s.cases if ss]
        nz = [ss for c, ss in s.cases if ss]
        if not opts:
            raise Infeasible()
        k = self.choose(opts)
        segs = [subst(q, [(s.iv, j)]) for q in nz[k]]
        if len(segs) == 1 and isinstance(segs[0], U):
            return segs[0].v
        raise Unsupported('irregular element')

    def head_elem(self, s, i):
        if i.eq(s.iv) or self.implied(i == s.iv):
            # own slot: not yet written by earlier iterations (validated at summarisation)
            return self.vat(s.pre, s.iv)
        pre = s.pre
        if len(pre.segs) == 1 and isinstance(pre.segs[0], Base):
            ety = pre.segs[0].ety
            return self.fresh(ety, 'hd:' + s.hid, (s.iv, i))
        raise Unsupported('loop-carried vector read')

    def vput(self, v, i, nv):
        if not isinstance(v, Vec):
            raise Unsupported('vput')
        i = simp(i)
        if all(isinstance(s, U) for s in v.segs) and z3.is_int_value(i):
            segs = list(v.segs)
            segs[i.as_long()] = U(nv)
            return Vec(segs)
        if len(v.segs) == 1 and (isinstance(v.segs[0], (Head, PutSeg)) or isinstance(v.segs[0], Base) or regular(v.segs[0])):
            s = v.segs[0]
            if isinstance(s, PutSeg) and s.i.eq(i):
                return Vec((PutSeg(s.vec, i, nv),))
            if isinstance(s, (Base, FM)):
                b = z3.Int(self.new('pi'))
                old = self.elem(s, b)
                return Vec((FM(self.seglen(s), b, [(b == i, (U(nv),)), (b != i, (U(old),))]),))
            return Vec((PutSeg(v, i, nv),))
        if len(v.segs) == 1 and isinstance(v.segs[0], SIte):
            s = v.segs[0]
            return Vec((SIte(s.c, self.vput(Vec(s.a), i, nv).segs, self.vput(Vec(s.b), i, nv).segs),))
        if len(v.segs) == 1 and not isinstance(v.segs[0], U):
            raise Unsupported('element write into irregular vector')
        off = z3.IntVal(0)
        segs = list(v.segs)
        for q, s in enumerate(segs):
            n = self.seglen(s)
            rel = simp(i - off)
            if self.branch(rel < n):
                if isinstance(s, U):
                    segs[q] = U(nv)
                    return Vec(segs)
                r = self.vput(Vec((s,)), rel, nv)
                return Vec(tuple(segs[:q]) + r.segs + tuple(segs[q + 1:]))
            off = off + n
        raise Infeasible()

    def vany(self, v, pred):
        """formula: exists element satisfying pred(value)->formula."""
        cs = []
        for s in v.segs:
            if isinstance(s, U):
                cs.append(pred(s.v))
            elif isinstance(s, Base):
                j = self.bv()
                cs.append(qex(j, And(j >= 0, j < s.n(), pred(self.elem(s, j)))))
            elif isinstance(s, FM):
                inner = Or(*[And(c, self.vany(Vec(ss), pred)) for c, ss in s.cases])
                if z3.is_false(inner):
                    continue
                j = self.bv()
                cs.append(qex(j, And(j >= 0, j < s.n, z3.substitute(inner, (s.iv, j)))))
            elif isinstance(s, SIte):
                cs.append(z3.If(s.c, self.vany(Vec(s.a), pred), self.vany(Vec(s.b), pred)))
            else:
                raise Unsupported('vany over loop head')
        return Or(*cs)

    def vall(self, v, pred):
        cs = []
        for s in v.segs:
            if isinstance(s, U):
                cs.append(pred(s.v))
            elif isinstance(s, Base):
                j = self.bv()
                cs.append(qall(j, Implies(And(j >= 0, j < s.n()), pred(self.elem(s, j)))))
            elif isinstance(s, FM):
                inner = And(*[Implies(c, self.vall(Vec(ss), pred)) for c, ss in s.cases])
                if z3.is_true(inner):
                    continue
                j = self.bv()
                cs.append(qall(j, Implies(And(j >= 0, j < s.n), z3.substitute(inner, (s.iv, j)))))
            elif isinstance(s, SIte):
                cs.append(z3.If(s.c, self.vall(Vec(s.a), pred), self.vall(Vec(s.b), pred)))
            else:
                raise Unsupported('vall over loop head')
        return And(*cs)

    # ------------------------------------------------------------ maps
    def vall_map(self, m, pred):
        """formula: every key of the map satisfies pred(key)."""
        ks = self.ksort(m)
        Engine._bv += 1
        q = z3.Const('$qk%d' % Engine._bv, ks)
        qv = S((q,)) if ks == Str else q
        return z3.ForAll([q], Implies(self.mem(m, qv), pred(qv)))

    def kterm(self, k):
        if isinstance(k, S):
            return k.term()
        if isinstance(k, z3.ExprRef):
            return k
        if isinstance(k, Rec) and k.ty == 'pair':
            raise Unsupported('pair key')
        raise Unsupported('map key %r' % type(k).__name__)

    def ksort(self, m):
        kk = self.p.kind(m.kty)
        return Str if kk in ('str', 'cstr') else (B if kk == 'bool' else I)

    def mem(self, m, k):
        return self.nmem(m.node, k, m)

    def nmem(self, n, k, m):
        op = n[0]
        if op == 'E':
            return FALSE
        if op == 'B':
            kt = self.kterm(k)
            return z3.Function('mem:' + n[1], *[i.sort() for i in n[4]], kt.sort(), B)(*n[4], kt)
        if op in ('put', 'ins'):
            return Or(self.eq(n[2], k), self.nmem(n[1], k, m))
        if op == 'del':
            return And(Not(self.eq(n[2], k)), self.nmem(n[1], k, m))
        if op == 'head':
            kt = self.kterm(k)
            if self.ownkey(kt, n[2]):
                self.ownslot.add(n[1])
                return self.nmem(n[3], k, m)
            return z3.Function('hmem:' + n[1], I, kt.sort(), B)(n[2], kt)
        if op == 'ite':
            return z3.If(n[1], self.nmem(n[2], k, m), self.nmem(n[3], k, m))
        if op == 'loop':
            prev = self.nmem(n[1], k, m)
            lop, cnt, iv, cases = n[2], n[3], n[4], n[5]
            hit = Or(*[And(c, self.eq(kk, k)) for c, kk, v in cases])
            j = self.bv()
            ex = qex(j, And(j >= 0, j < cnt, z3.substitute(hit, (iv, j))))
            if lop == 'del':
                return And(prev, Not(ex))
            return Or(prev, ex)
        if op == 'vals':
            return self.nmem(n[1], k, m)
        if op == 'pw':
            prev = self.nmem(n[1], k, m)
            hit = self.pwhit(n, k)
            return And(prev, Not(hit)) if n[2] == 'del' else Or(prev, hit)
        if op == 'filt':
            raise Unsupported('filt')
        raise Unsupported('nmem ' + op)

    def mval(self, m, k):
        if m.vty is None:
            return k
        return self.nval(m.node, k, m)

    def nval(self, n, k, m):
        op = n[0]
        if op == 'E':
            raise Infeasible()
        if op == 'B':
            return self.fresh(m.vty, n[1] + '{}', n[4] + (self.kterm(k),))
        if op == 'put':
            e = simp(self.eq(n[2], k))
            if z3.is_true(e):
                return n[3]
            return self.vite(e, n[3], self.nval(n[1], k, m)) if not z3.is_false(e) and n[1][0] != 'E' else (n[3] if n[1][0] == 'E' else self.nval(n[1], k, m))
        if op == 'ins':
            if n[1][0] == 'E':
                return n[3]
            e = simp(And(self.eq(n[2], k), Not(self.nmem(n[1], n[2], m))))
            if z3.is_true(e):
                return n[3]
            if z3.is_false(e):
                return self.nval(n[1], k, m)
            return self.vite(e, n[3], self.nval(n[1], k, m))
        if op == 'del':
            return self.nval(n[1], k, m)
        if op == 'head':
            if self.ownkey(self.kterm(k), n[2]):
                self.ownslot.add(n[1])
                return self.nval(n[3], k, m)
            return self.fresh(m.vty, 'hval:' + n[1], (n[2], self.kterm(k)))
        if op == 'ite':
            return self.vite(n[1], self.nval(n[2], k, m), self.nval(n[3], k, m))
        if op == 'vals':
            # ('vals', prev, cnt, iv, newval(iv), (name,idx)): value rewritten for every key
            idxf = self.mapidx(n[1], m)
            j = idxf(self.kterm(k))
            r = subst(n[4], [(n[3], j)])
            # key(index(k)) = k for a member k (enumeration axiom); values are only observed for members
            und = n[1]
            while und[0] == 'vals':
                und = und[1]
            kid = intern_key(nkey(und))
            kf = z3.Function('mkey:%d' % kid, *[x.sort() for x in j.children()[:-1]], I, self.ksort(m))
            return subst(r, [(kf(*j.children()[:-1], j), self.kterm(k))])
        if op == 'loop':
            lop, cnt, iv, cases = n[2], n[3], n[4], n[5]
            if lop == 'del':
                return self.nval(n[1], k, m)
            w = z3.Function('wit:' + n[6], *[i.sort() for i in n[7]], cnt.sort(), self.kterm(k).sort(), I)(*n[7], cnt, self.kterm(k))
            v = None
            for c, kk, val in cases:
                x = subst(val, [(iv, w)])
                v = x if v is None else self.vite(z3.substitute(c, (iv, w)), x, v)
            self.loopwit(n, k, m)
            if n[1][0] == 'E':
                return v
            prevm = self.nmem(n[1], k, m)
            if lop == 'ins':
                return self.vite(prevm, self.nval(n[1], k, m), v)
            hit = Or(*[And(c, self.eq(kk, k)) for c, kk, _ in cases])
            j = self.bv()
            ex = qex(j, And(j >= 0, j < cnt, z3.substitute(hit, (iv, j))))
            return self.vite(ex, v, self.nval(n[1], k, m))
        if op == 'pw':
            if n[2] == 'del':
                return self.nval(n[1], k, m)
            kt = self.kterm(k)
            v = None
            for c, val in n[5]:
                x = subst(val, [(n[3], kt)])
                v = x if v is None else self.vite(z3.substitute(c, (n[3], kt)), x, v)
            if n[1][0] == 'E':
                return v
            c = self.nmem(n[1], k, m) if n[2] == 'ins' else self.pwhit(n, k)
            c = self.known(c, kt)
            a, b = (self.nval(n[1], k, m), v) if n[2] == 'ins' and not z3.is_false(c) else (v, self.nval(n[1], k, m) if not z3.is_true(c) or n[2] == 'ins' else v)
            if n[2] == 'ins' and z3.is_false(c):
                return v
            return self.vite(c, a, b)
        raise Unsupported('nval ' + op)

    def keyfacts(self, kt):
        """an enumerated key is a member of what it enumerates."""
        en = getattr(self, 'enums', {}).get(kt.decl().name()) if z3.is_app(kt) and kt.num_args() else None
        if en is None:
            return []
        n, idx, node, mm = en
        pre = [kt.arg(q) for q in range(kt.num_args() - 1)]
        pairs = list(zip(idx, pre))
        if pairs:
            n, mm = z3.substitute(n, *pairs), subst(mm, pairs)
        t = kt.arg(kt.num_args() - 1)
        f = self.mem(mm, S((kt,)) if kt.sort() == Str else kt)
        return [] if has_quant(f) else [Implies(And(t >= 0, t < n), f)]

    def known(self, c, kt):
        if has_quant(c) or has_bound(c):
            return c
        c = simp(c)
        if z3.is_true(c) or z3.is_false(c):
            return c
        x = self.keyfacts(kt)
        if not self.sat(x + [c]):
            return FALSE
        if not self.sat(x + [Not(c)]):
            return TRUE
        return c

    def pwhit(self, n, k):
        kt = self.kterm(k)
        f = z3.substitute(And(n[4], Or(*[c for c, _ in n[5]])), (n[3], kt))
        return f if has_quant(f) else simp(f)

    def loopwit(self, n, k, m):
        """axiom for the first/last-writer witness of a loop-built map."""
        lop, cnt, iv, cases = n[2], n[3], n[4], n[5]
        ks = self.kterm(k).sort()
        q = z3.Const('$k' + n[6], ks)
        qv = S((q,)) if ks == Str else q
        wf = z3.Function('wit:' + n[6], *[i.sort() for i in n[7]], cnt.sort(), ks, I)
        w = wf(*n[7], cnt, q)
        hit = Or(*[And(c, self.eq(kk, qv)) for c, kk, _ in cases])
        j, j2 = z3.Int('$wj' + n[6]), z3.Int('$wk' + n[6])
        hj, hw, hj2 = z3.substitute(hit, (iv, j)), z3.substitute(hit, (iv, w)), z3.substitute(hit, (iv, j2))
        order = z3.And(w <= j) if lop == 'ins' else z3.And(j <= w)
        f = z3.ForAll([q, j], Implies(And(j >= 0, j < cnt, hj), And(w >= 0, w < cnt, hw, order)))
        fv = [i for i in n[7] if any(i.eq(x) for x in self.idx)]
        self.axiom(z3.ForAll(fv, f) if fv else f)

    def ownkey(self, kt, iv):
        return z3.is_app(kt) and kt.decl().name().startswith('mkey:') and kt.num_args() and kt.arg(kt.num_args() - 1).eq(iv)

    def mlen(self, m):
        if m.node[0] == 'E':
            return z3.IntVal(0)
        r, _ = self.mapenum(m)
        self.axiom((r == 0) == self.mempty(m))
        return r

    def mempty(self, m):
        n = m.node
        if n[0] == 'E':
            return TRUE
        if n[0] in ('put', 'ins'):
            return FALSE
        if n[0] == 'vals':
            return self.mempty(Map(n[1], m.kty, m.vty))
        # finitely many keys, some of them erased
        ks, b = [], n
        while b[0] == 'del' or (b[0] == 'loop' and b[2] == 'del'):
            b = b[1]
        while b[0] in ('put', 'ins'):
            ks.append(b[2])
            b = b[1]
        if b[0] == 'E':
            return And(*[Not(self.nmem(n, k, m)) for k in ks])
        ks = self.ksort(m)
        q = z3.Const('$e%d' % intern_key(nkey(n)), ks)
        return z3.ForAll([q], Not(self.mem(m, S((q,)) if ks == Str else q)))

    def mapenum(self, m):
        """(n, keyfn(j)->keyvalue): an enumeration of the keys in the (unspecified) iteration order."""
        node = m.node
        while node[0] == 'vals':
            node = node[1]
        mm = Map(node, m.kty, m.vty)
        if node[0] == 'E':
            return z3.IntVal(0), None
        kid = intern_key(nkey(node))
        idx = tuple(i for i in free_idx(node, self.idx))
        ks = self.ksort(m)
        n = z3.Function('mn:%d' % kid, *[i.sort() for i in idx], I)(*idx) if idx else z3.Int('mn:%d' % kid)
        kf = z3.Function('mkey:%d' % kid, *[i.sort() for i in idx], I, ks)
        xf = self.mapidx(node, m)
        if not hasattr(self, 'enums'):
            self.enums = {}
        self.enums['mkey:%d' % kid] = (n, idx, node, mm)
        j = z3.Int('$mj')
        q = z3.Const('$mq', ks)
        kj = kf(*idx, j)
        qv = S((q,)) if ks == Str else q
        kv = S((kj,)) if ks == Str else kj
        clo = (lambda f: z3.ForAll(list(idx), f)) if idx else (lambda f: f)
        self.axiom(clo(n >= 0))
        self.axiom(clo(z3.ForAll([j], Implies(And(j >= 0, j < n), And(self.mem(mm, kv), xf(kj) == j)), patterns=[kj])))
        memq = self.mem(mm, qv)
        self.axiom(clo(z3.ForAll([q], Implies(memq, And(xf(q) >= 0, xf(q) < n, kf(*idx, xf(q)) == q)), **(dict(patterns=[xf(q)]) if has_quant(memq) or not z3.is_app(memq) or memq.decl().kind() != z3.Z3_OP_UNINTERPRETED else dict(patterns=[memq])))))
        return n, (lambda t: S((kf(*idx, t),)) if ks == Str else kf(*idx, t))

    def mapidx(self, node, m):
        while node[0] == 'vals':
            node = node[1]
        kid = intern_key(nkey(node))
        idx = tuple(i for i in free_idx(node, self.idx))
        ks = self.ksort(m)
        f = z3.Function('midx:%d' % kid, *[i.sort() for i in idx], ks, I)
        return lambda t: f(*idx, t)

    # ------------------------------------------------------------ equality / ite
    def vite(self, c, a, b):
        c = simp(c) if not has_quant(c) else c
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b or (a is not None and b is not None and key(a) == key(b)):
            return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return z3.If(c, a, b)
        if isinstance(a, S) and isinstance(b, S):
            return S((z3.If(c, a.term(), b.term()),))
        if isinstance(a, Rec) and isinstance(b, Rec) and a.ty == b.ty:
            return Rec(a.ty, {k: self.vite(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Opt) and isinstance(b, Opt):
            if a.val is None or b.val is None:
                return Opt(z3.If(c, a.has, b.has), a.val if b.val is None else b.val)
            return Opt(z3.If(c, a.has, b.has), self.vite(c, a.val, b.val))
        if isinstance(a, Vec) and isinstance(b, Vec):
            return Vec((SIte(c, a.segs, b.segs),))
        if isinstance(a, Map) and isinstance(b, Map):
            return Map(('ite', c, a.node, b.node), a.kty, a.vty)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if b.tgt is None or a.tgt is None or key(a.tgt) == key(b.tgt):
                return Ptr(z3.If(c, a.null, b.null), a.tgt if b.tgt is None else b.tgt)
            m = self.idmerge(c, a.tgt, b.tgt)
            if m is not None:
                return Ptr(z3.If(c, a.null, b.null), m)
        if isinstance(a, S) and isinstance(b, Ptr) and b.tgt is None:
            return Ptr(And(Not(c), b.null), a)
        m = self.idmerge(c, a, b)
        if m is not None:
            return m
        if not has_bound(c):
            return a if self.branch(c) else b
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))

    def idparts(self, v):
        """(identity, index terms) of a symbolic callable or pointee."""
        if isinstance(v, Fn) and v.kind == 'sym':
            return ('fn', v.node), v.extra
        if isinstance(v, Op) and v.tag.startswith('pt:'):
            return ('pt', v.tag, v.d[0]), v.d[1]
        return None, None

    def idmerge(self, c, a, b):
        (ka, xa), (kb, xb) = self.idparts(a), self.idparts(b)
        if ka is None or ka != kb or len(xa) != len(xb):
            return None
        x = tuple(self.vite(c, p, q) for p, q in zip(xa, xb))
        return Fn('sym', a.node, a.caps, a.this, x) if isinstance(a, Fn) else Op(a.tag, a.d[0], x)

    def ideq(self, a, b):
        """same identity and indices => equal; otherwise undetermined."""
        (ka, xa), (kb, xb) = self.idparts(a), self.idparts(b)
        if ka is None or ka != kb or len(xa) != len(xb):
            return None
        return And(*[self.eq(p, q) for p, q in zip(xa, xb)])

    def eq(self, a, b):
        if is_lv(a):
            a = self.read(a)
        if is_lv(b):
            b = self.read(b)
        if a is b or isinstance(a, V) and isinstance(b, V) and type(a) is type(b) and a.key() == b.key():
            return TRUE
        if isinstance(a, RefV) and isinstance(b, RefV):
            return self.eq(self.read(a.lv), self.read(b.lv))
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.eq(b):
                return TRUE
            if a.sort() == b.sort():
                return simp(a == b) if not (has_quant(a) or has_quant(b)) else a == b
            if a.sort() == B and b.sort() == I:
                return z3.If(a, 1, 0) == b
            if b.sort() == B and a.sort() == I:
                return z3.If(b, 1, 0) == a
        if isinstance(a, S) and isinstance(b, S):
            return self.seq(a, b)
        if isinstance(a, Rec) and isinstance(b, Rec):
            ks = [k for k in a.f if k in b.f]
            return And(*[self.eq(a.f[k], b.f[k]) for k in ks])
        if isinstance(a, Vec) and isinstance(b, Vec):
            return self.veq(a, b)
        if isinstance(a, Map) and isinstance(b, Map):
            return self.meq(a, b)
        if isinstance(a, Opt) and isinstance(b, Opt):
            if a.val is None or b.val is None:
                return And(Not(a.has), Not(b.has))
            return And(a.has == b.has, Implies(a.has, self.eq(a.val, b.val)))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.tgt is None:
                return b.null if z3.is_true(a.null) else And(a.null, b.null)
            if b.tgt is None:
                return a.null if z3.is_true(b.null) else And(a.null, b.null)
            if key(a.tgt) == key(b.tgt):
                return a.null == b.null
            if is_lv(a.tgt) and is_lv(b.tgt) and a.tgt.root != b.tgt.root:
                return And(a.null, b.null)
            m = self.ideq(a.tgt, b.tgt)
            if m is not None:
                return And(a.null == b.null, Or(a.null, m, self.uf(self.new('sameptr'), B)))
            if isinstance(a.tgt, Op) and isinstance(b.tgt, Op):
                return And(a.null == b.null, Or(a.null, self.uf(self.new('sameptr'), B)))
            raise Unsupported('pointer comparison')
        if isinstance(a, S) and isinstance(b, Ptr):
            return FALSE if b.tgt is None else And(Not(b.null), self.eq(a, b.tgt))
        if isinstance(b, S) and isinstance(a, Ptr):
            return self.eq(b, a)
        if isinstance(a, It) and isinstance(b, It):
            return self.lib.it_eq(self, a, b)
        if isinstance(a, (Op, Fn)) and isinstance(b, (Op, Fn)):
            if a.key() == b.key():
                return TRUE
            m = self.ideq(a, b)
            if m is not None:
                return Or(m, self.uf(self.new('same'), B))
            if isinstance(a, Fn) and isinstance(b, Fn):
                return self.uf(self.new('same'), B)
            if isinstance(a, Op) and isinstance(b, Op) and a.tag == b.tag and len(a.d) == len(b.d) and a.tag.startswith(('ev', 'js', 'json', 'jo', 'ja', 'txt')):
                cs = []
                for x, y in zip(a.d, b.d):
                    if isinstance(x, (V, z3.ExprRef)) and isinstance(y, (V, z3.ExprRef)):
                        cs.append(self.eq(x, y))
                    elif x != y:
                        return FALSE
                return And(*cs)
            if isinstance(a, Op) and isinstance(b, Op) and a.tag.startswith('ev') and b.tag.startswith('ev'):
                return FALSE
        if a is None and b is None:
            return TRUE
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

    def seq(self, a, b):
        pa, pb = list(a.parts), list(b.parts)

        def same(x, y):
            return (x == y) if isinstance(x, str) or isinstance(y, str) else x.eq(y)

        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < len(x) and n < len(y) and x[n] == y[n]:
                    n += 1
                if n < len(x) and n < len(y):
                    return FALSE
                pa[0], pb[0] = x[n:], y[n:]
                if not pa[0]:
                    pa.pop(0)
                if not pb[0]:
                    pb.pop(0)
                if n == 0:
                    break
                continue
            if isinstance(x, str) != isinstance(y, str):
                break
            if x.eq(y):
                pa.pop(0)
                pb.pop(0)
                continue
            break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < len(x) and n < len(y) and x[-1 - n] == y[-1 - n]:
                    n += 1
                if n < len(x) and n < len(y):
                    return FALSE
                pa[-1], pb[-1] = x[:len(x) - n], y[:len(y) - n]
                if not pa[-1]:
                    pa.pop()
                if not pb[-1]:
                    pb.pop()
                if n == 0:
                    break
                continue
            if isinstance(x, str) != isinstance(y, str):
                break
            if x.eq(y):
                pa.pop()
                pb.pop()
                continue
            break
        if not pa and not pb:
            return TRUE
        if not pa or not pb:
            rest = pa or pb
            if any(isinstance(x, str) for x in rest):
                return FALSE
            return And(*[x == lit('') for x in rest])
        return simp(S(tuple(pa)).term() == S(tuple(pb)).term())

    def veq(self, a, b):
        if a.key() == b.key():
            return TRUE
        if not a.segs:
            return self.vempty(b)
        if not b.segs:
            return self.vempty(a)
        if all(isinstance(s, U) for s in a.segs + b.segs):
            if len(a.segs) != len(b.segs):
                return FALSE
            return And(*[self.eq(x.v, y.v) for x, y in zip(a.segs, b.segs)])
        # same-shape segments
        if len(a.segs) == len(b.segs) == 1:
            x, y = a.segs[0], b.segs[0]
            if (isinstance(x, Base) or regular(x)) and (isinstance(y, Base) or regular(y)):
                ka, kb = sorted([intern_key(x.key()), intern_key(y.key())])
                fi = tuple(c for _, c in sorted(free_ix((x, y)).items()))
                atom = self.uf('veq:%d:%d' % (ka, kb), B, fi)
                self.veqs = getattr(self, 'veqs', {})
                self.veqs[(ka, kb)] = (atom, x, y, fi)
                return atom
        for p, q in ((a, b), (b, a)):
            if len(p.segs) == 1 and isinstance(p.segs[0], SIte):
                s = p.segs[0]
                return And(Implies(s.c, self.veq(Vec(s.a), q)), Implies(Not(s.c), self.veq(Vec(s.b), q)))
        # strip common prefix / suffix segments
        sa, sb = list(a.segs), list(b.segs)
        ch = False
        while sa and sb and sa[0].key() == sb[0].key():
            sa.pop(0)
            sb.pop(0)
            ch = True
        while sa and sb and sa[-1].key() == sb[-1].key():
            sa.pop()
            sb.pop()
            ch = True
        if ch:
            return self.veq(Vec(sa), Vec(sb))
        if len(sa) == len(sb) == 1 and isinstance(sa[0], FM) and isinstance(sb[0], FM):
            x, y = sa[0], sb[0]
            # elementwise sufficient+necessary only when both single-valued per index: give up otherwise
            j = self.bv()
            inner = self.fm_case_eq(x, y, j)
            if inner is not None:
                return And(x.n == y.n, qall(j, Implies(And(j >= 0, j < x.n), inner)))
        raise Unsupported('vector equality')

    def fm_case_eq(self, x, y, j):
        cs = []
        for c, ss in x.cases:
            for d, tt in y.cases:
                g = And(z3.substitute(c, (x.iv, j)), z3.substitute(d, (y.iv, j)))
                if simp(g).eq(FALSE):
                    continue
                e = self.veq(Vec([subst(s, [(x.iv, j)]) for s in ss]), Vec([subst(t, [(y.iv, j)]) for t in tt]))
                cs.append(Implies(g, e))
        return And(*cs)

    def veq_axioms(self):
        """definitional axioms of the vector-equality atoms (second proof pass)."""
        out = []
        for (ka, kb), (atom, x, y, fi) in getattr(self, 'veqs', {}).items():
            j = z3.Int('$v%d_%d' % (ka, kb))
            body = qall(j, Implies(And(j >= 0, j < self.seglen(x)), self.eq(self.elem(x, j), self.elem(y, j))))
            f = atom == And(self.seglen(x) == self.seglen(y), body)
            vs = [i for i in fi if z3.is_const(i)]
            out.append(z3.ForAll(vs, f) if vs else f)
        return out

    def meq(self, a, b):
        if a.key() == b.key():
            return TRUE
        ks = self.ksort(a)
        q = z3.Const('$meq%d_%d' % tuple(sorted([intern_key(a.key()), intern_key(b.key())])), ks)
        qv = S((q,)) if ks == Str else q
        m1, m2 = self.mem(a, qv), self.mem(b, qv)
        if a.vty is None:
            return z3.ForAll([q], m1 == m2)
        return z3.ForAll([q], And(m1 == m2, Implies(m1, self.eq(self.mval(a, qv), self.mval(b, qv)))))

    # ------------------------------------------------------------ trace
    def event(self, kind, *data):
        tr = self.store.get('$trace', Vec())
        self.store['$trace'] = Vec(tr.segs + (U(Op('ev:' + kind, *data)),))

    def epoch(self):
        if '$epoch' not in self.store:
            self.store['$epoch'] = z3.Int('epoch0')
        return self.store['$epoch']

    def bump(self):
        self.store['$epoch'] = self.uf(self.new('epoch'), I)

    # ------------------------------------------------------------ expressions
    def rval(self, e):
        v = self.ev(e)
        if is_lv(v):
            if self.acc is not None:
                self.access('r', v)
            return self.read(v)
        return v

    def access(self, kind, lv):
        """ghost record of a memory access by the running task, with the locks held (units about shared state)."""
        if self.tasks:
            lv = self.resolve_soft(lv)
            if kind == 'r' and self.shape is not None and key(lv) == self.shape:
                kind = 's'      # the shape of a container (lookup, size, iteration), not its elements
            self.acc.append((kind, lv, tuple(self.held), tuple(self.tasks), self.line))

    def lval(self, e):
        v = self.ev(e)
        return v if is_lv(v) else self.alloc(v)

    def val(self, v):
        if is_lv(v):
            if self.acc is not None:
                self.access('r', v)
            return self.read(v)
        return v

    def loc(self, v):
        return v if is_lv(v) else self.alloc(v)

    def ev(self, e):
        if 'l' in e:
            self.line = e['l']
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expr %s (%s) line %s' % (e['k'], e.get('n', ''), e.get('l')))
        return m(e)

    def into(self, lv, e):
        """evaluate e directly into location lv (in-place construction)."""
        while e['k'] == 'ctor' and e.get('elide') and len(e['args']) == 1 and e['args'][0]['k'] in ('mat',):
            e = e['args'][0]['e']
        if e['k'] == 'ctor':
            f = self.p.funcs[e['fn']]
            if f.get('root') and not f.get('copymove'):
                self.construct(lv, e)
                return
        self.write(lv, self.rval(e))

    def e_mat(self, e):
        v = self.ev(e['e'])
        return v if is_lv(v) else self.alloc(v, '$m')

    def e_d2b(self, e):
        return self.ev(e['e'])

    def e_rv(self, e):
        return self.rval(e['e'])

    def e_int(self, e):
        return z3.IntVal(int(e['v']))

    def e_bool(self, e):
        return z3.BoolVal(bool(e['v']))

    def e_char(self, e):
        return z3.IntVal(int(e['v']))

    def e_str(self, e):
        return S((e['v'],))

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.default(e['t'])

    def e_enum(self, e):
        return z3.IntVal(int(e['v']))

    def e_this(self, e):
        return Ptr(FALSE, self.frame.this)

    def e_fnref(self, e):
        return Fn('fn', e['fn'])

    def e_typeid(self, e):
        return Op('typeid', e['ty'])

    def e_stdil(self, e):
        return self.rval(e['e'])

    def e_cast(self, e):
        ck = e['ck']
        if ck in ('ToVoid',):
            self.ev(e['e'])
            return None
        v = self.ev(e['e'])
        if ck in ('IntegralToBoolean',):
            v = self.val(v)
            return v != 0 if v.sort() == I else v
        if ck in ('PointerToBoolean',):
            v = self.val(v)
            if isinstance(v, Ptr):
                return Not(v.null)
            return TRUE
        if ck in ('IntegralCast', 'BooleanToSignedIntegral', 'IntegralToBoolean'):
            v = self.val(v)
            if isinstance(v, z3.ExprRef) and v.sort() == B and self.p.kind(e['t']) == 'int':
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return v
        if ck in ('NullToPointer',):
            return NULL
        if ck in ('FunctionToPointerDecay', 'NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr'):
            return v
        if ck in ('ArrayToPointerDecay',):
            return v
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'LValueBitCast', 'Dynamic'):
            return v
        raise Unsupported('cast ' + ck)

    def e_var(self, e):
        i = e['id']
        if e.get('g') or i.startswith('g:'):
            return self.global_lv(i)
        if i in self.frame.vars:
            return self.frame.vars[i]
        raise Unsupported('unbound variable %s' % e.get('n'))

    def global_lv(self, i):
        if i in self.store:
            v = self.store[i]
            return v.lv if isinstance(v, RefV) else LV(i)
        g = self.p.globals.get(i)
        if g is None:
            raise Unsupported('global ' + i)
        h = self.lib.globals_hook(self, i, g)
        if h is not None:
            self.store[i] = h
        elif 'int' in g and g['int'] is not None and (g.get('constexpr') or g['type'].startswith('const ')):
            self.store[i] = z3.BoolVal(bool(int(g['int']))) if self.p.kind(g['type']) == 'bool' else z3.IntVal(int(g['int']))
        elif g.get('constexpr') or g['type'].startswith('const ') or g['type'].rstrip().endswith('const') or g['name'] in self.opts.get('initial_globals', ()):
            if not g.get('init'):
                raise Unsupported('global without initializer ' + g['name'])
            fr, self.frame = self.frame, Frame()
            self.store[i] = None
            idx, self.idx = self.idx, []
            try:
                self.store[i] = self.rval(g['init'])
            finally:
                self.frame = fr
                self.idx = idx
        else:
            # mutable global: arbitrary value at entry
            self.store[i] = self.fresh(g['type'], 'glob:' + g['name'], ())
        return LV(i)

    def e_member(self, e):
        b = self.ev(e['e'])
        if e.get('arrow'):
            b = self.deref(self.val(b))
        cls = parse_ty(e['bt'])[0]
        bt = e['bt'].replace('const ', '').rstrip('*& ').strip()
        if bt in self.p.records:
            cls = bt
        fk, fd = self.find_field(cls, e['f']) if cls in self.p.records else (e['f'], None)
        if not is_lv(b):
            if isinstance(b, Rec):
                v = b.f[fk]
                return v.lv if isinstance(v, RefV) else v
            b = self.alloc(b)
        lv = b + ('f', fk)
        if fd is not None and fd['type'].rstrip().endswith('&'):
            v = self.read_raw(lv)
            if isinstance(v, RefV):
                return v.lv
            raise Unsupported('unbound reference field ' + fk)
        v = self.peek(lv)
        if isinstance(v, RefV):
            return v.lv
        return lv

    def read_raw(self, lv):
        v = self.store[lv.root]
        for el in lv.path:
            v = self.sub(v, el)
        return v

    def peek(self, lv):
        """value at lv if it is cheaply available (no forking)."""
        v = self.store.get(lv.root)
        for el in lv.path:
            if isinstance(v, RefV):
                v = self.read(v.lv)
            if el[0] == 'f' and isinstance(v, Rec):
                v = v.f.get(el[1])
            else:
                return None
        return v

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.tgt is None:
                raise Unsupported('dereference of null pointer')
            if is_lv(p.tgt):
                return p.tgt
            if isinstance(p.tgt, Op):
                h = self.lib.deref_hook(self, p)
                if h is not None:
                    return h
            raise Unsupported('dereference of symbolic pointer %r' % (p.tgt,))
        if isinstance(p, It):
            return self.lib.it_deref(self, p)
        if is_lv(p):
            return p
        if isinstance(p, S):
            return z3.IntVal(0)
        raise Unsupported('deref of %r' % type(p).__name__)

    def e_un(self, e):
        op = e['op']
        if op == '&':
            v = self.ev(e['e'])
            if is_lv(v):
                return Ptr(FALSE, v)
            if isinstance(v, Fn):
                return v
            return Ptr(FALSE, self.alloc(v))
        if op == '*':
            return self.deref(self.rval(e['e']))
        if op == '!':
            return Not(self.tobool(self.rval(e['e'])))
        if op == '-':
            return simp(-self.rval(e['e']))
        if op == '+':
            return self.rval(e['e'])
        if op in ('++', '--'):
            lv = self.lval(e['e'])
            v = self.read(lv)
            d = 1 if op == '++' else -1
            nv = self.lib.it_add(self, v, z3.IntVal(d)) if isinstance(v, It) else simp(v + d)
            self.write(lv, nv)
            return v if e.get('post') else lv
        raise Unsupported('unary ' + op)

    def tobool(self, v):
        if isinstance(v, z3.ExprRef):
            return v if v.sort() == B else v != 0
        if isinstance(v, Ptr):
            return Not(v.null)
        if isinstance(v, Fn):
            return self.lib.fn_nonempty(self, v)
        if isinstance(v, Opt):
            return v.has
        if isinstance(v, S):
            return TRUE
        raise Unsupported('bool of %r' % type(v).__name__)

    def pure(self, e):
        """RHS expression evaluable without side effects / forks (syntactic)."""
        k = e['k']
        if k in ('int', 'bool', 'char', 'str', 'null', 'this', 'enum', 'var', 'zero'):
            return True
        if k in ('rv', 'd2b', 'member', 'mat'):
            return self.pure(e['e'])
        if k == 'cast':
            return self.pure(e['e'])
        if k == 'un' and e['op'] in ('!', '-', '+'):
            return self.pure(e['e'])
        if k == 'bin' and e['op'] in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '&&', '||'):
            return self.pure(e['a']) and self.pure(e['b'])
        return False

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.tobool(self.rval(e['a']))
            if z3.is_true(simp(a)):
                return self.tobool(self.rval(e['b'])) if op == '&&' else TRUE
            if z3.is_false(simp(a)):
                return self.tobool(self.rval(e['b'])) if op == '||' else FALSE
            return self.guarded(a if op == '&&' else Not(a), e['b'], op, a)
        if op == '=':
            if self.p.kind(e['t']) == 'rec':
                pass
            v = self.rval(e['b'])
            lv = self.lval(e['a'])
            self.write(lv, v)
            return lv
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a = self.rval(e['a'])
        b = self.rval(e['b'])
        return self.binop(op, a, b)

    def guarded(self, g, rhs, op, a):
        """a && rhs / a || rhs where rhs is evaluated only under g."""
        if has_quant(g):
            b = None
        # try to evaluate rhs without forking or writing, under assumption g
        if not has_quant(g):
            paths = self.explore(lambda: (self.assume(g), self.tobool(self.rval(rhs)))[1])
            if len(paths) == 1 and paths[0].out == 'normal' and self.same_store(paths[0].store) and not [c for c in paths[0].pc if not c.eq(simp(g))]:
                for f in paths[0].ax:
                    self.axiom(f)
                b = paths[0].val
                return And(a, b) if op == '&&' else Or(a, b)
            if not paths:
                return FALSE if op == '&&' else TRUE
        if self.branch(a):
            return self.tobool(self.rval(rhs)) if op == '&&' else TRUE
        return FALSE if op == '&&' else self.tobool(self.rval(rhs))

    def same_store(self, st):
        for r, v in self.store.items():
            w = st.get(r)
            if w is not v and (w is None or key(w) != key(v)):
                return False
        return True

    def binop(self, op, a, b):
        if isinstance(a, It) or isinstance(b, It):
            if op == '==':
                return self.eq(a, b)
            if op == '!=':
                return Not(self.eq(a, b))
            return self.lib.it_binop(self, op, a, b)
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            return Not(self.eq(a, b))
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() == B:
                a = z3.If(a, z3.IntVal(1), z3.IntVal(0)) if op not in ('&', '|', '^') or b.sort() != B else a
            if b.sort() == B and op not in ('&', '|', '^'):
                b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            if op in ('&', '|', '^') and a.sort() == B and b.sort() == B:
                return {'&': And(a, b), '|': Or(a, b), '^': z3.Xor(a, b)}[op]
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: a < b, '>': lambda: a > b,
                 '<=': lambda: a <= b, '>=': lambda: a >= b}.get(op)
            if r:
                return simp(r())
            if op in ('/', '%', '&', '|', '^', '<<', '>>'):
                if z3.is_int_value(a) and z3.is_int_value(b):
                    x, y = a.as_long(), b.as_long()
                    f = {'/': lambda: x // y, '%': lambda: x % y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                         '<<': lambda: x << y, '>>': lambda: x >> y}[op]
                    return z3.IntVal(f())
                return z3.Function('op' + op, I, I, I)(a, b)
        raise Unsupported('binop %s on %s,%s' % (op, type(a).__name__, type(b).__name__))

    def e_cassign(self, e):
        op = e['op'][:-1]
        b = self.rval(e['b'])
        lv = self.lval(e['a'])
        self.write(lv, self.binop(op, self.read(lv), b))
        return lv

    def e_cond(self, e):
        c = self.tobool(self.rval(e['c']))
        cs = simp(c) if not has_quant(c) else c
        if z3.is_true(cs):
            return self.ev(e['a'])
        if z3.is_false(cs):
            return self.ev(e['b'])
        if self.branch(c):
            return self.ev(e['a'])
        return self.ev(e['b'])

    def e_index(self, e):
        b = self.ev(e['e'])
        i = self.rval(e['i'])
        if is_lv(b):
            v = self.read(b)
            if isinstance(v, Vec):
                return b + ('e', i)
            if isinstance(v, Ptr):
                b = v
        if isinstance(b, Ptr) and is_lv(b.tgt):
            return b.tgt + ('e', i)
        return self.vat(self.val(b), i)

    def e_ilist(self, e):
        t = e['t']
        base, args, q = parse_ty(t)
        k = self.p.kind(t)
        c = t.replace('const ', '').strip()
        if c in self.p.records and self.p.records[c].get('fields') is not None and 'fields' in e and e.get('fields'):
            root = self.new('$il')
            self.store[root] = Rec(c, {})
            lv = LV(root)
            names = e['fields']
            for n, a in zip(names, e['args']):
                if n.startswith('base:'):
                    bv = self.rval(a)
                    if isinstance(bv, Rec):
                        self.store[root] = Rec(c, {**self.store[root].f, **bv.f})
                    continue
                fk, fd = self.find_field(c, n)
                if fd and fd['type'].rstrip().endswith('&'):
                    self.write(lv + ('f', fk), RefV(self.loc(self.ev(a))))
                else:
                    self.into(lv + ('f', fk), a)
            return self.store[root]
        if t.endswith(']') or k == 'vec' or '[' in t:
            if k == 'vec' and base == 'std::array' and len(e['args']) == 1 and e['args'][0]['k'] == 'ilist':
                return self.rval(e['args'][0])
            return Vec([U(self.rval(a)) for a in e['args']])
        if len(e['args']) == 1:
            return self.rval(e['args'][0])
        if not e['args']:
            return self.default(t)
        if base.startswith('TinyProcessLib::'):
            return Op('cfg')
        raise Unsupported('init list of ' + t)

    def e_lambda(self, e):
        caps, this = [], None
        for c in e['caps']:
            if c.get('this'):
                this = self.frame.this
                if not c.get('byref', True):
                    this = self.alloc(self.read(this), '$starthis')
            elif 'init' in c:
                v = self.ev(c['init'])
                caps.append((c['id'], c.get('byref', False), self.loc(v) if c.get('byref') else self.val(v)))
            else:
                lv = self.frame.vars.get(c['id'])
                if lv is None:
                    raise Unsupported('capture ' + c.get('n', '?'))
                caps.append((c['id'], c['byref'], lv if c['byref'] else self.read(lv)))
        # constants of the enclosing function may be named without being captured
        have = {c[0] for c in caps}
        for i in free_vars(e):
            if i not in have and i in self.frame.vars:
                caps.append((i, False, self.read(self.frame.vars[i])))
        return Fn('lam', e, tuple(caps), this)

    def e_throw(self, e):
        if not e.get('e'):
            if not self.handling:
                raise Unsupported('rethrow outside a handler')
            raise Throw(self.handling[-1])
        raise Throw(self.rval(e['e']))

    def e_new(self, e):
        lv = self.alloc(None, '$heap')
        src = e.get('ce') or e.get('e')
        if src is None:
            self.write(lv, self.default(e['at']))
        else:
            self.into(lv, src)
        self.event('new', lv)
        return Ptr(FALSE, lv)

    def e_delete(self, e):
        p = self.rval(e['e'])
        self.event('delete', p.tgt if is_lv(p.tgt) else p)
        return None

    # ------------------------------------------------------------ calls
    def args_of(self, fn, nodes):
        return [self.ev(a) for a in nodes]

    def e_call(self, e):
        args = self.args_of(e['fn'], e['args'])
        return self.call(e['fn'], None, args, e)

    def e_mcall(self, e):
        f = self.p.funcs[e['fn']]
        obj = self.ev(e['obj'])
        if e.get('arrow'):
            obj = self.deref(self.val(obj))
        args = self.args_of(e['fn'], e['args'])
        return self.call(e['fn'], obj, args, e)

    def e_icall(self, e):
        f = self.rval(e['callee'])
        args = [self.ev(a) for a in e['args']]
        return self.callv(f, args, e.get('t'))

    def e_ctor(self, e):
        f = self.p.funcs[e['fn']]
        if f.get('copymove') and len(e['args']) >= 1:
            v = self.rval(e['args'][0])
            h = self.lib.copy_hook(self, f, v)
            return h if h is not None else v
        if f.get('root'):
            lv = self.alloc(None, '$c')
            self.construct(lv, e)
            return lv if False else self.store[lv.root]
        args = [self.ev(a) for a in e['args']]
        return self.call(e['fn'], None, args, e)

    def e_inhctor(self, e):
        raise Unsupported('inherited ctor')

    def e_methref(self, e):
        raise Unsupported('method reference')

    def construct(self, lv, e):
        """run a repo constructor in place."""
        f = self.p.funcs[e['fn']]
        cls = f['cls']
        if f['name'] in self.contracts or self.p.stripped[e['fn']] in self.contracts:
            args = [self.ev(a) for a in e['args']]
            r = self.call(e['fn'], lv, args, e)
            if r is not None:
                self.write(lv, self.val(r))
            return
        h = self.lib.get(self.p.stripped[e['fn']])
        if h is not None:
            args = [self.ev(a) for a in e['args']]
            self.write(lv, self.val(h(self, None, args, e, f)))
            return
        args = [self.ev(a) for a in e['args']]
        self.construct_with(lv, e['fn'], args, cls)

    def construct_with(self, lv, fn, args, cls, fresh=True):
        f = self.p.funcs[fn]
        if f.get('copymove') and args:
            self.write(lv, self.val(args[0]))
            return
        b = self.p.bodies.get(fn)
        if fresh:
            self.write(lv, Rec(cls, {}))
        if b is None:
            if not args:
                v = self.default(cls)
                self.write(lv, Rec(cls, {**self.read(lv).f, **v.f}))
                if hasattr(self.lib, 'after_default'):
                    pass
                return
            raise Unsupported('constructor without body ' + f['name'])
        self.called.add(fn)
        old, self.frame = self.frame, Frame(fn, lv)
        self.depth += 1
        if self.depth > 60:
            raise Limit('recursion depth')
        try:
            self.bind(f, b, args)
            done = set()
            for it in b.get('inits') or ():
                if it.get('deleg'):
                    self.reinit(lv, it['e'], cls)
                elif it.get('base'):
                    self.reinit(lv, it['e'], None)
                else:
                    fk, fd = self.find_field(f['cls'], it['f'])
                    dst = lv + ('f', fk)
                    if fd and fd['type'].rstrip().endswith('&'):
                        self.write(dst, RefV(self.loc(self.ev(it['e']))))
                    else:
                        self.write(dst, None)
                        self.into(dst, it['e'])
                    done.add(fk)
            for c in (f['cls'],):
                for fd in (self.p.records.get(c) or {}).get('fields', ()):
                    fk = self.fkey(c, fd['name'])
                    if fk not in self.read(lv).f:
                        if fd.get('init'):
                            self.write(lv + ('f', fk), None)
                            self.into(lv + ('f', fk), fd['init'])
                        elif fd['type'].rstrip().endswith('&'):
                            pass
                        elif self.p.kind(fd['type']) in ('int', 'bool', 'ptr', 'cstr'):
                            self.write(lv + ('f', fk), self.fresh(fd['type'], self.new('uninit')))
                        else:
                            self.write(lv + ('f', fk), self.default(fd['type']))
            if b.get('body'):
                try:
                    self.ex(b['body'])
                except Return:
                    pass
        finally:
            self.frame = old
            self.depth -= 1

    def reinit(self, lv, e, cls):
        while e['k'] in ('mat', 'd2b') and 'e' in e:
            e = e['e']
        if e['k'] != 'ctor':
            if e['k'] in ('zero', 'ilist', 'inhctor'):
                if e['k'] == 'inhctor':
                    raise Unsupported('inherited ctor')
                return
            raise Unsupported('base init ' + e['k'])
        f = self.p.funcs[e['fn']]
        if f.get('copymove') and e['args']:
            v = self.rval(e['args'][0])
            self.write(lv, Rec(self.read(lv).ty, {**self.read(lv).f, **v.f}))
            return
        if not f.get('root') and not e['args']:
            return
        args = [self.ev(a) for a in e['args']]
        if self.p.bodies.get(e['fn']) is None and not args:
            v = self.default(f['cls'])
            if isinstance(v, Rec):
                self.write(lv, Rec(self.read(lv).ty, {**self.read(lv).f, **v.f}))
            return
        self.construct_with(lv, e['fn'], args, None, fresh=False)

    def bind(self, f, b, args):
        ps = b.get('params') or f['params']
        for n, p in enumerate(ps):
            if n >= len(args):
                raise Unsupported('missing argument of ' + f['name'])
            t = p['type']
            a = args[n]
            if t.rstrip().endswith('&'):
                self.frame.vars[p['id']] = self.loc(a)
            else:
                v = self.val(a)
                self.frame.vars[p['id']] = self.alloc(v, p['id'])

    def call(self, fn, obj, args, e=None):
        f = self.p.funcs[fn]
        name = self.p.stripped[fn]
        if obj is not None and f['name'].startswith('lambda:'):
            # a lambda called by name: same as calling the closure value
            v = self.val(obj)
            if isinstance(v, Fn):
                return self.callv(v, args, want=fn)
        # virtual dispatch
        if obj is not None and f.get('virtual') and not (e or {}).get('qual'):
            lv = self.loc(obj)
            v = self.read(lv)
            if isinstance(v, Rec) and v.ty in self.p.records:
                fn2 = self.p.override(v.ty, fn)
                if fn2 != fn:
                    fn, f, name = fn2, self.p.funcs[fn2], self.p.stripped[fn2]
            obj = lv
        c = self.contracts.get(f['name']) or self.contracts.get(name)
        if c is not None:
            self.used_contracts.add(f['name'])
            return c(self, obj, args, e, f)
        h = self.lib.get(name)
        if h is None and name.startswith(('std::atomic::operator ', 'std::__atomic_base::operator ')):
            h = self.lib.get('std::atomic::load')
        if h is not None:
            self.used_lib.add(name)
            if self.acc is not None and obj is not None and is_lv(obj) and name.rsplit('::', 1)[-1] in self.SHAPE:
                old, self.shape = self.shape, key(self.resolve_soft(obj))
                try:
                    return h(self, obj, args, e, f)
                finally:
                    self.shape = old
            return h(self, obj, args, e, f)
        b = self.p.bodies.get(fn)
        if b is not None:
            return self.run_body(fn, f, b, obj, args)
        if f.get('assignop') and obj is not None and len(args) == 1:
            self.write(self.loc(obj), self.val(args[0]))
            return obj
        if f.get('kind') == 'ctor':
            if f.get('copymove') and args:
                return self.val(args[0])
            if not args:
                return self.default(f['cls'])
        if f.get('kind') == 'dtor':
            return None
        r = self.opaque(f, obj, args)
        if r is not None:
            return r
        raise Unsupported('external function %s (line %s)' % (f['name'][:160], self.line))

    SHAPE = ('find', 'at', 'count', 'contains', 'operator[]', 'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'back', 'front', 'data')

    PURE = ('std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=', 'std::basic_string::compare', 'std::basic_string_view::compare', 'std::stoull', 'std::stoll', 'std::stoul',
            'std::stoi', 'std::atoi', 'std::atoll', 'std::strtoull', 'std::isalpha', 'std::isdigit', 'std::isalnum', 'std::isupper', 'std::islower', 'std::toupper', 'std::tolower', 'toupper', 'tolower',
            'std::basic_string::rfind', 'std::basic_string::find_first_not_of', 'std::basic_string::find_last_not_of', 'std::basic_string::find_last_of', 'std::hash::operator()', 'std::basic_string::max_size')

    def opaque(self, f, obj, args):
        """a pure library function without a contract is an uninterpreted function of its arguments; the unit is then marked as
        over-approximated, so that a proof still counts but an undischarged obligation is not reported on this ground alone."""
        nm = re.sub(r'<[^<>]*(<[^<>]*>[^<>]*)*>', '', f['name']) if not f['name'].endswith(('operator<', 'operator>', 'operator<=', 'operator>=')) else f['name']
        if nm not in self.PURE and f['name'] not in self.PURE:
            return None
        ts = []
        for a in ([obj] if obj is not None else []) + list(args):
            v = self.val(a)
            if isinstance(v, S):
                ts.append(v.term())
            elif isinstance(v, z3.ExprRef):
                ts.append(v)
            else:
                return None
        k = self.p.kind(f['ret'])
        srt = {'str': Str, 'int': I, 'bool': B}.get(k)
        if srt is None:
            return None
        self.taint.add('uninterpreted ' + f['name'][:60])
        t = z3.Function('pure:' + nm, *([x.sort() for x in ts] + [srt]))(*ts)
        return S((t,)) if k == 'str' else t

    def run_body(self, fn, f, b, obj, args):
        if f.get('kind') == 'ctor':
            lv = self.alloc(None, '$c')
            self.construct_with(lv, fn, args, f['cls'])
            return self.store[lv.root]
        self.called.add(fn)
        this = self.loc(obj) if obj is not None else None
        if this is not None:
            this = self.resolve_soft(this)
        old, self.frame = self.frame, Frame(fn, this, (f.get('ret') or '').rstrip().endswith('&'))
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            self.frame = old
            raise Limit('recursion depth')
        try:
            self.bind(f, b, args)
            self.ex(b['body'])
            r = None
        except Return as x:
            r = x.val
        finally:
            self.frame = old
            self.depth -= 1
        return r

    def resolve_soft(self, lv):
        v = self.peek(lv)
        return v.lv if isinstance(v, RefV) else lv

    def callv(self, f, args, t=None, want=None):
        """call a callable value."""
        if is_lv(f):
            f = self.read(f)
        if isinstance(f, Fn):
            if f.kind == 'lam':
                e = f.node
                fn = e.get('fn')
                body = e.get('body')
                if e.get('generic'):
                    insts = e['insts']
                    exact = [i for i in insts if i['fn'] == want]
                    if exact:
                        insts = exact
                    elif len(insts) != 1:
                        insts = [i for i in insts if self.match_inst(i, args)]
                    if not insts:
                        raise Unsupported('generic lambda instance')
                    fn, body = insts[0]['fn'], insts[0]['body']
                fi = self.p.funcs[fn]
                old, self.frame = self.frame, Frame(fn, f.this, (fi.get('ret') or '').rstrip().endswith('&'))
                self.depth += 1
                if self.depth > 60:
                    self.depth -= 1
                    self.frame = old
                    raise Limit('recursion depth')
                try:
                    for i, byref, v in f.caps:
                        self.frame.vars[i] = v if byref else self.alloc(v, i)
                    self.bind(fi, {'params': fi['params']}, args)
                    self.ex(body)
                    r = None
                except Return as x:
                    r = x.val
                finally:
                    self.frame = old
                    self.depth -= 1
                return r
            if f.kind == 'fn':
                return self.call(f.node, None, args)
            if f.kind == 'sym':
                return self.lib.call_sym(self, f, args, t)
            if f.kind == 'empty':
                raise Throw(Op('exc', 'std::bad_function_call'))
            if f.kind == 'py':
                return f.node(self, args)
            if f.kind == 'bind':
                return self.callv(f.caps[0][2], list(f.extra) + args, t)
        if isinstance(f, Rec):
            for c in reversed(self.p.bases(f.ty)):
                for m in self.p.records[c].get('methods', ()):
                    if m['name'] == 'operator()' and m['fn'] in self.p.bodies and len(self.p.funcs[m['fn']]['params']) == len(args):
                        return self.call(m['fn'], self.alloc(f), args)
        if isinstance(f, Ptr) and f.tgt is not None:
            return self.callv(self.read(f.tgt) if is_lv(f.tgt) else f.tgt, args, t)
        raise Unsupported('call of %r' % (f,))

    def match_inst(self, inst, args):
        ps = self.p.funcs[inst['fn']]['params']
        if len(ps) != len(args):
            return False
        for p, a in zip(ps, args):
            k = self.p.kind(p['type'])
            v = self.val(a)
            ok = {'bool': lambda: isinstance(v, z3.ExprRef) and v.sort() == B, 'int': lambda: isinstance(v, z3.ExprRef) and v.sort() == I,
                  'str': lambda: isinstance(v, S), 'vec': lambda: isinstance(v, Vec)}.get(k, lambda: True)()
            if k == 'rec' and isinstance(v, Rec) and v.ty != 'pair':
                ok = parse_ty(p['type'])[0] in self.p.bases(v.ty)
            if not ok:
                return False
        return True

    # ------------------------------------------------------------ statements
    def ex(self, s):
        if s is None:
            return
        if 'l' in s:
            self.line = s['l']
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('stmt %s line %s' % (s['k'], s.get('l')))
        m(s)

    def s_block(self, s):
        n = len(self.held)
        try:
            for x in s['s']:
                self.ex(x)
        finally:
            # lock guards declared in the block release here
            del self.held[n:]

    def s_null(self, s):
        pass

    def s_expr(self, s):
        n = len(self.held)
        self.ev(s['e'])
        if s['e'].get('k') not in ('mcall', 'call'):
            del self.held[n:]

    def s_decl(self, s):
        for d in s['d']:
            self.declare(d)

    def declare(self, d):
        t = d['t']
        if d.get('static'):
            root = 'static:' + d['id']
            if root not in self.store:
                if t.startswith('const ') or '*const' in t:
                    self.store[root] = self.rval(d['init']) if d.get('init') else self.default(t)
                else:
                    self.store[root] = self.fresh(t, root, ())
            self.frame.vars[d['id']] = LV(root)
            return
        if d.get('bind'):
            v = self.ev(d['init']) if t.rstrip().endswith('&') else self.rval(d['init'])
            lv = self.loc(v)
            self.bind_struct(lv, d['bind'])
            return
        if t.rstrip().endswith('&'):
            self.frame.vars[d['id']] = self.loc(self.ev(d['init']))
            return
        lv = self.alloc(None, d['id'])
        self.frame.vars[d['id']] = lv
        if d.get('init') is not None:
            self.into(lv, d['init'])
        else:
            k = self.p.kind(t)
            self.write(lv, self.fresh(t, self.new('uninit')) if k in ('int', 'bool') else self.default(t))

    def bind_struct(self, lv, binds):
        lv = self.resolve(lv)
        v = self.read(lv)
        if isinstance(v, Rec):
            if v.ty == 'pair':
                names = ['first', 'second']
            else:
                names = [self.fkey(c, f['name']) for c, f in self.p.fields(v.ty)]
            for b, n in zip(binds, names):
                x = self.peek(lv + ('f', n))
                self.frame.vars[b['id']] = x.lv if isinstance(x, RefV) else lv + ('f', n)
            return
        raise Unsupported('structured binding')

    def s_if(self, s):
        if s.get('init'):
            self.ex(s['init'])
        if s.get('constexpr') and s.get('cval') is not None:
            self.ex(s['a'] if s['cval'] else s.get('b'))
            return
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.tobool(self.rval(s['c']))
        if self.branch(c):
            self.ex(s['a'])
        else:
            self.ex(s.get('b'))

    def s_return(self, s):
        if s.get('e') is None:
            raise Return(None)
        if self.frame.refret:
            raise Return(self.loc(self.ev(s['e'])))
        raise Return(self.rval(s['e']))

    def s_break(self, s):
        raise BreakX()

    def s_continue(self, s):
        raise ContinueX()

    def s_try(self, s):
        fv = self.frame
        idx = len(self.idx)
        depth = self.depth
        try:
            self.ex(s['body'])
        except Throw as t:
            self.frame = fv
            del self.idx[idx:]
            self.depth = depth
            for h in s['h']:
                if h.get('all') or self.lib.exc_matches(self, t.val, h['var']['t']):
                    if h.get('var') and h['var'].get('id'):
                        self.frame.vars[h['var']['id']] = self.alloc(t.val)
                    self.handling.append(t.val)
                    try:
                        self.ex(h['body'])
                    finally:
                        self.handling.pop()
                    return
            raise

    def s_switch(self, s):
        if s.get('init'):
            self.ex(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.rval(s['c'])
        body = s['body']['s'] if s['body']['k'] == 'block' else [s['body']]
        # flatten labels
        labels = []
        for n, x in enumerate(body):
            y = x
            while y and y['k'] in ('case', 'default'):
                if y['k'] == 'case':
                    labels.append((y['v'], n))
                else:
                    labels.append((None, n))
                y = y['s']
        start = None
        dflt = None
        for v, n in labels:
            if v is None:
                dflt = n
                continue
            cv = self.rval(v) if isinstance(v, dict) else z3.IntVal(int(v))
            if self.branch(self.eq(c, cv)):
                start = n
                break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for x in body[start:]:
                while x and x['k'] in ('case', 'default'):
                    x = x['s']
                self.ex(x)
        except BreakX:
            pass

    def s_rfor(self, s):
        from . import loops
        if s.get('init'):
            self.ex(s['init'])
        rng = self.ev(s['range'])
        loops.range_for(self, rng, s['var'], s['body'])

    def s_for(self, s):
        from . import loops
        if s.get('init'):
            self.ex(s['init'])
        loops.general_loop(self, s.get('c'), s.get('inc'), s['body'], cv=s.get('cv'))

    def s_while(self, s):
        from . import loops
        loops.general_loop(self, s['c'], None, s['body'], cv=s.get('cv'))

    def s_do(self, s):
        from . import loops
        try:
            self.ex(s['body'])
        except BreakX:
            return
        except ContinueX:
            pass
        loops.general_loop(self, s['c'], None, s['body'])


_intern = {}


def intern_key(k):
    if k not in _intern:
        _intern[k] = len(_intern)
    return _intern[k]


def free_idx(node, idx):
    out = []
    for i in idx:
        if node_mentions(node, i):
            out.append(i)
    return out


def free_idx_v(vs, idx):
    out = []
    for i in idx:
        if any(val_mentions(v, i) for v in vs):
            out.append(i)
    return out


def node_mentions(n, i):
    for x in n:
        if isinstance(x, tuple):
            if node_mentions(x, i):
                return True
        elif val_mentions(x, i):
            return True
    return False


def val_mentions(v, i):
    if isinstance(v, z3.ExprRef):
        return mentions(v, i)
    if isinstance(v, S):
        return any(not isinstance(p, str) and mentions(p, i) for p in v.parts)
    if isinstance(v, V):
        k = v.key()
        return key(subst(v, [(i, z3.Int('$probe'))])) != k
    if isinstance(v, tuple):
        return any(val_mentions(x, i) for x in v)
    return False


def lits_in(fs):
    out, seen = {}, set()
    stack = list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x):
            n = x.decl().name()
            if len(n) >= 2 and n[0] == '"' and n[-1] == '"' and x.sort() == Str:
                out[n] = x
        else:
            stack.extend(x.children())
    return list(out.values())


def distinct_lits(fs):
    ls = lits_in(fs)
    return [z3.Distinct(*ls)] if len(ls) > 1 else []

"""Loop rule: a loop is replaced by an exact summary of its body.

The body is executed once, on all paths, for a generic iteration i, with every
location that any iteration may modify holding an unknown "head" value; the
per-path updates are then folded into closed forms (append -> flat-map segment,
in-place update -> map segment, sticky flag -> bounded quantifier, counter ->
linear term, map insert/erase -> bounded quantifier with first/last-writer
witness, anything scalar else -> defining recurrence).  Nothing is unrolled to a
bound except loops whose trip count is a literal constant."""
import z3
from .vals import *
from .engine import *

UNROLL = 16


def range_for(E, rng, var, body):
    ref = var['t'].rstrip().endswith('&')
    const = var['t'].startswith('const ')
    saved = dict(E.frame.vars)

    def one(el, _):
        if var.get('bind'):
            lv = E.loc(el)
            E.bind_struct(lv, var['bind'])
        elif ref:
            E.frame.vars[var['id']] = E.loc(el)
        else:
            E.frame.vars[var['id']] = E.alloc(E.val(el), var['id'])
        E.ex(body)
    iterate(E, rng, one, need_lv=ref and not const)
    E.frame.vars = saved


def map_entries(m):
    """[(key, value)] of a map built by insertions of distinct known keys into an empty map, else None."""
    n, out = m.node, []
    while n[0] in ('put', 'ins'):
        out.insert(0, (n[0], n[2], n[3]))
        n = n[1]
    if n[0] != 'E':
        return None
    if len(out) == 1:
        return [(out[0][1], out[0][2])]
    d = {}
    for op, k, v in out:
        c = k.conc() if isinstance(k, S) else None
        if c is None:
            return None
        if op == 'put' or c not in d:
            d[c] = (k, v)
    return list(d.values())


def iterate(E, c, f, need_lv=False, lo=None, hi=None):
    """run f(element, index) for every element of container c in order; returns True on break."""
    v = E.val(c)
    lv = c if is_lv(c) else None
    if isinstance(v, Op):
        v2 = E.lib.iterable(E, v)
        if v2 is not None:
            v, lv = v2, None
    if isinstance(v, Map):
        ents = map_entries(v)
        if ents is not None and len(ents) == 1:
            if lv is None:
                lv = E.alloc(v)
            k = ents[0][0]
            try:
                f(E.alloc(k) if v.vty is None else E.alloc(Rec('pair', {'first': k, 'second': RefV(lv + ('m', k))})), z3.IntVal(0))
            except ContinueX:
                pass
            except BreakX:
                return True
            return False
        n, kf = E.mapenum(v)
        if z3.is_int_value(n) and n.as_long() == 0:
            return False
        if lv is None:
            lv = E.alloc(v)

        def bodym(j):
            k = kf(j)
            if v.vty is None:
                f(lv + ('mk', k), j)
            else:
                f(E.alloc(Rec('pair', {'first': k, 'second': RefV(lv + ('m', k))})), j)
        return run_loop(E, n, bodym)
    if not isinstance(v, Vec):
        raise Unsupported('iteration over %r' % type(v).__name__)
    off = z3.IntVal(0)
    segs = list(v.segs)
    multi = len(segs) > 1
    while segs:
        s = segs.pop(0)
        if isinstance(s, SIte):
            segs = list(s.a if E.branch(s.c) else s.b) + segs
            continue
        if isinstance(s, U):
            el = lv + ('e', off) if lv is not None and (need_lv or not multi or all(isinstance(x, U) for x in v.segs)) else s.v
            try:
                f(el, off)
            except ContinueX:
                pass
            except BreakX:
                return True
            off = simp(off + 1)
            continue
        if isinstance(s, Base) or regular(s):
            o = off

            def bodyv(j, s=s, o=o):
                if lv is not None and (need_lv or not multi):
                    f(lv + ('e', simp(o + j)), simp(o + j))
                else:
                    f(E.elem(s, j), simp(o + j))
            if run_loop(E, E.seglen(s), bodyv):
                return True
            off = simp(off + E.seglen(s))
            continue
        if isinstance(s, FM):
            if need_lv:
                raise Unsupported('mutable iteration over irregular vector')

            def bodyf(j, s=s):
                opts = [[z3.substitute(c, (s.iv, j))] for c, ss in s.cases]
                k = E.choose(opts)
                inner = Vec([subst(q, [(s.iv, j)]) for q in s.cases[k][1]])
                if iterate(E, inner, f):
                    raise BreakX()
            if run_loop(E, s.n, bodyf):
                return True
            off = simp(off + E.seglen(s))
            continue
        raise Unsupported('iteration over loop-carried vector')
    return False


def takes_back(E, x):
    if isinstance(x, dict):
        fn = x.get('fn')
        if isinstance(fn, str) and E.p.stripped.get(fn, '').split('::')[-1] in ('back', 'pop_back', 'top') or \
                isinstance(fn, str) and E.p.stripped.get(fn, '') == 'std::stack::pop':
            return True
        return any(takes_back(E, y) for y in x.values())
    if isinstance(x, list):
        return any(takes_back(E, y) for y in x)
    return False


def worklist_loop(E, cond, body, hook):
    """A while loop over a worklist of tasks, by an invariant given in the unit: established on entry, assumed of an arbitrary worklist,
    re-established by the body; after the loop the worklist is empty.  Returns False when the loop does not have this shape."""
    wl = [lv for lv in set(E.frame.vars.values()) if is_lv(lv) and not lv.path and isinstance(E.store.get(lv.root), Vec) and E.read(lv).segs and
          all(isinstance(x, U) and isinstance(x.v, Op) and x.v.tag in ('task', 'ext:tf::Task') for x in E.read(lv).segs)]
    if len(wl) != 1 or cond is None:
        return False
    wl = wl[0]
    inv = hook['inv'](E.read(wl))
    hook['ob']('worklist-established', inv(E.read(wl)))
    nm = E.new('wl')
    if E.branch(E.uf(nm + '.more', B)):
        # any non-empty list is one element before or after an arbitrary list: show the end the body takes from
        head, rest = U(E.fresh('tf::Task', nm + '.h')), Base(nm, 'tf::Task', tuple(E.idx))
        E.write(wl, Vec((rest, head) if takes_back(E, body) else (head, rest)))
        E.axiom(E.closed_all(rest.n() >= 0))
        E.assume(inv(E.read(wl)))
        if not E.branch(E.tobool(E.rval(cond))):
            raise Unsupported('worklist loop stops early')
        before = dict(E.store)
        try:
            E.ex(body)
        except ContinueX:
            pass
        for r, v in before.items():
            if r != wl.root and r != '$trace' and E.store.get(r) is not v and key(E.store.get(r)) != key(v):
                raise Unsupported('worklist loop changes other state')
        hook['ob']('worklist-preserved', inv(E.read(wl)))
        raise Infeasible()
    E.write(wl, Vec())
    E.assume(inv(Vec()))
    if E.branch(E.tobool(E.rval(cond))):
        raise Unsupported('worklist loop condition')
    return True


def general_loop(E, cond, inc, body, cv=None):
    saved = dict(E.frame.vars)
    if E.opts.get('worklist') and inc is None and not cv and worklist_loop(E, cond, body, E.opts['worklist']):
        return

    def one(i):
        if cv:
            E.declare(cv)
        if cond is not None:
            if not E.branch(E.tobool(E.rval(cond))):
                raise BreakX()
        try:
            E.ex(body)
        except ContinueX:
            pass
        if inc is not None:
            E.ev(inc)
    # concrete unrolling when the condition folds
    for _ in range(UNROLL):
        if cond is None:
            break
        if cv:
            break
        c = probe_cond(E, cond)
        if c is None:
            break
        if c is False:
            E.frame.vars = saved
            return
        try:
            E.ev(cond)
            try:
                E.ex(body)
            except ContinueX:
                pass
            if inc is not None:
                E.ev(inc)
        except BreakX:
            E.frame.vars = saved
            return
    run_loop(E, None, one)
    E.frame.vars = saved


def probe_cond(E, cond):
    ps = E.explore(lambda: E.tobool(E.rval(cond)))
    if len(ps) == 1 and ps[0].out == 'normal':
        c = simp(ps[0].val)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
    return None


# ------------------------------------------------------------------ locations
class MK:
    """path element: the entry of a fixed key."""

    def __init__(self, k):
        self.k, self.id = k, key(k)

    def __eq__(self, o):
        return isinstance(o, MK) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __str__(self):
        return '[%d]' % intern_key(('mk', self.id))
    __repr__ = __str__


def chain(n):
    """entries of a map made of writes to distinct literal keys, else None."""
    out = []
    while n[0] in ('put', 'ins'):
        if lit_key(n[2]) is None or any(lit_key(k) == lit_key(n[2]) for k, _ in out):
            return None
        out.append((n[2], n[3]))
        n = n[1]
    return out if n[0] == 'E' else None


def diff(E, i, a, b, path, out):
    if a is b:
        return
    if a is not None and b is not None and key(a) == key(b):
        return
    if isinstance(a, Rec) and isinstance(b, Rec) and a.ty == b.ty and a.f.keys() == b.f.keys():
        for k in a.f:
            diff(E, i, a.f[k], b.f[k], path + (k,), out)
        return
    if isinstance(a, Map) and isinstance(b, Map) and a.vty is not None and a.node[0] != 'head':
        ca, cb = chain(a.node), chain(b.node)
        if ca and cb and [key(k) for k, _ in ca] == [key(k) for k, _ in cb]:
            for (k, x), (_, y) in zip(ca, cb):
                diff(E, i, x, y, path + (MK(k),), out)
            return
        if b.node[0] == 'put' and not val_mentions(b.node[2], i):
            k = b.node[2]
            if a.node[0] == 'put' and key(a.node[2]) == key(k) and nkey(a.node[1]) == nkey(b.node[1]):
                return diff(E, i, a.node[3], b.node[3], path + (MK(k),), out)
            if nkey(a.node) == nkey(b.node[1]):
                return diff(E, i, E.mval(a, k), b.node[3], path + (MK(k),), out)
    if isinstance(a, Map) and isinstance(b, Map) and a.vty is not None and a.node[0] == 'head' and b.node[0] == 'put' and not val_mentions(b.node[2], i) and nkey(a.node) == nkey(b.node[1]):
        return diff(E, i, E.mval(a, b.node[2]), b.node[3], path + (MK(b.node[2]),), out)
    out.add(path)


def getp(E, v, path):
    for k in path:
        v = E.mval(v, k.k) if isinstance(k, MK) else v.f[k]
    return v


def setp(E, v, path, nv):
    if not path:
        return nv
    k = path[0]
    if isinstance(k, MK):
        return Map(node_put(v.node, k.k, setp(E, E.mval(v, k.k), path[1:], nv)), v.kty, v.vty)
    return v.set(k, setp(E, v.f[k], path[1:], nv))


class Hd:
    def __init__(self, hid, loc, pre, val, i):
        self.hid, self.loc, self.pre, self.val, self.i = hid, loc, pre, val, i


def mkhead(E, hid, pre, new, i):
    idx = tuple(E.idx) + (i,)
    if isinstance(pre, z3.ExprRef):
        return E.uf(hid, pre.sort(), idx)
    if isinstance(pre, S):
        return S((E.uf(hid, Str, idx),))
    if isinstance(pre, Vec):
        return Vec((Head(hid, i, pre),))
    if isinstance(pre, Map):
        return Map(('head', hid, i, pre.node), pre.kty, pre.vty)
    if isinstance(pre, Opt):
        sh = pre.val if pre.val is not None else (new.val if isinstance(new, Opt) else None)
        if isinstance(sh, (z3.ExprRef, S)):
            return Opt(E.uf(hid + '.has', B, idx), mkhead(E, hid + '.val', sh, None, i))
        if sh is None:
            return Opt(E.uf(hid + '.has', B, idx), None)
    if isinstance(pre, It) and pre.pos[0] == 'idx':
        return It(pre.c, ('idx', E.uf(hid, I, idx)), pre.rev)
    if isinstance(pre, Ptr) and isinstance(new, Ptr) and pre.tgt is not None and new.tgt is not None and key(pre.tgt) == key(new.tgt):
        return Ptr(E.uf(hid, B, idx), pre.tgt)
    raise Unsupported('loop-carried %s' % type(pre).__name__)


def run_loop(E, n, body):
    if n is not None:
        n = simp(n)
        if z3.is_int_value(n) and n.as_long() <= UNROLL:
            for k in range(n.as_long()):
                try:
                    body(z3.IntVal(k))
                except ContinueX:
                    pass
                except BreakX:
                    return True
            return False
    E.stats['loops'] += 1
    i = z3.Int(E.new('i'))
    pre = E.store
    heads = {}
    lid = E.new('h')
    frame, fvars = E.frame, dict(E.frame.vars) if E.frame else None
    paths = None
    npc = len(E.pc)
    for rnd in range(12):
        start = dict(pre)
        for (root, path), h in heads.items():
            start[root] = setp(E, start[root], path, h.val)
        E.store = start
        E.idx.append(i)
        E.pc = E.pc[:npc] + [i >= 0] + ([i < n] if n is not None else [])
        try:
            paths = E.explore(lambda: body(i))
        finally:
            E.idx.pop()
            E.pc = E.pc[:npc]
            E.store = pre
        mods, lazy = {}, set()
        for p in paths:
            for root, v in start.items():
                w = p.store.get(root)
                if w is v:
                    continue
                out = set()
                diff(E, i, v, w, (), out)
                for path in out:
                    mods.setdefault((root, path), getp(E, w, path))
            for root in p.store:
                if root not in start and root.startswith(('g:', 'static:')):
                    lazy.add(root)
        new = [l for l in mods if not any(l[0] == r and l[1][:len(q)] == q for r, q in heads)]
        changed_lazy = False
        for root in sorted(lazy):
            vals = {key(p.store[root]) for p in paths if root in p.store and p.store[root] is not None}
            ival = None
            if root.startswith('g:'):
                E.store = dict(pre)
                E.global_lv(root)
                ival = E.store[root]
                E.store = pre
            if ival is not None and vals - {key(ival)}:
                pre = dict(pre)
                pre[root] = ival
                changed_lazy = True
            elif ival is None and len(vals) > 1:
                raise Unsupported('static local modified in loop')
            elif ival is not None:
                pre = dict(pre)
                pre[root] = ival
        if not new and not changed_lazy:
            break
        for root, path in sorted(new, key=str):
            # drop finer heads below
            for l in [l for l in heads if l[0] == root and l[1][:len(path)] == path]:
                del heads[l]
            hid = '%s:%s%s' % (lid, root, ''.join('.' + str(x) for x in path))
            pv = getp(E, pre[root], path)
            heads[(root, path)] = Hd(hid, (root, path), pv, mkhead(E, hid, pv, mods[(root, path)], i), i)
        E.store = pre
    else:
        raise Unsupported('loop fixpoint')
    E.frame = frame
    if frame:
        frame.vars = fvars
    # ------------------------------------------------------------ counters
    comp = [p for p in paths if p.out in ('normal', 'continue')]
    exits = [p for p in paths if p.out not in ('normal', 'continue')]
    pairs = []
    for h in heads.values():
        t = h.val.pos[1] if isinstance(h.val, It) else h.val
        p0 = h.pre.pos[1] if isinstance(h.pre, It) else h.pre
        if isinstance(t, z3.ArithRef):
            ds = set()
            ok = True
            for p in comp:
                nv = getp(E, p.store[h.loc[0]], h.loc[1])
                nv = nv.pos[1] if isinstance(nv, It) else nv
                if not isinstance(nv, z3.ExprRef):
                    ok = False
                    break
                d = simp(nv - t)
                if not z3.is_int_value(d):
                    ok = False
                    break
                ds.add(d.as_long())
            if ok and len(ds) == 1:
                c = ds.pop()
                pairs.append((t, simp(p0 + c * i)))
                h.closed = simp(p0 + c * i)
    if pairs:
        def sp(p):
            q = Path([simp(z3.substitute(c, *pairs)) for c in p.pc], p.out, subst(p.val, pairs) if isinstance(p.val, (V, z3.ExprRef)) else p.val,
                     p.store, p.ax)
            q.store = LazyStore(p.store, pairs)
            q.ax = [z3.substitute(a, *pairs) for a in p.ax]
            return q
        comp = [sp(p) for p in comp]
        exits = [sp(p) for p in exits]
    # bound of while/for loops
    if n is None:
        for q in exits:
            if q.out == 'break' and q.pc and not any(mentions_heads(c, heads, pairs) for c in q.pc) and all(not has_quant(c) for c in q.pc):
                b = find_bound(E, q.cond(), i)
                if b is not None:
                    # this exit is exactly "i reaches the bound"
                    n = b
                    exits = [x for x in exits if x is not q]
                    break
    # ------------------------------------------------------------ summarise
    for p in comp + exits:
        for a in p.ax:
            E.axiom(z3.ForAll([i], a) if mentions(a, i) else a)
    clo = Closer(E, i, n, heads, comp, pre)
    Eq = [simp_and(p.pc) for p in exits]
    anyE = Or(*Eq)
    # "this iteration did not leave the loop": negation of the exits, or, where an exit involves a position chosen by an inner loop
    # (existential), the disjunction of the completing paths
    goes_on = Not(anyE)
    if comp and has_skolem(anyE):
        goes_on = merge_pcs([p.pc for p in comp])
    alts, metas = [], []
    if n is not None:
        if exits:
            j = E.bv()
            alts.append([qall(j, Implies(And(j >= 0, j < n), z3.substitute(goes_on, (i, j))))])
        else:
            alts.append([])
        metas.append(None)
    elif not exits:
        raise Infeasible()   # no exit: never terminates normally
    for q, eq in zip(exits, Eq):
        j0 = E.uf(E.new('x'), I)
        j = E.bv()
        cs = [j0 >= 0]
        if n is not None:
            cs.append(j0 < n)
        cs += [z3.substitute(c, (i, j0)) for c in q.pc]
        cs.append(qall(j, Implies(And(j >= 0, j < j0), z3.substitute(goes_on, (i, j)))))
        alts.append(cs)
        metas.append((q, j0))
    k = E.choose(alts) if len(alts) > 1 else (E.choose(alts) if alts[0] else 0)
    if metas[k] is None:
        st = dict(pre)
        for h in heads.values():
            st[h.loc[0]] = setp(E, st[h.loc[0]], h.loc[1], clo.at(h, n))
        E.store = st
        return False
    q, j0 = metas[k]
    st = dict(pre)
    hs = clo.headsub()
    sub = lambda v: subst(v, [(i, j0)], hs) if isinstance(v, (V, z3.ExprRef)) else v
    for root in q.store:
        w = q.store[root]
        if root in pre:
            if any(h.loc[0] == root for h in heads.values()):
                st[root] = sub(w)
        else:
            st[root] = sub(w)
    E.store = st
    val = sub(q.val) if q.val is not None else None
    if q.out == 'break':
        return True
    if q.out == 'return':
        raise Return(val)
    raise Throw(val)


def has_skolem(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x) and x.decl().name().startswith(('x#', 'ij#')):
            return True
        stack.extend(x.children())
    return False


def simp_and(pc):
    return And(*pc)


def decl_names(t, out=None):
    out = set() if out is None else out
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            out.add(x.decl().name())
            todo += x.children()
    return out


def merge_pcs(pcs):
    """disjunction of path conditions; two that differ in one complementary literal are merged."""
    sets = [{tid(c): c for c in pc} for pc in pcs]
    again = True
    while again:
        again = False
        for a in range(len(sets)):
            for b in range(a + 1, len(sets)):
                A, Bs = sets[a], sets[b]
                da, db = [k for k in A if k not in Bs], [k for k in Bs if k not in A]
                if not da or not db:
                    # one subsumes the other
                    sets[a] = A if not da else Bs
                    del sets[b]
                    again = True
                    break
                if len(da) == 1 and len(db) == 1 and complementary(A[da[0]], Bs[db[0]]):
                    sets[a] = {k: v for k, v in A.items() if k != da[0]}
                    del sets[b]
                    again = True
                    break
            if again:
                break
    return Or(*[And(*s.values()) for s in sets])


def complementary(x, y):
    if z3.is_not(x) and x.arg(0).eq(y) or z3.is_not(y) and y.arg(0).eq(x):
        return True
    if has_quant(x) or has_quant(y):
        return False
    return simp(Not(x)).eq(simp(y))


class LazyStore(dict):
    """store with a pending z3 substitution (counters)."""

    def __init__(self, base, pairs):
        super().__init__(base)
        self.pairs = pairs
        self.done = set()

    def __getitem__(self, k):
        v = super().__getitem__(k)
        if k not in self.done:
            v = subst(v, self.pairs) if isinstance(v, (V, z3.ExprRef)) else v
            super().__setitem__(k, v)
            self.done.add(k)
        return v

    def get(self, k, d=None):
        return self[k] if k in self else d


def head_terms(heads):
    out = []
    for h in heads.values():
        v = h.val
        if isinstance(v, z3.ExprRef):
            out.append(v)
        elif isinstance(v, S):
            out.extend(v.parts)
        elif isinstance(v, It):
            out.append(v.pos[1])
        elif isinstance(v, Opt):
            out.append(v.has)
    return out


def mentions_heads(c, heads, pairs):
    done = {t.get_id() for t, _ in pairs}
    for t in head_terms(heads):
        if t.get_id() not in done and mentions(c, t):
            return True
    s = c.sexpr()
    return any(('%s' % h.hid) in s for h in heads.values() if isinstance(h.val, (Vec, Map)))


def find_bound(E, exitc, i):
    """trip count T such that the loop leaves exactly when i == T."""
    cands = []
    seen = set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if t.sort() == I and not mentions(t, i):
            cands.append(t)
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            a, b = t.arg(0), t.arg(1)
            if a.sort() == I:
                d = simp(a - b)
                for s in (1, -1):
                    c = simp(i + s * d)
                    if not mentions(c, i):
                        cands.append(c)
        for c in t.children():
            walk(c)
    walk(exitc)
    j = z3.Int(E.new('bj'))
    for T in cands:
        # exit(T) holds, and exit(j) is false for 0<=j<T, and T>=0
        f1 = z3.substitute(exitc, (i, T))
        f2 = Implies(And(j >= 0, j < T), Not(z3.substitute(exitc, (i, j))))
        if E.implied(f2):
            if E.implied(And(T >= 0, f1)):
                return simp(T)
            T2 = simp(z3.If(T < 0, z3.IntVal(0), T))
            if E.implied(z3.substitute(exitc, (i, T2))):
                return T2
    return None


class Closer:
    """closed forms of the loop-modified locations after x iterations."""

    def __init__(self, E, i, n, heads, comp, pre):
        self.E, self.i, self.n, self.heads, self.comp, self.pre = E, i, n, heads, comp, pre
        self.byid = {h.hid: h for h in heads.values()}
        self.busy = set()
        self.forms = {}
        for h in heads.values():
            self.prepare(h)

    def upd(self, h, p):
        return getp(self.E, p.store[h.loc[0]], h.loc[1])

    def groups(self, items):
        """merge paths with equal payload: [(cond, payload)]"""
        out = []
        for p, pay in items:
            k = key(pay) if not isinstance(pay, tuple) else tuple(key(x) for x in pay)
            for g in out:
                if g[0] == k:
                    g[1].append(p.pc)
                    break
            else:
                out.append([k, [p.pc], pay])
        if len(out) == 1:
            return [(TRUE, out[0][2])]
        res = []
        for _, cs, pay in out:
            c = merge_pcs(cs)
            res.append((simp(c) if not has_quant(c) else c, pay))
        return res

    def prepare(self, h):
        E, i = self.E, self.i
        v = h.val
        if isinstance(v, Vec):
            return self.prep_vec(h)
        if isinstance(v, Map):
            return self.prep_map(h)
        if isinstance(v, S):
            return self.prep_str(h)
        if isinstance(v, Opt):
            return self.prep_opt(h)
        if hasattr(h, 'closed'):
            if isinstance(v, It):
                self.forms[h.hid] = lambda x: It(h.pre.c, ('idx', simp(z3.substitute(h.closed, (i, x)))), h.pre.rev)
            else:
                self.forms[h.hid] = lambda x: simp(z3.substitute(h.closed, (i, x)))
            return
        if h.loc[0] == '$epoch':
            nm = E.new('epoch')
            self.forms[h.hid] = lambda x: E.uf(nm, I)
            return
        if isinstance(v, Ptr):
            t, pre, get = v.null, h.pre.null, lambda w: w.null
            mk = lambda z: Ptr(z, h.pre.tgt)
        elif isinstance(v, It):
            t, pre, get = v.pos[1], h.pre.pos[1], lambda w: w.pos[1]
            mk = lambda z: It(h.pre.c, ('idx', z), h.pre.rev)
        elif isinstance(v, z3.ExprRef):
            t, pre, get = v, h.pre, lambda w: w
            mk = lambda z: z
        else:
            raise Unsupported('loop head')
        self.scalar(h, t, pre, get, mk)

    def scalar(self, h, t, pre, get, mk):
        E, i = self.E, self.i
        ups = []
        for p in self.comp:
            w = self.upd(h, p)
            ups.append((p, get(w)))
        at = lambda x: z3.substitute(t, (i, x))
        if t.sort() == B:
            for target in (True, False):
                if all(u.eq(t) or (z3.is_true(simp(u)) if target else z3.is_false(simp(u))) or self.sticky(u, t, target) for _, u in ups):
                    G = Or(*[And(*p.pc, self.setcond(u, t, target)) for p, u in ups if not u.eq(t)])
                    # a set flag only matters while still unset: evaluate the guard with the flag unset
                    if not mentions(G, t):
                        G2 = G
                    else:
                        G2 = simp(z3.substitute(G, (t, FALSE if target else TRUE))) if not has_quant(G) else z3.substitute(G, (t, FALSE if target else TRUE))
                    j = E.bv()

                    def form(x, G2=G2, j=j, target=target):
                        ex = qex(j, And(j >= 0, j < x, z3.substitute(G2, (i, j))))
                        return Or(pre, ex) if target else And(pre, Not(ex))
                    if not other_uses(G2, t):
                        E.axiom(z3.ForAll([i], Implies(i >= 0, t == form(i))))
                        self.forms[h.hid] = lambda x: mk(form(x))
                        return
        # sticky constant: every iteration keeps the value or sets it to K
        consts = {u.as_long() for _, u in ups if z3.is_int_value(u)} if t.sort() == I else set()
        if len(consts) == 1 and all(u.eq(t) or z3.is_int_value(u) for _, u in ups):
            K = z3.IntVal(consts.pop())
            pcs = []
            if has_quant(pre):
                p0 = E.uf(E.new('pre'), I)
                E.axiom(p0 == pre)
                pre = p0
            for p, u in ups:
                if u.eq(t):
                    continue
                # evaluated while the value is still different from K, hence still the initial one
                pcs.append([z3.substitute(z3.substitute(c, (simp(t == K), FALSE), (simp(K == t), FALSE), (t == K, FALSE), (K == t, FALSE)), (t, pre)) for c in p.pc])
            G = merge_pcs([[simp(c) if not has_quant(c) else c for c in pc] for pc in pcs])
            G = simp(G) if not has_quant(G) else G
            if not other_uses(G, t):
                j = E.bv()

                def form(x, G=G, j=j):
                    ex = qex(j, And(j >= 0, j < x, z3.substitute(G, (i, j))))
                    return z3.If(ex, K, pre)
                E.axiom(z3.ForAll([i], Implies(i >= 0, t == form(i))))
                if E.opts.get('least') and self.n is not None and not has_quant(G):
                    # the least iteration that sets it (well-ordering)
                    w = E.uf(E.new('first'), I)
                    ex = qex(j, And(j >= 0, j < self.n, z3.substitute(G, (i, j))))
                    E.axiom(Implies(ex, And(w >= 0, w < self.n, z3.substitute(G, (i, w)), at(w) == pre)))
                self.forms[h.hid] = lambda x: mk(form(x))
                return
        # recurrence
        F = None
        for p, u in ups:
            F = u if F is None else z3.If(simp_and(p.pc), u, F)
        if F is None:
            F = t
        rng = And(i >= 0, i < self.n) if self.n is not None else i >= 0
        E.axiom(at(z3.IntVal(0)) == pre)
        E.axiom(z3.ForAll([i], Implies(rng, at(i + 1) == F)))
        self.forms[h.hid] = lambda x: mk(at(x))

    def sticky(self, u, t, target):
        """u == t \\/ G (resp. t /\\ G) for some G"""
        r = simp(z3.substitute(u, (t, z3.BoolVal(target)))) if not has_quant(u) else z3.substitute(u, (t, z3.BoolVal(target)))
        return z3.is_true(r) if target else z3.is_false(r)

    def setcond(self, u, t, target):
        if z3.is_true(u) or z3.is_false(u):
            return TRUE
        r = z3.substitute(u, (t, z3.BoolVal(not target)))
        return r if target else Not(r)

    def prep_opt(self, h):
        E, i = self.E, self.i
        v = h.val
        at = lambda t, x: z3.substitute(t, (i, x))
        F, G = None, None
        pv = h.pre.val
        for p in self.comp:
            w = self.upd(h, p)
            c = simp_and(p.pc)
            F = w.has if F is None else z3.If(c, w.has, F)
            if v.val is not None:
                wv = w.val if w.val is not None else v.val
                G = wv if G is None else E.vite(c, wv, G)
        E.axiom(at(v.has, z3.IntVal(0)) == h.pre.has)
        E.axiom(z3.ForAll([i], Implies(i >= 0, at(v.has, i + 1) == F)))
        if v.val is not None:
            vt = v.val.term() if isinstance(v.val, S) else v.val
            gt = G.term() if isinstance(G, S) else G
            if pv is not None:
                E.axiom(at(vt, z3.IntVal(0)) == (pv.term() if isinstance(pv, S) else pv))
            E.axiom(z3.ForAll([i], Implies(i >= 0, at(vt, i + 1) == gt)))
            self.forms[h.hid] = lambda x: Opt(at(v.has, x), S((at(vt, x),)) if isinstance(v.val, S) else at(vt, x))
        else:
            self.forms[h.hid] = lambda x: Opt(at(v.has, x), None)

    def prep_str(self, h):
        E, i = self.E, self.i
        ht = h.val.parts[0]
        sufs, ok = [], True
        for p in self.comp:
            w = self.upd(h, p)
            if not (w.parts and not isinstance(w.parts[0], str) and w.parts[0].eq(ht)):
                ok = False
                break
            rest = w.parts[1:]
            if any(not isinstance(x, str) and mentions(x, ht) for x in rest):
                ok = False
                break
            sufs.append((p, S(rest)))
        if ok and not any(mentions(c, ht) for p, _ in sufs for c in p.pc):
            gs = self.groups(sufs)
            kb = z3.Int('$b0')
            outer = list(E.idx)
            opairs = [(o, z3.Int('$o%d' % q)) for q, o in enumerate(outer)]
            ck = tuple(sorted((tid(simp(z3.substitute(c, (i, kb), *opairs)) if not has_quant(c) else z3.substitute(c, (i, kb), *opairs)),
                              subst(s, [(i, kb)] + opairs).key()) for c, s in gs))
            nm = 'fold:%d' % intern_key(('fold', ck))
            ff = z3.Function(nm, *([I] * len(outer)), I, Str)
            E.axiom(self.clo(ff(*outer, z3.IntVal(0)) == lit(''), outer))

            def form(x):
                return S(h.pre.parts + (ff(*outer, x),))
            t = S(h.pre.parts + (ff(*outer, i),)).term()
            E.axiom(z3.ForAll([i], Implies(i >= 0, ht == t)))
            E.folds = getattr(E, 'folds', {})
            E.folds[nm] = (gs, i, outer)
            self.forms[h.hid] = form
            return
        F = None
        for p in self.comp:
            w = self.upd(h, p)
            F = w.term() if F is None else z3.If(simp_and(p.pc), w.term(), F)
        at = lambda x: z3.substitute(ht, (i, x))
        E.axiom(at(z3.IntVal(0)) == h.pre.term())
        E.axiom(z3.ForAll([i], Implies(i >= 0, at(i + 1) == F)))
        self.forms[h.hid] = lambda x: S((at(x),))

    def clo(self, f, outer):
        return z3.ForAll(outer, f) if outer else f

    def prep_vec(self, h):
        E, i = self.E, self.i
        apps, puts, kinds = [], [], set()
        for p in self.comp:
            w = self.upd(h, p)
            segs = w.segs
            if segs and isinstance(segs[0], Head) and segs[0].hid == h.hid:
                apps.append((p, tuple(segs[1:])))
                if len(segs) > 1:
                    kinds.add('app')
            elif len(segs) == 1 and isinstance(segs[0], PutSeg):
                s = segs[0]
                inner = s.vec.segs
                if not (s.i.eq(self.i) and len(inner) == 1 and isinstance(inner[0], Head) and inner[0].hid == h.hid):
                    # allow i + const offset equal to i
                    if not (len(inner) == 1 and isinstance(inner[0], Head) and inner[0].hid == h.hid and E.implied(s.i == self.i)):
                        raise Unsupported('vector update pattern in loop')
                puts.append((p, s.v))
                kinds.add('put')
            else:
                kinds.add('other')
        if 'other' in kinds:
            # every iteration keeps the vector or sets it to the same, loop-independent value
            return self.prep_vec_set(h)
        if 'app' in kinds and 'put' in kinds:
            raise Unsupported('mixed vector updates in loop')
        if kinds <= {'app'}:
            gs = [(c, pay) for c, pay in self.groups(apps)]

            def form(x):
                cases = []
                for c, pay in gs:
                    segs = self.deep(pay, h)
                    cases.append((c, segs))
                return Vec(h.pre.segs + (FM(x, i, cases),))
            # head length
            ls = {key(E.vlen(Vec(pay))) if not any(isinstance(s, (Head, FM)) for s in pay) else None for c, pay in gs}
            if len(ls) == 1 and None not in ls:
                l = E.vlen(Vec(gs[0][1]))
                hl = z3.Function('hlen:' + h.hid, I, I)
                E.axiom(z3.ForAll([i], Implies(i >= 0, hl(i) == E.vlen(h.pre) + l * i)))
            self.forms[h.hid] = form
            return
        ln = E.vlen(h.pre)

        def form(x):
            cases, neg = [], []
            allp = len(puts) == len(self.comp)
            full = self.n is not None and (x is self.n or x.eq(self.n)) and E.implied(ln == x)
            pays = self.groups(puts)
            for c, pay in pays:
                cond = c if (full or False) else And(c, i < x)
                if not allp and len(pays) == 1:
                    cond = Or(*[simp_and(p.pc) for p, _ in puts])
                    cond = cond if full else And(cond, i < x)
                cases.append((cond, (U(self.deep(pay, h)),)))
                neg.append(cond)
            rest = simp(Not(Or(*neg))) if not any(has_quant(c) for c in neg) else Not(Or(*neg))
            if not z3.is_false(rest) and not z3.is_true(Or(*neg)):
                cases.append((rest, (U(E.vat(h.pre, i)),)))
            return Vec((FM(ln, i, cases),))
        self.forms[h.hid] = form

    def prep_vec_set(self, h):
        E, i = self.E, self.i
        K, pcs = None, []
        for p in self.comp:
            w = self.upd(h, p)
            if len(w.segs) == 1 and isinstance(w.segs[0], Head) and w.segs[0].hid == h.hid:
                continue
            fresh = z3.Int(E.new('$ind'))
            if 'Head' in str(w.key()) or subst(w, [(i, fresh)]).key() != w.key() or (K is not None and K.key() != w.key()):
                raise Unsupported('vector overwritten in loop')
            K = w
            pcs.append([simp(c) if not has_quant(c) else c for c in p.pc])
        G = merge_pcs(pcs)
        if any(('h#' in n or 'hlen:' in n) for n in decl_names(G)):
            raise Unsupported('vector overwritten in loop under a changing condition')
        j = E.bv()

        def form(x):
            ex = qex(j, And(j >= 0, j < x, z3.substitute(G, (i, j))))
            return E.vite(ex, K, h.pre)
        self.forms[h.hid] = form

    def deep(self, v, h):
        """substitute other heads' closed forms inside payloads."""
        if h.hid in self.busy:
            raise Unsupported('mutually dependent loop heads')
        self.busy.add(h.hid)
        try:
            hs = {hid: (lambda t, hid=hid: self.segnode(hid, t)) for hid in self.byid}
            return subst(v, [], hs)
        finally:
            self.busy.discard(h.hid)

    def segnode(self, hid, t):
        v = self.forms[hid](t)
        return v.segs if isinstance(v, Vec) else v.node

    def prep_map(self, h):
        E, i = self.E, self.i
        chains, ops = [], set()
        for p in self.comp:
            n = self.upd(h, p).node
            ch = []
            while n[0] in ('put', 'ins', 'del'):
                ch.append(n)
                n = n[1]
            if n[0] == 'ite':
                raise Unsupported('conditional map in loop')
            if not (n[0] == 'head' and n[1] == h.hid):
                raise Unsupported('map overwritten in loop')
            ch.reverse()
            chains.append((p, ch))
            ops |= {c[0] for c in ch}
        m = h.pre
        if len(ops) > 1:
            raise Unsupported('mixed map updates in loop')
        if not ops:
            self.forms[h.hid] = lambda x: h.pre
            return
        op = ops.pop()
        kid = intern_key(nkey(strip_vals(m.node)))
        own = all(is_own_key(E, c[2], i) for p, ch in chains for c in ch)
        hm = z3.Function('hmem:' + h.hid, I, E.ksort(m), B)
        if op == 'put' and own and all(is_own_key(E, c[2], i, kid) for p, ch in chains for c in ch):
            # in-place value update while iterating the map itself
            j = i
            k0 = None
            for p, ch in chains:
                if ch:
                    k0 = ch[0][2]
            old = E.nval(m.node, k0, m)
            nv = old
            for p, ch in chains:
                if ch:
                    pay = ch[-1][3]
                    nv = E.vite(simp_and(p.pc), pay, nv) if len(self.comp) > 1 else pay
            q = z3.Const('$mk', E.ksort(m))
            qv = S((q,)) if E.ksort(m) == Str else q
            E.axiom(z3.ForAll([i, q], hm(i, q) == E.mem(m, qv)))

            def form(x):
                full = self.n is not None and x.eq(self.n)
                v = nv if full else E.vite(i < x, nv, old)
                return Map(('vals', m.node, x, i, v), m.kty, m.vty)
            self.forms[h.hid] = form
            return
        if h.hid in getattr(E, 'ownslot', set()) and not own:
            raise Unsupported('map slot discipline')
        cases = []
        for p, ch in chains:
            for c in ch:
                cond = simp_and(p.pc)
                if op == 'del':
                    # erasing an absent key is a no-op: its membership test may be assumed true
                    t = E.nmem(('head', h.hid, i, m.node), c[2], m)
                    cond = z3.substitute(cond, (t, TRUE))
                    cond = simp(cond) if not has_quant(cond) else cond
                if op == 'ins':
                    # inserting a present key is a no-op
                    t = E.nmem(('head', h.hid, i, m.node), c[2], m)
                    cond = z3.substitute(cond, (t, FALSE))
                    cond = simp(cond) if not has_quant(cond) else cond
                if op == 'put' and len(ch) > 1 and all(key(x[2]) == key(ch[0][2]) for x in ch):
                    if c is not ch[-1]:
                        continue
                elif op == 'put' and len(ch) > 1:
                    raise Unsupported('several map writes per iteration')
                cases.append((cond, c[2], c[3] if op != 'del' else None))
        if own:
            pw = self.pointwise(m, op, cases)
            if pw is not None:
                q = z3.Const('$mk', E.ksort(m))
                qv = S((q,)) if E.ksort(m) == Str else q
                nd = pw(i)
                E.axiom(z3.ForAll([i, q], Implies(i >= 0, hm(i, q) == E.nmem(nd, qv, m))))
                self.forms[h.hid] = lambda x: Map(pw(x), m.kty, m.vty)
                return
        wid = E.new('w')
        outer = tuple(E.idx)

        def node(x):
            return ('loop', m.node, op, x, i, tuple(cases), wid, outer)
        # define the head membership / value functions
        q = z3.Const('$mk', E.ksort(m))
        qv = S((q,)) if E.ksort(m) == Str else q
        nd = node(i)
        E.axiom(z3.ForAll([i, q], Implies(i >= 0, hm(i, q) == E.nmem(nd, qv, m))))
        if m.vty is not None:
            hv = E.fresh(m.vty, 'hval:' + h.hid, (i, q))
            try:
                nv = E.nval(m.node if op == 'del' else nd, qv, m)
                e = E.eq(hv, nv)
                E.axiom(z3.ForAll([i, q], Implies(And(i >= 0, hm(i, q)), e)))
            except (Unsupported, Infeasible):
                pass
        same = self.same_keys(m, op, cases)
        self.forms[h.hid] = lambda x: same if same is not None and self.n is not None and x.eq(self.n) else Map(node(x), m.kty, m.vty)

    def pointwise(self, m, op, cases):
        """every iteration touches only the entry of its own key, the keys being the enumeration of another map or set: the result is
        a pointwise update, described key by key without reference to the iteration order."""
        E, i = self.E, self.i
        t = E.kterm(cases[0][1])
        if any(not E.kterm(c[1]).eq(t) for c in cases):
            return None
        src = getattr(E, 'enums', {}).get(t.decl().name())
        if src is None or t.sort() != E.ksort(m) or self.n is None:
            return None
        sn, sidx, snode, smap = src
        pre = [t.arg(q) for q in range(t.num_args() - 1)]
        pairs = list(zip(sidx, pre))
        if not (z3.substitute(sn, *pairs) if pairs else sn).eq(self.n):
            return None
        if pairs:
            smap = subst(smap, pairs)
        kv = z3.Const(E.new('$pk'), t.sort())
        kval = S((kv,)) if t.sort() == Str else kv
        xf = z3.Function('midx:' + t.decl().name()[5:], *[x.sort() for x in pre], t.sort(), I)
        xk = xf(*pre, kv)
        kf = t.decl()

        def tr(v):
            return subst(subst(v, [(i, xk)]), [(kf(*pre, xk), kv)]) if v is not None else None
        body = tuple((tr(c), tr(v)) for c, _, v in cases)
        inset = E.mem(smap, kval)

        def node(x):
            dom = inset if x.eq(self.n) else And(inset, xk < x)
            return ('pw', m.node, op, kv, dom, body)
        return node

    def same_keys(self, m, op, cases):
        """map built from empty by one unconditional insertion per entry of another map, under that entry's key: same key set."""
        E, i = self.E, self.i
        if m.node[0] != 'E' or op == 'del' or len(cases) != 1 or not z3.is_true(cases[0][0]) or self.n is None:
            return None
        t = E.kterm(cases[0][1])
        if not (z3.is_app(t) and t.decl().name().startswith('mkey:') and t.arg(t.num_args() - 1).eq(i)):
            return None
        src = getattr(E, 'enums', {}).get(t.decl().name())
        if src is None or t.sort() != E.ksort(m):
            return None
        sn, sidx, snode, _ = src
        pairs = list(zip(sidx, [t.arg(q) for q in range(t.num_args() - 1)]))
        if not z3.substitute(sn, *pairs).eq(self.n) if pairs else not sn.eq(self.n):
            return None
        nd = subst(Map(snode, m.kty, m.vty), pairs).node if pairs else snode
        if m.vty is None:
            return Map(nd, m.kty, None)
        return Map(('vals', nd, self.n, i, cases[0][2]), m.kty, m.vty)

    def at(self, h, x):
        return self.forms[h.hid](x)

    def headsub(self):
        return {hid: (lambda t, hid=hid: self.segnode(hid, t)) for hid in self.byid}


def strip_vals(n):
    while n[0] == 'vals':
        n = n[1]
    return n


def other_uses(G, t):
    """G mentions the head function of t at another index"""
    nm = t.decl().name()
    stack, seen = [G], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x) and x.decl().name() == nm:
            return True
        stack.extend(x.children())
    return False


def is_own_key(E, k, i, kid=None):
    t = E.kterm(k)
    if z3.is_app(t) and t.decl().name().startswith('mkey:') and t.num_args() and t.arg(t.num_args() - 1).eq(i):
        return kid is None or t.decl().name() == 'mkey:%d' % kid
    return False

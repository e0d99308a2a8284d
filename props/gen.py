"""Generators: C09 - C11, and C06 for generator tasks."""
from common import *
from cxxvc.vals import free_ix
from cxxvc.engine import intern_key

CG = 'buildcc::CustomGenerator::'
CBH = 'buildcc::CustomBlobHandler::'


def hid(E, obj):
    """identity of a symbolic blob handler as a list of index terms."""
    v = E.val(obj)
    if isinstance(v, Op) and v.tag.startswith('pt:'):
        return v
    raise Unsupported('blob handler %r' % (v,))


def hterms(E, v):
    out = []
    for x in v.d[1]:
        out.append(x.term() if isinstance(x, S) else x)
    return out


def blobvec(E, h):
    """what Serialize of this handler returns."""
    b = Base('ser', 'unsigned char', tuple(hterms(E, h)))
    E.axiom(E.closed_all(b.n() >= 0))
    return Vec((b,))


def vecid(E, v):
    """a vector as a value: identified by the term of its canonical representation."""
    return E.vterm(v) if hasattr(E, 'vterm') else None


def uget(E, n, h, *args):
    ts = hterms(E, h)
    return z3.Function('%s:%s' % (n, h.d[0]), *([t.sort() for t in ts] + [B]))(*ts) if ts else z3.Bool('%s:%s' % (n, h.d[0]))


def c_serialize(E, obj, args, e, f):
    return blobvec(E, hid(E, obj))


def prevblob(E, h):
    """the blob the record holds for the id this handler belongs to."""
    k = E.opts.get('gen.key')
    L = E.opts.get('gen.load')
    if L is None or len(h.d[1]) != 1:
        return None
    return E.mval(L, S((hterms(E, h)[0],))).f['userblob']


def c_verify(E, obj, args, e, f):
    h, v = hid(E, obj), E.val(args[0])
    if key(v) == key(blobvec(E, h)):
        return uget(E, 'serok', h)
    p = prevblob(E, h)
    if p is not None and key(v) == key(p):
        return uget(E, 'oldok', h)
    return E.uf(E.new('verify'), B)


def c_isequal(E, obj, args, e, f):
    """symmetric comparison of the recorded and the current blob."""
    h = hid(E, obj)
    a, b, p = E.val(args[0]), E.val(args[1]), prevblob(E, h)
    if p is not None and {key(a), key(b)} == {key(p), key(blobvec(E, h))}:
        return uget(E, 'blobsame', h)
    return E.uf(E.new('isequal'), B)


CBS = {CBH + 'Verify': c_verify, CBH + 'IsEqual': c_isequal, CBH + 'Serialize': c_serialize}


def cb(E, f, args, t):
    """a user callback: records the context it was given; may fail or throw."""
    ctx = E.val(args[0])
    vals = {n: E.val(E.deref(v) if isinstance(v, RefV) else v) if not isinstance(v, RefV) else E.read(v.lv) for n, v in ctx.f.items()}
    k = [x.term() if isinstance(x, S) else x for x in f.extra]
    srt = [x.sort() for x in k]
    ok = z3.Function('cb.ok:' + f.node, *(srt + [B]))(*k) if k else z3.Bool('cb.ok')
    th = z3.Function('cb.throws:' + f.node, *(srt + [B]))(*k) if k else z3.Bool('cb.throws')
    E.event('callback', Op('fn', f.node, *f.extra), vals['inputs'], vals['outputs'], vals['userblob'], And(ok, Not(th)), vals['command'])
    if E.opts.get('cb_bumps'):
        E.bump()
    if E.branch(th):
        raise Throw(Op('exc', 'user'))
    return ok


def c_store(E, obj, args, e, f):
    """contract of StoreToFile (unit schema.generator.roundtrip): the record under construction is saved to the record file, or false."""
    o = E.val(obj)
    ok = E.uf(E.new('store.ok'), B)
    E.event('store', o.f['serialized_file_'], o.f['store_'], ok)
    return ok


CBS[INT + 'SerializationInterface::StoreToFile'] = c_store


def handler_ptr(E, p):
    return E.alloc(p.tgt, '$handler')


# ------------------------------------------------------------------ one id
TFN = 'buildcc::TaskFunctor::operator()'
FUN = 'buildcc::TaskFunctor'


def kf(n, k, s=B):
    return z3.Function(n, Str, s)(k)


def conv(E, k):
    """inputs with current timestamps / current blob of id k (named values; defined in unit gen.task)."""
    out = []
    for n, ty in (('conv.inputs', 'buildcc::internal::PathInfo'), ('conv.blob', 'unsigned char')):
        b = Base(n, ty, (k,))
        E.axiom(E.closed_all(b.n() >= 0))
        out.append(Vec((b,)))
    return out


def c_functor(E, obj, args, e, f):
    """contract of TaskFunctor::operator() (unit gen.task)."""
    o = E.val(obj)
    at = lambda n: o.f[n].lv if isinstance(o.f[n], RefV) else E.loc(o.f[n])
    k = E.val(at('id_')).term()
    info, cmp_, state = at('id_info_'), at('comparator'), at('state_')
    st = state_lv(E)
    if not E.branch(E.read(st) == SUCCESS):
        return None
    added = E.val(E.call(E.p.find('buildcc::Comparator::IsIdAdded', 1)[0], cmp_, [at('id_')]))
    L = E.read(F(at('comparator'), 'loaded_')).f['internal_ids']
    inp, blob = conv(E, k)
    E.write(F(info, 'inputs', 'infos_'), inp)
    E.write(F(info, 'userblob'), blob)
    converts = kf('conv.ok', k)
    fail = Not(And(converts, Or(added, And(E.mem(L, S((k,))), kf('cmp.ok', k)))))
    if E.branch(fail):
        lib.unrecorded(E, lambda: E.write(st, z3.IntVal(FAILURE)))     # under the lock (unit sync.generator-id)
        return None
    if not E.branch(Or(added, kf('changed', k))):
        E.write(F(state, 'run_success'), TRUE)
        return None
    E.write(F(state, 'should_run'), TRUE)
    E.event('callback', S((k,)), E.val(F(info, 'generate_cb')), kf('cb.ok', k))
    if E.branch(kf('cb.ok', k)):
        E.write(F(state, 'run_success'), TRUE)
    else:
        lib.unrecorded(E, lambda: E.write(st, z3.IntVal(FAILURE)))     # under the lock (unit sync.generator-id)
    return None


def functor(c):
    """an arbitrary task functor over id k0 of an arbitrary generator."""
    E = c.E
    G = E.alloc(E.fresh('buildcc::CustomGenerator', 'G', ()), 'G')
    st = set_state(c)
    ts0 = E.read(st)
    ep = E.epoch()
    G0 = E.read(G)
    L, Um = fld(G0, 'serialization_', 'load_', 'internal_ids'), fld(G0, 'user_', 'ids')
    E.opts['gen.load'] = L
    k0 = S((z3.Const('k0', Str),))
    E.assume(E.mem(Um, k0))
    cmp_ = E.fresh('buildcc::Comparator', 'cmp', ())
    A = E.fresh('std::unordered_set<std::string>', 'A', ())
    X = E.fresh('std::unordered_set<std::string>', 'X', ())
    Y = E.fresh('std::unordered_set<std::string>', 'Y', ())
    en = E.p.enums['buildcc::Comparator::State']
    m = cmp_.f['id_state_info_']
    node = ('E',)
    for n, s in (('kRemoved', X), ('kAdded', A), ('kCheckLater', Y)):
        node = ('put', node, z3.IntVal(int(en[n])), s)
    cl = E.alloc(Rec(cmp_.ty, dict(cmp_.f, id_state_info_=Map(node, m.kty, m.vty), loaded_=RefV(F(G, 'serialization_', 'load_')), current_=RefV(F(G, 'user_')))), 'cmp')
    s0 = E.fresh('buildcc::TaskState', 'S', ())
    sl = E.alloc(Rec(s0.ty, dict(s0.f, should_run=FALSE, run_success=FALSE)), 'state')
    il = F(G, 'user_', 'ids') + ('m', k0)
    fl = E.alloc(Rec(FUN, {'id_': RefV(E.alloc(k0, 'id')), 'id_info_': RefV(il), 'comparator': RefV(cl), 'command_': RefV(F(G, 'command_')), 'state_': RefV(sl)}), 'fun')
    return G, st, k0, fl, sl, il, cl, A, (ts0, ep, G0, L, Um)


@unit('gen.task', 'C06 C09 C10 C11', [TFN, 'buildcc::Comparator::IsChanged', 'buildcc::Comparator::IsIdAdded', 'buildcc::UserCustomGeneratorSchema::UserIdInfo::ConvertToInternal', CBH + 'CheckChanged', CBH + 'GetSerializedData',
                                   INT + 'PathInfoList::ComputeHashForAll', INT + 'PathInfoList::IsEqual', INT + 'PathList::IsEqual'], contracts=CBS, call_sym=cb, deref=handler_ptr, cb_bumps=True)
def task(c):
    E = c.E
    G, st, k0, fl, sl, il, cl, A, (ts0, ep, G0, L, Um) = functor(c)
    out, _ = c.tcall(TFN, fl)
    c.ob('no-exception-escapes', out == 'ok', 'C06')
    if out != 'ok':
        return
    ts1, s1, G1 = E.read(st), E.read(sl), E.read(G)
    cbs = events(E, 'callback')
    q = Info(c, L, Um, TRUE, ep)
    added = E.mem(A, k0)
    q.added = lambda k: added
    started = ts0 == SUCCESS
    inL = E.mem(L, k0)
    fail, need = Or(q.checkfail(k0), And(Not(added), Not(inL))), And(q.needed(k0), Or(added, inL))
    ok = E.vall(cbs, lambda v: v.d[4])
    c.ob('nothing-after-failure', Implies(Not(started), And(E.vempty(cbs), ts1 == ts0, Not(s1.f['should_run']), Not(s1.f['run_success']), E.eq(G1, G0))), 'C06 C10')
    c.ob('failure-sticky', Implies(ts0 == FAILURE, ts1 == FAILURE), 'C06')
    c.ob('fails-iff-check-or-callback-fails', Implies(started, (ts1 == FAILURE) == Or(fail, Not(ok))), 'C06')
    c.ob('at-most-once', len(cbs.segs) <= 1 and all(isinstance(s, U) for s in cbs.segs), 'C09')
    c.ob('callback-iff-needed', Implies(started, Not(E.vempty(cbs)) == need), 'C09')
    c.ob('callback-and-context', E.vall(cbs, lambda v: And(keyof(v) == k0.term(), v.d[0].d[0] == 'G.user_.ids{}.generate_cb', q.context(v), E.eq(v.d[5], fld(G0, 'command_')))), 'C09 C11')
    c.ob('run-marked', Implies(started, s1.f['should_run'] == need), 'C10')
    c.ob('success-marked', Implies(started, s1.f['run_success'] == And(Not(fail), ok)), 'C10')
    v = E.mval(fld(G1, 'user_', 'ids'), k0)
    c.ob('inputs-stamped-before-callback', Implies(s1.f['run_success'], E.eq(fld(v, 'inputs', 'infos_'), q.hashed(k0))), 'C10')
    c.ob('blob-taken', Implies(s1.f['run_success'], E.eq(v.f['userblob'], q.blob(k0))), 'C10')
    c.ob('outputs-kept', And(E.eq(v.f['outputs'], q.u(k0).f['outputs'])), 'C10')
    k1 = S((z3.Const('k1', Str),))
    c.ob('other-ids-kept', Implies(k1.term() != k0.term(), And(E.mem(fld(G1, 'user_', 'ids'), k1) == E.mem(Um, k1), E.eq(E.mval(fld(G1, 'user_', 'ids'), k1), E.mval(Um, k1)))), 'C10')
    c.ob('record-and-commands-kept', And(E.eq(fld(G1, 'serialization_'), fld(G0, 'serialization_')), E.eq(fld(G1, 'command_'), fld(G0, 'command_'))), 'C10')


@unit('gen.generate', 'C06 C09 C10', [CG + 'GenerateTask', 'buildcc::ComputeBuild', 'buildcc::Comparator::CompareAndAddIds', 'buildcc::Comparator::AddAllIds', 'buildcc::UserCustomGeneratorSchema::ConvertToInternal',
                                       INT + 'CustomGeneratorSerialization::UpdateStore'], contracts=dict(CBS, **{TFN: c_functor}), deref=handler_ptr, join_bumps=True, least=True)
def generate(c):
    E = c.E
    G = E.alloc(E.fresh('buildcc::CustomGenerator', 'G', ()), 'G')
    E.write(F(G, 'serialization_', 'store_'), E.default(INT + 'CustomGeneratorSchema'))
    st = set_state(c)
    ts0 = E.read(st)
    c.call(CG + 'GenerateTask', G)
    G0 = E.read(G)
    gs = emplaced(E)
    c.ob('one-task', len(gs) == 1, 'C06')
    if len(gs) != 1:
        return
    clear_trace(E)
    out, _ = c.attempt(lambda: run_task(E, gs[0]))
    c.ob('no-exception-escapes', out == 'ok', 'C06')
    if out != 'ok':
        return
    G1, ts1 = E.read(G), E.read(st)
    cbs, sv = events(E, 'callback'), events(E, 'store')
    ser0 = fld(G0, 'serialization_')
    L, Um, loaded = fld(ser0, 'load_', 'internal_ids'), fld(G0, 'user_', 'ids'), fld(ser0, 'loaded_')
    started = ts0 == SUCCESS
    kz, k0 = z3.Const('$gk', Str), S((z3.Const('k0', Str),))
    added = lambda k: Or(Not(loaded), Not(E.mem(L, k)))
    checkfail = lambda k: Not(And(kf('conv.ok', k.term()), Or(added(k), kf('cmp.ok', k.term()))))
    needed = lambda k: And(Not(checkfail(k)), Or(added(k), kf('changed', k.term())))
    here = E.mem(Um, k0)
    kk = lambda v: S((v.d[0].term(),))
    # ---- C06
    c.ob('nothing-after-failure', Implies(Not(started), And(E.vempty(cbs), E.vempty(sv), ts1 == ts0)), 'C06')
    c.ob('failure-sticky', Implies(ts0 == FAILURE, ts1 == FAILURE), 'C06')
    c.ob('failed-callback-fails-build', Implies(E.vany(cbs, lambda v: Not(v.d[2])), ts1 == FAILURE), 'C06')
    c.ob('failed-store-fails-build', Implies(E.vany(sv, lambda v: Not(v.d[2])), ts1 == FAILURE), 'C06 C10')
    good = z3.ForAll([kz], Implies(E.mem(Um, S((kz,))), Not(checkfail(S((kz,))))))
    c.ob('fails-only-for-cause', Implies(And(started, good, E.vall(cbs, lambda v: v.d[2]), E.vall(sv, lambda v: v.d[2])), ts1 == SUCCESS), 'C06')
    c.ob('failed-check-fails-build', Implies(And(started, here, checkfail(k0)), ts1 == FAILURE), 'C06')
    # ---- C09
    ran = lambda k: E.vany(cbs, lambda v: v.d[0].term() == k.term())
    ran_ok = lambda k: E.vany(cbs, lambda v: And(v.d[0].term() == k.term(), v.d[2]))
    c.ob('run-only-if-needed', E.vall(cbs, lambda v: And(E.mem(Um, kk(v)), needed(kk(v)))), 'C09')
    c.ob('run-if-needed', Implies(And(started, here, needed(k0), ts1 == SUCCESS), ran(k0)), 'C09')
    c.ob('own-callback', E.vall(cbs, lambda v: z3.BoolVal(key(v.d[1]) == key(E.mval(Um, kk(v)).f['generate_cb']))), 'C09')
    c.ob('at-most-once', once_keys(c, cbs, lambda v: v.d[0].term()), 'C09')
    # ---- C10
    sets_differ = z3.Not(z3.ForAll([kz], E.mem(Um, S((kz,))) == E.mem(L, S((kz,)))))
    dirty = Or(Not(loaded), sets_differ, Not(E.vempty(cbs)))
    c.ob('record-rewritten-iff-changed', Not(E.vempty(sv)) == And(started, dirty), 'C10')
    c.ob('stored-once', len(sv.segs) <= 1 and all(isinstance(x, U) for x in sv.segs), 'C10')
    for s in sv.segs:
        if not isinstance(s, U):
            continue
        ids = fld(s.v.d[1], 'internal_ids')
        there = E.mem(ids, k0)
        c.ob('stored-to-record-file', E.eq(s.v.d[0], fld(ser0, 'serialized_file_')), 'C10')
        c.ob('listed-only-if-up-to-date', Implies(there, And(here, Not(checkfail(k0)), Implies(needed(k0), ran_ok(k0)))), 'C10')
        c.ob('up-to-date-is-listed', Implies(And(here, Or(ran_ok(k0), And(Not(checkfail(k0)), Not(needed(k0)), ts1 == SUCCESS))), there), 'C10')
        v = E.mval(ids, k0)
        inp, blob = conv(E, k0.term())
        c.ob('listed-inputs', Implies(there, E.eq(fld(v, 'inputs', 'infos_'), inp)), 'C10')
        c.ob('listed-outputs', Implies(there, E.eq(fld(v, 'outputs', 'paths_'), fld(E.mval(Um, k0), 'outputs', 'paths_'))), 'C10')
        c.ob('listed-blob', Implies(there, E.eq(v.f['userblob'], blob)), 'C10')
    c.ob('loaded-record-kept', E.eq(fld(G1, 'serialization_', 'load_'), fld(ser0, 'load_')), 'C10')


def keyof(v):
    x = v.d[0].d[1]
    return x.term() if isinstance(x, S) else x


class Info:
    """what the property says about one id, from the record, the registered ids and the files."""

    def __init__(self, c, L, Um, loaded, ep):
        self.E, self.L, self.U, self.loaded, self.ep = c.E, L, Um, loaded, ep

    def u(self, k):
        return self.E.mval(self.U, k)

    def l(self, k):
        return self.E.mval(self.L, k)

    def hashed(self, k):
        return hashed_list(self.E, fld(self.u(k), 'inputs', 'infos_'), self.ep)

    def handler(self, k):
        return self.u(k).f['blob_handler']

    def blob(self, k):
        p = self.handler(k)
        return self.E.vite(p.null, Vec(), blobvec(self.E, p.tgt))

    def added(self, k):
        return Or(Not(self.loaded), Not(self.E.mem(self.L, k)))

    def same_io(self, k):
        E = self.E
        return And(E.eq(fld(self.l(k), 'inputs', 'infos_'), self.hashed(k)), E.eq(fld(self.l(k), 'outputs', 'paths_'), fld(self.u(k), 'outputs', 'paths_')))

    def checkfail(self, k):
        E, p = self.E, self.handler(k)
        unreadable = Not(E.vall(fld(self.u(k), 'inputs', 'infos_'), lambda v: lib.hasm_f(lib.norm(E, v.f['path']).term(), self.ep)))
        return Or(unreadable, And(Not(p.null), Not(uget(E, 'serok', p.tgt))), And(Not(self.added(k)), self.same_io(k), Not(p.null), Not(uget(E, 'oldok', p.tgt))))

    def needed(self, k):
        E, p = self.E, self.handler(k)
        return And(Not(self.checkfail(k)), Or(self.added(k), Not(self.same_io(k)), And(Not(p.null), Not(uget(E, 'blobsame', p.tgt)))))

    def context(self, v):
        E, k = self.E, S((keyof(v),))
        r = E.alloc(Vec())

        def one(el, j):
            E.write(r, Vec(E.read(r).segs + (U(E.val(el).f['path']),)))
        loops.iterate(E, fld(self.u(k), 'inputs', 'infos_'), one)
        return And(E.eq(v.d[1], E.read(r)), E.eq(v.d[2], fld(self.u(k), 'outputs', 'paths_')), E.eq(v.d[3], self.blob(k)))


def once_keys(c, evs, keyof=keyof):
    """no two events carry the same key."""
    E = c.E
    i, j = z3.Ints('$d1 $d2')

    def parts(s, x):
        if isinstance(s, U):
            return TRUE, [(TRUE, s.v)]
        if isinstance(s, FM):
            out = []
            for cnd, ss in s.cases:
                if len(ss) > 1 or any(not isinstance(y, U) for y in ss):
                    raise Unsupported('event list shape')
                out += [(z3.substitute(cnd, (s.iv, x)), subst(y.v, [(s.iv, x)])) for y in ss]
            return And(x >= 0, x < s.n), out
        raise Unsupported('event list shape')
    fs = []
    for a, s in enumerate(evs.segs):
        for b, t in enumerate(evs.segs):
            if b < a:
                continue
            ra, ea = parts(s, i)
            rb, eb = parts(t, j)
            if a == b and isinstance(s, U):
                continue
            hyp = And(ra, rb, i != j) if a == b else And(ra, rb)
            for ca, x in ea:
                for cb_, y in eb:
                    fs.append(z3.ForAll([i, j], Implies(And(hyp, ca, cb_), keyof(x) != keyof(y))))
    return And(*fs)


# ------------------------------------------------------------------ registering an id
def built(E, cmd, pat, am=None):
    """(ok, text) of constructing pat with this command's defaults."""
    dm = cmd.f['default_values_']
    am = Map(('E',), 'const char*', 'std::string') if am is None else am
    return lib2.construct_fns(E, pat, dm, am)


def setloc(E, n):
    return E.alloc(E.fresh('std::unordered_set<std::string>', n, ()), n)


@unit('gen.addid', 'C09 C11', [CG + 'AddIdInfo', INT + 'PathInfoList::Emplace', INT + 'PathList::Emplace'])
def addid(c):
    E = c.E
    G = E.alloc(E.fresh('buildcc::CustomGenerator', 'G', ()), 'G')
    G0 = E.read(G)
    ids0, cmd = fld(G0, 'user_', 'ids'), fld(G0, 'command_')
    k = S((z3.Const('id', Str),))
    ins, outs = setloc(E, 'ins'), setloc(E, 'outs')
    gcb = Fn('sym', 'user.cb', extra=())
    empty = Not(z3.Bool('nonempty:user.cb'))
    g = gcb
    h = Ptr(E.uf('h.null', B), Op('pt:buildcc::CustomBlobHandler', 'handler', ()))
    out, _ = c.tcall(CG + 'AddIdInfo', G, E.alloc(k), ins, outs, E.alloc(g), E.alloc(h))
    G1 = E.read(G)
    ids1 = fld(G1, 'user_', 'ids')
    kz = z3.Const('$pz', Str)
    patok = z3.ForAll([kz], And(Implies(E.mem(E.read(ins), S((kz,))), built(E, cmd, S((kz,)))[0]), Implies(E.mem(E.read(outs), S((kz,))), built(E, cmd, S((kz,)))[0])))
    bad = Or(E.mem(ids0, k), empty)
    c.ob('rejects-duplicate-or-empty', Implies(bad, out != 'ok'), 'C09')
    c.ob('accepts-others', Implies(And(Not(bad), patok), out == 'ok'), 'C09')
    k1 = S((z3.Const('k1', Str),))
    other = And(E.mem(ids1, k1) == E.mem(ids0, k1), Implies(E.mem(ids0, k1), E.eq(E.mval(ids1, k1), E.mval(ids0, k1))))
    c.ob('other-ids-kept', Or(k1.term() == k.term(), other), 'C09')
    c.ob('rest-kept', And(E.eq(fld(G1, 'serialization_'), fld(G0, 'serialization_')), E.eq(fld(G1, 'command_'), cmd)), 'C09')
    if out != 'ok':
        c.ob('rejected-adds-nothing', E.mem(ids1, k) == E.mem(ids0, k), 'C09')
        return
    c.ob('listed', E.mem(ids1, k), 'C09')
    v = E.mval(ids1, k)
    x = S((z3.Const('x', Str),))
    inp, op = fld(v, 'inputs', 'infos_'), fld(v, 'outputs', 'paths_')
    nb = lambda s: lib.norm(E, built(E, cmd, s)[1]).term()
    c.ob('every-input-listed', Implies(E.mem(E.read(ins), x), E.vany(inp, lambda e: E.val(e).f['path'].term() == nb(x))), 'C09 C11')
    c.ob('every-output-listed', Implies(E.mem(E.read(outs), x), E.vany(op, lambda e: pterm(E, e) == nb(x))), 'C09 C11')
    n1, n2 = E.mlen(E.read(ins)), E.mlen(E.read(outs))
    c.ob('one-entry-per-input', E.vlen(inp) == n1, 'C09 C11')
    c.ob('one-entry-per-output', E.vlen(op) == n2, 'C09 C11')
    c.ob('own-callback', key(v.f['generate_cb']) == key(gcb), 'C09 C11')
    c.ob('own-blob-handler', E.eq(v.f['blob_handler'], h), 'C09 C11')


def pterm(E, e):
    e = E.val(e)
    return (e if isinstance(e, S) else e.f['path']).term()


# ------------------------------------------------------------------ file and template generators
def c_addid(E, obj, args, e, f):
    """contract of AddIdInfo (unit gen.addid): recorded."""
    a = [E.val(x) for x in args]
    E.event('addid', a[0], a[1], a[2], a[3], a[4] if len(a) > 4 else NULL)
    return None


def c_gbuild(E, obj, args, e, f):
    """contract of CustomGenerator::Build (unit gen.build): recorded."""
    E.event('gbuild')
    return None


GCONS = {CG + 'AddIdInfo': c_addid, CG + 'Build': c_gbuild}
FG, TG = 'buildcc::FileGenerator::', 'buildcc::TemplateGenerator::'


def vcall(E, n, obj, args):
    """virtual call on an object of known dynamic type."""
    return E.call(E.p.find(E.val(obj).ty + '::' + n, len(args))[0], obj, args)


def order(evs, *kinds):
    return [s.v.tag[3:] for s in evs.segs if isinstance(s, U)]


def call_cb(c, fn, inputs, outputs, cmd, blob):
    E = c.E
    ctx = Rec('buildcc::CustomGeneratorContext', {'command': RefV(E.alloc(cmd)), 'inputs': RefV(E.alloc(inputs)), 'outputs': RefV(E.alloc(outputs)), 'userblob': RefV(E.alloc(blob))})
    return c.attempt(lambda: E.val(E.callv(fn, [E.alloc(ctx)])))


@unit('gen.file', 'C11', [FG + 'Build', '(anon)::FileGeneratorGenerateCb'], contracts=GCONS)
def filegen(c):
    E = c.E
    G = E.alloc(E.fresh('buildcc::FileGenerator', 'G', ()), 'G')
    G0 = E.read(G)
    out, _ = c.tcall(FG + 'Build', G)
    c.ob('no-exception', out == 'ok', 'C11')
    if out != 'ok':
        return
    evs = E.store['$trace']
    c.ob('registers-then-builds', order(evs) == ['addid', 'gbuild'], 'C11')
    add = [s.v for s in evs.segs if isinstance(s, U) and is_ev(s.v, 'addid')]
    if len(add) != 1:
        return
    a = add[0]
    c.ob('all-inputs', E.eq(a.d[1], G0.f['inputs_']), 'C11')
    c.ob('all-outputs', E.eq(a.d[2], G0.f['outputs_']), 'C11')
    h = a.d[4]
    c.ob('has-command-blob', Not(h.null) if isinstance(h, Ptr) else FALSE, 'C11')
    cmds = G0.f['commands_']
    hl = h.tgt
    T = E.val(hl).ty
    ser = lambda: E.val(vcall(E, 'Serialize', hl, []))
    blob = ser()
    c.ob('blob-verifies', E.val(vcall(E, 'Verify', hl, [E.alloc(blob)])), 'C11')
    c.ob('blob-stable', E.val(vcall(E, 'IsEqual', hl, [E.alloc(blob), E.alloc(blob)])), 'C11')
    # another command list is told apart
    G2 = E.alloc(G0.set('commands_', E.fresh('std::vector<std::string>', 'old', ())), 'G2')
    clear_trace(E)
    c.call(FG + 'Build', G2)
    add2 = [s.v for s in E.store['$trace'].segs if isinstance(s, U) and is_ev(s.v, 'addid')]
    old = E.val(vcall(E, 'Serialize', add2[0].d[4].tgt, []))
    same = E.val(vcall(E, 'IsEqual', hl, [E.alloc(old), E.alloc(blob)]))
    c.ob('changed-commands-detected', same == E.eq(E.read(G2).f['commands_'], cmds), 'C11')
    # the callback
    clear_trace(E)
    out, r = call_cb(c, a.d[3], E.fresh('std::vector<std::string>', 'in', ()), E.fresh('std::vector<std::string>', 'out', ()), G0.f['command_'], blob)
    c.ob('callback-no-exception', out == 'ok', 'C11')
    if out != 'ok':
        return
    ex = events(E, 'exec')
    # commands executed: a prefix of the list, in order; all if successful, else up to and including the first failure
    n = E.vlen(cmds)
    m = E.vlen(ex)
    j = z3.Int('$cj')
    c.ob('only-commands-executed', len(E.store['$trace'].segs) == len(ex.segs), 'C11')
    c.ob('success-runs-all', Implies(r, m == n), 'C11')
    c.ob('success-iff-all-succeed', r == And(m == n, E.vall(ex, lambda v: v.d[1])), 'C11')
    c.ob('in-order', z3.ForAll([j], Implies(And(j >= 0, j < m), vget(E, ex, j, lambda v: E.eq(v.d[0], E.vat(cmds, j))))), 'C11')
    c.ob('stops-at-first-failure', z3.ForAll([j], Implies(And(j >= 0, j < m - 1), vget(E, ex, j, lambda v: v.d[1]))), 'C11')
    c.ob('failure-is-a-failed-command', Implies(Not(r), And(m >= 1, Not(vget(E, ex, m - 1, lambda v: v.d[1])))), 'C11')


@unit('gen.file.add', 'C11', [FG + 'AddCommand', FG + 'AddInput', FG + 'AddOutput', CG + 'ParsePattern'])
def fileadd(c):
    E = c.E
    G = E.alloc(E.fresh('buildcc::FileGenerator', 'G', ()), 'G')
    G0 = E.read(G)
    pat = S((z3.Const('pat', Str),))
    which = E.choose([[z3.Int('which') == x] for x in range(3)])
    if which == 0:
        am = E.fresh('std::unordered_map<const char*,std::string>', 'args', ())
        out, _ = c.tcall(FG + 'AddCommand', G, E.alloc(pat), E.alloc(am))
        ok, txt = built(E, G0.f['command_'], pat, am)
        c.ob('command-accepted-iff-constructs', (out == 'ok') == ok if isinstance(ok, bool) else z3.BoolVal(out == 'ok') == ok, 'C11')
        if out == 'ok':
            c.ob('command-appended', E.eq(E.read(G).f['commands_'], Vec(G0.f['commands_'].segs + (U(txt),))), 'C11')
        else:
            c.ob('rejected-command-adds-nothing', E.eq(E.read(G).f['commands_'], G0.f['commands_']), 'C11')
        keep = ('inputs_', 'outputs_')
    else:
        n, f = ('AddInput', 'inputs_') if which == 1 else ('AddOutput', 'outputs_')
        out, _ = c.tcall(FG + n, G, E.alloc(pat))
        c.ob('no-exception', out == 'ok', 'C11')
        k1 = S((z3.Const('k1', Str),))
        c.ob('added-exactly', E.mem(E.read(G).f[f], k1) == Or(k1.term() == pat.term(), E.mem(G0.f[f], k1)), 'C11')
        keep = tuple(x for x in ('inputs_', 'outputs_', 'commands_') if x != f)
    for x in keep:
        c.ob('rest-kept', E.eq(E.read(G).f[x], G0.f[x]), 'C11')


@unit('gen.template', 'C11', [TG + 'Build', TG + 'AddTemplate', '(anon)::template_generate_cb'], contracts=GCONS, fs_content=True)
def template(c):
    E = c.E
    G = E.alloc(E.fresh('buildcc::TemplateGenerator', 'G', ()), 'G')
    a, b = S((z3.Const('in', Str),)), S((z3.Const('out', Str),))
    t0 = E.read(G).f['template_infos_']
    out, _ = c.tcall(TG + 'AddTemplate', G, a, b)
    c.ob('add-no-exception', out == 'ok', 'C11')
    t1 = E.read(G).f['template_infos_']
    last = E.val(E.vat(t1, E.vlen(t0)))
    c.ob('template-appended', And(E.vlen(t1) == E.vlen(t0) + 1, E.eq(last.f['input_pattern'], a), E.eq(last.f['output_pattern'], b)), 'C11')
    G0 = E.read(G)
    clear_trace(E)
    out, _ = c.tcall(TG + 'Build', G)
    evs = events(E, 'addid', 'gbuild')
    if out != 'ok':
        okall = E.vall(t1, lambda v: built(E, G0.f['command_'], E.val(v).f['input_pattern'])[0])
        c.ob('fails-only-on-bad-pattern', Not(okall), 'C11')
        return
    add = events(E, 'addid')
    n = E.vlen(t1)
    c.ob('one-id-per-template', And(E.vlen(add) == n, E.vlen(evs) == n + 1), 'C11')
    c.ob('built-last', len(evs.segs) > 0 and isinstance(evs.segs[-1], U) and is_ev(evs.segs[-1].v, 'gbuild'), 'C11')
    cbs = []

    # per segment: the template list and the event list have the same shape
    c.ob('registered-inputs-and-outputs', seg_all(c, add, t1, lambda v, w: one2(c, v, w, cbs)), 'C11')
    c.ob('same-callback', len({key(x) for x in cbs}) == 1, 'C11')
    clear_trace(E)
    ctx_in, ctx_out = S((z3.Const('ci', Str),)), S((z3.Const('co', Str),))
    ep = E.epoch()
    out, r = call_cb(c, cbs[0], Vec((U(ctx_in),)), Vec((U(ctx_out),)), G0.f['command_'], Vec())
    ld, sv = events(E, 'load'), events(E, 'save')
    c.ob('reads-the-input', And(E.vlen(ld) == 1, E.vall(ld, lambda v: E.eq(v.d[0], ctx_in))), 'C11')
    data = S((lib2.content_f(ctx_in.term(), ep),))
    rd = z3.Function('load.ok', Str, I, B)(ctx_in.term(), ep)
    ok, txt = built(E, G0.f['command_'], data)
    c.ob('writes-substituted-content', E.vall(sv, lambda v: And(rd, ok, E.eq(v.d[0], ctx_out), E.eq(v.d[1], txt))), 'C11')
    c.ob('at-most-one-write', E.vlen(sv) <= 1, 'C11')
    if out == 'ok':
        c.ob('success-iff-written', r == E.vany(sv, lambda v: v.d[2]), 'C11')
        c.ob('readable-is-written', Implies(rd, E.vlen(sv) == 1), 'C11')
    else:
        c.ob('throws-only-on-bad-template', And(rd, Not(ok)), 'C11')


def one2(c, v, w, cbs):
    E = c.E
    cbs.append(v.d[3])
    x = S((z3.Const('$x', Str),))
    return z3.ForAll([x.term()], And(E.mem(v.d[1], x) == (x.term() == w.f['input_pattern'].term()), E.mem(v.d[2], x) == (x.term() == w.f['output_pattern'].term())))


def seg_all(c, evs, vec, f):
    """f(event, element) for the events and the elements at the same position (lists of the same segment shape)."""
    E = c.E
    if len(evs.segs) != len(vec.segs):
        raise Unsupported('event list shape')
    fs = []
    for s, t in zip(evs.segs, vec.segs):
        if isinstance(s, U) and isinstance(t, U):
            fs.append(f(s.v, E.val(t.v)))
        elif isinstance(s, FM) and len(s.cases) == 1 and z3.is_true(simp(s.cases[0][0])) and len(s.cases[0][1]) == 1:
            fs.append(And(s.n == E.seglen(t), z3.ForAll([s.iv], Implies(And(s.iv >= 0, s.iv < s.n), f(s.cases[0][1][0].v, E.val(E.elem(t, s.iv)))))))
        else:
            raise Unsupported('event list shape')
    return And(*fs)

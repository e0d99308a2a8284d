"""Assumed contracts of Taskflow, nlohmann::json, iostreams and tiny-process-library."""
import z3
from .vals import *
from .engine import *
from . import loops
from .lib import fn, L, SV, slen, norm, NPOS
from . import lib as _lib


# ------------------------------------------------------------------ taskflow
def mktask(E, why):
    return Op('task', E.new('task:' + why), *E.idx)


@fn('tf::Task::(ctor)')
def _tctor(E, o, a, e, f):
    return E.val(a[0]) if a else Op('task', '$null')


@fn('tf::Task::operator=')
def _tasg(E, o, a, e, f):
    E.write(E.loc(o), E.val(a[0]))
    return o


@fn('tf::Taskflow::(ctor)', 'tf::Executor::(ctor)', 'tf::GuidedPartitioner::(ctor)')
def _tfctor(E, o, a, e, f):
    return Op('ext:' + f['cls'].split('<')[0], E.new('tf'))


@fn('tf::Taskflow::name')
def _tfname(E, o, a, e, f):
    return None


def flowid(E, o):
    if is_lv(o):
        lv = E.resolve_soft(E.loc(o))
        return lv
    return Op('flow')


@fn('tf::FlowBuilder::emplace')
def _emplace(E, o, a, e, f):
    t = mktask(E, 'e')
    g = E.val(a[0])
    E.event('emplace', flowid(E, o), g, t)
    return t


@fn('tf::FlowBuilder::placeholder')
def _placeholder(E, o, a, e, f):
    return mktask(E, 'p')


@fn('tf::FlowBuilder::composed_of')
def _composed(E, o, a, e, f):
    t = mktask(E, 'c')
    E.event('compose', flowid(E, o), flowid(E, a[0]), t)
    return t


@fn('tf::FlowBuilder::for_each')
def _tffe(E, o, a, e, f):
    t = mktask(E, 'f')
    E.event('foreach', flowid(E, o), E.val(a[0]), E.val(a[1]), E.val(a[2]), t)
    return t


@fn('tf::Subflow::join', 'tf::Subflow::detach')
def _join_sub(E, o, a, e, f):
    """joins: the tasks emplaced so far in this subflow run now."""
    run_subtasks(E, flowid(E, o))
    if E.opts.get('join_bumps'):
        E.bump()


@fn('tf::Task::name')
def _tname(E, o, a, e, f):
    if a:
        E.event('name', E.val(o), SV(E, a[0]))
        return o
    t = E.val(o)
    return E.opts['taskname'](E, t) if 'taskname' in E.opts else S((E.uf(E.new('tname'), Str),))


def task_term(E, t):
    """identity of a task as an integer term."""
    if isinstance(t, Op) and t.tag == 'ext:tf::Task':
        return E.uf(t.d[0], I, t.d[1])
    if isinstance(t, Op) and t.tag == 'task' and isinstance(t.d[0], z3.ExprRef):
        return t.d[0]
    if isinstance(t, Op) and t.tag == 'task':
        return E.uf(t.d[0], I, t.d[1:])
    raise Unsupported('task identity')


succ_f, nsucc_f = z3.Function('tf.succ', I, I, I), z3.Function('tf.nsucc', I, I)
pred_f, npred_f = z3.Function('tf.dep', I, I, I), z3.Function('tf.ndep', I, I)
tname_f = z3.Function('tf.name', I, Str)


@fn('tf::Task::for_each_successor', 'tf::Task::for_each_dependent')
def _tf_edges(E, o, a, e, f):
    """calls the function once per successor (dependent) of the task, in order."""
    t = task_term(E, E.val(o))
    ef, nf = (succ_f, nsucc_f) if f['base'] == 'for_each_successor' else (pred_f, npred_f)
    j = z3.Int(E.new('te'))
    E.axiom(E.closed_all(nf(t) >= 0))
    g = E.val(a[0])
    loops.iterate(E, Vec((FM(nf(t), j, [(TRUE, (U(Op('task', ef(t, j))),))]),)), lambda el, k: E.callv(g, [E.loc(el)]))


@fn('tf::Task::precede')
def _precede(E, o, a, e, f):
    for x in a:
        E.event('edge', E.val(o), E.val(x))
    return o


@fn('tf::Task::succeed')
def _succeed(E, o, a, e, f):
    for x in a:
        E.event('edge', E.val(x), E.val(o))
    return o


@fn('tf::Executor::num_workers')
def _nw(E, o, a, e, f):
    return E.fresh('unsigned long')


@fn('tf::Executor::run')
def _run(E, o, a, e, f):
    E.event('run', flowid(E, a[0]))
    h = E.opts.get('on_run')
    if h:
        h(E, a[0])
    return Op('future', E.val(a[0]))


@fn('tf::Executor::wait_for_all', 'tf::Future::wait', 'tf::Future::get', 'std::future::get', 'std::future::wait')
def _wait(E, o, a, e, f):
    E.event('wait')
    h = E.opts.get('on_wait')
    if h:
        h(E)
    return None


def is_ev(v, kind):
    return isinstance(v, Op) and v.tag == 'ev:' + kind


def drop_events(E, pred):
    """remove events (structurally) from the trace."""
    def seg(s):
        if isinstance(s, U):
            return () if pred(s.v) else (s,)
        if isinstance(s, FM):
            cs = tuple((c, tuple(y for x in ss for y in seg(x))) for c, ss in s.cases)
            return (FM(s.n, s.iv, cs),) if any(ss for _, ss in cs) else ()
        if isinstance(s, SIte):
            return (SIte(s.c, [y for x in s.a for y in seg(x)], [y for x in s.b for y in seg(x)]),)
        return (s,)
    tr = E.store['$trace']
    E.store['$trace'] = Vec([y for x in tr.segs for y in seg(x)])


def run_subtasks(E, flow):
    """run every task emplaced in `flow` (and recursively those it spawns), in emplacement order."""
    tr = E.store['$trace']
    mine = lambda v: (is_ev(v, 'emplace') or is_ev(v, 'foreach')) and key(v.d[0]) == key(flow)

    def keep(s):
        if isinstance(s, U):
            return (s,) if mine(s.v) else ()
        if isinstance(s, FM):
            cs = tuple((c, tuple(y for x in ss for y in keep(x))) for c, ss in s.cases)
            return (FM(s.n, s.iv, cs),) if any(ss for _, ss in cs) else ()
        if isinstance(s, SIte):
            a, b = [y for x in s.a for y in keep(x)], [y for x in s.b for y in keep(x)]
            return (SIte(s.c, a, b),) if a or b else ()
        if isinstance(s, (Base,)):
            return ()
        return ()
    todo = Vec([y for x in tr.segs for y in keep(x)])
    drop_events(E, mine)
    if not todo.segs:
        return

    def one(ev, j):
        v = E.val(ev)
        if is_ev(v, 'foreach'):
            _lib.over(E, [v.d[1], v.d[2]], lambda el, _: as_task(E, lambda: E.callv(v.d[3], [el], 'void')))
        else:
            run_task(E, v.d[1])
    if all(isinstance(s, U) for s in todo.segs):
        for s in todo.segs:
            one(s.v, None)
    else:
        loops.iterate(E, todo, one)


def nparams(E, g):
    if isinstance(g, Fn) and g.kind == 'lam':
        n = g.node
        fnu = n['insts'][0]['fn'] if n.get('generic') else n['fn']
        return len(E.p.funcs[fnu]['params'])
    return 0


def run_task(E, g):
    """run one task body; the tasks it spawns in its subflow run when it returns (or joins)."""
    def go():
        if nparams(E, g) == 1:
            sub = E.alloc(Op('ext:tf::Subflow', E.new('sf')), '$sub')
            E.callv(g, [sub])
            run_subtasks(E, sub)
        else:
            E.callv(g, [])
    as_task(E, go)


def as_task(E, go):
    """ghost record: what exists when the task starts is shared with the tasks running at the same time."""
    if E.acc is None:
        return go()
    E.tasks.append((frozenset(E.store), tuple(E.idx)))
    try:
        return go()
    finally:
        E.tasks.pop()


# ------------------------------------------------------------------ json
# Op('json', node).  node: Op('jnull') | Op('jstr', S) | Op('jbool', t) | Op('jint', t) | Op('jarr', Vec of json) |
# Op('jmap', Map of json) | Op('jobj', Rec) | Op('jsym', name, idx)
def J(n):
    return Op('json', n)


def jnode(E, o):
    v = E.val(o)
    if not (isinstance(v, Op) and v.tag == 'json'):
        raise Unsupported('json expected')
    return v.d[0]


def user_json(E, base, which, t):
    for u in E.p.by_name.get('$' + which, ()):
        pass
    return None


def find_user(E, which, t):
    """the repository's to_json / from_json overload for type t (argument-dependent lookup)."""
    b = parse_ty(t)[0]
    for u, f in E.p.funcs.items():
        if f['base'] == which and f.get('root') and u in E.p.bodies and len(f['params']) == 2 and 'nlohmann' not in f['name']:
            pt = f['params'][1]['type']
            if parse_ty(pt)[0] == b and not parse_ty(pt)[1]:
                return u
    return None


def enc(E, v, t):
    """json encoding of a value of C++ type t."""
    k = E.p.kind(t)
    base, args, q = parse_ty(t)
    u = find_user(E, 'to_json', t)
    if u is not None:
        j = E.alloc(J(Op('jnull')))
        E.call(u, None, [j, v if is_lv(v) else E.alloc(v)])
        return E.read(j)
    v = E.val(v)
    if isinstance(v, Op) and v.tag == 'json':
        return v
    if k in ('str', 'cstr'):
        return J(Op('jstr', SV(E, v)))
    if k == 'bool':
        return J(Op('jbool', v))
    if k == 'int':
        return J(Op('jint', v))
    if k == 'vec':
        r = E.alloc(Vec())

        def one(el, j):
            x = enc(E, el, args[0])
            cur = E.read(r)
            E.write(r, Vec(cur.segs + (U(x),)))
        loops.iterate(E, v, one)
        return J(Op('jarr', E.read(r)))
    if k == 'map':
        r = E.alloc(Map(('E',), args[0], '$json'))

        def onem(el, j):
            p = E.val(el)
            kk = p.f['first']
            x = enc(E, p.f['second'].lv if isinstance(p.f['second'], RefV) else p.f['second'], args[1])
            E.write(r + ('m', kk), x)
        loops.iterate(E, v, onem)
        return J(Op('jmap', E.read(r)))
    raise Unsupported('json encoding of %s' % t[:80])


def jbool(E, what, node):
    nm, idx = node.d[0], node.d[1:]
    return E.uf('%s:%s' % (what, nm), B, idx)


def typed(E, node, kind):
    """condition: node holds json kind (str/bool/num/arr/obj/null)."""
    tag = {'jstr': 'str', 'jbool': 'bool', 'jint': 'num', 'jarr': 'arr', 'jmap': 'obj', 'jobj': 'obj', 'jnull': 'null'}.get(node.tag)
    if tag is not None:
        return z3.BoolVal(tag == kind)
    if node.tag == 'jsym':
        nm, idx = node.d[0], node.d[1:]
        kt = E.uf('jkind:' + nm, I, idx)
        return kt == ['null', 'bool', 'num', 'str', 'arr', 'obj'].index(kind)
    raise Unsupported('json kind')


def jthrow():
    raise Throw(Op('exc', 'nlohmann::exception'))


def dec(E, node, lv, t):
    """decode node into lv of C++ type t; raises on a type mismatch."""
    k = E.p.kind(t)
    base, args, q = parse_ty(t)
    u = find_user(E, 'from_json', t)
    if u is not None:
        j = E.alloc(J(node))
        E.call(u, None, [j, lv])
        return
    need = {'str': 'str', 'bool': 'bool', 'int': 'num', 'vec': 'arr', 'map': 'obj'}.get(k)
    if need is None:
        raise Unsupported('json decoding of %s' % t[:80])
    okk = typed(E, node, need)
    if need == 'num':
        okk = Or(okk, typed(E, node, 'bool'))
    if not E.branch(okk):
        jthrow()
    if node.tag == 'jsym':
        nm, idx = node.d[0], node.d[1:]
        if k in ('str', 'bool', 'int'):
            E.write(lv, E.fresh(t, 'jval:' + nm, idx))
            return
        if k == 'vec':
            n = E.uf('jlen:' + nm, I, idx)
            E.axiom(E.closed(n >= 0, idx))
            E.write(lv, Vec())

            def one(j):
                x = E.alloc(E.default(args[0]))
                dec(E, Op('jsym', nm + '[]', *idx, j), x, args[0])
                E.write(lv, Vec(E.read(lv).segs + (U(E.read(x)),)))
            loops.run_loop(E, n, one)
            return
        if k == 'map':
            m = Map(('B', 'jkeys:' + nm, args[0], None, tuple(idx)), args[0], None)
            E.write(lv, E.default(t))

            def onek(el, j):
                kk = E.val(el)
                x = E.alloc(E.default(args[1]))
                dec(E, Op('jsym', nm + '{}', *idx, kk.term()), x, args[1])
                E.write(lv + ('m', kk), E.read(x))
            loops.iterate(E, m, onek)
            return
    if k == 'str':
        E.write(lv, node.d[0])
    elif k in ('bool', 'int'):
        E.write(lv, node.d[0])
    elif k == 'vec':
        E.write(lv, Vec())

        def onev(el, j):
            x = E.alloc(E.default(args[0]))
            dec(E, E.val(el).d[0], x, args[0])
            E.write(lv, Vec(E.read(lv).segs + (U(E.read(x)),)))
        loops.iterate(E, node.d[0], onev)
    elif k == 'map':
        E.write(lv, E.default(t))

        def onep(el, j):
            p = E.val(el)
            kk = p.f['first']
            sv = E.val(p.f['second'].lv) if isinstance(p.f['second'], RefV) else p.f['second']
            x = E.alloc(E.default(args[1]))
            dec(E, sv.d[0], x, args[1])
            E.write(lv + ('m', kk), E.read(x))
        loops.iterate(E, node.d[0], onep)


@fn('nlohmann::basic_json::(ctor)')
def _jctor(E, o, a, e, f):
    if not a:
        return J(Op('jnull'))
    t = f['params'][0]['type']
    if t.replace('const ', '').startswith('std::nullptr_t'):
        return J(Op('jnull'))
    v = E.val(a[0])
    if isinstance(v, Op) and v.tag == 'json':
        return v
    return enc(E, a[0], strip_ref(t))


def strip_ref(t):
    t = t.strip()
    while t.endswith('&') or t.endswith(' const'):
        t = t[:-1].strip() if t.endswith('&') else t[:-6].strip()
    if t.startswith('const '):
        t = t[6:]
    if t.startswith('enum '):
        t = t[5:]
    return t


@fn('nlohmann::basic_json::operator=')
def _jasg(E, o, a, e, f):
    E.write(E.loc(o), E.val(a[0]))
    return o


def objfields(E, n):
    return n.d[0]


@fn('nlohmann::basic_json::operator[]')
def _jidx(E, o, a, e, f):
    lv = E.loc(o)
    k = SV(E, a[0]).conc()
    n = jnode(E, lv)
    if k is None:
        raise Unsupported('json key')
    if n.tag == 'jnull':
        n = Op('jobj', Rec('$jobj', {}))
    if n.tag != 'jobj':
        raise Unsupported('json operator[]')
    if k not in n.d[0].f:
        n = Op('jobj', n.d[0].set(k, J(Op('jnull'))))
        E.write(lv, J(n))
    return lv + ('j', k)


@fn('nlohmann::basic_json::at')
def _jat(E, o, a, e, f):
    n = jnode(E, o)
    k = SV(E, a[0]).conc()
    if k is None:
        raise Unsupported('json key')
    if n.tag == 'jobj':
        if k not in n.d[0].f:
            jthrow()
        return E.alloc(n.d[0].f[k])
    if n.tag == 'jsym':
        nm, idx = n.d[0], n.d[1:]
        if not E.branch(And(typed(E, n, 'obj'), E.uf('jhas:%s.%s' % (nm, k), B, idx))):
            jthrow()
        return E.alloc(J(Op('jsym', '%s.%s' % (nm, k), *idx)))
    jthrow()


@fn('nlohmann::basic_json::contains')
def _jcontains(E, o, a, e, f):
    n = jnode(E, o)
    k = SV(E, a[0]).conc()
    if n.tag == 'jobj':
        return z3.BoolVal(k in n.d[0].f)
    if n.tag == 'jsym':
        return And(typed(E, n, 'obj'), E.uf('jhas:%s.%s' % (n.d[0], k), B, n.d[1:]))
    return FALSE


@fn('nlohmann::basic_json::get_to')
def _jgetto(E, o, a, e, f):
    lv = E.loc(a[0])
    dec(E, jnode(E, o), lv, strip_ref(f['params'][0]['type']))
    return lv


@fn('nlohmann::basic_json::get')
def _jget(E, o, a, e, f):
    t = strip_ref(f['ret'])
    x = E.alloc(E.default(t))
    dec(E, jnode(E, o), x, t)
    return E.read(x)


def _kindfn(kind):
    def h(E, o, a, e, f):
        return typed(E, jnode(E, o), kind)
    return h


for _n, _k in (('is_string', 'str'), ('is_boolean', 'bool'), ('is_array', 'arr'), ('is_object', 'obj'), ('is_null', 'null'), ('is_number', 'num')):
    L['nlohmann::basic_json::' + _n] = _kindfn(_k)


@fn('nlohmann::basic_json::is_discarded')
def _jdisc(E, o, a, e, f):
    n = jnode(E, o)
    if n.tag == 'jsym' and n.d[0].startswith('parse'):
        return E.uf('jdiscarded:' + n.d[0], B, n.d[1:])
    return FALSE


DUMPS = {}
jstr_f = z3.Function('json.str', Str, Str)      # the quoted, escaped form of a string: a JSON string whose value is its argument


@fn('nlohmann::basic_json::dump')
def _jdump(E, o, a, e, f):
    n = jnode(E, o)
    if n.tag == 'jstr' and not E.opts.get('dump_may_throw'):
        return S((jstr_f(n.d[0].term()),))
    nm = 'jdump:%d' % intern_key(key(n))
    DUMPS[nm] = n
    if E.opts.get('dump_may_throw'):
        if not E.branch(E.uf('utf8:' + nm, B)):
            jthrow()
    return S((E.uf(nm, Str, [i for i in E.idx if val_mentions(n, i)]),))


@fn('nlohmann::basic_json::parse')
def _jparse(E, o, a, e, f):
    s = SV(E, a[0])
    exc = a[2] if len(a) > 2 else TRUE
    exc = E.val(exc)
    if len(s.parts) == 1 and not isinstance(s.parts[0], str):
        nm = s.parts[0].decl().name()
        if nm in DUMPS:
            return J(DUMPS[nm])
    nm = 'parse:%d' % intern_key(key(s))
    j = Op('jsym', nm)
    E.axiom(Implies(E.uf('jdiscarded:' + nm, B, ()), E.uf('jkind:' + nm, I, ()) == 9))
    if E.branch(exc):
        if E.branch(E.uf('jdiscarded:' + nm, B, ())):
            jthrow()
    return J(j)


@fn('nlohmann::basic_json::value')
def _jvalue(E, o, a, e, f):
    n = jnode(E, o)
    k = SV(E, a[0]).conc()
    if k is None:
        raise Unsupported('json key')
    if not E.branch(typed(E, n, 'obj')):
        jthrow()
    if n.tag == 'jobj':
        has, sub = z3.BoolVal(k in n.d[0].f), (n.d[0].f[k].d[0] if k in n.d[0].f else None)
    else:
        has, sub = E.uf('jhas:%s.%s' % (n.d[0], k), B, n.d[1:]), Op('jsym', '%s.%s' % (n.d[0], k), *n.d[1:])
    if not E.branch(has):
        return E.val(a[1])
    t = strip_ref(f['ret'])
    x = E.alloc(E.default(t))
    dec(E, sub, x, t)
    return E.read(x)


@fn('nlohmann::basic_json::to_msgpack')
def _jmsg(E, o, a, e, f):
    n = E.val(a[0]).d[0]
    nm = 'jmsg:%d' % intern_key(key(n))
    DUMPS[nm] = n
    return E.fresh('std::vector<unsigned char>', nm, ())


@fn('nlohmann::basic_json::from_msgpack')
def _jfmsg(E, o, a, e, f):
    v = E.val(a[0])
    if len(v.segs) == 1 and isinstance(v.segs[0], Base) and v.segs[0].name in DUMPS:
        return J(DUMPS[v.segs[0].name])
    nm = 'parse:%d' % intern_key(key(v))
    j = Op('jsym', nm)
    if len(a) > 2 and E.branch(E.val(a[2])):
        if E.branch(E.uf('jdiscarded:' + nm, B, ())):
            jthrow()
    return J(j)


@fn('std::basic_string::data')
def _sdata(E, o, a, e, f):
    if is_lv(o) and not (f.get('ret') or '').startswith('const'):
        return Op('strdata', E.loc(o))
    return SV(E, o)


# ------------------------------------------------------------------ streams
# ofstream: Rec('$ofs', path, open, data(S), ok(Bool: everything handed over so far was accepted), fl(Bool: everything reached the file), fail, closed)
content_f = z3.Function('fs.content', Str, I, Str)
readable_f = z3.Function('fs.readable', Str, I, B)


def _ofs(path, opened, append=FALSE):
    return Rec('$ofs', {'path': path, 'open': opened, 'data': S(), 'err': Not(opened), 'bad': FALSE, 'pending': FALSE, 'append': append})


@fn('std::basic_ofstream::(ctor)')
def _ofsctor(E, o, a, e, f):
    if not a:
        return Rec('$ofs', {'path': S(), 'open': FALSE, 'data': S(), 'err': FALSE, 'bad': FALSE, 'pending': FALSE, 'append': FALSE})
    p = SV(E, a[0])
    opened = E.uf(E.new('ofs.open'), B)
    mode = E.val(a[1]) if len(a) > 1 else z3.IntVal(16)
    E.event('open', p, opened, mode if isinstance(mode, z3.ExprRef) else Op('mode'))
    return _ofs(p, opened)


@fn('std::basic_ofstream::open')
def _ofsopen(E, o, a, e, f):
    E.write(E.loc(o), _ofsctor(E, o, a, e, f))


@fn('std::basic_ofstream::is_open', 'std::basic_ifstream::is_open')
def _isopen(E, o, a, e, f):
    return E.val(o).f['open']


def _put(E, lv, s):
    v = E.read(lv)
    w = E.uf(E.new('ofs.write.bad'), B)
    nb = Or(v.f['bad'], w)
    ne = Or(v.f['err'], w)
    E.write(lv, Rec('$ofs', dict(v.f, data=S((v.f['data'], s)), bad=nb, err=ne, pending=TRUE)))


@fn('std::basic_ostream::write')
def _write(E, o, a, e, f):
    lv = E.loc(o)
    v = E.read(lv)
    s = SV(E, a[0])
    n = E.val(a[1])
    if v.ty == '$oss':
        E.write(lv, v.set('data', S((v.f['data'], s))))
        return lv
    if not simp(n).eq(simp(slen(E, s))) and not E.implied(n == slen(E, s)):
        s = S((_lib.sub_f(s.term(), z3.IntVal(0), n),))
    _put(E, lv, s)
    return lv


@fn('std::operator<<', 'std::basic_ostream::operator<<')
def _shl(E, o, a, e, f):
    if o is not None:
        lv, x = E.loc(o), a[0]
    else:
        lv, x = E.loc(a[0]), a[1]
    v = E.read(lv)
    w = E.val(x)
    if isinstance(w, Op) and w.tag == 'rdbuf':
        src = E.read(w.d[0])
        s = src.f['content']
    else:
        s = SV(E, w)
    if v.ty == '$oss':
        E.write(lv, v.set('data', S((v.f['data'], s))))
    elif v.ty == '$ofs':
        _put(E, lv, s)
    else:
        raise Unsupported('<< on %s' % v.ty)
    return lv


@fn('std::basic_ostream::flush', 'std::basic_ofstream::close', 'std::flush', 'std::endl')
def _flush(E, o, a, e, f):
    lv = E.loc(o if o is not None else a[0])
    v = E.read(lv)
    if v.ty == '$ifs':
        return None
    w = E.uf(E.new('ofs.flush.fail'), B)
    # close() reports a failed flush as failbit, flush() as badbit
    bad = Or(v.f['bad'], w) if f['base'] != 'close' else v.f['bad']
    if v.ty == '$ofs':
        E.event('written', v.f['path'], v.f['data'], Or(v.f['err'], w))
    E.write(lv, Rec('$ofs', dict(v.f, err=Or(v.f['err'], w), bad=bad, pending=FALSE, open=FALSE if f['base'] == 'close' else v.f['open'])))
    return lv


@fn('std::basic_ios::bad')
def _bad(E, o, a, e, f):
    return E.val(o).f['bad']


@fn('std::basic_ios::fail', 'std::basic_ios::operator!')
def _failb(E, o, a, e, f):
    return E.val(o).f['err']


@fn('std::basic_ios::good', 'std::basic_ios::operator bool')
def _good(E, o, a, e, f):
    v = E.val(o)
    if v.ty == '$ss' or v.ty == '$ifs':
        return v.f['good']
    return Not(v.f['err'])


@fn('std::basic_ifstream::(ctor)')
def _ifsctor(E, o, a, e, f):
    if not a:
        raise Unsupported('ifstream default')
    p = SV(E, a[0])
    ep = E.epoch()
    op = And(readable_f(p.term(), ep))
    c = S((content_f(p.term(), ep),))
    b = z3.Function('ifs.badread', Str, I, B)(p.term(), ep)
    return Rec('$ifs', {'path': p, 'open': op, 'content': c, 'bad': FALSE, 'err': Not(op), 'good': op, 'badv': b})


@fn('std::basic_ifstream::rdbuf')
def _rdbuf(E, o, a, e, f):
    lv = E.loc(o)
    v = E.read(lv)
    return Op('rdbuf', lv)


@fn('std::basic_istream::read')
def _iread(E, o, a, e, f):
    """reads exactly n bytes into the buffer (a whole-file read when n is the file size)."""
    lv = E.loc(o)
    v = E.read(lv)
    n = E.val(a[1])
    dst = a[0]
    tgt = E.opts.get('$lastdata')
    h = E.val(dst)
    fsz = z3.Function('fs.size', Str, I, I)(v.f['path'].term(), E.epoch())
    E.axiom(slen(E, v.f['content']) == fsz)
    if simp(n).eq(simp(fsz)) or E.implied(n == fsz):
        s = v.f['content']
    else:
        s = S((z3.Function('io.read', Str, I, Str)(v.f['content'].term(), n),))
    b = v.f['badv']
    if isinstance(h, Op) and h.tag == 'strdata':
        E.write(h.d[0], s)
    elif isinstance(h, Ptr) and is_lv(h.tgt):
        E.write(h.tgt, s)
    elif tgt is not None:
        E.write(tgt, s)
    else:
        raise Unsupported('istream::read target')
    E.write(lv, Rec('$ifs', dict(v.f, bad=Or(v.f['bad'], b), err=Or(v.f['err'], b), good=And(v.f['good'], Not(b)))))
    return lv


@fn('std::basic_ostringstream::(ctor)')
def _ossctor(E, o, a, e, f):
    return Rec('$oss', {'data': S() if not a else SV(E, a[0]), 'bad': FALSE, 'err': FALSE, 'good': TRUE})


@fn('std::basic_ostringstream::str', 'std::basic_stringstream::str')
def _ossstr(E, o, a, e, f):
    v = E.val(o)
    return v.f['data']


@fn('std::basic_stringstream::(ctor)', 'std::basic_istringstream::(ctor)')
def _ssctor(E, o, a, e, f):
    return Rec('$ss', {'data': SV(E, a[0]) if a else S(), 'pos': z3.IntVal(0), 'good': TRUE, 'bad': FALSE, 'err': FALSE})


npieces_f = z3.Function('split.n', Str, I, I)
piece_f = z3.Function('split.piece', Str, I, I, Str)


@fn('std::getline')
def _getline(E, o, a, e, f):
    """getline number k on text s yields piece k of s; it fails once all pieces are consumed."""
    lv = E.loc(a[0])
    v = E.read(lv)
    if v.ty != '$ss':
        raise Unsupported('getline on %s' % v.ty)
    d = E.val(a[2]) if len(a) > 2 else z3.IntVal(10)
    s = v.f['data']
    n = npieces_f(s.term(), d)
    E.axiom(n >= 0)
    k = v.f['pos']
    if E.branch(And(k < n)):
        E.write(E.loc(a[1]), S((piece_f(s.term(), d, k),)))
        E.write(lv, Rec('$ss', dict(v.f, pos=simp(k + 1))))
    else:
        E.write(lv, Rec('$ss', dict(v.f, good=FALSE, err=TRUE)))
    return lv


# ------------------------------------------------------------------ processes
@fn('TinyProcessLib::Process::(ctor)')
def _proc(E, o, a, e, f):
    vals = [E.val(x) for x in a[:5]]
    nm = E.new('proc')
    E.opts['$proc'] = nm
    E.event('process', SV(E, vals[0]), SV(E, vals[1]) if len(vals) > 1 else S(), vals[2] if len(vals) > 2 else Fn('empty'), vals[3] if len(vals) > 3 else Fn('empty'),
            vals[4] if len(vals) > 4 else FALSE)
    h = E.opts.get('on_process')
    if h:
        h(E, vals)
    E.bump()
    return Op('proc', nm, *E.idx)


@fn('TinyProcessLib::Process::get_exit_status')
def _exit_status(E, o, a, e, f):
    v = E.val(o)
    return E.uf('exit:' + v.d[0], I, v.d[1:])


# ------------------------------------------------------------------ contracts of repository functions at verified boundaries
def c_execute(E, o, a, e, f):
    """Contract of env::Command::Execute used by its callers (its body is verified under C25):
    one command event; the outcome is arbitrary; the file system may change."""
    cmd = SV(E, a[0])
    extra = []
    for x in a[1:]:
        v = E.val(x)
        extra.append(v if isinstance(v, (V, z3.ExprRef)) else Op('none'))
    ok = E.uf(E.new('exec.ok'), B)
    h = E.opts.get('on_exec')
    if h:
        h(E, cmd, a)
    E.event('exec', cmd, ok, *extra)
    E.bump()
    if E.opts.get('exec_throws') and E.branch(E.uf(E.new('exec.throws'), B)):
        raise Throw(Op('exc', 'fatal'))
    for x in a[2:4]:
        v = E.val(x)
        if isinstance(v, Ptr) and is_lv(v.tgt) and not z3.is_true(v.null):
            if E.branch(Not(v.null)):
                cur = E.read(v.tgt)
                if isinstance(cur, Vec):
                    b = E.fresh('std::vector<std::string>', E.new('captured'))
                    E.write(v.tgt, Vec(cur.segs + b.segs))
    return ok


def c_save(E, o, a, e, f):
    """Contract of env::save_file (verified under C22): one write event with arbitrary outcome."""
    p = E.val(a[0])
    buf = a[1]
    ok = E.uf(E.new('save.ok'), B)
    E.event('save', SV(E, p), SV(E, buf), ok)
    if not E.opts.get('save_keeps_fs'):
        E.bump()
    return ok


def c_load(E, o, a, e, f):
    """Contract of env::load_file (verified under C22): on success the buffer is the file's content, otherwise it may be anything."""
    p = SV(E, a[0])
    buf = E.val(a[2])
    ep = E.epoch()
    for s in reversed(E.store['$trace'].segs if E.opts.get('fs_content') else ()):
        if isinstance(s, U) and is_ev(s.v, 'save') and key(s.v.d[0]) == key(p):
            if E.branch(s.v.d[2]):
                E.event('load', p, TRUE)
                E.write(buf.tgt, s.v.d[1])
                return TRUE
    ok = z3.Function('load.ok', Str, I, B)(p.term(), ep)
    E.event('load', p, ok)
    if isinstance(buf, Ptr) and is_lv(buf.tgt):
        if E.branch(ok):
            E.write(buf.tgt, S((content_f(p.term(), ep),)))
            return TRUE
        E.write(buf.tgt, E.fresh('std::string'))
        return FALSE
    raise Unsupported('load_file buffer')


def c_disp(E, o, a, e, f):
    return _lib.display(E, SV(E, a[0]))


def c_construct(E, o, a, e, f):
    """Contract of Command::Construct (verified under C21): the pattern with every named field replaced by the default of that name if
    there is one, else by the argument of that name; a field with neither, or a malformed pattern, is fatal."""
    pat = SV(E, a[0])
    dm = E.val(o + ('f', 'default_values_')) if is_lv(o) else E.val(o).f['default_values_']
    am = E.val(a[1])
    de, ae = loops.map_entries(dm), loops.map_entries(am)
    E.event('construct', pat, dm, am)
    if pat.conc() is not None and de is not None and ae is not None and all(k.conc() is not None for k, _ in de + ae):
        r = _lib.named_subst(pat.conc(), [(k.conc(), SV(E, v)) for k, v in de + ae])
        if r is None:
            raise Throw(Op('exc', 'std::exception'))
        return r
    return construct_result(E, pat, dm, am, True)


def conc_entries(m):
    """entries of a map with literal keys and string values, or None."""
    es = loops.map_entries(m)
    if es is None or any(k.conc() is None or not isinstance(v, S) for k, v in es):
        return None
    d = {}
    for k, v in es:
        d.setdefault(k.conc(), v)
    return d


def construct_fns(E, pat, dm, am):
    """(succeeds, text): functions of the pattern and the merged values (a default wins over an argument of the same name)."""
    de, ae = conc_entries(dm), conc_entries(am)
    vals, parts, ix = {}, [], {}
    if ae is not None and de is not None:
        vals = dict(ae, **de)
    elif ae is not None:
        vals = ae
        parts, ix = [key(dm)], free_ix([dm])
    elif de is not None:
        vals = de
        parts, ix = ['args', key(am)], free_ix([am])
    else:
        parts, ix = [key(dm), key(am)], free_ix([dm, am])
    names = sorted(vals)
    nm = 'construct:%d' % intern_key((tuple(names), tuple(parts)))
    ar = list(ix.values()) + [pat.term()] + [vals[n].term() for n in names]
    srt = [x.sort() for x in ar]
    return z3.Function(nm + '.ok', *srt, B)(*ar), S((z3.Function(nm, *srt, Str)(*ar),))


def construct_result(E, pat, dm, am, check=False):
    ok, txt = construct_fns(E, pat, dm, am)
    if check and not E.branch(ok):
        raise Throw(Op('exc', 'std::exception'))
    return txt


BOUNDARY = {'buildcc::env::Command::Construct': c_construct, 'buildcc::env::Command::Execute': c_execute, 'buildcc::env::save_file': c_save, 'buildcc::env::load_file': c_load}

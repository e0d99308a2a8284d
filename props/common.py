"""Shared specification vocabulary: symbolic targets, agreement of record and current inputs, event traces."""
import z3
from cxxvc.vals import *
from cxxvc.engine import *
from cxxvc import lib, lib2, loops
from cxxvc.spec import unit, UNITS
from cxxvc.lib2 import run_task, run_subtasks, is_ev

INT = 'buildcc::internal::'
SUCCESS, FAILURE = 0, 1

COMPILE_FLAGS = ['preprocessor_flags', 'common_compile_flags', 'pch_object_flags', 'asm_compile_flags', 'c_compile_flags', 'cpp_compile_flags']
PCH_FLAGS = ['preprocessor_flags', 'common_compile_flags', 'pch_compile_flags', 'c_compile_flags', 'cpp_compile_flags']


def F(lv, *names):
    for n in names:
        lv = lv + ('f', n)
    return lv


def fld(v, *names):
    for n in names:
        v = v.f[n]
    return v


def state_lv(E):
    """location of the global task state (env::current_state)."""
    for g, d in E.p.globals.items():
        if d['name'].split('::')[-1] == 'current_state':
            return E.global_lv(g)
    raise Unsupported('task state variable not found')


def set_state(c, v=None):
    E = c.E
    lv = state_lv(E)
    E.write(lv, z3.Int('task_state') if v is None else z3.IntVal(v))
    if v is None:
        E.axiom(Or(z3.Int('task_state') == SUCCESS, z3.Int('task_state') == FAILURE))
    return lv


def target(c, cls='buildcc::Target', name='T', store_empty=True):
    """an arbitrary target object: every field unconstrained, except that its parts refer to it."""
    E = c.E
    t = E.fresh(cls, name, ())
    lv = E.alloc(t, name)
    tc = E.alloc(E.fresh('buildcc::Toolchain', name + '.tc', ()), name + '.TC')
    f = dict(t.f)
    for sub in ('compile_object_', 'compile_pch_', 'link_target_'):
        if sub in f:
            f[sub] = f[sub].set('target_', RefV(lv))
    f['toolchain_'] = RefV(tc)
    t = Rec(t.ty, f)
    E.store[lv.root] = t
    if store_empty:
        E.write(F(lv, 'serialization_', 'store_'), E.default(INT + 'TargetSchema'))
    return lv


def normalised(c, vec):
    """precondition: all paths of a PathInfo vector are in stored (normal) form (established by PathInfoList::Emplace, C16/C23)."""
    E = c.E
    E.axiom(lib.norm_axiom())
    E.assume(E.vall(vec, lambda v: lib.norm_f(E.val(v).f['path'].term()) == E.val(v).f['path'].term()))


def has_objects(c, T):
    """precondition: every listed source has an object entry (established by Target::Build, unit target.build)."""
    E = c.E
    t = E.read(T)
    m = fld(t, 'compile_object_', 'object_files_')
    E.assume(E.vall(fld(t, 'user_', 'sources', 'infos_'), lambda v: E.mem(m, E.val(v).f['path'])))


def mtime_str(E, path, ep):
    return S((lib.i2s_f(lib.mtime_f(lib.norm(E, path).term(), ep)),))


def hashed(E, v, ep):
    """a PathInfo value with its hash replaced by the timestamp of its file at epoch ep."""
    return Rec(v.ty, dict(v.f, hash=mtime_str(E, v.f['path'], ep)))


def hashed_list(E, vec, ep):
    """the list with every hash replaced by the current timestamp."""
    r = E.alloc(Vec())

    def one(el, j):
        E.write(r, Vec(E.read(r).segs + (U(hashed(E, E.val(el), ep)),)))
    loops.iterate(E, vec, one)
    return E.read(r)


def events(E, *kinds):
    """trace restricted to the given event kinds."""
    def keep(s):
        if isinstance(s, U):
            return (s,) if s.v.tag[3:] in kinds else ()
        if isinstance(s, FM):
            cs = tuple((c, tuple(y for x in ss for y in keep(x))) for c, ss in s.cases)
            return (FM(s.n, s.iv, cs),) if any(ss for _, ss in cs) else ()
        if isinstance(s, SIte):
            a, b = [y for x in s.a for y in keep(x)], [y for x in s.b for y in keep(x)]
            return (SIte(s.c, a, b),) if a or b else ()
        raise Unsupported('trace segment')
    return Vec([y for x in E.store['$trace'].segs for y in keep(x)])


def clear_trace(E):
    E.store['$trace'] = Vec()


def emplaced(E, flow=None):
    """the single closure emplaced (structurally) on the trace."""
    out = []
    for s in E.store['$trace'].segs:
        if isinstance(s, U) and is_ev(s.v, 'emplace'):
            out.append(s.v.d[1])
    return out


def veq_at(E, a, b):
    return E.eq(a, b)


def vget(E, vec, j, f):
    """f applied to the j-th element, as a formula (no branching)."""
    def at(s, x):
        if isinstance(s, U):
            return f(s.v)
        if isinstance(s, FM):
            r = FALSE
            for cnd, ss in reversed(s.cases):
                if len(ss) != 1 or not isinstance(ss[0], U):
                    raise Unsupported('list shape')
                v = f(subst(ss[0].v, [(s.iv, x)]))
                r = v if z3.is_true(cnd) else z3.If(z3.substitute(cnd, (s.iv, x)), v, r)
            return r
        raise Unsupported('list shape')
    off, out = z3.IntVal(0), []
    for s in vec.segs:
        n = z3.IntVal(1) if isinstance(s, U) else E.seglen(s)
        out.append((simp(off + n), at(s, simp(j - off))))
        off = simp(off + n)
    r = FALSE
    for lim, v in reversed(out):
        r = z3.If(j < lim, v, r)
    return r


def vsame(E, a, b):
    """segment-wise equality of two lists of the same shape: a sufficient condition for equality, for use in goals only (a bound index
    becomes an arbitrary constant)."""
    if key(a) == key(b):
        return TRUE
    sa, sb = list(a.segs), list(b.segs)
    if len(sa) != len(sb):
        return E.eq(a, b)
    out = []
    for x, y in zip(sa, sb):
        if key(x) == key(y):
            continue
        if isinstance(x, FM) and isinstance(y, FM):
            j = z3.Int(E.new('vs'))
            sub = lambda s, iv: [(z3.substitute(cd, (iv, j)), Vec([subst(q, [(iv, j)]) for q in ss])) for cd, ss in s.cases]
            ca, cb = sub(x, x.iv), sub(y, y.iv)
            inner = []
            for cd, v in ca:
                for dd, w in cb:
                    if not v.segs and not w.segs:
                        continue
                    inner.append(Implies(And(cd, dd), vsame(E, v, w)))
            for mine, others in ((ca, cb), (cb, ca)):
                none = Not(Or(*[cd for cd, _ in others]))
                for cd, v in mine:
                    if v.segs:
                        inner.append(Implies(And(cd, none), E.vempty(v)))
            out.append(And(x.n == y.n, Implies(And(0 <= j, j < x.n), And(*inner))))
        else:
            out.append(E.eq(Vec((x,)), Vec((y,))))
    return And(*out)

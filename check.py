#!/opt/veriftools/pyvenv/bin/python3
"""Entry point of every check:  check.py PROPERTY [quick|thorough]

Re-exports the AST of /repo's current sources, generates the obligations of the units the property depends on, discharges them, and, as a
second, bounded line, replays the property on the real code.  Exit 0: every obligation discharged.  Exit 1: VIOLATION line."""
import fcntl, glob, hashlib, importlib, json, multiprocessing, os, re, shutil, subprocess, sys, threading, time, traceback

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(HERE, '.cache'))
sys.path[:0] = [HERE, os.path.join(HERE, 'props')]
sys.setrecursionlimit(20000)
DEFS = '-DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB'
INCS = '-I. -Ischema/include -Ilib/env/include -Ilib/toolchain/include -Itoolchains/include -Ilib/target/include -Itargets/include -Ilib/args/include -Iplugins/include'
PRE = '-include taskflow/taskflow.hpp -include taskflow/algorithm/for_each.hpp'
NJ = os.cpu_count() or 4


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, timeout=timeout)


def digest(paths, extra='', rel=None):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update((os.path.relpath(p, rel) if rel else p).encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'buildcc')):
        if '/test' in d + '/' or '/mock' in d + '/':
            continue
        out += [os.path.join(d, f) for f in fs if f.endswith(('.cpp', '.h', '.hpp'))]
    return out


class Job:
    """a set of shell commands run in parallel."""

    def __init__(self, cmds, cwd):
        self.cmds, self.cwd = cmds, cwd

    def run(self, timeout=500):
        todo, live, bad = list(self.cmds), [], []
        end = time.time() + timeout
        while todo or live:
            while todo and len(live) < NJ:
                c = todo.pop(0)
                live.append((c, subprocess.Popen(c, shell=True, cwd=self.cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
            rest = []
            for c, p in live:
                if p.poll() is None:
                    if time.time() > end:
                        p.kill()
                        bad.append((c, 'timeout'))
                    else:
                        rest.append((c, p))
                elif p.returncode != 0:
                    bad.append((c, p.stderr.read()[-1500:]))
            live = rest
            time.sleep(0.02)
        return bad


def prune(d, keep, n=3):
    xs = sorted((x for x in glob.glob(d) if x != keep), key=os.path.getmtime)
    for x in xs[:-n] if n else xs:
        shutil.rmtree(x, ignore_errors=True)


def exporter():
    src = os.path.join(HERE, 'exporter/export.cpp')
    name = 'export-' + digest([src], rel=HERE)
    kept = os.path.join(HERE, 'bin', name)
    if os.path.exists(kept) and sh([kept, '--version']).returncode == 0:
        return kept
    out = os.path.join(CACHE, name)
    if not os.path.exists(out):
        r = sh('/usr/bin/clang++-18 $(llvm-config-18 --cxxflags) -fno-rtti -O1 -s %s -o %s.tmp /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so' % (src, out))
        if r.returncode:
            raise RuntimeError('exporter does not build: ' + r.stderr[-800:])
        os.rename(out + '.tmp', out)
    return out


def export_ast(srcs):
    tus = sorted(glob.glob(HERE + '/tus/*.cpp'))
    key = digest(srcs + tus + [HERE + '/exporter/export.cpp', HERE + '/check.py'] + glob.glob(HERE + '/stubs/*'))
    d = os.path.join(CACHE, 'ast-' + key)
    if os.path.exists(d + '/ok'):
        os.utime(d)
        return d
    prune(CACHE + '/ast-*', d)
    ex = exporter()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cmds = []
    cwd = os.path.join(REPO, 'buildcc')
    # the external headers, parsed once
    pre = PRE
    r = sh('/usr/bin/clang++-18 -std=gnu++17 %s -fpch-instantiate-templates -x c++-header %s/stubs/pre.hpp -o %s/pre.pch' % (DEFS, HERE, d))
    if r.returncode == 0:
        pre = '-include-pch %s/pre.pch' % d
    for s in tus + sorted((x for x in srcs if x.endswith('.cpp')), key=lambda x: -os.path.getsize(x)):
        rel = os.path.relpath(s, cwd) if s.startswith(cwd) else s
        o = '%s/%s.json' % (d, rel.replace('/', '_').lstrip('_'))
        one = '%s --root=%s/ %s -- -std=gnu++17 %s %s -I%s/stubs %%s > %s' % (ex, REPO, rel, DEFS, INCS, HERE, o)
        cmds.append(one % pre if pre == PRE else '%s || %s' % (one % pre, one % PRE))
    bad = Job(cmds, cwd).run()
    if bad:
        raise RuntimeError('sources do not parse: %s' % bad[0][1][-600:])
    if os.path.exists(d + '/pre.pch'):
        os.unlink(d + '/pre.pch')
    open(d + '/ok', 'w').close()
    return d


GXX = 'g++ -std=gnu++17 -O0 -w %s %s %s' % (DEFS, INCS, PRE)


def harness_bin(lib, n):
    return '%s/%s-%s' % (lib, n, digest(['%s/harness/%s.cpp' % (HERE, n), HERE + '/harness/common.hpp']))


# the race-detector build; see stubs/tsan_pre.hpp
TSAN = '-O1 -g1 -fsanitize=thread -include %s/stubs/tsan_pre.hpp' % HERE


def build_lib(srcs, names, variant=''):
    """the repository's own library, from its current sources, and the replay harnesses; returns (directory, harness problems)."""
    key = digest(srcs)
    d = os.path.join(CACHE, 'lib%s-%s' % (variant, key))
    cxx = GXX if not variant else GXX.replace('-O0', TSAN)
    ld = 'g++' if not variant else 'g++ -fsanitize=thread'
    cwd = os.path.join(REPO, 'buildcc')
    if not os.path.exists(d + '/lib.a'):
        prune(CACHE + '/lib%s-*' % variant, d)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    os.utime(d)
    objs, cmds = [], []
    for n in names:
        out = harness_bin(d, n)
        if not os.path.exists(out):
            objs.append((n, out))
            cmds.append('%s -I%s/harness -I%s/stubs -c %s/harness/%s.cpp -o %s.o' % (cxx, HERE, HERE, HERE, n, out))
    if not os.path.exists(d + '/lib.a'):
        # groups of sources compiled together (fewer passes over the headers); a group that does not compile so is compiled file by file
        cpps = sorted(os.path.relpath(x, cwd) for x in srcs if x.endswith('.cpp') and not x.endswith('lib/env/src/execute.cpp'))
        for g in range(6):
            fs = cpps[g::6]
            if not fs:
                continue
            u = '%s/group%d' % (d, g)
            with open(u + '.cpp', 'w') as fh:
                fh.write(''.join('#include "%s/%s"\n' % (cwd, x) for x in fs))
            single = ' && '.join('%s -c %s -o %s_%d.o' % (cxx, x, u, i) for i, x in enumerate(fs))
            cmds.append('%s -c %s.cpp -o %s.o || ( %s )' % (cxx, u, u, single))
    bad = Job(cmds, cwd).run()
    lb = [b for b in bad if '/group' in b[0]]
    if lb:
        shutil.rmtree(d, ignore_errors=True)
        raise RuntimeError('library does not build: %s' % lb[0][1][-600:])
    if not os.path.exists(d + '/lib.a'):
        sh('ar rcs %s/lib.a.tmp %s/group*.o && mv %s/lib.a.tmp %s/lib.a' % (d, d, d, d))
    bad += Job(['%s %s.o -o %s.tmp %s/lib.a -lspdlog -lfmt -lpthread && mv %s.tmp %s' % (ld, o, o, d, o, o) for n, o in objs if os.path.exists(o + '.o')], cwd).run()
    return d, bad


def run_harness(lib, names, prop, seed, tier):
    """returns (failures, evaluations, problems)"""
    procs = []
    per = max(1, NJ // max(1, len(names)))
    if tier == 'thorough':
        per = NJ * 3
    import spec_table
    for n in names:
        out = harness_bin(lib, n)
        it = spec_table.ITERS.get(n, 100)
        seeds = [seed * 1000 + k for k in range(per)]
        if n in spec_table.SINGLE:
            seeds = seeds[:1]
        for s in seeds:
            procs.append((n, s, [out, str(s), str(it * (6 if tier == 'thorough' else 1))]))
    fails, n_eval, probs = [], 0, []
    env = dict(os.environ)
    env.pop('VERIF_SEED', None)
    live = []
    todo = list(procs)
    end = time.time() + (1500 if tier == 'thorough' else 200)
    while todo or live:
        while todo and len(live) < NJ:
            n, s, c = todo.pop(0)
            live.append((n, s, c, subprocess.Popen(c, cwd='/tmp', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, text=True, errors='replace', env=env, start_new_session=True)))
        n, s, c, p = live.pop(0)
        try:
            o, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, _ = p.communicate()
            probs.append('%s seed %d: no answer in time' % (n, s))
            o += '\n'
        done = False
        for l in o.split('\n'):
            if l.startswith('FAIL %s ' % prop):
                fails.append('[%s %d %s] %s' % (n, s, c[2], l))
            elif l.startswith('CHECKED %s ' % prop):
                n_eval += int(l.split()[2])
            elif l.startswith('DONE'):
                done = True
        if not done:
            probs.append('%s seed %d ended abnormally (rc %s)' % (n, s, p.returncode))
            fails.append('[%s %d %s] FAIL %s the program under test ended abnormally (rc %s)' % (n, s, c[2], prop, p.returncode)) if p.returncode and p.returncode < 0 and not probs[-1].endswith('in time') and p.returncode != -9 else None
    for g in glob.glob('/tmp/vh.*'):
        if time.time() - os.path.getmtime(g) > 3600:
            shutil.rmtree(g, ignore_errors=True)
    return fails, n_eval, probs


def _worker(args):
    name, budget, wall, prop, ff = args
    from cxxvc import spec
    u = [x for x in spec.UNITS if x.name == name][0]
    try:
        return spec.run_unit(u, PROG, budget=budget, wall=wall, prop=prop, failfast=ff)
    except BaseException as ex:
        return {'unit': name, 'props': u.props, 'fns': u.fns, 'status': 'unsupported', 'error': 'internal: %s: %s' % (type(ex).__name__, ex), 'trace': traceback.format_exc()[-1500:],
                'obs': [], 'vacuous': [], 'called': [], 'lib': [], 'contracts': [], 'loops': 0, 'taint': [], 'gen_s': 0, 'solve_s': 0}


PROG = None


def load_prog(d):
    global PROG
    from cxxvc.prog import Prog
    p = Prog()
    for f in sorted(glob.glob(d + '/*.json')):
        p.load(f)
    p.finish()
    PROG = p
    return p


def run_units(names, budget, wall, prop=None, ff=False):
    ctx = multiprocessing.get_context('fork')
    if not names:
        return []
    out = []
    with ctx.Pool(min(NJ, len(names)), maxtasksperchild=1) as pool:
        rs = [(n, pool.apply_async(_worker, ((n, budget, wall, prop, ff),))) for n in names]
        for n, r in rs:
            try:
                out.append(r.get(timeout=max(5, wall * 1.6 + 60)))
            except multiprocessing.TimeoutError:
                out.append({'unit': n, 'props': [], 'fns': [], 'status': 'unsupported', 'error': 'time budget', 'obs': [], 'vacuous': [], 'called': [], 'lib': [], 'contracts': [], 'loops': 0, 'taint': [], 'gen_s': 0, 'solve_s': 0})
        pool.terminate()
    return out


def known(prop):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) obligation=(\S+) replay=/(.*)/ (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        os.makedirs(CACHE, exist_ok=True)
        exporter()
        return
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    os.makedirs(HERE + '/replay', exist_ok=True)
    import spec_table
    srcs = sources()
    from cxxvc import spec
    for m in spec_table.MODULES:
        importlib.import_module(m)
    units = [u.name for u in spec.UNITS if prop in u.props]
    harness = spec_table.HARNESS.get(prop, [])
    problems, results, hfails, heval = [], [], [], 0
    lock = open(CACHE + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    # --- build: exporter + AST, and the library for the replay, from the current tree
    astdir, libs_ = None, []

    def build_replay():
        try:
            d, bad = build_lib(srcs, harness, 'tsan' if set(harness) & set(spec_table.TSAN) else '')
            for c, e in bad:
                problems.append('harness does not build against this tree: %s' % e[-300:])
            libs_.append(d)
        except Exception as ex:
            problems.append('harness: %s' % ex)
    th = threading.Thread(target=build_replay)
    if harness:
        th.start()
    try:
        astdir = export_ast(srcs)
    except Exception as ex:
        problems.append('export: %s' % ex)
    if harness:
        th.join()
    lib = libs_[0] if libs_ else None
    fcntl.flock(lock, fcntl.LOCK_UN)
    t_build = time.time() - T0
    # --- obligations
    t1 = time.time()
    if astdir:
        try:
            load_prog(astdir)
            results = run_units(units, 5 if tier == 'quick' else 30, 400 if tier == "quick" else 1200, prop)
        except Exception as ex:
            problems.append('verifier: %s: %s' % (type(ex).__name__, ex))
    t_verify = time.time() - t1
    # --- replay on the real code (also a bounded conformance check of the assumed contracts)
    t2 = time.time()
    if lib:
        try:
            ready = [n for n in harness if os.path.exists(harness_bin(lib, n))]
            hfails, heval, hp = run_harness(lib, ready, prop, seed, tier)
            problems += hp
        except Exception as ex:
            problems.append('harness run: %s: %s' % (type(ex).__name__, ex))
    t_h = time.time() - t2
    # --- obligations left open by the first pass get one more try with a larger budget, unless a failing input is already known
    t1 = time.time()
    again = [r['unit'] for r in results if r['status'] == 'ok' and any(o['status'] == 'unknown' and prop in o['props'] for o in r['obs'])]
    if again and not hfails and time.time() - T0 < 500:
        re_ = {r['unit']: r for r in run_units(again, 30, 260 if tier == 'quick' else 1800, prop, True)}
        results = [re_.get(r['unit'], r) if re_.get(r['unit'], r)['status'] == 'ok' else r for r in results]
    t_verify += time.time() - t1
    obs, failed, unsup, guard = [], [], [], []
    for r in results:
        mine = [o for o in r['obs'] if prop in o['props']]
        if r['status'] != 'ok':
            unsup.append('%s: %s' % (r['unit'], r['error']))
            continue
        if r['taint']:
            unsup.append('%s: over-approximated (%s)' % (r['unit'], ', '.join(map(str, r['taint']))[:200]))
        obs += mine
        for o in mine:
            if o['status'] != 'discharged':
                (guard if r['taint'] else failed).append((r['unit'], o))
        need = spec_table.REQUIRED.get(prop, {}).get(r['unit'], ())
        names = {o['name'].split('/', 1)[1] for o in mine}
        for n in need:
            if n not in names:
                unsup.append('%s: obligation %s was not generated' % (r['unit'], n))
    # --- known findings
    kn = known(prop)
    seen = set()

    def listed(ob, text):
        for i, (o, rx, msg) in enumerate(kn):
            if (ob and o != '-' and o == ob) or (text and rx and re.search(rx, text)):
                seen.add(i)
                return True
        return False
    failed = [(u, o) for u, o in failed if not listed(o['name'], None)]
    hfails = [h for h in hfails if not listed(None, h)]
    for i, (o, rx, msg) in enumerate(kn):
        if i in seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, msg))
    viol = bool(failed or hfails)
    disch = sum(o['status'] == 'discharged' for o in obs)
    backends = {}
    for o in obs:
        if o['status'] == 'discharged':
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    fns = sorted({f for r in results if r['status'] == 'ok' for f in r['called']})
    libs = sorted({f for r in results for f in r['lib']})
    cons = sorted({f for r in results for f in r['contracts']})
    trusted = ['cxxvc: AST exporter (clang 18 LibTooling), symbolic executor and loop summariser in /verif/cxxvc', 'z3 / cvc5', 'machine integers treated as mathematical integers',
               'assumed contracts of library functions used: ' + ', '.join(libs)]
    if cons:
        trusted.append('callees replaced by their contract in these units (verified in their own units unless external): ' + ', '.join(cons))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': len(obs), 'discharged': disch, 'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier), 'trusted_base': trusted,
                       'units': [{'unit': r['unit'], 'status': r['status'], 'error': r['error'], 'paths': r.get('paths'), 'obligations': sum(prop in o['props'] for o in r['obs']), 'loops_summarised': r['loops'],
                                  'generation_s': r['gen_s'], 'solver_s': r['solve_s'], 'contracts_on': r['fns'], 'vacuous_hypotheses': r['vacuous'], **({'bounded': r['bounded']} if r.get('bounded') else {})} for r in results],
                       'obligations_in_bounded_units': sum(prop in o['props'] for r in results if r.get('bounded') for o in r['obs']),
                       'functions_under_contract': sorted({f for r in results for f in r['fns']}), 'functions_executed_symbolically': fns, 'backends': backends,
                       'solver_s': round(sum(o['t'] for o in obs), 2), 'not_decided_by_proof': unsup + ['%s not discharged (over-approximated)' % o['name'] for _, o in guard],
                       'replay_on_real_code': {'harness': harness, 'checks_evaluated': heval, 'bounded': True, 'wall_s': round(t_h, 1)},
                       'samples': [{'obligation': o['name'], 'status': o['status'], 'backend': o['backend']} for o in obs[:5]], 'build_s': round(t_build, 1), 'verify_s': round(t_verify, 1)},
          'assumptions': spec_table.ASSUME.get(prop, []) + problems, 'wall_s': round(time.time() - T0, 1), 'violations': int(viol)}
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d units, %d undecided units, replay %d checks; build %.0fs verify %.0fs replay %.0fs' % (prop, tier, len(obs), disch, len(results), len(unsup), heval, t_build, t_verify, t_h))
    for u in unsup:
        print('  bounded stand-in only: ' + u[:300])
    for u in problems:
        print('  note: ' + u[:300].replace('\n', ' '))
    if viol:
        rp = '%s/replay/%s.txt' % (HERE, prop)
        with open(rp, 'w') as f:
            f.write('property %s\n\n' % prop)
            if hfails:
                f.write('failing inputs on the real code (harness, seed, iterations; re-run the harness with these arguments):\n' + '\n'.join(hfails[:20]) + '\n\n')
            for u, o in (failed + guard)[:40]:
                f.write('failed obligation %s: %s (%s)\n  goal: %s\n  hypotheses:\n    %s\n  model: %s\n\n' % (o['name'], o['status'], o['backend'], o['goal'], '\n    '.join(o['hyps'] or []), o['model']))
        for n in sorted({o['name'] for _, o in failed + guard})[:12]:
            print('  failed obligation: ' + n)
        for h in hfails[:3]:
            print('  ' + h[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if hfails else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""seed.py new ID SPEC.py   - make seeded/ID from a python file defining PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text), optional DEMO_SH
seed.py test ID...       - in a private copy of /repo (bind-mounted over /repo in a namespace): patch builds, stable tests pass, demo fails; unpatched demo passes
seed.py check ID...      - run the property's check against the patched copy"""
import json, os, subprocess, sys, tempfile, shutil, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/rc'
SH = '''#!/bin/bash
# builds demo.cpp against the library built from /repo and runs it in a scratch directory
set -u
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$t"' EXIT
R=/repo/buildcc
g++ -std=gnu++17 -O0 -w -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -I$R -I$R/schema/include -I$R/lib/env/include -I$R/lib/toolchain/include -I$R/toolchains/include -I$R/lib/target/include -I$R/targets/include -I$R/lib/args/include -I$R/plugins/include -include taskflow/taskflow.hpp -include taskflow/algorithm/for_each.hpp -I"$here" "$here/demo.cpp" -o "$t/demo" /repo/_build/buildcc/libbuildcc.a -lspdlog -lfmt -lpthread || exit 99
cd "$t" && timeout 120 "$t/demo" "$t"
'''


def sync():
    if not os.path.exists(COPY):
        subprocess.run(['cp', '-a', '/repo', COPY], check=True)
    subprocess.run('git -C %s reset -q --hard; git -C %s fetch -q /repo HEAD && git -C %s checkout -q --detach FETCH_HEAD' % (COPY, COPY, COPY), shell=True, check=True)


def ns(cmd, timeout=900):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (COPY, cmd)], capture_output=True, text=True, timeout=timeout)


def new(i, specf):
    s = runpy.run_path(specf)
    d = '%s/seeded/%s' % (HERE, i)
    os.makedirs(d, exist_ok=True)
    sync()
    for f, a, b in s['EDITS']:
        p = '%s/%s' % (COPY, f)
        t = open(p).read()
        assert t.count(a) == 1, (f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))
    diff = subprocess.run(['git', '-C', COPY, 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', COPY, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(s.get('DEMO_SH', SH))
    os.chmod(d + '/demo.sh', 0o755)
    if 'DEMO' in s:
        open(d + '/demo.cpp', 'w').write(s['DEMO'])
    for n, x in s.get('FILES', {}).items():
        open(d + '/' + n, 'w').write(x)
    if 'FILES' not in s:
        shutil.copy(HERE + '/tools/demo_common.hpp', d + '/demo_common.hpp')
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)


def test(i):
    sync()
    d = '%s/seeded/%s' % (HERE, i)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    dd = tempfile.mkdtemp(prefix='seedd.')
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.json')):
            shutil.copy(d + '/' + f, dd)
    r = subprocess.run(['git', '-C', COPY, 'apply', d + '/patch.diff'], capture_output=True, text=True)
    if r.returncode:
        return print(i, 'PATCH DOES NOT APPLY', r.stderr[:300])
    r = ns('bash /opt/vp/build.sh')
    ok = r.returncode == 0
    if not ok:
        print(i, 'BUILD FAILS', (r.stdout + r.stderr)[-800:])
    else:
        missing = None
        for k in range(2):
            ns('bash /opt/vp/test.sh /tmp/rc_out.json')
            missing = set(base) - set(json.load(open('/tmp/rc_out.json'))['passed'])
            if not missing:
                break
        r1 = ns('bash %s/demo.sh' % dd)
    subprocess.run(['git', '-C', COPY, 'checkout', '-q', '--', '.'])
    if ok:
        ns('bash /opt/vp/build.sh')
        r0 = ns('bash %s/demo.sh' % dd)
        good = not missing and r1.returncode not in (0, 99) and r0.returncode == 0
        print(i, 'VALID' if good else 'INVALID', 'tests missing %s' % list(missing)[:4], 'demo patched rc', r1.returncode, 'clean rc', r0.returncode, '' if good else (r1.stdout + r1.stderr)[-700:] + ' || ' + (r0.stdout + r0.stderr)[-500:])
    shutil.rmtree(dd)


def check(i):
    sync()
    d = '%s/seeded/%s' % (HERE, i)
    p = json.load(open(d + '/meta.json'))['property']
    r = subprocess.run(['git', '-C', COPY, 'apply', d + '/patch.diff'], capture_output=True, text=True)
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd %s && python3-vt check.py %s' % (COPY, HERE, p)], capture_output=True, text=True, timeout=900)
    o = r.stdout.strip().split('\n')
    print(i, p, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % p in o[-1] else 'MISSED', '\n    ' + '\n    '.join(x[:260] for x in o if x))
    if r.returncode not in (0, 1):
        print(r.stderr[-800:])
    subprocess.run(['git', '-C', COPY, 'checkout', '-q', '--', '.'])


if sys.argv[1] == 'new':
    new(sys.argv[2], sys.argv[3])
    test(sys.argv[2])
else:
    for x in sys.argv[2:]:
        {'test': test, 'check': check}[sys.argv[1]](x)

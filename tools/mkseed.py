#!/usr/bin/env python3
"""mkseed.py DEF.py...: make seeded/<id>/ from definitions (ID, PROPERTY, NEEDS, BREAKS, EDITS, DRIVER, LIBS, SCRIPTS, CHECK) and confirm:
builds, passes the tests, demo passes without and fails with the change."""
import json, os, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = r'''#!/bin/bash
# Builds a small driver from the sources in the current directory (the repository), runs a fixed scenario
# and checks what the code did. Exit 0: the property held.
H="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
INC=$(find "$R/src/app" -name '*.hpp' -not -path '*/ut/*' -not -path '*/mock/*' -printf '-I%h\n' | sort -u)
SRC=$(for d in @LIBS@; do find "$R/src/app/$d" -name '*.cpp' -not -path '*/ut/*' -not -path '*/mock/*' -not -name main.cpp; done)
cd "$W" || exit 2
printf '%s\n' $SRC "$H/@DRV@.cpp" | xargs -P 8 -I{} sh -c 'o=$(echo "{}" | tr / _).o; g++ -std=c++20 -w -O0 @DEFS@ '"$(echo $INC)"' -I"'"$H"'" -c "{}" -o "$o" || exit 255' || { echo "demo does not build"; exit 3; }
g++ *.o -o drv -lpthread @LINK@ || exit 3
timeout 60 ./drv < "$H/script.json" > out.txt 2> err.txt; rc=$?
python3 "$H/expect.py" out.txt $rc
'''


def one(path):
    d = runpy.run_path(path)
    sid = d['ID']
    dst = os.path.join(ROOT, 'seeded', sid)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    scratch = '/tmp/seed_' + sid
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', scratch])
    for f, old, new in d['EDITS']:
        p = os.path.join(scratch, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', scratch, 'diff'], text=True)
    open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=d['PROPERTY'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
    if 'DEMO' in d:
        for name, text in d['DEMO'].items():
            open(os.path.join(dst, name), 'w').write(text)
    else:
        drv = d['DRIVER']
        for f in [x for x in os.listdir(os.path.join(ROOT, 'harness')) if x.endswith('.hpp')] + [drv + '.cpp'] + d.get('EXTRA', []):
            shutil.copy(os.path.join(ROOT, 'harness', f), dst)
        with open(os.path.join(dst, 'script.json'), 'w') as f:
            for i, ops in enumerate(d['SCRIPTS']):
                f.write(json.dumps(dict(id=i, ops=ops)) + '\n')
        open(os.path.join(dst, 'expect.py'), 'w').write(
            'import json, sys\n'
            'S = {}\n'
            'for l in open(sys.argv[1]):\n'
            '    try: o = json.loads(l)\n'
            '    except ValueError: continue\n'
            '    if o.get("n", 0) > 0: S.setdefault(o["s"], []).append(o["o"])\n'
            'rc = int(sys.argv[2])\n'
            'try:\n'
            + ''.join('    ' + x + '\n' for x in d['CHECK'].strip().splitlines()) +
            'except (KeyError, IndexError) as e:\n'
            '    print("scenario did not complete", e); sys.exit(1)\n'
            'print("ok" if ok else "property broken"); sys.exit(0 if ok else 1)\n')
        open(os.path.join(dst, 'demo.sh'), 'w').write(DEMO.replace('@LIBS@', ' '.join(d['LIBS'])).replace('@DRV@', drv)
                                                      .replace('@DEFS@', d.get('DEFS', '')).replace('@LINK@', d.get('LINK', '')))
    os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
    # confirm
    def demo(r):
        return subprocess.run(['bash', os.path.join(dst, 'demo.sh')], cwd=r, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    a, b = demo('/repo'), demo(scratch)
    ok = a.returncode == 0 and b.returncode == 1
    print(sid, 'demo unchanged', a.returncode, 'changed', b.returncode, '' if ok else (a.stdout[-500:] + b.stdout[-500:]))
    shutil.rmtree(scratch, ignore_errors=True)
    # tests in /repo itself (build.sh works there only), undone straight afterwards
    subprocess.check_call(['git', '-C', '/repo', 'apply', os.path.join(dst, 'patch.diff')])
    try:
        r = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        t = subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seedtest.json'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res = json.load(open('/tmp/seedtest.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        passed = set(res.get('passed', [])) if isinstance(res.get('passed'), list) else set()
        stable = base.get('stable') or base.get('passed') or base.get('tests') or []
        print(sid, 'build', r.returncode, 'stable failing:', [x for x in stable if x not in passed][:5])
        caught = []
        if '--check' in sys.argv:
            p = subprocess.run(['python3', os.path.join(ROOT, 'bin', 'check.py'), d['PROPERTY'], 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED='1'))
            print(sid, d['PROPERTY'], 'rc', p.returncode, p.stdout.strip()[-300:])
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    return ok


for p in sys.argv[1:]:
    if p != '--check':
        one(p)
subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

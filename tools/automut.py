#!/usr/bin/env python3
"""automut.py LETTER COUNT [SEED] [PATH-SUBSTRING]: small mechanical changes (a statement removed, a comparison or constant changed, a condition
negated) of the sources behind the properties LETTER*, each in a scratch copy; prints those that no check of LETTER* would see with its
quick scripts (what the code did is as without the change, or the specification allows it)."""
import hashlib, json, os, pickle, queue, random, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = {'M': ['modbus', 'common/utils'], 'R': ['common/reactor', 'common/utils'], 'C': ['common/ua/codec', 'common/ua/types', 'common/ua'],
        'U': ['ua'], 'L': ['common/ua/protocols'], 'K': ['controller', '.']}


def setup_env(repo, root):
    sys.path.insert(0, ROOT + '/lib')
    sys.path.insert(0, ROOT + '/bin')
    import vlib
    return vlib


def groups(letter, cache):
    """scripts per property and part"""
    import vlib, check
    if os.path.exists(cache):
        return pickle.load(open(cache, 'rb'))
    import importlib
    mod = importlib.import_module(check.MODULES[letter])
    out = []
    work = tempfile.mkdtemp(prefix='am.', dir='/tmp')
    only = os.environ.get('PROPS')
    for prop in sorted(p for p in mod.PROPS if p[0] == letter and (not only or p in only.split(','))):
        for part in check.parts_of(prop):
            rng = random.Random('%s/%s/1' % (prop, part['name']))
            sc = []
            for m in part['models'].get('quick', []):
                if m.get('gen', True):
                    _, s = vlib.model_check(m['module'], work, m['constants'], (), (), gen=True, spec=m.get('spec', 'Spec'), view=m.get('view', 'View'))
                    lim = m.get('sample', part['sample'])
                    if len(s) > lim:
                        s = rng.sample(s, lim)
                    sc += [dict(ops=m.get('wrap', lambda o: o)(o)) for o in s]
            for h, q, t in part['histories']:
                sc += [dict(ops=h(rng)) for _ in range(q)]
            for i, s in enumerate(sc):
                s['id'] = i
            p = {k: part[k] for k in ('driver', 'trace', 'const', 'chans', 'env', 'isolate', 'name')}
            out.append((prop, p, sc))
            print('scripts', prop, part['name'], len(sc), flush=True)
    shutil.rmtree(work, ignore_errors=True)
    pickle.dump(out, open(cache, 'wb'))
    return out


def mutants(repo, dirs, sub):
    res = []
    seen = set()
    for d in dirs:
        for base, _, fs in os.walk(repo + '/src/app/' + d):
            if '/ut' in base or '/mock' in base or (d == '.' and base != repo + '/src/app/.'):
                continue
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(base, f), repo)
                if not f.endswith(('.cpp', '.hpp')) or f == 'main.cpp' or p in seen or (sub and sub not in p):
                    continue
                if d == 'common/ua' and 'protocols' in p:
                    continue
                seen.add(p)
                for i, l in enumerate(open(repo + '/' + p).read().split('\n')):
                    s = l.strip()
                    if not s or s.startswith(('#', '//', 'using', 'namespace', 'LM(', 'template', 'static_assert', 'typedef')) or '"' in s and 'LM' in s:
                        continue
                    c = s.split('//')[0]
                    def add(new, what):
                        if new != l:
                            res.append((p, i, l, new, what))
                    if f.endswith('.cpp') or True:
                        if re.match(r'^[\w:>\.\-\*<\(\)\[\]&]+(\(.*\)| (=|\+=|-=|\|=|\^=|&=|<<|>>) .*|\+\+|--);$', c) or re.match(r'^(\+\+|--)[\w\.]+;$', c) or c in ('break;', 'continue;'):
                            if not re.match(r'^(return|throw|delete|using|virtual|explicit|friend)\b', c) and c.count('(') == c.count(')'):
                                add(l.replace(s, ';'), 'removed')
                        if re.match(r'^return\b.*;$', c) and c != 'return;' and 'true' in c:
                            add(l.replace('true', 'false'), 'flip')
                        if re.match(r'^return\b.*;$', c) and 'false' in c:
                            add(l.replace('false', 'true'), 'flip')
                        if c == 'return;':
                            add(l.replace('return;', ';'), 'no return')
                    m = re.match(r'^(\} )?(else )?(if|while) \((.*)\)$', c)
                    if m:
                        add(l.replace('(' + m.group(4) + ')', '(not (' + m.group(4) + '))'), 'negated')
                        if m.group(3) == 'if':
                            add(l.replace('(' + m.group(4) + ')', '(false)'), 'never')
                            add(l.replace('(' + m.group(4) + ')', '(true)'), 'always')
                    for a, b in ((' == ', ' != '), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), ('++', '--')):
                        for k in [x.start() for x in re.finditer(re.escape(a), c)]:
                            if 'operator' in c or 'template' in c:
                                continue
                            o = l.index(c) + k
                            add(l[:o] + b + l[o + len(a):], a.strip() + '->' + b.strip())
                    for x in re.finditer(r'(?<![\w\.])(0x[0-9a-fA-F]+|\d+)(?![\w\.])', c):
                        if 'case' in c and 'return' not in c:
                            continue
                        o = l.index(c) + x.start()
                        v = int(x.group(1), 0)
                        add(l[:o] + str(v + 1) + l[o + len(x.group(1)):], 'const+1')
    return res


def worker(d, letter, todo, cache):
    """runs in a copy"""
    sys.path.insert(0, d + '/verif/lib'); sys.path.insert(0, d + '/verif/bin')
    import vlib
    vlib.NCPU = 3
    gr = groups(letter, cache)
    drivers = sorted({p['driver'] for _, p, _ in gr})
    vlib.build(drivers)
    flat = lambda o: json.dumps(o, sort_keys=True)
    def run(p, sc):
        n = max(1, min(p['isolate'] or 400, (len(sc) + 2) // 3))
        env = dict(p['env'] or {}, LD_PRELOAD=os.path.dirname(cache) + '/now.so', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=99:verify_asan_link_order=0')
        return vlib.run_driver(p['driver'], sc, env, 3, timeout=40, isolate=p['isolate'])
    base = []
    for prop, p, sc in gr:
        a, _ = run(p, sc)
        b, _ = run(p, sc)
        base.append({s['id']: flat(a[s['id']]) if flat(a.get(s['id'])) == flat(b.get(s['id'])) else None for s in sc if s['id'] in a})
    print('BASE ' + ' '.join('%s/%s:%d(%d unstable)' % (g[0], g[1]['name'], len(b), sum(v is None for v in b.values())) for g, b in zip(gr, base)), flush=True)
    for mu in todo:
        f, i, old, new, what = mu
        path = d + '/repo/' + f
        L = open(path).read().split('\n')
        L[i] = new
        open(path, 'w').write('\n'.join(L))
        t = time.time()
        verdict = None
        try:
            try:
                vlib.build(drivers)
            except vlib.CheckError:
                verdict = 'nobuild'
            allowed = 0
            if verdict is None:
                for (prop, p, sc), b in zip(gr, base):
                    obs, crashes = run(p, sc)
                    if crashes:
                        verdict = 'killed %s crash' % prop
                        break
                    diff = [s for s in sc if s['id'] in b and b[s['id']] is not None and flat(obs.get(s['id'])) != b[s['id']]]
                    if not diff:
                        continue
                    diff.sort(key=lambda s: len(s['ops']))
                    pick = diff[:10] + diff[10::max(1, len(diff) // 15)]
                    work = tempfile.mkdtemp(prefix='am.', dir='/tmp')
                    try:
                        _, bad, _ = vlib.validate(p['trace'], work, vlib.make_traces(pick, obs), p['const'], p['chans'])
                        if not bad and len(diff) > len(pick):
                            _, bad, _ = vlib.validate(p['trace'], work, vlib.make_traces(diff, obs), p['const'], p['chans'])
                    except vlib.CheckError as e:
                        bad = None
                        print('ERR', prop, str(e)[-300:], flush=True)
                    shutil.rmtree(work, ignore_errors=True)
                    if bad:
                        verdict = 'killed %s' % prop
                        break
                    allowed += len(diff)
                if verdict is None:
                    verdict = 'SURVIVED' + (' (%d differ, allowed)' % allowed if allowed else '')
        finally:
            L[i] = old
            open(path, 'w').write('\n'.join(L))
        print('%s | %s:%d | %s | %s => %s | %.0fs' % (verdict, f, i + 1, what, old.strip(), new.strip(), time.time() - t), flush=True)


def main():
    letter, count = sys.argv[1], int(sys.argv[2])
    seed = sys.argv[3] if len(sys.argv) > 3 else '1'
    sub = sys.argv[4] if len(sys.argv) > 4 else ''
    W = int(os.environ.get('MUT_WORKERS', '2'))
    base = tempfile.mkdtemp(prefix='automut.', dir='/tmp')
    try:
        cache = base + '/scripts.pickle'
        sys.path.insert(0, ROOT + '/lib'); sys.path.insert(0, ROOT + '/bin')
        groups(letter, cache)
        open(base + '/now.c', 'w').write('#include <sys/time.h>\nint gettimeofday(struct timeval* t, void* z) { t->tv_sec = 1700000000; t->tv_usec = 5; return 0; }\nlong _ZNSt6chrono3_V212system_clock3nowEv(void) { return 1700000000123456789L; }')   # the time of day stands still
        subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-o', base + '/now.so', base + '/now.c'], check=True)
        ms = mutants('/repo', DIRS[letter], sub)
        random.Random(seed).shuffle(ms)
        print(len(ms), 'possible', flush=True)
        ms = ms[:count]
        ps = []
        for w in range(W):
            d = '%s/w%d' % (base, w)
            os.makedirs(d + '/verif')
            subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
            for x in ('bin', 'lib', 'spec', 'harness', 'known_findings.json'):
                subprocess.run(['cp', '-a', ROOT + '/' + x, d + '/verif/'], check=True)
            pickle.dump(ms[w::W], open(d + '/todo', 'wb'))
            ps.append(subprocess.Popen(['nice', '-n', '10', sys.executable, os.path.abspath(__file__), '--worker', d, letter, cache], env=dict(os.environ, REPO=d + '/repo')))
        for p in ps:
            p.wait()
    finally:
        shutil.rmtree(base, ignore_errors=True)


if sys.argv[1] == '--worker':
    worker(sys.argv[2], sys.argv[3], pickle.load(open(sys.argv[2] + '/todo', 'rb')), sys.argv[4])
else:
    main()

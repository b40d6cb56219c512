#!/usr/bin/env python3
"""mutate.py LIST.py [name-substring]: apply each change of LIST.py (MUTANTS: (name, file, old, new, [properties]))
to a scratch copy of /repo and run the quick checks there. Nothing in /repo or /verif is touched.
A property written as '-X' must stay quiet (behaviour-preserving change)."""
import importlib.util, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue, tempfile

W = int(os.environ.get('MUT_WORKERS', '2'))
base = tempfile.mkdtemp(prefix='mut.', dir='/tmp')


def worker(i):
    d = '%s/w%d' % (base, i)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    os.makedirs(d + '/verif')
    for x in ('bin', 'lib', 'spec', 'harness', 'known_findings.json'):
        subprocess.run(['cp', '-a', '/verif/' + x, d + '/verif/'], check=True)
    return d


def main():
    spec = importlib.util.spec_from_file_location('m', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [x for x in m.MUTANTS if len(sys.argv) < 3 or sys.argv[2] in x[0]]
    ws = queue.Queue()
    for i in range(W):
        ws.put(worker(i))

    def one(mu):
        name, file, old, new, props = mu
        d = ws.get()
        out = []
        try:
            edits = [(file, old, new)] if isinstance(file, str) else list(zip(file, old, new))
            for f, o, n in edits:
                p = d + '/repo/src/app/' + f
                s = open(p).read()
                if s.count(o) < 1:
                    return '%-40s BAD PATTERN %r' % (name, o[:50])
                open(p, 'w').write(s.replace(o, n, 1))
            for pr in props:
                quiet = pr.startswith('-')
                t = time.time()
                r = subprocess.run(['python3', d + '/verif/bin/check.py', pr.lstrip('-'), 'quick'], text=True, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, env=dict(os.environ, REPO=d + '/repo', VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
                v = 'VIOLATION property=' in r.stdout
                good = (r.returncode == 0) if quiet else (r.returncode == 1 and v)
                lines = [l for l in r.stdout.splitlines() if l.strip()]
                out.append('%-40s %s %s rc=%d %.0fs %s' % (name, pr, ('caught' if not quiet else 'quiet') if good else '*** MISSED' if not quiet else '*** ALARM',
                                                          r.returncode, time.time() - t, '' if good and not os.environ.get('V') else ' | '.join(lines[-int(os.environ.get('N','3')):])[:int(os.environ.get('N','3'))*300]))
        finally:
            subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
            ws.put(d)
        return '\n'.join(out)

    try:
        with ThreadPoolExecutor(W) as ex:
            for r in ex.map(one, todo):
                print(r, flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()

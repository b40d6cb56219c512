"""Common machinery of the checks: build drivers from /repo, run TLC, replay
scripts into the real code, validate the recorded behaviours with TLC."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
OUT = os.path.join(ROOT, 'out')
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla'
NCPU = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check can not give an answer."""


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build(targets):
    """Returns None, or the text of a failed build (the code does not compile with the driver)."""
    r = sh(['bash', os.path.join(ROOT, 'lib', 'build.sh')] + targets, env=dict(os.environ, REPO=REPO, VERIF_BUILD=BUILD))
    if r.returncode != 0:
        raise CheckError('build failed:\n' + r.stdout[-4000:])


def jars():
    js = [os.path.join(JARS, f) for f in sorted(os.listdir(JARS)) if f.endswith('.jar')]
    js.sort(key=lambda p: 0 if 'tla2tools' in p else 1)
    return ':'.join(js)


def tlc(module, cfg, work, env=None, workers=NCPU, extra=(), timeout=800, heap='3g'):
    """Run TLC on SPEC/module.tla; returns (text, stats). Raises CheckError if TLC fails to run."""
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, 'states.' + os.path.basename(cfg) + '.' + str(time.time_ns()))
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss32m', '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet'
           if False else '-Dvf=1', '-cp', jars(), 'tlc2.TLC', '-config', cfg, '-metadir', meta, '-workers', str(workers),
           '-noGenerateSpecTE', '-deadlock'] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=work)
        text, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        text, rc = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), -9
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', text)
    stats = {'rc': rc, 'generated': 0, 'distinct': 0}
    if m:
        stats['generated'], stats['distinct'] = (int(x.replace(',', '')) for x in m[-1])
    d = re.search(r'depth of the complete state graph search is (\d+)', text)
    stats['depth'] = int(d.group(1)) if d else 0
    return text, stats


def write_cfg(path, spec='Spec', constants=None, invariants=(), properties=(), view=None, action_constraint=None,
              constraint=None, post=None):
    with open(path, 'w') as f:
        f.write('SPECIFICATION %s\n' % spec)
        if constants:
            f.write('CONSTANTS\n')
            for k, v in constants.items():
                f.write('  %s %s\n' % (k, v if isinstance(v, str) and v.startswith('<- ') else '= ' + tla(v)))
        for i in invariants:
            f.write('INVARIANT %s\n' % i)
        for p in properties:
            f.write('PROPERTY %s\n' % p)
        if view:
            f.write('VIEW %s\n' % view)
        if action_constraint:
            f.write('ACTION_CONSTRAINT %s\n' % action_constraint)
        if constraint:
            f.write('CONSTRAINT %s\n' % constraint)
        if post:
            f.write('POSTCONDITION %s\n' % post)
    return path


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{%s}' % ', '.join(tla(x) for x in sorted(v, key=str))
    raise TypeError(v)


# ------------------------------------------------------------------ model checking
def model_check(module, work, constants, invariants=(), properties=(), gen=True, timeout=600, spec='Spec', workers=None,
                view='View', extra=()):
    """Check the design; with gen, also return one replay script per transition of the state graph."""
    cfg = write_cfg(os.path.join(work, module + '.cfg'), spec=spec, constants=constants, invariants=invariants,
                    properties=properties, view=view if gen else None, action_constraint='Emit' if gen else None)
    text, st = tlc(module, cfg, work, workers=1 if gen else (workers or NCPU), timeout=timeout, extra=extra)
    if st['rc'] != 0:
        raise CheckError('the specification %s does not satisfy its properties or could not be checked (rc %d):\n%s'
                         % (module, st['rc'], text[-3000:]))
    scripts = []
    if gen:
        scripts = parse_scripts(text)
        if not scripts:
            raise CheckError('no scripts generated from ' + module)
    return st, scripts


def parse_scripts(text):
    """Scripts printed as "S <json>" lines by the specification; prefixes of others are dropped."""
    seen = set()
    for line in text.splitlines():
        if line.startswith('"S '):
            seen.add(json.loads(line)[2:])
    lst = sorted(seen)                       # a prefix (without its closing bracket) sorts next to its extensions
    objs = [json.loads(x) for x in lst]
    keys = set()
    full = {json.dumps(o, sort_keys=True): o for o in objs}
    for o in objs:
        for n in range(1, len(o)):
            keys.add(json.dumps(o[:n], sort_keys=True))
    return [o for k, o in sorted(full.items()) if k not in keys]


# ------------------------------------------------------------------ replay into the real code
class Crash(Exception):
    pass


def _run_once(drv, scripts, env=None, timeout=120):
    """Feed scripts to the driver; returns ({id: [obs..]}, crash) with crash None or (id, step, text)."""
    inp = '\n'.join(json.dumps({'id': s['id'], 'ops': s['ops']}, separators=(',', ':')) for s in scripts) + '\n'
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=99',
             UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
    e.update(env or {})
    try:
        p = subprocess.run([os.path.join(BUILD, drv)], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                           timeout=timeout)
        out, err, rc = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as x:
        out, err, rc = (x.stdout or b'').decode(errors='replace'), 'timeout', -14
    res, done, last, step = {}, set(), None, 0
    for line in out.splitlines():
        if not line.startswith('{"s"'):
            continue
        try:
            o = json.loads(line)
        except ValueError:
            continue
        if o.get('end'):
            done.add(o['s'])
        elif o['n'] == 0:
            last, step = o['s'], 0
            res[last] = []
        else:
            step = o['n']
            res[o['s']].append(o['o'])
    if rc == 0:
        return res, None
    if last is None:
        return {}, (scripts[0]['id'], 0, 'driver failed: rc %d %s' % (rc, err[-1500:]))
    bad = last
    res.pop(bad, None)
    if bad in done:                       # died between scripts
        ids = [s['id'] for s in scripts]
        bad = ids[min(ids.index(bad) + 1, len(ids) - 1)]
    m = re.search(r'SUMMARY: .*|terminate called.*|runtime error.*', err)
    return res, (bad, step + 1, 'rc %d %s' % (rc, m.group(0) if m else err[-600:].strip()))


def run_driver(drv, scripts, env=None, jobs=NCPU, timeout=120, isolate=None):
    """Run all scripts (in parallel chunks); crashes are confirmed by running the script again.
    Returns (obs, crashes) with crashes a list of (id, step, text)."""
    n = max(1, min(isolate or 400, (len(scripts) + jobs - 1) // jobs))
    chunks = [scripts[i:i + n] for i in range(0, len(scripts), n)]

    def work(chunk):
        obs, crashes = {}, []
        todo = list(chunk)
        for _ in range(6):
            if not todo:
                break
            r, c = _run_once(drv, todo, env, timeout)
            obs.update(r)
            if c is None:
                break
            ids = [s['id'] for s in todo]
            i = ids.index(c[0])
            one = [todo[i]]
            r1, c1 = _run_once(drv, one, env, timeout)
            if c1 is None:                 # not repeatable alone: same prefix again
                r2, c2 = _run_once(drv, todo, env, timeout)
                if c2 is not None and c2[0] == c[0]:
                    crashes.append(c2)
                else:
                    obs.update(r1)
            else:
                crashes.append(c1)
            todo = todo[i + 1:]
            if len(crashes) >= 2:
                break
        return obs, crashes

    obs, crashes = {}, []
    with ThreadPoolExecutor(jobs) as ex:
        for o, c in ex.map(work, chunks):
            obs.update(o)
            crashes += c
    return obs, crashes


def make_traces(scripts, obs):
    tr = []
    for s in scripts:
        o = obs.get(s['id'])
        if o is None or len(o) != len(s['ops']):
            continue
        tr.append({'id': s['id'], 'steps': [{'i': a, 'o': b} for a, b in zip(s['ops'], o)]})
    return tr


def validate(module, work, traces, constants, chans, timeout=800, tag='t'):
    """TLC decides for every recorded trace whether the specification allows it.
    Returns (stats, {id: (step, detail)}, {id: 'ok'|'wild'})."""
    if not traces:
        return {'generated': 0, 'distinct': 0, 'rc': 0}, {}, {}
    path = os.path.join(work, tag + '.ndjson')
    with open(path, 'w') as f:
        for t in traces:
            f.write(json.dumps(t, separators=(',', ':')) + '\n')
    cfg = write_cfg(os.path.join(work, tag + '.cfg'), constants=dict(constants, Chans=set(chans)))
    text, st = tlc(module, cfg, work, env={'TRACE': path}, timeout=timeout, heap='6g')
    bad, done = {}, {}
    buf = None
    for line in text.splitlines():
        if buf is not None:
            buf += ' ' + line.strip()
        elif line.startswith('<<"MISMATCH"') or line.startswith('<<"DONE"') or line.startswith('<< "MISMATCH"') or line.startswith('<< "DONE"'):
            buf = line
        if buf is not None and buf.rstrip().endswith('>>'):
            m = re.match(r'<< ?"(\w+)", (\d+), (.*?) ?>>\s*$', buf)
            if m:
                if m.group(1) == 'DONE':
                    done[int(m.group(2))] = m.group(3).strip('"')
                else:
                    k, _, rest = m.group(3).partition(', ')
                    try:
                        rest = json.loads(rest)
                    except ValueError:
                        pass
                    bad[int(m.group(2))] = (int(k), rest)
            buf = None
    if st['rc'] != 0 and ('Attempted to' in text or 'unable to fingerprint' in text):
        # what was recorded is of a kind the specification can not even compare with what it expects
        at, n = re.findall(r'/\\ tr = (\d+)', text), re.findall(r'/\\ l = (\d+)', text)
        if at and n:
            t = traces[int(at[-1]) - 1]
            m = re.search(r'Attempted to.*?(?=\n\d+ states|\Z)', text, re.S)
            bad[t['id']] = (int(n[-1]), [['any', 'comparable with the specification', (m.group(0) if m else '')[:600]]])
            return st, bad, done
    ids = {t['id'] for t in traces if t['steps']}
    missing = ids - set(done) - set(bad)
    if missing or st['rc'] != 0:
        raise CheckError('trace validation with %s incomplete (rc %s, %d traces undecided, e.g. %s):\n%s'
                         % (module, st['rc'], len(missing), sorted(missing)[:5], text[-3000:]))
    return st, bad, done


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))['known'] if k['property'] == prop]

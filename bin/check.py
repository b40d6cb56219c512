#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  |  check.py --replay FILE

Decide one property on /repo's working tree:
  1. build the drivers from the tree,
  2. check the specification's properties with TLC (design) and take one replay script per transition,
  3. add random histories (VERIF_SEED), run everything through the real code,
  4. let TLC decide whether the specification allows what the code did,
  5. confirm a rejected script by running it again, report it, write the evidence."""
import collections, hashlib, importlib, json, os, random, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib
from vlib import CheckError, OUT, ROOT

MODULES = {'M': 'p_modbus', 'R': 'p_reactor', 'U': 'p_ua', 'L': 'p_lib', 'C': 'p_codec', 'K': 'p_ctrl', 'G': 'p_log'}


def parts_of(prop):
    mod = importlib.import_module(MODULES[prop[0]])
    p = mod.PROPS[prop]
    parts = p.get('parts', [p])
    out = []
    for i, x in enumerate(parts):
        d = dict(driver=getattr(mod, 'DRIVER', None), trace=getattr(mod, 'TRACE', None), const=getattr(mod, 'CONST', {}),
                 models={}, histories=[], name='p%d' % i, sample=700, env=None, jobs=vlib.NCPU, isolate=None)
        d.update(x)
        out.append(d)
    return out


def findings(prop, part, scripts, work, tag):
    """Run scripts and validate; returns (stats, list of (script, step, detail), decided)"""
    obs, crashes = vlib.run_driver(part['driver'], scripts, part['env'], part['jobs'], isolate=part['isolate'])
    by = {s['id']: s for s in scripts}
    bad = [(by[c[0]], c[1], 'the process died: ' + c[2]) for c in crashes]
    traces = vlib.make_traces(scripts, obs)
    st, mism, done = vlib.validate(part['trace'], work, traces, part['const'], part['chans'], tag=tag)
    bad += [(by[i], k, d) for i, (k, d) in sorted(mism.items())]
    return st, bad, done, traces


def confirm(part, script, work):
    """A rejection counts only if the script alone is rejected again (twice; with concurrent senders, whose schedule
    differs from run to run, once in ten runs)."""
    s = dict(script, id=0)
    if any(o['op'] in ('burst', 'thr') for o in script['ops']):
        for n in range(10):
            _, bad, _, _ = findings(None, part, [s], work, 'confirm')
            if bad:
                return bad[0]
        return None
    for n in range(2):
        _, bad, _, _ = findings(None, part, [s], work, 'confirm')
        if not bad:
            return None
    return bad[0]


def is_known(known, script, step, detail):
    for k in known:
        m = k['match']
        ops = script['ops'][:step]
        if m.get('last_op') and ops and ops[-1].get('op') != m['last_op']:
            continue
        if m.get('channels') is not None:
            if isinstance(detail, str) or not set(d[0] for d in detail) <= set(m['channels']):
                continue
        if m.get('count_op'):
            if sum(o.get('op') == m['count_op'] for o in ops) < m.get('at_least', 1):
                continue
        return k
    return None


def replay_file(prop, part, script, step, detail, n):
    d = os.path.join(OUT, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, n))
    json.dump(dict(property=prop, part=part['name'], driver=part['driver'], step=step, detail=detail,
                   meaning='[channel, what the specification expects, what the code did] of the last operation listed',
                   run='python3 /verif/bin/check.py --replay ' + path, ops=script['ops'][:step] if step else script['ops']),
              open(path, 'w'), indent=1)
    return path


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = os.path.join(OUT, '%s.%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    parts = parts_of(prop)
    vlib.build(sorted({p['driver'] for p in parts}))
    known = vlib.known_findings(prop)
    tot = collections.Counter()
    ops = collections.Counter()
    samples, violations, seen_known, models = [], [], {}, []
    for part in parts:
        rng = random.Random('%s/%s/%d' % (prop, part['name'], seed))
        scripts = []
        for m in part['models'].get(tier, part['models'].get('quick', [])):
            st, sc = vlib.model_check(m['module'], work, m['constants'], m.get('invariants', ()), m.get('properties', ()),
                                      gen=m.get('gen', True), spec=m.get('spec', 'Spec'), view=m.get('view', 'View'),
                                      timeout=700 if tier == 'quick' else 3000)
            tot['mc_states'] += st['distinct']
            tot['mc_transitions'] += st['generated']
            tot['mc_scripts'] += len(sc)
            models.append('%s %s: %d states, %d transitions, depth %d; %s' % (
                m['module'], json.dumps(m['constants'], default=sorted), st['distinct'], st['generated'], st['depth'],
                ', '.join(list(m.get('invariants', ())) + list(m.get('properties', ())))))
            lim = m.get('sample', part['sample']) if tier == 'quick' else m.get('tsample', 20000)
            if len(sc) > lim:
                sc = rng.sample(sc, lim)
            scripts += [dict(ops=m.get('wrap', lambda o: o)(o), src='model') for o in sc]
        for h, q, t in part['histories']:
            for _ in range(q if tier == 'quick' else t):
                scripts.append(dict(ops=h(rng), src='random'))
        for i, s in enumerate(scripts):
            s['id'] = i
        # large thorough runs go through in batches
        B = 6000
        for b in range(0, len(scripts), B):
            batch = scripts[b:b + B]
            st, bad, done, traces = findings(prop, part, batch, work, part['name'])
            tot['trace_states'] += st['distinct']
            tot['trace_transitions'] += st['generated']
            tot['validated'] += sum(v == 'ok' for v in done.values())
            tot['undetermined'] += sum(v != 'ok' for v in done.values())
            tot['scripts'] += len(batch)
            for t in traces:
                for s in t['steps']:
                    ops[s['i']['op'] + (' (no effect)' if s['o'].get('skip') else '')] += 1
            if not samples or len(samples) < 3:
                for t in traces[-1:]:
                    samples.append({'part': part['name'], 'steps': t['steps'][:6]})
            confirmed = 0
            for s, k, d in bad:
                if confirmed >= 3:
                    break
                c = confirm(part, s, work)
                if c is None:
                    tot['not_repeatable'] += 1
                    continue
                kn = is_known(known, c[0], c[1], c[2])
                if kn:
                    seen_known[kn['id']] = kn
                    continue
                confirmed += 1
                violations.append((part, s, c[1], c[2]))
            if violations:
                break
        if violations:
            break
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot['mc_states'] + tot['trace_states'], transitions=tot['mc_transitions'] + tot['trace_transitions'],
                            traces_validated_against_impl=tot['validated'], samples=samples,
                            design_states=tot['mc_states'], model_scripts_available=tot['mc_scripts'], scripts_replayed=tot['scripts'],
                            traces_left_undetermined=tot['undetermined'], rejections_not_repeatable=tot['not_repeatable'],
                            operations=dict(sorted(ops.items())), models=models),
              assumptions=['the environment (reactor, links, timers, peers) behaves as in harness/; see DESIGN.md'],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for n, (part, s, k, d) in enumerate(violations):
        path = replay_file(prop, part, s, k, d, n)
        print('step %d of script (%s): %s' % (k, part['name'], str(d)[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    shutil.rmtree(work, ignore_errors=True)
    if not violations:
        print('%s %s: held; %d states, %d traces validated, %.1f s' % (prop, tier, ev['coverage']['states'], tot['validated'], ev['wall_s']))
    return 1 if violations else 0


def replay(path):
    r = json.load(open(path))
    part = [p for p in parts_of(r['property']) if p['name'] == r['part']][0]
    vlib.build([part['driver']])
    work = os.path.join(OUT, 'replaywork')
    os.makedirs(work, exist_ok=True)
    c = confirm(part, dict(ops=r['ops']), work)
    print('not reproduced' if c is None else 'step %d: %s' % (c[1], c[2]))
    return 0 if c is None else 1


def main():
    a = sys.argv[1:]
    if a[0] == '--replay':
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        return check(a[0], tier)
    except CheckError as e:
        print('ERROR: ' + str(e))
        return 2


if __name__ == '__main__':
    sys.exit(main())

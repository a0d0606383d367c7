#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   run the check of one property
   check.py --replay FILE           replay a recorded violation"""
import json, os, shutil, sys, tempfile, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from registry import PROPS


def known_findings(pid):
    out = []
    with open(os.path.join(vf.VERIF, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('known: '):
                k = json.loads(line[7:])
                if k['property'] == pid:
                    out.append(k)
    return out


def tiered(x, tier):
    return x.get('tiers') is None or tier in x['tiers']


def for_tier(x, tier):
    y = dict(x)
    if tier == 'thorough':
        y.update(x.get('thorough', {}))
    return y


def snapshot_repo(scratch):
    """A scratch copy of the package, for code that writes into its own directory."""
    d = os.path.join(scratch, 'snap')
    os.makedirs(d)
    shutil.copytree(os.path.join(vf.REPO, 'CHECLabPy'), os.path.join(d, 'CHECLabPy'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    return d


def run_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = PROPS[pid]
    base = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    ev = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    detail = dict(models=[], generators=[], ops={}, histories_by_source={}, rejected=0, not_run=0)
    lock = threading.Lock()
    fails, errors = [], []
    try:
        def models():
            try:
                for part in spec['parts']:
                    for mc in part.get('mc', []):
                        if tiered(mc, tier):
                            m = for_tier(mc, tier)
                            r = vf.model_check(m, base)
                            with lock:
                                ev['states'] += r['distinct']
                                ev['transitions'] += r['generated']
                                detail['models'].append(dict(name=m.get('name', m['module']), states=r['distinct'],
                                                             transitions=r['generated'], wall_s=round(r['wall'], 1)))
            except Exception:
                errors.append(traceback.format_exc())
        th = threading.Thread(target=models)
        th.start()
        for part in spec['parts']:
            hists, seen = [], set()
            for g in part.get('gen', []):
                if not tiered(g, tier):
                    continue
                gg = for_tier(g, tier)
                hs, r = vf.generate(gg, base, seed)
                total = len(hs)
                if gg.get('max') and total > gg['max']:
                    import random
                    hs = random.Random(seed).sample(hs, gg['max'])
                ev['states'] += r['distinct']
                ev['transitions'] += r['generated']
                detail['generators'].append(dict(name=gg.get('name', gg['module']), printed=total, replayed=len(hs),
                                                 states=r['distinct'], mode=gg.get('mode', 'exhaustive')))
                if gg.get('pack'):       # several enumerated cases become one history
                    import importlib
                    hs = getattr(importlib.import_module('drivers.' + part['driver']), gg['pack'])(hs, seed)
                for i, h in enumerate(hs):
                    hists.append(dict(h if isinstance(h, dict) else dict(ops=h),
                                      id='%s-%d' % (gg.get('name', gg['module']), i),
                                      src=gg.get('name', gg['module'])))
            repo = snapshot_repo(base) if part.get('snapshot') else None
            if part.get('rnd', True):
                hs = vf.random_histories(part['driver'], pid, tier, seed, base, repo=repo)
                for i, h in enumerate(hs):
                    h.setdefault('id', 'random-%d' % i)
                    h.setdefault('src', 'random')
                    hists.append(h)
            hists = [h for h in hists]
            traces = vf.run_driver(part['driver'], pid, tier, seed, hists, base,
                                   workers=part.get('workers', vf.NCPU), timeout=part.get('timeout', 120), repo=repo)
            detail['not_run'] += len(hists) - len(traces)
            bad, tot = vf.validate(part['trace'], part['init'], part['step'], part['clauses'], traces, base)
            ev['states'] += tot['states']
            ev['transitions'] += tot['transitions']
            ev['traces_validated_against_impl'] += tot['n']
            for t in traces:
                s = t.get('hist', {}).get('src', '?')
                detail['histories_by_source'][s] = detail['histories_by_source'].get(s, 0) + 1
                for e in t['ev']:
                    detail['ops'][e['op']] = detail['ops'].get(e['op'], 0) + 1
            for t in [x for x in traces if x['ev']][:1] + [x for x in traces if x['ev']][-1:]:
                s = json.dumps(dict(id=t['id'], cfg=t['cfg'], ev=t['ev']))
                ev['samples'].append(json.loads(s) if len(s) < 4000 else s[:4000])
            for t, p, c in bad:
                fails.append(dict(property=pid, tier=tier, seed=seed, part=spec['parts'].index(part), driver=part['driver'],
                                  clause=c, pos=p, trace=t))
        th.join()
        if errors:
            raise vf.MachineryError(errors[0])
        known = known_findings(pid)
        new, reported = [], set()
        for f in fails:
            k = match_known(f, known)
            if k is None:
                new.append(f)
            else:
                reported.add(k['id'])
        for k in known:
            if k['id'] in reported:
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        detail['rejected'] = len(fails)
        rdir = os.path.join(vf.VERIF, 'replays')
        if new:
            os.makedirs(rdir, exist_ok=True)
        shown = set()
        new.sort(key=lambda f: len(json.dumps(f['trace'])))
        for i, f in enumerate(new):
            if f['clause'] in shown and len(shown) >= 1:
                continue
            shown.add(f['clause'])
            path = os.path.join(rdir, '%s-%s.json' % (pid, f['clause']))
            with open(path, 'w') as fo:
                json.dump(f, fo)
            n = sum(1 for x in new if x['clause'] == f['clause'])
            e = f['trace']['ev'][f['pos'] - 1] if f['pos'] > 0 else f['trace']['ev'][-1]
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  clause "%s" rejected %d of %d traces; shortest: %s at event %d: %s'
                  % (f['clause'], n, len(traces), f['trace']['id'], f['pos'], json.dumps(e)[:600]))
        ev.update(detail)
        ev['exhaustive'] = False
        write_evidence(pid, tier, seed, spec, ev, time.time() - t0, len(new))
        print('%s %s: %d histories replayed and validated, %d states, %d rejected (%d new), %.1f s'
              % (pid, tier, ev['traces_validated_against_impl'], ev['states'], len(fails), len(new), time.time() - t0))
        return 1 if new else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


def match_known(f, known):
    """A known finding is identified by clause and by fields of the failing history."""
    for k in known:
        m = k['match']
        if m.get('clause') != f['clause']:
            continue
        h = f['trace'].get('hist', {})
        if all(h.get(a) == b for a, b in m.get('hist', {}).items()):
            return k
    return None


def write_evidence(pid, tier, seed, spec, cov, wall, nviol):
    os.makedirs(os.path.join(vf.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(vf.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
                       assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=nviol), f, indent=1)


def replay(path):
    f = json.load(open(path))
    part = PROPS[f['property']]['parts'][f['part']]
    base = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        repo = snapshot_repo(base) if part.get('snapshot') else None
        tr = vf.run_driver(part['driver'], f['property'], f['tier'], f['seed'], [f['trace']['hist']], base, repo=repo)
        bad, _ = vf.validate(part['trace'], part['init'], part['step'], part['clauses'], tr, base)
        print(json.dumps(tr[0]['ev'], indent=1)[:6000])
        for t, p, c in bad:
            print('REJECTED at event %d by clause %s' % (p, c))
            print(t.get('tlc', ''))
        return 1 if bad else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        sys.exit(run_check(sys.argv[1], (sys.argv[2:] or [os.environ.get('VERIF_TIER', 'quick')])[0]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

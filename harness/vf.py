"""Machinery shared by all checks: TLC runs, driver runs, trace validation, evidence.

Runs under the system python3 with the standard library only; the code under test
runs in separate processes (run_driver.py under /opt/venv/bin/python)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(2, min(8, os.cpu_count() or 4))


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- TLC
def run_tlc(module, cfgtext, workdir, env=None, workers=2, extra=(), timeout=800, heap='3g', defs=''):
    """Run TLC on a module of /verif/spec with the given configuration text."""
    d = tempfile.mkdtemp(prefix='tlc_', dir=workdir)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    cfg = os.path.join(d, module + '_run.cfg')
    if defs:
        with open(os.path.join(d, 'VF_run.tla'), 'w') as f:
            f.write('---- MODULE VF_run ----\nEXTENDS %s\n%s\n====\n' % (module, defs))
        module = 'VF_run'
    with open(cfg, 'w') as f:
        f.write(cfgtext)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d,
           '-cp', TLA_CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'st'),
           '-noGenerateSpecTE', '-config', cfg] + list(extra) + [os.path.join(d, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    out_path = os.path.join(d, 'out')
    with open(out_path, 'w') as fo:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
    with open(out_path, errors='replace') as f:
        out = f.read()
    shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    m = re.findall(r'The number of states generated: (\d+)', out)  # simulation
    if m and not gen:
        gen = dist = int(m[-1])
    return dict(rc=rc, out=out, generated=gen, distinct=dist, wall=time.time() - t0)


def cfg_text(d):
    """d: dict(spec=..., consts={}, inv=[], prop=[], constraint=[], deadlock=False, raw='')"""
    o = []
    if 'spec' in d:
        o.append('SPECIFICATION ' + d['spec'])
    if d.get('consts'):
        o.append('CONSTANTS')
        for k, v in d['consts'].items():
            if re.search(r'\.\.|-|\[|<<', str(v)) and not str(v).startswith('<-'):
                v = '<- VF_' + k          # an expression: defined in a wrapper module
            o.append('  %s %s' % (k, v) if str(v).startswith('<-') else '  %s = %s' % (k, v))
    for i in d.get('inv', []):
        o.append('INVARIANT ' + i)
    for i in d.get('prop', []):
        o.append('PROPERTY ' + i)
    for i in d.get('constraint', []):
        o.append('CONSTRAINT ' + i)
    if d.get('view'):
        o.append('VIEW ' + d['view'])
    o.append('CHECK_DEADLOCK ' + ('TRUE' if d.get('deadlock') else 'FALSE'))
    o.append(d.get('raw', ''))
    return '\n'.join(o) + '\n'


def defs_text(d):
    return '\n'.join('VF_%s == %s' % (k, v) for k, v in d.get('consts', {}).items()
                     if re.search(r'\.\.|-|\[|<<', str(v)) and not str(v).startswith('<-'))


def model_check(mc, workdir, workers=2, timeout=700):
    r = run_tlc(mc['module'], cfg_text(mc), workdir, defs=defs_text(mc), workers=workers, timeout=timeout,
                heap=mc.get('heap', '4g'))
    if 'Model checking completed. No error has been found' not in r['out']:
        raise MachineryError('model %s does not hold or did not finish (rc=%s):\n%s'
                             % (mc.get('name', mc['module']), r['rc'], r['out'][-3000:]))
    return r


HIST_RE = re.compile(r'^"HIST\|(.*)"$')


def generate(gen, workdir, seed, workers=2, timeout=600):
    """Run a generator module; returns (list of histories as parsed JSON, tlc result)."""
    extra = []
    if gen.get('mode') == 'sim':
        extra = ['-simulate', 'num=%d' % gen['num'], '-depth', str(gen['depth']),
                 '-seed', str(seed * 7919 + gen.get('salt', 0))]
        workers = 1
    r = run_tlc(gen['module'], cfg_text(gen), workdir, defs=defs_text(gen), workers=workers, extra=extra,
                timeout=timeout, heap='4g')
    ok = ('No error has been found' in r['out']) or gen.get('mode') == 'sim'
    if not ok or 'Error:' in r['out']:
        raise MachineryError('generator %s failed (rc=%s):\n%s'
                             % (gen['module'], r['rc'], r['out'][-3000:]))
    hs, seen = [], set()
    for line in r['out'].splitlines():
        if line.startswith('"HIST|'):
            t = line[6:-1].replace('\\"', '"').replace('\\\\', '\\')
            if t not in seen:
                seen.add(t)
                hs.append(json.loads(t))
    if not hs:
        raise MachineryError('generator %s printed no history:\n%s' % (gen['module'], r['out'][-2000:]))
    return hs, r


# ---------------------------------------------------------------- drivers
def driver_env(scratch, stubs=False, repo=None):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'VERIF_SEED', 'VERIF_TIER')}
    os.makedirs(os.path.join(scratch, 'mpl'), exist_ok=True)
    os.makedirs(os.path.join(scratch, 'tmp'), exist_ok=True)
    pp = [repo or REPO, os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'harness', 'stubs')]
    e.update(PYTHONPATH=':'.join(pp), PYTHONDONTWRITEBYTECODE='1',
             PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'),
             NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'),
             MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
             TMPDIR=os.path.join(scratch, 'tmp'), VERIF_SCRATCH=scratch,
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='2',
             PYTHONHASHSEED='0', VF_REPO=repo or REPO)
    return e


def run_driver_chunk(driver, prop, tier, seed, hists, scratch, repo, timeout):
    """Replay the histories in one worker process; restart after a crash or hang."""
    traces, idx, deaths = [], 0, 0
    while idx < len(hists):
        wd = tempfile.mkdtemp(prefix='w_', dir=scratch)
        fin, fout = os.path.join(wd, 'in.json'), os.path.join(wd, 'out.jsonl')
        with open(fin, 'w') as f:
            json.dump(dict(prop=prop, tier=tier, seed=seed, hists=hists[idx:]), f)
        ferr = os.path.join(wd, 'err')
        with open(ferr, 'w') as fe:
            p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(VERIF, 'harness', 'run_driver.py'),
                                  driver, fin, fout], cwd=wd, env=driver_env(wd, repo=repo),
                                 stdout=subprocess.DEVNULL, stderr=fe, start_new_session=True)
            # a stall is judged on progress (size of the output), not on the total time
            last, tlast, rc = -1, time.time(), None
            while rc is None:
                try:
                    rc = p.wait(timeout=0.2)
                except subprocess.TimeoutExpired:
                    n = os.path.getsize(fout) if os.path.exists(fout) else 0
                    if n != last:
                        last, tlast = n, time.time()
                    elif time.time() - tlast > timeout:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = 'hang'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        done = []
        if os.path.exists(fout):
            with open(fout) as f:
                for line in f:
                    try:
                        done.append(json.loads(line))
                    except ValueError:
                        break
        with open(ferr, errors='replace') as f:
            err = f.read()[-2000:]
        traces += done
        idx += len(done)
        shutil.rmtree(wd, ignore_errors=True)
        if rc != 0 or idx < len(hists) and not done:
            if rc == 3:
                raise MachineryError('driver %s: %s' % (driver, err))
            if idx < len(hists):
                h = hists[idx]
                traces.append(dict(id=h.get('id', str(idx)), cfg=h.get('cfg', {}),
                                   ev=[dict(op='abort', what='worker ended: %s' % rc, detail=err)]))
                idx += 1
                deaths += 1
                if deaths >= 3:   # the driver cannot run the code at all: enough evidence
                    break
    return traces


def run_driver(driver, prop, tier, seed, hists, scratch, workers=NCPU, timeout=120, repo=None):
    if not hists:
        return []
    workers = max(1, min(workers, len(hists)))
    chunks = [hists[i::workers] for i in range(workers)]
    with ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(lambda c: run_driver_chunk(driver, prop, tier, seed, c, scratch, repo, timeout),
                          chunks))
    return [t for r in res for t in r]


def random_histories(driver, prop, tier, seed, scratch, repo=None):
    """Ask the driver for seeded random histories (no code under test needed)."""
    wd = tempfile.mkdtemp(prefix='g_', dir=scratch)
    fout = os.path.join(wd, 'h.json')
    p = subprocess.run([PY, '-W', 'ignore', os.path.join(VERIF, 'harness', 'run_driver.py'), driver,
                        '--generate', prop, tier, str(seed), fout], cwd=wd, env=driver_env(wd, repo=repo),
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    if p.returncode:
        raise MachineryError('generator of driver %s failed: %s' % (driver, p.stderr.decode()[-3000:]))
    with open(fout) as f:
        hs = json.load(f)
    shutil.rmtree(wd, ignore_errors=True)
    return hs


# ---------------------------------------------------------------- trace validation
VERD_RE = re.compile(r'"VERDICT\|(\d+)\|(\d+)\|([^"|]*)"')


def _tlc_trace(module, init, step, clauses, traces, workdir, workers):
    d = tempfile.mkdtemp(prefix='tr_', dir=workdir)
    tf, cf = os.path.join(d, 't.json'), os.path.join(d, 'c.json')
    with open(tf, 'w') as f:
        json.dump([dict(id=t['id'], cfg=t['cfg'], ev=t['ev']) for t in traces], f)
    with open(cf, 'w') as f:
        json.dump(list(clauses), f)
    cfg = 'SPECIFICATION TrcSpec\nCONSTANTS\n TInit <- %s\n TStep <- %s\nCHECK_DEADLOCK FALSE\n' % (init, step)
    r = run_tlc(module, cfg, workdir, env=dict(TRACE_FILE=tf, CLAUSE_FILE=cf), workers=workers, heap='4g')
    shutil.rmtree(d, ignore_errors=True)
    v = {}
    for a, b, c in VERD_RE.findall(r['out']):
        v[int(a)] = (int(b), c)
    return v, r


def validate_chunk(module, init, step, clauses, traces, workdir, workers=2, depth=0):
    """-> list of (trace, pos, clause) for rejected traces, counts.

    A trace TLC cannot even evaluate (an observation of the wrong shape or type) is
    located by bisection and counts as rejected by clause 'TypeOK'."""
    if not traces:
        return [], dict(states=0, transitions=0, n=0)
    v, r = _tlc_trace(module, init, step, clauses, traces, workdir, workers)
    done = 'Model checking completed. No error has been found' in r['out']
    if done and len(v) == len(traces):
        bad = [(traces[i - 1], p, c) for i, (p, c) in v.items() if c != 'ok']
        return bad, dict(states=r['distinct'], transitions=r['generated'], n=len(traces))
    if r['rc'] == 'timeout' or 'OutOfMemory' in r['out']:
        raise MachineryError('trace validation %s did not finish: %s' % (module, r['out'][-1500:]))
    if 'Parsing or semantic analysis failed' in r['out'] or 'Parse Error' in r['out'] \
            or 'Semantic errors' in r['out'] or 'ConfigFileException' in r['out']:
        raise MachineryError('trace validation %s failed: %s' % (module, r['out'][-2000:]))
    if len(traces) == 1:
        if 'Parsing or semantic analysis failed' in r['out'] or 'The exception was' not in r['out'] \
                and 'Error' not in r['out']:
            raise MachineryError('trace validation %s failed: %s' % (module, r['out'][-2000:]))
        t = dict(traces[0])
        t['tlc'] = r['out'][-2500:]
        return [(t, -1, 'TypeOK')], dict(states=r['distinct'], transitions=r['generated'], n=1)
    m = re.findall(r'^/?.{0,3}tid = (\d+)', r['out'], re.M)     # the state TLC could not go on from
    if m and 1 <= int(m[-1]) <= len(traces):
        b, c = validate_chunk(module, init, step, clauses, [traces[int(m[-1]) - 1]], workdir, workers)
        if any(x == 'TypeOK' for _, _, x in b):
            return b, c
    m = len(traces) // 2
    b1, c1 = validate_chunk(module, init, step, clauses, traces[:m], workdir, workers, depth + 1)
    if any(c == 'TypeOK' for _, _, c in b1):     # one located: enough
        return b1, dict(c1, n=m)
    b2, c2 = validate_chunk(module, init, step, clauses, traces[m:], workdir, workers, depth + 1)
    return b1 + b2, dict(states=c1['states'] + c2['states'],
                         transitions=c1['transitions'] + c2['transitions'], n=c1['n'] + c2['n'])


def validate(module, init, step, clauses, traces, workdir, max_bytes=6_000_000, par=3):
    # traces without any event are vacuous: refuse them
    for t in traces:
        if not t['ev']:
            raise MachineryError('trace %s has no events' % t['id'])
    chunks, cur, size, all_ = [], [], 0, 0
    for t in traces:
        n = len(json.dumps(t))
        if cur and (size + n > max_bytes or len(cur) >= 4000):
            chunks.append(cur)
            cur, size = [], 0
        cur.append(t)
        size += n
        all_ += n
    if cur:
        chunks.append(cur)
    if len(chunks) == 1 and len(traces) > 2 and (len(traces) > 600 or all_ > 1_500_000):
        chunks = [traces[i::3] for i in range(3)]
    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(lambda c: validate_chunk(module, init, step, clauses, c, workdir), chunks))
    bad = [b for r in res for b in r[0]]
    tot = dict(states=sum(r[1]['states'] for r in res), transitions=sum(r[1]['transitions'] for r in res),
               n=sum(r[1]['n'] for r in res))
    return bad, tot

"""Runs the pieces of a check: TLC on the design models, the driver that runs
the scenarios on the code in /repo and records traces, TLC on the trace
specification, the verdict, the evidence file."""
import collections
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, 'build')
EVID = os.path.join(ROOT, 'evidence')
REPO = '/repo'
PY = '/opt/venv/bin/python'
JARS = ['/opt/veriftools/tla/tla2tools.jar',
        '/opt/veriftools/tla/CommunityModules-deps.jar']


class Machinery(Exception):
    pass


# --------------------------------------------------------------------------
# the Java arithmetic kernel
# --------------------------------------------------------------------------
def build_kernel():
    srcs = sorted(os.path.join(ROOT, 'java/rsv', f)
                  for f in os.listdir(os.path.join(ROOT, 'java/rsv')))
    out = os.path.join(BUILD, 'classes')
    stamp = os.path.join(out, 'stamp')
    want = ''.join(open(f).read() for f in srcs)
    if os.path.exists(stamp) and open(stamp).read() == want:
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    r = subprocess.run(['javac', '-nowarn', '-cp', JARS[0], '-d', tmp] + srcs,
                       capture_output=True, text=True)
    if r.returncode:
        raise Machinery('javac failed:\n' + r.stdout + r.stderr)
    with open(os.path.join(tmp, 'stamp'), 'w') as f:
        f.write(want)
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.rename(tmp, out)
    return out


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class TLCResult:
    pass


def tlc(module, cfg=None, env=None, args=(), workers=8, timeout=800, heap='6g'):
    classes = build_kernel()
    meta = tempfile.mkdtemp(prefix='rsv-tlc-')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:rsv.Overrides',
           '-Djava.io.tmpdir=' + meta,
           '-cp', ':'.join([classes] + JARS), 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE',
           '-config', (cfg or module) + '.cfg'] + list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TLCResult()
    res.code, res.wall = r.returncode, time.time() - t
    res.out = '\n'.join(x for x in (r.stdout + r.stderr).splitlines()
                        if not x.startswith(('Parsing file', 'Semantic proc', 'Linting of')))
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', r.stdout, re.M)
    res.generated, res.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r'number of states generated: (\d+)', r.stdout)
    if m and not res.generated:           # simulation
        res.generated = res.distinct = int(m[-1])
    res.lines = []
    for line in r.stdout.splitlines():
        if line.startswith('"RSV '):
            res.lines.append(json.loads(json.loads(line)[4:]))
    return res


def model_check(module, cfg=None, **kw):
    r = tlc(module, cfg, **kw)
    if r.code != 0:
        raise Machinery('TLC reports an error in the design model %s:\n%s'
                        % (cfg or module, r.out[-3000:]))
    return r


# --------------------------------------------------------------------------
# driver
# --------------------------------------------------------------------------
def drive(script, spec_in, timeout=700):
    """Runs drv/<script>.py on the code in /repo; returns the recorded traces."""
    tmp = tempfile.mkdtemp(prefix='rsv-drv-')
    try:
        fin, fout = os.path.join(tmp, 'in.json'), os.path.join(tmp, 'out.json')
        with open(fin, 'w') as f:
            json.dump(spec_in, f)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith('PYTHON'):
                del env[k]
        env.update(PYTHONPATH=REPO + ':' + os.path.join(ROOT, 'drv'),
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'),
                   PYTHONWARNINGS='ignore', MPLBACKEND='Agg',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
                   JOBLIB_TEMP_FOLDER=tmp, TMPDIR=tmp, LOKY_MAX_CPU_COUNT='4')
        try:
            r = subprocess.run([PY, '-B', os.path.join(ROOT, 'drv', script + '.py'), fin, fout],
                               cwd=tmp, env=env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('driver %s timed out' % script)
        if r.returncode or not os.path.exists(fout):
            raise Machinery('driver %s failed:\n%s' % (script, (r.stdout + r.stderr)[-4000:]))
        with open(fout) as f:
            return json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------------
# trace validation
# --------------------------------------------------------------------------
def validate(module, traces, cfg=None, timeout=800, env=None):
    """Every trace against spec/<module>.tla.  Returns (rejections, stats); a
    rejection is (trace index, [[event number, clause], ...])."""
    tmp = tempfile.mkdtemp(prefix='rsv-val-')
    todo = list(range(len(traces)))
    rejects, gen, dist, clauses = {}, 0, 0, 0
    try:
        for attempt in range(8):
            if not todo:
                break
            path = os.path.join(tmp, 'traces%d.json' % attempt)
            with open(path, 'w') as f:
                json.dump([dict(traces[i], n=i) for i in todo], f)
            e = dict(env or {})
            e['RSV_TRACES'] = path
            r = tlc(module, cfg, env=e, timeout=timeout)
            gen += r.generated
            dist += r.distinct
            done = set()
            for rec in r.lines:
                done.add(rec['n'])
                clauses += rec.get('checked', 0)
                if rec['bad']:
                    rejects[rec['n']] = sorted(rec['bad'])
            if r.code == 0:
                missing = set(todo) - done
                if missing:
                    raise Machinery('%d traces were not validated by %s\n%s'
                                    % (len(missing), module, r.out[-2000:]))
                todo = []
                break
            # an observation the specification cannot even evaluate
            m = re.findall(r'^(?:/\\ )?tid = (\d+)', r.out, re.M)
            lm = re.findall(r'^(?:/\\ )?l = (\d+)', r.out, re.M)
            if not m or r.code not in (75, 76, 12, 13, 255, 1, 11):
                raise Machinery('TLC failed (%d) on %s:\n%s' % (r.code, module, r.out[-3000:]))
            bad = todo[int(m[-1]) - 1]
            if bad in done:
                raise Machinery('TLC failed (%d) on %s:\n%s' % (r.code, module, r.out[-3000:]))
            rejects[bad] = [[int(lm[-1]) if lm else 0, 'EvaluableObservation']]
            if os.environ.get('RSV_DEBUG'):
                print(r.out[-3000:])
            todo = [i for i in todo if i not in done and i != bad]
        else:
            pass          # eight unevaluable traces are enough for a verdict
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rejects, dict(generated=gen, distinct=dist, clauses=clauses)


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def known_findings(prop):
    out = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) trace=(\S+) clause=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2) + r'\Z'), re.compile(m.group(3) + r'\Z'),
                            m.group(4)))
    return out


# --------------------------------------------------------------------------
# one check
# --------------------------------------------------------------------------
def shape_of(ev):
    """A short human-readable rendering of an event for samples and replays."""
    s = json.dumps(ev)
    return ev if len(s) < 600 else {k: (v if len(json.dumps(v)) < 160 else '...')
                                     for k, v in ev.items()}


def main(argv):
    import checks
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    if prop == 'all':
        code = 0
        for p in sorted(checks.CHECKS):
            code = max(code, main([p, tier]))
        return code
    if prop == 'setup':
        build_kernel()
        r = model_check('SelfCheck')
        print('arithmetic kernel checked against its TLA+ definitions: %d states' % r.distinct)
        return 0
    chk = checks.CHECKS[prop]
    build_kernel()

    states = trans = 0
    mc_report = []
    for item in chk.get('models', []):
        module, cfg = item[0], item[1]
        if len(item) > 2 and item[2] != tier and item[2] != 'both':
            continue
        r = model_check(module, cfg)
        states += r.distinct
        trans += r.generated
        mc_report.append(dict(model=cfg or module, distinct=r.distinct, generated=r.generated,
                              wall_s=round(r.wall, 1)))

    ntr = nev = nclauses = 0
    counts = collections.Counter()
    violations, known_hit, samples = [], [], []
    known = known_findings(prop)
    for part in chk['parts']:
        scen = None
        if 'generate' in part:
            g = part['generate']
            r = tlc(g['module'], g.get('cfg'), workers=g.get('workers', 1),
                    args=g['args'](tier, seed) if 'args' in g else ())
            if r.code != 0:
                raise Machinery('scenario generation failed: ' + r.out[-3000:])
            states += r.distinct
            trans += r.generated
            scen = r.lines
            if 'select' in g:
                scen = g['select'](scen, tier, random.Random(seed))
            if not scen:
                raise Machinery('no scenario generated by ' + g['module'])
        req = dict(property=prop, tier=tier, seed=seed, scenarios=scen,
                   **part.get('options', {}))
        traces = drive(part['driver'], req)
        if not traces:
            raise Machinery('driver %s recorded no trace' % part['driver'])
        rej, st = validate(part['trace'], traces, part.get('cfg'))
        states += st['distinct']
        trans += st['generated']
        nclauses += st['clauses']
        ntr += len(traces)
        for t in traces:
            nev += len(t['ev'])
            for e in t['ev']:
                counts[e['a']] += 1
        for t in traces[:: max(1, len(traces) // 3)][:3]:
            samples.append(dict(trace=t['id'], events=[shape_of(e) for e in t['ev'][:3]]))
        for i, bad in sorted(rej.items()):
            left = []
            for b in bad:
                hit = [k for k in known if k[0].match(traces[i]['id']) and k[1].match(b[1])]
                if hit:
                    known_hit.append((traces[i]['id'], b[1], hit[0][2]))
                else:
                    left.append(b)
            if left:
                violations.append((part, traces[i], left))

    replays = os.path.join(EVID, 'replays')
    if violations:
        os.makedirs(replays, exist_ok=True)
    for txt in sorted(set(k[2] for k in known_hit)):
        print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    shown = 0
    for part, t, bad in violations[:20]:
        path = os.path.join(replays, '%s-%d.json' % (prop, shown))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, trace_module=part['trace'], driver=part['driver'],
                           rejected_clauses=bad, trace=t), f)
        print('rejected trace %s: %s' % (t['id'], ', '.join(
            'event %s (%s): %s' % (b[0], t['ev'][b[0] - 1]['a'] if 0 < b[0] <= len(t['ev']) else '?', b[1])
            for b in bad[:6])))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        shown += 1

    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=states, transitions=trans,
                            traces_validated_against_impl=ntr,
                            events_validated=nev, clauses_evaluated=nclauses,
                            events_by_action=dict(sorted(counts.items())),
                            design_models=mc_report,
                            known_findings=len(set(known_hit)),
                            rule=chk.get('rule', ''),
                            samples=samples[:6]),
              assumptions=chk.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d design states, %d traces / %d events / %d clauses validated, %d rejected, %.1f s'
          % (prop, tier, states, ntr, nev, nclauses, len(violations), time.time() - t0))
    return 1 if violations else 0

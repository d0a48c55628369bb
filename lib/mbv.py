"""Shared runner of the model-based checks.

A check is four steps, all driven from here:
  1. TLC model-checks the design specification (small constants, exhaustive).
  2. TLC generates behaviours of the specification (simulation), printed as JSON.
  3. Jython drivers replay those behaviours (and seeded random ones) against a scratch copy of
     /repo's working tree, recording one event per public call.
  4. TLC validates every recorded trace against the specification; each rejected event names the
     clauses of the specification it breaks.
"""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MBV_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'
JAVA_DIR = '/usr/share/java'


class MachineryError(Exception):
    pass


def log(*args):
    print(*args, flush=True)


class Scratch(object):
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='mbv-')

    def path(self, *parts):
        p = os.path.join(self.dir, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def close(self):
        if self.dir and self.dir.startswith(tempfile.gettempdir()) and 'mbv-' in self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None


# --------------------------------------------------------------------------- the code under test

def prepare_source(scratch):
    """Copies the package from the working tree and regenerates the bindings when the schemas changed."""
    root = os.path.join(scratch.dir, 'src')
    dst = os.path.join(root, 'ebu_tt_live')

    def ignore(folder, names):
        return [n for n in names if n.endswith('.class') or n.endswith('.pyc')
                or n in ('ui', '__pycache__')]
    shutil.copytree(os.path.join(REPO, 'ebu_tt_live'), dst, ignore=ignore)
    raw = os.path.join(dst, 'bindings', 'raw')
    xsd = subprocess.run('cat ebu_tt_live/xsd/*.xsd | sha256sum', shell=True, cwd=root,
                         stdout=subprocess.PIPE, check=True,
                         env=dict(os.environ, LC_ALL='C.UTF-8')).stdout.decode().strip()
    stamp = os.path.join(raw, '.stamp')
    have = open(stamp).read().strip() if os.path.exists(stamp) else None
    if have != xsd or not os.path.exists(os.path.join(raw, '__init__.py')):
        shutil.rmtree(raw, ignore_errors=True)
        env = dict(os.environ, JYTHONPATH='/opt/jy/hooks:/opt/jy/site:' + root, LC_ALL='C.UTF-8')
        p = subprocess.run(['/opt/jy/jy', '/opt/jy/pyxb-src/scripts/pyxbgen',
                            '--binding-root=./ebu_tt_live/bindings', '-m', '__init__',
                            '--schema-root=./ebu_tt_live/xsd/', '-r', '-u', 'ebutt_all.xsd'],
                           cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode or not os.path.exists(os.path.join(raw, '__init__.py')):
            raise MachineryError('bindings cannot be generated:\n' + p.stdout.decode()[-2000:])
        open(stamp, 'w').write(xsd + '\n')
    return root


def jython_cmd(script, args, srcroot, mem='2500m'):
    j = JAVA_DIR
    cmd = ['java', '-Xss16m', '-Xmx' + mem, '-XX:+UseSerialGC', '-XX:CICompilerCount=3',
           '--add-opens=java.base/java.lang=ALL-UNNAMED', '--add-opens=java.base/java.io=ALL-UNNAMED',
           '--add-opens=java.base/sun.nio.ch=ALL-UNNAMED', '--add-opens=java.base/java.util=ALL-UNNAMED',
           '-Dpython.home=/opt/jy/home', '-Dpython.executable=/opt/jy/jy',
           '-Dpython.cachedir=/opt/jy/cache', '-Dpython.cachedir.skip=true',
           '-cp', ':'.join('%s/%s' % (j, x) for x in
                           ('jython.jar', 'bcprov.jar', 'bcpkix.jar', 'bcutil.jar', 'jython-2.7.3.jar')),
           'org.python.util.jython', script] + list(args)
    env = dict(os.environ, LC_ALL='C.UTF-8', TZ='UTC',
               JYTHONPATH='/opt/jy/hooks:/opt/jy/site:%s:%s:%s' % (
                   srcroot, os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'drivers')))
    return cmd, env


# --------------------------------------------------------------------------- TLC

STATS = re.compile(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found')


class TlcResult(object):
    def __init__(self, code, out, wall):
        self.code, self.out, self.wall = code, out, wall
        self.generated = self.distinct = 0
        for m in STATS.finditer(out):
            self.generated, self.distinct = int(m.group(1)), int(m.group(2))

    @property
    def ok(self):
        return self.code == 0


def tlc_popen(scratch, module, cfg, name, env=None, workers=1, extra=(), mem='2g', specdir=None):
    meta = os.path.join(scratch.dir, 'tlc-' + name)
    os.makedirs(meta, exist_ok=True)
    out = open(os.path.join(scratch.dir, 'tlc-%s.out' % name), 'w+')
    specdir = specdir or SPEC
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + mem, '-cp',
           ':'.join([TLA_JAR] + community_jars()), 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers), '-config', os.path.join(specdir, cfg)] + list(extra) + \
          [os.path.join(specdir, module + '.tla')]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=meta, stdout=out, stderr=subprocess.STDOUT, env=e,
                         start_new_session=True)
    p.mbv_out = out
    p.mbv_start = time.time()
    p.mbv_name = name
    return p


_jars = None


def community_jars():
    global _jars
    if _jars is None:
        _jars = []
        d = os.path.dirname(TLA_JAR)
        for root, _, names in os.walk(d):
            for n in names:
                if n.endswith('.jar') and n != os.path.basename(TLA_JAR) and 'ommunity' in n:
                    _jars.append(os.path.join(root, n))
    return _jars


def tlc_wait(p, timeout):
    try:
        p.wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        kill(p)
    p.mbv_out.seek(0)
    text = p.mbv_out.read()
    p.mbv_out.close()
    return TlcResult(p.returncode, text, time.time() - p.mbv_start)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def printed_json(text, tag):
    """Values printed by the specification as PrintT(<<tag, ToJson(x)>>)."""
    res = []
    pat = re.compile(r'^<<"%s", "(.*)">>$' % re.escape(tag), re.M)
    for m in pat.finditer(text):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    return res


# --------------------------------------------------------------------------- a check

class Check(object):
    """Subclass-free description of a check; see checks/*.py."""

    def __init__(self, pid, driver, trace, design=(), gens=(), quick=None, thorough=None, workers=4,
                 assumptions=(), note=None):
        self.pid = pid
        self.driver = driver          # drivers/<driver>.py
        self.trace = trace            # trace module name (with <trace>.cfg)
        self.design = design          # [(module, cfg, timeout_quick or None, thorough_only)]
        self.gens = gens              # [(module, cfg, num_quick, num_thorough, depth)]
        self.quick = dict(budget=35, rand=10 ** 9)
        self.quick.update(quick or {})
        self.thorough = dict(budget=600, rand=10 ** 9)
        self.thorough.update(thorough or {})
        self.workers = workers
        self.assumptions = list(assumptions)
        self.note = note or (
            'The specification is model-checked exhaustively within small constants; the code is checked on every '
            'recorded trace (TLC-generated plus seeded random behaviours), so it is bounded by the behaviours run. '
            'Trusted: TLC, the projection in drivers/%s.py, Jython, PyXB.' % driver)


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return json.load(open(path))


def run_check(chk, tier, seed, replay=None, keep=False):
    t0 = time.time()
    scratch = Scratch()
    procs = []

    def onterm(*_):
        raise KeyboardInterrupt()
    signal.signal(signal.SIGTERM, onterm)
    try:
        return _run(chk, tier, seed, replay, scratch, procs, t0)
    finally:
        for p in procs:
            if p.poll() is None:
                kill(p)
        if keep:
            log('scratch kept:', scratch.dir)
        else:
            scratch.close()


def _run(chk, tier, seed, replay, scratch, procs, t0):
    par = chk.thorough if tier == 'thorough' else chk.quick
    cov = dict(design=[], generated_behaviours=0, random_behaviours=0, events=0)
    # 1. start the exhaustive design runs and the generators
    designs = []
    gens = []
    if not replay:
        for i, (module, cfg, tq, tt) in enumerate(chk.design):
            t = tt if tier == 'thorough' else tq
            if not t:
                continue
            p = tlc_popen(scratch, module, cfg, 'design%d' % i, workers=2 if tier == 'quick' else 4, mem='3g')
            procs.append(p)
            designs.append((module, cfg, t, p))
        for i, (module, cfg, nq, nt, depth) in enumerate(chk.gens):
            n = nt if tier == 'thorough' else nq
            if not n:
                continue
            if depth:
                extra = ['-simulate', 'num=%d' % n, '-depth', str(depth), '-seed', str(seed * 1000003 + i), '-deadlock']
            else:
                extra = ['-deadlock']
            p = tlc_popen(scratch, module, cfg, 'gen%d' % i, extra=extra)
            procs.append(p)
            gens.append((module, cfg, p))
    src = prepare_source(scratch)
    behaviours = []
    if replay:
        rp = json.load(open(replay))
        behaviours = [dict(src=rp['behaviour'].get('src', 'replay'), steps=rp['behaviour'])]
        behaviours = [rp['behaviour']]
    for module, cfg, p in gens:
        r = tlc_wait(p, 300)
        if r.code not in (0, 11, 12, 13) and 'The number of states generated' not in r.out:
            raise MachineryError('generator %s failed:\n%s' % (module, r.out[-3000:]))
        if 'Error:' in r.out and 'REJECT' not in r.out:
            raise MachineryError('generator %s failed:\n%s' % (module, r.out[-3000:]))
        got = printed_json(r.out, 'BEH')
        uniq = {}
        for b in got:
            uniq.setdefault(json.dumps(b, sort_keys=True), b)
        got = [dict(src=cfg.replace('.cfg', ''), beh=b) for b in uniq.values()]
        cov.setdefault('generators', []).append(dict(module=module, cfg=cfg, behaviours=len(got)))
        if not got:
            raise MachineryError('generator %s printed no behaviour:\n%s' % (module, r.out[-3000:]))
        behaviours.extend(got)
    random.Random(seed).shuffle(behaviours)
    bfile = scratch.path('behaviours.json')
    json.dump(behaviours, open(bfile, 'w'))
    # 3. drivers
    nw = 1 if replay else par.get('workers', chk.workers)
    drivers = []
    for w in range(nw):
        out = scratch.path('trace-%d.ndjson' % w)
        cfgf = scratch.path('driver-%d.json' % w)
        json.dump(dict(driver=chk.driver, worker=w, nworkers=nw, behaviours=bfile, out=out,
                       seed=seed, tier=tier, budget=par['budget'],
                       rand=0 if replay else par['rand'], src=src,
                       scratch=scratch.path('work-%d' % w, 'x')[:-2]), open(cfgf, 'w'))
        cmd, env = jython_cmd(os.path.join(VERIF, 'lib', 'harness.py'), [cfgf], src)
        lf = open(scratch.path('driver-%d.log' % w), 'w+')
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=scratch.dir,
                             start_new_session=True)
        procs.append(p)
        drivers.append((p, out, lf))
    limit = time.time() + par['budget'] + 240
    for p, out, lf in drivers:
        try:
            p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            kill(p)
            lf.seek(0)
            raise MachineryError('driver did not finish:\n' + lf.read()[-3000:])
        if p.returncode:
            lf.seek(0)
            raise MachineryError('driver failed (%s):\n%s' % (p.returncode, lf.read()[-4000:]))
    # 4. trace validation
    vals = []
    for w, (p, out, lf) in enumerate(drivers):
        n = sum(1 for _ in open(out))
        if n == 0:
            continue
        q = tlc_popen(scratch, chk.trace, chk.trace + '.cfg', 'trace%d' % w, env=dict(TRACE=out), mem='3g',
                      extra=['-deadlock'])
        procs.append(q)
        vals.append((q, out, n))
    if not vals:
        raise MachineryError('no trace was recorded')
    rejects = []
    samples = []
    accepted = 0
    seen_kinds = {}
    cov['distinct_behaviours'] = 0
    digests = set()
    for q, out, n in vals:
        r = tlc_wait(q, 800 if tier == 'quick' else 3000)
        done = re.findall(r'<<"CONSUMED", (\d+)>>', r.out)
        if not r.ok or not done or max(map(int, done)) != n:
            raise MachineryError('trace validation did not finish (%s of %d events):\n%s' % (
                done[-1:] or '0', n, r.out[-4000:]))
        lines = open(out).read().splitlines()
        starts = [i for i, s in enumerate(lines) if '"ev": "reset"' in s]
        byline = {}
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(.*?)>>', r.out, re.S):
            ln = int(m.group(1))
            byline.setdefault(ln, re.sub(r'\s+', ' ', m.group(2)))
        cov['events'] += n
        bad_traces = set()
        for i, s in enumerate(starts):
            e = starts[i + 1] if i + 1 < len(starts) else len(lines)
            head = json.loads(lines[s])
            k = head.get('src', '?')
            seen_kinds[k] = seen_kinds.get(k, 0) + 1
            digests.add(hash('\n'.join(lines[s + 1:e])))
            if len(samples) < 3 and (e - s) > 2 and (e - s) < 14:
                samples.append([json.loads(x) for x in lines[s:e]])
            for ln in range(s + 1, e + 1):
                if ln in byline and i not in bad_traces:
                    bad_traces.add(i)
                    rejects.append(dict(clauses=byline[ln], line=ln - s, event=json.loads(lines[ln - 1]),
                                        head=head, trace=[json.loads(x) for x in lines[s:e]]))
        accepted += len(starts) - len(bad_traces)
    cov['distinct_behaviours'] = len(digests)
    cov['traces_by_source'] = seen_kinds
    # collect the design runs
    design_viol = []
    states = trans = 0
    for module, cfg, t, p in designs:
        r = tlc_wait(p, t)
        if r.code is None or r.code < 0:
            raise MachineryError('design run %s/%s exceeded %ss' % (module, cfg, t))
        if not r.ok:
            if 'Invariant' in r.out and 'violated' in r.out or 'is violated' in r.out:
                design_viol.append((module, cfg, r.out[-3000:]))
            else:
                raise MachineryError('design run %s/%s failed:\n%s' % (module, cfg, r.out[-3000:]))
        cov['design'].append(dict(module=module, cfg=cfg, generated=r.generated, distinct=r.distinct,
                                  wall_s=round(r.wall, 1)))
        states += r.distinct
        trans += r.generated
    if design_viol:
        # the specification itself is wrong: an error of the machinery, not of the code
        raise MachineryError('design violates its own properties: %s' % design_viol[0][2])
    cov.update(states=states, transitions=trans, traces_validated_against_impl=accepted + len(rejects),
               samples=samples)
    # verdicts
    known = [k for k in load_known() if k.get('property') == chk.pid and k.get('status') == 'known']
    viol = []
    hit = {}
    for rj in rejects:
        k = match_known(known, rj)
        if k is not None:
            hit.setdefault(k['id'], [k, 0])[1] += 1
        else:
            viol.append(rj)
    cov['known_finding_hits'] = {k: n for k, (_, n) in hit.items()}
    for k in known:
        log('KNOWN-FINDING: property=%s %s (%d histories of this run)' % (
            chk.pid, k['what'], hit.get(k['id'], [None, 0])[1]))
    code = 0
    if viol:
        code = 1
        viol.sort(key=lambda v: len(v['trace']))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, '%s-%s-%d.json' % (chk.pid, tier, seed))
        v = viol[0]
        json.dump(dict(property=chk.pid, clauses=v['clauses'], at=v['line'], event=v['event'],
                       behaviour=v['head'].get('beh_in') or dict(src='replay', beh=v['head'].get('beh')),
                       trace=v['trace'], others=[dict(clauses=x['clauses'], event=x['event'],
                                                      trace=x['trace']) for x in viol[1:12]],
                       total=len(viol)), open(rpath, 'w'), indent=1)
        cl = {}
        for x in viol:
            cl[x['clauses']] = cl.get(x['clauses'], 0) + 1
        log('%d of %d traces rejected:' % (len(viol), accepted + len(rejects)))
        for c, n in sorted(cl.items(), key=lambda x: -x[1])[:12]:
            log('   %5d x %s' % (n, c[:300]))
        log('first: event %d: %s' % (v['line'], json.dumps(v['event'])[:1500]))
        log('VIOLATION property=%s replay=%s' % (chk.pid, rpath))
    ev = dict(property=chk.pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=chk.assumptions, wall_s=round(time.time() - t0, 1), violations=len(viol))
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', chk.pid + '.json'), 'w'), indent=1)
    log('%s %s: %d design states, %d traces (%d events, %d distinct) validated, %d rejected, %.0fs' % (
        chk.pid, tier, states, accepted + len(rejects), cov['events'], len(digests), len(viol),
        time.time() - t0))
    return code


def match_known(known, rj):
    for k in known:
        if not re.search(k['clause'], rj['clauses']):
            continue
        ok = True
        for name, want in k.get('event', {}).items():
            if rj['event'].get(name) != want:
                ok = False
        if ok:
            return k
    return None

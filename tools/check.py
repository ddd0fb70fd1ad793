#!/usr/bin/env python3
"""Decides one property: generate behaviours from the specification, replay them in the program, validate the recording.

    check.py PROPERTY [--tier quick|thorough]      exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed
    check.py --replay FILE                         replays a recorded violation

The pipeline of one run (everything lives in a scratch directory that is removed at the end):

  1. build the conformance driver and the midiasm executable from /repo's working tree
  2. TLC model checks the design-level configurations of the property (spec/MC*.tla), if it has any
  3. TLC generates cases: simulation of the generators, and exhaustive enumeration of small ones
  4. the driver runs every case against the program and records what it observed
  5. TLC validates the recordings against spec/Conform.tla, which ends every case in DONE or BAD
  6. every BAD is confirmed: the case is run and validated again in fresh processes; only then is it a violation
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = '/repo'
sys.path.insert(0, HERE)
import plans

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = min(8, os.cpu_count() or 4)
ERROR = 2


class Broken(Exception):
    """The check itself went wrong (never a verdict on the program)."""


def goenv():
    env = dict(os.environ)
    env.update(PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', HOME=os.environ.get('HOME', '/root'))
    return env


def run(cmd, cwd, log, env=None, timeout=850, limit=None):
    def pre():
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    with open(log, 'wb') as f:
        try:
            return subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=pre).returncode
        except subprocess.TimeoutExpired:
            raise Broken(f'timeout: {" ".join(cmd[:3])}... (log {log})')


def tail(log, n=3000):
    with open(log, errors='replace') as f:
        return f.read()[-n:]


def build(work, race=False):
    drv = os.path.join(work, 'driver')
    bin = os.path.join(work, 'midiasm')
    src = os.path.join(work, 'driver-src')
    shutil.copytree(os.path.join(VERIF, 'driver'), src)
    log = os.path.join(work, 'build.log')
    for out, cwd, pkg in ((drv, src, '.'), (bin, REPO, './cmd/midiasm')):
        if run(['go', 'build', '-o', out, pkg], cwd, log, env=goenv()) != 0:
            raise Broken('build failed:\n' + tail(log))
    if race:
        # (without the race detector, if it cannot be built here)
        out = drv + '-race'
        if run(['go', 'build', '-race', '-o', out, '.'], src, log, env=dict(goenv(), CGO_ENABLED='1')) == 0:
            drv = out
    return drv, bin


def tlc(work, name, module, cfg, args=(), env=None, heap='2200m', timeout=850):
    """Runs TLC in a directory of its own; returns (exit code, path of the log)."""
    d = os.path.join(work, 'tlc', name)
    os.makedirs(d, exist_ok=True)
    cfgfile = os.path.join(d, module + '.cfg')
    with open(cfgfile, 'w') as f:
        f.write(cfg)
    log = os.path.join(d, 'log')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC', '-XX:CICompilerCount=2', '-cp', JARS, 'tlc2.TLC', '-metadir', os.path.join(d, 'md'),
           '-noGenerateSpecTE', '-config', cfgfile, *args, os.path.join(SPEC, module + '.tla')]
    rc = run(cmd, SPEC, log, env=e, timeout=timeout)
    shutil.rmtree(os.path.join(d, 'md'), ignore_errors=True)
    return rc, log


RE_STATES = re.compile(r'^(\d+) states generated.*?(\d+) distinct states found', re.M)
RE_SIM = re.compile(r'The number of states generated: (\d+)')


def counts(log):
    """(transitions, distinct states) of a TLC run."""
    s = open(log, errors='replace').read()
    m = RE_STATES.findall(s.replace(',', ''))
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = RE_SIM.findall(s.replace(',', ''))
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def cfgtext(consts, rest):
    lines = ['CONSTANTS'] if consts else []
    for k, v in consts.items():
        lines.append('  %s = %s' % (k, ('"%s"' % v) if isinstance(v, str) and not v.startswith('{') else ('TRUE' if v is True else 'FALSE' if v is False else v)))
    return '\n'.join(lines + rest) + '\n'


RE_CASE = re.compile(r'^<<"CASE", "(.*)">>$')


def cases_of(log):
    out = []
    with open(log, errors='replace') as f:
        for line in f:
            m = RE_CASE.match(line.rstrip('\n'))
            if m:
                out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = plans.PLANS[prop]
        self.work = tempfile.mkdtemp(prefix='midiasm-verif-')
        self.t0 = time.time()
        self.stats = dict(states=0, transitions=0, validated=0, generated=0)
        self.mc = []
        self.tally = {}
        self.samples = []
        self.violations = []
        self.batches = []

    def note(self, msg):
        print('[%6.1fs] %s' % (time.time() - self.t0, msg), flush=True)

    # ---- 2. design level -----------------------------------------------------------------------

    def designs(self):
        jobs = []
        for m in self.plan.get('mc', []):
            if self.tier == 'quick' and m.get('tier') == 'thorough':
                continue
            jobs.append(m)

        def one(m):
            consts = dict(m.get('consts', {}))
            if self.tier == 'thorough':
                consts.update(m.get('thorough', {}))
            rest = ['SPECIFICATION ' + m.get('spec', 'Spec')] + ['INVARIANT ' + i for i in m.get('inv', [])] + \
                   ['PROPERTY ' + i for i in m.get('prop', [])] + ['CHECK_DEADLOCK FALSE']
            rc, log = tlc(self.work, 'mc-' + m['name'], m['module'], cfgtext(consts, rest), args=['-workers', '4'], heap='4g')
            if rc != 0:
                raise Broken('design level check %s failed:\n%s' % (m['name'], tail(log)))
            tr, st = counts(log)
            if st < m.get('min', 2):
                raise Broken('design level check %s explored nothing' % m['name'])
            return m, consts, tr, st

        with cf.ThreadPoolExecutor(max_workers=2) as ex:
            for m, consts, tr, st in ex.map(one, jobs):
                self.mc.append(dict(name=m['name'], module=m['module'], constants={k: str(v) for k, v in consts.items()}, invariants=m.get('inv', []),
                                    states=st, transitions=tr, exhaustive=True))
                self.stats['states'] += st
                self.stats['transitions'] += tr
                self.note('design %-24s %d states, %d transitions' % (m['name'], st, tr))

    # ---- 3. generation -------------------------------------------------------------------------

    def generate(self):
        jobs = []
        for bi, b in enumerate(self.plan['batches']):
            n = b.get(self.tier, b.get('quick', 0)) if self.tier == 'quick' else b.get('thorough', b.get('quick', 0) * 8)
            if not n:
                continue
            consts = dict(b.get('consts', {}))
            if self.tier == 'thorough':
                consts.update(b.get('tconsts', {}))
            if b.get('exhaustive'):
                stride = b.get('stride', {}).get(self.tier, 1)
                consts.update(Stride=stride, Phase=self.seed % stride)
                jobs.append((bi, 0, b, n, consts))
            else:
                per = 600
                for si in range((n + per - 1) // per):
                    jobs.append((bi, si, b, min(per, n - si * per), consts))

        def one(job):
            bi, si, b, n, consts = job
            module = b.get('gen', 'GenFiles')
            name = 'gen-%d-%d' % (bi, si)
            if b.get('exhaustive'):
                args = ['-workers', '2']
            else:
                h = hashlib.sha256(('%d/%s/%s/%d' % (self.seed, module, json.dumps(consts, sort_keys=True), si)).encode()).digest()
                args = ['-simulate', 'num=%d' % n, '-depth', '2000', '-seed', str(int.from_bytes(h[:6], 'big')), '-workers', '1']
            rc, log = tlc(self.work, name, module, cfgtext(consts, ['SPECIFICATION GSpec', 'CHECK_DEADLOCK FALSE']), args=args)
            if rc != 0:
                raise Broken('generator %s %s failed:\n%s' % (module, consts, tail(log)))
            cs = cases_of(log)
            tr, st = counts(log)
            os.remove(log)
            if len(cs) < (1 if b.get('exhaustive') else n // 2):
                raise Broken('generator %s %s produced %d cases of %d' % (module, consts, len(cs), n))
            return bi, si, cs, tr, st

        out = []
        per_batch = {}
        with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
            for bi, si, cs, tr, st in ex.map(one, jobs):
                b = self.plan['batches'][bi]
                out += cs
                x = per_batch.setdefault(bi, dict(generator=b.get('gen', 'GenFiles'), constants=b.get('consts', {}), exhaustive=bool(b.get('exhaustive')) and b['stride'][self.tier] == 1, cases=0, states=0))
                x['cases'] += len(cs)
                x['states'] += st
                self.stats['states'] += st
                self.stats['transitions'] += tr
        for i, c in enumerate(out):
            c['id'] = i
        self.batches = [per_batch[k] for k in sorted(per_batch)]
        self.stats['generated'] = len(out)
        self.note('generated %d cases in %d batches' % (len(out), len(per_batch)))
        return out

    # ---- 4. replay in the program --------------------------------------------------------------

    def drive(self, cases, name, timeout=20):
        d = os.path.join(self.work, 'drive', name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, 'scratch'))
        cf_, of = os.path.join(d, 'cases'), os.path.join(d, 'obs')
        with open(cf_, 'w') as f:
            for c in cases:
                f.write(json.dumps(c, separators=(',', ':')) + '\n')
        open(of, 'w').close()
        done, restarts = 0, 0
        while True:
            rc = run([self.driver, '-cases', cf_, '-obs', of, '-bin', self.bin, '-scratch', os.path.join(d, 'scratch'), '-skip', str(done),
                      '-timeout', str(timeout), *(['-brief'] if self.prop == 'C12' else []), *(['-together'] if self.plan.get('together') else [])], d, os.path.join(d, 'log'), timeout=840,
                     env=dict(os.environ, GORACE='halt_on_error=1 exitcode=66'), limit=None if self.plan.get('together') else 14 << 30)
            lines = open(of).read().splitlines()
            done = len(lines)
            if rc == 0:
                break
            if rc == 3:
                raise Broken('driver: ' + tail(os.path.join(d, 'log')))
            if rc != 7:
                # the program took the whole process down while running this case
                c = cases[done]
                o = dict(id=c['id'], docs=c['docs'], ops=c['ops'], res=[dict(ok=False, fault='race' if rc == 66 else 'crash', err='')])
                if 'meta' in c:
                    o['meta'] = c['meta']
                with open(of, 'a') as f:
                    f.write(json.dumps(o) + '\n')
                done += 1
            restarts += 1
            if restarts >= 4:
                break
        shutil.rmtree(os.path.join(d, 'scratch'), ignore_errors=True)
        return of, done

    # ---- 5. validation ---------------------------------------------------------------------------

    def validate(self, obs, n, name, inv=False, depth=0):
        consts = dict(Prop=self.prop)
        rest = ['SPECIFICATION Spec', 'INVARIANT TypeOK', 'CHECK_DEADLOCK FALSE'] + (['INVARIANT Conforms'] if inv else [])
        rc, log = tlc(self.work, name, self.plan.get('judge', 'Conform'), cfgtext(consts, rest), args=['-workers', '1'], env=dict(OBS=obs))
        bad, done = {}, set()
        with open(log, errors='replace') as f:
            text = f.read()
        for m in re.finditer(r'^<<\s*"BAD",\s*(-?\d+),\s*(\d+),\s*"([^"]*)"\s*>>$', text, re.M):   # (TLC breaks long lines)
            bad[int(m.group(1))] = (int(m.group(2)), m.group(3))
        for m in re.finditer(r'^<<\s*"DONE",\s*(-?\d+)\s*>>$', text, re.M):
            done.add(int(m.group(1)))
        if inv:
            return bad, done, log
        if rc != 0 and len(done | set(bad)) < n:
            # TLC stops where a recording holds a value that the specification cannot even compare (a number beyond its integers, say):
            # that recording is refused, and the rest is validated without it.  (Running out of memory or time is a failure of the check.)
            text = tail(log, 200000)
            lines = open(obs).read().splitlines()
            ids = [json.loads(l)['id'] for l in lines]
            left = [i for i in range(len(ids)) if ids[i] not in done and ids[i] not in bad]
            at = re.findall(r'^/\\ c = (\d+)$', text, re.M)
            if at and int(at[-1]) - 1 in left and depth < 4 and not re.search(r'OutOfMemory|heap space|StackOverflow|Invariant .* is violated|Parsing or semantic', text):
                i = int(at[-1]) - 1
                left.remove(i)
                m = re.search(r'^Error: (?!TLC threw|The error occurred|The behavior).*$', text, re.M)
                why = 'beyond the specification: ' + (m.group(0)[7:160] if m else 'the recording cannot be evaluated')
                rest_ = os.path.join(os.path.dirname(obs), '%s-rest%d' % (os.path.basename(obs), depth))
                with open(rest_, 'w') as f:
                    f.write(''.join(lines[j] + '\n' for j in left))
                bad[ids[i]] = (1, why)
                tr, st = counts(log)
                if left:
                    b2, d2, (t2, s2) = self.validate(rest_, len(left), name + 'r', depth=depth + 1)
                    bad.update(b2)
                    done |= d2
                    tr, st = tr + t2, st + s2
                return bad, done, (tr, st)
            if depth >= 4:
                return bad, done, counts(log)
        if rc != 0 or len(done | set(bad)) != n:
            raise Broken('validation of %s failed (%d done, %d bad, of %d):\n%s' % (name, len(done), len(bad), n, tail(log)))
        tr, st = counts(log)
        return bad, done, (tr, st)

    def shard(self, cases):
        k = max(1, min(CORES, (len(cases) + 19) // 20))
        return [cases[i::k] for i in range(k)]

    def replay(self, cases):
        """Steps 4 and 5 for all cases, in parallel; returns the BAD ones."""
        shards = self.shard(cases)
        results = []

        def one(i):
            obs, n = self.drive(shards[i], 'shard%d' % i)
            self.count(obs)
            bad, done, (tr, st) = self.validate(obs, n, 'conform%d' % i)
            os.remove(obs)
            return i, bad, done, tr, st

        with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
            for i, bad, done, tr, st in ex.map(one, range(len(shards))):
                self.stats['states'] += st
                self.stats['transitions'] += tr
                self.stats['validated'] += len(done)
                for cid, (k, why) in bad.items():
                    ix = [n for n, c in enumerate(shards[i]) if c['id'] == cid][0]
                    results.append((shards[i], ix, k, why))
        self.note('validated %d recordings, %d refused' % (self.stats['validated'], len(results)))
        return results

    def count(self, obs):
        t = {}
        with open(obs) as f:
            for line in f:
                o = json.loads(line)
                if len(self.samples) < 3 and len(line) < 2500:
                    self.samples.append(dict(docs=o['docs'], ops=o['ops']))
                for op, r in zip(o['ops'], o['res']):
                    key = op['op'] + (': done' if r.get('ok') else ': refused')
                    t[key] = t.get(key, 0) + 1
                    for tr in r.get('tracks', []):
                        for e in tr['evs']:
                            t['event ' + e['tag']] = t.get('event ' + e['tag'], 0) + 1
        for k, v in t.items():
            self.tally[k] = self.tally.get(k, 0) + v

    # ---- 6. confirmation ---------------------------------------------------------------------------

    def confirm(self, refused):
        seen = {}
        unconfirmed = 0
        for cases, ix, k, why in refused:
            op = cases[ix]['ops'][k - 1]['op'] if k <= len(cases[ix]['ops']) else '?'
            sig = (op, why)
            if seen.get(sig, 0) >= 1 or len(self.violations) >= 5:
                continue
            found = None
            for attempt in range(8):
                # alone, and then as part of the run it was observed in
                batch = [cases[ix]] if attempt < 5 else cases[:ix + 1]
                obs, n = self.drive(batch, 'confirm')
                bad, done, _ = self.validate(obs, n, 'confirm')
                if cases[ix]['id'] in bad:
                    found = (batch, bad[cases[ix]['id']], obs)
                    break
            if not found and self.plan.get('together') and why != 'hang':
                # a schedule need not come again; to have seen it once (or the race detector's report) is enough
                seen[sig] = 1
                self.once(cases[ix], op, k, why)
                continue
            if not found:
                unconfirmed += 1
                self.note('not reproduced: case %d %s: %s' % (cases[ix]['id'], op, why))
                if unconfirmed > 6:
                    break
                continue
            seen[sig] = seen.get(sig, 0) + 1
            self.report(found, op)
        if unconfirmed and not self.violations:
            raise Broken('%d refused recordings, none of which could be reproduced' % unconfirmed)

    def once(self, case, op, k, why):
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (self.prop, h))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, operation=op, step=k, why=why, seed=self.seed, tier=self.tier, cases=[case]), f, indent=1)
        self.violations.append(dict(operation=op, why=why, replay=path))
        print('  %s: operation %s, step %d: %s (seen once)' % (self.prop, op, k, why))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    def report(self, found, op):
        batch, (k, why), obs = found
        last = batch[-1]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        h = hashlib.sha256(json.dumps(last, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (self.prop, h))
        o = [json.loads(l) for l in open(obs) if json.loads(l)['id'] == last['id']]
        trace = ''
        one = obs + '.one'
        with open(one, 'w') as f:
            f.write(json.dumps(o[0]) + '\n')
        _, _, log = self.validate(one, 1, 'trace', inv=True)
        trace = open(log, errors='replace').read()
        i = trace.find('Error: Invariant')
        doc = dict(property=self.prop, operation=op, step=k, why=why, seed=self.seed, tier=self.tier, cases=batch, observed=o[0]['res'],
                   documents=[d if isinstance(d, str) else ' '.join('%02X' % b for b in d) for d in last['docs']],
                   tlc=trace[i:i + 20000].splitlines() if i >= 0 else [])
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
        self.violations.append(dict(operation=op, why=why, replay=path))
        print('  %s: operation %s, step %d: %s' % (self.prop, op, k, why))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    # ---- known findings ----------------------------------------------------------------------------

    def known(self):
        """Replays the findings on file: each says which case deviates, and from which reading of the standard."""
        path = os.path.join(VERIF, 'known-findings.txt')
        for line in open(path):
            if not line.startswith('{'):
                continue
            f = json.loads(line)
            if f.get('property') != self.prop or f.get('status') != 'known':
                continue
            case = dict(f['case'], id=0)
            obs, n = self.drive([case], 'known')
            o = json.loads(open(obs).readline())
            got = o['res'][f.get('step', 1) - 1]
            if all(got.get(k) == v for k, v in f['fails_with'].items()):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']), flush=True)

    # ---- evidence -----------------------------------------------------------------------------------

    def evidence(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(states=self.stats['states'], transitions=self.stats['transitions'], traces_validated_against_impl=self.stats['validated'],
                   samples=self.samples[:3], cases_generated=self.stats['generated'], batches=self.batches, design_level=self.mc,
                   observed={k: self.tally[k] for k in sorted(self.tally)})
        doc = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                   assumptions=self.plan.get('assumptions', []) + plans.ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1),
                   violations=len(self.violations))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)

    def main(self):
        try:
            self.driver, self.bin = build(self.work, self.plan.get('together', False))
            self.note('built')
            self.designs()
            cases = self.generate()
            refused = self.replay(cases)
            self.confirm(refused)
            self.known()
            for want in self.plan.get('cover', []):
                if not any(k.startswith(want) for k in self.tally):
                    if not self.violations:
                        raise Broken('vacuous: nothing observed for "%s"' % want)
            self.evidence()
            print('%s %s: %d recordings validated, %d states, %d violations, %.1f s' %
                  (self.prop, self.tier, self.stats['validated'], self.stats['states'], len(self.violations), time.time() - self.t0))
            return 1 if self.violations else 0
        finally:
            if os.environ.get('VERIF_KEEP'):
                print('kept', self.work)
            else:
                shutil.rmtree(self.work, ignore_errors=True)


def rerun(path):
    doc = json.load(open(path))
    ck = Check(doc['property'], doc['tier'], doc['seed'])
    try:
        ck.driver, ck.bin = build(ck.work, ck.plan.get('together', False))
        obs, n = ck.drive(doc['cases'], 'replay')
        bad, done, _ = ck.validate(obs, n, 'replay')
        for cid, (k, why) in bad.items():
            print('case %d, operation %d: %s' % (cid, k, why))
        if bad:
            print('VIOLATION property=%s replay=%s' % (doc['property'], path))
            return 1
        print('not reproduced: %d recordings accepted' % len(done))
        return 0
    finally:
        shutil.rmtree(ck.work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true', help='build once, so that the compilers\' caches are warm')
    a = ap.parse_args()
    try:
        if a.setup:
            work = tempfile.mkdtemp(prefix='midiasm-verif-')
            try:
                build(work)
                print('driver and program build')
            finally:
                shutil.rmtree(work, ignore_errors=True)
            return 0
        if a.replay:
            return rerun(a.replay)
        return Check(a.property, a.tier, a.seed).main()
    except Broken as e:
        print('ERROR: %s' % e, file=sys.stderr)
        return ERROR


if __name__ == '__main__':
    sys.exit(main())

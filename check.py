#!/usr/bin/env python3
"""Decides one property of concordance with its TLA+ specification.

    check.py C01              runs the check (VERIF_TIER=quick|thorough, VERIF_SEED=n)
    check.py --replay FILE    executes the case of a violation again and checks it

A check does four things:
  1. builds the harness against the working tree of /repo;
  2. has TLC check the design: the specification itself (spec/MC*.tla), within bounds;
  3. makes cases: from TLC (spec/Gen*.tla) and from the harness's generators; the harness executes them on the real code and
     records what it observes;
  4. has TLC validate every record against the specification (spec/Trace*.tla).

Exit 0: the property held on everything explored. Exit 1 (and a VIOLATION line): it is broken. Exit 2: the check itself failed.
"""
import json, os, random, re, resource, shutil, subprocess, sys, time

VERIF   = os.path.dirname(os.path.abspath(__file__))
SPEC    = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPO    = '/repo'
JARS    = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
BATCH   = 40000
BATCH_BYTES = 40000000

sys.path.insert(0, VERIF)
from checks import CHECKS, WRAP


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, case, why, spec=''):
        self.case, self.why, self.spec = case, why, spec


# ------------------------------------------------------------------------------------------------------------------- harness

def build():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HARNESS, 'target'), CARGO_NET_OFFLINE='true')
    # Never trust file times: the library is always compiled from what is in the working tree now
    subprocess.run(['cargo', 'clean', '--offline', '-q', '-p', 'concordance'], cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        errors = [l for l in p.stdout.splitlines() if l.startswith('error')]
        raise ToolError('the harness does not build: ' + '\n'.join(errors[:10]) + p.stdout[-3000:])
    return os.path.join(HARNESS, 'target', 'debug', 'harness')


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(args, timeout=800):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits, timeout=timeout)


def execute(exe, cases_file, records_file, cases):
    """Executes cases on the real code. A case that takes the process down or never ends is a violation."""
    if os.path.exists(records_file):
        os.remove(records_file)
    p = run_harness([exe, 'exec', cases_file, records_file])
    if p.returncode == 70:
        n = int(re.search(r'HANG (\d+)', p.stdout).group(1))
        raise Violation(cases[n], 'the real code did not finish this case')
    if p.returncode != 0:
        first = p.returncode
        mark = records_file + '.mark'
        p = run_harness([exe, 'exec', cases_file, records_file, '--serial', mark])
        if p.returncode == 70:
            n = int(re.search(r'HANG (\d+)', p.stdout).group(1))
            raise Violation(cases[n], 'the real code did not finish this case')
        if p.returncode != 0:
            n = int(open(mark).read())
            raise Violation(cases[n], 'the real code took the process down with this case (exit %d): %s' % (p.returncode, p.stderr[-500:]))
        print('note: the harness exited with %d once, but not when run serially' % first)
    records = [json.loads(l) for l in open(records_file)]
    if len(records) != len(cases):
        raise ToolError('%d cases gave %d records' % (len(cases), len(records)))
    for r in records:
        if isinstance(r['obs'], dict) and 'panic' in r['obs']:
            raise Violation(r, 'the real code panicked: %s' % r['obs']['panic'])
    return records


# ----------------------------------------------------------------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, module, ok, states, distinct, why, last, output):
        self.module, self.ok, self.states, self.distinct, self.why, self.last, self.output = module, ok, states, distinct, why, last, output


def batches(records):
    """As many records at a time as TLC can well hold"""
    batch, lines, size = [], [], 0
    for r in records:
        l = json.dumps(r) + '\n'
        if batch and (len(batch) >= BATCH or size + len(l) > BATCH_BYTES):
            yield batch, lines
            batch, lines, size = [], [], 0
        batch.append(r)
        lines.append(l)
        size += len(l)
    if batch:
        yield batch, lines


def config(module, consts, work):
    """The committed configuration of a module, with constants replaced"""
    text = open(os.path.join(SPEC, module + '.cfg')).read()
    for k, v in (consts or {}).items():
        text, n = re.subn(r'(\b%s\s*=\s*)\S+' % re.escape(k), lambda m: m.group(1) + str(v), text)
        if n != 1:
            raise ToolError('constant %s of %s' % (k, module))
    path = os.path.join(work, module + '.cfg')
    open(path, 'w').write(text)
    return path


def tlc(module, work, consts=None, env=None, timeout=840, workers=8):
    meta = os.path.join(work, 'states-' + module)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ['java', '-Djava.io.tmpdir=' + work, '-XX:+UseParallelGC', '-Xmx14g', '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', config(module, consts, work), module]
    e = dict(os.environ)
    e.update(env or {})
    began = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC took more than %d s over %s' % (timeout, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    if os.environ.get('VERIF_TIMES'):
        print('%6.1f s  %s' % (time.time() - began, module), flush=True)
    open(os.path.join(work, module + '.out'), 'w').write(out)
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
    states, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if p.returncode == 0 and 'No error has been found' in out:
        return Tlc(module, True, states, distinct, None, None, out)
    why = None
    m = re.search(r'Error: (Invariant \S+ is violated|Deadlock reached|Action property \S+ is violated|Temporal properties were violated|Property \S+ is violated|Assumption .* is false)', out)
    if m and p.returncode in (10, 11, 12, 13):
        why = m.group(1)
    if why is None and module.startswith('Trace') and ('The behavior up to this point is' in out or 'While working on the initial state' in out):
        # A record that the specification can not even be asked about (an index that is not there, a value of the wrong shape)
        m = re.search(r'Error: (TLC threw an unexpected exception|Attempted to [^\n]*|[^\n]*)', out)
        why = 'a record that makes no sense to the specification (%s)' % m.group(1)
    if why is None:
        errors = [l for l in out.splitlines() if 'Error' in l or 'rror:' in l]
        raise ToolError('TLC failed on %s (exit %d):\n%s\n%s' % (module, p.returncode, '\n'.join(errors[:8]), out[-2500:]))
    last = re.split(r'\nState \d+:|\n1: <Initial predicate>|\nError: .*violated by the initial state:', out)[-1]
    return Tlc(module, False, states, distinct, why, last.strip(), out)


# -------------------------------------------------------------------------------------------------------------------- checks

class Run:
    def __init__(self, prop):
        self.prop     = prop
        self.check    = CHECKS[prop]
        self.tier     = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed     = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.work     = os.path.join(VERIF, 'out', prop)
        self.start    = time.time()
        self.states   = 0
        self.trans    = 0
        self.traces   = 0
        self.models   = []
        self.kinds    = {}
        self.samples  = []
        self.gen      = {}
        self.violations = 0
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)

    def tiered(self, v):
        return v[self.tier] if isinstance(v, dict) and set(v) == {'quick', 'thorough'} else v

    def count(self, r):
        self.states += r.distinct
        self.trans  += r.states

    def evidence(self):
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
                'samples': self.samples or ['none'],
                'design_models': self.models, 'records_by_kind': self.kinds, 'cases_generated_by_tlc': self.gen,
                'explanation': self.check['covers'],
            },
            'assumptions': self.check.get('assumes', []),
            'wall_s': round(time.time() - self.start, 2),
            'violations': self.violations,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)

    # -- the design

    def design(self):
        for m in self.check.get('models', []):
            if self.tiered(m.get('tiers', ['quick', 'thorough'])) and self.tier not in m.get('tiers', ['quick', 'thorough']):
                continue
            r = tlc(m['module'], self.work, self.tiered(m.get('consts')))
            if not r.ok:
                raise ToolError('the specification %s is wrong: %s\n%s' % (m['module'], r.why, r.output[-3000:]))
            self.count(r)
            self.models.append({'module': m['module'], 'constants': self.tiered(m.get('consts')) or {}, 'states': r.distinct, 'transitions': r.states})

    # -- cases

    def cases(self, exe):
        res = []
        rnd = random.Random('%s/%d' % (self.prop, self.seed))
        for g in self.check.get('generators', []):
            out = os.path.join(self.work, g['module'] + '.ndjson')
            r   = tlc(g['module'], self.work, self.tiered(g.get('consts')), env={'OUT': out}, workers=g.get('workers', 8))
            if not r.ok:
                raise ToolError('generator %s: %s' % (g['module'], r.why))
            if os.path.exists(out):
                lines = [json.loads(l) for l in open(out)]
            else:
                # Behaviours are printed as TLC comes across them: quoted JSON after a marker
                lines = []
                for l in r.output.splitlines():
                    if l.startswith('"@@'):
                        lines.append(json.loads(json.loads(l)[2:]))
                lines.sort(key=lambda x: json.dumps(x))
            if not lines:
                raise ToolError('generator %s made nothing' % g['module'])
            self.count(r)
            made = len(lines)
            cap  = self.tiered(g.get('sample'))
            if cap and made > cap:
                lines = rnd.sample(lines, cap)
            wrapped = [c for l in lines for c in WRAP[g['wrap']](l, rnd)]
            self.gen[g['module']] = {'behaviours': made, 'used': len(wrapped)}
            res += wrapped
        mine = os.path.join(self.work, 'gen.ndjson')
        p = run_harness([exe, 'gen', self.prop, self.tier, str(self.seed), mine])
        if p.returncode != 0:
            raise ToolError('harness gen failed: ' + p.stderr[-2000:])
        res += [json.loads(l) for l in open(mine)]
        return res

    def validate(self, records):
        """Every record must be a behaviour of the specification"""
        by_spec = {}
        for r in records:
            by_spec.setdefault(self.check['traces'][r['kind']], []).append(r)
        for spec in sorted(by_spec):
            rs = by_spec[spec]
            for batch, lines in batches(rs):
                path  = os.path.join(self.work, spec + '.trace.ndjson')
                with open(path, 'w') as f:
                    f.writelines(lines)
                res = tlc(spec, self.work, env={'TRACE': path, 'PROP': self.prop})
                self.count(res)
                if not res.ok:
                    m = re.search(r'/\\ c = (\d+)', res.last or '')
                    if not m:
                        raise ToolError('no case in the counterexample of %s:\n%s' % (spec, res.output[-3000:]))
                    raise Violation(batch[int(m.group(1)) - 1], '%s: %s' % (spec, res.why), res.last)
                self.traces += len(batch)
        for r in records:
            k = r['kind']
            self.kinds[k] = self.kinds.get(k, 0) + 1

    def sample(self, records):
        seen = {}
        for r in records:
            s = json.dumps(r)
            if seen.get(r['kind'], 0) < 2 and len(s) < 1500:
                seen[r['kind']] = seen.get(r['kind'], 0) + 1
                self.samples.append(r)

    def report(self, v):
        self.violations += 1
        out = os.path.join(VERIF, 'out')
        n = 1
        while os.path.exists(os.path.join(out, 'violation-%s-%d.json' % (self.prop, n))):
            n += 1
        path = os.path.join(out, 'violation-%s-%d.json' % (self.prop, n))
        json.dump({'property': self.prop, 'why': v.why, 'case': v.case, 'spec_state': v.spec}, open(path, 'w'), indent=1)
        print('%s' % v.why)
        print('case: %s' % json.dumps(v.case)[:3000])
        if v.spec:
            print('state of the specification:\n%s' % v.spec[:3000])
        print('VIOLATION property=%s replay=%s' % (self.prop, path))

    def run(self):
        exe = build()
        try:
            cases   = self.cases(exe)
            path    = os.path.join(self.work, 'cases.ndjson')
            with open(path, 'w') as f:
                for c in cases:
                    f.write(json.dumps(c) + '\n')
            records = execute(exe, path, os.path.join(self.work, 'records.ndjson'), cases)
            self.validate(records)
            self.sample(records)
            self.design()
        except Violation as v:
            self.report(v)
            self.evidence()
            return 1
        self.evidence()
        print('property %s held: %d records of the real code validated, %d states, %d transitions, %.1f s'
              % (self.prop, self.traces, self.states, self.trans, time.time() - self.start))
        shutil.rmtree(self.work, ignore_errors=True)
        return 0


def replay(path):
    data = json.load(open(path))
    run  = Run(data['property'])
    case = {k: v for k, v in data['case'].items() if k != 'obs'}
    exe  = build()
    try:
        f = os.path.join(run.work, 'cases.ndjson')
        open(f, 'w').write(json.dumps(case) + '\n')
        run.validate(execute(exe, f, os.path.join(run.work, 'records.ndjson'), [case]))
    except Violation as v:
        run.report(v)
        return 1
    print('property %s holds for this case' % run.prop)
    return 0


def main():
    try:
        if sys.argv[1] == '--build':
            build()
            return 0
        if sys.argv[1] == '--replay':
            return replay(sys.argv[2])
        return Run(sys.argv[1]).run()
    except ToolError as e:
        print('check failed: %s' % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print('check failed: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())

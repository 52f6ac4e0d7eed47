"""Case context, monitors' bookkeeping and the worker / parent processes.

A check module (gm/checks/cNN.py) defines

    PROPERTY   'C01'
    RULE       how cases are made and what makes one non-trivial
    SCENARIOS  [Scenario(name, fn, quick=N, thorough=M, need={...})]
    VARIANTS   optional list of environment dicts, one per worker group

fn(ctx) executes ONE case against the real code and reports what its monitor
saw through ctx.  Verdicts are three-valued: violated, held on what was
observed, or inconclusive (a scenario never reached its deciding events).
"""
import collections
import hashlib
import importlib
import json
import logging
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv-pypy/bin/python'
MAX_VIOLATIONS = 20
# half of the workers live west of Greenwich, half east
ZONES = ('XST-5:30', 'YST8', 'CET-1CEST,M3.5.0,M10.5.0/3')

SURROUNDINGS = ('PYTHONHASHSEED', 'PYTHONOPTIMIZE', 'GM_LOG')


class Violation(Exception):
    def __init__(self, text, mechanism=None, witness=None):
        super().__init__(text)
        self.text = text
        self.mechanism = mechanism or 'unclassified'
        self.witness = witness


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class CaseHang(BaseException):
    pass


class Scenario:
    def __init__(self, name, fn, quick, thorough, need=None, max_s=60):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        # event name -> minimal number of observations over the whole run
        self.need = need or {}
        self.max_s = max_s


def short(value, limit=600):
    text = value if isinstance(value, str) else repr(value)
    if len(text) > limit:
        text = text[:limit] + '...<%d chars>' % len(text)
    return text


class Ctx:
    """Handed to every case."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.events = collections.Counter()
        self.distinct_keys = set()
        self.samples = []
        self.violations = []
        self.evaluations = 0
        self.scenario = None
        self.index = None
        self.rng = random.Random(0)
        self.longest = 0.0
        self.cache = {}      # per-worker scratch for checks

    def begin(self, scenario, index):
        self.scenario, self.index = scenario, index
        self.rng = random.Random(
            '%s/%s/%s/%s' % (self.seed, self.prop, scenario, index))
        self.evaluations += 1

    # --- what a monitor reports ---------------------------------------
    def event(self, name, n=1):
        self.events[self.scenario + '.' + name] += n

    def distinct(self, *key):
        h = hashlib.blake2b(repr((self.scenario,) + key).encode(
            'utf-8', 'backslashreplace'), digest_size=8).hexdigest()
        self.distinct_keys.add(h)

    def sample(self, value):
        mine = [s for s in self.samples if s['scenario'] == self.scenario]
        if len(mine) < 2 and len(self.samples) < 40:
            self.samples.append({'scenario': self.scenario,
                                 'index': self.index,
                                 'case': short(value)})

    def fail(self, text, mechanism=None, **witness):
        raise Violation(text, mechanism, witness)

    def check(self, cond, text, mechanism=None, **witness):
        self.event('oracle')
        if not cond:
            raise Violation(text, mechanism, witness)

    def eq(self, got, want, text, mechanism=None, **witness):
        self.event('oracle')
        if not (got == want):
            witness['got'] = short(got)
            witness['want'] = short(want)
            raise Violation(text, mechanism, witness)

    def raises(self, classes, fn, text, mechanism=None, **witness):
        """fn() has to raise one of classes; returns the exception."""
        self.event('oracle')
        try:
            result = fn()
        except classes as e:
            return e
        except Exception as e:
            witness['raised'] = short(repr(e))
            raise Violation(text + ': raised %s' % type(e).__name__,
                            mechanism, witness) from e
        witness['returned'] = short(repr_safe(result))
        raise Violation(text + ': nothing raised', mechanism, witness)

    # --- running one case ----------------------------------------------
    def run_case(self, scenario, index):
        self.begin(scenario.name, index)

        def on_alarm(*_):
            raise CaseTimeout()

        def on_cpu(*_):
            raise CaseHang()
        # Using this much CPU time where others need milliseconds is a
        # verdict; a slow machine is none.
        signal.signal(signal.SIGALRM, on_alarm)
        signal.signal(signal.SIGPROF, on_cpu)
        signal.alarm(5 * scenario.max_s)
        signal.setitimer(signal.ITIMER_PROF, scenario.max_s)
        cpu = time.process_time()
        try:
            scenario.fn(self)
        except Violation as v:
            self.record(v.text, v.mechanism, v.witness)
        except Inconclusive:
            self.event('inconclusive')
        except CaseTimeout:
            self.event('timeout')
        except CaseHang:
            self.record('no result after %d s of CPU time' % scenario.max_s,
                        'hang', {'traceback':
                                 traceback.format_exc()[-3000:]})
        except Exception as e:
            self.record(
                'unexpected %s out of the code under test: %s' % (
                    type(e).__name__, short(str(e), 300)),
                'exception:' + type(e).__name__,
                {'traceback': traceback.format_exc()[-3000:]})
        finally:
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 0)
        self.longest = max(self.longest, time.process_time() - cpu)
        self.event('cases')

    def record(self, text, mechanism, witness):
        self.event('violations')
        if len(self.violations) < 200:
            self.violations.append({
                'property': self.prop, 'scenario': self.scenario,
                'index': self.index, 'seed': self.seed, 'tier': self.tier,
                'text': short(text, 1500), 'mechanism': mechanism,
                'variant': os.environ.get('GM_VERSION'),
                'zone': os.environ.get('TZ'),
                'surroundings': {
                    k: os.environ[k] for k in SURROUNDINGS
                    if k in os.environ},
                'witness': {k: short(v, 3000) if not isinstance(
                    v, (int, bool, type(None))) else v
                    for k, v in (witness or {}).items()},
            })


def repr_safe(value):
    try:
        return repr(value)
    except Exception as e:
        return '<unreprable %s: %s>' % (type(value).__name__, e)


def load_check(prop):
    return importlib.import_module('gm.checks.' + prop.lower())


# --- worker ---------------------------------------------------------------

def worker(argv):
    prop, tier, seed, part, parts, deadline, out = argv
    part, parts, seed = int(part), int(parts), int(seed)
    deadline = float(deadline)
    sys.path.insert(0, os.path.join(VERIF, 'compat'))
    import bootstrap  # noqa: F401
    start_logs()
    mod = load_check(prop)
    ctx = Ctx(prop, tier, seed)
    t0 = time.time()
    cut = {}
    ends = {}
    # round robin over scenarios so that a deadline starves none of them
    todo = []
    for sc in mod.SCENARIOS:
        n = sc.quick if tier == 'quick' else sc.thorough
        todo.append([sc, part, n])
    live = True
    while live:
        live = False
        for item in todo:
            sc, i, n = item
            for _ in range(8):
                if i >= n:
                    break
                if time.time() - t0 > deadline:
                    cut[sc.name] = [i, n]
                    i = n
                    break
                if ctx.events[sc.name + '.violations'] >= 5:
                    i = n
                    break
                ctx.run_case(sc, i)
                i += parts
            item[1] = i
            ends[sc.name] = i
            if i < n:
                live = True
    with open(out, 'w') as f:
        json.dump({
            'events': ctx.events, 'distinct': sorted(ctx.distinct_keys),
            'samples': ctx.samples, 'violations': ctx.violations,
            'evaluations': ctx.evaluations, 'cut': cut,
            'longest': ctx.longest,
            'wall': time.time() - t0,
        }, f)


# --- parent ---------------------------------------------------------------

def surroundings(w):
    """What differs between the processes of real nodes and must not matter:
    the seed of hashes, assertions compiled or not, debugging logs written
    or not."""
    env = {'PYTHONHASHSEED': str(w)}
    if w % 4 == 2:
        env['PYTHONOPTIMIZE'] = '1'
    if w % 4 == 3:
        env['GM_LOG'] = '1'
    return env


def start_logs():
    if os.environ.get('GM_LOG') == '1':
        class Sink:
            def write(self, text):
                pass

            def flush(self):
                pass

        logging.raiseExceptions = False
        logging.basicConfig(level=logging.DEBUG, stream=Sink())

def child_env(extra=None):
    env = dict(os.environ)
    env.pop('GM_VERSION', None)
    env.pop('PYTHONOPTIMIZE', None)
    env.pop('GM_LOG', None)
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    # never read stale byte code from /repo, never write any into it
    env['PYTHONPYCACHEPREFIX'] = '/nonexistent-pycache'
    env['PYTHONPATH'] = VERIF
    env['TZ'] = 'UTC'
    env.update(extra or {})
    return env


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['mechanism']: e for e in data.get('findings', [])
            if e['property'] == prop}


def run(prop, tier=None, seed=None, only=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, VERIF)
    meta = subprocess.run(
        [PYTHON, '-B', '-m', 'gm.run', '--meta', prop], cwd=VERIF,
        env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if meta.returncode != 0:
        sys.stderr.write(meta.stderr.decode('utf-8', 'replace')[-4000:])
        print('INCONCLUSIVE property=%s the code under test or the check '
              'could not be imported' % prop)
        return 2
    meta = json.loads(meta.stdout.decode().strip().splitlines()[-1])
    variants = meta['variants']
    nworkers = int(os.environ.get('GM_WORKERS', '8'))
    nworkers = max(nworkers, len(variants))
    nworkers = (nworkers // len(variants)) * len(variants)
    groups = nworkers // len(variants)
    deadline = 330 if tier == 'quick' else 700
    import tempfile
    scratch = tempfile.mkdtemp(prefix='gm-%s-' % prop)
    procs = []
    try:
        for w in range(nworkers):
            variant = variants[w % len(variants)]
            out = os.path.join(scratch, 'w%d.json' % w)
            err = open(os.path.join(scratch, 'w%d.err' % w), 'wb')
            # each variant sees the complete case list, split in `groups`
            procs.append((w, out, err.name, subprocess.Popen(
                [PYTHON, '-B', '-m', 'gm.run', '--worker', prop, tier,
                 str(seed), str(w // len(variants)), str(groups),
                 str(deadline), out],
                cwd=VERIF, env=child_env(dict(
                    {'TZ': ZONES[(w // len(variants)) % len(ZONES)]},
                    **surroundings(w), **variant)),
                stdout=err, stderr=err)))
            err.close()
        merged = {'events': collections.Counter(), 'distinct': set(),
                  'samples': [], 'violations': [], 'evaluations': 0,
                  'cut': {}, 'longest': 0}
        problems = []
        for w, out, err, proc in procs:
            limit = deadline + 120 - (time.time() - t0)
            try:
                proc.wait(timeout=max(5, limit))
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
                problems.append('worker %d hung' % w)
                continue
            if proc.returncode != 0 or not os.path.exists(out):
                with open(err, 'rb') as f:
                    tail = f.read().decode('utf-8', 'replace')[-1500:]
                problems.append('worker %d died (%s): %s' % (
                    w, proc.returncode, tail))
                continue
            with open(out) as f:
                part = json.load(f)
            merged['events'].update(part['events'])
            merged['distinct'].update(part['distinct'])
            merged['violations'] += part['violations']
            merged['evaluations'] += part['evaluations']
            merged['cut'].update(part['cut'])
            merged['longest'] = max(merged['longest'], part['longest'])
            for s in part['samples']:
                if sum(1 for x in merged['samples']
                       if x['scenario'] == s['scenario']) < 2:
                    merged['samples'].append(s)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    return conclude(prop, tier, seed, meta, merged, problems, t0)


def conclude(prop, tier, seed, meta, merged, problems, t0):
    known = known_findings(prop)
    fresh = [v for v in merged['violations'] if v['mechanism'] not in known]
    seen_known = sorted({v['mechanism'] for v in merged['violations']
                         if v['mechanism'] in known})
    for key in sorted(known):
        print('KNOWN-FINDING: property=%s %s%s' % (
            prop, known[key]['what'],
            '' if key in seen_known else ' (not met in this run)'))
    unmet = []
    for name, need in meta['need'].items():
        for ev, least in need.items():
            got = merged['events'].get(name + '.' + ev, 0)
            if got < least:
                unmet.append('%s.%s: %d < %d' % (name, ev, got, least))
    total_timeouts = sum(v for k, v in merged['events'].items()
                         if k.endswith('.timeout'))
    coverage = {
        'evaluations': merged['evaluations'],
        'distinct_nontrivial': len(merged['distinct']),
        'rule': meta['rule'],
        'samples': merged['samples'][:30] or ['none'],
        'exhaustive': False,
        'events': dict(sorted(merged['events'].items())),
        'case_lists_cut_by_deadline': merged['cut'],
        'case_timeouts': total_timeouts,
        'longest_case_cpu_s': round(merged['longest'], 2),
        'known_findings_met': seen_known,
        'problems': problems,
        'unmet_minimum_observations': unmet,
    }
    replay_path = ''
    if fresh:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, '%s-%s-%d.json' % (prop, tier, seed))
        with open(replay_path, 'w') as f:
            json.dump(fresh[:MAX_VIOLATIONS], f, indent=1)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': coverage, 'assumptions': meta['assumptions'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    if fresh:
        for v in fresh[:5]:
            print('  %s[%d] %s: %s' % (v['scenario'], v['index'],
                                       v['mechanism'], v['text']))
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        return 1
    if problems or unmet:
        print('INCONCLUSIVE property=%s %s' % (prop, short(
            '; '.join(problems + unmet), 3000)))
        return 2
    print('HELD property=%s on %d cases, %d distinct non-trivial, '
          '%d oracle decisions, %.1fs' % (
              prop, merged['evaluations'], len(merged['distinct']),
              sum(v for k, v in merged['events'].items()
                  if k.endswith('.oracle')), time.time() - t0))
    return 0


def print_meta(prop):
    sys.path.insert(0, os.path.join(VERIF, 'compat'))
    import bootstrap  # noqa: F401
    mod = load_check(prop)
    print(json.dumps({
        'variants': getattr(mod, 'VARIANTS', [{}]),
        'rule': mod.RULE,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + BASE_ASSUMPTIONS,
        'need': {s.name: s.need for s in mod.SCENARIOS},
    }))


BASE_ASSUMPTIONS = [
    'PyPy 3.9; third-party pins of the sandbox (cbor 1.0.0, coincurve, '
    'eth_account, semantic_version); pyelliptic is a stand-in doing real '
    'AES-128-CTR / HMAC-SHA256 / secp256k1 (/verif/compat/pyelliptic)',
    'held means: held on the executions counted here, nothing more',
]


def replay(prop, path):
    """Re-executes the recorded cases; prints what happens."""
    with open(path) as f:
        cases = json.load(f)
    rc = 0
    for c in cases:
        env = child_env({'GM_VERSION': c['variant']} if c.get('variant')
                        else None)
        env['TZ'] = c.get('zone') or 'UTC'
        env.update(c.get('surroundings') or {})
        p = subprocess.run(
            [PYTHON, '-B', '-m', 'gm.run', '--case', prop, c['tier'],
             str(c['seed']), c['scenario'], str(c['index'])],
            cwd=VERIF, env=env)
        rc = rc or p.returncode
    return rc


def one_case(argv):
    prop, tier, seed, scenario, index = argv
    sys.path.insert(0, os.path.join(VERIF, 'compat'))
    import bootstrap  # noqa: F401
    start_logs()
    mod = load_check(prop)
    ctx = Ctx(prop, tier, int(seed))
    for sc in mod.SCENARIOS:
        if sc.name == scenario:
            ctx.run_case(sc, int(index))
    for v in ctx.violations:
        print(json.dumps(v, indent=1))
    print(dict(ctx.events))
    return 1 if ctx.violations else 0


def selftest():
    """The monitors' own references against published vectors, the code under
    test imported from where it should be, and a list of checks."""
    sys.path.insert(0, os.path.join(VERIF, 'compat'))
    import bootstrap  # noqa: F401
    import golem_messages
    from gm import ref, spec
    root = os.environ.get('GM_REPO', '/repo')
    assert golem_messages.__file__.startswith(root), golem_messages.__file__
    assert ref.keccak(b'').hex() == (
        'c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470')
    assert ref.pub(b'\0' * 31 + b'\1').hex().startswith('79be667ef9dcbbac')
    assert ref.address(ref.pub(b'\0' * 31 + b'\1')) == (
        '0x7E5F4552091A69125d5DfCb7b8C2659029395Bdf')
    # RFC 8949, appendix A
    for value, text in ((1000000, '1a000f4240'), (-1000, '3903e7'),
                        ([1, [2, 3], [4, 5]], '8301820203820405'),
                        ({'a': 1, 'b': [2, 3]}, 'a26161016162820203'),
                        (b'\1\2\3\4', '4401020304'), ('IETF', '6449455446'),
                        (18446744073709551616, 'c249010000000000000000')):
        assert ref.cbor_enc(value).hex() == text, (value, text)
        assert ref.cbor_dec(bytes.fromhex(text)) == value
    names = sorted(n[:-3] for n in os.listdir(
        os.path.join(VERIF, 'gm', 'checks')) if n.startswith('c'))
    for name in names:
        load_check(name)
    print('%d checks, %d kinds of messages' % (len(names), len(spec.TYPES)))
    return 0

"""Generated-case engine.

A check is a module `vf.props.cXX` with

    PROPERTY    id
    LEVEL       evidence level
    RULE        text: how cases are made, what makes one non-trivial
    QUICK / THOROUGH   number of generated cases (over all shards)
    strategy(tier)     Hypothesis strategy that yields a JSON-able case
    run_case(case, rec)  decides one case: raises Violation, or returns;
                        `rec.label(..)`, `rec.nontrivial()` describe the case
    ASSUMPTIONS (optional) list of texts

All randomness lives in the Hypothesis strategy; `run_case` is a pure function
of the case, so that a stored case replays without Hypothesis.
"""
import contextlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

CASE_ALARM_S = 30  # then the case is decided by counting executed lines
LINE_LIMIT = 5_000_000  # lines of fides executed in one single case
SHARD_BUDGET_S = {'quick': 500, 'thorough': 3300}
SHRINK_BUDGET_S = float(os.environ.get('VF_SHRINK', '45'))


class Violation(Exception):
    """The property does not hold for this case."""


class CaseTimeout(BaseException):
    pass


class NonTermination(BaseException):
    pass


class Reject(Exception):
    """The case is outside of the domain of the property."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def in_fides(tb):
    """True if the traceback passes through code of the repository

    (and does not end in code of the harness, which is called by it)
    """
    root = os.path.join(REPO, 'fides') + os.sep
    last = tb
    while last is not None and last.tb_next is not None:
        last = last.tb_next
    if last is not None and last.tb_frame.f_code.co_filename.startswith(
        os.path.join(HERE, 'vf') + os.sep
    ):
        return False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def call(what, fun, *args, **kwargs):
    """Calls into fides with in-domain arguments: must not raise"""
    try:
        return fun(*args, **kwargs)
    except (Violation, Reject):
        raise
    except Exception as e:
        if not in_fides(e.__traceback__):
            raise
        last = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(
            f'{what} raised {type(e).__name__}: {str(e)[:200]} '
            f'({os.path.basename(last.filename)}:{last.name})'
        ) from e


class Recorder:
    def __init__(self):
        self.labels = Counter()
        self.cases = 0
        self.nontrivial_hashes = set()
        self.samples = []
        self.rejected = 0
        self.known = Counter()
        self._cur = None

    def start(self, case):
        self._cur = case
        self._nt = False
        self._lab = set()

    def label(self, *names):
        self._lab.update(str(n) for n in names)

    def nontrivial(self, flag=True):
        self._nt = self._nt or bool(flag)

    def finish(self):
        self.cases += 1
        self.labels.update(self._lab)
        if self._nt:
            key = json.dumps(self._cur, sort_keys=True)
            h = hash(key)
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                if len(self.samples) < 2:
                    self.samples.append(
                        {'case': self._cur, 'labels': sorted(self._lab)}
                    )


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == prop:
                    out.append(d)
    return out


# --------------------------------------------------------------------------
# running one case
# --------------------------------------------------------------------------


@contextlib.contextmanager
def alarm(seconds):
    def handler(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def line_limit(limit):
    """Deterministic non-termination criterion: executed lines of fides"""
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    root = os.path.join(REPO, 'fides') + os.sep
    count = [0]

    def on_line(code, line):
        if not code.co_filename.startswith(root):
            return mon.DISABLE
        count[0] += 1
        if count[0] > limit:
            raise NonTermination()

    mon.use_tool_id(tool, 'vf')
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    try:
        yield count
    finally:
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


def run_one(mod, case, rec):
    """Returns None, or raises Violation / NonTermination"""
    import numpy as np

    rec.start(case)
    try:
        with np.errstate(all='ignore'), alarm(CASE_ALARM_S):
            mod.run_case(case, rec)
    except Reject:
        rec.rejected += 1
        return
    except CaseTimeout:
        # wall-clock time decides nothing: decide by counting lines
        try:
            with (
                np.errstate(all='ignore'),
                line_limit(LINE_LIMIT),
                alarm(400),
            ):
                mod.run_case(case, rec)
        except Reject:
            rec.rejected += 1
            return
        except CaseTimeout:
            rec.label('inconclusive:timeout')
    rec.finish()


def load(prop):
    sys.path.insert(0, REPO)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    import warnings

    warnings.simplefilter('ignore')
    import fides

    assert os.path.abspath(fides.__file__).startswith(
        os.path.abspath(REPO) + os.sep
    ), fides.__file__
    import logging

    logging.disable(logging.NOTSET)
    return importlib.import_module(f'vf.props.{prop.lower()}')


# --------------------------------------------------------------------------
# a shard: one process, one Hypothesis run
# --------------------------------------------------------------------------


def shard_main(prop, shard, nshards, out):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    os.chdir(tempfile.mkdtemp(prefix='vf_shard_', dir=os.path.dirname(out)))
    mod = load(prop)
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    total = mod.THOROUGH if tier == 'thorough' else mod.QUICK
    total = max(1, int(total * float(os.environ.get('VF_SCALE', '1'))))
    n = -(-total // nshards)
    rec = Recorder()
    state = {'best': None, 't_fail': None, 'stopped': None}

    def dump(error=None):
        res = {
            'cases': rec.cases,
            'nontrivial': sorted(rec.nontrivial_hashes),
            'labels': dict(rec.labels),
            'samples': rec.samples,
            'rejected': rec.rejected,
            'known': dict(rec.known),
            'failure': state['best'],
            'stopped': state['stopped'],
            'error': error,
            'wall': time.time() - t0,
        }
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f)
        os.replace(out + '.tmp', out)

    def leave():
        dump()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)

    def fail(case, msg):
        size = len(json.dumps(case))
        if state['best'] is None or size <= state['best']['size']:
            state['best'] = {'case': case, 'message': msg, 'size': size}
        if state['t_fail'] is None:
            state['t_fail'] = time.time()

    def body(case):
        now = time.time()
        if state['t_fail'] is not None:
            if now - state['t_fail'] > SHRINK_BUDGET_S:
                leave()
        elif now - t0 > SHARD_BUDGET_S[tier]:
            state['stopped'] = 'time budget'
            leave()
        try:
            run_one(mod, case, rec)
        except NonTermination:
            fail(case, 'does not terminate (executed lines exceed the limit)')
            leave()
        except Violation as e:
            fail(case, str(e))
            raise

    test = hypothesis.given(mod.strategy(tier))(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed * 1009 + shard)(test)
    try:
        test()
    except Violation:
        pass
    except BaseException:
        if state['best'] is None:
            dump(error=traceback.format_exc())
            return 2
    dump()
    return 0


# --------------------------------------------------------------------------
# the parent
# --------------------------------------------------------------------------


def merge(results):
    m = {
        'cases': 0,
        'nontrivial': set(),
        'labels': Counter(),
        'samples': [],
        'rejected': 0,
        'known': Counter(),
        'failures': [],
        'stopped': 0,
    }
    for r in results:
        m['cases'] += r['cases']
        m['nontrivial'].update(r['nontrivial'])
        m['labels'].update(r['labels'])
        m['rejected'] += r['rejected']
        m['known'].update(r['known'])
        if len(m['samples']) < 6:
            m['samples'].extend(
                [q for q in r['samples'] if q not in m['samples']][:1]
            )
        if r['failure']:
            m['failures'].append(r['failure'])
        m['stopped'] += bool(r['stopped'])
    return m


def write_evidence(mod, prop, tier, seed, m, violations, wall):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': m['cases'],
            'distinct_nontrivial': len(m['nontrivial']),
            'rule': mod.RULE,
            'samples': m['samples'],
            'classes': {
                k: v for k, v in sorted(m['labels'].items(), key=lambda t: t[0])
            },
            'rejected_out_of_domain': m['rejected'],
            'shards_stopped_by_time_budget': m['stopped'],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    path = os.path.join(HERE, 'evidence', f'{prop}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)


def check_main(prop):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    nshards = int(os.environ.get('VF_SHARDS', '8'))
    work = tempfile.mkdtemp(prefix=f'vf_{prop}_')
    try:
        procs = []
        for k in range(nshards):
            out = os.path.join(work, f'shard{k}.json')
            log = open(os.path.join(work, f'shard{k}.log'), 'w')
            procs.append(
                (
                    out,
                    log.name,
                    subprocess.Popen(
                        [
                            sys.executable,
                            os.path.join(HERE, 'run.py'),
                            prop,
                            '--shard',
                            str(k),
                            str(nshards),
                            out,
                        ],
                        stdout=log,
                        stderr=log,
                    ),
                )
            )
        results = []
        errors = []
        for out, log, p in procs:
            p.wait()
            if os.path.exists(out):
                r = json.load(open(out))
                if r['error']:
                    errors.append(r['error'])
                results.append(r)
            else:
                errors.append(open(log).read()[-4000:])
        m = merge(results)
        mod = load(prop)
        violations = len(m['failures'])
        write_evidence(mod, prop, tier, seed, m, violations, time.time() - t0)
        for kf in known_findings(prop):
            print(f'KNOWN-FINDING: property={prop} {kf["what"]}')
        if m['failures']:
            best = min(m['failures'], key=lambda f: f['size'])
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            path = os.path.join(HERE, 'replays', f'{prop}-seed{seed}.json')
            with open(path, 'w') as f:
                json.dump(
                    {
                        'property': prop,
                        'seed': seed,
                        'tier': tier,
                        'message': best['message'],
                        'case': best['case'],
                        'replay': f'python run.py {prop} --replay {path}',
                    },
                    f,
                    indent=1,
                )
            print(f'{prop}: {best["message"]}')
            print(f'case: {json.dumps(best["case"])[:1500]}')
            print(f'VIOLATION property={prop} replay={path}')
            return 1
        if errors:
            print(f'{prop}: the check itself failed:\n{errors[0]}')
            return 2
        print(
            f'{prop}: held for {m["cases"]} cases '
            f'({len(m["nontrivial"])} distinct non-trivial, '
            f'{m["rejected"]} rejected) in {time.time() - t0:.1f} s, '
            f'tier {tier}, seed {seed}'
        )
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay_main(prop, path):
    mod = load(prop)
    d = json.load(open(path))
    rec = Recorder()
    work = tempfile.mkdtemp(prefix='vf_replay_')
    os.chdir(work)
    try:
        run_one(mod, d['case'], rec)
    except Violation as e:
        print(f'{prop}: {e}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    except NonTermination:
        print(f'{prop}: does not terminate')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    finally:
        os.chdir('/')
        shutil.rmtree(work, ignore_errors=True)
    print(f'{prop}: the stored case passes')
    return 0


def main(argv):
    if argv and argv[0] == '--all':
        man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        rc = 0
        for c in man['checks']:
            p = subprocess.run(
                [sys.executable, os.path.join(HERE, 'run.py'), c['property']]
            )
            rc = max(rc, p.returncode)
        return rc
    if argv and argv[0] == '--selftest':
        # offline: everything that the checks need is importable
        man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in man['checks']:
            mod = load(c['property'])
            assert mod.PROPERTY == c['property']
        import hypothesis

        print(
            f'{len(man["checks"])} checks, hypothesis {hypothesis.__version__}'
        )
        return 0
    prop = argv[0]
    if len(argv) > 1 and argv[1] == '--shard':
        return shard_main(prop, int(argv[2]), int(argv[3]), argv[4])
    if len(argv) > 1 and argv[1] == '--replay':
        return replay_main(prop, argv[2])
    return check_main(prop)

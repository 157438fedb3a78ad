"""Core of the checks: sub-checks, workers, evidence, replays, findings."""
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SDVERIF_REPO', '/repo')
SCRATCH = os.environ['SDVERIF_SCRATCH']
SHRINK_S = 45.0
JOBS = 8


class Violation(Exception):
    """The property does not hold for this case."""


class KnownFinding(Exception):
    """The case shows exactly a listed known finding (key, text)."""

    def __init__(self, key, text):
        super().__init__(text)
        self.key = key


class Hang(BaseException):
    """The code under test did not come back; not worth shrinking."""


CASE_S = 300


def arm(seconds):
    """Allow the code under test this long for the running case."""
    def late(signum, frame):
        f = frame
        while f is not None:
            if os.path.abspath(f.f_code.co_filename).startswith(REPO + os.sep):
                raise Hang('no answer within %d s' % seconds)
            f = f.f_back
        signal.setitimer(signal.ITIMER_REAL, 30)
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)


class Capped(KeyboardInterrupt):
    """Enough time spent shrinking; the last failing case is kept."""


class Sub:
    """One sub-check: strategy -> case (JSON dict), oracle(case)."""

    def __init__(self, name, strategy, oracle, quick, thorough=None, shards=4,
                 init=None, classify=None, examples=(), max_shards_thorough=8):
        self.name, self.strategy, self.oracle = name, strategy, oracle
        self.quick = quick
        self.thorough = thorough if thorough is not None else 8 * quick
        self.shards = shards
        self.init = init
        self.classify = classify or (lambda c: (True, []))
        self.examples = list(examples)
        self.max_shards_thorough = max_shards_thorough


def fail(msg):
    raise Violation(msg)


def canon(case):
    return json.dumps(case, sort_keys=True)


def in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(os.path.abspath(REPO) + os.sep):
            return True
    return False


def call_oracle(sub, case):
    """Run the oracle; code-under-test exceptions become violations."""
    try:
        sub.oracle(case)
    except (Violation, KnownFinding):
        raise
    except SystemExit as e:
        if in_repo(e.__traceback__):
            raise Violation('stopped with: %s' % str(e)[:300]) from None
        raise
    except Exception as e:
        if in_repo(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__)
                    if os.path.abspath(f.filename).startswith(REPO)][-1]
            raise Violation('%s: %s (in %s, %s)' % (
                type(e).__name__, str(e)[:300], os.path.basename(last.filename),
                last.name)) from None
        raise


def load_known(prop):
    """Keys of known findings listed for this property."""
    keys = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                assert key.startswith('key=')
                keys[key[4:]] = text
    return keys


def run_job(sub, n, seed, known, out_path, explicit):
    """Worker body: runs in a forked process."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    t0 = time.time()
    res = dict(sub=sub.name, evaluations=0, distinct=set(), nontrivial=set(),
               tags={}, samples=[], violation=None, error=None, known={},
               wall=0.0)
    state = dict(first=None, last=None, msg=None)

    def one(case):
        h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
        if state['first'] and time.time() - state['first'] > SHRINK_S:
            raise Capped
        if not state['first']:
            res['evaluations'] += 1
            nt, tags = sub.classify(case)
            if h not in res['distinct']:
                res['distinct'].add(h)
                for t in tags:
                    res['tags'][t] = res['tags'].get(t, 0) + 1
                if nt:
                    res['nontrivial'].add(h)
                    if len(res['samples']) < 2:
                        res['samples'].append(case)
        try:
            arm(CASE_S)
            call_oracle(sub, case)
        except Hang as e:
            state.update(last=case, last_h=h, msg=str(e))
            raise
        except KnownFinding as k:
            if k.key in known:
                res['known'][k.key] = str(k)
                return
            state.update(first=state['first'] or time.time(), last=case,
                         last_h=h, msg='[unlisted finding %s] %s' % (k.key, k))
            raise Violation(state['msg'])
        except Violation as v:
            state.update(first=state['first'] or time.time(), last=case,
                         last_h=h, msg=str(v))
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    try:
        if sub.init:
            try:
                sub.init()
            except Exception as e:
                if in_repo(e.__traceback__):
                    state['last'] = {'__init__': True}
                    state['msg'] = 'import/initialisation failed: %r' % (e,)
                    raise Violation(state['msg'])
                raise
        for case in explicit:
            one(json.loads(canon(case)))
        if n > 0:
            test = given(sub.strategy)(one)
            test = settings(max_examples=n, database=None, deadline=None,
                            derandomize=False, print_blob=False,
                            phases=(Phase.generate, Phase.shrink),
                            report_multiple_bugs=False,
                            suppress_health_check=list(HealthCheck))(test)
            test = hypothesis.seed(seed)(test)
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                test()
    except Violation:
        pass
    except BaseException:
        if state['last'] is None:
            res['error'] = traceback.format_exc()
    if state['last'] is not None:
        res['violation'] = (state['last'], state['msg'])
    res['wall'] = time.time() - t0
    with open(out_path, 'wb') as f:
        pickle.dump(res, f)


def derive(seed, *parts):
    s = '/'.join([str(seed)] + [str(p) for p in parts])
    return int(hashlib.sha1(s.encode()).hexdigest()[:12], 16)


def quiet_fds():
    """Send the worker's own stdout to a log (code under test prints a lot)."""
    log = os.open(os.path.join(SCRATCH, 'log-%d' % os.getpid()),
                  os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(log, 1)


def run_jobs(jobs, known):
    """jobs: list of (sub, n, seed, explicit). Up to JOBS forked workers."""
    running, results, idx = {}, [], 0
    stop = False
    while (idx < len(jobs) and not stop) or running:
        while idx < len(jobs) and len(running) < JOBS and not stop:
            sub, n, seed, explicit = jobs[idx]
            out = os.path.join(SCRATCH, 'job-%d' % idx)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setsid()
                    quiet_fds()
                    wd = os.path.join(SCRATCH, 'wd-%d' % idx)
                    os.makedirs(os.path.join(wd, 'output'))
                    os.chdir(wd)
                    run_job(sub, n, seed, known, out, explicit)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit(code)
            running[pid] = (out, sub)
            idx += 1
        pid, status = os.wait()
        if pid not in running:
            continue
        out, sub = running.pop(pid)
        if not os.path.exists(out):
            results.append(dict(sub=sub.name, evaluations=0, distinct=set(),
                                nontrivial=set(), tags={}, samples=[],
                                violation=None, known={}, wall=0,
                                error='worker died, status %d' % status))
            stop = True
        else:
            with open(out, 'rb') as f:
                results.append(pickle.load(f))
            os.remove(out)
            if results[-1]['violation'] or results[-1]['error']:
                stop = True
        if stop:
            # a shrunk failure is enough; stop the other workers
            for p in list(running):
                try:
                    os.killpg(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(p, 0)
                running.pop(p)
    return results


def write_replay(prop, subname, case, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(canon(case).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s-%s.json' % (prop, subname, h))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, sub=subname, case=case, message=msg), f,
                  indent=1)
    return path


def replay(check, prop, path, known):
    data = json.load(open(path))
    sub = {s.name: s for s in check.SUBS}[data['sub']]
    wd = os.path.join(SCRATCH, 'wd-replay')
    os.makedirs(os.path.join(wd, 'output'))
    os.chdir(wd)
    saved = os.dup(1)
    quiet_fds()
    msg = kf = None
    try:
        if sub.init:
            sub.init()
        if data['case'] != {'__init__': True}:
            arm(CASE_S)
            call_oracle(sub, data['case'])
    except KnownFinding as k:
        if k.key in known:
            kf = str(k)
        else:
            msg = str(k)
    except (Violation, Hang) as v:
        msg = str(v)
    signal.setitimer(signal.ITIMER_REAL, 0)
    sys.stdout.flush()
    os.dup2(saved, 1)
    if kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf))
    if msg:
        print('replay: ' + msg)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('replay: property %s holds for this case' % prop)
    return 0


def main(a):
    prop = a.property
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    check = importlib.import_module('checks.' + prop.lower())
    known = load_known(prop)
    if a.replay:
        return replay(check, prop, a.replay, known)
    jobs = []
    for sub in check.SUBS:
        if a.sub and sub.name != a.sub:
            continue
        total = int(round((sub.quick if a.tier == 'quick' else sub.thorough)
                          * a.scale))
        shards = sub.shards if a.tier == 'quick' else max(
            sub.shards, sub.max_shards_thorough)
        shards = max(1, min(shards, total or 1))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            jobs.append((sub, n, derive(seed, prop, sub.name, k),
                         sub.examples if k == 0 else []))
    results = run_jobs(jobs, known)
    errors = [r for r in results if r['error']]
    viols = [r for r in results if r['violation']]
    distinct, nontrivial, tags, samples, found = set(), set(), {}, [], {}
    ev = 0
    per = {}
    for r in results:
        ev += r['evaluations']
        distinct |= {r['sub'] + h for h in r['distinct']}
        nontrivial |= {r['sub'] + h for h in r['nontrivial']}
        for t, c in r['tags'].items():
            tags[r['sub'] + ':' + t] = tags.get(r['sub'] + ':' + t, 0) + c
        if len([s for s in samples if s['sub'] == r['sub']]) < 2:
            samples += [dict(sub=r['sub'], case=s) for s in r['samples'][:1]]
        found.update(r['known'])
        p = per.setdefault(r['sub'], dict(evaluations=0, wall_s=0.0))
        p['evaluations'] += r['evaluations']
        p['wall_s'] = round(p['wall_s'] + r['wall'], 2)
    ev_doc = dict(property=prop, tier=a.tier, seed=seed,
                  level=getattr(check, 'LEVEL', 'exploration'),
                  coverage=dict(
                      evaluations=ev, distinct_nontrivial=len(nontrivial),
                      distinct=len(distinct),
                      rule=check.RULE, samples=samples[:12], classes=tags,
                      sub_checks=per),
                  wall_s=round(time.time() - t0, 2),
                  assumptions=getattr(check, 'ASSUMPTIONS', []),
                  violations=0, violation_details=[])
    code = 0
    lines = []
    for k in sorted(found):
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    for r in viols[:1]:
        case, msg = r['violation']
        path = write_replay(prop, r['sub'], case, msg)
        ev_doc['violations'] += 1
        ev_doc['violation_details'].append(
            dict(sub=r['sub'], message=msg, replay=path))
        lines.append('%s/%s: %s' % (prop, r['sub'], msg))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    if not viols and errors:
        code = 2
        for r in errors[:2]:
            lines.append('CHECK ERROR in %s/%s:\n%s' % (prop, r['sub'], r['error']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.sub:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev_doc, f, indent=1)
    if code == 0:
        lines.append('%s held: %d cases (%d distinct, %d non-trivial) in %.1f s'
                     % (prop, ev, len(distinct), len(nontrivial),
                        time.time() - t0))
    print('\n'.join(lines))
    sys.stdout.flush()
    return code

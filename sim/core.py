"""Seeds -> plans -> runs -> verdicts; the search, minimisation, replay and evidence.

A property module provides
    PROP     property id
    RULE     how runs are made and what makes one non-trivial (text for the evidence)
    RUNS     {'quick': n, 'thorough': m}     fixed number of simulated runs
    REAL, STUB  component lists for the evidence
    PROBES   names of rare conditions that should be hit
    gen(rng, tier) -> plan       JSON-able, bytes as latin-1 text
    run(plan) -> Result          pure function of the plan and the code under test
    valid(plan) -> bool          (optional) is a shrunk plan still inside the property's domain
    settle(plan) -> plan         (optional) make random schedules explicit before shrinking
"""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import world
from .stream import Passthru, PlanError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = float(os.environ.get('VERIF_RUN_CPU', '10'))      # CPU seconds one simulated run may burn
STALL = float(os.environ.get('VERIF_STALL', '120'))           # wall seconds without progress: worker is stuck
MEM = 4 << 30


class RunTimeout(Passthru):
    pass


class Violation(Passthru):
    def __init__(self, kind, detail, key=None):
        super().__init__(kind, detail)
        self.kind, self.detail, self.key = kind, detail, key or kind


class Result:
    def __init__(self):
        self.viol = None
        self.faults = {}       # fault kind -> times it actually fired
        self.probes = {}       # rare condition -> hits
        self.simtime = 0       # simulated steps (transport/disk/scheduler events)
        self.nontrivial = False
        self.states = []       # measured states (hashable, JSON-able) this run reached
        self.log = []

    def fault(self, k, n=1):
        if n:
            self.faults[k] = self.faults.get(k, 0) + n

    def probe(self, k, n=1):
        if n:
            self.probes[k] = self.probes.get(k, 0) + n

    def note(self, *a):
        self.log.append(a)

    def fail(self, kind, detail, key=None):
        raise Violation(kind, detail, key)

    def digest(self):
        h = hashlib.sha1(repr((self.log, sorted(self.faults.items()), sorted(self.probes.items()), self.simtime,
                               sorted(map(repr, self.states)),
                               self.viol and (self.viol['kind'], self.viol['detail']))).encode('utf8', 'backslashreplace'))
        return h.hexdigest()


def module(prop):
    return importlib.import_module('sim.props.' + prop.lower())


def rng_for(seed, prop, idx):
    return random.Random('%s:%s:%s' % (seed, prop, idx))


def plan_digest(plan):
    return hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ one run
_scratch_base = None


def scratch_base():
    global _scratch_base
    if _scratch_base is None or not os.path.isdir(_scratch_base):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch_base = tempfile.mkdtemp(prefix='ombott-sim-', dir=base)
    return _scratch_base


def drop_scratch():
    global _scratch_base
    if _scratch_base:
        shutil.rmtree(_scratch_base, ignore_errors=True)
        _scratch_base = None


def _on_alarm(sig, frame):
    raise RunTimeout()


class Clock:
    """The wall clock of a run: it stands still unless the plan moves it."""
    T0 = 1700000000.0
    now = T0


_real_time = time.time


def execute(mod, plan, cpu=None):
    """Run one plan. Returns Result; harness errors propagate."""
    r = Result()
    Clock.now = Clock.T0
    time.time = lambda: Clock.now
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu or CPU_LIMIT)
    try:
        mod.run(plan, r)
    except Violation as v:
        r.viol = dict(kind=v.kind, detail=str(v.detail)[:4000], key=v.key)
    except RunTimeout:
        r.viol = dict(kind='hang', key='hang',
                      detail='the run did not finish within %s CPU seconds' % (cpu or CPU_LIMIT))
    except PlanError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and tb[-1].filename.startswith(os.path.join(world.REPO, 'ombott')):
            r.viol = dict(kind='exception', key='exception:%s:%s' % (type(e).__name__, tb[-1].name),
                          detail='the code under test raised %r where the workload is legal\n%s' % (
                              e, ''.join(traceback.format_list(tb[-4:]))))
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        time.time = _real_time
    return r


# ------------------------------------------------------------------ workers
def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    gc.disable()
    sys.setrecursionlimit(2000)


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('>I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _worker(mod, seed, tier, first, step, count, deadline, fd, stop_at_first=True):
    _limits()
    acc = dict(runs=0, faults={}, probes={}, simtime=0, nontrivial=set(), states=set(), samples=[], digests=[],
               discarded=0, first=first)
    t0 = time.monotonic()
    last = t0
    k = nerr = 0
    for idx in range(first, count, step):
        now = time.monotonic()
        if now > deadline:
            acc['capped'] = True
            break
        if k == 0 or now - last > 0.2:
            last = now
            _send(fd, ('beat', first, idx))
        k += 1
        plan = mod.gen(rng_for(seed, mod.PROP, idx), tier)
        try:
            r = execute(mod, plan)
        except PlanError:  # a plan outside of the workload: not run, counted
            acc['discarded'] += 1
            continue
        except BaseException:
            _send(fd, ('error', idx, traceback.format_exc()))
            nerr += 1
            if nerr >= 5:
                break
            continue
        acc['runs'] += 1
        for name in ('faults', 'probes'):
            d = acc[name]
            for a, b in getattr(r, name).items():
                d[a] = d.get(a, 0) + b
        acc['simtime'] += r.simtime
        if r.nontrivial:
            acc['nontrivial'].add(plan_digest(plan))
            if len(acc['samples']) < 2:
                acc['samples'].append((idx, plan))
        for s in r.states:
            if len(acc['states']) < 400000:
                acc['states'].add(hashlib.sha1(repr(s).encode('utf8', 'backslashreplace')).digest()[:8])
        if acc.get('keep_digests') or _KEEP_DIGESTS:
            acc['digests'].append((idx, r.digest()))
        if k % 200 == 0:
            gc.collect()
        if r.viol:
            _send(fd, ('viol', idx, r.viol))
            if stop_at_first and not is_known(mod.PROP, r.viol):
                break
    _send(fd, ('done', first, acc))


_KEEP_DIGESTS = False


def sweep(mod, seed, tier, count, workers, cap):
    """Run plans 0..count-1 in forked workers. Returns (acc, violations, errors, stuck)."""
    deadline = time.monotonic() + cap
    procs = {}
    scratch_base()
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rfd)
                for q in procs:
                    os.close(q)
                _worker(mod, seed, tier, w, workers, count, deadline, wfd)
                code = 0
            except BaseException:
                try:
                    _send(wfd, ('error', -1, traceback.format_exc()))
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(wfd)
        procs[rfd] = dict(pid=pid, buf=b'', last=time.monotonic(), idx=w, done=False)
    total = dict(runs=0, faults={}, probes={}, simtime=0, nontrivial=set(), states=set(), samples=[], digests=[],
                 discarded=0, capped=False)
    viols, errors, stuck = [], [], []
    best = None
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        now = time.monotonic()
        for fd in ready:
            p = procs[fd]
            d = os.read(fd, 1 << 20)
            if not d:
                os.waitpid(p['pid'], 0)
                os.close(fd)
                if not p['done']:
                    stuck.append((p['idx'], 'died'))
                del procs[fd]
                continue
            p['buf'] += d
            p['last'] = now
            while len(p['buf']) >= 4:
                n = struct.unpack('>I', p['buf'][:4])[0]
                if len(p['buf']) < 4 + n:
                    break
                msg = pickle.loads(p['buf'][4:4 + n])
                p['buf'] = p['buf'][4 + n:]
                if msg[0] == 'beat':
                    p['idx'] = msg[2]
                elif msg[0] == 'viol':
                    viols.append((msg[1], msg[2]))
                elif msg[0] == 'error':
                    errors.append((msg[1], msg[2]))
                elif msg[0] == 'done':
                    p['done'] = True
                    a = msg[2]
                    total['runs'] += a['runs']
                    total['discarded'] += a['discarded']
                    total['simtime'] += a['simtime']
                    total['nontrivial'] |= a['nontrivial']
                    total['states'] |= a['states']
                    total['samples'] += a['samples']
                    total['digests'] += a['digests']
                    total['capped'] |= a.get('capped', False)
                    for name in ('faults', 'probes'):
                        for k, v in a[name].items():
                            total[name][k] = total[name].get(k, 0) + v
        # a violation below every index still open ends the search early: other workers
        # only matter while they could still find a lower index
        new = [v for v in viols if not is_known(mod.PROP, v[1])]
        if new:
            best = min(v[0] for v in new)
            for fd, p in list(procs.items()):
                if p['idx'] > best and not p['done']:
                    try:
                        os.kill(p['pid'], signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p['done'] = True
        for fd, p in list(procs.items()):
            if now - p['last'] > STALL and not p['done']:
                try:
                    os.kill(p['pid'], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p['done'] = True
                stuck.append((p['idx'], 'stalled'))
    total['samples'].sort(key=lambda s: s[0])
    total['digests'].sort()
    return total, sorted(viols, key=lambda v: v[0]), errors, stuck


def in_child(fn, timeout):
    """Run fn() in a forked child; returns (ok, value) or (False, reason)."""
    scratch_base()
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            _limits()
            try:
                v = ('ok', fn())
            except BaseException:
                v = ('error', traceback.format_exc())
            _send(wfd, v)
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b''
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(rfd)
            return False, 'timeout'
        ready, _, _ = select.select([rfd], [], [], min(left, 1.0))
        if ready:
            d = os.read(rfd, 1 << 20)
            if not d:
                break
            buf += d
    os.waitpid(pid, 0)
    os.close(rfd)
    if len(buf) < 4:
        return False, 'died'
    kind, v = pickle.loads(buf[4:])
    if kind == 'ok':
        return True, v
    return False, v


# ------------------------------------------------------------------ minimisation
def _variants(node):
    """Smaller versions of a JSON value, biggest cuts first."""
    if isinstance(node, list):
        n = len(node)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                yield node[:a] + node[a + size:]
            size //= 2
    elif isinstance(node, str):
        n = len(node)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                yield node[:a] + node[a + size:]
            size //= 2
            if n > 200 and size < n // 64:
                break
    elif isinstance(node, bool):
        if node:
            yield False
    elif isinstance(node, int):
        for v in (0, 1, node // 2, node - 1):
            if 0 <= v < node:
                yield v
    elif isinstance(node, float):
        for v in (0.0, 0.5):
            if v != node:
                yield v


def _walk(node, path=()):
    yield path, node
    if isinstance(node, dict):
        for k in sorted(node):
            yield from _walk(node[k], path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from _walk(v, path + (i,))


def _replace(node, path, value):
    if not path:
        return value
    if isinstance(node, dict):
        d = dict(node)
        d[path[0]] = _replace(node[path[0]], path[1:], value)
        return d
    ls = list(node)
    ls[path[0]] = _replace(node[path[0]], path[1:], value)
    return ls


def minimise(mod, plan, kind, key, budget_runs=1500, budget_s=40):
    t0 = time.monotonic()
    valid = getattr(mod, 'valid', None)
    tried = set()
    state = dict(runs=0)

    def fails(p):
        d = plan_digest(p)
        if d in tried:
            return False
        tried.add(d)
        try:
            if valid and not valid(p):
                return False
        except Exception:
            return False
        state['runs'] += 1
        try:
            r = execute(mod, p, cpu=2)
        except (Exception, PlanError):
            return False
        return bool(r.viol) and r.viol['kind'] == kind and r.viol['key'] == key

    changed = True
    while changed and state['runs'] < budget_runs and time.monotonic() - t0 < budget_s:
        changed = False
        for path, _ in sorted(list(_walk(plan)), key=lambda x: len(x[0])):
            try:
                cur = plan
                for k in path:
                    cur = cur[k]
            except (KeyError, IndexError, TypeError):
                continue
            again = True
            while again:
                again = False
                opts = list(_variants(cur))
                if isinstance(cur, (dict, list, str)) and path and cur:
                    opts.insert(0, None)
                for v in opts:
                    if state['runs'] >= budget_runs or time.monotonic() - t0 > budget_s:
                        return plan, state['runs']
                    cand = _replace(plan, path, v)
                    if fails(cand):
                        plan, cur = cand, v
                        changed = again = True
                        break
                if not isinstance(cur, (list, str, int, float)):
                    break
    return plan, state['runs']


# ------------------------------------------------------------------ known findings
_known = None


def known():
    global _known
    if _known is None:
        _known = []
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            with open(path) as f:
                for ln in f:
                    # known: property=<id> key=<key> replay=<file> <what fails>
                    if ln.startswith('known:'):
                        a, b, c, what = ln[6:].strip().split(' ', 3)
                        _known.append(dict(property=a.split('=', 1)[1], key=b.split('=', 1)[1],
                                           replay=c.split('=', 1)[1], what=what))
    return _known


def is_known(prop, viol):
    return any(k['property'] == prop and k['key'] == viol.get('key') for k in known())


# ------------------------------------------------------------------ the check
def write_replay(prop, seed, idx, plan, viol, extra=None):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, plan_digest(plan)))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, run=idx, violation=viol, plan=plan, **(extra or {})), f,
                  indent=1, sort_keys=True)
        f.write('\n')
    return path


def _after(mod, h):
    """Runs of one worker, in one process, as the search made them; the violation of the last one.
    (What a changed tree does may depend on what ran in the process before, e.g. through reused addresses.)"""
    viol = None
    for k, idx in enumerate(range(h['first'], h['last'] + 1, h['step']), 1):
        viol = None
        try:
            plan = mod.gen(rng_for(h['seed'], mod.PROP, idx), h['tier'])
            viol = execute(mod, plan).viol
        except PlanError:
            pass
        if k % 200 == 0:
            gc.collect()
    return viol


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    mod = module(d['property'])
    if d.get('history'):
        ok, res = in_child(lambda: _after(mod, d['history']), 600)
    else:
        ok, res = in_child(lambda: execute(mod, d['plan']).viol, 300)
    if not ok and res in ('timeout', 'died'):
        res = dict(kind='hang' if res == 'timeout' else 'crash', key=res, detail='the process %s' % res)
    elif not ok:
        raise RuntimeError(res)
    return d, res


def check(prop, tier, seed, workers=None, runs=None, cap=None):
    t0 = time.monotonic()
    mod = module(prop)
    workers = workers or int(os.environ.get('VERIF_WORKERS', 0)) or min(8, os.cpu_count() or 1)
    count = runs or mod.RUNS[tier]
    cap = cap or {'quick': 420, 'thorough': 820}[tier]
    print('seed=%s property=%s tier=%s runs=%s workers=%s' % (seed, prop, tier, count, workers), flush=True)
    world.install()
    ok, err = in_child(lambda: world.fresh() and None, 60)
    if not ok:
        print('ERROR: the code under test cannot be imported\n%s' % err)
        return 2
    # known findings must still be there, otherwise the list is stale (not an alarm)
    nknown = 0
    for k in known():
        if k['property'] != prop:
            continue
        d, v = replay_file(os.path.join(VERIF, k['replay']))
        if v and v.get('key') == k['key']:
            nknown += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            print('note: known finding no longer reproduces: %s' % k['what'])
    total, viols, errors, stuck = sweep(mod, seed, tier, count, workers, cap)
    new = [v for v in viols if not is_known(prop, v[1])]
    # workers that died or stalled: run that plan alone
    for idx, why in stuck:
        plan = mod.gen(rng_for(seed, prop, max(idx, 0)), tier)
        seen = None
        # the heartbeat is a few runs old: walk on from it
        for j in range(max(idx, 0), min(count, max(idx, 0) + workers * 400), workers):
            plan = mod.gen(rng_for(seed, prop, j), tier)
            ok, res = in_child(lambda: execute(mod, plan).viol, 90)
            if not ok and res in ('timeout', 'died'):
                seen = (j, dict(kind='hang' if res == 'timeout' else 'crash', key=res,
                                detail='the process %s while executing the plan' % res))
                break
            if ok and res:
                seen = (j, res)
                break
        if seen:
            new.append(seen)
        else:
            errors.append((idx, 'worker %s near run %s, not reproducible' % (why, idx)))
    new.sort(key=lambda v: v[0])
    code = 0
    reported = 0
    for idx, viol in new[:4]:
        plan = mod.gen(rng_for(seed, prop, idx), tier)
        small, nruns = plan, 0
        if viol['kind'] not in ('crash',) and viol['key'] not in ('timeout',) and not os.environ.get('VERIF_NO_MINIMISE'):
            def job():
                p = plan
                st = getattr(mod, 'settle', None)
                if st:
                    q = st(p)
                    if q is not None:
                        rr = execute(mod, q)
                        if rr.viol and rr.viol['kind'] == viol['kind']:
                            p = q
                return minimise(mod, p, viol['kind'], viol['key'], **({'budget_runs': 60, 'budget_s': 60} if viol['kind'] == 'hang' else {}))
            ok, res = in_child(job, 150)
            if ok:
                small, nruns = res
        path = None
        for cand in (small, plan):
            path = write_replay(prop, seed, idx, cand, viol, dict(minimiser_runs=nruns, tier=tier))
            d, again = replay_file(path)
            if again and again['kind'] == viol['kind']:
                path = write_replay(prop, seed, idx, cand, again, dict(minimiser_runs=nruns, tier=tier))
                break
            os.unlink(path)
            path = None
        if path is None and time.monotonic() - t0 < 500:
            # alone it passes: with what ran before it in the same process?
            for n in (8, 64, 512, idx // workers):
                h = dict(seed=seed, tier=tier, first=max(idx - n * workers, idx % workers), last=idx, step=workers)
                path = write_replay(prop, seed, idx, plan, viol, dict(tier=tier, history=h))
                d, again = replay_file(path)
                if again and again['kind'] == viol['kind']:
                    path = write_replay(prop, seed, idx, plan, again, dict(tier=tier, history=h))
                    break
                os.unlink(path)
                path = None
                if h['first'] < workers or time.monotonic() - t0 > 600:
                    break
        if path is None:
            errors.append((idx, 'violation %r did not reproduce in a fresh process' % (viol,)))
            continue
        print('run %d: %s\n%s' % (idx, again['kind'], again['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, VERIF)), flush=True)
        reported += 1
        code = 1
        break
    wall = time.monotonic() - t0
    if code == 0 and errors:
        for idx, e in errors[:3]:
            print('ERROR in run %s:\n%s' % (idx, e))
        code = 2
    if code == 0 and total['capped'] and total['runs'] < count // 20:
        print('ERROR: only %d of %d runs fitted into %ss' % (total['runs'], count, cap))
        code = 2
    if code == 0 and total['discarded'] > total['runs']:
        print('ERROR: %d of %d plans are outside of the workload' % (total['discarded'], total['discarded'] + total['runs']))
        code = 2
    evidence(mod, tier, seed, total, wall, reported, count, nknown)
    print('%s %s: %d runs, %d distinct non-trivial, %d states, %.1fs, exit %d' % (
        prop, tier, total['runs'], len(total['nontrivial']), len(total['states']), wall, code), flush=True)
    drop_scratch()
    return code


def _clip(x, n=300):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + '...(%d chars)' % len(x)
    if isinstance(x, list):
        return [_clip(v, n) for v in x[:40]] + (['...(%d items)' % len(x)] if len(x) > 40 else [])
    if isinstance(x, dict):
        return {k: _clip(v, n) for k, v in x.items()}
    return x


def evidence(mod, tier, seed, total, wall, violations, count, nknown):
    probes = {p: total['probes'].get(p, 0) for p in getattr(mod, 'PROBES', [])}
    probes.update(total['probes'])
    cov = dict(
        evaluations=total['runs'],
        distinct_nontrivial=len(total['nontrivial']),
        rule=mod.RULE,
        samples=[dict(run=i, plan=_clip(p)) for i, p in total['samples'][:3]] or [dict(run=None, plan=None)],
        planned_runs=count,
        discarded_plans=total['discarded'],
        capped_by_wall_clock=bool(total['capped']),
        runs_per_hour=int(total['runs'] / wall * 3600) if wall else 0,
        seeds_per_hour=int(total['runs'] / wall * 3600) if wall else 0,
        simulated_time_steps=total['simtime'],
        simulated_time_unit=getattr(mod, 'TIME_UNIT', 'events of the simulated world (reads, disk operations, requests, scheduler steps)'),
        faults_fired=dict(sorted(total['faults'].items())),
        distinct_states=len(total['states']),
        state_measure=getattr(mod, 'STATES', ''),
        probes=dict(sorted(probes.items())),
        probes_never_hit=sorted(p for p, n in probes.items() if not n),
        real_components=getattr(mod, 'REAL', []),
        stub_components=getattr(mod, 'STUB', []),
        known_findings_seen=nknown,
    )
    d = dict(property=mod.PROP, tier=tier, seed=int(seed), level='exploration', coverage=cov,
             assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', mod.PROP + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(path + '.tmp', path)


def digests(prop, tier, seed, count, workers):
    """For the determinism self-test: digest of every run's event log."""
    global _KEEP_DIGESTS
    _KEEP_DIGESTS = True
    mod = module(prop)
    world.install()
    total, viols, errors, stuck = sweep(mod, seed, tier, count, workers, 3600)
    drop_scratch()
    return total['digests'], errors, stuck, viols

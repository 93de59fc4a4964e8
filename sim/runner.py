"""Batches, shrinking, replay files, evidence."""
import fcntl
import importlib
import json
import os
import pathlib
import pickle
import select
import shutil
import sys
import time
import traceback
import zlib

MONO = time.monotonic
from sim.choices import Choices
from sim import kernel as K

VERIF = str(pathlib.Path(__file__).resolve().parent.parent)
REAL = dict(fork=os.fork, exit=os._exit, kill=os.kill, getpid=os.getpid, read=os.read, write=os.write, close=os.close,
            pipe=os.pipe, waitpid=os.waitpid, open=open, poll=select.poll)


def reap(pid):
    try:
        REAL['waitpid'](pid, 0)
    except OSError:
        pass


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '/tmp'


SCRATCH_LOCKS = []


def scratch_dir(name):
    """The scratch directory to use: the same path for the same name, unless another process uses that now. Names
    have the same length, so that lengths of paths never differ between runs."""
    base = scratch_base()
    for n in (name, '%08d' % (REAL['getpid']() % 100000000)):
        try:
            f = REAL['open'](os.path.join(base, f'vslock{n}'), 'a')
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            continue
        SCRATCH_LOCKS.append(f)
        return os.path.join(base, f'vs{n}')
    raise K.HarnessError('no scratch directory')


class Result(object):
    pass


def rmtree(path):
    shutil.rmtree(path, ignore_errors=True)


def execute(scn, spec, ch, scratch, verbose=False):
    if os.path.lexists(scratch):
        rmtree(scratch)
    os.mkdir(scratch)
    os.chmod(scratch, 0o755)
    k = K.Kernel(scn, spec, ch, scratch, max_steps=scn.max_steps, max_time=scn.max_time, verbose=verbose)
    try:
        scn.boot(k)
        k.run()
        if not k.violations:
            scn.check(k)
    except K.Hang as e:
        k.outcome = 'hang'
        k.violation(('hang', str(e)))
    finally:
        k.close()
    scn.after(k) if hasattr(scn, 'after') else None
    rmtree(scratch)
    return k


def one(scn_cls, ch, scratch, verbose=False):
    """One simulated run. Returns (kernel, spec)."""
    scn = scn_cls()
    spec = scn.build(ch)
    if getattr(scn, 'calibrated', False):
        s0 = scn_cls()
        k0 = execute(s0, dict(spec, faults=False), Choices(values=[]), scratch)
        scn.plan(ch, spec, k0)
    k = execute(scn, spec, ch, scratch, verbose)
    return k, spec


def vclass(v):
    return v[0]


def load(prop):
    sys.path.insert(0, VERIF)
    m = importlib.import_module(f'checks.{prop.lower()}')
    return m


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in REAL['open'](p):
            line = line.strip()
            if line.startswith('known: ') and f'property={prop} ' in line:
                rest = line.split(f'property={prop} ', 1)[1]
                key, text = rest.split(' ', 1)
                out.append((key.split('=', 1)[1], text))
    return out


def worker(m, prop, seed, tier, w, n, nruns, deadline, out_fd):
    """Runs in a forked child: runs w, w+n, w+2n, ... < nruns."""
    scratch = scratch_dir(scratch_name(prop, w))
    stats = dict(runs=0, steps=0, sim_time=0.0, switches=0, faults={}, probes={}, hashes=set(), nontrivial=set(),
                 samples=[], outcomes={}, known={}, capped=False)
    violations = []
    err = None
    known = [k for k, _ in known_findings(prop)]
    try:
        for i in range(w, nruns, n):
            if MONO() > deadline:
                stats['capped'] = True
                break
            cls = m.scenario(i)
            ch = Choices(seed=f'{seed}/{prop}/{i}')
            try:
                k, spec = one(cls, ch, scratch)
            except K.HarnessError as e:
                # once more, from the record: an environment hiccup does not repeat
                k, spec = one(cls, Choices(values=list(ch.record)), scratch)
            stats['runs'] += 1
            stats['steps'] += k.step
            stats['sim_time'] += k.now - K.EPOCH
            stats['switches'] += k.switches
            stats['outcomes'][k.outcome] = stats['outcomes'].get(k.outcome, 0) + 1
            for d, s in (('faults', k.faults), ('probes', k.probes)):
                for a, b in s.items():
                    stats[d][a] = stats[d].get(a, 0) + b
            h = k.scenario.measure(k)
            stats['hashes'].add(zlib.crc32(repr(h).encode()))
            if k.scenario.nontrivial(k):
                stats['nontrivial'].add(zlib.crc32(repr((h, sorted(spec.items(), key=str))).encode()))
                if len(stats['samples']) < 2:
                    stats['samples'].append(dict(run=i, spec=k.scenario.describe(spec), steps=k.step,
                                                 faults=dict(k.faults), outcome=k.outcome))
            vs = []
            for v in k.violations:
                key = known_key(k.scenario, v)
                if key in known:
                    stats['known'][key] = stats['known'].get(key, 0) + 1
                else:
                    vs.append(v)
            if vs:
                violations.append((i, list(ch.record), vs))
                break
    except BaseException:
        err = f'run {i}: ' + traceback.format_exc()
    rmtree(scratch)
    data = pickle.dumps((stats, violations, err))
    while data:
        data = data[REAL['write'](out_fd, data):]
    REAL['exit'](0)


def known_key(scn, v):
    return getattr(scn, 'finding_key', lambda v: vclass(v))(v)


def collect(procs):
    """procs: {fd: pid}. Returns list of (stats, violations, err)."""
    bufs = {fd: b'' for fd in procs}
    poll = REAL['poll']()
    for fd in procs:
        poll.register(fd, select.POLLIN | select.POLLHUP)
    live = set(procs)
    while live:
        for fd, _ in poll.poll():
            d = REAL['read'](fd, 1 << 20)
            if d:
                bufs[fd] += d
            else:
                poll.unregister(fd)
                REAL['close'](fd)
                live.discard(fd)
                reap(procs[fd])
    out = []
    for fd in procs:
        try:
            out.append(pickle.loads(bufs[fd]))
        except Exception as e:
            out.append((None, [], f'worker died: {e!r}'))
    return out


def fork_fn(fn):
    """Run fn in a forked child, return its pickled result."""
    r, w = REAL['pipe']()
    pid = REAL['fork']()
    if pid == 0:
        REAL['close'](r)
        try:
            res = ('ok', fn())
        except BaseException:
            res = ('err', traceback.format_exc())
        data = pickle.dumps(res)
        while data:
            data = data[REAL['write'](w, data):]
        REAL['exit'](0)
    REAL['close'](w)
    buf = b''
    while True:
        d = REAL['read'](r, 1 << 20)
        if not d:
            break
        buf += d
    REAL['close'](r)
    reap(pid)
    return pickle.loads(buf) if buf else ('err', 'worker died')


def attempt(cls, values, scratch, want=None, known=()):
    """Violations of one run from an explicit choice list, or None if the harness could not run it."""
    ch = Choices(values=values)
    try:
        k, spec = one(cls, ch, scratch)
    except Exception:
        return None, None
    vs = [v for v in k.violations if known_key(k.scenario, v) not in known]
    if want is not None:
        vs = [v for v in vs if vclass(v) == want]
    return vs, list(ch.record)


def shrink(cls, values, want, scratch, budget, known=()):
    end = MONO() + budget
    best = list(values)
    tries = 0

    def test(cand):
        nonlocal best, tries
        if MONO() > end:
            return False
        tries += 1
        vs, rec = attempt(cls, cand, scratch, want, known)
        if vs:
            # strip trailing zeros
            while cand and cand[-1] == 0:
                cand = cand[:-1]
            best = list(cand)
            return True
        return False

    # tail
    lo = 0
    step = len(best) // 2
    while step >= 1 and MONO() < end:
        if len(best) > step and test(best[:-step]):
            pass
        else:
            step //= 2
    # zero blocks, then delete blocks
    for mode in ('zero', 'delete', 'zero'):
        size = max(1, len(best) // 4)
        while size >= 1 and MONO() < end:
            i = 0
            while i < len(best) and MONO() < end:
                if mode == 'zero':
                    if any(best[i:i + size]):
                        cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                        test(cand)
                    i += size
                else:
                    cand = best[:i] + best[i + size:]
                    if not test(cand):
                        i += size
            size //= 2
    # reduce
    for i in range(min(len(best), 300)):
        while i < len(best) and best[i] > 1 and MONO() < end:
            if not test(best[:i] + [best[i] // 2] + best[i + 1:]):
                break
    return best, tries


def report(m, prop, seed, index, values, vs, budget, name):
    """Minimise, write the replay file. Returns its path, and the violation reproduced from it."""
    cls = m.scenario(index)
    known = [k for k, _ in known_findings(prop)]
    want = vclass(vs[0])
    # (vcheck kills slow checks: shrinking has a budget)
    scratch = scratch_dir(name)
    st, r = fork_fn(lambda: shrink(cls, values, want, scratch, budget, known))
    small, tries = r if st == 'ok' else (values, 0)

    def final(vals):
        ch = Choices(values=vals)
        k, spec = one(cls, ch, scratch)
        return ([v for v in k.violations if known_key(k.scenario, v) not in known], k.scenario.describe(spec),
                k.faults, k.history[-400:], k.live() if k.outcome == 'deadlock' else [], k.outcome)
    st, r = fork_fn(lambda: final(small))
    if st != 'ok' or not r[0]:
        small = values
        st, r = fork_fn(lambda: final(small))
    if st != 'ok':
        raise K.HarnessError(f'replay failed: {r}')
    vs2, spec, faults, hist, live, outcome = r
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{seed}-{index}.json')
    with REAL['open'](path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, run=index, scratch=name, violation=[list(map(str, v)) for v in (vs2 or vs)],
                       choices=small, original_choices=len(values), shrink_attempts=tries, workload=spec, faults=faults,
                       outcome=outcome, live=live, trace=[repr(h).replace(scratch, '$SCRATCH') for h in hist]), f, indent=1, default=str)
    return path, vs2 or vs


def int_seed(seed):
    try:
        return int(seed)
    except ValueError:
        return zlib.crc32(str(seed).encode())


def evidence(m, prop, tier, seed, stats, wall, nviol, known):
    runs = stats['runs']
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(stats['nontrivial']),
        rule=m.RULE,
        samples=stats['samples'][:8],
        seeds_per_hour=int(runs / max(wall, 0.001) * 3600),
        steps=stats['steps'],
        simulated_seconds=round(stats['sim_time'], 3),
        context_switches=stats['switches'],
        distinct_interleavings=len(stats['hashes']),
        interleaving_measure='crc of the sequence of (process, thread, blocking reason) at every context switch, '
                             'or the property-specific state measure',
        faults_injected=stats['faults'],
        probes=stats['probes'],
        outcomes=stats['outcomes'],
        known_findings_met=stats['known'],
        wall_cap_reached=stats['capped'],
        real_components=m.REAL,
        stubbed_components=m.STUBS,
    )
    ev = dict(property=prop, tier=tier, seed=int_seed(seed), level='exploration', coverage=cov, wall_s=round(wall, 2),
              violations=nviol, assumptions=m.ASSUMPTIONS)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with REAL['open'](os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def merge(results):
    t = dict(runs=0, steps=0, sim_time=0.0, switches=0, faults={}, probes={}, hashes=set(), nontrivial=set(), samples=[],
             outcomes={}, known={}, capped=False)
    for s, _, _ in results:
        if s is None:
            continue
        for k in ('runs', 'steps', 'sim_time', 'switches'):
            t[k] += s[k]
        for d in ('faults', 'probes', 'outcomes', 'known'):
            for a, b in s[d].items():
                t[d][a] = t[d].get(a, 0) + b
        t['hashes'] |= s['hashes']
        t['nontrivial'] |= s['nontrivial']
        t['samples'] += s['samples']
        t['capped'] |= s['capped']
    t['samples'].sort(key=lambda x: x['run'])
    return t


def scratch_name(prop, w):
    return '%s%05d' % (prop[-3:].rjust(3, 'x'), w)


def run_property(prop, tier, seed, nworkers=None, runs=None, cap=None):
    m = load(prop)
    start = MONO()
    nruns = runs or (m.QUICK if tier == 'quick' else m.THOROUGH)
    cap = cap or (getattr(m, 'QUICK_CAP', 150) if tier == 'quick' else getattr(m, 'THOROUGH_CAP', 3600))
    n = nworkers or min(8, os.cpu_count() or 4)
    procs = {}
    for w in range(n):
        r, wfd = REAL['pipe']()
        sys.stdout.flush()
        pid = REAL['fork']()
        if pid == 0:
            REAL['close'](r)
            worker(m, prop, seed, tier, w, n, nruns, start + cap, wfd)
            REAL['exit'](0)
        REAL['close'](wfd)
        procs[r] = pid
    results = collect(procs)
    stats = merge(results)
    errors = [e for _, _, e in results if e]
    violations = sorted((v for _, vs, _ in results for v in vs), key=lambda v: v[0])
    for key, text in known_findings(prop):
        print(f'KNOWN-FINDING: property={prop} {text} (met in {stats["known"].get(key, 0)} of {stats["runs"]} runs)')
    nviol = len(violations)
    wall = MONO() - start
    evidence(m, prop, tier, seed, stats, wall, nviol, None)
    print(f'{prop}: {stats["runs"]} runs, {stats["steps"]} steps, {len(stats["hashes"])} distinct interleavings, '
          f'{stats["sim_time"]:.1f} simulated s, faults {stats["faults"]}, probes {stats["probes"]}, '
          f'outcomes {stats["outcomes"]}, {wall:.1f} s')
    if violations:
        index, values, vs = violations[0]
        path, vs = report(m, prop, seed, index, values, vs, budget=40 if tier == 'quick' else 120,
                          name=scratch_name(prop, index % n))
        print(f'  {vs[0]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 3
    if stats['runs'] == 0:
        return 3
    return 0


def replay(prop, path, verbose=False):
    m = load(prop)
    d = json.load(REAL['open'](path))
    cls = m.scenario(d['run'])
    known = [k for k, _ in known_findings(prop)]
    scratch = scratch_dir(d['scratch'])

    def go():
        k, spec = one(cls, Choices(values=d['choices']), scratch, verbose)
        return [v for v in k.violations if known_key(k.scenario, v) not in known], [repr(h).replace(scratch, '$SCRATCH')
                                                                                           for h in k.history[-400:]]
    st, r = fork_fn(go)
    if st != 'ok':
        print(r, file=sys.stderr)
        return 3
    vs, hist = r
    for v in vs:
        print('  ', v)
    print('trace identical' if hist == d['trace'] else 'trace differs from the recorded one')
    if vs:
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print('not reproduced')
    return 0

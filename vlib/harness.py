"""Runs one property's monitor over its workload.

A check module (checks/cNN.py) provides
    ID, RULE, ASSUMPTIONS, NEED   (NEED: counters that have to be non-zero)
    QUICK, THOROUGH               number of cases
    setup()                       imports of the code under test, shared data
    case(ctx, i)                  one execution of the real code under the monitors
Verdicts: exit 0 held on what was observed, exit 1 + VIOLATION line violated,
exit 3 inconclusive (a monitor was never reached), exit 2 harness error.
"""
import errno
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

HOME = os.environ.get('VERIF_HOME') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPU_LIMIT = 150         # CPU seconds for one case; the slowest seen needs a few


class Violation(Exception):
    def __init__(self, what, witness=None):
        Exception.__init__(self, what)
        self.what, self.witness = what, witness


class CpuLimit(BaseException):
    pass


def _jsonable(x, depth=0):
    if depth > 12:
        return repr(x)
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((_jsonable(v, depth + 1) for v in x), key=repr)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if hasattr(x, 'tolist'):
        return _jsonable(x.tolist(), depth + 1)
    return repr(x)


class Ctx(object):
    def __init__(self, cid, seed, tier):
        self.cid, self.seed, self.tier = cid, seed, tier
        self.counts = {}
        self.maxima = {}
        self.sigs = set()
        self.samples = []
        self.i = None
        self.note = {}

    def start(self, i):
        self.i = i
        self.sigged = False
        self.note = {}
        key = '%s/%s/%s' % (self.cid, self.seed, i)
        self.rng = random.Random(key)
        random.seed(key)
        import numpy as np
        np.random.seed(self.rng.randrange(2 ** 31))

    # -- observations
    def obs(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def peak(self, name, v):
        if v > self.maxima.get(name, v - 1):
            self.maxima[name] = v

    def sig(self, *parts):
        """Record a distinct non-trivial case (at most one per case)."""
        if self.sigged:
            return
        self.sigged = True
        self.sigs.add(hash_sig(parts))

    def sample(self, obj, cap=2):
        if len(self.samples) < cap:
            self.samples.append(_jsonable(obj))

    def fail(self, what, **witness):
        w = dict(self.note)
        w.update(witness)
        raise Violation(what, w)

    def check(self, ok, what, **witness):
        self.obs('oracle_verdicts')
        if not ok:
            self.fail(what, **witness)


def hash_sig(parts):
    import hashlib
    return hashlib.md5(repr(parts).encode()).hexdigest()[:16]


def _run_one(mod, ctx, i):
    """Returns None or a violation record."""
    ctx.start(i)
    old = signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
    t0 = time.process_time()
    try:
        mod.case(ctx, i)
        return None
    except Violation as e:
        return {'case': i, 'what': e.what, 'witness': _jsonable(e.witness)}
    except CpuLimit:
        return {'case': i, 'what': 'no answer: the case consumed %d CPU seconds without ending'
                % getattr(mod, 'CPU_LIMIT', CPU_LIMIT),
                'witness': _jsonable(ctx.note)}
    except (KeyboardInterrupt, MemoryError):
        raise
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT):
            raise
        return _crash(ctx, i, e)
    except (Exception, SystemExit) as e:
        return _crash(ctx, i, e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        ctx.peak('slowest_case_cpu_s', round(time.process_time() - t0, 2))


def _crash(ctx, i, e):
    return {'case': i, 'what': 'the code failed on a valid workload: %s: %s'
            % (type(e).__name__, str(e)[:300]),
            'witness': {'note': _jsonable(ctx.note), 'traceback': traceback.format_exc()}}


def _on_cpu(*_):
    raise CpuLimit()


def _worker(mod, ctx, todo, deadline, wfd, cur):
    sys.stdout.flush()
    sys.stderr.flush()
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(null, 2)
    res = {'viol': None, 'done': 0, 'skipped': 0, 'error': None}
    try:
        for i in todo:
            if time.time() > deadline:
                res['skipped'] += 1
                continue
            os.pwrite(cur, ('%-12d' % i).encode(), 0)
            v = _run_one(mod, ctx, i)
            res['done'] += 1
            if v:
                res['viol'] = v
                break
    except BaseException:
        res['error'] = traceback.format_exc()
    res.update(counts=ctx.counts, maxima=ctx.maxima, sigs=sorted(ctx.sigs), samples=ctx.samples)
    data = json.dumps(res).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os.close(wfd)
    os._exit(0)


def known_findings(cid):
    out = []
    try:
        for line in open(os.path.join(HOME, 'KNOWN_FINDINGS.txt')):
            line = line.strip()
            if line.startswith('finding: property=%s ' % cid):
                out.append(line.split(' ', 2)[2])
    except IOError:
        pass
    return out


def main(argv):
    args = list(argv)
    cid = args.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = only = ncases = None
    nwork = int(os.environ.get('VERIF_WORKERS', '8'))
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = json.load(open(args.pop(0)))
        elif a == '--only':
            only = int(args.pop(0))
        elif a == '--cases':
            ncases = int(args.pop(0))
        elif a == '--workers':
            nwork = int(args.pop(0))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if replay:
        seed, tier, only = replay['seed'], replay['tier'], replay['case']
    t0 = time.time()
    sys.path[:0] = [REPO, HOME]
    sys.dont_write_bytecode = True
    os.chdir(os.environ.get('VERIF_SCRATCH', '/tmp'))
    try:
        mod = importlib.import_module('checks.' + cid.lower())
    except Exception:
        traceback.print_exc()
        return 2
    total = ncases or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    budget = getattr(mod, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 3000)
    todo = [only] if only is not None else list(range(total))
    ctx0 = Ctx(cid, seed, tier)
    if replay is None:
        try:
            os.remove(os.path.join(HOME, 'evidence', 'replay', cid + '.json'))
        except OSError:
            pass
    viols, errors = [], []
    merged = {'counts': {}, 'maxima': {}, 'sigs': set(), 'samples': [], 'done': 0, 'skipped': 0}
    try:
        mod.setup()
    except Exception as e:
        # the code under test does not even come up: report as observed
        rec = _crash(ctx0, -1, e)
        viols.append(rec)
    if not viols:
        deadline = time.time() + budget
        hard = deadline + getattr(mod, 'CPU_LIMIT', CPU_LIMIT) + 60
        procs = {}
        k = min(nwork, len(todo))
        scratch = os.environ.get('VERIF_SCRATCH', '/tmp')
        for w in range(k):
            cur = os.open(os.path.join(scratch, 'cur%d' % w), os.O_CREAT | os.O_RDWR, 0o600)
            r, wfd = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                _worker(mod, ctx0, todo[w::k], deadline, wfd, cur)
            os.close(wfd)
            procs[r] = [pid, [], cur]
        while procs:
            ready, _, _ = select.select(list(procs), [], [], 5)
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    procs[r][1].append(b)
                    continue
                pid, chunks, cur = procs.pop(r)
                _, st = os.waitpid(pid, 0)
                os.close(r)
                try:
                    res = json.loads(b''.join(chunks).decode())
                except ValueError:
                    i = int((os.pread(cur, 12, 0) or b'-1').decode() or -1)
                    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
                    if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
                        viols.append({'case': i, 'what': 'the process died with signal %d' % sig,
                                      'witness': None})
                    else:
                        errors.append('worker died, status %r, case %d' % (st, i))
                    continue
                if res['error']:
                    errors.append(res['error'])
                if res['viol']:
                    viols.append(res['viol'])
                for n, v in res['counts'].items():
                    merged['counts'][n] = merged['counts'].get(n, 0) + v
                for n, v in res['maxima'].items():
                    merged['maxima'][n] = max(v, merged['maxima'].get(n, v))
                merged['sigs'].update(res['sigs'])
                merged['samples'] += res['samples']
                merged['done'] += res['done']
                merged['skipped'] += res['skipped']
                if viols:
                    # one witness is enough; let the others go
                    for r2 in list(procs):
                        try:
                            os.kill(procs[r2][0], signal.SIGKILL)
                        except OSError:
                            pass
                    for r2 in list(procs):
                        pid2, _, _ = procs.pop(r2)
                        os.waitpid(pid2, 0)
                        os.close(r2)
                    break
            if procs and time.time() > hard:
                for r2 in list(procs):
                    os.kill(procs[r2][0], signal.SIGKILL)
                errors.append('watchdog: workers did not end in time')
                break
    if not viols and not errors and hasattr(mod, 'finish'):
        ctx0.counts = merged['counts']
        try:
            mod.finish(ctx0)
        except Violation as e:
            viols.append({'case': -1, 'what': e.what, 'witness': _jsonable(e.witness)})
    cov = {'evaluations': merged['done'],
           'distinct_nontrivial': len(merged['sigs']),
           'rule': mod.RULE,
           'samples': merged['samples'][:4],
           'observed': dict(sorted(merged['counts'].items())),
           'peaks': dict(sorted(merged['maxima'].items())),
           'cases_not_run_for_time': merged['skipped']}
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': cov, 'assumptions': list(mod.ASSUMPTIONS),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    evdir = os.path.join(HOME, 'evidence')
    if replay is None and only is None:
        os.makedirs(evdir, exist_ok=True)
        tmp = os.path.join(evdir, '.%s.tmp' % cid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        os.rename(tmp, os.path.join(evdir, cid + '.json'))
    for k in known_findings(cid):
        print('KNOWN-FINDING: property=%s %s' % (cid, k))
    if viols:
        v = viols[0]
        os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
        path = os.path.join(evdir, 'replay', cid + '.json')
        if replay is None:
            with open(path, 'w') as f:
                json.dump({'property': cid, 'seed': seed, 'tier': tier, 'case': v['case'],
                           'what': v['what'], 'witness': v['witness'],
                           'how': 'bash check %s --replay %s' % (cid, path)}, f, indent=1)
                f.write('\n')
        print('%s: %s' % (cid, v['what']))
        if os.environ.get('VERIF_VERBOSE'):
            print(json.dumps(v['witness'], indent=1)[:6000])
        print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    if only is None:
        missing = [n for n in getattr(mod, 'NEED', []) if not merged['counts'].get(n)]
        if missing or merged['done'] == 0:
            print('INCONCLUSIVE %s: never observed %s' % (cid, missing))
            return 3
    print('%s %s seed=%d: held on %d cases (%d distinct non-trivial, %d oracle verdicts), %.1f s%s'
          % (cid, tier, seed, merged['done'], len(merged['sigs']),
             merged['counts'].get('oracle_verdicts', 0), time.time() - t0,
             ', %d cases not run for time' % merged['skipped'] if merged['skipped'] else ''))
    return 0


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)

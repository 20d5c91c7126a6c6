"""Runner and monitors shared by all checks.

A property module (rv/props/cNN.py) has

  PROP    the property id
  LEVEL   evidence level
  RULE    how cases are made and what makes one non-trivial
  PHASES  list of Phase
  ASSUME  list of assumptions

A phase function is called with a Case for each case index. The case has
its own random generator seeded by (seed, property, phase, index), so any
case can be run again alone (--replay). The function drives the real code
and raises Violation when a monitor sees the property broken.
"""
import collections
import contextlib
import gc
import hashlib
import io
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
PKG = os.path.join(REPO, 'channelpack')
EVID = os.environ.get('RV_EVID', os.path.join(VERIF, 'evidence'))


class Violation(Exception):
    """The property is broken by what was observed."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


Phase = collections.namedtuple('Phase', 'name func quick thorough')
# quick, thorough: number of cases, int or callable(seed) -> int


class Stats(object):
    def __init__(self):
        self.evals = 0
        self.phase_evals = collections.Counter()
        self.counts = collections.Counter()
        self.distinct = set()
        self.samples = {}
        self.violations = []
        self.errors = []
        self.lines = set()
        self.truncated = False

    def merge(self, o):
        self.evals += o.evals
        self.phase_evals.update(o.phase_evals)
        self.counts.update(o.counts)
        self.distinct |= o.distinct
        for k, v in o.samples.items():
            self.samples.setdefault(k, []).extend(v)
        self.violations += o.violations
        self.errors += o.errors
        self.lines |= o.lines
        self.truncated |= o.truncated


class Case(object):
    """One case: random source, notes, counters, scratch directory."""

    def __init__(self, prop, phase, index, seed, stats, tier):
        self.prop, self.phase, self.index = prop, phase, index
        self.seed, self.stats, self.tier = seed, stats, tier
        self.rng = random.Random('%s/%s/%s/%s' % (seed, prop, phase, index))
        self.notes = []
        self._tmp = None
        self.nontrivial = False

    def note(self, *args):
        """Describe what is being done, for the replay file."""
        if len(self.notes) < 400:
            self.notes.append(' '.join(_short(a) for a in args))

    def sig(self, *parts):
        """Register a non-trivial situation observed by a monitor."""
        h = hashlib.blake2b(repr(parts).encode('utf-8', 'replace'),
                            digest_size=8).digest()
        self.stats.distinct.add(h)
        self.nontrivial = True

    def count(self, name, n=1):
        self.stats.counts[name] += n

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='rv-case-', dir=scratch())
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, *msg):
        self.stats.counts['assertions'] += 1
        if not cond:
            raise Violation(' '.join(_short(m, 600) for m in msg))


def _short(a, n=300):
    s = a if isinstance(a, str) else repr(a)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        try:
            _SCRATCH = tempfile.mkdtemp(prefix='rv-', dir=base)
        except OSError:
            _SCRATCH = tempfile.mkdtemp(prefix='rv-')
    return _SCRATCH


# -- line coverage of the code under test, by sys.monitoring

class LineMonitor(object):
    def __init__(self, lines):
        self.lines = lines

    def start(self):
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        mon.use_tool_id(self.tool, 'rv')
        lines = self.lines
        pkg = PKG + os.sep
        disable = mon.DISABLE

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(pkg):
                lines.add((fn[len(pkg):], line))
            return disable
        mon.register_callback(self.tool, mon.events.LINE, on_line)
        mon.set_events(self.tool, mon.events.LINE)

    def stop(self):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.free_tool_id(self.tool)


def executable_lines(relpath):
    path = os.path.join(PKG, relpath)
    with open(path, 'rb') as f:
        top = compile(f.read(), path, 'exec')
    res, todo = set(), [(top, True)]
    while todo:
        code, ismod = todo.pop()
        if not ismod:
            res.update(ln for _, _, ln in code.co_lines() if ln)
        for c in code.co_consts:
            if hasattr(c, 'co_code'):
                # bodies of classes run at import
                todo.append((c, bool(ismod and not (c.co_flags & 1))))
    return res


def touches_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG + os.sep):
            return True
        tb = tb.tb_next
    return False


CASE_CPU_LIMIT = 60


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, phase, index, seed, tier, stats):
    cx = Case(mod.PROP, phase.name, index, seed, stats, tier)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        phase.func(cx)
    except Violation as v:
        stats.violations.append(dict(
            phase=phase.name, index=index, msg=str(v), key=v.key,
            notes=cx.notes, trace=''))
    except CaseTimeout as e:
        if touches_repo(e.__traceback__):
            stats.violations.append(dict(
                phase=phase.name, index=index, key=None, notes=cx.notes,
                msg='no answer within %d s of cpu time' % CASE_CPU_LIMIT,
                trace=traceback.format_exc()))
        else:
            # the time went to the workload or the oracle
            cx.count('cases given up')
    except MemoryError as e:
        # room for what follows, and the frames hold what took it
        with spare_room():
            where = [(f.f_code.co_filename, n) for f, n in
                     traceback.walk_tb(e.__traceback__)][-4:]
            traceback.clear_frames(e.__traceback__)
            e = None
            gc.collect()
            stats.violations.append(dict(
                phase=phase.name, index=index, key=None, notes=cx.notes,
                msg='out of memory, %d MB are not enough' % (ROOM >> 20),
                trace=''.join('%s:%d\n' % x for x in where)))
    except Exception as e:
        tr = traceback.format_exc()
        if not isinstance(e, OSError) and \
                not touches_repo(e.__traceback__):
            # what the code gave is nothing the oracle can make sense of;
            # never so on a tree where the property holds
            stats.violations.append(dict(
                phase=phase.name, index=index, notes=cx.notes, trace=tr,
                key=None, msg='result not understood, %r' % (e,)))
        elif touches_repo(e.__traceback__):
            stats.violations.append(dict(
                phase=phase.name, index=index, notes=cx.notes, trace=tr,
                key=None, msg='unexpected exception %r' % (e,)))
        else:
            stats.errors.append(dict(phase=phase.name, index=index,
                                     trace=tr, notes=cx.notes))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        cx.cleanup()
    stats.evals += 1
    stats.phase_evals[phase.name] += 1
    if cx.notes and len(stats.samples.get(phase.name, ())) < 1 \
       and cx.nontrivial:
        stats.samples.setdefault(phase.name, []).append(
            dict(phase=phase.name, index=index, case=cx.notes[:30]))


ROOM = 2 << 30
_LIMIT = None


def limits():
    """Let a worker have ROOM bytes more than it has."""
    global _LIMIT
    try:
        with open('/proc/self/statm') as f:
            now = int(f.read().split()[0]) * resource.getpagesize()
        _LIMIT = now + ROOM, now + ROOM + (1 << 30)
        resource.setrlimit(resource.RLIMIT_AS, _LIMIT)
    except (ValueError, OSError):
        _LIMIT = None


@contextlib.contextmanager
def spare_room():
    if _LIMIT:
        resource.setrlimit(resource.RLIMIT_AS, (_LIMIT[1], _LIMIT[1]))
    try:
        yield
    finally:
        if _LIMIT:
            resource.setrlimit(resource.RLIMIT_AS, _LIMIT)


def ncases(phase, tier, seed):
    n = phase.quick if tier == 'quick' else phase.thorough
    return n(seed) if callable(n) else n


def worker(mod, w, nworkers, seed, tier, deadline, outpath):
    stats = Stats()
    enough = 1 if os.environ.get('RV_FIRST') else 5
    limits()
    signal.signal(signal.SIGVTALRM, _on_alarm)
    warnings.simplefilter('ignore')
    trail = open(outpath + '.at', 'w')
    lm = LineMonitor(stats.lines)
    lm.start()
    try:
        # all phases get their share even if time runs out: round robin
        iters = [(ph, iter(range(w, ncases(ph, tier, seed), nworkers)))
                 for ph in mod.PHASES]
        live = collections.deque()
        for ph, it in iters:
            total = ncases(ph, tier, seed)
            live.append((ph, it, max(1, total // 40 // nworkers)))
        while live:
            ph, it, chunk = live.popleft()
            done = False
            for _ in range(chunk):
                try:
                    i = next(it)
                except StopIteration:
                    done = True
                    break
                if trail is not None:
                    trail.seek(0)
                    trail.write('%s %d\n' % (ph.name, i))
                    trail.truncate()
                    trail.flush()
                run_case(mod, ph, i, seed, tier, stats)
                if time.time() > deadline:
                    stats.truncated = True
                    done = True
                    live.clear()
                    break
                if len(stats.violations) >= enough or \
                   len(stats.errors) >= 5:
                    live.clear()
                    done = True
                    break
            if not done:
                live.append((ph, it, chunk))
    finally:
        lm.stop()
        with spare_room(), open(outpath, 'wb') as f:
            pickle.dump(stats, f)


def alone(mod, name, index, seed, tier, stats, tmpd):
    """Run a case at which a worker died, in a process of its own."""
    ph = [p for p in mod.PHASES if p.name == name][0]
    path = os.path.join(tmpd, 'alone')
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            st = Stats()
            limits()
            signal.signal(signal.SIGVTALRM, _on_alarm)
            run_case(mod, ph, index, seed, tier, st)
            with open(path, 'wb') as f:
                pickle.dump(st, f)
            code = 0
        finally:
            os._exit(code)
    _, code = os.waitpid(pid, 0)
    try:
        with open(path, 'rb') as f:
            stats.merge(pickle.load(f))
        os.unlink(path)
    except (OSError, EOFError, pickle.UnpicklingError):
        stats.violations.append(dict(
            phase=name, index=index, key=None, notes=[], trace='',
            msg='the process died twice, status %d' % code))


def known_findings(prop):
    """Keys of the known findings of a property that are not fixed."""
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            entries = json.load(f)['findings']
    except (OSError, ValueError, KeyError):
        return {}
    return {e['key']: e['what'] for e in entries
            if e['property'] == prop and e.get('status') == 'open'}


def write_replay(prop, seed, tier, v):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s-%d.json' % (prop, seed, v['phase'],
                                                 v['index']))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1,
                  default=repr)
    return path


def smoke():
    sys.path.insert(0, REPO)
    import channelpack
    import numpy
    print('channelpack from', channelpack.__file__, 'numpy',
          numpy.__version__, 'python', sys.version.split()[0])
    return 0


def main(argv):
    prop = argv[0]
    if prop == '--smoke':
        return smoke()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    replay = None
    args = argv[1:]
    nworkers = min(8, os.cpu_count() or 1)
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--seed':
            seed = int(args.pop(0))
        elif a == '--replay':
            replay = args.pop(0)
        elif a == '--workers':
            nworkers = int(args.pop(0))
    t0 = time.time()
    budget = 400 if tier == 'quick' else 3000
    budget = float(os.environ.get('RV_BUDGET', budget))

    # what the code under test prints is not for our stdout
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(devnull, 1)
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import channelpack
    if not os.path.abspath(channelpack.__file__).startswith(PKG + os.sep):
        out.write('channelpack imported from %s\n' % channelpack.__file__)
        return 2
    import importlib
    mod = importlib.import_module('rv.props.' + prop.lower())

    stats = Stats()
    try:
        if replay:
            with open(replay) as f:
                r = json.load(f)
            signal.signal(signal.SIGVTALRM, _on_alarm)
            ph = [p for p in mod.PHASES if p.name == r['phase']][0]
            run_case(mod, ph, r['index'], r['seed'], r['tier'], stats)
            for v in stats.violations + stats.errors:
                out.write('\n'.join(v['notes']) + '\n' +
                          v.get('msg', 'ERROR') + '\n' + v['trace'] + '\n')
            out.write('%d violations\n' % len(stats.violations))
            return 1 if stats.violations else 0 if not stats.errors else 2

        tmpd = scratch()
        pids = []
        died = 0
        for w in range(nworkers):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.dup2(devnull, 2)
                    worker(mod, w, nworkers, seed, tier, t0 + budget,
                           os.path.join(tmpd, 'out%d' % w))
                    code = 0
                except BaseException:
                    with open(os.path.join(tmpd, 'died%d' % w), 'w') as f:
                        f.write(traceback.format_exc())
                finally:
                    os._exit(code)
            pids.append(pid)
        dead = []
        for w, pid in enumerate(pids):
            _, st = os.waitpid(pid, 0)
            if st != 0:
                dead.append(w)
        for w in range(nworkers):
            try:
                with open(os.path.join(tmpd, 'died%d' % w)) as f:
                    out.write('worker died: %s\n' % f.read())
            except OSError:
                pass
            try:
                with open(os.path.join(tmpd, 'out%d' % w), 'rb') as f:
                    stats.merge(pickle.load(f))
            except (OSError, EOFError, pickle.UnpicklingError):
                if w not in dead:
                    dead.append(w)
        for w in dead:
            # the case it was at, alone
            if stats.violations:
                break
            died += 1
            try:
                with open(os.path.join(tmpd, 'out%d.at' % w)) as f:
                    name, index = f.read().split()
            except (OSError, ValueError):
                continue
            out.write('worker died at %s %s\n' % (name, index))
            alone(mod, name, int(index), seed, tier, stats, tmpd)
        if stats.violations:
            died = 0
    finally:
        if _SCRATCH:
            shutil.rmtree(_SCRATCH, ignore_errors=True)

    known = known_findings(prop)
    seen_known = {}
    fresh = []
    for v in sorted(stats.violations, key=lambda v: (v['phase'], v['index'])):
        if v['key'] is not None and v['key'] in known:
            seen_known[v['key']] = v
        else:
            fresh.append(v)
    for key, v in sorted(seen_known.items()):
        out.write('KNOWN-FINDING: property=%s %s\n' % (prop, known[key]))
    for v in fresh[:5]:
        path = write_replay(prop, seed, tier, v)
        out.write('VIOLATION property=%s replay=%s\n' % (prop, path))
        out.write('  %s case %d: %s\n' % (v['phase'], v['index'],
                                          _short(v['msg'], 1500)))
    for e in stats.errors[:3]:
        out.write('ERROR in the check itself, phase %s case %d:\n%s\n' %
                  (e['phase'], e['index'], e['trace']))
    anchors = getattr(mod, 'FILES', [])
    cov = {}
    for rel in anchors:
        try:
            ex = executable_lines(rel)
        except (OSError, SyntaxError):
            continue
        hit = {ln for fn, ln in stats.lines if fn == rel} & ex
        cov[rel] = '%d of %d function lines executed under the monitors' % (
            len(hit), len(ex))
    if os.environ.get('RV_LINES'):
        with open(os.environ['RV_LINES'], 'wb') as f:
            pickle.dump(stats.lines, f)
    samples = []
    for ph in mod.PHASES:
        samples += stats.samples.get(ph.name, [])[:2]
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(evaluations=stats.evals,
                            distinct_nontrivial=len(stats.distinct),
                            rule=mod.RULE,
                            samples=samples[:12],
                            phases=dict(stats.phase_evals),
                            observed=dict(stats.counts),
                            code_executed=cov,
                            time_ran_out=stats.truncated),
              assumptions=getattr(mod, 'ASSUME', []),
              wall_s=round(wall, 2), violations=len(fresh))
    evd = EVID
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write('\n')
    out.write('%s %s seed=%d: %d cases, %d distinct non-trivial, %d '
              'assertions, %d violations, %.1f s%s\n' % (
                  prop, tier, seed, stats.evals, len(stats.distinct),
                  stats.counts['assertions'], len(fresh), wall,
                  ' (time ran out)' if stats.truncated else ''))
    out.flush()
    if fresh:
        return 1
    if stats.errors or died or not stats.evals or not stats.distinct:
        if died:
            out.write('%d workers died\n' % died)
        out.flush()
        return 2
    return 0

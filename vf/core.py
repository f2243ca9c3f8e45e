"""Check runner: deterministic cases, forked shards, watchdogs, verdicts, evidence.

A check module (vf/checks/cNN.py) defines

    ID, LEVEL, RULE, ASSUMPTIONS
    KINDS = {'kind': (function(ctx), quick_count, thorough_count)}
    MIN   = {'counter': minimum}       # below it the run is inconclusive (exit 2)
    setup()                            # optional, once before forking

A case function raises Violation (through ctx.fail/ctx.check/ctx.eq).  Any other
exception that reaches the runner means the library raised something the case
did not allow for, and is a violation too (its traceback is in the replay file).
Inconclusive is for harness/environment trouble only and leads to exit 2.
"""
import hashlib
import io
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'known_findings.txt')

CPU_LIMIT = 30.0        # CPU seconds per case: beyond it the case makes no progress
WALL_LIMIT = 240.0      # wall seconds without any finished case: inconclusive

real_sleep = time.sleep
real_monotonic = time.monotonic


class Violation(Exception):
    def __init__(self, msg, key=None, detail=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key
        self.detail = detail


class Inconclusive(BaseException):
    pass


class NoProgress(BaseException):
    """Raised by watchdogs when the library loops without end."""


def short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:                      # pragma: no cover
        s = '<unprintable %s>' % e
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


class Ctx(object):
    def __init__(self, prop, kind, idx, seed, tier):
        self.prop = prop
        self.kind = kind
        self.idx = idx
        self.seed = seed
        self.tier = tier
        self.rng = random.Random('%s/%s/%s/%d' % (seed, prop, kind, idx))
        self.counters = {}
        self.digests = set()
        self.notes = []
        self.evals = 0

    # --- observation -----------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, *what):
        """Record one observed, non-trivial execution by its content."""
        self.evals += 1
        h = hashlib.blake2b(repr(what).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
        self.digests.add(h)

    def note(self, **kw):
        if len(self.notes) < 40:
            self.notes.append({k: short(v) for k, v in kw.items()})

    # --- verdict ---------------------------------------------------------
    def fail(self, msg, key=None, **detail):
        raise Violation(msg, key, {k: short(v, 2000) for k, v in detail.items()})

    def check(self, cond, msg, key=None, **detail):
        self.count('assertions')
        if not cond:
            self.fail(msg, key, **detail)

    def eq(self, got, want, msg, key=None, **detail):
        self.count('assertions')
        if got != want or type(got) != type(want) and not _num(got, want):
            detail['got'] = got
            detail['want'] = want
            self.fail(msg, key, **detail)


def _num(a, b):
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool)


# ---------------------------------------------------------------------------
# known findings

def known_findings(prop):
    """KNOWN lines: 'KNOWN: property=C01 key=<mechanism> <what fails>'."""
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('KNOWN: '):
                    parts = line.split(None, 3)
                    if parts[1] == 'property=' + prop:
                        out[parts[2][len('key='):]] = parts[3] if len(parts) > 3 else ''
    except OSError:
        pass
    return out


# ---------------------------------------------------------------------------
# line coverage of the library, as evidence of reach

class Cover(object):
    def __init__(self):
        self.lines = set()
        self.on = False

    def start(self):
        m = getattr(sys, 'monitoring', None)
        if m is None:
            return
        try:
            m.use_tool_id(m.COVERAGE_ID, 'vf')
        except ValueError:
            return
        root = os.path.join(REPO, 'sunspec') + os.sep
        base = len(REPO) + 1

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(root) and '/test/' not in fn:
                self.lines.add((fn[base:], line))
            return m.DISABLE
        m.register_callback(m.COVERAGE_ID, m.events.LINE, on_line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)
        self.on = True


COVER = Cover()


# ---------------------------------------------------------------------------
# running one case

def _on_cpu(signum, frame):
    raise NoProgress('more than %d CPU seconds in one case' % CPU_LIMIT)


def run_case(mod, kind, idx, seed, tier):
    ctx = Ctx(mod.ID, kind, idx, seed, tier)
    fn = mod.KINDS[kind][0]
    viol = None
    incon = None
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        fn(ctx)
    except Violation as v:
        viol = {'msg': v.msg, 'key': v.key, 'detail': v.detail, 'trace': traceback.format_exc()}
    except NoProgress as v:
        viol = {'msg': 'no progress: %s' % v, 'key': 'no-progress', 'detail': None, 'trace': traceback.format_exc()}
    except Inconclusive as e:
        incon = '%s' % e
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError:
        incon = 'memory limit reached\n' + traceback.format_exc()
    except Exception as e:
        viol = {'msg': 'unexpected %s: %s' % (type(e).__name__, short(e, 300)), 'key': 'unexpected-' + type(e).__name__,
                'detail': None, 'trace': traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx, viol, incon


class Agg(object):
    def __init__(self):
        self.counters = {}
        self.digests = set()
        self.evals = 0
        self.cases = {}
        self.samples = []
        self.viols = []
        self.known = {}
        self.incon = []
        self.lines = set()

    def add(self, ctx, viol, incon, known):
        for k, v in ctx.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.digests |= ctx.digests
        self.evals += ctx.evals
        self.cases[ctx.kind] = self.cases.get(ctx.kind, 0) + 1
        if ctx.notes and len([s for s in self.samples if s['kind'] == ctx.kind]) < 2:
            self.samples.append({'kind': ctx.kind, 'case': ctx.idx, 'observed': ctx.notes[:3]})
        if viol:
            viol.update(kind=ctx.kind, idx=ctx.idx)
            if viol['key'] in known:
                self.known[viol['key']] = self.known.get(viol['key'], 0) + 1
            else:
                self.viols.append(viol)
        if incon:
            self.incon.append('%s/%d: %s' % (ctx.kind, ctx.idx, incon))

    def merge(self, o):
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.digests |= o.digests
        self.evals += o.evals
        for k, v in o.cases.items():
            self.cases[k] = self.cases.get(k, 0) + v
        for s in o.samples:
            if len([x for x in self.samples if x['kind'] == s['kind']]) < 2:
                self.samples.append(s)
        self.viols += o.viols
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        self.incon += o.incon
        self.lines |= o.lines


def worker(mod, plan, shard, nshard, seed, tier, wfd, hb, known):
    agg = Agg()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(1), 'wb', 0), write_through=True)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    COVER.start()
    done = 0
    for kind, n in plan:
        for idx in range(shard, n, nshard):
            ctx, viol, incon = run_case(mod, kind, idx, seed, tier)
            agg.add(ctx, viol, incon, known)
            done += 1
            os.write(hb, b'.')
            if len(agg.viols) >= 3 or len(agg.incon) >= 5:
                break
        if agg.viols:
            break
    agg.lines = COVER.lines
    data = pickle.dumps(agg)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


def run_plan(mod, plan, seed, tier, nshard, known):
    """Fork shards, collect their aggregates; returns (Agg, problems)."""
    procs = []
    for s in range(nshard):
        r, w = os.pipe()
        hr, hw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                os.close(hr)
                worker(mod, plan, s, nshard, seed, tier, w, hw, known)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(w)
        os.close(hw)
        procs.append({'pid': pid, 'r': r, 'hr': hr, 'buf': b'', 'last': time.monotonic(), 'open': 2, 'shard': s})
    total = Agg()
    problems = []
    live = {}
    for p in procs:
        live[p['r']] = p
        live[p['hr']] = p
    while live:
        rd, _, _ = select.select(list(live), [], [], 5.0)
        now = time.monotonic()
        for fd in rd:
            p = live[fd]
            data = os.read(fd, 65536)
            p['last'] = now
            if not data:
                os.close(fd)
                del live[fd]
            elif fd == p['r']:
                p['buf'] += data
        for p in procs:
            if (p['r'] in live or p['hr'] in live) and live.get(p['r']) is p and now - p['last'] > WALL_LIMIT:
                problems.append('shard %d: no case finished for %d s of wall time' % (p['shard'], WALL_LIMIT))
                try:
                    os.killpg(p['pid'], signal.SIGKILL)
                except OSError:
                    os.kill(p['pid'], signal.SIGKILL)
                p['last'] = now
    for p in procs:
        _, st = os.waitpid(p['pid'], 0)
        try:
            os.killpg(p['pid'], signal.SIGKILL)
        except OSError:
            pass
        if p['buf']:
            total.merge(pickle.loads(p['buf']))
        else:
            problems.append('shard %d ended without a result (status %#x)' % (p['shard'], st))
    return total, problems


# ---------------------------------------------------------------------------
# main

def write_replay(mod, v, seed, tier):
    d = os.path.join(EVID, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d-s%d.json' % (mod.ID, v['kind'], v['idx'], seed))
    with open(path, 'w') as f:
        json.dump({'property': mod.ID, 'kind': v['kind'], 'idx': v['idx'], 'seed': seed, 'tier': tier,
                   'message': v['msg'], 'key': v['key'], 'detail': v['detail'], 'trace': v['trace'],
                   'replay_cmd': '/opt/venv/bin/python /verif/run.py %s --replay %s' % (mod.ID, path)}, f, indent=1)
    return path


def main(mod, argv):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    nshard = int(os.environ.get('VERIF_JOBS', '8'))
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    if '--thorough' in argv:
        tier = 'thorough'
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            r = json.load(f)
        if hasattr(mod, 'setup'):
            mod.setup()
        ctx, viol, incon = run_case(mod, r['kind'], r['idx'], r['seed'], r['tier'])
        print(json.dumps({'violation': viol, 'inconclusive': incon, 'notes': ctx.notes}, indent=1, default=str))
        if viol:
            print('trace:\n' + viol['trace'])
            print('VIOLATION property=%s replay=%s' % (mod.ID, argv[argv.index('--replay') + 1]))
            return 1
        return 2 if incon else 0
    known = known_findings(mod.ID)
    if hasattr(mod, 'setup'):
        mod.setup()
    only = [a.split('=', 1)[1] for a in argv if a.startswith('--kind=')]
    plan = []
    for k, (fn, q, th) in mod.KINDS.items():
        if only and k not in only:
            continue
        n = q if tier == 'quick' else th
        plan.append((k, max(1, int(n * scale))))
    agg, problems = run_plan(mod, plan, seed, tier, nshard, known)
    problems += agg.incon[:5]
    if not only and scale >= 1:
        for k, n in getattr(mod, 'MIN', {}).items():
            if agg.counters.get(k, 0) < n and not agg.viols:
                problems.append('monitor counter %s=%d below %d: not enough observed' % (k, agg.counters.get(k, 0), n))
    wall = time.monotonic() - t0
    cov = {}
    for fn, line in agg.lines:
        cov[fn] = cov.get(fn, 0) + 1
    coverage = {
        'evaluations': agg.evals,
        'distinct_nontrivial': len(agg.digests),
        'rule': mod.RULE,
        'samples': agg.samples[:8],
        'cases': agg.cases,
        'observed': dict(sorted(agg.counters.items())),
        'library_lines_executed': dict(sorted(cov.items())),
    }
    if agg.known:
        coverage['known_findings_hit'] = agg.known
    if problems:
        coverage['inconclusive'] = [short(p, 600) for p in problems[:6]]
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': coverage,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(agg.viols)}
    os.makedirs(EVID, exist_ok=True)
    txt = json.dumps(ev, indent=1, default=str)
    if len(txt) > 60000:
        coverage['samples'] = coverage['samples'][:1]
        txt = json.dumps(ev, default=str)
    tmp = os.path.join(EVID, '.%s.tmp' % mod.ID)
    with open(tmp, 'w') as f:
        f.write(txt)
    os.replace(tmp, os.path.join(EVID, '%s.json' % mod.ID))
    for k in agg.known:
        print('KNOWN-FINDING: property=%s %s (%s)' % (mod.ID, k, known.get(k)))
    print('%s tier=%s seed=%d cases=%s evaluations=%d distinct=%d wall=%.1fs' % (
        mod.ID, tier, seed, agg.cases, agg.evals, len(agg.digests), wall))
    if '-v' in argv:
        print(json.dumps(coverage['observed'], indent=1))
    if agg.viols:
        order = [k for k, n in plan]
        agg.viols.sort(key=lambda v: (order.index(v['kind']), v['idx']))
        for v in agg.viols[:3]:
            path = write_replay(mod, v, seed, tier)
            print('  %s/%d: %s %s' % (v['kind'], v['idx'], v['msg'], short(v['detail'], 700)))
            print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        if '-v' in argv:
            print(agg.viols[0]['trace'])
        return 1
    if problems:
        for p in problems[:6]:
            print('INCONCLUSIVE property=%s %s' % (mod.ID, short(p, 1500)))
        return 2
    return 0

"""C23: devices do not interfere (every device alone against the same device among others, interleaved and in threads)."""
import random
import sys
import threading

from .. import core, ref, rig, sim
from ..env import client, device, modbus

ID = 'C23'
LEVEL = 'exploration'
TECH = 'non-interference monitor: per-device event logs of interleaved and threaded runs under a seeded line-level scheduler compared with solo runs'
RULE = ('Random programs (construct, scan, read, assign, write, fail, close, reopen) for 2 to 5 devices on mapped files, TCP endpoints (also '
        'several units behind one) and serial ports (also shared ones), executed interleaved by operation in one thread, or one thread per '
        'device with a seeded scheduler that switches threads between lines of the library, and once alone; results, values, pending '
        'modifications, scripting classes, wire traffic and registers of each device must be equal. Distinct by programs and schedule.')
ASSUMPTIONS = ['devices sharing a serial port are used from one thread (documented)', 'the definition path list is not changed while threads run']


# ---------------------------------------------------------------------------
# a seeded scheduler switching threads between lines of the library

class Scheduler(object):
    def __init__(self, seed, n, rate):
        self.rng = random.Random(seed)
        self.rate = rate
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = set(range(n))
        self.free = False
        self.switches = 0
        self.lines = 0
        self.cur = None
        self.hash = 0
        self.root = core.REPO
        self.local = threading.local()

    def start(self):
        self.cur = self.rng.randrange(len(self.sems))
        self.sems[self.cur].release()

    def wait(self, i):
        while not self.free:
            seen = self.lines
            if self.sems[i].acquire(timeout=3):
                return
            if self.lines == seen and self.cur != i:
                # the running thread waits for something a stopped thread holds: let all run
                self.free = True
                for s in self.sems:
                    s.release()

    def point(self, i, line):
        if self.free:
            return
        self.lines += 1
        if self.rng.random() >= self.rate:
            return
        others = [k for k in self.live if k != i]
        if not others:
            return
        j = self.rng.choice(others)
        self.switches += 1
        self.hash = hash((self.hash, i, j, line)) & 0xffffffffffff
        self.cur = j
        self.sems[j].release()
        self.wait(i)

    def done(self, i):
        self.live.discard(i)
        if self.live and not self.free:
            j = self.rng.choice(sorted(self.live))
            self.cur = j
            self.sems[j].release()

    def trace(self, i):
        root = self.root

        def local(frame, event, arg):
            if event == 'line':
                self.point(i, frame.f_lineno)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(root):
                return local
            return None
        return glob


# ---------------------------------------------------------------------------
# devices and programs

class Spec(object):
    """A device and the program run on it."""

    def __init__(self, i, kind, unit, image, level, seed, plan, dirs, **where):
        self.i = i
        self.kind = kind
        self.unit = unit
        self.image = image
        self.level = level
        self.seed = seed
        self.plan = plan
        self.dirs = dirs
        self.where = where
        self.start = [bytes(m.data) for m in image.models]


class Dev(object):
    def __init__(self, w, spec, name):
        self.w = w
        self.s = spec
        self.log = []
        for m, b in zip(spec.image.models, spec.start):
            m.data[:] = b
        self.r = rig.Rig(w, spec.image, spec.kind, spec.unit, **spec.where)
        if spec.kind == 'MAPPED':
            self.r.name = self.r.args['name'] = name
        elif spec.plan:
            self.hook()
        self.d = None
        self.sd = None
        self.failed = None

    def hook(self):
        st = self.r.station
        if st.fault is None:
            st.plans = {}
            st.per_unit = {}

            def fault(n, req):
                if req is None:
                    return None
                k = st.per_unit.get(req.unit, 0)
                st.per_unit[req.unit] = k + 1
                f = st.plans.get(req.unit, {}).get(k)
                return {None: None, 'exc': sim.Fault('exc', code=4), 'drop': sim.Fault('drop'), 'lost': sim.Fault('drop', apply=True)}[f]
            st.fault = fault
        st.plans[self.s.unit] = self.s.plan

    def do(self, what, fn):
        try:
            v = fn()
            self.log.append((what, 'ok'))
            return v
        except Exception as e:
            self.log.append((what, type(e).__name__))

    def state(self):
        """Everything observable of the device object."""
        if self.d is None:
            return None
        out = []
        for m in self.d.models_list:
            out.append((int(m.id), int(m.addr), int(m.len), m.index, m.load_error is not None,
                        [[(pid, int(p.addr), repr(p.value_base), repr(p.value), bool(p.dirty)) for pid, p in b.points.items()] for b in m.blocks]))
        x = None
        if self.sd is not None:
            x = []
            for n in self.sd.models:
                e = self.sd[n]
                for k, o in enumerate(e[1:] if isinstance(e, list) else [e]):
                    x.append((n, o.model.id, list(o.points), sorted(k for k in dir(type(o)) if isinstance(getattr(type(o), k), property)),
                              [(a, repr(getattr(o, a))) for a in o.points],
                              o.repeating_name, [(list(b.points), sorted(k for k in dir(type(b)) if isinstance(getattr(type(b), k), property)),
                                                  [(a, repr(b[a])) for a in b.points]) for b in o.repeating[1:]]))
        return out, sorted((int(k), [int(m.addr) for m in v]) for k, v in self.d.models.items()), self.d.base_addr, x

    def open(self):
        if self.s.level == 'script':
            self.sd = self.do('construct', self.r.scripting)
            self.d = self.sd.device if self.sd is not None else None
            if self.d is not None:
                self.r.obj = self.d
        else:
            self.d = self.do('construct', self.r.client)

    def close(self):
        if self.sd is not None:
            self.sd.close()
        elif self.d is not None:
            self.d.close()
        self.d = self.sd = None

    def program(self):
        """Generator: one operation per step."""
        rng = random.Random(self.s.seed)
        image = self.s.image
        self.mem = None
        for k in range(rng.randint(5, 16)):
            if self.d is None:
                self.open()
                self.log.append(self.state())
                yield
                continue
            op = rng.choice(['scan', 'read', 'read', 'assign', 'assign', 'assign', 'write', 'write', 'state', 'mread', 'reopen'])
            if self.s.level != 'script' and not self.d.models_list:
                op = 'scan'
            if op == 'scan':
                if self.s.level != 'script':
                    self.do('scan', self.d.scan)
            elif op == 'read':
                self.do('read', self.sd.read if self.sd is not None else self.d.read_points)
            elif op == 'state':
                pass
            elif op == 'reopen':
                if rng.random() < .5:
                    self.close()
            elif self.d.models_list:
                j = rng.randrange(len(self.d.models_list))
                m = self.d.models_list[j]
                if op == 'mread':
                    self.do('mread', m.read_points)
                elif op == 'write':
                    self.do('write', m.write_points)
                else:
                    self.assign(rng, m, j)
            self.log.append(self.state())
            yield
        if self.d is not None:
            for m in self.d.models_list:
                self.do('write', m.write_points)
                yield
            self.do('read', self.d.read_points)
            self.log.append(self.state())
            self.mem = sorted(self.r.memory().items()) if self.s.kind == 'MAPPED' else None
            yield
        self.close()

    def assign(self, rng, m, j):
        if m.load_error:
            return
        pts = [p for b in m.blocks for p in b.points_list if p.point_type.access == 'rw' and (p.value_base is not None or p.point_type.sf is None)]
        for p in rng.sample(pts, min(len(pts), rng.randint(1, 4))):
            t = p.point_type.type
            if t not in ref.INT or p.point_type.sf is not None:
                if t == 'string':
                    p.value = ref.rand_text(rng, int(p.point_type.len), latin=False)
                elif p.point_type.sf is not None:
                    p.value = p.value           # marks it as modified
                continue
            p.value = ref.rand_value(rng, t, 1)

    def wire(self):
        if self.s.kind == 'MAPPED':
            return self.mem
        st = self.r.station
        return ([(q.frame, q.status, q.reply) for q in st.requests if q.unit == self.s.unit], self.r.unit.writes, sorted(self.r.unit.h.items()))


def make_specs(ctx, w, rng, threads):
    n = rng.choice([2, 2, 3, 3, 4, 5]) if not threads else rng.choice([2, 2, 3, 4])
    own = not threads and rng.random() < .35
    stores = []
    size = rng.choice([1, 4, 12, 30])
    ids = [rig.fresh_id() for _ in range(rng.choice([1, 2, 3]))]
    shared = [ref.rand_md(rng, i, size=rng.choice([1, 4, 12, 30, 60]), name=rng.choice([None, 'mod_%d' % i])) for i in ids]
    common = ref.common_md()
    w.define(common, *shared)
    specs = []
    used = set()
    for k in range(n):
        mds = shared
        dirs = None
        if own:
            st = ref.Store()
            stores.append(st)
            mds = [ref.rand_md(rng, md.id, size=rng.choice([1, 4, 12, 30]), name=rng.choice([md.name, md.name, None])) for md in shared]
            for md in mds:
                st.put(md)
            st.put(common)
            dirs = st.dir
        models = []
        if rng.random() < .5:
            models.append(ref.ModelImage(common, 0))
        for z in range(rng.choice([1, 2, 3, 4])):
            md = rng.choice(mds)
            models.append(ref.ModelImage(md, rng.randint(0, 3) if md.rep and md.rep.len else 0))
        img = ref.DeviceImage(rng.choice([40000, 40000, 0, 50000]), models)
        for m in models:
            m.randomize(rng, punimpl=.1)
        kind = rng.choice(rig.TRANSPORTS)
        where = {}
        unit = k + 1 if rng.random() < .5 else rng.randint(1, 247)
        if kind == 'TCP':
            where = dict(host='10.0.0.%d' % (1 if rng.random() < .5 else k + 1), port=502)
            key = (where['host'],)
        elif kind == 'RTU':
            where = dict(bus='/dev/vf%d' % (k if threads or rng.random() < .4 else 0))
            key = (where['bus'],)
        else:
            key = ('map', k)
        while key + (unit,) in used:
            unit = unit % 247 + 1
        used.add(key + (unit,))
        plan = {} if rng.random() < .6 else {i: rng.choice(['exc', 'drop', 'lost']) for i in range(400) if rng.random() < .08}
        specs.append(Spec(k, kind, unit, img, rng.choice(['script', 'script', 'client']), rng.getrandbits(40), plan, dirs, **where))
    return specs, stores


def world_run(ctx, w, specs, fn):
    """Fresh network with the devices of specs; fn runs them."""
    with sim.Net(ctx) as net:
        w.net, w.ports = net, 0
        devs = []
        for s in specs:
            devs.append(Dev(w, s, s.mapfile))
        fn(devs)
        if net.open_sockets() or net.open_ports():
            ctx.fail('connections or ports are left open', 'leak', sockets=len(net.open_sockets()), ports=net.open_ports())
        for d in devs:
            if d.failed:
                raise d.failed
    rig.clear_caches_light()
    return devs


def scoped(d, it):
    if d.s.dirs is None:
        return next(it, StopIteration)
    with device.fresh_file_pathlist(d.s.dirs):
        return next(it, StopIteration)


def run_interleaved(seed):
    def fn(devs):
        rng = random.Random(seed)
        live = [(d, d.program()) for d in devs]
        burst = rng.choice([1, 1, 3])
        while live:
            x = rng.choice(live)
            for k in range(rng.randint(1, burst)):
                if scoped(*x) is StopIteration:
                    live.remove(x)
                    break
    return fn


def run_threads(seed, rate, stats):
    def fn(devs):
        sch = Scheduler(seed, len(devs), rate)

        def body(i, d):
            sch.wait(i)
            sys.settrace(sch.trace(i))
            try:
                for _ in d.program():
                    pass
            except BaseException as e:
                d.failed = e
            finally:
                sys.settrace(None)
                sch.done(i)
        ts = [threading.Thread(target=body, args=(i, d), daemon=True) for i, d in enumerate(devs)]
        for t in ts:
            t.start()
        sch.start()
        for t in ts:
            t.join(60)
            if t.is_alive():
                raise core.NoProgress('a device thread does not finish')
        stats.update(lines=sch.lines, switches=sch.switches, hash=sch.hash, free=sch.free)
    return fn


def compare(ctx, got, alone, how):
    for d, s in zip(got, alone):
        if d.log != s.log:
            k = next((i for i, (a, b) in enumerate(zip(d.log, s.log)) if a != b), min(len(d.log), len(s.log)))
            a, b = (x.log[k] if k < len(x.log) else None for x in (d, s))
            ctx.fail('a device %s behaves differently from the same device alone (step %d)' % (how, k), 'results', kind=d.s.kind, level=d.s.level,
                     **diff(a, b))
        if d.wire() != s.wire():
            a, b = d.wire(), s.wire()
            ctx.fail('the traffic of a device %s differs from that of the same device alone' % how, 'traffic', kind=d.s.kind,
                     among=a[0][-3:] if d.s.kind != 'MAPPED' else '', alone=b[0][-3:] if d.s.kind != 'MAPPED' else '')
        ctx.count('devices_compared')
        ctx.count('states_compared', len(d.log))
        ctx.count('kind_' + d.s.kind)
        ctx.count('errors', len([x for x in d.log if isinstance(x, tuple) and len(x) == 2 and x[1] not in ('ok',)]))
        if d.s.kind != 'MAPPED':
            ctx.count('requests_compared', len(d.wire()[0]))


def diff(a, b):
    """The first difference of two states."""
    path = []
    while isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) == type(b):
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None)
        if k is None:
            break
        path.append(k)
        a, b = a[k], b[k]
    return dict(among=a, alone=b, path=path)


def prepare(w, specs):
    w.ports = 1000                  # names apart from those used in the runs
    for s in specs:
        s.mapfile = None
        if s.kind == 'MAPPED':
            for m, b in zip(s.image.models, s.start):
                m.data[:] = b
            s.mapfile = rig.Rig(w, s.image, 'MAPPED', s.unit).name


def common_case(ctx, threads):
    rng = ctx.rng
    with rig.World(ctx) as w:
        specs, stores = make_specs(ctx, w, rng, threads)
        try:
            prepare(w, specs)
            seed = rng.getrandbits(40)
            if threads:
                stats = {}
                # the concurrent run comes first: nothing has been generated or cached yet
                got = world_run(ctx, w, specs, run_threads(seed, rng.choice([.005, .02, .1]), stats))
                how = 'in its own thread among others'
                ctx.count('switches', stats['switches'])
                ctx.count('lines_scheduled', stats['lines'])
                if stats['free']:
                    ctx.count('free_running')
                sig = stats['hash']
            else:
                got = world_run(ctx, w, specs, run_interleaved(seed))
                how = 'interleaved with others'
                sig = seed
                if stores:
                    ctx.count('own_definitions')
            for d in got:
                d.wired = d.wire()
                d.wire = (lambda v: lambda: v)(d.wired)
            alone = []
            for s in specs:
                alone += world_run(ctx, w, [s], run_interleaved(seed))
            compare(ctx, got, alone, how)
            buses = [s.where.get('bus') or s.where.get('host') for s in specs if s.where]
            if len(set(buses)) < len(buses):
                ctx.count('shared_endpoint')
            ctx.seen([(s.kind, s.unit, s.level, s.seed, s.start) for s in specs], sig)
            ctx.note(devices=[(s.kind, s.unit, s.level) for s in specs], steps=[len(d.log) for d in got])
        finally:
            for st in stores:
                st.close()


def interleaved(ctx):
    common_case(ctx, False)


def threaded(ctx):
    common_case(ctx, True)


KINDS = {'interleaved': (interleaved, 500, 8000), 'threads': (threaded, 250, 5000)}
MIN = {'devices_compared': 1500, 'states_compared': 15000, 'requests_compared': 15000, 'switches': 20000, 'own_definitions': 100, 'shared_endpoint': 150}

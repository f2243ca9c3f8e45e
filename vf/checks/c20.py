"""C20: tracing is a pure observer and shows every frame (differential run with and without, trace log against the wire log)."""
import contextlib
import io
import random
import re

from .. import ref, rig, sim
from ..env import client, modbus

ID = 'C20'
LEVEL = 'exploration'
TECH = 'differential monitor (same history with tracing off and on) plus an order checker of the trace log against the recorded wire log'
RULE = ('Random histories at the Modbus, client and scripting level on TCP and serial devices, with fragmented replies, device exceptions and '
        'transport faults, each executed without tracing, with a trace function and with trace=True (print); results, errors and the byte '
        'streams must be the same, and the hexadecimal strings in the trace must be the frames on the wire in order, on lines naming connection, unit, address and direction. Distinct by wire log.')
ASSUMPTIONS = ['a reply cut short or malformed in length may, but need not, appear in the trace', 'the trace function itself does not fail']

LIB = (modbus.ModbusClientError, client.SunSpecClientError)
HEX = re.compile(r'([0-9A-Fa-f]{8,})\s*$')


def make_plan(rng, n=60):
    """Faults by request number, decided before the run."""
    plan = {}
    if rng.random() < .25:
        return plan
    rate = rng.choice([.03, .15, .4])
    for i in range(400):
        if rng.random() < rate:
            plan[i] = (rng.choice(['exc', 'exc', 'drop', 'late', 'cut', 'crc', 'foreign']), rng.random(), rng.randrange(1, 12), rng.choice(['close', 'silence', 'reset']))
    return plan


def fault_of(plan, kind, incomplete):
    def f(n, req):
        p = plan.get(n)
        if p is None or req is None:
            return None
        what, r, code, then = p
        if what == 'exc':
            return sim.Fault('exc', code=code)
        if what == 'drop':
            return sim.Fault('drop', apply=r < .5)
        if what == 'late':
            incomplete.add(n)
            return sim.Fault('late')
        if what == 'cut':
            incomplete.add(n)
            return sim.Fault('cut', keep=1 + int(r * 8), then='silence' if kind == 'RTU' and then == 'close' else then)
        if what == 'crc':
            def g(frame, req):
                b = bytearray(frame)
                k = 0 if kind == 'TCP' else 3
                k += int(r * (2 if kind == 'TCP' else len(b) - k))
                b[k] ^= 0x41
                return bytes(b)
            return sim.Fault('raw', fn=g)

        def h(frame, req):
            b = bytearray(frame)
            if kind == 'TCP':
                b[6] ^= 1
                return bytes(b)
            b[0] ^= 1
            return bytes(b[:-2]) + sim.crc16(bytes(b[:-2]))
        return sim.Fault('raw', fn=h)
    return f


RESULTS = [None, True, 1, '', 'text', 0, False]


class Run(object):
    """One execution of the history of a case."""

    def __init__(self, ctx, w, image, kind, unit, level, seed, plan, chunk, mode):
        self.out = []
        self.lines = []
        rng = random.Random(seed)
        bytes0 = {m: bytes(m.data) for m in image.models}
        with sim.Net(ctx) as net:
            w.net, w.ports = net, 0
            rng2 = random.Random(seed + 1)
            w.rng = rng2
            r = rig.Rig(w, image, kind, unit)
            st = self.st = r.station
            st.chunker = rig.rand_chunks(rng2, chunk)
            self.incomplete = set()
            st.fault = fault_of(plan, kind, self.incomplete)
            tf = {'off': None, 'func': self.record, 'print': True}[mode]
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                getattr(self, level)(rng, r, image, tf)
            if mode == 'print':
                self.lines = [x for x in buf.getvalue().split('\n') if x]
            self.printed = buf.getvalue()
            self.net = net
            self.unit = r.unit
            self.where = '%s:%s' % (r.args['ipaddr'], r.args.get('ipport', 502)) if kind == 'TCP' else r.args['name']
        for m in image.models:
            m.data[:] = bytes0[m]

    def record(self, s):
        # what a trace function returns means nothing
        self.lines.append(s)
        return RESULTS[len(self.lines) % len(RESULTS)]

    def do(self, what, fn, *a):
        try:
            v = fn(*a)
            self.out.append((what, 'ok', v))
            return v
        except Exception as e:
            self.out.append((what, type(e).__name__, str(e)))

    def modbus(self, rng, r, image, tf):
        lim = rng.choice([125, 125, 50, 7, 300])
        if r.transport == 'TCP':
            d = modbus.ModbusClientDeviceTCP(r.unit_id, r.args['ipaddr'], r.args['ipport'], trace_func=tf if tf is not True else client_print,
                                             max_count=lim)
        else:
            d = modbus.ModbusClientDeviceRTU(r.unit_id, r.args['name'], trace_func=tf if tf is not True else client_print, max_count=lim)
        n = len(image.bytes()) // 2
        for k in range(rng.randint(2, 10)):
            a = image.base + rng.randrange(n)
            c = rng.randint(1, min(300, image.base + n + 2 - a))
            if rng.random() < .15:
                # an address the device does not have
                a = rng.choice([0, 1, 15, 16, 255, 256, 4095, 4096, 9999, 32767, 32768, 65000, 65534, 65535])
                c = rng.randint(1, min(130, 65536 - a))
            op = rng.random()
            if op < .6:
                self.do(('read', a, c), d.read, a, c)
            elif op < .9:
                self.do(('write', a, c), d.write, a, bytes(rng.getrandbits(8) for _ in range(2 * c)))
            elif r.transport == 'TCP':
                self.do(rng.choice(['connect', 'disconnect']), d.connect if rng.random() < .6 else d.disconnect)
        d.close()

    def points(self, dev):
        return [(m.id, m.addr, m.len, m.load_error, [(b.index, p.point_type.id, p.value_base, p.value_sf) for b in m.blocks for p in b.points_list])
                for m in dev.models_list]

    def client(self, rng, r, image, tf):
        d = client.ClientDevice(r.type, slave_id=r.unit_id, trace=tf or False, **r.args)
        self.work(rng, r, image, d)
        d.close()

    def script(self, rng, r, image, tf):
        s = self.do('construct', lambda: holder.append(client.SunSpecClientDevice(r.type, slave_id=r.unit_id, trace=tf or False, **r.args)))
        if holder:
            d = holder.pop()
            self.work(rng, r, image, d.device, scan=False, read=d.read)
            d.close()

    def work(self, rng, r, image, d, scan=True, read=None):
        if scan:
            for i in range(3):
                if self.do('scan', d.scan) is None and self.out[-1][1] == 'ok':
                    break
        for k in range(rng.randint(1, 4)):
            self.do('read', read or d.read_points)
            self.out.append(repr(self.points(d)))
            if not d.models_list:
                continue
            m = rng.choice(d.models_list)
            image.sync(r.unit)
            pairs = [(x, y) for x, y in zip(d.models_list, image.models) if x is m]
            ts = rig.targets(pairs)
            for t in rng.sample(ts, min(len(ts), rng.randint(0, 3))):
                v, _ = rig.value_for(rng, t)
                p = t.point
                if p.value_base is None and t.p.sf is not None:
                    continue
                try:
                    p.value = v
                except Exception as e:
                    self.out.append(('assign', type(e).__name__))
            self.do('write', m.write_points)
            self.out.append(repr(self.points(d)))


holder = []


def client_print(s):
    print(s)


def case(ctx):
    rng = ctx.rng
    kind = rng.choice(['TCP', 'RTU'])
    level = rng.choice(['modbus', 'client', 'script'])
    with rig.World(ctx) as w:
        image = rig.rand_device(w, nmodels=rng.choice([1, 2]), max_regs=400)
        unit = rng.choice([1, 2, 126, 247])
        seed = rng.getrandbits(40)
        plan = make_plan(rng)
        chunk = rng.choice(['whole', 'bytes', 'random', 'head', 'tail'])
        runs = {}
        for mode in ('off', 'func', 'print'):
            del holder[:]
            rig.clear_caches()
            runs[mode] = Run(ctx, w, image, kind, unit, level, seed, plan, chunk, mode)
        off = runs['off']
        ctx.check(not off.printed and not off.lines, 'output without tracing', 'output-without-trace', printed=off.printed)
        ctx.check(not runs['func'].printed, 'something is printed although a trace function is given', 'output-with-function', printed=runs['func'].printed)
        for mode in ('func', 'print'):
            on = runs[mode]
            if on.out != off.out:
                k = next((i for i, (a, b) in enumerate(zip(on.out, off.out)) if a != b), min(len(on.out), len(off.out)))
                ctx.fail('results with tracing (%s) differ' % mode, 'trace-results', traced=on.out[k:k + 1], plain=off.out[k:k + 1], step=k)
            if [q.frame for q in on.st.requests] != [q.frame for q in off.st.requests]:
                ctx.fail('requests with tracing (%s) differ' % mode, 'trace-requests', traced=on.st.requests[:8], plain=off.st.requests[:8])
            if on.st.replies != off.st.replies or on.unit.writes != off.unit.writes:
                ctx.fail('traffic with tracing (%s) differs' % mode, 'trace-traffic')
            if [e for e in on.net.events if e[0] != 'flushed'] != [e for e in off.net.events if e[0] != 'flushed']:
                ctx.fail('transport operations with tracing (%s) differ' % mode, 'trace-events')
            ctx.check(on.net.now == off.net.now and on.net.slept == off.net.slept, 'timing with tracing differs', 'trace-timing')
            compare(ctx, on, mode)
        ctx.count('requests', len(off.st.requests))
        ctx.count('steps', len(off.out))
        ctx.count('errors', len([o for o in off.out if o[1] not in ('ok',) and isinstance(o, tuple)]))
        ctx.count('level_' + level)
        ctx.count('transport_' + kind)
        ctx.seen(kind, level, [q.frame for q in off.st.requests], off.st.replies)
        ctx.note(level=level, transport=kind, requests=len(off.st.requests), trace=runs['func'].lines[:3])


def compare(ctx, run, mode):
    """Trace lines against the frames on the wire."""
    want = []
    replies = iter(run.st.replies)
    for q in run.st.requests:
        want.append((q.frame, True, q))
        if q.status in ('dropped', 'no-unit') or q.status.endswith('-dropped'):
            continue
        want.append((next(replies), q.n not in run.incomplete, q))
    request = {id(x) for x in want if x[0] is x[2].frame}
    got = []
    for line in run.lines:
        ctx.check(isinstance(line, str), 'trace line of type %s' % type(line).__name__, 'trace-line')
        m = HEX.search(line)
        if not m:
            continue
        h = m.group(1)
        if len(h) % 2:
            h = h[1:]
        got.append((h.lower(), line))
    i = 0
    for h, line in got:
        while i < len(want):
            frame, required, q = want[i]
            i += 1
            x = frame.hex()
            # a label before the bytes may itself look hexadecimal
            if h == x or (required and h.endswith(x)) or (not required and x.startswith(h)):
                ctx.count('frames_matched')
                label(ctx, run, line, x, id(want[i - 1]) in request, q)
                break
            if required:
                ctx.fail('the trace (%s) shows %s where the wire carried %s' % (mode, h, x), 'trace-content', request=q, status=q.status)
        else:
            ctx.fail('the trace (%s) shows a frame that was not on the wire: %s' % (mode, h), 'trace-extra')
    left = [x for x in want[i:] if x[1]]
    if left:
        ctx.fail('the trace (%s) misses %d frames' % (mode, len(left)), 'trace-missing', first=left[0][0].hex(), request=left[0][2])


def label(ctx, run, line, x, request, q):
    """The words before the bytes: port or host, unit, register address and direction."""
    m = re.search(re.escape(x) + r'\s*$', line, re.I)
    head = line[:m.start()] if m else line
    where = run.where
    ok = head.startswith(where + ':%d[' % q.unit) and '[addr=%d]' % q.addr in head
    ctx.check(ok, 'a trace line names another device or register than its frame: %r' % head, 'trace-label', line=line, where=where, request=q)
    ctx.check(('<-' in head) == (not request) and ('->' in head) == request, 'a trace line mistakes requests and replies: %r' % head,
              'trace-direction', line=line, request=q)
    ctx.count('labels')


def shared_case(ctx):
    """Several devices on one port or server: each trace shows the frames of its device alone."""
    rng = ctx.rng
    kind = rng.choice(['RTU', 'RTU', 'TCP'])
    with rig.World(ctx) as w:
        n = rng.choice([2, 2, 3])
        ids = rng.sample(range(1, 248), n)
        units = {}
        for i in ids:
            units[i] = sim.Unit()
            for a in range(300):
                units[i].h[40000 + a] = rng.getrandbits(16)
        st = w.net.add_tcp('h', 502, units) if kind == 'TCP' else w.net.add_bus('/dev/c20', units)
        st.chunker = rig.rand_chunks(rng)
        rate = rng.choice([0, 0, .2])
        plan = make_plan(rng) if rate else {}
        incomplete = set()
        st.fault = fault_of(plan, kind, incomplete)
        lines = {i: [] if rng.random() < .7 else None for i in ids}
        devs = {}
        for i in ids:
            tf = None if lines[i] is None else lines[i].append
            if kind == 'TCP':
                devs[i] = modbus.ModbusClientDeviceTCP(i, 'h', trace_func=tf) if rng.random() < .5 else \
                    client.ClientDevice(client.TCP, i, ipaddr='h', trace=tf or False)
            else:
                devs[i] = modbus.ModbusClientDeviceRTU(i, '/dev/c20', trace_func=tf) if rng.random() < .5 else \
                    client.ClientDevice(client.RTU, i, name='/dev/c20', trace=tf or False)
        for _ in range(rng.randint(4, 25)):
            i = rng.choice(ids)
            a = rng.randint(0, 290)
            c = rng.randint(1, min(200, 300 - a))
            try:
                if rng.random() < .6:
                    devs[i].read(40000 + a, c)
                else:
                    devs[i].write(40000 + a, bytes(rng.getrandbits(8) for _ in range(2 * c)))
            except LIB:
                ctx.count('errors')
        it = iter(st.replies)
        reply = {q.n: next(it) for q in st.requests if not (q.status in ('dropped', 'no-unit') or q.status.endswith('-dropped'))}
        for i in ids:
            if lines[i] is None:
                continue

            class R(object):
                pass
            run, run.st = R(), R()
            run.lines, run.incomplete = lines[i], incomplete
            run.where = 'h:502' if kind == 'TCP' else '/dev/c20'
            run.st.requests = [q for q in st.requests if q.unit == i]
            run.st.replies = [reply[q.n] for q in run.st.requests if q.n in reply]
            compare(ctx, run, 'own')
            ctx.count('own_traces')
        for d in devs.values():
            d.close()
        ctx.seen('shared', kind, [q.frame for q in st.requests])


KINDS = {'shared': (shared_case, 1500, 20000), 'history': (case, 2500, 30000)}
MIN = {'labels': 50000, 'own_traces': 1500, 'frames_matched': 80000, 'requests': 20000, 'errors': 2500, 'level_modbus': 500, 'level_client': 500, 'level_script': 500}

"""C26: timeouts, limits, delays and line settings (virtual clock; a few runs on real sockets and terminals)."""
import errno
import os
import pty
import socket
import threading
import time
import tty

from .. import core, ref, rig, sim
from ..env import client, modbus

ID = 'C26'
LEVEL = 'exploration'
TECH = 'virtual-clock monitor: every elapsed second must be explained by a configured timeout or delay; ledger of requests and line settings'
RULE = ('Devices created at Modbus, client and scripting level over every transport with random or default timeouts, limits, delays, ports, '
        'baud rates and parities, in histories of connecting, scanning, reading and writing against devices that fall silent, block the '
        'sender, answer partly or cannot be reached, at any request; after every operation the time on the virtual clock, the sleeps, '
        'the number and size of requests and the settings of the port are compared with the configuration. Some silent servers and '
        'terminals on real sockets. Distinct by configuration, operations and outcomes.')
ASSUMPTIONS = ['one device per serial port', 'a device that answers does so at once', 'wall-clock bounds for real sockets are generous (hang detection)']

LIB = (modbus.ModbusClientError, client.SunSpecClientError)
BAUDS = (300, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200)
TIMES = (.05, .1, .25, .5, 1, 1, 1.5, 2, 3, 5, 10, 30, 60, 120)
SILENT = ('dropped', 'no-unit', 'sendblock')


def is_silent(req):
    return req.status in SILENT or req.status.endswith('-late') or req.status.endswith('-cut') or req.status.endswith('-reply-dropped')


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


class Watch(object):
    """Checks the time one operation took."""

    def __init__(self, ctx, w, st):
        self.ctx = ctx
        self.w = w
        self.st = st
        self.mark()

    def mark(self):
        n = self.w.net
        self.now = n.now
        self.req = len(self.st.requests)
        self.ev = len(n.events)
        self.sl = len(n.slept)

    def done(self, what, timeout, connect_timeout=None, connects=0, delay=0):
        """Every second since the mark belongs to a silent request or connection attempt, or to a requested delay."""
        ctx = self.ctx
        n = self.w.net
        reqs = self.st.requests[self.req:]
        silent = [q for q in reqs if is_silent(q)]
        slept = n.slept[self.sl:]
        took = n.now - self.now
        want = timeout * len(silent) + (connect_timeout or 0) * connects + delay * len(slept)
        if not near(took, want):
            ctx.fail('%s took %g s; %d unanswered requests with a timeout of %g s, %d unanswered connections with %s s and %d delays of %g s make %g s' % (
                what, took, len(silent), timeout, connects, connect_timeout, len(slept), delay, want), 'elapsed',
                requests=reqs[:8], slept=slept[:8], waits=[e for e in n.events[self.ev:] if e[0] == 'timeout'][:8])
        if not delay:
            ctx.check(not slept, '%s slept without a delay' % what, 'delay', slept=slept)
        for q in silent:
            ctx.count('silences_timed')
        ctx.count('operations_timed')
        self.mark()
        return len(silent)


def mute(rng, st, k, n, how):
    """From the k-th request on, n requests stay unanswered."""
    first = len(st.requests) + k
    keep = rng.randint(1, 4)

    def fault(i, req):
        if not first <= i < first + n:
            return None
        if req is None:
            return sim.Fault('sendblock') if how == 'block' else None
        if how == 'drop':
            return sim.Fault('drop')
        if how == 'lost':
            return sim.Fault('drop', apply=True)
        if how == 'late':
            return sim.Fault('late')
        if how == 'cut':
            return sim.Fault('cut', keep=keep, then='silence')
    st.fault = fault


HOW = ('drop', 'drop', 'lost', 'cut', 'block', 'late')


def silent_case(ctx, transport):
    """Devices that stop answering at any request of any operation."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = rig.rand_device(w, punimpl=.1, max_regs=500)
        T = rng.choice(TIMES + (None,) * 6)
        kw = {} if T is None and rng.random() < .5 else dict(timeout=T)
        if transport == 'RTU' and rng.random() < .3:
            kw['baudrate'] = rng.choice(BAUDS)
        r = w.attach(img, transport, **kw)
        timeout = T if T is not None else (2 if transport == 'TCP' else .5)
        st = r.station
        st.chunker = rig.rand_chunks(rng)
        watch = Watch(ctx, w, st)
        log = [(transport, T)]
        level = rng.choice(['modbus', 'client', 'client', 'script'])
        if level == 'modbus':
            if transport == 'TCP':
                host, port = r.args['ipaddr'], r.args['ipport']
                dev = modbus.ModbusClientDeviceTCP(r.unit_id, host, port, **kw)
            else:
                a = dict(kw)
                dev = modbus.ModbusClientDeviceRTU(r.unit_id, r.args['name'], **a)
            top = dev
        elif level == 'client':
            top = r.client()
            dev = top.modbus_device
        else:
            if rng.random() < .4:
                mute(rng, st, rng.choice([0, 0, 1, 3, rng.randint(0, 3 * len(img.models))]), 10 ** 6, rng.choice(HOW[:4]))
                try:
                    client.SunSpecClientDevice(r.type, slave_id=r.unit_id, **r.args)
                    ok = True
                except client.SunSpecClientError:
                    ok = False
                n = watch.done('constructing a device', timeout)
                ctx.count('constructions_failed' if not ok else 'constructions')
                ctx.seen(ID, 'construct', log, ok, n)
                st.fault = None
                st.requests[:] = []
                watch.mark()
            top = r.scripting()
            dev = top.device.modbus_device
            watch.done('constructing a device', timeout)
        scanned = level == 'script'
        explicit = False
        for step in range(rng.randint(2, 6)):
            how = rng.choice(HOW)
            k = rng.choice([0, 0, 0, 1, 2, 4, rng.randint(0, 12)])
            n = rng.choice([1, 1, 2, 10 ** 6])
            quiet = rng.random() < .3
            if quiet:
                st.fault = None
            else:
                mute(rng, st, k, n, how)
            ops = ['rawread', 'rawread', 'rawwrite']
            if level == 'client':
                ops += ['scan', 'scan']
                if scanned:
                    ops += ['read', 'read', 'write']
            elif level == 'script':
                ops += ['sread', 'sread', 'swrite']
            if transport == 'TCP':
                ops += ['connect', 'connectT']
            op = rng.choice(ops)
            a0, regs = img.base, len(img.bytes()) // 2
            label = op
            try:
                if op == 'rawread':
                    off = rng.randrange(regs)
                    dev.read(a0 + off, rng.randint(1, regs - off))
                elif op == 'rawwrite':
                    off = rng.randrange(regs)
                    c = rng.randint(1, min(regs - off, 260))
                    b = img.bytes()[2 * off:2 * (off + c)]
                    dev.write(a0 + off, b)
                elif op == 'scan':
                    top.scan()
                    scanned = True
                elif op == 'read':
                    top.read_points()
                elif op == 'write':
                    top.read_points()
                    for t in rig.targets(list(zip(top.models_list, img.models)))[:20]:
                        if t.p.sf is None:
                            t.point.value = rig.value_for(rng, t)[0]
                    for m in top.models_list:
                        m.write_points()
                elif op == 'sread':
                    top.read()
                elif op == 'swrite':
                    for m in top.device.models_list:
                        if not m.load_error:
                            m.write_points()
                    top.common and top.models and top.read()
                elif op == 'connect':
                    dev.connect()
                    explicit = True
                elif op == 'connectT':
                    ct = rng.choice(TIMES)
                    label = 'connect(%s)' % ct
                    dev.connect(ct) if rng.random() < .5 else dev.connect(timeout=ct)
                    explicit = True
                ok = True
            except LIB:
                ok = False
            except (AttributeError, IndexError):
                if op != 'swrite':
                    raise
                ok = True
            s = watch.done('%s (%s level, %s)' % (label, level, transport), timeout)
            if op in ('connect', 'connectT'):
                ctx.check(ok, 'connecting to a listening device failed', 'connect')
                ctx.count('explicit_connections')
            elif s and how == 'drop':
                ctx.check(not ok or op in ('scan',), '%s succeeded without an answer' % op, 'silent-success', log=log)
            log.append((label, how if not quiet else None, k, n, ok, s))
            ctx.count('op_' + op)
            if explicit and s:
                ctx.count('silences_after_connecting')
                explicit = False
        if transport == 'RTU':
            for p in w.net.open_ports():
                ctx.check(near(p.timeout, timeout), 'serial timeout %s with %s configured' % (p.timeout, T), 'serial-timeout')
                ctx.check(p.write_timeout is not None and near(p.write_timeout, timeout), 'serial write timeout %s with %s configured' % (p.write_timeout, T), 'serial-timeout')
        ctx.seen(ID, transport, level, log)
        top.close()


def connect_case(ctx):
    """TCP endpoints that do not answer connection attempts."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = rig.rand_device(w, punimpl=.1, max_regs=300)
        T = rng.choice(TIMES + (None,) * 6)
        port = rng.choice([None, 502, 502, 1502, 5020, 65535, 1])
        host = rng.choice(['10.1.2.3', 'inverter.local', '127.0.0.1'])
        r = w.attach(img, 'TCP', host=host, port=port or 502)
        st = r.station
        timeout = T if T is not None else 2
        dead = []

        def cf(i):
            if dead:
                dead.append(i)
                if dead[0] == 'timeout':
                    return socket.timeout('timed out')
                return ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        st.connect_fault = cf
        watch = Watch(ctx, w, st)
        kw = {}
        if port is not None or rng.random() < .5:
            kw['ipport'] = port
        if T is not None or rng.random() < .5:
            kw['timeout'] = T
        log = [host, port, T]
        level = rng.choice(['modbus', 'client', 'script'])

        def attempt(what, fn, ct):
            n0 = len(dead)
            try:
                fn()
                ok = True
            except LIB:
                ok = False
            tries = len(dead) - n0
            waits = tries if dead and dead[0] == 'timeout' else 0
            s = watch.done(what, timeout, ct, waits)
            if dead and not what.startswith('construct'):
                ctx.check(tries >= 1, '%s did not try to connect' % what, 'no-attempt')
            ctx.count('connect_attempts', tries)
            log.append((what, ct, dead[:1], tries, ok, s))
            return ok
        try:
            if level == 'script':
                if rng.random() < .5:
                    dead[:] = [rng.choice(['timeout', 'timeout', 'refused'])]
                    ok = attempt('constructing', lambda: client.SunSpecClientDevice(client.TCP, r.unit_id, ipaddr=host, **kw), timeout)
                    ctx.check(not ok, 'a scripting device was made without a connection', 'no-connection')
                    dead[:] = []
                top = client.SunSpecClientDevice(client.TCP, r.unit_id, ipaddr=host, **kw)
                dev = top.device.modbus_device
            elif level == 'client':
                top = client.ClientDevice(client.TCP, r.unit_id, ipaddr=host, **kw)
                dev = top.modbus_device
            else:
                top = dev = modbus.ModbusClientDeviceTCP(r.unit_id, host, **kw)
        except LIB as e:
            ctx.fail('a device was not found where it is: %s' % e, 'address', log=log)
        watch.mark()
        for step in range(rng.randint(2, 6)):
            dead[:] = [rng.choice(['timeout', 'timeout', 'refused'])] if rng.random() < .7 else []
            op = rng.choice(['connect', 'connect', 'connect', 'read', 'write', 'scan', 'readpoints'])
            connected = getattr(dev, 'socket', None) is not None
            if op == 'connect':
                ct = rng.choice(TIMES + (None, None, None))
                ok = attempt('connect(%s)' % ct, (lambda: dev.connect()) if ct is None and rng.random() < .5 else (lambda: dev.connect(timeout=ct)),
                             timeout if ct is None else ct)
            else:
                if op != 'scan' or level == 'modbus':
                    dev.disconnect()
                if op == 'read':
                    ok = attempt('read', lambda: dev.read(img.base, 2), timeout)
                elif op == 'write':
                    ok = attempt('write', lambda: dev.write(img.base, b'SunS'), timeout)
                elif level == 'client' and op == 'scan':
                    ok = attempt('scan', top.scan, timeout)
                elif level == 'script' and op == 'readpoints':
                    ok = attempt('reading', top.read, timeout)
                else:
                    continue
            ctx.check(ok == (not dead), 'an operation %s' % ('succeeded without a connection' if ok else 'failed'), 'outcome', log=log)
        for e in w.net.events:
            if e[0] == 'connect':
                ctx.check(e[2:] == (host, port or 502), 'connected to %s instead of %s' % (e[2:], (host, port or 502)), 'address')
                ctx.count('connections_addressed')
        ctx.seen(ID, 'connect', level, log)
        top.close()


def scan_case(ctx, transport):
    """Scan delays: between the operations they separate, and only there."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        base = rng.choice([40000, 0, 50000])
        img = rig.rand_device(w, base=base, nmodels=rng.choice([1, 2, 4, 6]), max_regs=900)
        for _ in range(rng.choice([0, 0, 1, 2]) if rng.random() < .93 else rng.choice([20, 40, 70])):
            # models without a definition are scanned like others
            m = ref.ModelImage(None, 0, rng.randint(1, 30), id=60000 + rng.randint(0, 5000))
            m.randomize(rng)
            k = rng.randint(0, len(img.models))
            img = ref.DeviceImage(base, img.models[:k] + [m] + img.models[k:], img.end_len)
            ctx.count('undefined_models')
        T = rng.choice((.5, 1, 3, 7, None))
        kw = {} if T is None or transport == 'MAPPED' else dict(timeout=T)
        r = w.attach(img, transport, **kw)
        timeout = T if T is not None else (2 if transport == 'TCP' else .5)
        D = rng.choice([None, None, .01, .1, .5, 1, 2, 1.25, 20])
        st = r.station
        if st:
            st.chunker = rig.rand_chunks(rng)
            # what a device without registers at a candidate address does
            other = rng.choice(['exc', 'exc', 'drop'])
            st.fault = lambda n, req: sim.Fault('drop') if other == 'drop' and req is not None and not img.base <= req.addr < img.base + len(img.bytes()) // 2 else None
        calls = []

        def progress(text):
            calls.append((len(st.requests) if st else None, w.net.now))
            return True
        pr = rng.choice([None, progress])
        script = rng.random() < .5
        net = w.net
        watch = Watch(ctx, w, st) if st else None
        rounds = 1
        if script:
            a = {}
            if D is not None or rng.random() < .5:
                a['scan_delay'] = D
            if pr:
                a['scan_progress'] = pr
            d = r.scripting(**a)
            models = d.device.models_list
        else:
            d = r.client()
            if rng.random() < .3:
                d.base_addr = base
            rounds = rng.choice([1, 2])
        for rnd in range(rounds):
            n0 = len(net.slept) if not script else 0
            t0 = net.now if not script else 0
            q0 = len(st.requests) if st and not script else 0
            e0 = len(net.events) if not script else 0
            calls0 = len(calls) if not script else 0
            if not script:
                if rng.random() < .5 and pr:
                    d.scan(pr, D)
                elif D is None and rng.random() < .5:
                    d.scan(progress=pr)
                else:
                    d.scan(progress=pr, delay=D)
                models = d.models_list
            ctx.eq([m.id for m in models], [m.id for m in img.models], 'models found', 'models')
            slept = net.slept[n0:]
            if D is None:
                ctx.check(not slept, 'the scan slept without a delay', 'delay', slept=slept)
            else:
                ctx.check(all(near(x, D) for x in slept), 'the scan slept %s with a delay of %s' % (slept[:5], D), 'delay')
                gaps = len(img.models) - 1
                ctx.check(len(slept) >= gaps, 'the scan of %d models slept %d times' % (gaps + 1, len(slept)), 'delay-missing')
            ctx.count('scans_' + ('delayed' if D is not None else 'plain'))
            if not st:
                ctx.check(near(net.now - t0, (D or 0) * len(slept)), 'time passed on a mapped device', 'elapsed')
                continue
            reqs = st.requests[q0:]
            silent = [q for q in reqs if is_silent(q)]
            took = net.now - t0
            want = timeout * len(silent) + (D or 0) * len(slept)
            ctx.check(near(took, want), 'a scan took %g s: %d silent requests of %g s, %d delays of %s s' % (took, len(silent), timeout, len(slept), D), 'elapsed')
            if D is not None:
                ctx.check(len(slept) <= len(reqs) + 1, 'the scan slept %d times for %d requests' % (len(slept), len(reqs)), 'delay-excess')
                # between the probes of two base addresses, and between connecting and the first request
                def pause(a, b, what):
                    p = b.when - a.when - (timeout if is_silent(a) else 0)
                    ctx.check(p > D - 1e-6, 'no delay between %s' % what, 'delay-missing', got=p, delay=D)
                    ctx.count('pauses')
                probes = [q for q in reqs if q.status != 'ok']
                for q in probes:
                    i = reqs.index(q)
                    if i + 1 < len(reqs):
                        pause(q, reqs[i + 1], 'the probes of two base addresses')
                if transport == 'TCP':
                    ctx.check(near(reqs[0].when - t0, D), 'no delay between connecting and the first request', 'delay-missing', got=reqs[0].when - t0)
                else:
                    ctx.check(near(reqs[0].when, t0), 'the first request was delayed', 'delay', got=reqs[0].when - t0)
                # between two models: the requests for a model's length
                at = [[q for q in reqs if q.status == 'ok' and q.addr <= m.addr - 1 < q.addr + q.count][-1] for m in img.models]
                for a, b in zip(at, at[1:]):
                    pause(a, b, 'two models')
                # no two sleeps without an operation between them
                when = sorted([(q.when, 0) for q in reqs])
                ctx.check(took - timeout * len(silent) <= D * (len(reqs) + 1) + 1e-6, 'too many delays', 'delay-excess')
            if pr:
                ctx.eq(len(calls) - calls0, len(img.models), 'progress calls', 'progress')
        # nothing after the scan is delayed
        n0 = len(net.slept)
        t0 = net.now
        if script:
            d.read()
        else:
            d.read_points()
        ctx.check(len(net.slept) == n0 and near(net.now, t0), 'reading was delayed', 'delay-after-scan', delay=D)
        ctx.count('reads_after_scan')
        ctx.seen(ID, 'scan', transport, T, D, img.base, [m.id for m in img.models], len(net.slept))
        d.close()


def limit_case(ctx):
    """The configured limit decides how ranges are split."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        unit = sim.Unit()
        n = 900
        base = rng.choice([0, 40000, 64000])
        unit.load(base, bytes(rng.getrandbits(8) for _ in range(2 * n)))
        transport = rng.choice(['TCP', 'RTU'])
        mc = rng.choice([None, 1, 2, 3, 7, 10, 50, 64, 100, 122, 123, 124, 125, 126, 128, 200, 256, 1000, rng.randint(1, 125)])
        kw = {} if mc is None else dict(max_count=mc)
        uid = rng.randint(1, 247)
        if transport == 'TCP':
            st = w.net.add_tcp('h', 502, {uid: unit})
            dev = modbus.ModbusClientDeviceTCP(uid, 'h', **kw)
        else:
            st = w.net.add_bus('/dev/l', {uid: unit})
            dev = modbus.ModbusClientDeviceRTU(uid, '/dev/l', **kw)
        devs = [(dev, mc or 125, uid, unit)]
        log = []
        if rng.random() < .5:
            # another device on the same line or host has its own limit
            unit2, uid2, mc2 = sim.Unit(), uid % 247 + 1, rng.choice([1, 5, 60, 123, 125, 126, 250, None])
            unit2.load(base, bytes(rng.getrandbits(8) for _ in range(2 * n)))
            st.units[uid2] = unit2
            kw2 = {} if mc2 is None else dict(max_count=mc2)
            dev2 = modbus.ModbusClientDeviceTCP(uid2, 'h', **kw2) if transport == 'TCP' else modbus.ModbusClientDeviceRTU(uid2, '/dev/l', **kw2)
            devs.append((dev2, mc2 or 125, uid2, unit2))
            log.append(mc2)
            ctx.count('two_limits')
        for step in range(rng.randint(2, 8)):
            dev, lim, uid, unit = rng.choice(devs)
            q0 = len(st.requests)
            lim = min(lim, 125)
            l = lim if rng.random() < .5 else min(lim, 123)
            c = max(1, min(n, rng.choice([1, l - 1, l, l + 1, 2 * l, 2 * l + 1, 3 * l - 1, rng.randint(1, min(n, 12 * l))])))
            a = base + rng.randint(0, n - c)
            if rng.random() < .5:
                got = dev.read(a, c)
                ctx.check(got == unit.get(a, c), 'contents', 'contents')
                top = lim
                log.append(('r', c))
            else:
                b = bytes(rng.getrandbits(8) for _ in range(2 * c))
                dev.write(a, b)
                ctx.check(unit.get(a, c) == b, 'contents', 'contents')
                top = min(lim, 123)
                log.append(('w', c))
            qs = st.requests[q0:]
            pos = a
            for q in qs:
                ctx.eq(q.unit, uid, 'unit of a request', 'unit')
                ctx.check(q.count <= top, 'a request for %d registers with a limit of %d' % (q.count, top), 'limit')
                ctx.check(q.addr == pos, 'requests do not follow each other', 'split')
                pos += q.count
            ctx.check(pos == a + c, 'requests cover other registers', 'split')
            ctx.check(len(qs) == -(-c // top), '%d requests for %d registers with a limit of %d' % (len(qs), c, top), 'limit-unused')
            ctx.count('ranges')
            ctx.count('requests', len(qs))
        ctx.check(not w.net.slept and not w.net.now, 'transfers were delayed', 'delay')
        ctx.seen(ID, 'limit', transport, mc, log)
        for x in devs:
            x[0].close()


def line_case(ctx):
    """Line settings and timeouts reach the port."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = rig.rand_device(w, max_regs=200)
        kw = {}
        baud = rng.choice(BAUDS + (None, None))
        par = rng.choice([modbus.PARITY_NONE, modbus.PARITY_EVEN, None])
        T = rng.choice(TIMES + (None, None, None))
        for k, v in (('baudrate', baud), ('parity', par), ('timeout', T)):
            if v is not None or rng.random() < .3:
                kw[k] = v
        r = w.attach(img, 'RTU')
        r.args.update(kw)
        level = rng.choice(['modbus', 'client', 'script'])
        if level == 'modbus':
            d = modbus.ModbusClientDeviceRTU(r.unit_id, r.args['name'], **kw)
        elif level == 'client':
            d = r.client()
        else:
            d = r.scripting()
        ps = w.net.open_ports()
        ctx.check(len(ps) == 1 and ps[0].port == r.args['name'], 'ports open after creating one device', 'port')
        p = ps[0]
        ctx.eq(p.baudrate, baud or 9600, 'baud rate', 'line-settings')
        ctx.eq(p.parity, 'E' if par == modbus.PARITY_EVEN else 'N', 'parity', 'line-settings')
        ctx.check(p.bytesize == 8 and p.stopbits == 1, 'data format', 'line-settings')
        ctx.check(not p.xonxoff and not p.rtscts and not p.dsrdtr, 'flow control', 'line-settings')
        t = T if T is not None else .5
        ctx.check(p.timeout is not None and near(p.timeout, t), 'read timeout %s with %s configured' % (p.timeout, T), 'serial-timeout')
        ctx.check(p.write_timeout is not None and near(p.write_timeout, t), 'write timeout %s with %s configured' % (p.write_timeout, T), 'serial-timeout')
        ctx.count('ports_checked')
        d.close()
        ctx.check(not w.net.open_ports(), 'port left open', 'port')
        # the next device on the port gets its own settings
        b2 = rng.choice(BAUDS)
        d = modbus.ModbusClientDeviceRTU(r.unit_id, r.args['name'], baudrate=b2)
        p = w.net.open_ports()[0]
        ctx.eq(p.baudrate, b2, 'baud rate after reopening', 'line-settings')
        ctx.check(near(p.timeout, .5), 'timeout after reopening', 'serial-timeout')
        d.close()
        # a bus client opened by itself
        kw = {k: v for k, v in (('baudrate', baud), ('parity', par)) if v is not None}
        c = modbus.ModbusClientRTU(r.args['name'], **kw)
        p = w.net.open_ports()[0]
        ctx.eq((p.port, p.baudrate, p.parity, p.bytesize, p.stopbits), (r.args['name'], baud or 9600, 'E' if par == modbus.PARITY_EVEN else 'N', 8, 1),
               'settings of a port opened by a bus client', 'line-settings')
        ctx.check(near(p.timeout, .5) and near(p.write_timeout, .5), 'timeouts of a port opened by a bus client', 'serial-timeout')
        ctx.eq((c.name, c.baudrate), (r.args['name'], baud or 9600), 'a bus client tells other settings', 'line-settings')
        got = c.read(r.unit_id, img.base, 2)
        ctx.eq(got, b'SunS', 'registers read by a bus client', 'contents')
        c.close()
        ctx.check(not w.net.open_ports(), 'port left open', 'port')
        ctx.seen(ID, 'line', level, baud, par, T)


def told_case(ctx):
    """Device objects tell the settings they were made with, before and after use."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = rig.rand_device(w, max_regs=200, crowds=False)
        kind = rng.choice(rig.TRANSPORTS)
        r = w.attach(img, kind, host=rng.choice(['10.1.2.3', 'inverter.local']), port=rng.choice([502, 502, 1502]))
        T = rng.choice(TIMES + (None,) * 4)
        kw = {}
        if kind != 'MAPPED' and (T is not None or rng.random() < .5):
            kw['timeout'] = T
        if kind == 'TCP' and rng.random() < .4:
            # files of a TLS setup, which is not used
            kw.update(cafile='/ca.pem', certfile='c.pem', keyfile='k.pem')
        mc = rng.choice([None, 1, 50, 125, 200])
        marker = object()
        trace = rng.choice([None, lambda s: None])
        level = rng.choice(['modbus', 'client'])
        a = dict(r.args)
        if level == 'modbus':
            if kind == 'TCP':
                port = a.pop('ipport')
                if port != 502 or rng.random() < .5:
                    kw['ipport'] = port
                top = dev = modbus.ModbusClientDeviceTCP(r.unit_id, a['ipaddr'], ctx=marker, trace_func=trace, **dict(kw, **({'max_count': mc} if mc else {})))
            elif kind == 'RTU':
                top = dev = modbus.ModbusClientDeviceRTU(r.unit_id, a['name'], ctx=marker, trace_func=trace, **dict(kw, **({'max_count': mc} if mc else {})))
            else:
                top = dev = modbus.ModbusClientDeviceMapped(r.unit_id, a['name'], a.get('pathlist'), ctx=marker)
            used = lambda: dev.read(img.base, 2)
        else:
            top = client.ClientDevice(r.type, r.unit_id, trace=trace or False, **dict(a, **kw))
            dev = top.modbus_device
            marker = top
            mc = None
            used = top.scan

        def tell(when):
            want = {'slave_id': r.unit_id, 'ctx': marker}
            if kind != 'MAPPED':
                want.update(max_count=mc or 125)
            if kind == 'TCP':
                want.update(ipaddr=r.args['ipaddr'], ipport=r.args.get('ipport', 502), timeout=2 if T is None else T, socket=None, tls=False)
                want.update({k: kw.get(k) for k in ('cafile', 'certfile', 'keyfile')})
            else:
                want.update(name=r.args['name'])
            for k, v in want.items():
                ctx.eq(getattr(dev, k), v, '%s of a Modbus device %s' % (k, when), 'told')
                ctx.count('settings_told')
            if kind == 'TCP':
                ctx.check((dev.trace_func or None) is trace, 'trace function of a Modbus device %s' % when, 'told')
            if kind == 'RTU':
                p, = w.net.open_ports()
                ctx.check(p.port == r.args['name'] and near(p.timeout, .5 if T is None else T), 'timeout of the port', 'told')
            if level == 'client':
                want = {'type': r.type, 'slave_id': r.unit_id, 'name': r.args.get('name'), 'pathlist': r.args.get('pathlist'),
                        'base_addr': None if when == 'before use' else img.base}
                for k, v in want.items():
                    ctx.eq(getattr(top, k), v, '%s of a client device %s' % (k, when), 'told')
                    ctx.count('settings_told')
                ctx.eq(sorted(top.base_addr_list), [0, 40000, 50000], 'candidate base addresses', 'told')
        tell('before use')
        used()
        tell('after use')
        top.close()
        if level == 'client':
            # a device that answers only where the user says
            other = rng.choice([100, 30000, 60000])
            oimg = ref.DeviceImage(other, [rig_clone(m) for m in img.models], img.end_len)
            o = w.attach(oimg, kind, host='10.9.9.9')
            d = o.client()
            d.base_addr_list = rng.choice([[other], [40000, other], [other, 0]])
            d.scan()
            ctx.eq(d.base_addr, other, 'base address from a list the user gave', 'told')
            ctx.eq([int(m.addr) for m in d.models_list], [m.addr for m in oimg.models], 'models found at it', 'told')
            d.close()
        ctx.seen(ID, 'told', kind, level, T, mc, r.args.get('ipport'), sorted(kw), img.bytes())


def rig_clone(m):
    c = ref.ModelImage(m.md, m.nrep, m.len, m.id)
    c.data[:] = m.data
    return c


class Silent(object):
    """A real server that accepts and never answers."""

    def __init__(self):
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(8)
        self.port = self.sock.getsockname()[1]

    def close(self):
        self.sock.close()


def real_case(ctx):
    """Real sockets and terminals: a silent peer delays by about the timeout and never for good."""
    rng = ctx.rng
    T = rng.choice([.2, .3, .4])
    cert = os.path.join(core.VERIF, 'vf', 'certs')
    kind = ['tcp', 'tls', 'rtu', 'tcpscan', 'rtuscan'][ctx.idx % 5]
    with rig.World(ctx):
        sim.ACTIVE = None                       # real sockets and ports from here on
        res = {}
        if kind in ('rtu', 'rtuscan'):
            mfd, sfd = pty.openpty()
            tty.setraw(sfd)
            name = os.ttyname(sfd)
            close = lambda: (os.close(mfd), os.close(sfd))
        else:
            srv = Silent()
            close = srv.close

        def run():
            t0 = time.monotonic()
            try:
                if kind == 'tcp':
                    modbus.ModbusClientDeviceTCP(1, '127.0.0.1', srv.port, timeout=T).read(40000, 2)
                elif kind == 'tls':
                    modbus.ModbusClientDeviceTCP(1, '127.0.0.1', srv.port, timeout=T, tls=True, cafile=os.path.join(cert, 'ca.pem'),
                                                 certfile=os.path.join(cert, 'client1.pem'), keyfile=os.path.join(cert, 'client1.key')).connect()
                elif kind == 'tcpscan':
                    client.SunSpecClientDevice(client.TCP, 1, ipaddr='127.0.0.1', ipport=srv.port, timeout=T)
                elif kind == 'rtu':
                    d = modbus.ModbusClientDeviceRTU(1, name, timeout=T)
                    res['dev'] = d
                    d.read(40000, 2)
                else:
                    client.SunSpecClientDevice(client.RTU, 1, name=name, timeout=T)
                res['ok'] = True
            except LIB as e:
                res['err'] = e
            except BaseException as e:
                res['other'] = e
            res['t'] = time.monotonic() - t0
        th = threading.Thread(target=run, daemon=True)
        th.start()
        th.join(60)
        alive = th.is_alive()
        try:
            if 'dev' in res:
                res['dev'].close()
        except LIB:
            pass
        close()
        if alive:
            ctx.fail('an operation on a silent %s peer did not return within 60 s with a timeout of %s s' % (kind, T), 'blocked')
        if 'other' in res:
            raise res['other']
        ctx.check('err' in res, 'an operation on a silent peer succeeded', 'silent-success')
        ctx.check(res['t'] > .9 * T, 'a silent %s peer delayed the caller by %.3f s with a timeout of %s s' % (kind, res['t'], T), 'early')
        ctx.count('real_silences')
        ctx.seen(ID, 'real', kind, T)


KINDS = {
    'silent_tcp': (lambda c: silent_case(c, 'TCP'), 1500, 40000),
    'silent_rtu': (lambda c: silent_case(c, 'RTU'), 1500, 40000),
    'connect': (connect_case, 1500, 40000),
    'scan_tcp': (lambda c: scan_case(c, 'TCP'), 800, 20000),
    'scan_rtu': (lambda c: scan_case(c, 'RTU'), 800, 20000),
    'scan_mapped': (lambda c: scan_case(c, 'MAPPED'), 300, 8000),
    'limit': (limit_case, 1000, 30000),
    'line': (line_case, 800, 20000),
    'told': (told_case, 600, 10000),
    'real': (real_case, 40, 400),
}
MIN = {'settings_told': 6000, 'two_limits': 300, 'silences_timed': 2000, 'silences_after_connecting': 60, 'connect_attempts': 1500, 'pauses': 1000, 'scans_delayed': 500, 'scans_plain': 200,
       'ports_checked': 600, 'ranges': 3000, 'real_silences': 30, 'constructions_failed': 50}

"""C10: serial ports and TCP connections: shared, reused, released (ledger of ports and sockets)."""
import errno
import random

import serial

from .. import ref, rig, sim
from ..env import client, modbus
from . import c03, c09

ID = 'C10'
LEVEL = 'exploration'
TECH = 'resource-ledger monitor (ports and sockets opened and closed) against a lifecycle model over random histories with faults'
RULE = ('Random histories of creating (Modbus, client and scripting level; matching, conflicting and implicit line settings; failing opens '
        'and failing constructions), using, closing and re-closing devices on shared serial ports, and of connecting, reading, writing, '
        'scanning, failing, disconnecting and closing TCP devices, closing errors included; after every step the ledger of open ports, their settings and open '
        'sockets is compared with the lifecycle model. Distinct by history.')
ASSUMPTIONS = ['one device object per unit id on a serial port', 'devices are closed by the caller, not by garbage collection']

CLOSE_ERRORS = [
    lambda: OSError(errno.EIO, 'Input/output error'),
    lambda: OSError(errno.ENODEV, 'No such device'),
    lambda: serial.SerialException('close failed'),
]

LIB = (modbus.ModbusClientError, client.SunSpecClientError)


class Port(object):
    def __init__(self, name, st):
        self.name = name
        self.st = st
        self.devs = []
        self.baud = None
        self.parity = None


def rtu_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        w.define(common)
        ports = []
        images = {}
        for b in range(rng.choice([1, 1, 2, 3])):
            name = '/dev/vf%d' % b
            units = {}
            for u in rng.sample(range(1, 248), 5):
                unit = sim.Unit()
                img = ref.DeviceImage(rng.choice([40000, 0, 50000]), [ref.ModelImage(common, 0)])
                img.models[0].randomize(rng)
                img.load(unit)
                units[u] = unit
                images[name, u] = img
            ports.append(Port(name, w.net.add_bus(name, units)))
        log = []
        closed = []
        for step in range(rng.randint(4, 24)):
            p = rng.choice(ports)
            op = rng.choice(['create', 'create', 'create', 'use', 'use', 'close', 'close', 'again', 'openfail', 'badscript'])
            before = {q.name: [x for x in w.net.open_ports() if x.port == q.name] for q in ports}
            if op in ('create', 'openfail', 'badscript'):
                free = [u for u in p.st.units if u not in [d[1] for d in p.devs]]
                if not free:
                    continue
                u = rng.choice(free)
                baud = rng.choice([None, None, 9600, 9600, 19200, 115200])
                par = rng.choice([None, None, modbus.PARITY_NONE, modbus.PARITY_EVEN])
                kind = rng.choice(['modbus', 'client', 'script'])
                if p.devs:
                    expect = not ((baud is not None and baud != p.baud) or (par is not None and par != p.parity))
                else:
                    expect = True
                log.append((op, p.name, u, kind, baud, par, expect))
                if op == 'openfail':
                    e = rng.choice([serial.SerialException('busy'), OSError(errno.EACCES, 'denied'), ValueError('bad')])
                    n0 = p.st.nconnect
                    p.st.connect_fault = lambda i: e
                    if not p.devs:
                        expect = False
                if op == 'badscript':
                    kind = 'script'
                    p.st.fault = (lambda i, req: sim.Fault('drop')) if rng.random() < .6 else (lambda i, req: sim.Fault('cut', keep=rng.choice([0, 1, 4]), then='interrupt'))
                    ok = expect
                    expect = False
                try:
                    if kind == 'modbus':
                        d = modbus.ModbusClientDeviceRTU(u, p.name, baud, par)
                    elif kind == 'client':
                        d = client.ClientDevice(client.RTU, u, p.name, baudrate=baud, parity=par)
                    else:
                        d = client.SunSpecClientDevice(client.RTU, u, p.name, baudrate=baud, parity=par)
                    made = True
                except LIB + (KeyboardInterrupt,) as e:
                    made = False
                    err = e
                    if isinstance(e, KeyboardInterrupt):
                        ctx.count('interrupted_constructions')
                p.st.connect_fault = None
                p.st.fault = None
                if made != expect:
                    if made:
                        ctx.fail('a conflicting or failing request for a serial port was accepted', 'conflict-accepted', log=log)
                    ctx.fail('a device on a serial port was refused: %s' % err, 'refused', log=log)
                if made:
                    if not p.devs:
                        p.baud = 9600 if baud is None else baud
                        p.parity = modbus.PARITY_NONE if par is None else par
                    p.devs.append((d, u, kind))
                    ctx.count('created_' + kind)
                    if len(p.devs) > 1:
                        ctx.count('shared_ports')
                else:
                    ctx.count('refused' if op == 'create' else op)
            elif op == 'use':
                if not p.devs:
                    continue
                use(ctx, rng, w, p, images, log)
                log.append(('use', p.name))
            elif op == 'close':
                if not p.devs:
                    continue
                x = p.devs.pop(rng.randrange(len(p.devs)))
                if rng.random() < .25:
                    e = rng.choice(CLOSE_ERRORS + [KeyboardInterrupt, SystemExit])()
                    through = isinstance(e, (KeyboardInterrupt, SystemExit))
                    p.st.close_fault = lambda: e
                    n = p.st.close_faults
                    try:
                        x[0].close()
                        ctx.check(not (through and p.st.close_faults > n), 'an interruption while a port was closed was lost', 'interrupt', log=log)
                    except LIB as err:
                        ctx.check(not through, 'an interruption while a port was closed became %r' % err, 'interrupt', log=log)
                        ctx.count('close_errors')
                    except (KeyboardInterrupt, SystemExit):
                        ctx.check(through, 'an interruption out of nowhere', 'interrupt', log=log)
                        ctx.count('close_interruptions')
                    p.st.close_fault = None
                else:
                    x[0].close()
                closed.append(x)
                log.append(('close', p.name, x[1], x[2]))
                ctx.count('closes')
            elif op == 'again':
                if not closed:
                    continue
                x = rng.choice(closed)
                x[0].close()
                log.append(('close again', x[1], x[2]))
                ctx.count('closes_again')
            # the ledger
            for q in ports:
                now = [x for x in w.net.open_ports() if x.port == q.name]
                want = 1 if q.devs else 0
                if len(now) != want:
                    ctx.fail('%d devices are open on %s and the port is open %d times' % (len(q.devs), q.name, len(now)), 'port-leak' if not q.devs else 'port-state', log=log)
                if now:
                    s = now[0]
                    ctx.eq(s.baudrate, q.baud, 'baud rate of a shared port', 'line-settings', log=log)
                    ctx.eq(s.parity, 'E' if q.parity == modbus.PARITY_EVEN else 'N', 'parity of a shared port', 'line-settings', log=log)
                    ctx.check(s.bytesize == 8 and s.stopbits == 1, 'line settings', 'line-settings')
                    if len(q.devs) > 1 and before[q.name]:
                        ctx.check(now[0] is before[q.name][0], 'the shared port was reopened', 'reopened', log=log)
                ctx.count('port_states')
            if rng.random() < .5:
                for q in ports:
                    use(ctx, rng, w, q, images, log)
        for q in ports:
            use(ctx, rng, w, q, images, log)
            for x in q.devs:
                x[0].close()
            q.devs = []
        ctx.check(not w.net.open_ports(), 'ports are left open after closing every device', 'port-leak', log=log)
        # and once more from the start
        q = rng.choice(ports)
        q.devs = [(modbus.ModbusClientDeviceRTU(u, q.name, 19200), u, 'modbus') for u in list(q.st.units)[:2]]
        ctx.check([x.baudrate for x in w.net.open_ports()] == [19200], 'a closed port cannot be opened again with other settings', 'reopen', log=log)
        use(ctx, rng, w, q, images, log)
        for x in q.devs:
            x[0].close()
        ctx.check(not w.net.open_ports(), 'ports are left open', 'port-leak', log=log)
        ctx.count('reopened')
        ctx.seen('rtu', log)
        ctx.note(log=log[:12], ports=len(w.net.ports))


def use(ctx, rng, w, p, images, log):
    """Every open device of a port works and its requests go through the one open port."""
    for d, u, kind in p.devs:
        img = images[p.name, u]
        n0 = len(p.st.requests)
        try:
            if kind == 'modbus' or rng.random() < .5:
                got = (d.device if kind == 'script' else d).read(img.base, 68)
                ctx.check(got == img.bytes()[:136], 'a device on a shared port read other registers', 'wrong-data', log=log)
            elif kind == 'client':
                d.scan()
                d.read_points()
                rig.verify_model(ctx, d.models_list[0], img.models[0])
            else:
                d.read()
                rig.verify_model(ctx, d.device.models_list[0], img.models[0])
        except LIB as e:
            ctx.fail('an open device on %s failed: %s' % (p.name, e), 'broken-device', log=log)
        now = [x for x in w.net.open_ports() if x.port == p.name]
        for r in p.st.requests[n0:]:
            ctx.check(now and r.via == now[0].id and r.unit == u, 'a request went through another port', 'wrong-port', log=log)
        ctx.count('uses')


class Conn(object):
    def __init__(self, dev, raw, kind, unit, img, st):
        self.dev = dev
        self.raw = raw
        self.kind = kind
        self.unit = unit
        self.img = img
        self.st = st
        self.explicit = False
        self.socks = set()


class Cancel(object):
    """A progress function that breaks off the scan (or not, when its time does not come)."""

    def __init__(self, rng, error):
        self.left = rng.choice([0, 0, 1])
        self.error = error

    def __call__(self, text):
        self.left -= 1
        if self.left >= 0:
            return True
        if self.error:
            raise self.error('broken off')
        return False


def tcp_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        w.define(common)
        conns = []
        log = []
        for i in range(rng.choice([1, 1, 2, 3])):
            host = '10.0.0.%d' % rng.randint(1, 2)
            u = rng.randint(1, 247)
            while any(c.st.units.get(u) for c in conns):
                u = rng.randint(1, 247)
            unit = sim.Unit()
            img = ref.DeviceImage(40000, [ref.ModelImage(common, 0) for k in range(rng.choice([1, 1, 2]))])
            for m in img.models:
                m.randomize(rng)
            img.load(unit)
            st = w.net.tcp.get((host, 502))
            if st is None:
                st = w.net.add_tcp(host, 502, {u: unit})
            else:
                st.units[u] = unit
            kind = rng.choice(['modbus', 'client', 'script'])
            n0 = len(w.net.sockets)
            if kind == 'modbus':
                d = raw = modbus.ModbusClientDeviceTCP(u, host)
            elif kind == 'client':
                d = client.ClientDevice(client.TCP, u, ipaddr=host, ipport=rng.choice([None, 502]))
                raw = d.modbus_device
            else:
                d = client.SunSpecClientDevice(client.TCP, u, ipaddr=host, ipport=rng.choice([None, 502]))
                raw = d.device.modbus_device
                ctx.check(st.nconnect and not [s for s in w.net.sockets[n0:] if not s.closed], 'constructing a scripting device leaves a connection', 'scan-leak')
                ctx.count('scans')
            conns.append(Conn(d, raw, kind, u, img, st))
        for step in range(rng.randint(4, 22)):
            c = rng.choice(conns)
            others = set(w.net.open_sockets()) - c.socks
            nc0 = c.st.nconnect
            ns0 = len(w.net.sockets)
            op = rng.choice(['connect', 'connect', 'read', 'read', 'write', 'big', 'disconnect', 'close', 'scan', 'points', 'exc', 'fault', 'fault', 'refused', 'badscan', 'cancel', 'nodevice'])
            if op in ('scan', 'points', 'badscan', 'cancel') and c.kind == 'modbus':
                op = 'read'
            log.append((op, c.kind, c.unit, c.explicit))
            was = c.explicit
            dv = c.dev.device if c.kind == 'script' else c.dev
            full = c.img.bytes()
            nreg = len(full) // 2
            failed = None
            if rng.random() < .15:
                e = rng.choice(CLOSE_ERRORS)()
                c.st.close_fault = lambda: e
            try:
                if op == 'connect':
                    c.raw.connect() if rng.random() < .6 else c.raw.connect(timeout=rng.choice([1, c.raw.timeout]))
                elif op == 'read':
                    a = rng.randint(0, nreg - 1)
                    n = rng.randint(1, nreg - a)
                    ctx.check(dv.read(40000 + a, n) == full[2 * a:2 * (a + n)], 'read other bytes', 'wrong-data', log=log)
                elif op == 'big':
                    c.raw.max_count = 3
                    ctx.check(dv.read(40000, nreg) == full, 'read other bytes', 'wrong-data', log=log)
                elif op == 'write':
                    dv.write(40004, full[8:40])
                elif op == 'disconnect':
                    c.raw.disconnect()
                    if rng.random() < .3:
                        c.raw.disconnect()
                elif op == 'close':
                    c.dev.close()
                    if rng.random() < .5:
                        c.dev.close()
                elif op == 'scan':
                    dv.scan()
                    ctx.eq(len(dv.models_list), len(c.img.models), 'models found', 'models')
                    ctx.count('scans')
                elif op == 'cancel':
                    left = rng.choice([ValueError, KeyboardInterrupt, None])
                    try:
                        if c.kind == 'script' and rng.random() < .5:
                            client.SunSpecClientDevice(client.TCP, c.unit, ipaddr=c.raw.ipaddr, scan_progress=Cancel(rng, left))
                        else:
                            dv.scan(progress=Cancel(rng, left))
                            c.explicit = False
                    except left or ():
                        pass
                    except LIB:
                        ctx.check(left is None, 'an error of the caller became a library error', 'cancel')
                    ctx.count('cancelled_scans')
                    left = [s for s in w.net.sockets[ns0:] if not s.closed]
                    ctx.check(not left, 'a scan the caller broke off left its connection open', 'leak', log=log)
                    if not was or not c.socks or all(s.closed for s in c.socks):
                        c.explicit = False
                elif op == 'points':
                    if c.kind == 'script':
                        c.dev.read()
                    elif dv.models_list:
                        dv.read_points()
                elif op == 'nodevice':
                    # a unit that does not answer, on a temporary device object
                    t = modbus.ModbusClientDeviceTCP(0, c.raw.ipaddr) if rng.random() < .5 else client.ClientDevice(client.TCP, 0, ipaddr=c.raw.ipaddr)
                    try:
                        t.read(40000, 2) if rng.random() < .7 else client.SunSpecClientDevice(client.TCP, 0, ipaddr=c.raw.ipaddr)
                        ctx.fail('an absent unit answered', 'wrong-data')
                    except LIB:
                        pass
                    ctx.check(not [s for s in w.net.sockets[ns0:] if not s.closed], 'a failed operation left its connection open', 'leak', log=log)
                    if rng.random() < .5:
                        t.close()
                elif op == 'exc':
                    try:
                        if rng.random() < .5:
                            dv.read(39000, 2)
                        else:
                            # the first requests succeed
                            c.raw.max_count = rng.choice([1, 2, 7])
                            top = 40000 + nreg
                            ctx.count('exceptions_midway')
                            if rng.random() < .6:
                                dv.read(top - 9, 20)
                            else:
                                dv.write(top - 9, full[-18:] + bytes(20))
                        ctx.fail('reading absent registers succeeded', 'wrong-data')
                    except LIB as e:
                        failed = 'exception'
                else:
                    if op == 'refused':
                        mk = rng.choice(c09.CONNECT_ERRORS)
                        c.st.connect_fault = lambda i: mk()
                        do = rng.choice(['connect', 'read', 'scan'])
                    elif op == 'badscan':
                        k = len(c.st.requests) + rng.randint(0, 4)
                        c.st.fault = lambda i, req: sim.Fault('drop') if i >= k else None
                        do = 'scan'
                    else:
                        f = c03.make_fault(rng, rng.choice(c03.TCP_FAULTS[2:9] + ['damaged', 'exc', 'busy', 'interrupt', 'interrupt']))
                        c.st.fault = lambda i, req: f
                        do = rng.choice(['read', 'write'])
                    log[-1] += (do,)
                    try:
                        if do == 'connect':
                            c.raw.connect()
                        elif do == 'scan' and c.kind != 'modbus':
                            dv.scan()
                        elif do == 'write':
                            dv.write(40004, full[8:40])
                        else:
                            dv.read(40000, nreg)
                    except LIB + (KeyboardInterrupt,) as e:
                        ctx.count('interrupted' if isinstance(e, KeyboardInterrupt) else 'library_errors')
                        failed = 'exception' if 'Modbus exception' in str(e) and do != 'scan' else 'failure'
                    c.st.fault = None
                    c.st.connect_fault = None
                    op = do if failed else op
                    if failed:
                        ctx.count('failed_ops')
            except LIB as e:
                ctx.fail('%s failed without a fault: %r' % (op, e), 'failed', log=log)
            c.st.close_fault = None
            ctx.count('close_errors_tcp', c.st.close_faults)
            c.st.close_faults = 0
            mine = set(w.net.open_sockets()) - others
            lost = [s for s in others if s.closed]
            ctx.check(not lost, '%s on one device closed the connection of another' % op, 'other-closed', log=log)
            ctx.check(len(mine) <= 1, '%s left %d connections open' % (op, len(mine)), 'leak', log=log)
            dn = c.st.nconnect - nc0
            one_shot = op in ('read', 'write', 'big', 'exc', 'fault')
            if op in ('disconnect', 'close', 'scan', 'badscan'):
                ctx.check(not mine, '%s left a connection open' % op, 'leak', log=log)
                if op == 'scan' and failed is None:
                    ctx.eq(dn, 1, 'connections made by a scan', 'connects', log=log)
                c.explicit = False
            elif op == 'connect':
                if failed:
                    ctx.check(not mine, 'a failed connect left a socket open', 'leak', log=log)
                    c.explicit = False
                else:
                    ctx.check(len(mine) == 1 and mine != c.socks and dn == 1, 'connect does not end in one new connection', 'connects', log=log)
                    c.explicit = True
            elif op in ('nodevice', 'cancel'):
                pass
            elif one_shot and not was:
                if op != 'fault':
                    ctx.eq(dn, 1, 'connections made by an operation without a connection', 'connects', log=log)
                ctx.check(not mine, '%s without an explicit connection left one open' % op, 'leak', log=log)
                ctx.count('one_shot_ops')
                if failed:
                    ctx.count('one_shot_failures')
            elif op == 'points' and not was:
                ctx.check(not mine, 'reading without an explicit connection left one open', 'leak', log=log)
            elif was:
                if failed in (None, 'exception'):
                    ctx.check(dn == 0 and mine == c.socks, 'an explicit connection was not reused', 'not-reused', log=log, connects=dn, open=len(mine))
                    ctx.count('reused')
                else:
                    # a broken connection may be given up; what is open is what is used from now on
                    c.explicit = bool(mine)
            for s in w.net.sockets[ns0:]:
                if s.station is not None and s.closed:
                    ctx.count('sockets_released')
            c.socks = mine
            ctx.count('steps')
        for c in conns:
            c.dev.close()
            c.dev.close()
        ctx.check(not w.net.open_sockets(), 'connections are left open after closing every device', 'leak', log=log)
        ctx.seen('tcp', log)
        ctx.note(log=log[:12], sockets=len(w.net.sockets))


def mapped_case(ctx):
    """Closing mapped devices is idempotent and harmless."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = rig.rand_device(w, nmodels=1)
        r = w.attach(img, 'MAPPED')
        a = r.client()
        b = client.SunSpecClientDevice(client.MAPPED, 1, name=r.name)
        for k in range(rng.randint(1, 3)):
            rng.choice([a, b]).close()
        if rng.random() < .5:
            a.close()
            b.read()
            for m, mi in zip(b.device.models_list, img.models):
                rig.verify_model(ctx, m, mi)
        else:
            b.close()
            a.scan()
            a.read_points()
            for m, mi in zip(a.models_list, img.models):
                rig.verify_model(ctx, m, mi)
        try:
            client.ClientDevice(client.MAPPED, 1, name=None)
            ctx.fail('a mapped device without a map', 'no-error')
        except client.SunSpecClientError:
            pass
        ctx.count('mapped')
        ctx.seen('mapped', img.bytes())


common = ref.common_md()

KINDS = {
    'rtu': (rtu_case, 3000, 40000),
    'tcp': (tcp_case, 5000, 60000),
    'mapped': (mapped_case, 40, 400),
}
MIN = {'exceptions_midway': 300, 'close_errors': 100, 'close_interruptions': 50, 'close_errors_tcp': 500, 'interrupted_constructions': 50, 'interrupted': 100, 'cancelled_scans': 500, 'port_states': 5000, 'closes': 800, 'closes_again': 300, 'refused': 200, 'openfail': 150, 'badscript': 150, 'shared_ports': 800,
       'one_shot_ops': 1000, 'one_shot_failures': 300, 'reused': 800, 'scans': 500, 'failed_ops': 1000, 'uses': 2000}

"""C09: faults at every request of every operation; error types and recovery."""
import errno
import os
import socket
import ssl
import serial
import struct
import termios

from .. import ref, rig, sim
from ..env import client, modbus, mbmap, util
from . import c02, c03

ID = 'C09'
LEVEL = 'fault_enumeration'
TECH = 'fault injection at every request position of every operation, with monitors on error type and recovery'
RULE = ('Operations (connect, scan, scripting construction, reading, writing) on random devices over TCP (with and without an explicit '
        'connection) and serial, disturbed at request position k for every fault kind; the outcome must be success with true data or the '
        'library\'s error type of that level (device exceptions and unanswered requests distinguishable at the Modbus level); then registers are changed and the '
        'next operation on the same object must succeed with current data. Sequences of several faults. Failing maps for mapped devices. '
        'Distinct by operation, fault and position.')
ASSUMPTIONS = ['late serial replies arrive before the next request is sent', 'a fault concerns one or two consecutive requests']

TCP_FAULTS = c03.TCP_FAULTS
RTU_FAULTS = c03.RTU_FAULTS
CONNECT_ERRORS = [
    lambda: ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused'),
    lambda: OSError(errno.EHOSTUNREACH, 'No route to host'),
    lambda: socket.timeout('timed out'),
    lambda: socket.gaierror(-2, 'Name or service not known'),
    lambda: OSError(errno.ENETUNREACH, 'Network is unreachable'),
    lambda: ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'),
]
SEND_ERRORS = [
    lambda: BrokenPipeError(errno.EPIPE, 'Broken pipe'),
    lambda: ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'),
    lambda: OSError(errno.ENETDOWN, 'Network is down'),
    lambda: socket.timeout('timed out'),
]
RECV_ERRORS = [
    lambda: ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'),
    lambda: ConnectionAbortedError(errno.ECONNABORTED, 'Software caused connection abort'),
    lambda: OSError(errno.EHOSTUNREACH, 'No route to host'),
    lambda: OSError(errno.ENETDOWN, 'Network is down'),
    lambda: TimeoutError(errno.ETIMEDOUT, 'Connection timed out'),
    lambda: ssl.SSLError(1, '[SSL: DECRYPTION_FAILED_OR_BAD_RECORD_MAC] decryption failed or bad record mac'),
]
SERIAL_ERRORS = [
    lambda: serial.SerialException('device reports readiness to read but returned no data'),
    lambda: serial.SerialTimeoutException('Write timeout'),
    lambda: OSError(errno.EIO, 'Input/output error'),
    lambda: termios.error(errno.EIO, 'Input/output error'),          # what tcflush and tcdrain raise
    lambda: OSError(errno.ENXIO, 'No such device or address'),
    lambda: TypeError("'NoneType' object cannot be interpreted as an integer"),     # pyserial on a port that is gone
]


def new_contents(rng, img, r):
    """Change the device's registers (values only, not its structure)."""
    for m in img.models:
        m.randomize(rng, punimpl=.1)
    r.set_memory(img)


def install(ctx, st, kind, k, hit, n):
    """Fault kind at the k-th request (or connection) from now, n times."""
    rng = ctx.rng
    if st.kind == 'tcp' and rng.random() < .15:
        e = OSError(errno.EIO, 'Input/output error')
        st.close_fault = lambda: e
        ctx.count('with_close_errors')
    if kind == 'connect':
        first = st.nconnect
        mk = rng.choice(CONNECT_ERRORS)

        def cf(i):
            if first <= i < first + n:
                hit.append(i)
                return mk()
        st.connect_fault = cf
        return 'connection refused'
    f = c03.make_fault(rng, kind)
    if kind == 'sendfail' and st.kind == 'tcp':
        f.exc = rng.choice(SEND_ERRORS)()
    if kind == 'cut-reset' and st.kind == 'tcp':
        f.exc = rng.choice(RECV_ERRORS)()
    if kind in ('sendfail', 'flushfail', 'cut-ioerror') and st.kind == 'rtu':
        f.exc = rng.choice(SERIAL_ERRORS)()
    if kind == 'damaged' and st.kind == 'tcp':
        def fn(frame, req):
            b = bytearray(frame)
            b[rng.randrange(0, 9)] ^= rng.randint(1, 255)
            return bytes(b)
        f.fn = fn
    c03.arm(st, k, f, hit, n)
    return repr(f)


def clear(st):
    st.fault = None
    st.connect_fault = None
    st.close_fault = None


def device_case(ctx, transport):
    """scan / read / write through ClientDevice."""
    rng = ctx.rng
    kinds = TCP_FAULTS if transport == 'TCP' else RTU_FAULTS
    kind = kinds[ctx.idx % len(kinds)]
    with rig.World(ctx) as w:
        img = rig.rand_device(w, punimpl=.1, max_regs=700)
        r = w.attach(img, transport)
        st = r.station
        st.chunker = rig.rand_chunks(rng)
        op = ['scan', 'read', 'write', 'script', 'rescan'][(ctx.idx // len(kinds)) % 5]
        if op == 'script':
            script_case(ctx, w, r, img, st, kind)
            return
        d = r.client()
        log = []
        if op != 'scan':
            d.scan()
            d.read_points()
        explicit = transport == 'TCP' and op in ('read', 'write') and rng.random() < .5
        if explicit:
            d.modbus_device.connect()
        rounds = rng.choice([1, 1, 2, 3])
        for rnd in range(rounds):
            k = rng.choice([0, 0, 1, 2, 3, 5, 8])
            if op in ('scan', 'rescan') and kind != 'connect':
                k = rng.randint(0, 2 * len(img.models) + 3)
            new_contents(rng, img, r)
            hit = []
            desc = install(ctx, st, kind, k, hit, rng.choice([1, 1, 2]))
            want = {}
            err = None
            try:
                if op in ('scan', 'rescan'):
                    d.scan()
                elif op == 'read':
                    d.read_points()
                else:
                    ts = rig.targets(list(zip(d.models_list, img.models)))
                    # values as of the previous read are what scale factors refer to: write unscaled points
                    ts = [t for t in ts if t.p.sf is None]
                    for t in ts:
                        v, data = rig.value_for(rng, t)
                        t.point.value = v
                        want[t.addr] = data
                    for m in d.models_list:
                        m.write_points()
            except client.SunSpecClientError as e:
                err = e
                ctx.check(hit or rnd, '%s over %s failed without a fault: %s' % (op, transport, e), 'failed', faults=log)
                if not hit:
                    ctx.fail('%s over %s failed after the fault was over: %s' % (op, transport, e), 'not-recovered', faults=log)
            clear(st)
            if not hit:
                ctx.count('not_hit')
            else:
                ctx.count('faults_hit')
                ctx.count('fault_%s' % kind)
                ctx.count('op_%s' % op)
                if err is not None:
                    ctx.count('library_errors')
            log.append((op, kind, k, bool(hit), str(err)))
            if err is None:
                # reported as done
                pairs = list(zip(d.models_list, img.models))
                if [(m.id, m.len, m.addr) for m in d.models_list] != [(m.id, m.len, m.addr) for m in img.models]:
                    ctx.fail('a disturbed %s reported success with other models' % op, 'partial-scan', faults=log)
                if op == 'read':
                    for m, mi in pairs:
                        rig.verify_model(ctx, m, mi, 'disturbed read reported as done: ')
                if op == 'write':
                    for a, data in want.items():
                        ctx.check(r.unit.get(a, len(data) // 2) == data, 'a disturbed write was reported as done but register %d differs' % a, 'false-success', faults=log)
            # the fault is over: current data
            for m in img.models:
                if op == 'write':
                    m.data[:] = r.unit.get(m.addr, m.len)
            if op != 'write' or rng.random() < .5:
                new_contents(rng, img, r)
            try:
                nxt = rng.choice(['raw', 'points', 'scan'])
                if nxt == 'raw':
                    got = d.read(img.base, len(img.bytes()) // 2)
                    ctx.check(got == img.bytes(), 'after %s the next read returned other bytes' % desc, 'stale', faults=log)
                if op in ('scan', 'rescan') or nxt == 'scan':
                    d.scan()
                d.read_points()
            except client.SunSpecClientError as e:
                ctx.fail('after %s during %s over %s the next operation failed: %s' % (desc, op, transport, e), 'not-recovered', faults=log)
            pairs = list(zip(d.models_list, img.models))
            if [(m.id, m.len, m.addr) for m in d.models_list] != [(m.id, m.len, m.addr) for m in img.models]:
                ctx.fail('models differ after recovery', 'models', faults=log)
            for m, mi in pairs:
                rig.verify_model(ctx, m, mi, 'after %s during %s: ' % (desc, op))
            ctx.count('recoveries')
            ctx.seen(transport, op, kind, k, explicit, img.bytes())
        ctx.note(transport=transport, faults=log)
        d.close()


def script_case(ctx, w, r, img, st, kind):
    rng = ctx.rng
    k = rng.randint(0, 2 * len(img.models) + 3) if kind != 'connect' else 0
    hit = []
    desc = install(ctx, st, kind, k, hit, rng.choice([1, 2]))
    s = None
    try:
        s = r.scripting()
        if [(m.id, m.len) for m in s.device.models_list] != [(m.id, m.len) for m in img.models]:
            ctx.fail('a disturbed construction succeeded with other models', 'partial-scan', fault=desc)
    except client.SunSpecClientError as e:
        ctx.check(hit, 'construction failed without a fault: %s' % e, 'failed')
        ctx.count('library_errors')
    clear(st)
    if hit:
        ctx.count('faults_hit')
        ctx.count('fault_%s' % kind)
        ctx.count('op_script')
    if s is None:
        try:
            s = r.scripting()
        except client.SunSpecClientError as e:
            ctx.fail('construction failed after %s was over: %s' % (desc, e), 'not-recovered')
    new_contents(rng, img, r)
    try:
        s.read()
    except client.SunSpecClientError as e:
        ctx.fail('reading failed after %s was over: %s' % (desc, e), 'not-recovered')
    for m, mi in zip(s.device.models_list, img.models):
        rig.verify_model(ctx, m, mi, 'after disturbed construction: ')
    ctx.count('recoveries')
    ctx.seen('script', kind, k, img.bytes())
    s.close()


def modbus_case(ctx, transport):
    """read / write / connect on the Modbus device objects."""
    rng = ctx.rng
    kinds = TCP_FAULTS if transport == 'TCP' else RTU_FAULTS
    kind = kinds[ctx.idx % len(kinds)]
    with rig.World(ctx) as w:
        unit = sim.Unit()
        for i in range(500):
            unit.h[40000 + i] = rng.getrandbits(16)
        mc = rng.choice([125, 125, 20, 5])
        uid = rng.choice([1, 5, 247])
        if transport == 'TCP':
            st = w.net.add_tcp('h', 502, {uid: unit})
            dev = modbus.ModbusClientDeviceTCP(uid, 'h', timeout=1, max_count=mc)
        else:
            st = w.net.add_bus('/dev/c9', {uid: unit})
            dev = modbus.ModbusClientDeviceRTU(uid, '/dev/c9', max_count=mc)
        st.chunker = rig.rand_chunks(rng)
        explicit = transport == 'TCP' and rng.random() < .6
        if explicit:
            dev.connect()
        log = []
        for rnd in range(rng.randint(1, 6)):
            op = rng.choice(['read', 'read', 'write', 'connect'] if transport == 'TCP' else ['read', 'write'])
            n = rng.choice([1, 2, mc, mc + 1, 3 * mc])
            n = min(n, 400)
            off = rng.randint(0, 500 - n)
            k = rng.randint(0, (n - 1) // mc) if op != 'connect' else 0
            hit = []
            fk = kind if rng.random() < .6 else rng.choice(kinds)
            if op == 'connect':
                fk = 'connect'
            desc = install(ctx, st, fk, k, hit, rng.choice([1, 1, 2]))
            err = None
            data = None
            before = dict(unit.h)
            try:
                if op == 'read':
                    got = dev.read(40000 + off, n)
                    if len(got) != 2 * n or got != unit.get(40000 + off, n):
                        ctx.fail('a read under %s returned other bytes' % desc, 'wrong-data', faults=log)
                elif op == 'write':
                    data = bytes(rng.getrandbits(8) for _ in range(2 * n))
                    dev.write(40000 + off, data)
                    ctx.check(unit.get(40000 + off, n) == data, 'a write under %s reported success' % desc, 'false-success', faults=log)
                else:
                    dev.connect()
            except modbus.ModbusClientError as e:
                err = e
                ctx.check(hit, '%s failed without a fault: %r' % (op, e), 'not-recovered', faults=log)
            clear(st)
            log.append((op, fk, k, bool(hit), type(err).__name__))
            if hit:
                ctx.count('faults_hit')
                ctx.count('fault_%s' % fk)
                ctx.count('modbus_%s' % op)
                if fk in ('exc', 'busy'):
                    ctx.check(isinstance(err, modbus.ModbusClientException), 'a device exception raised %r' % err, 'exception-type', faults=log)
                    ctx.count('exceptions_distinguished')
                elif err is not None and not (fk == 'damaged' and transport == 'TCP'):     # may look like an exception reply
                    ctx.check(not isinstance(err, modbus.ModbusClientException), '%s raised %r' % (desc, err), 'exception-type', faults=log)
                    ctx.count('failures_distinguished')
                    if fk in ('drop', 'drop-applied', 'late', 'cut-silence'):
                        ctx.check(isinstance(err, modbus.ModbusClientTimeout), 'an unanswered request raised %r, no timeout' % err, 'timeout-type', faults=log)
                        ctx.count('timeouts_distinguished')
            # current data
            for a in list(unit.h):
                unit.h[a] ^= rng.getrandbits(16)
            if rng.random() < .25 and not (explicit and op == 'connect'):
                ctx.count('faults_in_a_row')
                continue
            try:
                if rng.random() < .5:
                    # the same operation, or a write, comes first
                    m = n if rng.random() < .5 else rng.randint(1, 30)
                    new = bytes(rng.getrandbits(8) for _ in range(2 * m))
                    o = off if m == n else rng.randint(0, 400)
                    dev.write(40000 + o, new)
                    ctx.check(unit.get(40000 + o, m) == new, 'after %s the next write did not arrive' % desc, 'not-recovered', faults=log)
                    ctx.count('write_first')
                for _ in range(rng.choice([1, 2])):
                    o, m = rng.choice([(0, 500), (off, n), (off, n), (off, min(n, mc)), (rng.randint(0, 499), 1), (rng.randint(0, 400), rng.randint(1, 100))])
                    got = dev.read(40000 + o, m)
                    ctx.check(got == unit.get(40000 + o, m), 'after %s during %s the next read returned other bytes' % (desc, op), 'stale', faults=log)
                new = bytes(rng.getrandbits(8) for _ in range(20))
                dev.write(40100, new)
                ctx.check(unit.get(40100, 10) == new, 'after %s the next write did not arrive' % desc, 'not-recovered', faults=log)
            except modbus.ModbusClientError as e:
                ctx.fail('after %s during %s over %s the next operation failed: %r' % (desc, op, transport, e), 'not-recovered', faults=log)
            ctx.count('recoveries')
            ctx.seen(transport, explicit, log)
            if explicit and rng.random() < .3:
                dev.connect()
        ctx.note(transport=transport, faults=log)
        dev.close()


def interrupt_case(ctx, transport):
    """The program is interrupted (Ctrl-C, a signal handler that exits) inside a request; it goes on using the device."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = rig.rand_device(w, punimpl=.1, max_regs=500)
        r = w.attach(img, transport)
        st = r.station
        st.chunker = rig.rand_chunks(rng)
        signal = rng.choice([KeyboardInterrupt, KeyboardInterrupt, SystemExit])
        script = rng.random() < .25
        d = s = None
        if not script:
            d = r.client()
            d.scan()
            d.read_points()
        elif rng.random() < .5:
            s = r.scripting()
            d = s.device
        explicit = d is not None and transport == 'TCP' and rng.random() < .7
        if explicit:
            d.modbus_device.connect()
        nreg = len(img.bytes()) // 2
        log = []
        for rnd in range(rng.choice([1, 1, 2, 3])):
            op = rng.choice(['read', 'read', 'read', 'write', 'points', 'pending', 'scan'] + (['connect'] if transport == 'TCP' else [])) if d is not None else 'script'
            if op == 'scan':
                explicit = False
            new_contents(rng, img, r)
            a = rng.randint(0, nreg - 1)
            n = rng.randint(1, nreg - a)
            if rng.random() < .5:
                a, n = rng.choice([(0, 2), (0, 1), (2, 2), (0, 4)])
            hit = []
            if op == 'connect' or transport == 'TCP' and not explicit and rng.random() < .15:
                op2 = 'connecting'
                first = st.nconnect

                def cf(i):
                    if i == first:
                        hit.append(i)
                        return signal()
                st.connect_fault = cf
            else:
                k = rng.randint(0, 2 * len(img.models) + 1) if op in ('scan', 'script') else rng.choice([0, 0, 0, 1, 2])
                op2 = sim.Fault('cut', keep=rng.choice([0, 0, 0, 1, 3, 5, 6, 7, 8, 9, 12, 20]), then='interrupt', exc=signal())
                c03.arm(st, k, op2, hit)
            log.append((op, str(op2), explicit, a, n))
            interrupted = False
            want = {}
            try:
                if op == 'read':
                    got = d.read(img.base + a, n)
                    ctx.check(got == img.bytes()[2 * a:2 * (a + n)], 'an interrupted read returned other bytes', 'wrong-data', log=log)
                elif op == 'write':
                    c = rng.randint(1, 30)
                    unit_data = r.unit.get(img.base, nreg)
                    d.write(img.base, unit_data[:2 * min(c, nreg)])
                elif op == 'points':
                    d.read_points()
                    for m, mi in zip(d.models_list, img.models):
                        rig.verify_model(ctx, m, mi, 'read that was to be interrupted: ')
                elif op == 'pending':
                    for t in [t for t in rig.targets(list(zip(d.models_list, img.models))) if t.p.sf is None]:
                        if rng.random() < .5:
                            v, data = rig.value_for(rng, t)
                            t.point.value = v
                            want[t.addr] = data
                    for m in d.models_list:
                        m.write_points()
                elif op == 'scan':
                    d.scan()
                elif op == 'connect':
                    d.modbus_device.connect()
                else:
                    s = r.scripting()
                    d = s.device
            except (KeyboardInterrupt, SystemExit):
                interrupted = True
                ctx.check(hit, 'an interruption out of nowhere', 'interrupt', log=log)
                ctx.count('interrupted_' + op)
                ctx.count('interruptions')
            except client.SunSpecClientError as e:
                ctx.check(hit, '%s failed without a fault: %s' % (op, e), 'not-recovered', log=log)
            except modbus.ModbusClientError as e:
                ctx.check(hit and op == 'connect', '%s failed: %r' % (op, e), 'error-type', log=log)
            clear(st)
            if not explicit and (interrupted or op != 'connect'):
                ctx.check(not w.net.open_sockets(), 'an interrupted %s left its connection open' % op, 'leak', log=log)
            if op == 'script' and interrupted:
                ctx.check(not [p for p in w.net.ports if p.is_open], 'an interrupted construction left its port open', 'leak', log=log)
            if op == 'connect':
                explicit = not interrupted
            for m in img.models:
                if op in ('pending', 'write'):
                    m.data[:] = r.unit.get(m.addr, m.len)
            new_contents(rng, img, r)
            try:
                if d is None:
                    s = r.scripting()
                    d = s.device
                if want:
                    # what the device did not acknowledge is still pending
                    for m in d.models_list:
                        m.write_points()
                    # what was acknowledged before the interruption may have been replaced by the new contents since
                    for m in img.models:
                        m.data[:] = r.unit.get(m.addr, m.len)
                for _ in range(rng.choice([1, 2, 3])):
                    o, c = rng.choice([(a, n), (0, nreg), (0, 2), (nreg - 1, 1), (rng.randint(0, nreg - 1), 1)])
                    got = d.read(img.base + o, c)
                    ctx.check(got == r.unit.get(img.base + o, c), 'after an interrupted %s the next read returned other bytes' % op, 'stale', log=log)
                if op == 'scan':
                    d.scan()
                d.read_points()
            except client.SunSpecClientError as e:
                ctx.fail('after an interrupted %s over %s the next operation failed: %s' % (op, transport, e), 'not-recovered', log=log)
            if [(m.id, m.len, m.addr) for m in d.models_list] != [(m.id, m.len, m.addr) for m in img.models]:
                ctx.fail('models differ after an interruption', 'models', log=log)
            for m, mi in zip(d.models_list, img.models):
                rig.verify_model(ctx, m, mi, 'after an interrupted %s: ' % op)
            ctx.count('interrupt_recoveries')
        ctx.seen('interrupt', transport, log, img.bytes())
        ctx.note(transport=transport, log=log)
        if d is not None:
            d.close()
            ctx.check(not w.net.open_sockets() and not [p for p in w.net.ports if p.is_open], 'left open after closing', 'leak', log=log)


def mapped_case(ctx):
    """Maps that are missing, malformed or too small."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        path = os.path.join(w.store.dir, 'm.xml')
        kind = rng.choice(['missing', 'malformed', 'content', 'func', 'overlap', 'none', 'directory', 'outside', 'hole', 'odd'])
        good = '<mbmap addr="40000"><regs offset="0" len="4" access="rw">53756e53ffff0000</regs></mbmap>'
        text = {'malformed': rng.choice(['', '<mbmap', 'xx', '<mbmap><regs></mbmap>']),
                'content': rng.choice(['<mbmap><regs type="u16">abc</regs></mbmap>', '<mbmap><regs>zzzz</regs></mbmap>', '<mbmap><regs>123</regs></mbmap>',
                                       '<mbmap addr="x"/>', '<mbmap><regs offset="q">0001</regs></mbmap>', '<mbmap><regs type="u16">70000</regs></mbmap>',
                                       '<mbmap><regs type="zz">1</regs></mbmap>', '<mbmap><regs type="f32">1.x</regs></mbmap>',
                                       '<mbmap><regs len="a">0000</regs></mbmap>']),
                'func': '<mbmap func="coils"><regs>0001</regs></mbmap>',
                'overlap': '<mbmap><regs offset="5">00010002</regs><regs offset="6">0001</regs></mbmap>'}.get(kind, good)
        if kind != 'missing':
            if kind == 'directory':
                os.mkdir(path)
            else:
                with open(path, 'w') as f:
                    f.write(text)
        if rng.random() < .15:
            # a device without a transport
            what = rng.choice(['mapped', 'UDP', '', None, 'tcp', 0])
            for op in (lambda: client.ClientDevice(what, 1, name=path).read(40000, 2), lambda: client.ClientDevice(what, 1).write(40000, b'\0\0'),
                       lambda: client.ClientDevice(what, 1, name=path).scan(), lambda: client.SunSpecClientDevice(what, 1, path)):
                try:
                    op()
                    ctx.fail('an operation of a device of an unknown type succeeded', 'no-error')
                except client.SunSpecClientError:
                    ctx.count('unknown_types')
            client.ClientDevice(what, 1).close()
        if rng.random() < .15:
            # interrupted while its map is looked for
            class Interrupting(util.PathList):
                def read(self, filename):
                    raise rng.choice([KeyboardInterrupt, SystemExit])()
            for make in (client.ClientDevice, client.SunSpecClientDevice):
                try:
                    make(client.MAPPED, 1, path, Interrupting())
                    ctx.fail('a map that could not be read was accepted', 'no-error')
                except client.SunSpecClientError as e:
                    ctx.fail('an interruption while a map was loaded became %r' % e, 'interrupt')
                except (KeyboardInterrupt, SystemExit):
                    ctx.count('map_interruptions')
        if kind in ('outside', 'hole', 'odd'):
            with open(path, 'w') as f:
                f.write('<mbmap addr="40000"><regs offset="0" len="4" access="rw">53756e53ffff0000</regs><regs offset="10" len="4" access="rw"/></mbmap>')
            d = client.ClientDevice(client.MAPPED, 1, name=path)
            tries = {'outside': [lambda: d.read(39999, 1), lambda: d.read(40014, 1), lambda: d.write(50000, b'\0\0'), lambda: d.read(0, 1), lambda: d.read(40010, 5)],
                     'hole': [lambda: d.read(40003, 2), lambda: d.read(40004, 1), lambda: d.write(40004, b'\0\0'), lambda: d.write(40009, b'\0\0\0\0')],
                     'odd': [lambda: d.write(40000, b'\0'), lambda: d.write(40000, b'\0\0\0')]}[kind]
            for t in tries:
                try:
                    t()
                    ctx.fail('access outside the map succeeded', 'no-error')
                except client.SunSpecClientError:
                    ctx.count('map_errors')
            ctx.check(d.read(40000, 4) == bytes.fromhex('53756e53ffff0000'), 'the map changed', 'stale')
            d.scan()
            ctx.count('recoveries')
            # the same at the Modbus level
            md = modbus.ModbusClientDeviceMapped(1, path)
            for t in (lambda: md.read(39999, 1), lambda: md.read(40004, 1), lambda: md.write(40004, b'\0\0'), lambda: md.read(40000, 1, 4)):
                try:
                    t()
                    ctx.fail('access outside the map succeeded', 'no-error')
                except (modbus.ModbusClientError, mbmap.ModbusMapError):
                    ctx.count('map_errors')
        else:
            for make in (lambda: client.ClientDevice(client.MAPPED, 1, name=None if kind == 'none' else path),
                         lambda: client.SunSpecClientDevice(client.MAPPED, 1, name=None if kind == 'none' else path)):
                try:
                    make()
                    ctx.fail('a %s map was accepted' % kind, 'no-error', text=text)
                except client.SunSpecClientError:
                    ctx.count('map_errors')
                    ctx.count('map_' + kind)
            with open(path, 'w') if kind != 'directory' else open(path + '2', 'w') as f:
                f.write(good)
            d = client.ClientDevice(client.MAPPED, 1, name=path if kind != 'directory' else path + '2')
            d.scan()
            ctx.count('recoveries')
        ctx.seen('mapped', kind, text)


def port_case(ctx):
    """Serial ports that cannot be opened, and host errors at connect."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = rig.rand_device(w, nmodels=1)
        if rng.random() < .5:
            r = w.attach(img, 'RTU')
            st = r.station
            n = rng.choice([1, 2, 3])
            mk = rng.choice([lambda: c03_serial('could not open port'), lambda: OSError(errno.EACCES, 'Permission denied'),
                             lambda: FileNotFoundError(errno.ENOENT, 'No such file'), KeyboardInterrupt, SystemExit])
            through = isinstance(mk(), (KeyboardInterrupt, SystemExit))
            st.connect_fault = lambda i: mk() if i < n else None
            for k in range(n):
                try:
                    r.client() if rng.random() < .5 else r.scripting()
                    ctx.fail('a port that cannot be opened was accepted', 'no-error')
                except client.SunSpecClientError as e:
                    ctx.check(not through, 'an interruption while a port was opened became %r' % e, 'interrupt')
                    ctx.count('open_errors')
                except (KeyboardInterrupt, SystemExit):
                    ctx.check(through, 'an interruption out of nowhere', 'interrupt')
                    ctx.count('open_interruptions')
            d = r.client()
        else:
            r = w.attach(img, 'TCP')
            n = rng.choice([1, 2, 3])
            st = r.station
            d = r.client()
            seq = [rng.choice(CONNECT_ERRORS) for _ in range(n)]
            st.connect_fault = lambda i: seq[i]() if i < n else None
            for k in range(n):
                try:
                    rng.choice([lambda: d.scan(), lambda: d.read(40000, 1), lambda: d.write(40000, b'\0\0')])()
                    ctx.fail('an operation without a connection succeeded', 'no-error')
                except client.SunSpecClientError:
                    ctx.count('open_errors')
        d.scan()
        d.read_points()
        for m, mi in zip(d.models_list, img.models):
            rig.verify_model(ctx, m, mi, 'after failed opens: ')
        ctx.check(len(d.models_list) == len(img.models), 'models differ', 'models')
        ctx.count('recoveries')
        ctx.seen('open', n, img.bytes())
        d.close()


def c03_serial(msg):
    import serial
    return serial.SerialException(msg)


KINDS = {
    'device_tcp': (lambda c: device_case(c, 'TCP'), 1650, 16500),
    'device_rtu': (lambda c: device_case(c, 'RTU'), 1500, 15000),
    'modbus_tcp': (lambda c: modbus_case(c, 'TCP'), 1100, 11000),
    'modbus_rtu': (lambda c: modbus_case(c, 'RTU'), 1000, 10000),
    'interrupt_tcp': (lambda c: interrupt_case(c, 'TCP'), 700, 10000),
    'interrupt_rtu': (lambda c: interrupt_case(c, 'RTU'), 400, 5000),
    'mapped': (mapped_case, 200, 2000),
    'open': (port_case, 200, 2000),
}
MIN = {'interruptions': 500, 'interrupt_recoveries': 800, 'faults_hit': 3000, 'recoveries': 5000, 'library_errors': 1500, 'exceptions_distinguished': 100, 'failures_distinguished': 500, 'timeouts_distinguished': 200,
       'unknown_types': 40, 'open_interruptions': 30, 'map_interruptions': 20, 'map_errors': 300, 'open_errors': 200}
MIN.update({'op_' + o: 100 for o in ('scan', 'rescan', 'read', 'write', 'script')})
MIN.update({'fault_' + k: 40 for k in set(TCP_FAULTS + RTU_FAULTS)})

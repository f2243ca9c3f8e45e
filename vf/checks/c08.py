"""C08: damaged, foreign and exception replies never become data or success."""
import struct

from .. import ref, rig, sim
from ..env import client, modbus, util

ID = 'C08'
LEVEL = 'fault_enumeration'
TECH = 'reply-mutation fault injection with an oracle on what may count as a confirmed reply'
RULE = ('For read (both functions) and write requests over TCP and serial, at any request of a multi-request transfer, the reply is '
        'replaced by every single-byte corruption of its protected part (several masks per byte), every truncation, extensions, valid '
        'frames for another unit, function, count, address or transaction, and every exception code 0..255. The monitor requires a '
        'library error, unless the delivered reply is byte for byte the valid one. Distinct by request and mutated reply.')
ASSUMPTIONS = ['data bytes of a TCP reply are not protected by the protocol', 'a serial reply followed by further bytes is a valid reply', 'a device answers a TCP request once (all requests carry transaction 0)']

LIBERR = (modbus.ModbusClientError, util.SunSpecError)


class Bench(object):
    def __init__(self, ctx, w, kind):
        rng = ctx.rng
        self.ctx, self.w, self.kind = ctx, w, kind
        self.uid = rng.choice([1, 2, 17, 126, 247])
        self.mc = rng.choice([125, 125, 10, 3])
        self.base = rng.choice([0, 255, 40000, 65000])
        self.unit = sim.Unit()
        for i in range(400):
            self.unit.h[self.base + i] = rng.getrandbits(16)
            self.unit.i[self.base + i] = rng.getrandbits(16)
        self.explicit = kind == 'TCP' and rng.random() < .5
        if kind == 'TCP':
            self.st = w.net.add_tcp('10.1.1.1', 502, {self.uid: self.unit})
            self.dev = modbus.ModbusClientDeviceTCP(self.uid, '10.1.1.1', 502, timeout=1, max_count=self.mc)
        else:
            self.st = w.net.add_bus('/dev/c8', {self.uid: self.unit})
            self.dev = modbus.ModbusClientDeviceRTU(self.uid, '/dev/c8', timeout=.5, max_count=self.mc)
        self.st.chunker = rig.rand_chunks(rng)
        self.n = rng.choice([1, 1, 2, 3, 7, 20])
        self.limit = self.mc
        self.k = 0
        if rng.random() < .3:
            # a later request of a transfer
            self.k = rng.randint(1, 3)
            self.n += self.k * self.mc
            if self.n > 400:
                self.n = 390

    def mutated(self, op, fault_of, must_fail, what):
        """One transfer whose k-th reply is replaced; fault_of(frame, req) -> bytes."""
        ctx = self.ctx
        st = self.st
        first = len(st.requests) + self.k
        hit = []

        def f(i, req):
            if i == first and req is not None:
                hit.append(req)
                return self.fault
            return None
        self.fault = sim.Fault('raw', fn=lambda fr, rq: bytes(fault_of(bytearray(fr), rq))) if not isinstance(fault_of, sim.Fault) else fault_of
        st.fault = f
        self.w.net.ops = 0
        if self.explicit and self.dev.socket is None:
            self.dev.connect()
        err = got = None
        data = None
        try:
            if op == 16:
                data = bytes(ctx.rng.getrandbits(8) for _ in range(2 * self.n))
                self.dev.write(self.base, data)
            else:
                got = self.dev.read(self.base, self.n, op=op)
        except LIBERR as e:
            err = e
        finally:
            st.fault = None
        desc = '%s of %d registers (reply %d of the transfer, unit %d, %s): %s' % (
            'write' if op == 16 else 'read', self.n, self.k + 1, self.uid, self.kind, what)
        if not hit:
            return None
        ctx.count('mutations')
        if err is None:
            if must_fail:
                ctx.fail('%s was taken for %s' % (desc, 'success' if op == 16 else 'data'), 'accepted', result=got and got[:40])
            if op != 16:
                want = self.unit.get(self.base, self.n, op == 4)
                ctx.check(got == want, '%s: returned other bytes' % desc, 'wrong-data')
            ctx.count('valid_accepted')
        else:
            ctx.count('rejected')
            ctx.count('rejected_' + type(err).__name__)
        ctx.seen(self.kind, op, self.n, self.k, what)
        return err

    def fresh(self, op):
        """A valid transfer still works afterwards (drops what may be left)."""
        if self.kind == 'TCP' and self.explicit:
            self.dev.disconnect()


def prot(kind, op, frame):
    """Indices of the reply whose change must be noticed."""
    if kind == 'RTU' or op == 16:
        return range(len(frame))
    return range(9)


def reseal(b):
    b[-2:] = sim.crc16(bytes(b[:-2]))
    return b


def bytes_case(ctx, kind):
    """Every byte of the reply, several masks."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        b = Bench(ctx, w, kind)
        op = rng.choice([3, 3, 4, 16])
        frame_len = (9 if kind == 'TCP' else 5) + (2 * (b.n - b.k * b.limit) if op != 16 else 3)
        last = b.n - b.k * (min(b.limit, 123) if op == 16 else b.limit)
        count = min(last, b.limit if op != 16 else min(b.limit, 123)) if last > 0 else b.limit
        n = (9 + 2 * count if kind == 'TCP' else 5 + 2 * count) if op != 16 else (12 if kind == 'TCP' else 8)
        pos = [i for i in range(n) if kind == 'RTU' or op == 16 or i < 9]
        if len(pos) > 24:
            pos = pos[:8] + rng.sample(pos[8:-3], 10) + pos[-3:]
        masks = [0x01, 0x80, rng.randint(1, 255), rng.randint(1, 255)]
        for i in pos:
            for m in masks:
                def mut(fr, rq):
                    j = i if i < len(fr) else len(fr) - 1
                    fr[j] ^= m
                    return fr
                b.mutated(op, mut, True, 'byte %d changed by %#x' % (i, m))
                b.fresh(op)
                ctx.count('bytes_changed')
        w.check_bad()
        ctx.note(transport=kind, function=op, registers=b.n, request_limit=b.mc, position=b.k, bytes=len(pos))


def shape_case(ctx, kind):
    """Truncations, extensions, valid frames for something else."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        b = Bench(ctx, w, kind)
        op = rng.choice([3, 3, 4, 16])
        tcp = kind == 'TCP'
        hdr = 6 if tcp else 0

        def seal(pdu, tid=0):
            if tcp:
                return struct.pack('>HHH', tid, 0, len(pdu)) + bytes(pdu)
            return bytes(pdu) + sim.crc16(bytes(pdu))

        def body(fr):
            return bytearray(fr[6:] if tcp else fr[:-2])

        # truncations
        for keep in list(range(0, 13)) + [rng.randint(0, 30)]:
            for then in (('close', 'silence', 'reset') if tcp else ('silence', 'ioerror')):
                class Cut(sim.Fault):
                    pass
                # only a real truncation counts
                err = b.mutated(op, sim.Fault('cut', keep=keep, then=then), keep < (9 if tcp else 5), 'cut to %d bytes, then %s' % (keep, then))
                b.fresh(op)
                ctx.count('truncations')
        muts = []
        other_unit = [u for u in (1, 3, b.uid ^ 1, 255) if u != b.uid]
        for u in other_unit:
            def f(fr, rq, u=u):
                p = body(fr)
                p[0] = u
                return seal(p)
            muts.append(('reply of unit %d' % u, f))
        for fc in (1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 43):
            if fc != op:
                def f(fr, rq, fc=fc):
                    p = body(fr)
                    p[1] = fc
                    return seal(p)
                muts.append(('reply to function %d' % fc, f))
        if op == 16:
            for d in (1, -1, 256, 0x8000):
                def f(fr, rq, d=d):
                    return seal(struct.pack('>BBHH', rq.unit, 16, (rq.addr + d) & 0xffff, rq.count))
                muts.append(('confirmation for an address %+d' % d, f))
            for d in (1, -1, 2, 100, 256):
                def f(fr, rq, d=d):
                    return seal(struct.pack('>BBHH', rq.unit, 16, rq.addr, (rq.count + d) & 0xffff))
                muts.append(('confirmation for a count %+d' % d, f))
            for ln in (0, 1, 2, 3):
                def f(fr, rq, ln=ln):
                    return seal(body(fr)[:2 + ln])
                muts.append(('confirmation of %d bytes' % (2 + ln), f))
            if tcp:
                for ln in (1, 2, 5):
                    def f(fr, rq, ln=ln):
                        return seal(bytes(body(fr)) + b'\0' * ln)
                    muts.append(('confirmation with %d bytes more' % ln, f))

            def f(fr, rq):
                return seal(struct.pack('>BBB', rq.unit, 3, 2 * rq.count) + b'\1' * (2 * rq.count))
            muts.append(('reply to a read', f))
        else:
            for d in (1, -1, 2, 5, 125, -2):
                def f(fr, rq, d=d):
                    c = max(0, min(rq.count + d, 127))
                    if c == rq.count:
                        c = 0
                    return seal(struct.pack('>BBB', rq.unit, rq.func, 2 * c) + b'\x5a' * (2 * c))
                muts.append(('reply of another count (%+d)' % d, f))
            for d in (1, -1, 3):
                def f(fr, rq, d=d):
                    p = bytearray(struct.pack('>BBB', rq.unit, rq.func, (2 * rq.count + d) & 255)) + b'\x5a' * max(0, 2 * rq.count + d)
                    return seal(p)
                muts.append(('reply with a byte count off by %+d' % d, f))
            if tcp:
                for d in (1, 2, 4, 20):
                    def f(fr, rq, d=d):
                        return seal(bytes(body(fr)) + b'\xa5' * d)
                    muts.append(('reply with %d bytes more than its byte count' % d, f))
                for d in (1, 2):
                    def f(fr, rq, d=d):
                        return seal(bytes(body(fr))[:-d])
                    muts.append(('reply with %d bytes less than its byte count' % d, f))
            else:
                def f(fr, rq):
                    p = body(fr)
                    return bytes(p) + sim.crc16(bytes(p))[::-1] if sim.crc16(bytes(p))[0] != sim.crc16(bytes(p))[1] else bytes(p) + b'\0\0'
                muts.append(('checksum with swapped bytes', f))

            def f(fr, rq):
                return seal(struct.pack('>BBHH', rq.unit, 16, rq.addr, rq.count))
            muts.append(('confirmation of a write', f))
        if tcp:
            for tid in (1, 2, 0x100, 0xffff):
                def f(fr, rq, tid=tid):
                    return struct.pack('>H', (rq.tid + tid) & 0xffff) + bytes(fr[2:])
                muts.append(('reply to another transaction', f))
            for pid in (1, 0x100, 0x5555):
                def f(fr, rq, pid=pid):
                    return bytes(fr[:2]) + struct.pack('>H', pid) + bytes(fr[4:])
                muts.append(('reply of protocol %d' % pid, f))
            for d in (-1, 1, -3, 3, 1000):
                def f(fr, rq, d=d):
                    ln = max(0, min(65535, len(fr) - 6 + d))
                    return bytes(fr[:4]) + struct.pack('>H', ln) + bytes(fr[6:])
                muts.append(('header length off by %+d' % d, f))
            for ln in (0, 1, 2):
                def f(fr, rq, ln=ln):
                    return bytes(fr[:4]) + struct.pack('>H', ln) + bytes(fr[6:])
                muts.append(('header length %d' % ln, f))

        def f(fr, rq):
            return bytes(rng.getrandbits(8) for _ in range(len(fr)))
        muts.append(('noise', f))

        def f(fr, rq):
            return b'\0' * len(fr)
        muts.append(('zero bytes', f))

        def f(fr, rq):
            return b'\xff' * len(fr)
        muts.append(('ff bytes', f))

        def f(fr, rq):
            return rq.frame
        muts.append(('the request echoed', f))
        for what, f in muts:
            if what == 'the request echoed' and kind == 'RTU' and op == 16:
                continue                            # an echo differs from a confirmation only in length and checksum
            b.mutated(op, f, True, what)
            b.fresh(op)
            ctx.count('foreign_replies')
        # the unchanged reply passes
        err = b.mutated(op, lambda fr, rq: fr, False, 'unchanged')
        ctx.check(err is None, 'a valid reply was refused: %s' % err, 'refused')
        ctx.count('unchanged_accepted')
        w.check_bad()
        ctx.note(transport=kind, function=op, registers=b.n, mutations=len(muts))


def exception_case(ctx, kind):
    """Every exception code, from this unit or another, for this function or another."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        b = Bench(ctx, w, kind)
        op = [3, 4, 16][ctx.idx % 3]
        for code in range(256):
            err = b.mutated(op, sim.Fault('exc', code=code), True, 'exception %d' % code)
            ctx.check(err is None or isinstance(err, modbus.ModbusClientException), 'exception reply with code %d raised %r' % (code, err), 'exception-type')
            ctx.count('exception_codes')
        for fc in (0x80, 0x81, 0x83, 0x84, 0x90, 0xff):
            for u in (b.uid, b.uid ^ 3):
                def f(fr, rq):
                    pdu = bytes([u, fc, 2])
                    return struct.pack('>HHH', 0, 0, 3) + pdu if kind == 'TCP' else pdu + sim.crc16(pdu)
                err = b.mutated(op, f, True, 'exception frame %02x of unit %d' % (fc, u))
                own = u == b.uid and fc == op | 0x80
                ctx.check(err is None or isinstance(err, modbus.ModbusClientException) == own,
                          'exception frame %02x of unit %d for function %d of unit %d raised %r' % (fc, u, op, b.uid, err), 'exception-type')
                b.fresh(op)
        # a foreign frame ahead of the reply: what follows must not serve a later request
        for k in range(8):
            fc, u = rng.choice([op | 0x80, 0x80, 0x83, 0x84, 0x90]), b.uid ^ rng.choice([0, 3])
            if u == b.uid and fc == op | 0x80:
                continue
            more = rng.choice([0, 0, 1, 2])

            def f(fr, rq):
                pdu = bytes([u, fc, 2]) + b'\0' * more
                return (struct.pack('>HHH', 0, 0, len(pdu)) + pdu if kind == 'TCP' else pdu + sim.crc16(pdu)) + bytes(fr)
            b.mutated(op, f, True, 'exception frame %02x of unit %d ahead of the reply' % (fc, u))
            for _ in range(2):
                a = b.base + rng.randint(0, 400 - b.n)
                got = b.dev.read(a, b.n)
                ctx.check(got == b.unit.get(a, b.n), 'the read after a foreign frame returned other registers', 'late')
                ctx.count('after_foreign')
        # damaged exception replies
        for i in range(9 if kind == 'TCP' else 5):
            for m in (1, 0x80, rng.randint(1, 255)):
                def f(fr, rq):
                    pdu = bytes([rq.unit, rq.func | 0x80, 2])
                    x = bytearray(struct.pack('>HHH', 0, 0, 3) + pdu if kind == 'TCP' else pdu + sim.crc16(pdu))
                    x[i] ^= m
                    return x
                b.mutated(op, f, True, 'exception reply, byte %d changed by %#x' % (i, m))
                b.fresh(op)
        w.check_bad()
        ctx.note(transport=kind, function=op, codes='0..255')


def points_case(ctx):
    """Through the client device: a damaged reply never reaches a point or counts as written."""
    rng = ctx.rng
    transport = rng.choice(['TCP', 'RTU'])
    with rig.World(ctx) as w:
        img = rig.rand_device(w, punimpl=0)
        r = w.attach(img, transport)
        d = r.client()
        d.scan()
        d.read_points()
        pairs = list(zip(d.models_list, img.models))
        st = r.station
        for k in range(6):
            m, mi = rng.choice(pairs)
            before = {key: p.value_base for key, p in rig.find_points(m).items()}
            first = len(st.requests) + rng.choice([0, 0, 0, 1])
            hit = []
            which = rng.choice(['unit', 'byte', 'count'])

            def mut(fr, rq):
                fr = bytearray(fr)
                if which == 'byte' or transport == 'RTU':
                    fr[rng.randrange(len(fr)) if transport == 'RTU' else rng.randrange(9)] ^= rng.randint(1, 255)
                elif which == 'unit':
                    fr[6] ^= 1
                else:
                    c = rq.count + 1
                    pdu = struct.pack('>BBB', rq.unit, 3, (2 * c) & 255) + b'\x77' * (2 * c)
                    fr = struct.pack('>HHH', 0, 0, len(pdu)) + pdu
                return bytes(fr)

            def f(i, req):
                if i == first and req is not None:
                    hit.append(1)
                    return sim.Fault('raw', fn=mut)
            st.fault = f
            try:
                m.read_points()
                ctx.check(not hit, 'a damaged reply was taken for data', 'accepted')
            except util.SunSpecError:
                ctx.check(hit, 'reading failed without a fault', 'failed')
                ctx.count('device_reads_rejected')
                after = {key: p.value_base for key, p in rig.find_points(m).items()}
                for key in before:
                    ctx.check(after[key] is None or ref.same_value(after[key], before[key]) or
                              ref.same_value(after[key], mi.expected()[key][1]), 'point %s took a value the device never sent' % (key,), 'wrong-data')
            st.fault = None
            ctx.seen('points', transport, img.bytes(), k)
        m, mi = rng.choice(pairs)
        m.read_points()
        rig.verify_model(ctx, m, mi, 'after damaged replies: ')
        d.close()


KINDS = {
    'bytes_tcp': (lambda c: bytes_case(c, 'TCP'), 200, 2500),
    'bytes_rtu': (lambda c: bytes_case(c, 'RTU'), 200, 2500),
    'shape_tcp': (lambda c: shape_case(c, 'TCP'), 250, 2500),
    'shape_rtu': (lambda c: shape_case(c, 'RTU'), 250, 2500),
    'exception_tcp': (lambda c: exception_case(c, 'TCP'), 30, 300),
    'exception_rtu': (lambda c: exception_case(c, 'RTU'), 30, 300),
    'points': (points_case, 300, 3000),
}
MIN = {'after_foreign': 200, 'rejected': 20000, 'bytes_changed': 5000, 'truncations': 3000, 'foreign_replies': 5000, 'exception_codes': 10000,
       'unchanged_accepted': 300, 'device_reads_rejected': 200}

"""C07: every frame on the wire, decoded and judged by a strict Modbus slave."""
from .. import ref, rig, sim
from ..env import client, modbus
from . import c06

ID = 'C07'
LEVEL = 'exploration'
TECH = 'wire monitor: strict frame decoder and transfer-coverage specification over the recorded traffic'
RULE = ('Transfers of random ranges with every request limit 1..125 (and larger limits), all unit ids, both read functions and writes, '
        'over TCP and serial, plus complete scans, reads and writes of random devices; each byte sent is parsed by a strict slave '
        '(checksum, header, lengths, limits) and each transfer\'s requests must be contiguous, ascending and cover the range exactly once. '
        'Distinct by frame sequence.')
ASSUMPTIONS = ['one transfer at a time']


def coverage(ctx, reqs, uid, func, addr, count, limit, data, what):
    """The requests of one transfer."""
    pos = addr
    for q in reqs:
        ctx.count('requests_checked')
        ctx.eq(q.unit, uid, '%s: unit id of a request' % what, 'unit')
        ctx.eq(q.func, func, '%s: function of a request' % what, 'function')
        ctx.eq(q.addr, pos, '%s: requests are not contiguous' % what, 'not-contiguous', requests=[(x.addr, x.count) for x in reqs][:8])
        ctx.check(1 <= q.count <= limit, '%s: request of %d registers' % (what, q.count), 'limit')
        if func == 16:
            k = q.addr - addr
            ctx.check(q.data == data[2 * k:2 * (k + q.count)], '%s: request at %d carries other data' % (what, q.addr), 'data')
        pos += q.count
    ctx.eq(pos, addr + count, '%s: end of the covered range' % what, 'not-covered', requests=[(x.addr, x.count) for x in reqs][:8])


def leftovers(ctx, w):
    for s in w.net.sockets:
        ctx.check(not s.inbuf, '%d bytes sent that belong to no request' % len(s.inbuf), 'stray-bytes', data=s.inbuf.hex()[:80])
    for p in w.net.ports:
        ctx.check(not p.inbuf, '%d bytes sent that belong to no request' % len(p.inbuf), 'stray-bytes', data=p.inbuf.hex()[:80])


def transfer_case(ctx, kind):
    rng = ctx.rng
    with rig.World(ctx) as w:
        mc = 1 + ctx.idx % 125
        if ctx.idx % 11 == 0:
            mc = rng.choice([125, 125, 124, 123, 122])
        elif ctx.idx % 7 == 0:
            # a limit above what a request can carry
            mc = rng.choice([126, 127, 128, 150, 200, 250, 255, 256, 257, 500, 1000, 4096, 65535])
        uid = rng.randint(0, 255) if kind == 'TCP' else rng.randint(0, 247)
        unit = sim.Unit()
        base = rng.choice([0, 256, 40000, 65536 - 1600, rng.randint(0, 60000)])
        for i in range(1600):
            unit.h[base + i] = rng.getrandbits(16)
            unit.i[base + i] = rng.getrandbits(16)
        if kind == 'TCP':
            st = w.net.add_tcp('10.9.9.9', 1502, {uid: unit})
            default = rng.random() < .2
            dev = modbus.ModbusClientDeviceTCP(uid, '10.9.9.9', 1502, timeout=rng.choice([None, 1])) if default else \
                modbus.ModbusClientDeviceTCP(uid, '10.9.9.9', 1502, timeout=rng.choice([None, 1]), max_count=mc)
        else:
            st = w.net.add_bus('/dev/w0', {uid: unit})
            default = rng.random() < .2
            dev = modbus.ModbusClientDeviceRTU(uid, '/dev/w0') if default else modbus.ModbusClientDeviceRTU(uid, '/dev/w0', max_count=mc)
        if default:
            mc = 125
        st.chunker = rig.rand_chunks(rng)
        if kind == 'TCP' and rng.random() < .5:
            dev.connect()
        for k in range(rng.randint(1, 5)):
            off, n = c06.rand_range(rng, mc if mc <= 125 else rng.choice([125, 123, 123, min(mc, 500)]))
            n = min(n, 1600)
            off = min(off, 1600 - n)
            n0 = len(st.requests)
            op = rng.choice([3, 4, 16, None])
            data = None
            if rng.random() < .08:
                # bytes that are no whole registers: no request can carry them
                try:
                    dev.write(base + off, bytes(rng.getrandbits(8) for _ in range(2 * n - 1)))
                    ctx.fail('a write of %d bytes was accepted' % (2 * n - 1), 'odd-bytes')
                except modbus.ModbusClientError:
                    ctx.count('odd_writes')
                w.check_bad()
                leftovers(ctx, w)
                n0 = len(st.requests)
            if op == 16:
                data = bytes(rng.getrandbits(8) for _ in range(2 * n))
                dev.write(base + off, data)
            elif op is None:
                dev.read(base + off, n)
            else:
                dev.read(base + off, n, op=op)
            what = '%s of %d registers at %d, unit %d, limit %d over %s' % ('write' if op == 16 else 'read', n, base + off, uid, mc, kind)
            reqs = st.requests[n0:]
            coverage(ctx, reqs, uid, op or 3, base + off, n, min(mc, 123 if op == 16 else 125), data, what)
            if mc > 125:
                ctx.count('transfers_limit_above_125')
            if len(reqs) > 1:
                ctx.count('multi_request_transfers')
            ctx.count('transfers_%s' % (op or 3))
            ctx.seen(kind, uid, [(q.func, q.addr, q.count) for q in reqs])
        w.check_bad()
        leftovers(ctx, w)
        ctx.note(transport=kind, unit=uid, limit=mc, frames=[q.frame.hex()[:60] for q in st.requests[:4]])
        dev.close()


def device_case(ctx):
    """All traffic of scanning, reading and writing whole devices."""
    rng = ctx.rng
    transport = rng.choice(['TCP', 'RTU'])
    with rig.World(ctx) as w:
        img = rig.rand_device(w, max_regs=2500)
        r = w.attach(img, transport, unit_id=rng.randint(1, 247))
        r.station.chunker = rig.rand_chunks(rng)
        d = r.client()
        d.scan()
        lo, hi = img.base, img.end + 2
        n0 = len(r.station.requests)
        d.read_points()
        reqs = r.station.requests[n0:]
        # each model's registers requested exactly once, in order
        pos = 0
        for m in img.models:
            a = m.addr
            while a < m.addr + m.len:
                ctx.check(pos < len(reqs), 'registers from %d of model %d were not requested' % (a, m.id), 'not-covered')
                q = reqs[pos]
                ctx.check(q.func == 3 and q.addr == a and q.addr + q.count <= m.addr + m.len and q.count <= 125,
                          'reading model %d (%d registers at %d) sent %r' % (m.id, m.len, m.addr, q), 'not-contiguous',
                          requests=[(x.addr, x.count) for x in reqs][:20])
                a += q.count
                pos += 1
        ctx.check(pos == len(reqs), '%d requests more than needed' % (len(reqs) - pos), 'not-covered')
        pairs = list(zip(d.models_list, img.models))
        for t in rig.targets(pairs):
            if rng.random() < .6:
                v, data = rig.value_for(rng, t)
                t.point.value = v
        for m, mi in pairs:
            m.write_points()
        for q in r.station.requests:
            ctx.eq(q.unit, r.unit_id, 'unit id of a request', 'unit')
            ctx.check(q.func in (3, 16), 'function %s' % q.func, 'function')
            ctx.count('requests_checked')
            if q.func == 16:
                ctx.count('device_write_requests')
        w.check_bad()
        leftovers(ctx, w)
        ctx.seen(transport, r.unit_id, [(q.func, q.addr, q.count) for q in r.station.requests])
        d.close()


KINDS = {
    'tcp': (lambda c: transfer_case(c, 'TCP'), 1250, 12500),
    'rtu': (lambda c: transfer_case(c, 'RTU'), 1250, 12500),
    'device': (device_case, 400, 4000),
}
MIN = {'requests_checked': 20000, 'transfers_limit_above_125': 500, 'multi_request_transfers': 1000, 'transfers_3': 500, 'transfers_4': 300, 'transfers_16': 300,
       'device_write_requests': 1000, 'odd_writes': 200}

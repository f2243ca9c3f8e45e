"""C06: register ranges transferred over every transport against the device's registers."""
from .. import ref, rig, sim
from ..env import client, mbmap, modbus

ID = 'C06'
LEVEL = 'exploration'
TECH = 'end-to-end transfer monitor: bytes returned/stored against the registers of the simulated device'
RULE = ('Units with random holding and input registers; sequences of reads (both functions) and writes of random ranges up to '
        'thousands of registers with every request limit 1..125 and random fragmentation of replies, over TCP (with and without an '
        'explicit connection), serial and a mapped file with the same registers; each read compared with the registers, the whole '
        'register file compared after each write. Distinct by operation, range, limit and content.')
ASSUMPTIONS = ['whole registers; at least one register per operation']

SIZE = 3000


def make(ctx, w, kind, data, inputs, base, max_count, chunk=True):
    """-> (device, unit or None, station or None)"""
    rng = ctx.rng
    if kind == 'MAPPED':
        class Img(object):
            pass
        i = Img()
        i.base = base
        i.bytes = lambda: data
        path = '%s/m%d.xml' % (w.store.dir, w.ports)
        w.ports += 1
        with open(path, 'w') as f:
            f.write(ref.mbmap_xml(i, chunk=rng.choice([SIZE, 100, 7])))
        return modbus.ModbusClientDeviceMapped(1, path, max_count=max_count), None, None
    unit = sim.Unit()
    unit.load(base, data)
    unit.load(base, inputs, inputs=True)
    uid = rng.choice([0, 1, 2, 126, 247])
    w.ports += 1
    text = rng.random() < .1
    if text:
        # the unit id as text, as it comes from a command line
        ctx.count('unit_ids_as_text')
    given = str(uid) if text else uid
    if kind == 'TCP':
        st = w.net.add_tcp('10.0.0.%d' % w.ports, 502, {uid: unit})
        dev = modbus.ModbusClientDeviceTCP(given, '10.0.0.%d' % w.ports, max_count=max_count) if rng.random() < .5 else \
            modbus.ModbusClientDeviceTCP(given, '10.0.0.%d' % w.ports, 502, timeout=1, max_count=max_count)
    else:
        st = w.net.add_bus('/dev/b%d' % w.ports, {uid: unit})
        dev = modbus.ModbusClientDeviceRTU(given, '/dev/b%d' % w.ports, max_count=max_count)
    if chunk:
        st.chunker = rig.rand_chunks(rng)
    return dev, unit, st


def rand_range(rng, mc):
    r = rng.random()
    if r < .3:
        n = rng.randint(1, 10)
    elif r < .6:
        n = max(1, rng.choice([mc, 2 * mc, 3 * mc]) + rng.choice([-1, 0, 1]))
    elif r < .75:
        n = rng.choice([123, 124, 125, 126, 246, 247, 250, 251])
    else:
        n = rng.randint(1, 60 * mc if mc < 20 else 1500)
    n = min(n, SIZE)
    return rng.choice([0, SIZE - n, rng.randint(0, SIZE - n)]), n


def regs_of(base, data):
    return {base + i: (data[2 * i] << 8) | data[2 * i + 1] for i in range(len(data) // 2)}


def transfer_case(ctx, kind):
    rng = ctx.rng
    with rig.World(ctx) as w:
        base = rng.choice([0, 40000, 50000, 65536 - SIZE, rng.randint(0, 60000)])
        mc = 1 + ctx.idx % 125 if ctx.idx % 7 else rng.choice([126, 127, 128, 200, 250, 256, 1000, 65535])
        data = bytearray(rng.getrandbits(8) for _ in range(2 * SIZE))
        inputs = bytes(rng.getrandbits(8) for _ in range(2 * SIZE))
        dev, unit, st = make(ctx, w, kind, bytes(data), inputs, base, mc)
        twin = None
        if kind != 'MAPPED' and rng.random() < .3:
            twin = make(ctx, w, 'MAPPED', bytes(data), inputs, base, None)[0]
        explicit = kind == 'TCP' and rng.random() < .5
        if explicit:
            dev.connect()
        log = []
        for k in range(rng.randint(2, 6)):
            off, n = rand_range(rng, mc if mc <= 125 else rng.choice([125, 123, min(mc, 500)]))
            what = 'registers %d..%d over %s (limit %d)' % (base + off, base + off + n - 1, kind, mc)
            if rng.random() < .55:
                fn = rng.choice([None, 3, 4]) if kind != 'MAPPED' else rng.choice([None, 3])
                got = dev.read(base + off, n) if fn is None else dev.read(base + off, n, op=fn)
                src = inputs if fn == 4 else data
                want = bytes(src[2 * off:2 * (off + n)])
                if not isinstance(got, bytes) or got != want:
                    bad = [i for i in range(min(len(got or b''), len(want))) if got[i] != want[i]]
                    ctx.fail('read of %s returned other bytes' % what, 'read', function=fn,
                             length=(len(got or b''), len(want)), first_difference=bad[:1])
                ctx.count('reads')
                ctx.count('registers_read', n)
                if fn == 4:
                    ctx.count('input_reads')
                if n > min(mc, 125):
                    ctx.count('multi_request_reads')
                if twin is not None and fn != 4:
                    ctx.check(twin.read(base + off, n) == got, 'mapped and %s access to %s disagree' % (kind, what), 'transports')
                    ctx.count('agreements')
                log.append(('read', off, n, fn))
            else:
                new = bytes(rng.getrandbits(8) for _ in range(2 * n))
                if kind != 'MAPPED' and rng.random() < .1:
                    dev.write(base + off, new.decode('latin-1'))
                    ctx.count('text_writes')
                else:
                    dev.write(base + off, new)
                if twin is not None:
                    twin.write(base + off, new)
                data[2 * off:2 * (off + n)] = new
                want = regs_of(base, data)
                if unit is not None:
                    have = unit.h
                    ctx.check(unit.i == regs_of(base, inputs), 'write of %s changed input registers' % what, 'write')
                else:
                    have = regs_of(base, dev.read(base, SIZE))
                if have != want:
                    diff = sorted(a for a in set(have) | set(want) if have.get(a) != want.get(a))
                    ctx.fail('after writing %s, %d registers differ, first %d' % (what, len(diff), diff[0]), 'write',
                             have=have.get(diff[0]), want=want.get(diff[0]))
                ctx.count('writes')
                ctx.count('registers_written', n)
                if n > min(mc, 125):
                    ctx.count('multi_request_writes')
                log.append(('write', off, n))
            ctx.seen(kind, mc, base, log[-1])
        if st is not None:
            w.check_bad()
            if st.chunker:
                ctx.count('fragmented')
        if explicit:
            ctx.count('explicit_connections')
        ctx.note(transport=kind, base=base, limit=mc, operations=log)
        dev.close()


def device_case(ctx):
    """ClientDevice.read and write."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = ref.DeviceImage(rng.choice([0, 40000, 50000]), [ref.ModelImage(None, 0, 500, id=64000)])
        img.models[0].randomize(rng)
        devs = []
        for t in rig.TRANSPORTS:
            r = w.attach(img, t)
            if r.station:
                r.station.chunker = rig.rand_chunks(rng)
            devs.append((t, r.client()))
        mem = bytearray(img.bytes())
        for k in range(8):
            n = rng.choice([1, 2, 124, 125, 126, rng.randint(1, len(mem) // 2)])
            off = rng.randint(0, len(mem) // 2 - n)
            if rng.random() < .5:
                for t, d in devs:
                    got = d.read(img.base + off, n)
                    ctx.check(got == bytes(mem[2 * off:2 * (off + n)]), 'device read of %d registers at %d over %s returned other bytes' % (n, off, t), 'read')
                    ctx.count('device_reads')
            else:
                new = bytes(rng.getrandbits(8) for _ in range(2 * n))
                mem[2 * off:2 * (off + n)] = new
                for t, d in devs:
                    d.write(img.base + off, new)
                    ctx.check(d.read(img.base, len(mem) // 2) == bytes(mem), 'device write of %d registers at %d over %s stored other bytes' % (n, off, t), 'write')
                    ctx.count('device_writes')
            ctx.seen('device', off, n, k, ctx.idx)
        for t, d in devs:
            d.close()


KINDS = {
    'tcp': (lambda c: transfer_case(c, 'TCP'), 1000, 10000),
    'rtu': (lambda c: transfer_case(c, 'RTU'), 1000, 10000),
    'mapped': (lambda c: transfer_case(c, 'MAPPED'), 375, 3000),
    'device': (device_case, 100, 1500),
}
MIN = {'unit_ids_as_text': 80, 'text_writes': 100, 'reads': 2000, 'writes': 1500, 'multi_request_reads': 800, 'multi_request_writes': 600, 'input_reads': 300, 'fragmented': 800,
       'agreements': 200, 'explicit_connections': 200, 'device_reads': 300, 'device_writes': 300}

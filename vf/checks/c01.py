"""C01: decoded point values against an independent decoder of the register image."""
import struct

from .. import ref, rig
from ..env import client

ID = 'C01'
LEVEL = 'exploration'
RULE = ('Random model definitions (all point types, pads, gaps, repeats, models up to ~800 registers) rendered as SMDX; random '
        'register image with reserved patterns and scale factors; device simulated over mapped file, TCP and serial; every point '
        'compared with an independent decoder after each of several reads. Non-trivial: at least one implemented point was read; '
        'distinct by image bytes and transport.')
ASSUMPTIONS = ['scale factors between -10 and 10 or unimplemented', 'acc64 counters up to 2^63-1',
               'points no longer than one request', 'simulated transports behave like a compliant Modbus slave']


def models_by_image(ctx, dev, img):
    got = [(m.id, m.len) for m in dev.models_list]
    want = [(m.id, m.len) for m in img.models]
    if got != want:
        ctx.fail('models found %r instead of %r' % (got, want), 'models')
    for m in dev.models_list:
        if m.load_error:
            ctx.fail('model %s failed to load: %s' % (m.id, m.load_error), 'load-error')
    return list(zip(dev.models_list, img.models))


def wild(ctx, img):
    """Registers as no well-behaved device fills them: strings of any bytes, infinite and odd floats."""
    rng = ctx.rng
    wild_sf = rng.random() < .5
    for m in img.models:
        for bi, p, a in m.each():
            if p.type == 'string' and rng.random() < .4:
                b = bytes([rng.randint(1, 255)]) + bytes(rng.choice([0, 0x20, 0x80 + rng.getrandbits(5), rng.getrandbits(8)]) for _ in range(2 * p.regs - 1))
                m.put(a, b)
                ctx.count('wild_strings')
            elif p.type == 'sunssf' and wild_sf and rng.random() < .3:
                m.put(a, struct.pack('>h', rng.choice(ref.WILD + [rng.randint(-32767, 32767)])))
                ctx.count('wild_scale_factors')
            elif p.type == 'float32' and p.sf is None and rng.random() < .3:
                m.put(a, rng.choice([b'\x7f\x80\0\0', b'\xff\x80\0\0', b'\x80\0\0\0', b'\0\0\0\1', b'\x7f\x80\0\1', b'\xff\xc0\0\0', b'\xff\xff\xff\xff']))
                ctx.count('wild_floats')


def read_case(ctx, transport):
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = rig.rand_device(w)
        strange = rng.random() < .3
        if strange:
            wild(ctx, img)
        r = w.attach(img, transport, timeout=None if transport == 'MAPPED' else 1.0)
        if r.station:
            r.station.chunker = rig.rand_chunks(rng)
        style = rng.choice(['client', 'client', 'script'])
        if style == 'client':
            d = r.client()
            d.scan()
            cd = d
        else:
            s = r.scripting()
            cd = s.device
        pairs = models_by_image(ctx, cd, img)
        rounds = rng.choice([1, 2, 3])
        for k in range(rounds):
            if k:
                same = rng.random() < .15
                for m in img.models:
                    if same:
                        pass                # the registers stay, only the assigned values differ
                    elif rng.random() < .5:
                        m.randomize(rng, punimpl=rng.choice([0, .15, .6]))
                    else:                   # change a few points only
                        pts = list(m.each())
                        for bi, p, a in rng.sample(pts, min(len(pts), 5)):
                            if p.type == 'sunssf':
                                m.put(a, ref.encode('sunssf', rng.choice([-3, 0, 2, -32768]), 1))
                            else:
                                m.put(a, ref.unimpl(p.type, p.regs) if rng.random() < .4 else
                                      ref.encode(p.type, ref.rand_value(rng, p.type, p.regs), p.regs))
                if strange and not same:
                    wild(ctx, img)
                r.set_memory(img)
                ctx.count('rereads')
                if same or rng.random() < .4:
                    assign_some(ctx, pairs)
            how = rng.choice(['device', 'model'])
            if how == 'device':
                (s.read if style == 'script' else cd.read_points)()
            else:
                order = list(pairs)
                rng.shuffle(order)
                for m, mi in order:
                    m.read_points()
            n = 0
            for m, mi in pairs:
                n += rig.verify_model(ctx, m, mi, 'read %d over %s: ' % (k + 1, transport))
                if mi.len > 125:
                    ctx.count('models_over_one_request')
                if mi.nrep > 1:
                    ctx.count('models_with_repeats')
            if n:
                ctx.seen(transport, img.bytes())
            w.check_bad()
        ctx.count('devices_' + transport)
        ctx.note(transport=transport, base=img.base, models=[(m.id, m.len, m.nrep) for m in img.models], reads=rounds,
                 sample={'%d/%s' % k: rig.ref_s(p.value) for k, p in list(rig.find_points(pairs[-1][0]).items())[:4] if hasattr(p, 'value')})
        if style == 'script':
            s.close()
        else:
            d.close()
        if transport != 'MAPPED' and rounds > 1:
            again(ctx, r, pairs)


def assign_some(ctx, pairs):
    """Assign a few points without writing them: the next read shows the registers all the same."""
    rng = ctx.rng
    for m, mi in pairs:
        pts = [p for k, p in rig.find_points(m).items() if p.point_type.type != 'sunssf' and p.value_base is not None]
        for p in rng.sample(pts, min(len(pts), rng.choice([0, 1, 3]))):
            if p.value_sf:
                try:
                    p.value = p.value
                except Exception:
                    # scale factors out of range
                    continue
                ctx.count('scaled_assigned_before_read')
            else:
                p.value = ref.rand_value(rng, p.point_type.type, int(p.point_type.len))
            ctx.count('assigned_before_read')


def again(ctx, r, pairs):
    """A device read several times and a new one that reads the same registers once are in the same state."""
    d = r.client()
    d.scan()
    d.read_points()
    for (m, mi), n in zip(pairs, d.models_list):
        a, b = rig.find_points(m), rig.find_points(n)
        for k in a:
            if not (ref.same_value(a[k].value_base, b[k].value_base) and a[k].value_sf == b[k].value_sf):
                ctx.fail('point %s of model %s read again: value %r scale factor %r; the registers read for the first time: %r and %r' % (
                    k, m.id, a[k].value_base, a[k].value_sf, b[k].value_base, b[k].value_sf), 'left-over')
        ctx.eq(m.not_equal(n) if not any(isinstance(p.value_base, float) and p.value_base != p.value_base for p in a.values()) else False, False,
               'comparing a model read several times with one read once', 'left-over')
        ctx.count('histories_compared')
    d.close()


KINDS = {
    'mapped': (lambda c: read_case(c, 'MAPPED'), 1500, 12000),
    'tcp': (lambda c: read_case(c, 'TCP'), 2000, 16000),
    'rtu': (lambda c: read_case(c, 'RTU'), 1500, 12000),
}
TECH = 'differential oracle monitoring: library reads against an independent decoder of simulated registers'
MIN = {'points_checked': 20000, 'unimplemented_seen': 1000, 'scaled_seen': 1000, 'rereads': 100, 'assigned_before_read': 200, 'scaled_assigned_before_read': 50, 'histories_compared': 200, 'models_over_one_request': 50,
       'models_with_repeats': 50, 'devices_TCP': 50, 'devices_RTU': 50, 'devices_MAPPED': 50, 'wild_scale_factors': 30}
MIN.update({'type_' + t: 50 for t in ref.ALL_TYPES})

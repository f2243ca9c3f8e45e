"""C04: discovery against the chain of models the simulated device carries."""
import os
import struct

from .. import ref, rig, sim
from ..env import client, device, suns, util

ID = 'C04'
LEVEL = 'exploration'
TECH = 'model-chain oracle over simulated devices scanned repeatedly'
RULE = ('Random chains of defined, undefined, repeated and wrongly sized models at each candidate base address over mapped file, TCP '
        'and serial; other addresses refused, silent or holding other data; scans repeated, cancelled at every point and continued; '
        'devices without the marker; base addresses named by the caller, right and wrong; chains that lead out of the registers or the address space. Non-trivial: a chain was compared model by model; distinct by chain and transport.')
ASSUMPTIONS = ['the device does not change its models during the scan']

BASES = [40000, 0, 50000]


def chain(w, base):
    rng = w.rng
    models = []
    defs = []
    n = rng.choice([0, 1, 2, 3, 4, 6, 9])
    many = rng.random() < .02
    if many:
        n = rng.randint(90, 300)
        w.ctx.count('long_chains')
    if n and rng.random() < .6:
        md = ref.common_md()
        w.define(md)
        models.append(ref.ModelImage(md, 0, rng.choice([66, 65])))
    while len(models) < n:
        r = rng.random()
        if (r < .3 or many and len(defs) > 9) and models:
            m = rng.choice(models)
            if m.md is None:
                models.append(ref.ModelImage(None, 0, rng.choice([m.len, rng.randint(1, 40)]), id=m.id))
            else:
                models.append(ref.ModelImage(m.md, m.nrep, m.len))
            if hasattr(m, 'broken'):
                models[-1].broken = m.broken
        elif r < .55:
            mid = rng.choice([0, 65534, 65000, 64999, 1000, rig.fresh_id(), rig.fresh_id()])
            if mid in (d.id for d in defs):
                continue
            models.append(ref.ModelImage(None, 0, rng.choice([0, 1, 2, 50, 124, 125, 126, 300] if not many else [0, 1, 2]), id=mid))
            if rng.random() < .25:
                # a definition that cannot be used
                p = os.path.join(w.store.dir, 'smdx_%05d.xml' % mid)
                with open(p, 'w') as f:
                    f.write(rng.choice(['<sunSpecModels', '<sunSpecModels v="1"><model id="%d" name="x"></model></sunSpecModels>' % mid,
                                        '<sunSpecModels v="1"><model id="%d" len="2"><block len="2"><point id="A" offset="0" type="nope"/>'
                                        '</block></model></sunSpecModels>' % mid]))
        else:
            i = rig.fresh_id()
            md = ref.rand_md(rng, i, size=rng.choice([1, 3, 8, 20, 60, 130] if not many else [1, 3]), name=rng.choice([None, 'm%d' % i]))
            w.define(md)
            defs.append(md)
            nrep = rng.randint(0, 4) if md.rep else 0
            m = ref.ModelImage(md, nrep)
            if rng.random() < .15:
                # a length that cuts a block short
                if md.rep and md.rep.len > 1 and rng.random() < .6:
                    m = ref.ModelImage(md, nrep, md.total(nrep) + rng.randint(1, md.rep.len - 1))
                elif md.fixed.len > 1:
                    m = ref.ModelImage(md, 0, rng.randint(0, md.fixed.len - 1))
                if rng.random() < .2:
                    m = ref.ModelImage(md, 0, 0)
                if not m.len:
                    w.ctx.count('reported_empty')
                if m.len != md.total(m.nrep):
                    m.broken = True
            models.append(m)
    img = ref.DeviceImage(base, models, end_len=rng.choice([None, None, 0]))
    for m in models:
        for i in range(len(m.data)):
            m.data[i] = rng.getrandbits(8)
    return img


def verify_scan(ctx, d, img, what):
    got = [(m.id, m.addr, m.len, m.index) for m in d.models_list]
    seen = {}
    want = []
    for m in img.models:
        seen[m.id] = seen.get(m.id, 0) + 1
        want.append((m.id, m.addr, m.len, seen[m.id]))
    if got != want:
        ctx.fail('%s: models (id, address, length, instance) %r instead of %r' % (what, got, want), 'models')
    ctx.eq(d.base_addr, img.base, what + ': base address', 'base')
    byid = {}
    for m in d.models_list:
        byid.setdefault(m.id, []).append(m)
    if {k: [id(x) for x in v] for k, v in d.models.items()} != {k: [id(x) for x in v] for k, v in byid.items()}:
        ctx.fail('%s: the models by id %r do not match the list' % (what, {k: len(v) for k, v in d.models.items()}), 'by-id')
    for m, mi in zip(d.models_list, img.models):
        if mi.md is None or getattr(mi, 'broken', False):
            ctx.check(m.load_error and isinstance(m.load_error, str), '%s: model %s without a usable definition carries no error text' % (what, m.id), 'no-error-text')
            ctx.count('unusable_models')
        else:
            ctx.check(m.load_error is None, '%s: model %s: %s' % (what, m.id, m.load_error), 'load-error')
            ctx.eq(len(m.blocks), 1 + mi.nrep, '%s: blocks of model %s' % (what, m.id), 'blocks')
            ctx.count('defined_models')
    if any(v > 1 for v in seen.values()):
        ctx.count('repeated_models')
    if not want:
        ctx.count('empty_chains')


def scan_case(ctx, transport):
    rng = ctx.rng
    with rig.World(ctx) as w:
        base = BASES[ctx.idx % 3]
        img = chain(w, base)
        r = w.attach(img, transport)
        if r.station:
            r.station.chunker = rig.rand_chunks(rng)
            if rng.random() < .4:
                # other candidates answer with other data
                for b in BASES:
                    if b != base and b not in r.unit.h and b + 3 not in r.unit.h:
                        for k in range(3):
                            r.unit.h[b + k] = rng.choice([0, 0xFFFF, 0x5375, rng.getrandbits(16)])
                        if rng.random() < .3:
                            r.unit.h[b] = 0x5375           # half a marker
                            r.unit.h[b + 1] = 0x6e54
                ctx.count('other_candidates_answer')
            elif rng.random() < .3:
                # silent instead of refusing
                cand = set(BASES) - {base}
                r.station.fault = lambda n, q: sim.Fault('drop') if q is not None and q.addr in cand and q.addr not in r.unit.h else None
                ctx.count('other_candidates_silent')
        d = r.client()
        rounds = rng.choice([1, 2, 3])
        cancel = rng.random() < .4
        if cancel and img.models:
            stop = rng.randrange(len(img.models))
            calls = []

            def progress(text):
                calls.append(text)
                return True if len(calls) <= stop else rng.choice([False, False, 0, None])
            try:
                d.scan(progress=progress)
                ctx.fail('a cancelled scan did not raise', 'cancel')
            except util.SunSpecError as e:
                ctx.count('cancelled')
            ctx.eq(len(calls), stop + 1, 'progress calls before the scan was cancelled', 'cancel')
        for k in range(rounds):
            texts = []
            if rng.random() < .5:
                d.scan(progress=lambda t: texts.append(t) or True)
                ctx.eq(len(texts), len(img.models), 'progress calls', 'progress')
            else:
                d.scan(delay=rng.choice([None, None, .1]))
            verify_scan(ctx, d, img, 'scan %d over %s at %d' % (k + 1, transport, base))
            if k:
                ctx.count('rescans')
            if rng.random() < .4:
                read_all(ctx, d, img, transport)
        if r.station:
            bad = [q for q in r.station.requests if q.func not in (3, 4)]
            ctx.check(not bad, 'scanning wrote to the device', 'wrote', requests=bad[:3])
            ctx.check(transport != 'TCP' or not w.net.open_sockets(), 'scan left a connection open', 'connection')
            w.check_bad()
        if r.station and rng.random() < .3:
            # the device loses its marker, and gets other models
            r.station.fault = None
            gone = rng.choice(['other', 'silent', 'absent'])
            if gone == 'other':
                r.unit.load(base, rng.choice([b'SunT', bytes(4), b'sunS', b'\x75\x53\x53\x6e']))
            elif gone == 'silent':
                r.station.fault = lambda n, q: sim.Fault('drop') if q is not None else None
            else:
                r.unit.h.clear()
            for k in range(rng.choice([1, 2])):
                try:
                    d.scan()
                    ctx.fail('scan %d over %s of a device that lost its marker (%s) succeeded' % (k + 1, transport, gone), 'no-marker', models=[(m.id, m.len) for m in d.models_list])
                except util.SunSpecError as e:
                    ctx.count('marker_lost')
            r.station.fault = None
            img2 = img
            if rng.random() < .7:
                img2 = chain(w, base)
                r.unit.h.clear()
            img2.load(r.unit)
            d.scan()
            verify_scan(ctx, d, img2, 'scan of the other device over %s' % transport)
            if rng.random() < .4:
                read_all(ctx, d, img2, transport)
            img = img2
            ctx.count('other_device')
        s = None
        if rng.random() < .3:
            r.station and setattr(r.station, 'fault', None)
            s = r.scripting() if transport != 'RTU' else None
            if s is not None:
                verify_scan(ctx, s.device, img, 'scripting device over %s' % transport)
                s.close()
        d.close()
        ctx.count('base_%d' % base)
        ctx.seen(transport, img.bytes(), base)
        ctx.note(transport=transport, base=base, chain=[(m.id, m.len, m.md is not None) for m in img.models], scans=rounds)


def read_all(ctx, d, img, transport):
    """Models without a usable definition do not disturb reading the others."""
    d.read_points()
    for m, mi in zip(d.models_list, img.models):
        if mi.md is None or getattr(mi, 'broken', False):
            continue
        pts = rig.find_points(m)
        for bi, p, a in mi.each():
            got, want = pts[bi, p.id].value_base, ref.decode(p.type, mi.raw(a, p.regs))
            if p.type == 'acc64' and want is not None and want >> 63:
                continue
            if not ref.same_value(got, want):
                ctx.fail('point %s of model %s reads %r instead of %r over %s' % (p.id, m.id, got, want, transport), 'disturbed')
            ctx.count('points_read')


def rand_absent(ctx):
    """Devices without the marker."""
    rng = ctx.rng
    transport = rng.choice(['MAPPED', 'TCP', 'RTU'])
    with rig.World(ctx) as w:
        img = ref.DeviceImage(rng.choice(BASES), [])
        r = w.attach(img, transport)
        kind = rng.choice(['other-data', 'empty', 'elsewhere', 'gone'])
        if transport == 'MAPPED':
            mark = {'other-data': b'SunT\0\1', 'empty': b'', 'elsewhere': b'SunS\xff\xff', 'gone': b'\0\0\0\0\0\0'}[kind]
            base = img.base if kind != 'elsewhere' else img.base + 100
            with open(r.name, 'w') as f:
                f.write('<mbmap addr="%d">%s</mbmap>' % (base, '<regs offset="0" len="%d">%s</regs>' % (len(mark) // 2, mark.hex()) if mark else ''))
        else:
            r.unit.h.clear()
            if kind == 'other-data':
                for b in BASES:
                    data = rng.choice([b'SunT\0\1\0\2', b'\0\0\0\0\0\0\0\0', b'sunS\0\1\0\2', b'\x75\x53\x53\x6e\0\1\0\2'])
                    r.unit.load(b, data)
            elif kind == 'elsewhere':
                r.unit.load(rng.choice([1, 100, 39999, 40001, 50001]), b'SunS\xff\xff\0\0\0\0')
            elif kind == 'gone':
                r.station.fault = lambda n, q: sim.Fault('drop') if q is not None else None
        try:
            d = r.client()
            d.scan()
            ctx.fail('scanning a device without the marker (%s) succeeded' % kind, 'no-marker', models=[(m.id, m.len) for m in d.models_list])
        except util.SunSpecError as e:
            ctx.count('absent_' + kind)
            ctx.note(transport=transport, kind=kind, error=str(e))
        ctx.check(not w.net.open_sockets(), 'a failed scan left a connection open', 'connection')
        if rng.random() < .4:
            # no other address is looked at when the caller names one
            given = rng.choice(BASES + ([100, 30000] if kind != 'elsewhere' else [200, 30000]))
            d.base_addr = given
            n0 = len(r.station.requests) if r.station else 0
            try:
                d.scan()
                ctx.fail('scanning at a given address without the marker succeeded', 'no-marker', kind=kind, models=[(m.id, m.len) for m in d.models_list])
            except util.SunSpecError as e:
                ctx.count('absent_given')
            if r.station:
                for q in r.station.requests[n0:]:
                    ctx.check(q.addr == given, 'scanning at %d read address %d' % (given, q.addr), 'given-base')
                ctx.check(not w.net.open_sockets(), 'a failed scan left a connection open', 'connection')
            ctx.check(not d.models_list and not d.models, 'a failed scan left models', 'no-marker')
            d.base_addr = None
        # the marker appears: the same object can be scanned
        if transport != 'MAPPED':
            r.station.fault = None
            r.unit.h.clear()
            img2 = chain(w, rng.choice(BASES))
            img2.load(r.unit)
            d.scan()
            verify_scan(ctx, d, img2, 'scan after a failed one')
            ctx.count('scan_after_failure')
            d.close()
        ctx.seen(transport, kind, ctx.idx)


def given_case(ctx):
    """The caller names the base address, anywhere in the address space."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        base = rng.choice([0, 40000, 50000, 1, 100, 30000, 40002, rng.randint(0, 45000)])
        img = chain(w, base)
        if rng.random() < .2:
            img.end_len = None
            base = 65536 - len(img.bytes()) // 2
            img = ref.DeviceImage(base, img.models, None)
            ctx.count('ends_at_65535')
        if img.base < 0 or img.base + len(img.bytes()) // 2 > 65536:
            return
        transport = rng.choice(['MAPPED', 'TCP', 'RTU'])
        r = w.attach(img, transport)
        if r.station and rng.random() < .5:
            # another map at an address that would be tried first
            for b in BASES:
                if all(b + k not in r.unit.h for k in range(-4, 8)):
                    r.unit.load(b, b'SunS\xff\xff\0\0')
        d = r.client()
        wrong = rng.choice([100, 200, 30001] + BASES)
        if rng.random() < .4 and base in BASES and abs(wrong - base) > 10:
            # a wrong address does not lead to the device, however often
            if r.unit and not any(a in r.unit.h for a in range(wrong - 8, wrong + 8)) and rng.random() < .5:
                r.unit.load(wrong, rng.choice([bytes(8), b'SunT\0\1\0\2']))
            if not r.unit or b'SunS' != b''.join(struct.pack('>H', r.unit.h.get(wrong + k, 0)) for k in (0, 1)):
                d.base_addr = wrong
                for k in range(rng.choice([1, 2, 3])):
                    n0 = len(r.station.requests) if r.station else 0
                    try:
                        d.scan()
                        ctx.fail('scan %d at given base %d without a device over %s found the one at %d' % (k + 1, wrong, transport, base), 'given-base')
                    except util.SunSpecError as e:
                        ctx.count('wrong_base')
                    for q in r.station.requests[n0:] if r.station else []:
                        ctx.check(q.addr == wrong, 'scan %d at given base %d read address %d' % (k + 1, wrong, q.addr), 'given-base')
        d.base_addr = base
        for k in range(rng.choice([1, 1, 2])):
            d.scan()
            verify_scan(ctx, d, img, 'scan %d at given base %d over %s' % (k + 1, base, transport))
        if rng.random() < .4:
            read_all(ctx, d, img, transport)
        d.close()
        ctx.count('given_base')
        ctx.seen('given', transport, img.bytes(), base)


def overrun_case(ctx):
    """Chains that never end: lengths that lead out of the registers, or no end marker."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = chain(w, rng.choice(BASES))
        if not img.models or len(img.models) > 50:
            return
        transport = rng.choice(['MAPPED', 'TCP', 'TCP', 'RTU'])
        r = w.attach(img, transport)
        kind = rng.choice(['address-space', 'address-space', 'registers', 'chopped'])
        regs = bytearray(img.bytes())
        if kind == 'chopped':
            del regs[2 * (img.end - img.base):]
        else:
            k = rng.randrange(len(img.models))
            a = img.models[k].addr
            if kind == 'address-space':
                n = rng.choice([65535, 65536 - a, rng.randint(65536 - a, 65535)])
            else:
                top = img.base + len(regs) // 2
                if r.unit and any(x > top for x in r.unit.h):
                    return
                n = rng.randint(top - a + 1, min(65535, 65535 - a))
            at = 2 * (a - 1 - img.base)
            regs[at:at + 2] = struct.pack('>H', n)
        if transport == 'MAPPED':
            with open(r.name, 'w') as f:
                f.write('<mbmap addr="%d"><regs offset="0" len="%d">%s</regs></mbmap>' % (img.base, len(regs) // 2, regs.hex()))
        else:
            r.unit.h.clear()
            r.unit.load(img.base, bytes(regs))
        script = rng.random() < .3
        try:
            if script:
                r.scripting()
            else:
                d = r.client()
                d.scan()
            ctx.fail('scanning a chain without an end (%s) succeeded' % kind, 'endless')
        except util.SunSpecError as e:
            ctx.count('overrun_' + kind)
            ctx.note(transport=transport, kind=kind, error=str(e))
        except Exception as e:
            ctx.fail('scanning a chain without an end (%s) over %s ended in %s: %s' % (kind, transport, type(e).__name__, e), 'wrong-error')
        ctx.check(not w.net.open_sockets(), 'a failed scan left a connection open', 'connection')
        w.check_bad()
        if not script and transport != 'MAPPED':
            r.unit.h.clear()
            img.load(r.unit)
            d.scan()
            verify_scan(ctx, d, img, 'scan after an endless chain')
            d.close()
        ctx.seen('overrun', kind, transport, bytes(regs))


KINDS = {
    'mapped': (lambda c: scan_case(c, 'MAPPED'), 600, 6000),
    'tcp': (lambda c: scan_case(c, 'TCP'), 1200, 12000),
    'rtu': (lambda c: scan_case(c, 'RTU'), 900, 9000),
    'absent': (rand_absent, 500, 4000),
    'overrun': (overrun_case, 600, 5000),
    'given': (given_case, 500, 4000),
}
MIN = {'marker_lost': 200, 'other_device': 200, 'wrong_base': 60, 'overrun_address-space': 100, 'overrun_registers': 50, 'overrun_chopped': 50, 'ends_at_65535': 40, 'absent_given': 100, 'given_base': 300, 'long_chains': 20, 'reported_empty': 100, 'points_read': 5000, 'defined_models': 2000, 'unusable_models': 500, 'repeated_models': 200, 'empty_chains': 50, 'rescans': 300, 'cancelled': 200,
       'base_0': 200, 'base_40000': 200, 'base_50000': 200, 'other_candidates_answer': 100, 'other_candidates_silent': 50,
       'absent_other-data': 20, 'absent_empty': 20, 'absent_elsewhere': 20, 'absent_gone': 20, 'scan_after_failure': 100}

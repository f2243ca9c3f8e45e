"""C21: the scripting interface as a mirror (structure against the image, effects against a twin device driven by points)."""
import contextlib
import random
import sys

from .. import ref, rig, sim
from ..env import client, modbus

ID = 'C21'
LEVEL = 'exploration'
TECH = 'mirror monitor: structure against the known device image, and lock-step comparison of a scripted device with a twin driven through its points'
RULE = ('Random devices (repeated models, repeating blocks, named and unnamed models and blocks, unknown, undefined and truncated models) on '
        'mapped, TCP and serial transports; the scripting device is compared entry by entry with the image, then random reads, assignments and '
        'writes through attributes and names are mirrored on a twin client device and both wire logs, registers and values compared. '
        'Failing and interrupted constructions are checked for released ports and connections. Distinct by device and operation history.')
ASSUMPTIONS = ['model, block and point names are Python-attribute safe and do not collide with the interface\'s own attributes',
               'distinct models have distinct names']

LIB = (modbus.ModbusClientError, client.SunSpecClientError)


def unknown(rng):
    """A model without a usable definition."""
    i = rng.randint(60001, 63900)
    m = ref.ModelImage(None, mlen=rng.choice([1, 2, 20, 66]), id=i)
    m.data[:] = bytes(rng.getrandbits(8) for _ in m.data)
    return m


def device_of(w, rng):
    img = rig.rand_device(w, nmodels=rng.choice([1, 2, 3, 4]), max_regs=700, crowds=True, slack=2000)
    models = list(img.models)
    new = []
    if rng.random() < .4:
        u = unknown(rng)
        models.insert(rng.randint(0, len(models)), u)
        if rng.random() < .5:
            v = ref.ModelImage(None, mlen=u.len, id=u.id)
            v.data[:] = bytes(rng.getrandbits(8) for _ in v.data)
            models.insert(rng.randint(0, len(models)), v)
    for md in {m.md.id: m.md for m in models if m.md}.values():
        # more instances of a model that is already there
        if md.id != 1 and rng.random() < .4:
            n = rng.randint(1, 2) if rng.random() < .85 else rng.randint(8, 20)
            if n > 2:
                w.ctx.count('many_instances')
            for k in range(n):
                x = ref.ModelImage(md, rng.randint(0, 3) if md.rep and md.rep.len else 0)
                if sum(y.len for y in models) + x.len < 1200:
                    new.append(x)
                    models.insert(rng.randint(0, len(models)), x)
    img = ref.DeviceImage(img.base, models, end_len=img.end_len)
    for x in new:
        x.randomize(rng, punimpl=.15)
    return img


def name_of(m):
    return m.md.name if m.md is not None and m.md.name else 'model_%d' % m.id


def entries(image):
    """Ordered {name: [model image, ...]}"""
    out = {}
    for m in image.models:
        out.setdefault(name_of(m), []).append(m)
    return out


def structure(ctx, sd, image):
    ent = entries(image)
    ctx.eq(list(sd.models), list(ent), 'named entries of the scripting device', 'entries')
    out = []
    for name, ms in ent.items():
        e = getattr(sd, name)
        ctx.check(sd[name] is e, 'entry %s by attribute and by name differ' % name, 'entry-by-name')
        if len(ms) == 1:
            ctx.check(not isinstance(e, list), 'a single model %s is exposed as a list' % name, 'single-entry')
            lst = [e]
        else:
            ctx.check(isinstance(e, list), 'repeated model %s is not exposed as a list' % name, 'list-entry')
            ctx.check(len(e) == len(ms) + 1 and e[0] is None, 'list of the instances of model %s: %d entries for %d instances' % (name, len(e), len(ms)), 'list-entry')
            lst = e[1:]
            ctx.count('lists')
        for k, (x, m) in enumerate(zip(lst, ms)):
            ctx.check(x is not None and x.model.id == m.id and int(x.model.addr) == m.addr and x.model.index == k + 1,
                      'entry %s[%d] is the model %s at %s' % (name, k + 1, x.model.id, x.model.addr), 'entry-model', want=m.addr)
            ctx.check(x.model is sd.device.models_list[image.models.index(m)], 'entry is another model object', 'entry-model')
            ctx.eq(x.name, name, 'name of a model entry', 'entry-name')
            if m.md is None:
                ctx.eq(list(x.points), [], 'points of a model without definition', 'points')
                ctx.count('undefined_models')
                continue
            fixed = [p for p in m.md.fixed.real_points()]
            ctx.eq(list(x.points), [p.id for p in fixed], 'point names of %s' % name, 'points')
            for p in m.md.fixed.points:
                if p.type in ('pad', 'sunssf'):
                    ctx.check(not hasattr(x, p.id), 'pad or scale factor %s is exposed' % p.id, 'extra-point')
            ctx.check(x.repeating[0] is None and len(x.repeating) == m.nrep + 1, 'repeating blocks of %s: %d instead of %d' % (
                name, len(x.repeating) - 1, m.nrep), 'repeating')
            if m.nrep:
                rn = m.md.rep.name or 'repeating'
                ctx.eq(x.repeating_name, rn, 'name of the repeating block', 'repeating-name')
                ctx.check(getattr(x, rn) is x.repeating, 'repeating blocks by name', 'repeating-name')
                ctx.count('repeating_blocks', m.nrep)
            for i, b in enumerate(x.repeating[1:]):
                ctx.check(b.block is x.model.blocks[i + 1] and b.block.index == i + 1, 'repeating block %d is another block' % (i + 1), 'repeating')
                ctx.eq(list(b.points), [p.id for p in m.md.rep.real_points()], 'point names of repeating block %d' % (i + 1), 'points')
                for p in m.md.rep.points:
                    if p.type in ('pad', 'sunssf'):
                        ctx.check(not hasattr(b, p.id), 'pad or scale factor %s is exposed' % p.id, 'extra-point')
            out.append((x, m))
    return out


def values(ctx, pairs, rng, expected=True):
    """Every exposed point against the image, by attribute and by name."""
    for x, m in pairs:
        exp = m.expected() if expected else None
        for bi, obj, block in [(0, x, m.md.fixed)] + [(i + 1, b, m.md.rep) for i, b in enumerate(x.repeating[1:])]:
            for p in block.real_points():
                a, b = getattr(obj, p.id), obj[p.id]
                q = x.model.blocks[bi].points[p.id].value
                if not (ref.same_value(a, q) and ref.same_value(b, q)):
                    ctx.fail('%s of block %d: attribute %r, item %r, point %r' % (p.id, bi, a, b, q), 'mirror')
                if exp is not None:
                    v = exp[bi, p.id][3]
                    if not ref.same_value(a, v):
                        ctx.fail('%s of block %d of model %s: %r instead of %s' % (p.id, bi, m.id, a, v), 'value')
                elif a is not None:
                    ctx.fail('%s has the value %r before anything was read' % (p.id, a), 'value-before-read')
                ctx.count('values')


def mirror_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        kind = rng.choice(rig.TRANSPORTS)
        image = device_of(w, rng)
        unit = rng.choice([1, 2, 126, 247])
        a = rig.Rig(w, image, kind, unit, host='10.0.0.1', port=502)
        b = rig.Rig(w, image, kind, unit, host='10.0.0.2', port=502)
        sd = a.scripting()
        d = b.client()
        d.scan()
        twins = {id(m): t for m, t in zip(image.models, d.models_list)}
        pairs = structure(ctx, sd, image)
        values(ctx, pairs, rng, expected=False)
        log = []
        if kind != 'MAPPED' and rng.random() < .4:
            plan = {i: rng.choice(['exc', 'drop', 'lost']) for i in range(500) if rng.random() < .12}
            for r in (a, b):
                r.station.fault = lambda i, q, n0=len(r.station.requests): None if q is None or i - n0 not in plan else {
                    'exc': sim.Fault('exc', code=4), 'drop': sim.Fault('drop'), 'lost': sim.Fault('drop', apply=True)}[plan[i - n0]]
        steps = rng.randint(2, 14)
        for step in range(steps):
            op = rng.choice(['read', 'assign', 'assign', 'assign', 'write', 'mread', 'device', 'unknown'])
            if step == 0 or op == 'read':
                ra = outcome(sd.read)
                rb = outcome(d.read_points)
                ctx.eq(ra, rb, 'reading the device', 'read-outcome')
                log.append(('read', ra))
                if ra != 'ok':
                    ctx.count('failed_reads')
                    continue
                for m in image.models:
                    m.data[:] = a_bytes(a, m)
                values(ctx, pairs, rng)
                ctx.count('reads')
                continue
            if not pairs:
                continue
            x, m = rng.choice(pairs)
            t = twins[id(m)]
            if op == 'mread':
                ra = outcome(x.read)
                rb = outcome(t.read_points)
                ctx.eq(ra, rb, 'reading model %s' % m.id, 'read-outcome')
                log.append(('mread', m.id, m.addr, ra))
            elif op == 'assign':
                for mm in image.models:
                    mm.data[:] = a_bytes(a, mm)
                ts = [q for q in rig.targets([(x.model, m)], ('rw', 'r')) if q.point.value_base is not None or q.p.sf is None]
                if not ts:
                    continue
                reps = [q for q in ts if q.bi]
                q = rng.choice(reps if reps and rng.random() < .5 else ts)
                if rng.random() < .12:
                    v = rig.bad_value(rng, q)
                    if v is None:
                        continue
                else:
                    v = rig.value_for(rng, q)[0]
                obj = x if q.bi == 0 else x.repeating[q.bi]
                how = rng.choice(['attr', 'item'])
                ra = outcome(lambda: setattr(obj, q.p.id, v) if how == 'attr' else obj.__setitem__(q.p.id, v))
                rb = outcome(lambda: setattr(t.blocks[q.bi].points[q.p.id], 'value', v))
                ctx.eq(ra, rb, 'assigning %s through the scripting interface' % q.p.id, 'assign-outcome')
                log.append(('assign', how, m.addr, q.bi, q.p.id, repr(v)))
                ctx.count('assigned_' + how)
                if q.bi:
                    ctx.count('assigned_repeating')
            elif op == 'write':
                ra = outcome(x.write)
                rb = outcome(t.write_points)
                ctx.eq(ra, rb, 'writing model %s' % m.id, 'write-outcome')
                log.append(('write', m.addr, ra))
                if ra != 'ok':
                    ctx.count('failed_writes')
                ctx.count('writes')
            elif op == 'device':
                # the board moves on
                z = rng.choice(image.models)
                z.randomize(rng)
                for k in range(z.len):
                    v = z.data[2 * k] << 8 | z.data[2 * k + 1]
                    for r in (a, b):
                        poke(r, z.addr + k, v)
                log.append('device')
            elif op == 'unknown':
                nm = rng.choice(['NoSuchPoint', 'nope', 'Zz'])
                ctx.check(x[nm] is None and sd[nm] is None, 'an unknown name yields something', 'unknown-name')
                ctx.check(nm not in x.points, 'asking for a name adds it', 'unknown-name')
            compare(ctx, w, a, b, pairs, twins, image, log)
        compare(ctx, w, a, b, pairs, twins, image, log)
        if rng.random() < .5:
            sd['comment'] = 'x%d' % step
            ctx.eq(sd['comment'], 'x%d' % step, 'item set on a scripting device', 'device-item')
        structure(ctx, sd, image)
        sd.close()
        if kind == 'RTU':
            ctx.check(not [p for p in w.net.open_ports() if p.port == a.args['name']], 'closing the scripting device leaves its port open', 'close')
        ctx.check(not w.net.open_sockets(), 'a connection is left open', 'close')
        d.close()
        sd.close()
        ctx.check(not w.net.open_ports(), 'a port is left open', 'close')
        w.check_bad()
        ctx.count('transport_' + kind)
        ctx.seen(kind, image.bytes(), log)
        ctx.note(transport=kind, models=[m.id for m in image.models], log=log[:6])


def outcome(fn):
    try:
        fn()
        return 'ok'
    except Exception as e:
        return type(e).__name__


def a_bytes(r, m):
    mem = r.memory()
    out = bytearray()
    for k in range(m.addr, m.addr + m.len):
        out += bytes([mem[k] >> 8, mem[k] & 255])
    return out


def poke(r, addr, v):
    if r.transport != 'MAPPED':
        r.unit.h[addr] = v
        return
    mm = r.obj.modbus_device.modbus_map
    for g in mm.regs:
        o = addr - int(mm.base_addr) - int(g.offset)
        if 0 <= o < int(g.count):
            g.data = g.data[:2 * o] + bytes([v >> 8, v & 255]) + g.data[2 * o + 2:]
            return


def compare(ctx, w, a, b, pairs, twins, image, log):
    if a.station is not None:
        if a.transport == 'TCP':
            f, g = [q.frame for q in a.station.requests], [q.frame for q in b.station.requests]
        else:
            f, g = [q.frame for q in a.station.requests], [q.frame for q in b.station.requests]
        if f != g:
            ctx.fail('the scripting device sent %d requests, its twin %d' % (len(f), len(g)), 'requests', last=a.station.requests[-1], twin=b.station.requests[-1], log=log[-5:])
        ctx.count('requests', len(f))
    if a.memory() != b.memory():
        ctx.fail('registers of the scripting device and its twin differ', 'registers', log=log[-5:])
    for x, m in pairs:
        t = twins[id(m)]
        for bi, block in enumerate(t.blocks):
            obj = x if bi == 0 else x.repeating[bi]
            for pid, p in block.points.items():
                v = getattr(obj, pid)
                if not (v == p.value or (v != v and p.value != p.value)) or type(v) != type(p.value):
                    ctx.fail('%s: %r through the scripting interface, %r on the twin' % (pid, v, p.value), 'twin-value', log=log[-5:])
                if x.model.blocks[bi].points[pid].dirty != p.dirty:
                    ctx.fail('%s is pending on one side only' % pid, 'twin-dirty', log=log[-5:])


class Interrupt(object):
    """Interrupts the program k lines of the client module after a scan has ended."""

    def __init__(self, k):
        self.k = k
        self.armed = False
        self.hit = False

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename == client.__file__ and not self.hit else None

    def line(self, frame, event, arg):
        if event == 'return' and frame.f_code.co_name == 'scan':
            self.armed = True
        elif event == 'line' and self.armed and not self.hit:
            self.k -= 1
            if self.k < 0:
                self.hit = True
                raise KeyboardInterrupt()
        return self.line


def build_case(ctx):
    """Failed constructions release the device."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        kind = rng.choice(['TCP', 'RTU', 'RTU'])
        image = device_of(w, rng)
        r = rig.Rig(w, image, kind)
        st = r.station
        n = rng.choice(['refuse', 'silent', 'nosuns', 'exc', 'cancel', 'raise', 'midway', 'midway', 'midway', 'range', 'interrupt'])
        kw = {}
        allowed = LIB
        if n == 'refuse':
            st.connect_fault = lambda i: ConnectionRefusedError(111, 'refused') if kind == 'TCP' else OSError(13, 'denied')
        elif n == 'silent':
            st.fault = lambda i, q: sim.Fault('drop')
        elif n == 'exc':
            st.fault = lambda i, q: sim.Fault('exc', code=rng.choice([1, 2, 4, 6, 11]))
        elif n == 'nosuns':
            for a in range(3):
                r.unit.h[image.base + a] = rng.choice([0, 0x5375, 0x5376, 1])
            if r.unit.h[image.base] == 0x5375:
                r.unit.h[image.base + 1] = 0x6e54
        elif n == 'range':
            for a in list(r.unit.h):
                if a >= image.end - rng.randint(0, 2):
                    del r.unit.h[a]
        elif n == 'cancel':
            left = [rng.randint(0, len(image.models) - 1)]

            def progress(msg):
                left[0] -= 1
                return left[0] >= 0
            kw['scan_progress'] = progress
        elif n == 'raise':
            class Stop(Exception):
                pass
            allowed = LIB + (Stop,)

            def progress(msg):
                raise Stop()
            kw['scan_progress'] = progress
        elif n == 'midway':
            at = rng.randint(0, 2 * len(image.models))
            f = rng.choice([sim.Fault('drop'), sim.Fault('exc', code=2), sim.Fault('cut', keep=3, then='reset' if kind == 'TCP' else 'ioerror')])
            # candidate addresses before the real one fail anyway
            k = [0]

            def fault(i, q):
                if q is None or q.addr < image.base or q.addr == image.base:
                    return None
                k[0] += 1
                return f if k[0] > at else None
            st.fault = fault
        other = None
        if kind == 'RTU' and rng.random() < .4:
            o = rig.Rig(w, image, 'RTU', unit_id=r.unit_id % 247 + 1, bus=r.args['name'])
            cf, st.connect_fault = st.connect_fault, None
            other = o.client()
            st.connect_fault = cf
        intr = contextlib.nullcontext()
        if n == 'interrupt':
            intr = Interrupt(int(rng.choice([1, 10, 100, 1000]) * rng.random()))
            allowed = LIB + (KeyboardInterrupt,)
        try:
            with intr:
                sd = r.scripting(**kw)
        except allowed as e:
            ctx.count('failed_' + n)
            err = str(e)
        else:
            if n == 'refuse' and other is not None:
                sd.close()
                sd = None
            elif n in ('midway', 'range') or n == 'interrupt' and not intr.hit:
                # the fault came after the last request
                sd.close()
                ctx.count('fault_not_reached')
            else:
                ctx.fail('a scripting device was constructed in spite of: %s' % n, 'constructed')
        ctx.check(not w.net.open_sockets(), 'a failed construction (%s) leaves a connection open' % n, 'leak')
        ports = w.net.open_ports()
        ctx.check(len(ports) == (1 if other is not None else 0), 'a failed construction (%s) leaves %d ports open' % (n, len(ports)), 'leak')
        # afterwards it works
        st.fault = st.connect_fault = None
        image.load(r.unit)
        sd = r.scripting()
        pairs = structure(ctx, sd, image)
        sd.read()
        values(ctx, pairs, rng)
        sd.close()
        if other is not None:
            other.scan()
            other.close()
        ctx.check(not w.net.open_sockets() and not w.net.open_ports(), 'a closed device holds a port or connection', 'leak')
        ctx.seen(n, kind, image.bytes())


def trunc_case(ctx):
    """Models that cannot be loaded completely do not disturb the others."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        kind = rng.choice(rig.TRANSPORTS)
        image = device_of(w, rng)
        models = list(image.models)
        cand = [m for m in models if m.md is not None and m.md.id != 1 and m.len > 1]
        if not cand:
            return
        bad = rng.choice(cand)
        bad.len = rng.randint(1, bad.len - 1)
        bad.data = bad.data[:2 * bad.len]
        image = ref.DeviceImage(image.base, models, end_len=image.end_len)
        r = rig.Rig(w, image, kind)
        sd = r.scripting()
        ctx.eq(list(sd.models), list(entries(image)), 'named entries of the scripting device', 'entries')
        for name, ms in entries(image).items():
            e = sd[name]
            lst = e[1:] if len(ms) > 1 else [e]
            ctx.eq([int(x.model.addr) for x in lst], [m.addr for m in ms], 'models of entry %s' % name, 'entries')
            for x, m in zip(lst, ms):
                if m is bad or m.md is None:
                    continue
                x.read()
                values(ctx, [(x, m)], rng)
        ctx.count('truncated')
        sd.close()
        ctx.check(not w.net.open_sockets() and not w.net.open_ports(), 'a closed device holds a port or connection', 'leak')
        ctx.seen(kind, image.bytes())


KINDS = {'mirror': (mirror_case, 1200, 15000), 'build': (build_case, 1500, 8000), 'trunc': (trunc_case, 300, 3000)}
MIN = {'many_instances': 50, 'values': 100000, 'lists': 300, 'repeating_blocks': 1000, 'assigned_attr': 800, 'assigned_item': 800, 'assigned_repeating': 300,
       'writes': 700, 'undefined_models': 300, 'failed_midway': 100, 'failed_cancel': 40, 'failed_interrupt': 20, 'failed_refuse': 30, 'truncated': 200, 'failed_reads': 50, 'failed_writes': 20}

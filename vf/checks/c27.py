"""C27: the printed forms of devices, models, blocks, points and definitions."""
from .. import ref, rig, sim
from ..env import client, device, modbus
from .c21 import device_of, entries

ID = 'C27'
LEVEL = 'exploration'
TECH = 'output monitor: printed forms compared with the register image, request log and object state watched while printing'
RULE = ('Random devices (repeated models, repeating blocks, named blocks, unknown and truncated models, unimplemented points) on every '
        'transport are printed as a whole, by model and by block through the scripting interface and the device model, before anything was '
        'read, after reads, assignments, failed reads, register changes and after closing; lines are compared with the values the '
        'registers encode, and printing must neither send anything nor change a point. Distinct by device and history.')
ASSUMPTIONS = ['blank lines and trailing blanks are not compared', 'order of points is that of the definition']

LIB = (modbus.ModbusClientError, client.SunSpecClientError)


def lines(text):
    return [x.rstrip() for x in text.splitlines() if x.strip()]


def want_model(x, m, bad):
    """Lines of one model entry: the values are those of its points (checked against the registers elsewhere)."""
    out = ['%s (%d):' % (x.name, m.id)]
    if m.md is not None and m not in bad:
        out += want_points(x.model.blocks[0], m.md.fixed)
        for i in range(m.nrep):
            out += want_block(x.model.blocks[i + 1], m.md.rep, i + 1)
    return lines('\n'.join(out))


def want_points(block, bt):
    out = []
    for p in bt.real_points():
        v = block.points[p.id].value
        if v is not None:
            out.append('%s:  %s' % (p.id, v))
    return out


def want_block(block, bt, i):
    return ['%s[%d]:' % (bt.name or 'repeating', i)] + want_points(block, bt)


def state(dev):
    out = []
    for m in dev.models_list:
        for b in m.blocks:
            for d in (b.points, b.points_sf):
                for k, p in d.items():
                    out.append((m.addr, b.index, k, repr(p.value_base), repr(p.value_sf), p.dirty, p.impl, p.addr))
    return out


def printed(ctx, w, sd, image, bad, when):
    pairs = []
    total = []
    for name, ms in entries(image).items():
        e = sd[name]
        for k, m in enumerate(ms):
            x = e[k + 1] if len(ms) > 1 else e
            pairs.append((x, m))
    before, sent = state(sd.device), len(w.net.events)
    for x, m in pairs:
        try:
            got = lines(str(x))
        except Exception as e:
            ctx.fail('printing model %s %s failed with %s: %s' % (m.id, when, type(e).__name__, e), 'failed')
        want = want_model(x, m, bad)
        if m in bad:
            # what could be loaded of it is not specified, its heading is
            ctx.eq(got[:1], want[:1], 'heading of model %s %s' % (m.id, when), 'model')
            total.append((want[0], None))
            continue
        diff(ctx, got, want, 'model %s %s' % (m.id, when), 'model')
        total.append((want[0], want))
        ctx.count('models')
        for i in range(m.nrep if m.md is not None else 0):
            diff(ctx, lines(str(x.repeating[i + 1])), lines('\n'.join(want_block(x.model.blocks[i + 1], m.md.rep, i + 1))), 'block %d of model %s %s' % (i + 1, m.id, when), 'block')
            ctx.count('blocks')
    try:
        got = lines(str(sd))
    except Exception as e:
        ctx.fail('printing the device %s failed with %s: %s' % (when, type(e).__name__, e), 'failed')
    if not bad:
        diff(ctx, got, [y for h, t in total for y in t], 'the device %s' % when, 'device')
    for h, t in total:
        ctx.check(h in got, 'the device %s is printed without %r' % (when, h), 'device')
    ctx.count('devices')
    # the object model underneath
    text = plain(ctx, sd.device, when)
    for m in sd.device.models_list:
        mt = plain(ctx, m, when)
        ctx.check(str(m.id) in mt, 'model %s is printed without its id' % m.id, 'object')
        if m.load_error:
            continue
        for b in m.blocks:
            s = plain(ctx, b, when)
            if b.index:
                ctx.check(s in mt, 'repeating block %d is missing where its model is printed' % b.index, 'object')
            for pid, p in b.points.items():
                s = plain(ctx, p, when)
                for part in (pid, str(p.addr), str(p.value_base)):
                    ctx.check(part in s, 'point %s is printed without %r: %s' % (pid, part, s), 'object')
                if p.sf_point is not None:
                    ctx.check(str(p.sf_point.value_base) in s, 'point %s is printed without its scale factor %s: %s' % (pid, p.sf_point.value_base, s), 'object')
                for where, t in (('its model', mt), ('the device', text)):
                    ctx.check(s in t, 'point %s is missing where %s is printed' % (pid, where), 'object')
                ctx.count('points')
        t = plain(ctx, m.model_type, when)
        for b in (m.model_type.fixed_block, m.model_type.repeating_block):
            if b is not None:
                bt = plain(ctx, b, when)
                ctx.check(bt in t, 'a definition is printed without its %s block' % b.type, 'definition')
                for p in b.points_list:
                    s = plain(ctx, p, when)
                    for part in (p.id, str(p.offset), str(p.type), str(p.len)):
                        ctx.check(part in s, 'point definition %s is printed without %r: %s' % (p.id, part, s), 'definition')
                    ctx.check(s in bt, 'a block definition is printed without point %s' % p.id, 'definition')
                    for y in p.symbols:
                        ctx.check(str(y.id) in plain(ctx, y, when), 'a symbol is printed without its id', 'definition')
                    ctx.count('definitions')
    ctx.check(len(w.net.events) == sent, 'printing the device %s sent something' % when, 'traffic')
    ctx.eq(state(sd.device), before, 'state of the points after printing the device %s' % when, 'state')
    return got


def plain(ctx, o, when):
    try:
        return str(o)
    except Exception as e:
        ctx.fail('printing a %s %s failed with %s: %s' % (type(o).__name__, when, type(e).__name__, e), 'failed')


def diff(ctx, got, want, what, key):
    ctx.count('lines', len(want))
    if got == want:
        return
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        v = want[i] if i < len(want) else None
        if g != v:
            ctx.fail('%s is printed with the line %r instead of %r' % (what, g, v), key, line=i, got=got[max(0, i - 3):i + 4], want=want[max(0, i - 3):i + 4])


def against_registers(ctx, sd, image, bad, what):
    for name, ms in entries(image).items():
        e = sd[name]
        for k, m in enumerate(ms):
            if m.md is None or m in bad:
                continue
            x = e[k + 1] if len(ms) > 1 else e
            exp = m.expected()
            text = {}
            bi = 0
            for ln in str(x).splitlines():
                if ln.endswith(']:') and '[' in ln and ':  ' not in ln:
                    bi += 1
                elif ':  ' in ln:
                    text.setdefault((bi, ln.split(':  ')[0]), ln.split(':  ', 1)[1])
            for b, bt in enumerate(m.md.blocks(m.nrep)):
                for p in bt.real_points():
                    if p.type == 'string':
                        continue
                    v = exp[b, p.id][3]
                    s = text.get((b, p.id))
                    if v is None:
                        ctx.check(s is None, '%s: unimplemented %s of block %d is printed as %r' % (what, p.id, b, s), 'unimplemented')
                        ctx.count('unimplemented')
                        continue
                    ctx.check(s is not None, '%s: %s of block %d with value %s is not printed' % (what, p.id, b, ref.show(v)), 'missing')
                    if p.type in ('ipv6addr', 'eui48'):
                        ctx.eq(s, v, '%s: %s of block %d' % (what, p.id, b), 'value')
                    else:
                        ctx.check(ref.same_value(number(s), v), '%s: %s of block %d is printed as %s, its registers say %s' % (what, p.id, b, s, ref.show(v)), 'value')
                    ctx.count('values')


def number(s):
    try:
        return int(s)
    except ValueError:
        try:
            return float(s)
        except ValueError:
            return s


def print_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        kind = rng.choice(rig.TRANSPORTS)
        image = device_of(w, rng)
        bad = set()
        if rng.random() < .15:
            cand = [m for m in image.models if m.md is not None and m.md.id != 1 and m.len > 1]
            if cand:
                m = rng.choice(cand)
                m.len = rng.randint(1, m.len - 1)
                m.data = m.data[:2 * m.len]
                image = ref.DeviceImage(image.base, list(image.models), end_len=image.end_len)
                # a shorter length may still hold whole repeating blocks
                bad = {m}
                ctx.count('truncated')
        strange = rng.random() < .1
        if strange:
            rig.wild_scale_factors(ctx, image)
        r = rig.Rig(w, image, kind)
        sd = r.scripting()
        log = ['new']
        printed(ctx, w, sd, image, bad, 'before reading')
        sd.read()
        printed(ctx, w, sd, image, bad, 'after reading')
        against_registers(ctx, sd, image, bad, 'after reading')
        for step in range(rng.randint(1, 4)):
            op = rng.choice(['assign', 'assign', 'change', 'fail', 'mread', 'close'])
            log.append(op)
            if op == 'assign' and not strange:
                ms = [m for m in sd.device.models_list if not m.load_error]
                ts = [q for m, i in zip(sd.device.models_list, image.models) if i.md is not None and i not in bad for q in rig.targets([(m, i)], ('rw', 'r'))]
                ts = [q for q in ts if q.point.value_base is not None or q.p.sf is None]
                for q in rng.sample(ts, min(len(ts), 3)):
                    q.point.value = rig.value_for(rng, q)[0]
            elif op == 'change' and kind != 'MAPPED':
                for m in image.models:
                    if m not in bad:
                        m.randomize(rng, punimpl=.3)
                if strange:
                    rig.wild_scale_factors(ctx, image)
                image.load(r.unit)
                sd.read()
                against_registers(ctx, sd, image, bad, 'after another read')
            elif op == 'fail' and kind != 'MAPPED':
                r.station.fault = lambda i, q: sim.Fault('drop')
                try:
                    sd.read()
                except LIB:
                    pass
                r.station.fault = None
            elif op == 'mread':
                name = rng.choice(list(sd.models) or [None])
                if name is not None:
                    e = sd[name]
                    (e[1] if isinstance(e, list) else e).read()
            elif op == 'close':
                sd.close()
                printed(ctx, w, sd, image, bad, 'after closing')
                break
            printed(ctx, w, sd, image, bad, 'after ' + op)
        sd.close()
        ctx.count('transport_' + kind)
        ctx.seen(kind, image.bytes(), log)
        ctx.note(transport=kind, models=[(m.id, m.nrep) for m in image.models], log=log)


KINDS = {'print': (print_case, 2500, 40000)}
MIN = {'models': 20000, 'blocks': 20000, 'devices': 7000, 'points': 500000, 'definitions': 500000, 'values': 100000, 'unimplemented': 20000, 'truncated': 150, 'wild_scale_factors': 200}

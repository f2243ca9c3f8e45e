"""C02: what a write of modified points does to the device's registers."""
from .. import ref, rig, sim

ID = 'C02'
LEVEL = 'exploration'
TECH = 'write-log monitor: every register written to the simulated device against the set of modified points'
RULE = ('Random devices (any definitions, repeats, several models) over mapped file, TCP and serial, with a second unit on the same '
        'station; random sets of points assigned one or more times, written by model, point or scripting model; the monitor compares '
        'the device\'s write log and complete register diff with the assigned points, then re-reads. A second kind assigns numbers '
        'that do not fit. Non-trivial: at least one write reached the device (or a value was refused); distinct by assignment.')
ASSUMPTIONS = ['points with a scale factor are assigned while they have a value', 'integer points are assigned whole numbers',
               'scaled 64-bit numbers stay below 2^50', 'texts fit their field']


def setup_device(ctx, w, transport, **kw):
    rng = ctx.rng
    img = rig.rand_device(w, punimpl=rng.choice([0, .1, .3]), **kw)
    r = w.attach(img, transport)
    style = rng.choice(['client', 'script']) if transport != 'RTU' or True else 'client'
    if style == 'script':
        s = r.scripting()
        cd = s.device
        s.read()
    else:
        s = None
        cd = r.client()
        cd.scan()
        cd.read_points()
    if r.station:
        r.station.chunker = rig.rand_chunks(rng)
        # another unit on the same station, with its own registers
        other = sim.Unit(dict(r.unit.h))
        for u in (3, 4):
            if u != r.unit_id:
                r.station.units[u] = other
                r.other = (u, other, dict(other.h))
                break
    pairs = list(zip(cd.models_list, img.models))
    if [(m.id, m.len) for m, mi in pairs] != [(mi.id, mi.len) for mi in img.models]:
        ctx.fail('models found differ from the device', 'models')
    return r, cd, s, img, pairs


def pick(rng, ts):
    """A set of targets: scattered, a run of neighbours, or everything."""
    mode = rng.choice(['one', 'few', 'run', 'run', 'many', 'all', 'gapped'])
    if mode == 'one':
        return [rng.choice(ts)]
    if mode == 'few':
        return rng.sample(ts, min(len(ts), rng.randint(2, 5)))
    if mode == 'run':
        i = rng.randrange(len(ts))
        return ts[i:i + rng.randint(2, 60)]
    if mode == 'many':
        return [t for t in ts if rng.random() < .5] or [ts[0]]
    if mode == 'gapped':                    # everything but one to three
        out = rng.sample(ts, min(len(ts) - 1, rng.randint(1, 3)))
        return [t for t in ts if not any(t is o for o in out)]
    return list(ts)


def assign(ctx, s, pairs, t, v):
    """Assign through one of the public ways."""
    rng = ctx.rng
    if s is not None and rng.random() < .6:
        name = [n for n in s.models]
        for n in name:
            e = s[n]
            for o in (e[1:] if isinstance(e, list) else [e]):
                if o.model is t.model:
                    h = o if t.bi == 0 else o.repeating[t.bi]
                    if rng.random() < .5:
                        setattr(h, t.p.id, v)
                    else:
                        h[t.p.id] = v
                    return o
        ctx.fail('no scripting entry for model %s' % t.model.id, 'script-entry')
    t.point.value = v
    return None


def image_regs(img):
    b = img.bytes()
    return {img.base + i: (b[2 * i] << 8) | b[2 * i + 1] for i in range(len(b) // 2)}


def check_writes(ctx, r, img, want, what):
    """want: {address: bytes} of the points that must have been written."""
    regs = {}
    for a, b in want.items():
        for k in range(len(b) // 2):
            regs[a + k] = (b[2 * k] << 8) | b[2 * k + 1]
    if r.unit is not None:
        seen = {}
        for a, b in r.unit.writes:
            ctx.count('write_requests')
            for k in range(len(b) // 2):
                if a + k not in regs:
                    ctx.fail('%s: register %d of no modified point was written' % (what, a + k), 'foreign-register',
                             request=(a, len(b) // 2))
                if a + k in seen:
                    ctx.fail('%s: register %d was written twice' % (what, a + k), 'written-twice')
                seen[a + k] = (b[2 * k] << 8) | b[2 * k + 1]
        for a in regs:
            if a not in seen:
                ctx.fail('%s: register %d of a modified point was not written' % (what, a), 'not-written')
        r.unit.writes.clear()
        u, other, before = r.other
        if other.h != before:
            ctx.fail('%s: registers of unit %d changed' % (what, u), 'other-unit')
    exp = image_regs(img)
    exp.update(regs)
    got = r.memory()
    for a, v in exp.items():
        if got.get(a) != v:
            ctx.fail('%s: register %d holds %s instead of %#06x' % (what, a, got.get(a), v), 'memory',
                     modified=a in regs)
    for a in got:
        if a not in exp:
            ctx.fail('%s: register %d appeared' % (what, a), 'memory')
    ctx.count('registers_written', len(regs))


def write_case(ctx, transport):
    rng = ctx.rng
    with rig.World(ctx) as w:
        r, cd, s, img, pairs = setup_device(ctx, w, transport)
        ts = rig.targets(pairs)
        if not ts:
            ctx.count('nothing_writable')
            return
        log = []
        for rnd in range(rng.choice([1, 2, 3])):
            chosen = pick(rng, ts)
            if not chosen:
                continue
            want = {}
            final = {}
            for k in range(rng.choice([1, 1, 2])):
                order = list(chosen)
                rng.shuffle(order)
                for t in order:
                    if k and rng.random() < .5:
                        continue
                    v, data = rig.value_for(rng, t)
                    assign(ctx, s, pairs, t, v)
                    want[t.addr] = data
                    final[id(t)] = (t, data)
                    if k:
                        ctx.count('reassigned')
            how = rng.choice(['model', 'model', 'point'] + (['script', 'script'] if s else []))
            if how == 'point':
                order = [t for t, d in final.values()]
                rng.shuffle(order)
                for t in order:
                    t.point.write()
            else:
                for m, mi in pairs:
                    if any(t.model is m for t, d in final.values()) or rng.random() < .2:
                        if how == 'script':
                            for n in s.models:
                                e = s[n]
                                for o in (e[1:] if isinstance(e, list) else [e]):
                                    if o.model is m:
                                        o.write()
                        else:
                            m.write_points()
            ctx.count('how_' + how)
            check_writes(ctx, r, img, want, 'write %d (%s over %s)' % (rnd + 1, how, transport))
            for t, d in final.values():
                t.mi.put(t.addr, d)
            cd.read_points()
            for m, mi in pairs:
                rig.verify_model(ctx, m, mi, 'after write %d: ' % (rnd + 1))
            ts = rig.targets(pairs)
            log.append((how, len(final)))
            ctx.seen(transport, how, sorted(want.items()))
            w.check_bad()
        ctx.count('devices_' + transport)
        ctx.note(transport=transport, models=[(m.id, m.len, m.nrep) for m in img.models], writes=log)
        cd.close()


def refuse_case(ctx, transport):
    """A number that does not fit is refused and never reaches the device in altered form."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        r, cd, s, img, pairs = setup_device(ctx, w, transport)
        ts = rig.targets(pairs)
        bads = [t for t in ts if rig.bad_value(rng, t) is not None]
        if not bads:
            ctx.count('nothing_writable')
            return
        bad = rng.choice(bads)
        v = rig.bad_value(rng, bad)
        good = {}
        others = [t for t in ts if t.model is bad.model and t is not bad]
        for t in rng.sample(others, min(len(others), rng.choice([0, 0, 1, 3]))):
            gv, data = rig.value_for(rng, t)
            t.point.value = gv
            good[t.addr] = data
        how = rng.choice(['model', 'point'])
        raised = None
        try:
            bad.point.value = v
            if how == 'point':
                bad.point.write()
            else:
                bad.model.write_points()
        except Exception as e:
            raised = e
        what = '%r assigned to a %s with scale factor %s' % (v, bad.p.type, bad.sf())
        if raised is None:
            ctx.fail('%s was not refused' % what, 'not-refused')
        before = image_regs(img)
        got = r.memory()
        ok = {}
        for a, d in good.items():
            for k in range(len(d) // 2):
                ok[a + k] = (d[2 * k] << 8) | d[2 * k + 1]
        for a in before:
            if got.get(a) != before[a] and not (a in ok and got.get(a) == ok[a]):
                ctx.fail('%s: register %d changed to %s' % (what, a, got.get(a)), 'altered')
        ctx.count('refused')
        ctx.count('refused_' + bad.p.type)
        ctx.seen(transport, bad.p.type, v, bad.sf())
        # a value that fits afterwards is written normally
        gv, data = rig.value_for(rng, bad)
        bad.point.value = gv
        bad.model.write_points()
        got = r.memory()
        exp = dict(before)
        exp.update(ok)
        for k in range(len(data) // 2):
            exp[bad.addr + k] = (data[2 * k] << 8) | data[2 * k + 1]
        for a in exp:
            if got.get(a) != exp[a]:
                ctx.fail('after a refused value: register %d holds %s instead of %#06x' % (a, got.get(a), exp[a]), 'after-refusal')
        ctx.note(what=what, error=repr(raised))
        w.check_bad()
        cd.close()


KINDS = {
    'mapped': (lambda c: write_case(c, 'MAPPED'), 500, 5000),
    'tcp': (lambda c: write_case(c, 'TCP'), 1200, 12000),
    'rtu': (lambda c: write_case(c, 'RTU'), 800, 8000),
    'refuse_tcp': (lambda c: refuse_case(c, 'TCP'), 600, 6000),
    'refuse_rtu': (lambda c: refuse_case(c, 'RTU'), 300, 3000),
    'refuse_mapped': (lambda c: refuse_case(c, 'MAPPED'), 300, 3000),
}
MIN = {'write_requests': 2000, 'registers_written': 10000, 'refused': 300, 'how_point': 100, 'how_script': 100, 'reassigned': 100}

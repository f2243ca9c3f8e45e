"""C17: assigning and reading scaled values."""
import xml.etree.ElementTree as ET
from fractions import Fraction

from .. import ref, rig
from ..env import device

ID = 'C17'
LEVEL = 'exploration'
TECH = 'exact rational arithmetic oracle on every assignment and value read back'
RULE = ('Points of every numeric type with every scale factor from -10 to 10 (constant, of the block, of the fixed block, none, '
        'unimplemented), set up directly, from a device read over a transport, from a PICS document or through the scripting interface, are '
        'assigned whole, fractional, tie, negative and text values, several times, with reads after the scale factor registers changed in '
        'between; the stored integer, the value read back, the modified mark and every other point are checked. Distinct by point and value.')
ASSUMPTIONS = ['stored integers of at most 2^50', 'values whose scaled form lies within double rounding of a tie may go either way',
               'whole numbers are assigned to unscaled integer points']


def near(ctx, base, v, sf, what):
    """base must be the integer nearest to v / 10^sf."""
    ctx.check(isinstance(base, int) and not isinstance(base, bool), '%s: %r stored for %r, not an integer' % (what, base, v), 'not-integer')
    q = Fraction(v) / Fraction(10) ** sf
    tol = Fraction(1, 2) + abs(q) * Fraction(1, 1 << 51)
    ctx.check(abs(base - q) <= tol, '%s: assigning %r with scale factor %d stored %d' % (what, v, sf, base), 'not-nearest')


def back(ctx, got, v, sf, what):
    step = Fraction(10) ** sf
    ctx.check(isinstance(got, (int, float)), '%s: %r read back' % (what, got), 'read-back')
    tol = step / 2 + abs(Fraction(v)) * Fraction(1, 1 << 50)
    ctx.check(abs(Fraction(got) - Fraction(v)) <= tol, '%s: assigned %r with scale factor %d, read back %r' % (what, v, sf, got), 'read-back')


def pick(rng, ty, sf):
    """A value to assign for a scale factor, its exact meaning."""
    lo, hi = ref.int_range(ty)
    lo, hi = max(lo, -(1 << 50)), min(hi, 1 << 50)
    r = rng.random()
    if r < .3:
        base = Fraction(rng.choice([lo, hi, 0, 1, -1 if lo else 1, rng.randint(lo, hi)]))
    elif r < .6:
        base = Fraction(rng.randint(max(lo, -2000), min(hi, 2000)))
    else:
        base = Fraction(rng.randint(lo, hi - 1) if rng.random() < .5 else rng.randint(max(lo, -3000), min(hi - 1, 3000)))
        base += Fraction(rng.choice([1, 49, 50, 51, 99, rng.randint(0, 99)]), 100)
    exact = base * Fraction(10) ** sf
    v = float(exact)
    r = rng.random()
    if exact.denominator == 1 and abs(exact) < 1 << 53 and r < .5:
        v = int(exact)
    elif r < .15:
        s = repr(v)
        return s, Fraction(float(s))
    elif r < .25:
        # a decimal that is not the double of a multiple
        v = round(v, max(0, -sf) + 1)
    return v, Fraction(v)


def direct(ctx):
    """Points set up without a device."""
    rng = ctx.rng
    ty = rng.choice(ref.SCALABLE)
    mt = device.ModelType()
    mt.from_smdx(ET.fromstring('<sunSpecModels v="1"><model id="9" len="8"><block len="8"><point id="P" offset="0" type="%s" sf="S"/>'
                               '<point id="S" offset="7" type="sunssf"/></block></model></sunSpecModels>' % ty))
    pt = mt.fixed_block.points['P']
    sf = rng.randint(-10, 10)
    p = device.Point(point_type=pt, addr='5')
    ctx.check(p.value is None and not p.dirty, 'a new point has a value or is modified', 'fresh')
    p.value_sf = sf
    ctx.check(p.value is None, 'a point without a value reads %r with scale factor %d' % (p.value, sf), 'no-value')
    ctx.check(not p.dirty, 'setting the scale factor marked the point as modified', 'dirty')
    for _ in range(rng.choice([1, 2, 4])):
        if sf == 0:
            v = ref.rand_int(rng, ty)
            p.value = v
            ctx.eq(p.value_base, v, 'stored without scaling', 'unscaled')
            ctx.eq(p.value, v, 'read back without scaling', 'unscaled')
            ctx.count('zero_sf')
        else:
            v, x = pick(rng, ty, sf)
            p.value = v
            near(ctx, p.value_base, x, sf, ty)
            back(ctx, p.value, x, sf, ty)
            ctx.count('scaled')
            if x.denominator != 1:
                ctx.count('fractional')
        ctx.check(p.dirty, 'assignment did not mark the point as modified', 'dirty')
        ctx.seen(ty, sf, repr(v))
        if rng.random() < .3:
            p.dirty = False
            p.value
            p.value_base
            str(p)
            ctx.check(not p.dirty, 'reading a value marked the point as modified', 'dirty')
        before = (p.value_base, p.value_sf, p.dirty)
        if rng.random() < .3:
            try:
                p.value = rng.choice(['abc', '1,5', '', [], object()])
                ctx.fail('a value without meaning was accepted', 'accepted')
            except Exception as e:
                if type(e).__name__ == 'Violation':
                    raise
            ctx.eq((p.value_base, p.value_sf, p.dirty), before, 'point after a refused value', 'refused-changed')
            ctx.count('refused')
    p.value_base = None
    ctx.check(p.value is None, 'a point that lost its value reads %r' % (p.value,), 'no-value')


def state(d):
    return {(i, b.index, p.point_type.id): (p.value_base, p.value_sf, p.dirty) for i, m in enumerate(d.models_list) for b in m.blocks
            for p in list(b.points_list) + list(b.points_sf.values())}


def get(o, pid):
    return o[pid]


def device_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = rig.rand_device(w, max_regs=400, punimpl=.15)
        r = w.attach(img, rng.choice(['MAPPED', 'MAPPED', 'TCP', 'RTU']))
        how = rng.choice(['client', 'client', 'scripting', 'pics'])
        if how == 'scripting':
            sd = r.scripting()
            d = sd.device
        else:
            sd = None
            d = r.client()
            d.scan()
        ctx.check(all(v == (None, None, False) for v in state(d).values()) and all(
            p.value is None for m in d.models_list for b in m.blocks for p in b.points_list), 'points have values before they are read', 'fresh')
        d.read_points()
        if how == 'pics':
            root = ET.Element('x')
            d.to_pics(root, single_repeating=False)
            d = device.Device()
            d.from_pics(root.find('device'))
        ctx.count('via_' + how)
        for rnd in range(1 if how == 'pics' else rng.choice([1, 2, 3])):
            if rnd:
                # other scale factors
                for mi in img.models:
                    if mi.md:
                        for bi, p, a in mi.each():
                            if p.type == 'sunssf' and rng.random() < .6:
                                mi.put(a, ref.encode('sunssf', rng.choice([-32768, 0, rng.randint(-10, 10), rng.randint(-4, 4)]), 1))
                            elif rng.random() < .1:
                                mi.put(a, ref.unimpl(p.type, p.regs))
                r.set_memory(img)
                for m in d.models_list:
                    for b in m.blocks:
                        for p in b.points_list:
                            p.dirty = False
                d.read_points()
                ctx.count('rereads')
            st = state(d)
            ctx.check(not any(v[2] for v in st.values()), 'a point is modified without an assignment', 'dirty')
            pairs = list(zip(d.models_list, img.models))
            ts = rig.targets(pairs, ('r', 'rw'))
            rng.shuffle(ts)
            for t in ts[:12]:
                sf = t.sf()
                p = t.point
                i = d.models_list.index(t.model)
                key = (i, t.bi, t.p.id)
                if t.p.type in ref.SCALABLE and sf:
                    v, x = pick(rng, t.p.type, sf)
                    put(rng, sd, i, t, p, v, ctx)
                    near(ctx, p.value_base, x, sf, t.p.id)
                    back(ctx, p.value, x, sf, t.p.id)
                    if sd is not None:
                        back(ctx, item(sd, i, t, d), x, sf, t.p.id + ' through the scripting interface')
                    ctx.count('scaled')
                else:
                    v, dd = rig.value_for(rng, t)
                    put(rng, sd, i, t, p, v, ctx)
                    want = v
                    if isinstance(v, str) and t.p.type in ref.INT:
                        want = int(v, 0)
                    elif isinstance(v, str) and t.p.type == 'float32':
                        want = float(v)
                    ctx.eq(p.value_base, want, 'stored for %s (%s)' % (t.p.id, t.p.type), 'unscaled')
                    ctx.eq(p.value, want, 'read back from %s (%s)' % (t.p.id, t.p.type), 'unscaled')
                    ctx.count('unscaled')
                ctx.check(p.dirty, 'assignment did not mark %s as modified' % t.p.id, 'dirty')
                now = state(d)
                st[key] = now[key]
                ctx.check(now == st, 'assigning %s changed another point' % t.p.id, 'other-changed')
                ctx.seen(t.p.type, sf, repr(v))
            for t in rig.targets(pairs, ('r', 'rw')):
                p = t.point
                if p.value_base is None:
                    ctx.check(p.value is None, 'point %s without a value reads %r' % (t.p.id, p.value), 'no-value')
        if how != 'pics':
            d.close()


def entry(sd, i, d):
    """The scripting entry of the i-th model."""
    m = d.models_list[i]
    name = m.model_type.name
    e = sd[name]
    if isinstance(e, list):
        return e[m.index]
    return e


def put(rng, sd, i, t, p, v, ctx):
    if sd is None:
        p.value = v
        return
    e = entry(sd, i, sd.device)
    o = e if t.bi == 0 else e.repeating[t.bi]
    if rng.random() < .5:
        setattr(o, t.p.id, v)
    else:
        o[t.p.id] = v


def item(sd, i, t, d):
    e = entry(sd, i, d)
    o = e if t.bi == 0 else e.repeating[t.bi]
    return getattr(o, t.p.id)


KINDS = {
    'direct': (direct, 30000, 500000),
    'device': (device_case, 1200, 12000),
}
MIN = {'scaled': 30000, 'unscaled': 1500, 'zero_sf': 1000, 'fractional': 8000, 'refused': 5000, 'rereads': 200, 'via_client': 100,
       'via_scripting': 60, 'via_pics': 60}

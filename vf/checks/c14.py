"""C14: comparing devices, models, blocks, points and definitions."""
import copy
import xml.etree.ElementTree as ET

from .. import ref, rig
from ..env import device

ID = 'C14'
LEVEL = 'exploration'
TECH = 'comparison verdicts in both directions judged by a reference reading of both register images and definitions'
RULE = ('Pairs of devices are built independently (scan and read over any transport, or PICS) from equal images or from images and '
        'definitions that differ in one or several random respects: a point value, a scale factor, implementation status, model set, model '
        'order, block count, any attribute of a definition, its points or symbols. Any model, block or point is also compared with any other. The verdict of both directions and at every level is '
        'compared with the expectation computed from the images; both devices are compared with their state before. Distinct by pair.')
ASSUMPTIONS = ['a scale factor of 0 against no scale factor is only checked for agreement of both directions',
               'base addresses and scale factors no point refers to are not part of a comparison']


def snapshot(d):
    return [(m.id, m.index, m.len, m.addr, m.load_error, [(b.index, b.addr, [
        (p.point_type.id, p.value_base, p.value_sf, p.impl, p.dirty) for p in b.points_list],
        [(k, v.value_base) for k, v in b.points_sf.items()]) for b in m.blocks]) for m in d.models_list]


def view(img):
    """What a comparison is about: per model the values and scale factors in effect."""
    out = []
    for m in img.models:
        if m.md is None:
            out.append((m.id, None))
        else:
            out.append((m.id, m.nrep, {k: (raw, sf) for k, (a, raw, sf, val) in m.expected().items() if not is_sf(m, k)}))
    return out


def is_sf(m, key):
    bi, pid = key
    b = m.md.fixed if bi == 0 else m.md.rep
    return any(p.id == pid and p.type == 'sunssf' for p in b.points)


def ambiguous(a, b):
    """Equal but for scale factors 0 and none."""
    def norm(v):
        return [(x[0],) + tuple({k: (r, s or 0) for k, (r, s) in y.items()} if isinstance(y, dict) else y for y in x[1:]) for x in v]
    return a != b and norm(a) == norm(b)


def verdict(ctx, x, y, what):
    try:
        s = x.not_equal(y)
    except Exception as e:
        ctx.fail('%s: comparing failed with %s: %s' % (what, type(e).__name__, e), 'comparison-failed')
    ctx.check(s is False or (isinstance(s, str) and s), '%s: comparison returned %r' % (what, s), 'verdict-type')
    ctx.count('verdicts')
    return bool(s), s


def judge(ctx, x, y, want, what):
    r1, s1 = verdict(ctx, x, y, what)
    r2, s2 = verdict(ctx, y, x, what + ' (reversed)')
    if ctx.rng.random() < .3:
        r3, s3 = verdict(ctx, x, y, what + ' (again)')
        ctx.check(r1 == r3, '%s: first compared %r, then %r' % (what, s1, s3), 'unstable')
        ctx.count('compared_again')
    ctx.check(r1 == r2, '%s: one direction says %r, the other %r' % (what, s1, s2), 'asymmetric')
    if want is not None:
        ctx.check(r1 == want, '%s: %s, reported %r' % (what, 'they differ' if want else 'they are equal', s1), 'missed' if want else 'invented')
        ctx.count('different' if want else 'equal')
    else:
        ctx.count('undetermined')


def build(ctx, w, img, base):
    """A device object holding the image, made one way or another."""
    rng = ctx.rng
    data = [bytes(m.data) for m in img.models]
    cp = ref.DeviceImage(base, [clone(m) for m in img.models], img.end_len)
    r = w.attach(cp, rng.choice(['MAPPED', 'MAPPED', 'TCP', 'RTU']))
    d = r.client()
    d.scan()
    for m in d.models_list:
        if not m.load_error:
            m.read_points()
            if rng.random() < .1:
                m.read_points()
    if rng.random() < .2 and all(m.md for m in img.models) and pics_ok(img):
        root = ET.Element('sunSpecPics')
        d.to_pics(root, single_repeating=False)
        d = device.Device()
        d.from_pics(element=ET.fromstring(ET.tostring(root)).find('device'))
        ctx.count('from_pics')
    assert data == [bytes(m.data) for m in img.models]
    return d


def pics_ok(img):
    return True


def clone(m):
    c = ref.ModelImage(m.md, m.nrep, m.len, m.id)
    c.data[:] = m.data
    c.addr = m.addr
    return c


def change_values(ctx, w, img):
    """Change registers of a few points (or none)."""
    rng = ctx.rng
    cand = [(m, bi, p, a) for m in img.models if m.md for bi, p, a in m.each()]
    if not cand:
        return
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        m, bi, p, a = rng.choice(cand)
        if rng.random() < .35:
            sfs = [c for c in cand if c[2].type == 'sunssf']
            if sfs:
                m, bi, p, a = rng.choice(sfs)
        old = m.raw(a, p.regs)
        r = rng.random()
        if p.type == 'sunssf':
            new = ref.encode('sunssf', rng.choice([-32768, 0, 1, -1, 5, rng.randint(-10, 10)]), 1)
        elif r < .2:
            new = ref.unimpl(p.type, p.regs)
        elif r < .5 and p.type in ref.INT:
            v = int.from_bytes(old, 'big') ^ (1 << rng.randint(0, 16 * p.regs - 1))
            new = v.to_bytes(2 * p.regs, 'big')
        else:
            new = ref.encode(p.type, ref.rand_value(rng, p.type, p.regs), p.regs)
        if p.type == 'float32' and ref.decode(p.type, new) == 0.0:
            continue
        m.put(a, new)
        ctx.count('value_changes')


def change_models(ctx, w, img):
    rng = ctx.rng
    ms = img.models
    k = rng.choice(['drop', 'dup', 'swap', 'foreign', 'unknown', 'rep', 'rep'])
    i = rng.randrange(len(ms))
    if k == 'drop' and len(ms) > 1:
        del ms[i]
    elif k == 'dup':
        ms.insert(rng.randrange(len(ms) + 1), clone(ms[i]))
    elif k == 'swap' and len(ms) > 1:
        j = rng.randrange(len(ms))
        ms[i], ms[j] = ms[j], ms[i]
    elif k == 'foreign':
        md = ref.rand_md(rng, rig.fresh_id(), size=5)
        w.define(md)
        m = ref.ModelImage(md, 0)
        m.addr = 0
        m.randomize(rng)
        ms[i] = m
    elif k == 'unknown':
        m = ref.ModelImage(None, 0, 4, id=60000 + rng.randint(0, 5))
        ms[i] = m
    elif k == 'rep':
        reps = [x for x in range(len(ms)) if ms[x].md and ms[x].md.rep]
        if reps:
            i = rng.choice(reps)
            o = ms[i]
            n = o.nrep + rng.choice([1, -1]) if o.nrep else 1
            c = ref.ModelImage(o.md, n)
            keep = min(len(c.data), len(o.data))
            c.addr = 0
            c.randomize(rng)
            c.data[:keep] = o.data[:keep]
            ms[i] = c
    img.__init__(img.base, ms, img.end_len)
    ctx.count('model_changes')


def pair_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = rig.rand_device(w, max_regs=700, punimpl=.2, slack=2000)
        if rng.random() < .2:
            m = ref.ModelImage(None, 0, rng.randint(1, 6), id=60000 + rng.randint(0, 5))
            img = ref.DeviceImage(img.base, img.models + [m], img.end_len)
        other = ref.DeviceImage(img.base, [clone(m) for m in img.models], img.end_len)
        r = rng.random()
        if r < .5:
            change_values(ctx, w, other)
        elif r < .7:
            change_models(ctx, w, other)
        va, vb = view(img), view(other)
        want = None if ambiguous(va, vb) else va != vb
        a = build(ctx, w, img, img.base)
        if rng.random() < .5:
            rig.clear_caches_light()
        b = build(ctx, w, other, rng.choice([img.base, 40000, 0]))
        sa, sb = snapshot(a), snapshot(b)
        judge(ctx, a, b, want, 'devices')
        judge(ctx, a, a, False, 'device against itself')
        if len(a.models_list) == len(b.models_list):
            for ma, mb, xa, xb in zip(a.models_list, b.models_list, va, vb):
                judge(ctx, ma, mb, None if ambiguous([xa], [xb]) else xa != xb, 'models %d and %d' % (ma.id, mb.id))
                if ma.id == mb.id and len(ma.blocks) == len(mb.blocks) and ma.blocks:
                    for ba, bb in zip(ma.blocks, mb.blocks):
                        i = ba.index
                        pa = {k: v for k, v in xa[2].items() if k[0] == i}
                        pb = {k: v for k, v in xb[2].items() if k[0] == i}
                        amb = ambiguous([(0, 0, pa)], [(0, 0, pb)])
                        judge(ctx, ba, bb, None if amb else pa != pb, 'blocks %d of model %d' % (i, ma.id))
                        for k in rng.sample(sorted(pa), min(4, len(pa))):
                            qa, qb = ba.points[k[1]], bb.points[k[1]]
                            amb = pa[k][0] == pb[k][0] and (pa[k][1] or 0) == (pb[k][1] or 0) and pa[k] != pb[k]
                            judge(ctx, qa, qb, None if amb else pa[k] != pb[k], 'points %s' % k[1])
        crosswise(ctx, a, b, img, other)
        ctx.check(snapshot(a) == sa and snapshot(b) == sb, 'comparing changed a device', 'changed')
        # an assignment makes a difference, undoing it removes it
        ts = [t for t in rig.targets(list(zip(a.models_list, img.models)), ('r', 'rw')) if ref.decode(t.p.type, t.raw()) is not None]
        if want is False and ts and hasattr(a.models_list[0], 'read_points'):
            t = rng.choice(ts)
            v, data = rig.value_for(rng, t)
            if data != t.raw() and not (t.p.type == 'string' and not v) and t.p.type != 'float32':
                t.point.value = v
                judge(ctx, a, b, True, 'devices after assigning %r to %s' % (v, t.p.id))
                t.model.read_points()
                judge(ctx, a, b, False, 'devices after reading again')
                ctx.count('assignments')
        ctx.seen(img.bytes(), other.bytes())
        ctx.note(models=[(m.id, m.nrep) for m in img.models], other=[(m.id, m.nrep) for m in other.models], different=want)


def crosswise(ctx, a, b, img, other):
    """Any model, block or point against any other, of the same device or of the other one."""
    rng = ctx.rng
    points, blocks, models = [], [], []
    for d, im in ((a, img), (b, other)):
        for m, mi in zip(d.models_list, im.models):
            if mi.md is None:
                models.append((m, (m.id, None)))
                continue
            vals = {k: (raw, sf) for k, (addr, raw, sf, val) in mi.expected().items() if not is_sf(mi, k)}
            models.append((m, (m.id, mkey(mi.md), mi.nrep, vals)))
            for blk in m.blocks:
                bt = mi.md.fixed if blk.index == 0 else mi.md.rep
                bv = {k[1]: x for k, x in vals.items() if k[0] == blk.index}
                blocks.append((blk, (bkey(bt), bv)))
                for pid in rng.sample(sorted(bv), min(2, len(bv))):
                    points.append((blk.points[pid], (pkey(next(p for p in bt.points if p.id == pid)), bv[pid])))
    for what, items in (('models', models), ('blocks', blocks), ('points', points)):
        if len(items) < 2:
            continue
        for _ in range(4):
            (x, kx), (y, ky) = rng.choice(items), rng.choice(items)
            judge(ctx, x, y, None if kx != ky and plain(kx) == plain(ky) else kx != ky, 'any two ' + what)
            ctx.count('cross_' + what)


def plain(k):
    """A comparison key with no scale factor and scale factor 0 alike."""
    if isinstance(k, dict):
        return {i: (r, s or 0) for i, (r, s) in k.items()}
    if isinstance(k, tuple):
        if len(k) == 2 and isinstance(k[1], (int, type(None))) and not isinstance(k[0], (int, tuple)):
            return (k[0], k[1] or 0)
        return tuple(plain(x) for x in k)
    return k


def bkey(b):
    return (b.kind, b.len, b.name or b.kind, tuple(repr(pkey(p)) for p in sorted(b.points, key=lambda p: p.id)))


def mkey(md):
    return repr((md.id, md.name, md.label, md.desc, md.notes, md.len, bkey(md.fixed), md.rep and bkey(md.rep)))


# --- definitions -----------------------------------------------------------

def mutate(rng, md):
    """Change one attribute of a definition; returns what, or None if nothing changed."""
    k = rng.choice(['model', 'block', 'point', 'point', 'point', 'symbol', 'symbol', 'structure', 'structure'])
    blocks = [b for b in (md.fixed, md.rep) if b]
    b = rng.choice(blocks)
    if k == 'model':
        a = rng.choice(['name', 'label', 'desc', 'notes'])
        setattr(md, a, 'other %s' % a)
        return 'model ' + a
    if k == 'block':
        if rng.random() < .5:
            b.name = 'othername'
            return 'block name'
        b.len += 1
        return 'block length'
    pts = [p for p in b.points if p.type != 'pad']
    if not pts:
        return None
    p = rng.choice(pts)
    if k == 'symbol':
        c = [p for p in pts if p.symbols]
        if c:
            p = rng.choice(c)
            s = rng.choice(p.symbols)
            a = rng.choice(['id', 'value', 'label', 'desc', 'notes', 'drop', 'add'])
            if a == 'drop':
                p.symbols.remove(s)
            elif a == 'add':
                p.symbols.append({'id': 'EXTRA', 'value': '30'})
            else:
                s[a] = '77' if a == 'value' else 'other_' + a
            return 'symbol ' + a
        k = 'point'
    if k == 'point':
        a = rng.choice(['id', 'units', 'mandatory', 'access', 'sf', 'label', 'desc', 'notes', 'type'])
        if a == 'mandatory':
            p.mandatory = not p.mandatory
        elif a == 'access':
            p.access = 'r' if p.access == 'rw' else 'rw'
        elif a == 'type':
            same = [t for t, n in ref.REGS.items() if n == p.regs and t != p.type and t != 'pad' and t != 'sunssf']
            if p.type == 'sunssf' or not same:
                return None
            p.type = rng.choice(same)
        elif a == 'sf':
            if p.type == 'sunssf':
                return None
            p.sf = '11' if p.sf != '11' else None
        elif a == 'id':
            p.id = 'otherid'
        else:
            setattr(p, a, 'other %s' % a)
        return 'point ' + a
    # structure
    a = rng.choice(['addpoint', 'droppoint', 'swap', 'rep', 'stringlen', 'offset', 'pad'])
    if a == 'addpoint':
        b.points.append(ref.PT('Added', 'uint16', 1, b.len))
        b.len += 1
    elif a == 'droppoint':
        b.points.remove(p)
    elif a == 'swap':
        if len(pts) < 2:
            return None
        x, y = rng.sample(pts, 2)
        x.id, y.id = y.id, x.id
        x.label, y.label, x.desc, y.desc, x.notes, y.notes = y.label, x.label, y.desc, x.desc, y.notes, x.notes
        if (x.type, x.regs) == (y.type, y.regs):
            return 'swap of equal types'
    elif a == 'rep':
        if md.rep:
            md.rep = None
        else:
            md.rep = ref.BT('repeating', [ref.PT('RP', 'int16', 1, 0)], 1)
    elif a == 'stringlen':
        c = [p for p in pts if p.type == 'string']
        if not c:
            return None
        rng.choice(c).regs += 1
    elif a == 'offset':
        p.offset += 1
    elif a == 'pad':
        b.points.append(ref.PT('PadX', 'pad', 1, b.len))
        b.len += 1
    return 'structure ' + a


def distinct_ids(md):
    """Texts refer to points by id alone: no id in both blocks."""
    if md.rep:
        taken = {p.id for p in md.fixed.points}
        for p in md.rep.points:
            if p.id in taken:
                old, p.id = p.id, 'R' + p.id
                for q in md.rep.points:
                    if q.sf == old:
                        q.sf = p.id


def parse(text):
    mt = device.ModelType()
    mt.from_smdx(ET.fromstring(text))
    return mt


def def_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        md = ref.rand_md(rng, rig.fresh_id(), name=rng.choice([None, 'thename']))
        distinct_ids(md)
        ref.rand_symbols(rng, md)
        if rng.random() < .1:
            # blocks that differ only in what they are
            pts = [ref.PT('P%d' % k, rng.choice(['uint16', 'int16', 'enum16']), 1, k) for k in range(rng.randint(1, 3))]
            mt = parse(ref.smdx(ref.MD(md.id, ref.BT('fixed', pts, len(pts), 'same'), ref.BT('repeating', copy.deepcopy(pts), len(pts), 'same'))))
            judge(ctx, mt.fixed_block, mt.repeating_block, True, 'a fixed and a repeating block type')
            ctx.count('block_kinds')
        if rng.random() < .1:
            # definitions that differ only in the model they define
            t1, t2 = copy.deepcopy(md), copy.deepcopy(md)
            t2.id = rig.fresh_id()
            t1.name = t2.name = 'twins'
            judge(ctx, parse(ref.smdx(t1)), parse(ref.smdx(t2)), True, 'definitions of two models')
            ctx.count('model_ids')
        other = copy.deepcopy(md)
        a, a2 = parse(ref.smdx(md)), parse(ref.smdx(md, explicit=True))
        judge(ctx, a, a2, False, 'the same definition with defaults spelled out')
        what = mutate(rng, other)
        if what is None or ref.smdx(other) == ref.smdx(md):
            return
        text = ref.smdx(other)
        if what == 'structure rep' and rng.random() < .7:
            # the declared length does not tell them apart
            text = text.replace(' len="%d"' % other.len, ' len="%d"' % md.len, 1)
        b = parse(text)
        if ref_equal(md, other):
            ctx.count('no_change')
            return
        judge(ctx, a, b, True, 'definitions differing in %s' % what)
        r, s = verdict(ctx, a, None, 'definition against nothing')
        ctx.check(r, 'definition equals nothing', 'missed')
        for x, y, mx, my in ((a.fixed_block, b.fixed_block, md.fixed, other.fixed), (a.repeating_block, b.repeating_block, md.rep, other.rep)):
            if x is not None and y is not None:
                judge(ctx, x, y, not block_equal(mx, my), 'block types, definitions differing in %s' % what)
                names = sorted(set(x.points) & set(y.points))
                for pid in rng.sample(names, min(5, len(names))):
                    px = next(p for p in mx.points if p.id == pid)
                    py = next(p for p in my.points if p.id == pid)
                    judge(ctx, x.points[pid], y.points[pid], pkey(px) != pkey(py), 'point types %s, definitions differing in %s' % (pid, what))
        ctx.count('def_' + what.split()[0])
        if what == 'structure rep':
            ctx.count('def_rep')
        # the same difference between devices
        if what.split()[0] in ('model', 'symbol') or what in ('block name', 'point units', 'point mandatory', 'point access', 'point label',
                                                              'point desc', 'point notes'):
            m1 = ref.ModelImage(md, 1 if md.rep else 0)
            img = ref.DeviceImage(40000, [m1])
            m1.randomize(rng)
            w.define(md)
            d1 = build(ctx, w, img, 40000)
            same = build(ctx, w, img, 40000)
            rig.clear_caches_light()
            w.define(other)
            m1.md = other
            d2 = build(ctx, w, img, 40000)
            judge(ctx, d1, same, False, 'devices with one definition')
            judge(ctx, d1, d2, True, 'devices whose definitions differ in %s' % what)
            ctx.count('device_definitions')
        ctx.seen(ref.smdx(md), ref.smdx(other))
        ctx.note(model=md.id, difference=what)


def pkey(p):
    return (p.id, p.type, p.regs, p.offset, p.access, bool(p.mandatory), p.sf, p.units, p.label, p.desc, p.notes,
            [(s['id'], s['value'], s.get('label'), s.get('desc'), s.get('notes')) for s in p.symbols])


def block_equal(a, b):
    return (a.kind, a.len, a.name or a.kind) == (b.kind, b.len, b.name or b.kind) and \
        [pkey(p) for p in sorted(a.points, key=lambda p: p.id)] == [pkey(p) for p in sorted(b.points, key=lambda p: p.id)]


def ref_equal(a, b):
    if (a.name or 'model_%d' % a.id, a.label, a.desc, a.notes, a.len) != (b.name or 'model_%d' % b.id, b.label, b.desc, b.notes, b.len):
        return False
    if bool(a.rep) != bool(b.rep):
        return False
    return block_equal(a.fixed, b.fixed) and (not a.rep or block_equal(a.rep, b.rep))


KINDS = {
    'pair': (pair_case, 1200, 16000),
    'def': (def_case, 1500, 20000),
}
MIN = {'block_kinds': 50, 'model_ids': 50, 'compared_again': 5000, 'cross_models': 1000, 'cross_blocks': 1000, 'cross_points': 1000, 'verdicts': 20000, 'equal': 3000, 'different': 2000, 'value_changes': 400, 'model_changes': 150, 'assignments': 150,
       'device_definitions': 200, 'def_point': 200, 'def_symbol': 100, 'def_structure': 150, 'def_block': 80, 'def_model': 80}

"""C13: PICS documents: devices saved and loaded, documents applied, malformed documents refused."""
import copy
import os
import xml.etree.ElementTree as ET

from .. import ref, rig
from ..env import client, device, util

ID = 'C13'
LEVEL = 'exploration'
TECH = 'save/load round-trip monitor plus a reference reading of PICS documents, compared point by point'
RULE = ('Random devices (several instances, repeating blocks, scale factors everywhere, unimplemented points, assigned values, models '
        'without a definition) are read, saved with all or one repeating block and loaded from file, path list or element; documents '
        'written by an independent writer (base address, instance numbers, partial blocks, single repeating block, omitted lengths) are '
        'loaded; every point\'s address, raw value, scale factor, value and implementation status is compared. Malformed documents must '
        'end in a library error. Distinct by document.')
ASSUMPTIONS = ['text is printable', 'points saved either have a value or are unimplemented', 'the fixed block comes first in a document']


def clean(img):
    """Registers no point covers play no role here."""
    return img


def load(rng, dir, text, element=None):
    d = device.Device() if rng.random() < .7 else device.Device(addr=rng.choice([None, 0, 1, 50000]))
    how = rng.choice(['file', 'element', 'pathlist', 'global'])
    if how == 'element':
        root = ET.fromstring(text)
        d.from_pics(root.find('device'))
        return d
    name = 'pics%d.xml' % rng.randint(0, 9999)
    with open(os.path.join(dir, name), 'w', encoding='utf-8') as f:
        f.write(text)
    if how == 'pathlist':
        d.from_pics(filename=name, pathlist=util.PathList(['/nonexistent', dir]))
    elif how == 'global':
        d.from_pics(filename=name)                     # the definition path list of the case holds it
    else:
        d.from_pics(filename=os.path.join(dir, name))
    return d


def compare(ctx, d, img, what, doc, skip=()):
    got = [(m.id, m.index, m.len) for m in d.models_list]
    seen = {}
    want = []
    for mi in img.models:
        seen[mi.id] = seen.get(mi.id, 0) + 1
        want.append((mi.id, getattr(mi, 'index', None) or seen[mi.id], mi.len))
    ctx.eq(got, want, '%s: models, instance numbers and lengths' % what, 'models', doc=doc)
    for m, mi in zip(d.models_list, img.models):
        ctx.check(any(m is x for x in d.models.get(mi.id, [])), '%s: model missing in the index by id' % what, 'models')
        if mi.md is None:
            ctx.check(bool(m.load_error) and not m.blocks, '%s: model without a definition' % what, 'unknown')
            continue
        ctx.check(not m.load_error, '%s: %s' % (what, m.load_error), 'load-error', doc=doc)
        ctx.eq(len(m.blocks), 1 + mi.nrep, '%s: blocks' % what, 'blocks', doc=doc)
        rig.verify_model(ctx, m, mi, what + ': ')
        for (bi, pid), (addr, raw, sf, val) in mi.expected().items():
            p = rig.find_points(m)[bi, pid]
            impl = raw is not None or (mi, bi, pid) in skip
            ctx.check(bool(p.impl) == impl, '%s: implementation status of %s in block %d is %s' % (what, pid, bi, p.impl), 'impl', doc=doc)
            psf = p.point_type.sf
            if psf is not None and raw is not None:
                ctx.eq(p.value_sf, sf, '%s: scale factor of %s in block %d' % (what, pid, bi), 'sf', doc=doc)
            ctx.count('impl_checked')


def make_image(ctx, w, base=40000):
    img = rig.rand_device(w, base=base, punimpl=.2, slack=100)
    if ctx.rng.random() < .25:
        m = ref.ModelImage(None, 0, ctx.rng.randint(1, 30), id=60000 + ctx.rng.randint(0, 5000))
        m.randomize(ctx.rng)
        k = ctx.rng.randint(0, len(img.models))
        img = ref.DeviceImage(base, img.models[:k] + [m] + img.models[k:], img.end_len)
        ctx.count('unknown_models')
    return img


def render(rng, d, single):
    root = ET.Element('sunSpecPics', {'v': '1'})
    if single is None:
        d.to_pics(root)
    else:
        d.to_pics(root, single_repeating=single)
    if rng.random() < .3:
        util.indent(root)
    return ET.tostring(root, encoding='unicode')


def plain(e):
    return (e.tag, dict(e.attrib), (e.text or '').strip() if not len(e) else None, [plain(c) for c in e])


def by_models(ctx, d, single):
    """A model saves itself as it does within its device."""
    root = ET.Element('sunSpecPics', {'v': '1'})
    d.to_pics(root, single_repeating=single)
    for m, e in zip(d.models_list, root[0]):
        parent = ET.Element('device')
        if single and ctx.rng.random() < .5:
            m.to_pics(parent)
        else:
            m.to_pics(parent, single)
        ctx.eq([plain(x) for x in parent], [plain(e)], 'model %s saved by itself (single repeating block %s)' % (m.id, single), 'model')
        ctx.count('models_saved')


def round_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = make_image(ctx, w)
        r = w.attach(img, 'MAPPED')
        d = r.client()
        d.scan()
        for m in d.models_list:
            if not m.load_error:
                m.read_points()
        pairs = list(zip(d.models_list, img.models))
        if rng.random() < .2:
            # white space is part of a string
            for t in rig.targets(pairs, ('r', 'rw')):
                if t.p.type == 'string' and t.p.regs > 1:
                    v = ''.join(rng.choice('ab\t\n  ') for _ in range(rng.randint(1, 2 * t.p.regs)))
                    t.point.value = v
                    t.mi.put(t.addr, v.encode().ljust(2 * t.p.regs, b'\0'))
                    ctx.count('white_space')
        if rng.random() < .4:
            # assigned values are saved like read ones
            for t in rig.targets(pairs, ('r', 'rw')):
                if rng.random() < .3:
                    v, data = rig.value_for(rng, t)
                    if data == ref.unimpl(t.p.type, t.p.regs) or t.p.type == 'string' and not v:
                        continue
                    if t.p.type == 'float32':
                        v = ref.decode('float32', data)         # what is saved is the assigned value, rounded or not
                    t.point.value = v
                    t.mi.put(t.addr, data)
                    ctx.count('assigned')
        before = snapshot(d)
        text = render(rng, d, False)
        if rng.random() < .3:
            by_models(ctx, d, rng.random() < .6)
        ctx.check(snapshot(d) == before, 'saving changed the device', 'changed')
        document(ctx, text, img, False, 'saved document')
        d2 = load(rng, w.store.dir, text)
        compare(ctx, d2, img, 'loaded device', text)
        for a, b in ((d, d2), (d2, d)):
            s = a.not_equal(b)
            ctx.check(not s, 'the loaded device is reported as different: %s' % s, 'not-equal', doc=text)
        # a second generation
        text2 = render(rng, d2, False)
        d3 = load(rng, w.store.dir, text2)
        compare(ctx, d3, img, 'twice loaded device', text2)
        ctx.count('round_trips')
        if rng.random() < .35:
            # the device changes and is saved again
            for m, mi in zip(d.models_list, img.models):
                if mi.md is not None and not m.load_error and mi.data:
                    if rng.random() < .8:
                        mi.randomize(rng, .3)
                    d.write(mi.addr, bytes(mi.data))
                    m.read_points()
            text = render(rng, d, False)
            document(ctx, text, img, False, 'document saved again')
            compare(ctx, load(rng, w.store.dir, text), img, 'device loaded from the document saved again', text)
            ctx.count('saved_again')
        # one repeating block stands for all
        one = render(rng, d, rng.choice([True, None]))
        document(ctx, one, img, True, 'document with a single repeating block')
        for mi in img.models:
            if mi.md is not None and mi.nrep > 1:
                o = 2 * mi.md.fixed.len
                n = 2 * mi.md.rep.len
                for k in range(1, mi.nrep):
                    mi.data[o + k * n:o + (k + 1) * n] = mi.data[o:o + n]
                ctx.count('single_repeating')
        d4 = load(rng, w.store.dir, one)
        compare(ctx, d4, img, 'device loaded with a single repeating block', one)
        ctx.seen(text)
        ctx.note(models=[(m.id, m.nrep) for m in img.models], document=text[:300])


def document(ctx, text, img, single, what):
    """A saved document read by itself: every model, block and point with its value, status and access."""
    root = ET.fromstring(text)
    ctx.eq((root.tag, root.get('v'), [x.tag for x in root]), ('sunSpecPics', '1', ['device']), '%s: elements' % what, 'document', doc=text)
    got, seen, want = [], {}, []
    for me in root[0]:
        got.append((me.tag, int(me.get('id')), int(me.get('len')), int(me.get('index', 1)),
                    [(be.tag, be.get('type', 'fixed'), int(be.get('index', 1))) for be in me]))
    for mi in img.models:
        seen[mi.id] = seen.get(mi.id, 0) + 1
        n = 0 if mi.md is None else 1 + (min(mi.nrep, 1) if single else mi.nrep)
        want.append(('model', mi.id, mi.len, seen[mi.id], [('block', 'fixed' if b == 0 else 'repeating', max(b, 1)) for b in range(n)]))
    ctx.eq(got, want, '%s: models and blocks' % what, 'document', doc=text)
    for me, mi in zip(root[0], img.models):
        if mi.md is None:
            continue
        exp = mi.expected()
        for bi, (be, bt) in enumerate(zip(me, mi.md.blocks(mi.nrep))):
            pts = [p for p in bt.points if p.type != 'pad']
            ctx.eq([pe.get('id') for pe in be], [p.id for p in pts], '%s: points of block %d of model %d' % (what, bi, mi.id), 'document', doc=text)
            for pe, p in zip(be, pts):
                raw = exp[bi, p.id][1]
                where = '%s: %s of block %d of model %d' % (what, p.id, bi, mi.id)
                if p.type == 'string' and not raw:
                    continue
                ctx.eq(pe.get('impl', 'true'), 'true' if raw is not None else 'false', where + ': implementation status', 'document', doc=text)
                if raw is None:
                    ctx.count('unimplemented_written')
                    continue
                ctx.eq(pe.get('access', 'r'), p.access or 'r', where + ': access', 'document', doc=text)
                t = pe.text
                v = int(t) if isinstance(raw, int) else float(t) if isinstance(raw, float) else t
                ctx.check(ref.same_value(v, raw), '%s: written as %r instead of %r' % (where, t, raw), 'document', doc=text)
                ctx.count('points_written')


def snapshot(d):
    return [(m.id, m.index, m.len, m.addr, [(b.index, [(p.point_type.id, p.value_base, p.value_sf, p.impl, p.dirty) for p in b.points_list],
                                            [(k, v.value_base) for k, v in b.points_sf.items()]) for b in m.blocks]) for m in d.models_list]


def text_of(rng, p, raw):
    if p.type in ref.INT and isinstance(raw, int):
        if raw >= 0 and rng.random() < .2:
            return '0x%x' % raw
        return str(raw)
    return str(raw) if isinstance(raw, str) else repr(raw)


def doc_case(ctx):
    """Documents from an independent writer."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        base = rng.choice([None, 40000, 0, 50000, rng.randint(1, 50000)])
        img = make_image(ctx, w, base=40000 if base is None else base)
        root = ET.Element('sunSpecPics', {'v': '1'})
        dv = ET.SubElement(root, 'device', {} if base is None else {'addr': str(base)})
        valueless = set()
        for mi in img.models:
            a = {'id': str(mi.id)}
            if not (mi.md and mi.nrep == (1 if mi.md.rep else 0) and mi.len == mi.md.len and rng.random() < .3):
                a['len'] = str(mi.len)
            else:
                ctx.count('implied_lengths')
            if rng.random() < .3:
                mi.index = rng.randint(1, 9)
                a['index'] = str(mi.index)
            me = ET.SubElement(dv, 'model', a)
            if mi.md is None:
                continue
            blocks = mi.blocks()
            single = mi.nrep > 0 and rng.random() < .4
            if single:
                n = 2 * mi.md.rep.len
                o = 2 * mi.md.fixed.len
                for k in range(1, mi.nrep):
                    mi.data[o + k * n:o + (k + 1) * n] = mi.data[o:o + n]
                ctx.count('single_repeating')
            order = blocks[:2] if single else [blocks[0]] + rng.sample(blocks[1:], len(blocks) - 1)
            for b, i, addr, ln in order:
                ba = {}
                if b.kind == 'repeating':
                    ba['type'] = 'repeating'
                    if not single:
                        ba['index'] = str(i)
                elif rng.random() < .3:
                    ba['type'] = 'fixed'
                be = ET.SubElement(me, 'block', ba)
                pts = [p for p in b.points if p.type != 'pad']
                if rng.random() < .3:
                    rng.shuffle(pts)
                for p in pts:
                    raw = ref.decode(p.type, mi.raw(addr + p.offset, p.regs))
                    pa = {'id': p.id}
                    text = None
                    if raw is None:
                        if (p.type in ref.INT or p.type == 'float32') and rng.random() < .25:
                            # spelled out: the number that means not implemented
                            v = ref.INT[p.type][2] if p.type in ref.INT else None
                            text = 'nan' if v is None else rng.choice([str(v), str(v), hex(v) if v >= 0 else '-' + hex(-v)])
                            if rng.random() < .3:
                                pa['impl'] = 'true'
                            ctx.count('unimplemented_spelled')
                        elif p.type == 'sunssf' or rng.random() < .8:
                            pa['impl'] = 'false'
                            if rng.random() < .2 and p.type == 'int16':
                                text = '5'
                        else:
                            # implemented, value unknown
                            for x in ([bl[1] for bl in blocks[1:]] if single and i else [i]):
                                valueless.add((mi, x, p.id))
                            if rng.random() < .5:
                                continue
                    else:
                        text = text_of(rng, p, raw)
                        if rng.random() < .3:
                            pa['impl'] = 'true'
                    if p.access == 'rw' and rng.random() < .7:
                        pa['access'] = 'rw'
                    pe = ET.SubElement(be, 'point', pa)
                    pe.text = text
                if rng.random() < .1:
                    ET.SubElement(be, 'point', {'id': 'NoSuchPoint'}).text = '1'
        text = ET.tostring(root, encoding='unicode')
        d = load(rng, w.store.dir, text)
        ctx.eq(int(d.base_addr), 40000 if base is None else base, 'base address', 'base', doc=text)
        ctx.eq([int(m.addr) for m in d.models_list], [m.addr for m in img.models], 'model addresses', 'address', doc=text)
        compare(ctx, d, img, 'document', text, skip=valueless)
        ctx.count('documents')
        ctx.count('valueless', len(valueless))
        ctx.seen(text)
        ctx.note(document=text[:300])


def mixed_case(ctx):
    """Blocks with and without index, also several times, in one model: applied in document order, the last one wins."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = make_image(ctx, w)
        cand = [i for i, m in enumerate(img.models) if m.md and any(p.type not in ('pad', 'sunssf') for b in m.md.blocks(m.nrep) for p in b.points)]
        if not cand:
            return
        cand = [i for i in cand if img.models[i].nrep > 1] or cand
        d = w.attach(img, 'MAPPED').client()
        d.scan()
        for m in d.models_list:
            if not m.load_error:
                m.read_points()
        root = ET.fromstring(render(rng, d, False))
        for i in rng.sample(cand, min(len(cand), 2)):
            mi, me = img.models[i], root[0].findall('model')[i]
            blocks = mi.blocks()
            for _ in range(rng.randint(1, 5)):
                targets = rng.choice([blocks[1:], [rng.choice(blocks)], [rng.choice(blocks)]]) or blocks[:1]
                b = targets[0][0]
                pts = [p for p in b.points if p.type not in ('pad', 'sunssf')]
                if not pts:
                    continue
                ba = {}
                if b.kind == 'repeating':
                    ba['type'] = 'repeating'
                    if targets != blocks[1:] or len(targets) == 1 and rng.random() < .5:
                        ba['index'] = str(targets[0][1])
                    else:
                        ctx.count('for_all')
                be = ET.SubElement(me, 'block', ba)
                for p in rng.sample(pts, rng.randint(1, len(pts))):
                    if rng.random() < .2:
                        data = ref.unimpl(p.type, p.regs)
                        ET.SubElement(be, 'point', {'id': p.id, 'impl': 'false'})
                    else:
                        v = ref.rand_value(rng, p.type, p.regs)
                        data = ref.encode(p.type, v, p.regs)
                        raw = ref.decode(p.type, data)
                        if raw is None or isinstance(raw, str) and (not raw.strip() or raw != raw.strip()):
                            continue
                        ET.SubElement(be, 'point', {'id': p.id}).text = text_of(rng, p, raw)
                    for _, k, addr, _ in targets:
                        mi.put(addr + p.offset, data)
                    ctx.count('mixed_points')
        text = ET.tostring(root, encoding='unicode')
        compare(ctx, load(rng, w.store.dir, text), img, 'document with several blocks for one', text)
        ctx.seen(text)


def bad_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        img = make_image(ctx, w)
        known = [i for i, m in enumerate(img.models) if m.md]
        if not known:
            return
        r = w.attach(img, 'MAPPED')
        d = r.client()
        d.scan()
        for m in d.models_list:
            if not m.load_error:
                m.read_points()
        text = render(rng, d, False)
        root = ET.fromstring(text)
        dv = root.find('device')
        models = dv.findall('model')
        i = rng.choice(known)
        m = models[i]
        kind = rng.choice(['xml', 'xml', 'root', 'device', 'modeltag', 'blocktag', 'pointtag', 'noid', 'id', 'len', 'addr', 'index', 'blocktype', 'range', 'value', 'value', 'value', 'value', 'missing'])
        if kind == 'root':
            root.tag = rng.choice(['sunSpecData', 'device', 'mbmap'])
        elif kind == 'device':
            dv.tag = rng.choice(['dev', 'model'])
        elif kind == 'modeltag':
            m.tag = rng.choice(['mod', 'block', 'Model'])
        elif kind == 'blocktag':
            m.find('block').tag = rng.choice(['blk', 'point'])
        elif kind == 'pointtag':
            ET.SubElement(m.find('block'), rng.choice(['pt', 'block']), {'id': 'x'})
        elif kind == 'noid':
            del m.attrib['id']
        elif kind == 'id':
            m.set('id', rng.choice(['x', '1.5', '']))
        elif kind == 'len':
            m.set('len', rng.choice(['x', '1.5', '']))
        elif kind == 'addr':
            dv.set('addr', rng.choice(['x', '0x', '', '4e4']))
        elif kind == 'index':
            m.set('index', rng.choice(['x', '', '1.5']))
        elif kind == 'blocktype':
            m.find('block').set('type', rng.choice(['rep', 'Fixed', '']))
        elif kind == 'range':
            nb = img.models[i].nrep
            ET.SubElement(m, 'block', {'type': 'repeating', 'index': str(rng.choice([nb + 1, nb + 2, nb + 50, 0, -1, -nb - 1]))})
        elif kind == 'value':
            mi = img.models[i]
            cand = [p for p in mi.md.fixed.points if p.type in ref.INT and p.type != 'pad']
            # the wide types are converted in their own way
            cand = rng.random() < .6 and [p for p in cand if p.regs > 1] or cand
            if not cand:
                kind = 'missing'
            else:
                p = rng.choice(cand)
                ET.SubElement(m.find('block'), 'point', {'id': p.id}).text = rng.choice(['abc', '1.5', '0xzz', '1 2'])
        bad = ET.tostring(root, encoding='unicode')
        if kind == 'xml':
            bad = rng.choice(['', text[:-5], text.replace('<device', '<device <', 1), 'no xml', text + '<x/>'])
        if kind == 'missing':
            tries = [lambda: device.Device().from_pics(filename=os.path.join(w.store.dir, 'absent.xml')),
                     lambda: device.Device().from_pics(filename='absent.xml', pathlist=util.PathList([w.store.dir]))]
        else:
            p = os.path.join(w.store.dir, 'bad.xml')
            with open(p, 'w', encoding='utf-8') as f:
                f.write(bad)
            tries = [lambda: device.Device().from_pics(filename=p), lambda: device.Device().from_pics(filename='bad.xml', pathlist=util.PathList([w.store.dir]))]
            if kind not in ('xml', 'root'):
                tries.append(lambda: device.Device().from_pics(root[0]))
        for t in tries:
            try:
                t()
                ctx.fail('a malformed document (%s) was accepted' % kind, 'accepted', doc=bad)
            except util.SunSpecError:
                ctx.count('refused')
                ctx.count('refused_' + kind)
        compare(ctx, load(rng, w.store.dir, text), img, 'the document without the fault', text)
        ctx.seen(bad)


KINDS = {
    'round': (round_case, 900, 12000),
    'doc': (doc_case, 1200, 16000),
    'mixed': (mixed_case, 500, 6000),
    'bad': (bad_case, 600, 8000),
}
MIN = {'white_space': 300, 'saved_again': 200, 'models_saved': 500, 'unimplemented_spelled': 500, 'points_written': 50000, 'unimplemented_written': 10000, 'mixed_points': 2000, 'for_all': 150, 'round_trips': 800, 'documents': 1000, 'refused': 900, 'single_repeating': 300, 'valueless': 200, 'unknown_models': 200,
       'assigned': 500, 'implied_lengths': 100, 'unimplemented_seen': 2000, 'scaled_seen': 2000}

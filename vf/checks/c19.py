"""C19: model definitions parsed from SMDX documents."""
import copy
import os
import xml.etree.ElementTree as ET

from .. import ref, rig
from ..env import client, device, util

ID = 'C19'
LEVEL = 'exploration'
TECH = 'attribute-by-attribute oracle on parsed definitions, and rejection monitor over single violations'
RULE = ('Random definitions (all point types, both blocks or one, every optional attribute present or absent, symbols, texts for model, '
        'points and symbols, any text) are rendered, rearranged without changing their meaning (attribute order, layout, comments, foreign '
        'attributes and elements, texts of other models), parsed directly or loaded by model id, and compared in full. The same documents '
        'with one violation must be rejected, and accepted again without it. Distinct by document.')
ASSUMPTIONS = ['texts refer to points by id alone: an id used in both blocks has no texts', 'lengths and offsets are consistent']


def check_type(ctx, mt, md, what):
    def eq(got, want, name):
        ctx.eq(got, want, '%s: %s' % (what, name), name.split()[0])
    eq(mt.id, md.id, 'id')
    eq(mt.len, md.len_attr, 'len')
    eq(mt.name, md.name or 'model_%d' % md.id, 'name')
    eq(mt.label, md.label, 'label')
    eq(mt.description, md.desc, 'description')
    eq(mt.notes, md.notes, 'notes')
    ctx.check(mt.fixed_block is not None, what + ': no fixed block', 'block')
    if md.no_fixed:
        eq((mt.fixed_block.type, int(mt.fixed_block.len), len(mt.fixed_block.points)), ('fixed', 0, 0), 'absent fixed block')
        ctx.count('no_fixed')
    ctx.eq(mt.repeating_block is not None, md.rep is not None, what + ': repeating block present', 'block')
    for b, bt in ((None if md.no_fixed else md.fixed, mt.fixed_block), (md.rep, mt.repeating_block)):
        if b is None:
            continue
        eq(bt.type, b.kind, 'block type')
        eq(int(bt.len), b.len, 'block length')
        eq(bt.name, b.name or b.kind, 'block name')
        eq([p.id for p in bt.points_list], [p.id for p in b.points], 'points of the %s block' % b.kind)
        eq(sorted(bt.points), sorted(p.id for p in b.points), 'points by id')
        for p, pt in zip(b.points, bt.points_list):
            ctx.check(bt.points[p.id] is pt, what + ': list and dictionary differ', 'points')
            w = '%s of the %s block ' % (p.id, b.kind)
            for name, got, want in (('type', pt.type, p.type), ('offset', pt.offset, p.offset), ('len', pt.len, p.regs), ('access', pt.access, p.access),
                                    ('mandatory', pt.mandatory, 'true' if p.mandatory else 'false'), ('units', pt.units, p.units), ('sf', pt.sf, p.sf),
                                    ('label', pt.label, p.label), ('description', pt.description, p.desc), ('notes', pt.notes, p.notes)):
                ctx.eq(got, want, '%s: %s of %s' % (what, name, w), 'point-' + name)
            got = [(s.id, s.value, s.label, s.description, s.notes) for s in pt.symbols]
            want = [(s['id'], s['value'], s.get('label'), s.get('desc'), s.get('notes')) for s in p.symbols]
            ctx.eq(got, want, '%s: symbols of %s' % (what, w), 'symbols')
            for q in pt.symbols:
                ctx.check(pt.symbol_get(q.id) is q and (md.both or mt.symbol_get(q.id, p.id) is q), '%s: symbol %s of %s is not found' % (what, q.id, w), 'symbols')
            for q in ('', 'NoSuch', None, p.id):
                if q not in [x.id for x in pt.symbols]:
                    ctx.check(pt.symbol_get(q) is None and (md.both or mt.symbol_get(q, p.id) is None), '%s: %s has a symbol %r' % (what, w, q), 'symbols')
            for f in (pt.is_impl, pt.data_to, pt.to_data, pt.to_value):
                ctx.check(callable(f), what + ': conversion missing for ' + w, 'conversion')
            ctx.count('points')
            ctx.count('symbols', len(want))
            ctx.count('many_symbols', int(len(want) > 20))
            ctx.count('type_' + p.type)


def text(rng):
    if rng.random() < .03:
        return 'long text ' * rng.choice([30, 110, 700])
    return rng.choice(['Plain label', 'a < b & "c"', '\u00e9\u4e2d \u20ac', 'x', 'multi\nline text', '  spaced  ']) if rng.random() < .7 else ref.rand_text(rng, rng.randint(1, 60))


def rand_definition(rng):
    md = ref.rand_md(rng, rng.choice([1, 2, 101, 64001, 65534, rng.randint(1, 65534)]), name=rng.choice([None, 'thename', 'Model_x']),
                     size=rng.choice([1, 6, 20, 60] if rng.random() < .93 else [300, 600]))
    md.no_fixed = False
    for b in (md.fixed, md.rep):
        if b is None:
            continue
        # explicit lengths, also for types that have one of their own
        for p in b.points:
            p.explicit_len = rng.random() < .2
        if rng.random() < .4:
            p = ref.PT('LongPad' + b.kind[0], 'pad', rng.randint(2, 9), b.len)
            p.explicit_len = True
            b.points.append(p)
            b.len += p.regs
    for b in (md.fixed, md.rep):
        if b is None:
            continue
        if rng.random() < .3:
            b.name = rng.choice(['blk', 'String', 'x y'])
        for p in b.points:
            if p.type != 'sunssf' and p.type != 'pad':
                p.units = rng.choice([None, 'A', '% Max', '\u00b0C', 'cos()'])
            if p.type in ('enum16', 'enum32', 'bitfield16', 'bitfield32', 'uint16') and rng.random() < .7:
                n = rng.randint(1, 5) if rng.random() < .97 else rng.randint(30, 100)
                for k in range(n):
                    p.symbols.append({'id': rng.choice(['S%d', 'OPT_%d', 'ON%d']) % k if not k or rng.random() < .8 else p.symbols[0]['id'].lower() + rng.choice(['', str(k)]), 'value': rng.choice([str(k), str(1 << k), '0x%x' % k])})
                p.symbols = list({s['id']: s for s in p.symbols}.values())
    if md.rep and rng.random() < .25 and not any(p.type == 'sunssf' for p in md.fixed.points):
        md.no_fixed = True
    # the same id in both blocks
    both = set()
    if md.rep:
        if md.fixed.points and not md.no_fixed and md.rep.points and rng.random() < .3:
            p, q = rng.choice(md.fixed.points), rng.choice(md.rep.points)
            if 'sunssf' not in (p.type, q.type) and 'pad' not in (p.type, q.type):
                q.id = p.id
        both = {p.id for p in md.fixed.points} & {p.id for p in md.rep.points}
    for b in (md.fixed, md.rep):
        if b is None:
            continue
        for p in b.points:
            if p.id in both or p.type == 'pad':
                continue
            for a in ('label', 'desc', 'notes'):
                if rng.random() < .5:
                    setattr(p, a, text(rng))
            for s in p.symbols:
                for a in ('label', 'desc', 'notes'):
                    if rng.random() < .4:
                        s[a] = text(rng)
    for a in ('label', 'desc', 'notes'):
        if rng.random() < .6:
            setattr(md, a, text(rng))
    md.len_attr = md.rep.len if md.no_fixed else md.len
    md.both = both
    return md


def render(rng, md):
    """An SMDX document (element tree)."""
    root = ET.fromstring(ref.smdx(md, explicit=rng.random() < .3))
    m = root.find('model')
    if md.no_fixed:
        m.remove(m.find('block'))
        m.set('len', str(md.len_attr))
    # normalise: texts of points in an absent block, or without any text, go
    for s in root.findall('strings'):
        for p in list(s.findall('point')):
            if not len(p) and rng.random() < .7:
                s.remove(p)
    if md.no_fixed:
        ids = {p.id for p in md.rep.points}
        for s in root.findall('strings'):
            for p in list(s.findall('point')):
                if p.get('id') not in ids:
                    s.remove(p)
    return root


def move_texts(ctx, md, root):
    """Texts beside the point itself, and given more than once (those of the strings section count, of several the last)."""
    rng = ctx.rng
    own = [s for s in root.findall('strings') if s.get('id') == str(md.id)]
    defs = {}
    for p in root.iter('block'):
        for e in p.findall('point'):
            defs.setdefault(e.get('id'), []).append(e)
    for s in own:
        for e in s.findall('point'):
            d = defs.get(e.get('id'), [])
            if len(d) != 1:
                continue
            for c in list(e):
                if c.tag == 'symbol':
                    at = [x for x in d[0].findall('symbol') if x.get('id') == c.get('id')]
                    for y in list(c) if len(at) == 1 else ():
                        r = rng.random()
                        if r < .15:
                            at[0].append(y)
                            c.remove(y)
                            ctx.count('inline_symbol_texts')
                        elif r < .35:
                            ET.SubElement(at[0], y.tag).text = rng.choice(['replaced', ''])
                            ctx.count('replaced_symbol_texts')
                    continue
                r = rng.random()
                if r < .15:
                    d[0].append(c)
                    e.remove(c)
                    ctx.count('inline_texts')
                elif r < .3:
                    ET.SubElement(d[0], c.tag).text = rng.choice(['replaced', '', 'x' * 2000])
                    ctx.count('replaced_texts')
    if own and rng.random() < .2:
        # an earlier section for the same model
        first = ET.Element('strings', {'id': str(md.id), 'locale': rng.choice(['xx', 'en', 'EN', 'en_US', ''])})
        if rng.random() < .5:
            own[0].set('locale', rng.choice(['de', 'fr_FR', 'xx', '']))
        elif rng.random() < .3:
            own[0].attrib.pop('locale', None)
        for c in own[0]:
            x = ET.SubElement(first, c.tag, dict(c.attrib))
            for y in c:
                z = ET.SubElement(x, y.tag, dict(y.attrib))
                if y.tag != 'symbol':
                    z.text = 'in another language'
                for t in y:
                    ET.SubElement(z, t.tag).text = 'in another language'
        root.insert(list(root).index(own[0]), first)
        ctx.count('two_sections')


def rearrange(rng, md, root):
    """Same meaning, other document."""
    for e in root.iter():
        if rng.random() < .3 and e.attrib:
            items = list(e.attrib.items())
            rng.shuffle(items)
            e.attrib.clear()
            for k, v in items:
                e.set(k, v)
        if rng.random() < .05:
            e.set('x-foreign', 'yes')
    if rng.random() < .3:
        # foreign elements next to the known ones
        e = rng.choice([root, root.find('model')])
        e.insert(0, ET.Element('vendor', {'a': '1'}))
    if rng.random() < .3:
        s = ET.SubElement(root, 'strings', {'id': rng.choice([str(md.id + 1), '', '1%d' % md.id, '%d1' % md.id]), 'locale': 'en'})
        if rng.random() < .3:
            del s.attrib['id']              # belongs to no model
        x = ET.SubElement(s, 'model')
        ET.SubElement(x, 'label').text = 'label of another model'
        for b in (md.fixed, md.rep):
            if b:
                for p in b.points[:3]:
                    y = ET.SubElement(s, 'point', {'id': p.id})
                    ET.SubElement(y, 'label').text = 'label of another point'
        if rng.random() < .4:
            # before those of the model
            root.remove(s)
            root.insert(rng.randint(0, len(root)), s)
            for _ in range(rng.choice([0, 0, 0, 0, 50])):
                root.insert(0, copy.deepcopy(s))
    for s in root.findall('strings'):
        if rng.random() < .3 and s.get('id') == str(md.id):
            pts = list(s)
            rng.shuffle(pts)
            for c in list(s):
                s.remove(c)
            for c in pts:
                s.append(c)
            ET.SubElement(s, 'point', {'id': 'NoSuchPoint'})
        for p in s.findall('point'):
            if rng.random() < .2:
                cs = list(p)
                rng.shuffle(cs)
                for c in cs:
                    p.remove(c)
                for c in cs:
                    p.append(c)
    m = root.find('model')
    bs = m.findall('block')
    if len(bs) == 2 and rng.random() < .15:
        m.remove(bs[0])
        m.append(bs[0])                     # repeating block first
    s = ET.tostring(root, encoding='unicode')
    if rng.random() < .3:
        s = s.replace('<block', '<!-- a comment --><block', 1)
    return s


def serialize(rng, s):
    r = rng.random()
    if r < .5:
        return s.encode('utf-8')
    if r < .7:
        return b'<?xml version="1.0"?>\n' + s.encode('utf-8')
    if r < .75:
        return b'<?xml version="1.0" encoding="utf-8"?>\n' + s.encode('utf-8')
    if r < .8:
        return b'\xef\xbb\xbf' + s.encode('utf-8')
    if r < .84:
        return ('<?xml version="1.0" encoding="utf-16"?>\n' + s).encode('utf-16')
    if r < .9:
        enc = rng.choice(['iso-8859-1', 'us-ascii', 'windows-1252'])
        return ('<?xml version="1.0" encoding="%s"?>\n' % enc + s).encode(enc, 'xmlcharrefreplace')
    return s.encode('ascii', 'xmlcharrefreplace')


def put(store, mid, raw):
    with open(os.path.join(store.dir, 'smdx_%05d.xml' % mid), 'wb') as f:
        f.write(raw)
    rig.clear_caches_light()


def load(rng, mid, mlen):
    if rng.random() < .5:
        m = device.Model(device.Device(), mid, 40002, mlen)
    else:
        m = client.ClientModel(device.Device(), mid, 40002, mlen)
    m.load()
    return m


def good_case(ctx):
    rng = ctx.rng
    md = rand_definition(rng)
    root = render(rng, md)
    move_texts(ctx, md, root)
    s = rearrange(rng, md, root)
    mt = device.ModelType()
    mt.from_smdx(ET.fromstring(s))
    check_type(ctx, mt, md, 'parsed definition')
    with ref.Store() as store, device.fresh_file_pathlist(store.dir):
        put(store, md.id, serialize(rng, s))
        m = load(rng, md.id, md.len_attr)
        check_type(ctx, m.model_type, md, 'definition loaded by id')
        # loading another instance leaves the first one alone
        m2 = load(rng, md.id, md.len_attr)
        check_type(ctx, m2.model_type, md, 'definition loaded again')
        check_type(ctx, m.model_type, md, 'definition after loading again')
    if md.both:
        ctx.count('same_id_in_both_blocks')
    ctx.count('documents')
    ctx.seen(s)
    ctx.note(document=s[:400])


def violate(rng, root):
    """Introduce one violation; returns its name or None."""
    m = root.find('model')
    blocks = m.findall('block')
    b = rng.choice(blocks)
    pts = b.findall('point')
    p = rng.choice(pts) if pts else None
    kind = rng.choice(['model', 'model-id', 'model-id', 'model-len', 'model-len', 'block-len', 'block-len', 'block-type', 'block-twice', 'point-id',
                       'point-offset', 'point-offset', 'point-type', 'point-type', 'string-len', 'mandatory', 'access', 'point-twice', 'symbol-id', 'point-len', 'xml'])
    if kind == 'model':
        if rng.random() < .5:
            root.remove(m)
        else:
            m.tag = 'mod'
    elif kind in ('model-id', 'model-len', 'block-len'):
        e, a = {'model-id': (m, 'id'), 'model-len': (m, 'len'), 'block-len': (b, 'len')}[kind]
        if rng.random() < .5:
            del e.attrib[a]
        else:
            e.set(a, rng.choice(['', 'x', '1.5', '0x10', 'ten']))
    elif kind == 'block-type':
        b.set('type', rng.choice(['', 'Fixed', 'rep', 'repeated', 'FIXED']))
    elif kind == 'block-twice':
        b2 = ET.fromstring(ET.tostring(b))
        if rng.random() < .5:
            for x in b2.findall('point'):
                x.set('id', 'second_' + x.get('id'))
        m.insert(rng.randint(0, len(m)), b2)
        b2.tail = None
    elif kind == 'xml':
        return kind
    elif p is None:
        return None
    elif kind == 'point-id':
        del p.attrib['id']
    elif kind == 'point-offset':
        if rng.random() < .5:
            del p.attrib['offset']
        else:
            p.set('offset', rng.choice(['', 'x', '1.5', 'one']))
    elif kind == 'point-type':
        if rng.random() < .4:
            del p.attrib['type']
        else:
            p.set('type', rng.choice(['', 'INT16', 'int8', 'float', 'float64', 'str', 'uint', 'sf', 'eui64', 'int16 ']))
    elif kind in ('string-len', 'point-len'):
        c = [x for x in pts if x.get('type') == 'string']
        if not c:
            return None
        x = rng.choice(c)
        if kind == 'string-len':
            del x.attrib['len']
        else:
            x.set('len', rng.choice(['', 'x', '1.5']))
    elif kind == 'mandatory':
        p.set('mandatory', rng.choice(['', 'yes', 'True', 'TRUE', '1', 'M']))
    elif kind == 'access':
        p.set('access', rng.choice(['', 'w', 'RW', 'R', 'wr', 'read']))
    elif kind == 'point-twice':
        x = ET.fromstring(ET.tostring(p))
        if rng.random() < .5:
            x.set('type', 'uint16')
            x.set('offset', b.get('len'))
        b.insert(rng.randint(0, len(b)), x)
    elif kind == 'symbol-id':
        c = [y for x in pts for y in x.findall('symbol')]
        if not c:
            y = ET.SubElement(p, 'symbol', {'id': 'x'})
            y.text = '1'
            c = [y]
        y = rng.choice(c)
        del y.attrib['id']
    return kind


def bad_case(ctx):
    rng = ctx.rng
    md = rand_definition(rng)
    root = render(rng, md)
    good = ET.tostring(root, encoding='unicode')
    kind = violate(rng, root)
    if kind is None:
        return
    bad = ET.tostring(root, encoding='unicode')
    if kind == 'xml':
        bad = rng.choice([bad[:-4], bad[:rng.randint(1, len(bad) - 20)], 'not xml', bad.replace('</model>', '</modul>', 1), bad + '<x/>', bad.replace('<block', '<block <', 1)])
    with ref.Store() as store, device.fresh_file_pathlist(store.dir):
        if rng.random() < .5:
            put(store, md.id, good.encode())
            check_type(ctx, load(rng, md.id, md.len_attr).model_type, md, 'definition before the violation')
        put(store, md.id, bad.encode())
        try:
            load(rng, md.id, md.len_attr)
        except util.SunSpecError:
            ctx.count('rejected')
            ctx.count('rejected_' + kind)
        except Exception as e:
            ctx.fail('a definition with a violation (%s) ended in %s: %s' % (kind, type(e).__name__, e), 'wrong-error', doc=bad)
        else:
            ctx.fail('a definition with a violation (%s) was accepted' % kind, 'accepted', doc=bad)
        try:
            mt = device.ModelType()
            mt.from_smdx(ET.fromstring(bad))
            ctx.fail('parsing a definition with a violation (%s) succeeded' % kind, 'accepted', doc=bad)
        except Exception as e:
            if type(e).__name__ == 'Violation':
                raise
        put(store, md.id, good.encode())
        check_type(ctx, load(rng, md.id, md.len_attr).model_type, md, 'definition without the violation')
    ctx.seen(bad)
    ctx.note(violation=kind, document=bad[:300])


def unreadable_case(ctx):
    """Something that is not a file has the name of a definition."""
    rng = ctx.rng
    mid = rng.choice([1, 103, rng.randint(1, 65534)])
    md = ref.rand_md(rng, mid, size=5)
    cwd = os.getcwd()
    with ref.Store() as store, ref.Store() as here:
        os.chdir(here.dir)
        try:
            name = 'smdx_%05d.xml' % mid
            os.mkdir(os.path.join(rng.choice([store.dir, here.dir]), name))
            with device.fresh_file_pathlist(store.dir):
                rig.clear_caches_light()
                for get in (lambda: device.model_type_get(mid), lambda: load(rng, mid, md.total(0))):
                    try:
                        get()
                        if os.path.isdir(os.path.join(here.dir, name)):
                            ctx.fail('a definition was read from a directory', 'accepted')
                    except util.SunSpecError:
                        ctx.count('unreadable')
                    except OSError as e:
                        ctx.check(os.path.isdir(os.path.join(store.dir, name)), 'a definition that cannot be read ended in %s: %s' % (type(e).__name__, e), 'wrong-error')
                        ctx.count('unreadable_listed')
                os.rmdir(os.path.join(store.dir, name)) if os.path.isdir(os.path.join(store.dir, name)) else os.rmdir(os.path.join(here.dir, name))
                put(store, mid, ref.smdx(md).encode())
                m = load(rng, mid, md.total(0))
                ctx.eq(m.model_type.id, mid, 'definition once it can be read', 'id')
        finally:
            os.chdir(cwd)
    ctx.seen('unreadable', mid, rng.random())


def empty_rep_case(ctx):
    """A repeating block without registers must not hang the loader."""
    rng = ctx.rng
    md = rand_definition(rng)
    if not md.rep or md.no_fixed:
        return
    root = render(rng, md)
    root.find('model').findall('block')[1].set('len', rng.choice(['0', '-1', '-%d' % md.rep.len]))
    with ref.Store() as store, device.fresh_file_pathlist(store.dir):
        put(store, md.id, ET.tostring(root))
        try:
            load(rng, md.id, md.fixed.len + md.rep.len)
            ctx.fail('a repeating block of no length was accepted', 'accepted')
        except util.SunSpecError:
            ctx.count('rejected_empty_rep')
    ctx.seen('rep', md.id, rng.random())


KINDS = {
    'good': (good_case, 2000, 30000),
    'bad': (bad_case, 4000, 60000),
    'unreadable': (unreadable_case, 100, 1000),
    'emptyrep': (empty_rep_case, 60, 600),
}
MIN = {'inline_texts': 500, 'many_symbols': 50, 'replaced_texts': 500, 'two_sections': 150, 'points': 50000, 'symbols': 5000, 'documents': 1800, 'rejected': 3000, 'same_id_in_both_blocks': 50, 'no_fixed': 50, 'rejected_empty_rep': 10,
       'rejected_model-id': 100, 'rejected_block-len': 100, 'rejected_point-twice': 60, 'rejected_string-len': 30, 'rejected_xml': 60}

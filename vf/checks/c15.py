"""C15: data records written as XML and parsed back."""
import datetime
import os
import time
import xml.etree.ElementTree as ET

from .. import ref
from ..env import data

ID = 'C15'
LEVEL = 'exploration'
TECH = 'round-trip monitor on data records and field-by-field oracle on the XML'
RULE = ('Random records (any number of devices, models and points, every optional field present or absent, any printable text, all forms '
        'of timestamps, indexes, scale factors, values) are written, inspected as XML, parsed from text or element and written again, up '
        'to three generations, plain or indented or inside another document; documents by an independent writer are parsed; documents of '
        'another kind must be rejected. Distinct by document.')
ASSUMPTIONS = ['identifying texts are not empty and contain no control characters', 'indexes are positive, a model index of 1 equals none',
               'units and descriptions of points are not part of the document']

DEV = [('logger_id', 'lid'), ('namespace', 'ns'), ('device_id', 'id'), ('ifc', 'if'), ('man', 'man'), ('mod', 'mod'), ('sn', 'sn'),
       ('timestamp', 't'), ('cid', 'cid')]


def text(rng, n=None):
    r = rng.random()
    n = n or rng.choice([1, 2, 5, 12, 40])
    if r < .5:
        return ''.join(rng.choice('abcXYZ0189:_-.') for _ in range(n))
    if r < .8:
        return ref.rand_text(rng, n)
    return ''.join(rng.choice('a"\'<>&; \u20ac\u00e9\u4e2d\U0001f600]]>') for _ in range(n))


def opt(rng, f, p=.6):
    return f() if rng.random() < p else None


def stamp(t):
    # independent of time.gmtime
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t // 1))
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (d.year, d.month, d.day, d.hour, d.minute, d.second)


def rand_value(rng):
    r = rng.random()
    if r < .35:
        return rng.choice([0, 1, -1, rng.randint(-2 ** 63, 2 ** 64), rng.randint(-40000, 40000)])
    if r < .5:
        return rng.choice([0.0, 1.5, -2.25e-9, rng.uniform(-1e6, 1e6)])
    if r < .6:
        return None
    return text(rng)


def rand_record(ctx):
    """-> (description, record built through the library)"""
    rng = ctx.rng
    sd = data.SunSpecData()
    want = {'v': None, 'd': []}
    if rng.random() < .4:
        sd.version = want['v'] = '1'
    big = rng.choice(['d', 'm', 'p']) if rng.random() < .04 else ''
    ctx.count('big_records', bool(big))
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if big != 'd' else rng.randint(30, 80)):
        w = {'m': []}
        kw = {}
        for name, attr in DEV:
            if name == 'timestamp':
                continue
            w[attr] = kw[name] = opt(rng, lambda: text(rng))
        ts = opt(rng, lambda: rng.choice([0, 1387560564.48, rng.randint(0, 2 ** 32), rng.uniform(0, 4e9), 951782399.999]))
        w['t'] = None if ts is None else stamp(ts)
        if rng.random() < .5:
            if ts is not None:
                kw['timestamp'] = ts
            d = sd.device_add(**kw)
        elif rng.random() < .5:
            d = sd.device_add(kw['logger_id'], kw['man'], kw['mod'], kw['sn'], ts, kw['cid'], kw['device_id'], kw['ifc'], kw['namespace'])
        else:
            d = sd.device_add(**kw)
            if ts is not None:
                d.timestamp_add(ts)
        for _ in range(rng.choice([0, 1, 1, 2, 4]) if big != 'm' else rng.randint(30, 80)):
            mid = rng.choice([1, rng.randint(1, 65535), str(rng.randint(1, 999)), 'Model_X'])
            mx = opt(rng, lambda: rng.choice([1, 2, 3, rng.randint(1, 300)]))
            ns = opt(rng, lambda: text(rng), .3)
            if rng.random() < .5:
                m = d.model_add(mid, mx, ns)
            else:
                m = d.model_add(model_id=mid, namespace=ns, index=mx)
            wm = {'id': str(mid), 'x': None if mx == 1 else mx, 'ns': ns, 'p': []}
            w['m'].append(wm)
            for _ in range(rng.choice([0, 1, 3, 8]) if big != 'p' else rng.randint(50, 150)):
                pid, v = text(rng), rand_value(rng)
                px, sf = opt(rng, lambda: rng.randint(1, 50), .4), opt(rng, lambda: rng.choice([0, 1, -1, rng.randint(-10, 10)]), .5)
                pt = opt(rng, lambda: stamp(rng.randint(0, 2 ** 32)), .3)
                if rng.random() < .5:
                    p = m.point_add(pid, v, px, sf, None, None, pt)
                else:
                    p = m.point_add(point_id=pid, value=v, index=px, sf=sf, units=opt(rng, lambda: 'W', .2), time=pt)
                ctx.check(p is m.point_data[-1], 'point_add returned %r, not the point it added' % (p,), 'added')
                wm['p'].append({'id': pid, 'value': None if v is None else str(v), 'index': px, 'sf': sf, 't': pt})
                ctx.count('points')
        want['d'].append(w)
    return want, sd


def check_record(ctx, sd, want, what):
    ctx.eq(sd.version, want['v'], what + ': version', 'version')
    ctx.eq(len(sd.device_data), len(want['d']), what + ': devices', 'devices')
    for d, w in zip(sd.device_data, want['d']):
        for name, attr in DEV:
            ctx.eq(getattr(d, name), w[attr], '%s: %s of a device' % (what, name), 'device-' + name)
        ctx.eq(len(d.model_data), len(w['m']), what + ': models', 'models')
        for m, x in zip(d.model_data, w['m']):
            ctx.eq(str(m.model_id), x['id'], what + ': model id', 'model-id')
            ctx.eq(None if m.index == 1 else m.index, x['x'], what + ': model index', 'model-index')
            ctx.eq(m.namespace, x['ns'], what + ': model namespace', 'model-namespace')
            ctx.eq(len(m.point_data), len(x['p']), what + ': points', 'points')
            for p, y in zip(m.point_data, x['p']):
                ctx.eq(p.point_id, y['id'], what + ': point id', 'point-id')
                ctx.eq(p.value if p.value is None else str(p.value), y['value'], what + ': value of %r' % y['id'], 'point-value')
                ctx.eq(p.index, y['index'], what + ': point index', 'point-index')
                ctx.eq(p.sf, y['sf'], what + ': scale factor', 'point-sf')
                ctx.eq(p.time, y['t'], what + ': point time', 'point-time')


def check_xml(ctx, root, want):
    """The document against the record it was written from."""
    ctx.eq(root.tag, 'sunSpecData', 'root element', 'xml')
    ctx.eq(dict(root.attrib), {} if want['v'] is None else {'v': want['v']}, 'root attributes', 'xml')
    ctx.eq([e.tag for e in root], ['d'] * len(want['d']), 'elements of the record', 'xml')
    for e, w in zip(root, want['d']):
        ctx.eq(dict(e.attrib), {a: w[a] for n, a in DEV if w[a] is not None}, 'attributes of a device', 'xml-device')
        ctx.eq([x.tag for x in e], ['m'] * len(w['m']), 'elements of a device', 'xml')
        for me, x in zip(e, w['m']):
            a = {k: v for k, v in (('id', x['id']), ('x', None if x['x'] is None else str(x['x'])), ('ns', x['ns'])) if v is not None}
            got = dict(me.attrib)
            if got.get('x') == '1':
                del got['x']
            ctx.eq(got, a, 'attributes of a model', 'xml-model')
            ctx.eq([y.tag for y in me], ['p'] * len(x['p']), 'elements of a model', 'xml')
            for pe, y in zip(me, x['p']):
                a = {k: str(y[k]) for k in ('id', 'index', 'sf', 't') if y[k] is not None}
                got = dict(pe.attrib)
                for k in ('u', 'd'):
                    got.pop(k, None)
                ctx.eq(got, a, 'attributes of a point', 'xml-point')
                ctx.eq(pe.text, y['value'], 'text of a point', 'xml-point')
                ctx.count('xml_points')


def write(ctx, sd):
    """-> (text, root element)"""
    rng = ctx.rng
    how = rng.choice(['str', 'pretty', 'element', 'parent'])
    ctx.count('written_' + how)
    if how in ('str', 'pretty'):
        s = sd.to_xml_str(pretty_print=True) if how == 'pretty' else sd.to_xml_str()
        ctx.check(isinstance(s, str), 'the document is not text', 'type')
        return s, ET.fromstring(s)
    if how == 'element':
        sd.to_xml()
        root = sd.root
    else:
        top = ET.Element('envelope')
        ET.SubElement(top, 'before')
        sd.to_xml(top)
        ctx.eq([e.tag for e in top], ['before', 'sunSpecData'], 'elements of the enclosing document', 'parent')
        root = top[1]
    s = ET.tostring(root, encoding='unicode')
    return s, ET.fromstring(s)


def parse(ctx, s, root):
    rng = ctx.rng
    how = rng.choice(['text', 'element', 'from', 'bytes'])
    if how == 'text':
        return data.SunSpecData(data_record=s)
    if how == 'bytes':
        return data.SunSpecData(data_record=s.encode('utf-8'))
    if how == 'element':
        return data.SunSpecData(element=root)
    sd = data.SunSpecData()
    sd.from_xml(data_record=s)
    return sd


def round_case(ctx):
    old = os.environ.get('TZ')
    os.environ['TZ'] = ctx.rng.choice(['UTC', 'EST5EDT', 'XYZ-9:30'])
    time.tzset()
    try:
        round_trip(ctx)
    finally:
        os.environ['TZ'] = old or 'UTC'
        time.tzset()


def round_trip(ctx):
    rng = ctx.rng
    want, sd = rand_record(ctx)
    check_record(ctx, sd, want, 'record')
    for g in range(rng.choice([1, 2, 3])):
        s, root = write(ctx, sd)
        check_xml(ctx, root, want)
        check_record(ctx, sd, want, 'record after writing')
        sd = parse(ctx, s, root)
        check_record(ctx, sd, want, 'record of generation %d' % (g + 1))
        ctx.count('generations')
    if rng.random() < .3 and sd.device_data:
        # a parsed record can be extended
        d = rng.choice(sd.device_data)
        w = want['d'][sd.device_data.index(d)]
        d.model_add('99').point_add('New', 5)
        w['m'].append({'id': '99', 'x': None, 'ns': None, 'p': [{'id': 'New', 'value': '5', 'index': None, 'sf': None, 't': None}]})
        s, root = write(ctx, sd)
        check_xml(ctx, root, want)
        check_record(ctx, parse(ctx, s, root), want, 'extended record')
        ctx.count('extended')
    ctx.seen(s)
    ctx.note(document=s[:300])


def render(want):
    """Independent writer."""
    root = ET.Element('sunSpecData', {} if want['v'] is None else {'v': want['v']})
    for w in want['d']:
        e = ET.SubElement(root, 'd', {a: w[a] for n, a in DEV if w[a] is not None})
        for x in w['m']:
            a = {'id': x['id']}
            if x['x'] is not None:
                a['x'] = str(x['x'])
            if x['ns'] is not None:
                a['ns'] = x['ns']
            me = ET.SubElement(e, 'm', a)
            for y in x['p']:
                pe = ET.SubElement(me, 'p', {k: str(y[k]) for k in ('id', 'index', 'sf', 't') if y[k] is not None})
                pe.text = y['value']
    return root


def doc_case(ctx):
    rng = ctx.rng
    want, _ = rand_record(ctx)
    for w in want['d']:
        # any text may be given for a time
        for o in [w] + [p for x in w['m'] for p in x['p']]:
            if o['t'] is not None and rng.random() < .4:
                o['t'] = rng.choice([o['t'][:-1] + '.%03dZ' % rng.randint(0, 999), o['t'][:-1] + '.5Z', o['t'][:-1] + '+02:00', o['t'][:10], o['t'][:-1], 'soon'])
                ctx.count('other_times')
    root = render(want)
    s = ET.tostring(root, encoding='unicode')
    sd = parse(ctx, s, ET.fromstring(s))
    check_record(ctx, sd, want, 'parsed document')
    s2, root2 = write(ctx, sd)
    check_xml(ctx, root2, want)
    ctx.count('documents')
    # the same document with a foreign element somewhere, or of another kind
    bad = ET.fromstring(s)
    k = rng.choice(['root', 'device', 'model', 'point', 'xml'])
    if k == 'root':
        bad.tag = rng.choice(['sunSpecPics', 'd', 'mbmap', 'SunSpecData'])
    elif k == 'device':
        bad.insert(rng.randint(0, len(bad)), ET.Element(rng.choice(['m', 'p', 'device'])))
    elif k == 'model':
        if not len(bad):
            ET.SubElement(bad, 'd')
        d = rng.choice(list(bad))
        d.insert(rng.randint(0, len(d)), ET.Element(rng.choice(['p', 'd', 'model'])))
    elif k == 'point':
        if not len(bad):
            ET.SubElement(bad, 'd')
        d = rng.choice(list(bad))
        if not len(d):
            ET.SubElement(d, 'm', {'id': '1'})
        m = rng.choice(list(d))
        m.insert(rng.randint(0, len(m)), ET.Element(rng.choice(['m', 'd', 'point'])))
    b = ET.tostring(bad, encoding='unicode')
    if k == 'xml':
        b = rng.choice(['', b[:-3], 'text', b + b])
    for f in (lambda: data.SunSpecData(data_record=b), lambda: data.SunSpecData().from_xml(data_record=b),
              lambda: data.SunSpecData(element=ET.fromstring(b))):
        try:
            f()
        except data.SunSpecDataError:
            ctx.count('rejected')
            continue
        except Exception as e:
            ctx.check(k == 'xml', 'a document of another kind (%s) ended in %s' % (k, type(e).__name__), 'wrong-error', doc=b)
            ctx.count('rejected')
            continue
        ctx.fail('a document of another kind (%s) was accepted' % k, 'accepted', doc=b)
    ctx.seen(s, k)


def now_case(ctx):
    """A time stamp without a time is the time of the call."""
    rng = ctx.rng
    sd = data.SunSpecData()
    d = sd.device_add(device_id=text(rng), timestamp=opt(rng, lambda: rng.randint(0, 2 ** 32)))
    t0 = time.time()
    d.timestamp_add()
    t1 = time.time()
    ctx.check(stamp(t0) <= d.timestamp <= stamp(t1), 'a time stamp without a time is %r instead of the current time %s' % (d.timestamp, stamp(t1)), 'now')
    t = rng.choice([0, rng.randint(0, 2 ** 32)])
    if rng.random() < .5:
        d.timestamp_add(t)
        ctx.eq(d.timestamp, stamp(t), 'a time stamp replaced', 'device-timestamp')
    ctx.eq(parse(ctx, *write(ctx, sd)).device_data[0].timestamp, d.timestamp, 'time stamp parsed back', 'device-timestamp')
    ctx.count('now')
    ctx.seen('now', t, rng.random())


KINDS = {
    'now': (now_case, 200, 2000),
    'round': (round_case, 6000, 80000),
    'doc': (doc_case, 6000, 80000),
}
MIN = {'big_records': 100, 'now': 150, 'other_times': 300, 'points': 20000, 'generations': 6000, 'documents': 5000, 'rejected': 15000, 'extended': 500, 'xml_points': 20000,
       'written_pretty': 1000, 'written_parent': 1000}

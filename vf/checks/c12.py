"""C12: map documents: typed entries, rejection, round trip, comparison."""
import os
import struct
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

from .. import ref, rig
from ..env import mbmap, util
from . import c11

ID = 'C12'
LEVEL = 'exploration'
TECH = 'reference-parser monitor for map documents plus round-trip and comparison oracles'
RULE = ('Random documents of typed entries (every type, literal form, explicit and implied offset and length, padding, adjacency, '
        'attributes) loaded from file, path list and element and compared register by register with an independent parser, then written '
        'and loaded again (with and without data); invalid documents must be rejected; pairs of maps that are equal or differ in exactly '
        'one respect are compared in both directions. Distinct by document.')
ASSUMPTIONS = ['adjacent entries have the same access', 'string contents fit the declared length']

ERR = mbmap.ModbusMapError
NUM = {'s16': ('>h', 16, True), 'u16': ('>H', 16, False), 's32': ('>i', 32, True), 'u32': ('>I', 32, False),
       's64': ('>q', 64, True), 'u64': ('>Q', 64, False)}


def int_text(rng, v):
    s = '-' if v < 0 else ''
    r = rng.random()
    if r < .55:
        return str(v)
    if r < .85:
        return s + rng.choice(['0x%x', '0x%X', '0X%x']) % abs(v)
    return s + '0o%o' % abs(v) if r < .93 else s + bin(abs(v))


def entry(rng):
    """-> (type or None, text, data, explicit len or None)"""
    t = rng.choice(['s16', 'u16', 's32', 'u32', 's64', 'u64', 'f32', 'f64', 'string', 'string', 'hexstr', 'hexstr', None])
    if t in NUM:
        code, bits, signed = NUM[t]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        v = rng.choice([lo, hi, 0, 1, max(lo, -1), rng.randint(lo, hi), rng.randint(0, 50)])
        text = int_text(rng, v)
        if v == 0 and rng.random() < .4:
            text = ''
        return t, text, struct.pack(code, v), rng.choice([None, None, bits // 16])
    if t in ('f32', 'f64'):
        v = rng.choice([0.0, 1.5, -2.25, 1e10, -1e-3, rng.uniform(-1e6, 1e6)])
        text = rng.choice([repr(v), '%r' % v, '%.17e' % v])
        if v == 0 and rng.random() < .5:
            text = ''
        return t, text, struct.pack('>f' if t == 'f32' else '>d', v), rng.choice([None, None, 2 if t == 'f32' else 4])
    if t == 'string':
        n = rng.choice([1, 2, 3, 8, 15, 32, rng.randint(1, 60)])
        text = ref.rand_text(rng, n)
        regs = (n + 1) // 2
        ln = rng.choice([None, None, regs, regs + 1, regs + 5, 16 if regs <= 16 else None])
        if rng.random() < .05:
            text, regs, ln = '', 0, rng.choice([1, 4])
        regs = ln or regs
        b = text.encode('latin-1')
        return t, text, b + b'\0' * (2 * regs - len(b)), ln
    regs = rng.choice([1, 1, 2, 3, 10, rng.randint(1, 40)])
    data = c11.rbytes(rng, 2 * regs)
    text = data.hex()
    if rng.random() < .3:
        text = text.upper()
    if rng.random() < .3:
        k = rng.choice([2, 4, 8])
        sep = ' ' if rng.random() < .6 else rng.choice(['\n', '\t', '\n  ', ' \n'])
        text = rng.choice(['', '', sep]) + sep.join(text[i:i + k] for i in range(0, len(text), k)) + rng.choice(['', '', sep])
    ln = rng.choice([None, regs, regs, regs + 1, regs + 7])
    if rng.random() < .08:
        text, data, ln = '', b'', rng.choice([1, 5, 66])
    if ln:
        data += b'\0' * (2 * ln - len(data))
    return t, text, data, ln


def attrs(rng):
    out = {}
    for k in ('ns', 'lid', 'mapid', 'time'):
        if rng.random() < .3:
            out[k] = rng.choice(['mac', 'abc:1', '2012-01-01T00:00:00Z', 'x & y'])
    return out


def make_doc(rng, n):
    """-> (xml text, {addr: 2 bytes}, base, func, attrs, spec)"""
    base = rng.choice([None, 40000, 0, 50000, rng.randint(0, 50000)])
    func = rng.choice([None, 'holding', 'input'])
    at = attrs(rng)
    a = dict(at)
    if base is not None:
        a['addr'] = str(base)
    if func is not None:
        a['func'] = func
    root = ET.Element('mbmap', a)
    base = 40000 if base is None else base
    regs = {}
    nxt = 0
    access = rng.choice([None, 'r', 'rw'])
    spec = []
    if n > 1 and rng.random() < .02:
        n = rng.randint(45, 80)
    for i in range(n):
        t, text, data, ln = entry(rng)
        if i and rng.random() < .03:
            # an entry of no registers
            t, text, data, ln = rng.choice(['string', 'hexstr', None]), '', b'', None
        gap = rng.choice([0, 0, 0, 1, 3, 50])
        off = nxt + gap
        ea = {}
        if gap or rng.random() < .5:
            ea['offset'] = str(off)
        if gap:
            access = rng.choice([None, 'r', 'rw'])
        if access:
            ea['access'] = access
        if t:
            ea['type'] = t
        if ln:
            ea['len'] = str(ln)
        e = ET.SubElement(root, 'regs', ea)
        if text or rng.random() < .5:
            e.text = text
        for k in range(len(data) // 2):
            regs[base + off + k] = data[2 * k:2 * k + 2]
        spec.append((off, t, text, ln, access))
        nxt = off + len(data) // 2
    return ET.tostring(root, encoding='unicode'), regs, base, 4 if func == 'input' else 3, at, spec


def compare(ctx, mm, regs, base, func, at, text):
    m = c11.Model(base, func)
    m.regs = regs
    ctx.eq(mm.base_addr, base, 'base address of a loaded map', 'base', doc=text)
    ctx.eq(mm.func, func, 'function of a loaded map', 'func', doc=text)
    for k in ('ns', 'lid', 'mapid', 'time'):
        ctx.eq(getattr(mm, k), at.get(k), 'attribute %s of a loaded map' % k, 'attribute', doc=text)
    io = c11.Io(lambda a, n, f: mm.read(a, n), None)
    c11.whole(ctx, io, m, text)
    for a in sorted(regs):
        for b in (a - 1, a + 1):
            if b not in regs:
                try:
                    mm.read(b, 1)
                    ctx.fail('register %d exists without an entry' % b, 'extra-register', doc=text)
                except ERR:
                    pass
    n = sum(int(r.count) for r in mm.regs)
    ctx.eq(n, len(regs), 'number of registers', 'count', doc=text)


def load(rng, dir, text, element=None):
    mm = mbmap.ModbusMap(1)
    how = rng.choice(['file', 'file', 'pathlist', 'element'])
    if how == 'element':
        mm.from_xml(element=ET.fromstring(text))
        return mm
    name = 'd%d.xml' % rng.randint(0, 9999)
    with open(os.path.join(dir, name), 'w', encoding='utf-8') as f:
        f.write(text)
    if how == 'pathlist':
        mm.from_xml(name, util.PathList(['/nonexistent', dir]))
    else:
        mm.from_xml(os.path.join(dir, name))
    return mm


def doc_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        text, regs, base, func, at, spec = make_doc(rng, rng.choice([1, 2, 3, 5, 8, 12]))
        mm = load(rng, w.store.dir, text)
        compare(ctx, mm, regs, base, func, at, text)
        for s in spec:
            ctx.count('entry_%s' % s[1])
        # access of the groups, by the entries that begin them
        acc = {}
        nxt = None
        for (off, t, x, ln, access) in spec:
            if nxt is None or off > nxt:
                acc[off] = access or 'r'
            nxt = off + entry_len(t, x, ln)
        ctx.eq({r.offset: r.access for r in mm.regs}, acc, 'groups and their access', 'access', doc=text)
        # change some registers, then save and load
        for k in range(rng.randint(0, 3)):
            a = rng.choice(sorted(regs))
            d = c11.rbytes(rng, 2)
            mm.write(a, d)
            regs[a] = d
        if rng.random() < .5:
            el = mm.to_xml()
        else:
            parent = ET.Element('x')
            mm.to_xml(parent)
            el = parent[0]
        text2 = ET.tostring(el, encoding='unicode')
        m2 = load(rng, w.store.dir, text2)
        compare(ctx, m2, regs, base, func, at, text2)
        verdict(ctx, mm, m2, None, text2)
        ctx.eq({r.offset: r.access for r in m2.regs}, acc, 'groups and their access after a round trip', 'access', doc=text2)
        ctx.eq(ET.tostring(m2.to_xml(), encoding='unicode'), ET.tostring(mm.to_xml(), encoding='unicode'), 'second document', 'round-trip')
        # layout only
        m3 = load(rng, w.store.dir, ET.tostring(mm.to_xml(no_data=True), encoding='unicode'))
        compare(ctx, m3, {a: b'\0\0' for a in regs}, base, func, at, 'layout of ' + text2)
        ctx.count('round_trips')
        ctx.seen(text)
        ctx.note(document=text, registers=len(regs))


def entry_len(t, text, ln):
    if t in NUM:
        return NUM[t][1] // 16
    if t in ('f32', 'f64'):
        return 2 if t == 'f32' else 4
    if ln:
        return ln
    return (len(text) + 1) // 2 if t == 'string' else len(''.join(text.split())) // 4


def verdict(ctx, a, b, what, info):
    """what: None when equal, else the respect in which they differ."""
    sa, sb = snap(a), snap(b)
    for x, y in ((a, b), (b, a)):
        r = x.not_equal(y)
        ctx.check(r is False or isinstance(r, str) and r, 'comparison returned %r' % (r,), 'verdict-type')
        if len(x.regs) == len(y.regs):
            rs = [p.not_equal(q) for p, q in zip(x.regs, y.regs)]
            ctx.check(all(z is False or isinstance(z, str) and z for z in rs), 'comparison of blocks returned %r' % (rs,), 'verdict-type')
            ctx.eq([bool(z) for z in rs], [p != q for p, q in zip(snap(x)[2], snap(y)[2])], 'blocks that differ', 'block-verdict', info=info)
        if what is None:
            ctx.check(not r, 'equal maps are reported as different: %s' % r, 'false-difference', info=info)
            ctx.count('equal_verdicts')
        else:
            ctx.check(bool(r), 'maps differing in %s are reported as equal' % what, 'missed-difference', info=info)
            ctx.count('differences_' + what)
    ctx.check(snap(a) == sa and snap(b) == sb, 'comparing changed a map', 'changed')


def snap(m):
    return (m.base_addr, m.func, [(r.offset, r.count, bytes(r.data), r.access) for r in m.regs])


def compare_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        groups = []
        for off, n in c11.groups_of(rng, rng.randint(1, 5), adjacent=False):
            groups.append([off, n, c11.rbytes(rng, 2 * n), rng.choice(['r', 'rw'])])
        base = rng.choice([40000, 0, 50000, 7])
        func = rng.choice(['holding', 'input'])

        def build(groups, base, func, more=''):
            how = rng.choice(['doc', 'doc', 'regs'])
            if how == 'regs':
                m = mbmap.ModbusMap(rng.choice([1, 2]), func, base)
                for off, n, data, acc in groups:
                    m.regs_add(offset=off, count=n, access=acc)
                    m.write(base + off, data)
                return m
            o = ['<mbmap addr="%d" func="%s" %s>' % (base, func, more)]
            for off, n, data, acc in groups:
                pos = 0
                while pos < n:
                    k = n - pos if rng.random() < .7 else rng.randint(1, n - pos)
                    o.append('<regs offset="%d" len="%d" access="%s">%s</regs>' % (off + pos, k, acc, data[2 * pos:2 * (pos + k)].hex()))
                    pos += k
            return load(rng, w.store.dir, '\n'.join(o + ['</mbmap>']))

        a = build(groups, base, func)
        verdict(ctx, a, build(groups, base, func, rng.choice(['', 'ns="x"', 'lid="l" mapid="m"', 'time="t"'])), None, groups)
        for what in ('base', 'func', 'offset', 'count', 'data', 'access', 'more', 'fewer'):
            g = [list(x) for x in groups]
            b, f = base, func
            i = rng.randrange(len(g))
            if what == 'base':
                b = base + rng.choice([1, -1 if base else 2, 10000])
            elif what == 'func':
                f = 'input' if func == 'holding' else 'holding'
            elif what == 'offset':
                i = len(g) - 1
                g[i][0] += rng.choice([1, 2, 100])
            elif what == 'count':
                i = len(g) - 1
                k = rng.choice([1, 2, 10])
                if rng.random() < .5 and g[i][1] > k:
                    g[i][1] -= k
                    g[i][2] = g[i][2][:-2 * k]
                else:
                    g[i][1] += k
                    g[i][2] += rng.choice([b'\0\0', b'\1\2']) * k
            elif what == 'data':
                d = bytearray(g[i][2])
                d[rng.choice([0, len(d) - 1, rng.randrange(len(d))])] ^= 1 << rng.randrange(8)
                g[i][2] = bytes(d)
            elif what == 'access':
                g[i][3] = 'r' if g[i][3] == 'rw' else 'rw'
            elif what == 'more':
                g.append([g[-1][0] + g[-1][1] + 2, 1, b'\0\0', 'r'])
            else:
                if len(g) == 1:
                    continue
                g.pop()
            verdict(ctx, a, build(g, b, f), what, (groups, g))
        # a write makes maps differ, and writing it there too makes them equal
        c = build(groups, base, func)
        off, n, data, acc = rng.choice(groups)
        d = bytes(x ^ 0xff for x in data[:2])
        c.write(base + off, d)
        verdict(ctx, a, c, 'data', groups)
        a.write(base + off, d)
        verdict(ctx, a, c, None, groups)
        ctx.seen(base, func, groups)


def built_case(ctx):
    """Maps built by calls, with their attributes given to the constructor."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        at = attrs(rng)
        base = rng.choice([40000, 0, 50000, rng.randint(0, 60000)])
        func = rng.choice(['holding', 'input'])
        kw = dict(at)
        if func == 'input' or rng.random() < .5:
            kw['func'] = func
        if base != 40000 or rng.random() < .5:
            kw['base_addr'] = base
        if rng.random() < .2:
            try:
                mbmap.ModbusMap(1, **dict(kw, func=rng.choice(['coil', 'discrete', 'Holding', 'holdings', ''])))
                ctx.fail('a map of an unknown function was made', 'accepted')
            except ERR:
                ctx.count('func_rejected')
        mm = mbmap.ModbusMap(rng.choice([None, 1, 9]), **kw)
        regs = {}
        groups = c11.groups_of(rng, rng.randint(0, 5))
        for off, n in groups:
            if rng.random() < .5:
                mm.regs_add(offset=off, count=n)
            else:
                mm.regs_add(base + off, None, n)
            data = c11.rbytes(rng, 2 * n)
            if rng.random() < .8:
                mm.write(base + off, data)
            else:
                data = bytes(2 * n)
            for k in range(n):
                regs[base + off + k] = data[2 * k:2 * k + 2]
        f = 4 if func == 'input' else 3
        compare(ctx, mm, regs, base, f, at, groups)
        text = ET.tostring(mm.to_xml(), encoding='unicode')
        again = load(rng, w.store.dir, text)
        compare(ctx, again, regs, base, f, at, text)
        verdict(ctx, mm, again, None, text)
        # a map object given to another document takes that document's attributes and contents
        text2, regs2, base2, func2, at2, spec2 = make_doc(rng, rng.randint(1, 3))
        other = mbmap.ModbusMap(1, base_addr=base2, func='input' if func2 == 4 else 'holding')
        other.from_xml(element=ET.fromstring(text2))
        compare(ctx, other, regs2, base2, func2, at2, text2)
        ctx.count('built')
        ctx.seen(text)


def bad_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        text, regs, base, func, at, spec = make_doc(rng, rng.randint(1, 4))
        root = ET.fromstring(text)
        last = max(regs) + 1 - base
        kind = rng.choice(['overlap', 'overlap', 'inside', 'hexlen', 'hexchar', 'type', 'range', 'notint', 'notfloat', 'func', 'xml', 'offset', 'negative', 'hexmore', 'neglen'])
        if kind == 'overlap':
            ET.SubElement(root, 'regs', {'offset': str(last - 1), 'type': 'u16'}).text = '1'
        elif kind == 'inside':
            ET.SubElement(root, 'regs', {'offset': str(rng.randint(0, last - 1)), 'type': 'u16'}).text = '1'
        elif kind == 'hexlen':
            ET.SubElement(root, 'regs', {} if rng.random() < .5 else {'len': str(rng.randint(3, 6))}).text = 'ab' * rng.choice([1, 3, 5]) if rng.random() < .7 else 'abc'
        elif kind == 'hexchar':
            ET.SubElement(root, 'regs', {'offset': str(last + 1)}).text = rng.choice(['00zz', '0x01zz00', 'wxyz', '12g4', '+1-0', '0102+f03', '0_12', '0x1f', '1f0x', '\u0661\u0662\u0663\u0664'])
        elif kind == 'type':
            ET.SubElement(root, 'regs', {'type': rng.choice(['u8', 'int16', 'bool', 'S16', 'f16'])}).text = '1'
        elif kind == 'range':
            t, v = rng.choice([('u16', 65536), ('u16', -1), ('s16', 32768), ('s16', -32769), ('u32', 1 << 32), ('s32', 1 << 31), ('s32', -(1 << 31) - 1),
                               ('u64', 1 << 64), ('u64', -1), ('s64', 1 << 63), ('f32', 1e39)])
            ET.SubElement(root, 'regs', {'type': t}).text = str(v)
        elif kind == 'notint':
            ET.SubElement(root, 'regs', {'type': rng.choice(list(NUM))}).text = rng.choice(['abc', '1.5', '0xzz', '1 2', '--1'])
        elif kind == 'notfloat':
            ET.SubElement(root, 'regs', {'type': rng.choice(['f32', 'f64'])}).text = rng.choice(['abc', '1,5', '0x1', '1 2'])
        elif kind == 'func':
            root.set('func', rng.choice(['coil', 'discrete', 'Holding', '', 'holding,input', 'input holding', 'holding ', 'input4', '3']))
        elif kind == 'offset':
            ET.SubElement(root, 'regs', {rng.choice(['offset', 'len']): rng.choice(['x', '1.5', '0x'])}).text = '0001'
        elif kind == 'hexmore':
            # longer than declared; what follows would not be where it says
            n = rng.randint(1, 6)
            ET.SubElement(root, 'regs', {'offset': str(last + rng.choice([0, 0, 2])), 'len': str(n)}).text = 'abcd' * (n + rng.randint(1, 4))
            if rng.random() < .7:
                ET.SubElement(root, 'regs', {'type': 'u16'}).text = '1'
        elif kind == 'neglen':
            ET.SubElement(root, 'regs', {'type': rng.choice(['hexstr', 'string']), 'len': str(-rng.randint(1, 3))}).text = 'abcd'
        elif kind == 'negative':
            root.insert(0, ET.Element('regs', {'offset': '-1', 'type': 'u16'}))
            root[0].text = '5'
        text2 = ET.tostring(root, encoding='unicode')
        if kind == 'xml':
            text2 = rng.choice([text[:-3], text.replace('<mbmap', '<mbmap <', 1), '', 'no xml', text + '<a/>'])
        try:
            if kind == 'xml':
                p = os.path.join(w.store.dir, 'b.xml')
                with open(p, 'w', encoding='utf-8') as f:
                    f.write(text2)
                mbmap.ModbusMap(1).from_xml(p)
            else:
                load(rng, w.store.dir, text2)
            ctx.fail('an invalid map document (%s) was accepted' % kind, 'accepted', doc=text2)
        except ERR:
            ctx.count('rejected')
            ctx.count('rejected_' + kind)
        # the same entries without the fault still load
        compare(ctx, load(rng, w.store.dir, text), regs, base, func, at, text)
        ctx.seen('bad', text2)


def hex_case(ctx):
    """Maps given as a file of hex bytes, good and bad."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        data = c11.rbytes(rng, 2 * rng.choice([1, 2, 10, 70, 200]))
        rows, pos = ['# a comment'] * rng.randint(0, 2), 0
        while pos < len(data):
            k = rng.randint(1, 20) if rng.random() < .95 else rng.randint(60, 200)
            rows.append(rng.choice([' ', '  ', '\t']).join(rng.choice(['%02x', '%02X', '%x', '0x%02x']) % b for b in data[pos:pos + k]))
            pos += k
            if rng.random() < .2:
                rows.append(rng.choice(['', '# 00 11', '#']))
        kind = rng.choice(['good', 'good', 'odd', 'range', 'nothex', 'empty', 'absent'])
        path = os.path.join(w.store.dir, 'm.hex')
        if kind == 'odd':
            rows.append('7f')
        elif kind == 'range':
            rows.insert(rng.randint(0, len(rows)), rng.choice(['100 00', '00 -1', '1234 5678']))
        elif kind == 'nothex':
            rows.insert(rng.randint(0, len(rows)), rng.choice(['00 zz', 'xy 00', '0x 00', '1.5 00']))
        elif kind == 'empty':
            rows = [x for x in rows if not x or x[0] == '#']
        if kind != 'absent':
            with open(path, 'w') as f:
                f.write(rng.choice(['\n', '\r\n']).join(rows) + rng.choice(['', '\n']))
        mm = mbmap.ModbusMap(1)
        try:
            mm.from_hex(path)
            ctx.check(kind == 'good', 'an invalid hex map (%s) was accepted' % kind, 'accepted', rows=rows)
        except ERR as e:
            ctx.check(kind != 'good', 'a hex map was rejected: %s' % e, 'hex', rows=rows)
            ctx.count('hex_rejected')
        else:
            regs = {40000 + i: data[2 * i:2 * i + 2] for i in range(len(data) // 2)}
            compare(ctx, mm, regs, 40000, 3, {}, rows)
            again = load(rng, w.store.dir, ET.tostring(mm.to_xml(), encoding='unicode'))
            compare(ctx, again, regs, 40000, 3, {}, rows)
            verdict(ctx, mm, again, None, rows)
            ctx.count('hex_loaded')
        ctx.seen(kind, rows)


KINDS = {
    'built': (built_case, 800, 8000),
    'hex': (hex_case, 1000, 12000),
    'doc': (doc_case, 2500, 40000),
    'compare': (compare_case, 1000, 15000),
    'bad': (bad_case, 1500, 20000),
}
MIN = {'built': 800, 'func_rejected': 80, 'hex_loaded': 200, 'hex_rejected': 500, 'rejected_hexmore': 60, 'round_trips': 2500, 'rejected': 1500, 'equal_verdicts': 3000}
MIN.update({'entry_%s' % t: 400 for t in list(NUM) + ['f32', 'f64', 'string', 'hexstr']})
MIN.update({'differences_' + k: 500 for k in ('base', 'func', 'offset', 'count', 'data', 'access', 'more')})

"""Independent reference: SunSpec types, model definitions, register images.

Nothing here uses the library.  Encodings follow the SunSpec information model:
big-endian registers, one reserved pattern per type for "not implemented".
"""
import math
import os
import random
import shutil
import struct
import tempfile
from fractions import Fraction
from xml.sax.saxutils import escape, quoteattr

# type -> (registers or None, struct code or None, reserved value)
INT = {
    'int16': (1, '>h', -32768),
    'uint16': (1, '>H', 0xFFFF),
    'count': (1, '>H', 0xFFFF),
    'acc16': (1, '>H', 0),
    'enum16': (1, '>H', 0xFFFF),
    'bitfield16': (1, '>H', 0xFFFF),
    'int32': (2, '>i', -2147483648),
    'uint32': (2, '>I', 0xFFFFFFFF),
    'acc32': (2, '>I', 0),
    'enum32': (2, '>I', 0xFFFFFFFF),
    'bitfield32': (2, '>I', 0xFFFFFFFF),
    'ipaddr': (2, '>I', 0),
    'int64': (4, '>q', -9223372036854775808),
    'uint64': (4, '>Q', 0xFFFFFFFFFFFFFFFF),
    'acc64': (4, '>Q', 0),
    'sunssf': (1, '>h', -32768),
}
REGS = {t: v[0] for t, v in INT.items()}
REGS.update({'pad': 1, 'float32': 2, 'ipv6addr': 8, 'eui48': 4, 'string': None})
ALL_TYPES = ['int16', 'uint16', 'count', 'acc16', 'enum16', 'bitfield16', 'int32', 'uint32', 'acc32', 'enum32',
             'bitfield32', 'ipaddr', 'int64', 'uint64', 'acc64', 'ipv6addr', 'float32', 'string', 'eui48']
SCALABLE = ['int16', 'uint16', 'acc16', 'int32', 'uint32', 'acc32', 'int64', 'uint64', 'acc64', 'count']


def int_range(t):
    regs, code, _ = INT[t]
    bits = 16 * regs
    if t == 'acc64':                       # counters are specified up to 2^63-1
        return 0, (1 << 63) - 1
    if code[1].islower():
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


def encode(t, v, regs):
    """Value -> registers (bytes)."""
    if t in INT:
        return struct.pack(INT[t][1], v)
    if t == 'pad':
        return struct.pack('>H', v)
    if t == 'float32':
        return struct.pack('>f', v)
    if t == 'ipv6addr':
        return bytes.fromhex(v.replace(':', ''))
    if t == 'eui48':
        return b'\0\0' + bytes.fromhex(v.replace(':', ''))
    if t == 'string':
        b = v.encode('latin-1')
        assert len(b) <= 2 * regs
        return b + b'\0' * (2 * regs - len(b))
    raise AssertionError(t)


def decode(t, b):
    """Registers -> value, or None when they hold the reserved pattern."""
    if t in INT:
        v = struct.unpack(INT[t][1], b)[0]
        return None if v == INT[t][2] else v
    if t == 'float32':
        v = struct.unpack('>f', b)[0]
        return None if v != v else v
    if t == 'ipv6addr':
        if not any(b):
            return None
        h = b.hex().upper()
        return ':'.join(h[i:i + 8] for i in range(0, 32, 8))
    if t == 'eui48':
        if not any(b) or b[2:] == b'\xff' * 6:
            return None
        return ':'.join('%02X' % x for x in b[2:])
    if t == 'string':
        if b[0] == 0:
            return None
        return b.decode('latin-1').rstrip('\0')
    raise AssertionError(t)


def unimpl(t, regs):
    if t in INT:
        return struct.pack(INT[t][1], INT[t][2])
    if t == 'float32':
        return b'\x7f\xc0\x00\x00'
    if t == 'ipv6addr':
        return b'\0' * 16
    if t == 'eui48':
        return b'\xff' * 8
    if t == 'string':
        return b'\0' * (2 * regs)
    if t == 'pad':
        return b'\x80\x00'
    raise AssertionError(t)


PRINT = ''.join(chr(c) for c in range(0x21, 0x7f))
LATIN = ''.join(chr(c) for c in range(0xa1, 0x100))


def rand_text(rng, n, latin=True):
    pool = PRINT + ' ' + (LATIN if latin and rng.random() < .3 else '')
    s = ''.join(rng.choice(pool) for _ in range(n))
    return s


def rand_int(rng, t):
    lo, hi = int_range(t)
    r = rng.random()
    if r < .25:
        v = rng.choice([lo, lo + 1, hi, hi - 1, 0, 1, hi // 2, hi // 2 + 1])
    elif r < .5:
        v = rng.randint(0, 100) * (rng.choice([1, -1]) if lo < 0 else 1)
    else:
        v = rng.randint(lo, hi)
    return min(max(v, lo), hi)


def rand_value(rng, t, regs, implemented=True):
    """A value of the type that is not its reserved pattern."""
    while True:
        if t in INT:
            v = rand_int(rng, t)
            if v == INT[t][2]:
                continue
            return v
        if t == 'float32':
            r = rng.random()
            if r < .2:
                return rng.choice([0.0, 1.0, -1.5, 3.4028234663852886e+38, 1.401298464324817e-45, -0.25])
            return struct.unpack('>f', struct.pack('>f', rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 30)))[0]
        if t == 'ipv6addr':
            b = bytes(rng.getrandbits(8) for _ in range(16)) if rng.random() < .8 else b'\0' * 15 + bytes([rng.randint(1, 255)])
            if not any(b):
                continue
            return decode(t, b)
        if t == 'eui48':
            b = b'\0\0' + bytes(rng.getrandbits(8) for _ in range(6))
            if decode(t, b) is None:
                continue
            return decode(t, b)
        if t == 'string':
            n = rng.choice([1, 2 * regs, 2 * regs - 1, rng.randint(1, 2 * regs)])
            n = max(1, min(n, 2 * regs))
            return rand_text(rng, n)
        raise AssertionError(t)


def scaled(base, sf):
    """Exact scaled value as a Fraction (or the raw value without scaling)."""
    if base is None or sf is None or sf == 0 or isinstance(base, str):
        return base
    return Fraction(base) * Fraction(10) ** sf


MAX_FLOAT = Fraction(1.7976931348623157e308)
TINY = Fraction(1, 10 ** 280)
WILD = [11, -11, 20, -20, 100, -100, 300, 308, 309, 400, 5000, 32767, -290, -300, -308, -310, -324, -330, -400, -32767]


def show(v):
    """An expected value for a message, whatever its size."""
    if isinstance(v, (int, Fraction)) and v and (abs(v) > MAX_FLOAT or abs(v) < TINY):
        return 'a value of about 2**%d' % (Fraction(v).numerator.bit_length() - Fraction(v).denominator.bit_length())
    return str(float(v)) if isinstance(v, Fraction) else repr(v)


def same_value(got, want):
    """Does a reported value equal the exact expectation?"""
    if want is None or got is None:
        return got is None and want is None
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    if isinstance(got, bool) or not isinstance(got, (int, float)):
        return False
    if isinstance(want, Fraction):
        if isinstance(got, float) and abs(want) > MAX_FLOAT:
            # beyond what a float can hold
            return got == (math.inf if want > 0 else -math.inf)
        if abs(want) < TINY:
            # powers of ten down there lose digits and end in 0
            return math.isfinite(got) and abs(Fraction(got) - want) <= abs(want) * Fraction(1, 10 ** 12) + Fraction(1, 10 ** 303)
        g = Fraction(got) if not (isinstance(got, float) and (math.isinf(got) or math.isnan(got))) else None
        if g is None:
            return False
        return abs(g - want) <= abs(want) * Fraction(1, 10 ** 12)
    if isinstance(want, float):
        return got == want
    return got == want


# ---------------------------------------------------------------------------
# model definitions

class PT(object):
    def __init__(self, id, type, regs, offset, access='r', mandatory=None, sf=None, units=None):
        self.id = id
        self.type = type
        self.regs = regs
        self.offset = offset
        self.access = access
        self.mandatory = mandatory
        self.sf = sf
        self.units = units
        self.label = self.desc = self.notes = None
        self.symbols = []            # [{'id','value','label','desc','notes'}]


class BT(object):
    def __init__(self, kind, points, length, name=None):
        self.kind = kind
        self.points = points
        self.len = length
        self.name = name

    def real_points(self):
        return [p for p in self.points if p.type not in ('pad', 'sunssf')]

    def sf_points(self):
        return [p for p in self.points if p.type == 'sunssf']


class MD(object):
    def __init__(self, id, fixed, rep=None, name=None):
        self.id = id
        self.fixed = fixed
        self.rep = rep
        self.name = name
        self.label = self.desc = self.notes = None
        self.strings = True
        self.order = None                # the document lists points in another order than that of their offsets

    @property
    def len(self):
        return self.fixed.len + (self.rep.len if self.rep else 0)

    def blocks(self, nrep):
        return [self.fixed] + [self.rep] * nrep

    def total(self, nrep):
        return self.fixed.len + nrep * (self.rep.len if self.rep else 0)

    def has_strings(self):
        if self.label or self.desc or self.notes:
            return True
        for b in (self.fixed, self.rep):
            if b:
                for p in b.points:
                    if p.label or p.desc or p.notes or any(s.get('label') or s.get('desc') or s.get('notes') for s in p.symbols):
                        return True
        return False


def _attr(name, v):
    return '' if v is None else ' %s=%s' % (name, quoteattr(str(v)))


def smdx(md, explicit=False):
    """Render a definition as an SMDX document."""
    o = ['<sunSpecModels v="1">']
    o.append(' <model%s%s%s>' % (_attr('id', md.id), _attr('len', md.len), _attr('name', md.name)))
    for b in (md.fixed, md.rep):
        if b is None:
            continue
        t = ' type="repeating"' if b.kind == 'repeating' else (' type="fixed"' if explicit else '')
        o.append('  <block%s%s%s>' % (_attr('len', b.len), t, _attr('name', b.name)))
        points = list(b.points)
        if md.order is not None:
            random.Random(md.order).shuffle(points)
        for p in points:
            a = _attr('id', p.id) + _attr('offset', p.offset) + _attr('type', p.type)
            if p.type == 'string' or getattr(p, 'explicit_len', False):
                a += _attr('len', p.regs)
            if p.access != 'r' or explicit:
                a += _attr('access', p.access)
            if p.mandatory is not None:
                a += _attr('mandatory', 'true' if p.mandatory else 'false')
            a += _attr('sf', p.sf) + _attr('units', p.units)
            if p.symbols:
                o.append('   <point%s>' % a)
                for s in p.symbols:
                    o.append('    <symbol%s>%s</symbol>' % (_attr('id', s['id']), s['value']))
                o.append('   </point>')
            else:
                o.append('   <point%s />' % a)
        o.append('  </block>')
    o.append(' </model>')
    if md.has_strings():
        o.append(' <strings%s locale="en">' % _attr('id', md.id))

        def texts(x, ind):
            for tag, v in (('label', x[0]), ('description', x[1]), ('notes', x[2])):
                if v is not None:
                    o.append('%s<%s>%s</%s>' % (ind, tag, escape(v), tag))
        o.append('  <model>')
        texts((md.label, md.desc, md.notes), '   ')
        o.append('  </model>')
        for b in (md.fixed, md.rep):
            if b is None:
                continue
            for p in b.points:
                if p.type == 'pad':
                    continue
                o.append('  <point%s>' % _attr('id', p.id))
                texts((p.label, p.desc, p.notes), '   ')
                for s in p.symbols:
                    if s.get('label') or s.get('desc') or s.get('notes'):
                        o.append('   <symbol%s>' % _attr('id', s['id']))
                        texts((s.get('label'), s.get('desc'), s.get('notes')), '    ')
                        o.append('   </symbol>')
                o.append('  </point>')
        o.append(' </strings>')
    o.append('</sunSpecModels>')
    return '\n'.join(o)


def common_md(length=66):
    """Common model (id 1), the same definition in every case."""
    pts = [('Mn', 'string', 16, 0), ('Md', 'string', 16, 16), ('Opt', 'string', 8, 32), ('Vr', 'string', 8, 40),
           ('SN', 'string', 16, 48), ('DA', 'uint16', 1, 64), ('Pad', 'pad', 1, 65)]
    fixed = BT('fixed', [PT(i, t, n, o, access='rw' if i == 'DA' else 'r') for i, t, n, o in pts], 66)
    md = MD(1, fixed, None, 'common')
    md.label = 'Common'
    return md


def rand_block(rng, kind, size, prefix, outer_sf=(), scaling=True, gaps=True, max_string=40, types=None, sf_first=None):
    """A block of roughly `size` registers."""
    pts = []
    off = 0
    n = 0
    nsf = rng.choice([0, 1, 1, 2, 3]) if scaling else 0
    sfs = ['%s_SF%d' % (prefix, i) for i in range(nsf)]
    pending = list(sfs)
    pool = types or ALL_TYPES
    if sf_first is None:
        sf_first = rng.random() < .3
    while off < size or pending:
        if pending and (sf_first or off >= size or rng.random() < .12):
            pts.append(PT(pending.pop(0), 'sunssf', 1, off, mandatory=rng.choice([None, True, False])))
            off += 1
            continue
        r = rng.random()
        if gaps and r < .06:
            pts.append(PT('%s_Pad%d' % (prefix, n), 'pad', 1, off))
            off += 1
            n += 1
            continue
        if gaps and r < .08:
            off += rng.randint(1, 3)            # registers no point covers
            continue
        t = rng.choice(pool)
        regs = REGS[t]
        if t == 'string':
            regs = rng.choice([1, 2, 4, 8, 16, rng.randint(1, max_string)])
        p = PT('%s%d_%s' % (prefix, n, t), t, regs, off,
               access=rng.choice(['r', 'rw', 'rw']), mandatory=rng.choice([None, True, False]),
               units=rng.choice([None, 'A', 'W', 'Hz', 'V', 'Tmp&C']))
        if scaling and t in SCALABLE and rng.random() < .6:
            c = rng.random()
            cand = list(sfs) + (list(outer_sf) if c < .5 else [])
            if c > .85 or not cand:
                p.sf = str(rng.randint(-10, 10))
            else:
                p.sf = rng.choice(cand)
        pts.append(p)
        off += regs
        n += 1
    if gaps and rng.random() < .15:
        off += rng.randint(1, 2)
    return BT(kind, pts, off)


def rand_md(rng, id, size=None, rep=None, name=None, rep_size=None, **kw):
    if size is None:
        size = rng.choice([1, 4, 12, 30, 60, 110, 124, 125, 126, 160, 250, 400])
    fixed = rand_block(rng, 'fixed', size, 'F', **kw)
    if rep is None:
        rep = rng.random() < .45
    r = None
    if rep:
        fsf = [p.id for p in fixed.sf_points()]
        r = rand_block(rng, 'repeating', rep_size or rng.choice([1, 2, 6, 14, 30, 50]), 'R', outer_sf=fsf, **kw)
        if rng.random() < .04:
            # nothing but pads and scale factors
            r.points = [p for p in r.points if p.type in ('pad', 'sunssf')] or [PT('R_Pad', 'pad', 1, 0)]
        if rng.random() < .5:
            r.name = 'rep%d' % id
        if fsf and rng.random() < .5:
            # a scale factor of the repeating block with the id of one in the fixed block
            own = r.sf_points()
            if own:
                q = rng.choice(own)
                old, q.id = q.id, rng.choice(fsf)
                for p in r.points:
                    if p.sf == old:
                        p.sf = q.id
    md = MD(id, fixed, r, name)
    if rng.random() < .08:
        md.order = rng.getrandbits(30)
    return md


def rand_symbols(rng, md):
    for b in (md.fixed, md.rep):
        if b is None:
            continue
        for p in b.points:
            if p.type in ('enum16', 'enum32', 'bitfield16', 'bitfield32') and rng.random() < .7:
                for k in range(rng.randint(1, 4) if rng.random() < .98 else rng.randint(42, 70)):
                    s = {'id': 'SYM_%d' % k, 'value': str(k * 3)}
                    if rng.random() < .6:
                        s['label'] = 'sym label %d' % k
                    if rng.random() < .3:
                        s['desc'] = 'sym desc <%d>' % k
                    if rng.random() < .3:
                        s['notes'] = 'sym notes & %d' % k
                    p.symbols.append(s)
            if p.type != 'pad':
                if rng.random() < .5:
                    p.label = 'Label of %s' % p.id
                if rng.random() < .3:
                    p.desc = 'Desc of %s & more' % p.id
                if rng.random() < .3:
                    p.notes = 'Notes <%s>' % p.id
    if rng.random() < .7:
        md.label = 'Model label %d' % md.id
    if rng.random() < .4:
        md.desc = 'Model desc'
    if rng.random() < .4:
        md.notes = 'Model notes'


class Store(object):
    """A scratch directory with definition files."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vf_smdx_')

    def put(self, md, **kw):
        with open(os.path.join(self.dir, 'smdx_%05d.xml' % md.id), 'w', encoding='utf-8') as f:
            f.write(smdx(md, **kw))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ---------------------------------------------------------------------------
# register images

class ModelImage(object):
    """One model instance in a device image."""

    def __init__(self, md, nrep=0, mlen=None, id=None):
        self.md = md                     # None: unknown model
        self.id = md.id if md else id
        self.nrep = nrep
        self.len = md.total(nrep) if mlen is None else mlen
        self.addr = None                 # first register after the header
        self.data = bytearray(2 * self.len)

    def blocks(self):
        """[(block definition, index, address, length)]"""
        out = []
        a = self.addr
        for i, b in enumerate(self.md.blocks(self.nrep)):
            ln = b.len
            if self.md.id == 1 and self.len == 65:
                ln = 65
            out.append((b, i, a, ln))
            a += ln
        return out

    def each(self):
        """Yield (block index, point definition, address) of every non-pad point."""
        for b, i, a, ln in self.blocks():
            for p in b.points:
                if p.type != 'pad':
                    yield i, p, a + p.offset

    def raw(self, addr, regs):
        o = 2 * (addr - self.addr)
        return bytes(self.data[o:o + 2 * regs])

    def put(self, addr, b):
        o = 2 * (addr - self.addr)
        assert 0 <= o and o + len(b) <= len(self.data), (addr, self.addr, len(b), self.len)
        self.data[o:o + len(b)] = b

    def randomize(self, rng, punimpl=.15, sfrange=(-10, 10)):
        for i in range(len(self.data)):
            self.data[i] = rng.getrandbits(8)
        if self.md is None:
            return
        for i, p, a in self.each():
            if p.type == 'sunssf':
                v = -32768 if rng.random() < punimpl else rng.choice([0, 1, -1, -2, -3, rng.randint(*sfrange)])
                self.put(a, struct.pack('>h', v))
            elif rng.random() < punimpl:
                self.put(a, unimpl(p.type, p.regs))
            else:
                self.put(a, encode(p.type, rand_value(rng, p.type, p.regs), p.regs))

    def sf_of(self, bi, p):
        """Scale factor in effect for a point: int, or None (none/unimplemented)."""
        if p.sf is None:
            return None
        try:
            return int(p.sf)
        except ValueError:
            pass
        for b, i, a, ln in self.blocks():
            if i == bi:
                for q in b.points:
                    if q.type == 'sunssf' and q.id == p.sf:
                        return decode('sunssf', self.raw(a + q.offset, 1))
        b, i, a, ln = self.blocks()[0]
        for q in b.points:
            if q.type == 'sunssf' and q.id == p.sf:
                return decode('sunssf', self.raw(a + q.offset, 1))
        raise AssertionError('unresolvable sf')

    def expected(self):
        """{(block index, point id): (address, raw value or None, scale factor or None, exact value)}"""
        out = {}
        for bi, p, a in self.each():
            raw = decode(p.type, self.raw(a, p.regs))
            if p.type == 'sunssf':
                out[bi, p.id] = (a, raw, None, raw)
                continue
            sf = self.sf_of(bi, p) if raw is not None else None
            out[bi, p.id] = (a, raw, sf, scaled(raw, sf))
        return out


class DeviceImage(object):
    def __init__(self, base, models, end_len=None, tail=b''):
        self.base = base
        self.models = models
        a = base + 2
        for m in models:
            m.addr = a + 2
            a += 2 + m.len
        self.end = a
        self.end_len = end_len           # None: device supplies nothing after the end marker
        self.tail = tail

    def bytes(self):
        o = bytearray(b'SunS')
        for m in self.models:
            o += struct.pack('>HH', m.id, m.len)
            o += m.data
        o += b'\xff\xff'
        if self.end_len is not None:
            o += struct.pack('>H', self.end_len)
        return bytes(o) + self.tail

    def load(self, unit):
        unit.load(self.base, self.bytes())

    def sync(self, unit):
        """Refresh the image from the unit's registers."""
        for m in self.models:
            m.data[:] = unit.get(m.addr, m.len)


def mbmap_xml(image, func=None, chunk=None):
    """A mapped-device document holding the image."""
    b = image.bytes()
    o = ['<mbmap addr="%d"%s>' % (image.base, '' if func is None else ' func="%s"' % func)]
    chunk = chunk or max(1, len(b) // 2)
    for i in range(0, len(b) // 2, chunk):
        part = b[2 * i:2 * (i + chunk)]
        o.append('<regs offset="%d" len="%d" access="rw">%s</regs>' % (i, len(part) // 2, part.hex()))
    o.append('</mbmap>')
    return '\n'.join(o)

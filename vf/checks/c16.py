"""C16: encoders, decoders and reserved patterns of every point type."""
import struct
import xml.etree.ElementTree as ET

from .. import ref
from ..env import device, suns, util

ID = 'C16'
LEVEL = 'exploration'
TECH = 'encode/decode monitors against struct-level reference, exhaustive for 16-bit types'
RULE = ('For every type, through the type table, a parsed point definition and the named helper functions: all 65536 patterns of 16-bit '
        'types, boundary, single-bit, near-reserved and random patterns of larger ones. Each pattern is decoded, tested for "not '
        'implemented" and encoded back; each value is encoded, compared byte by byte and decoded back, also from its text; values outside '
        'the range (near, double, far, wrong sign) and addresses of the wrong size must raise. Distinct by type and pattern.')
ASSUMPTIONS = ['strings neither start nor end with NUL and fit their length', 'acc64 counters are between 0 and 2^63-1, what lies outside is not judged', 'an all-zero EUI-48 is not judged']

HELPERS = {'int16': 's16', 'uint16': 'u16', 'count': 'u16', 'acc16': 'u16', 'enum16': 'u16', 'bitfield16': 'u16', 'sunssf': 's16', 'pad': 's16',
           'int32': 's32', 'uint32': 'u32', 'acc32': 'u32', 'enum32': 'u32', 'bitfield32': 'u32', 'ipaddr': 'u32', 'int64': 's64',
           'uint64': 'u64'}
TYPES = sorted(ref.REGS)
PAD = {'pad': (1, '>h', -32768)}


def point_type(t, regs=None):
    mt = device.ModelType()
    mt.from_smdx(ET.fromstring('<sunSpecModels v="1"><model id="9" len="%d"><block len="%d"><point id="P" offset="0" type="%s"%s/></block></model>'
                               '</sunSpecModels>' % (regs or 8, regs or 8, t, ' len="%d"' % regs if regs else '')))
    return mt.fixed_block.points['P']


def codecs(t, regs=None):
    """[(name, to_data, from_data, is_impl, to_value, length)] of a type."""
    pt = point_type(t, regs)
    out = [('definition', lambda v: pt.to_data(v, int(pt.len) * 2), pt.data_to, pt.is_impl, pt.to_value, pt.len)]
    e = suns.suns_point_type_info[t]
    n = e[0] if regs is None else regs
    out.append(('table', lambda v: e[3](v, n * 2), e[2], e[1], e[4], n))
    h = HELPERS.get(t)
    if h:
        out.append(('helpers', getattr(util, h + '_to_data'), getattr(util, 'data_to_' + h), None, None, None))
    return out


def int_info(t):
    return PAD.get(t) or ref.INT[t]


def int_pattern(ctx, t, cs, b):
    regs, code, res = int_info(t)
    v = struct.unpack(code, b)[0]
    for name, enc, dec, impl, tov, n in cs:
        if t == 'acc64' and v >= 1 << 63:
            return
        ctx.eq(dec(b), v, '%s (%s): decoding %s' % (t, name, b.hex()), 'decode')
        e = enc(v)
        ctx.check(bytes(e) == b and isinstance(e, bytes), '%s (%s): %d encoded as %r, not %s' % (t, name, v, e, b.hex()), 'encode')
        if impl is not None:
            ctx.check(bool(impl(v)) == (v != res), '%s (%s): %d is reported as %simplemented' % (t, name, v, '' if impl(v) else 'not '), 'reserved')
            if v == res:
                ctx.count('reserved_seen')
    ctx.count('patterns_' + t)


def sweep16(ctx):
    """One sixteenth of the patterns of one 16-bit type."""
    types = [t for t in TYPES if t in int_like() and int_info(t)[0] == 1]
    t = types[(ctx.idx // 16) % len(types)]
    cs = codecs(t)
    part = ctx.idx % 16
    for x in range(part * 4096, (part + 1) * 4096):
        int_pattern(ctx, t, cs, struct.pack('>H', x))
    ctx.count('sweeps')
    ctx.seen(t, part)


def int_like():
    return list(ref.INT) + ['pad']


def patterns(rng, regs, n):
    bits = 16 * regs
    out = {0, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, 1, (1 << bits) - 2, (1 << (bits - 1)) + 1}
    for k in range(bits):
        out |= {1 << k, (1 << bits) - 1 - (1 << k), (1 << k) - 1, (1 << (bits - 1)) ^ (1 << k)}
    for k in range(2 * regs):
        out.add(0xff << (8 * k))
        out.add(rng.randint(1, 255) << (8 * k))
    while len(out) < n:
        r = rng.random()
        out.add(rng.getrandbits(bits) if r < .8 else rng.getrandbits(rng.randint(1, bits)))
    return [x.to_bytes(2 * regs, 'big') for x in out]


def wide(ctx):
    rng = ctx.rng
    types = [t for t in int_like() if int_info(t)[0] > 1]
    t = types[ctx.idx % len(types)]
    regs = int_info(t)[0]
    cs = codecs(t)
    for b in patterns(rng, regs, 1200):
        int_pattern(ctx, t, cs, b)
        ctx.seen(t, b)


def refused(ctx, enc, v, what):
    try:
        b = enc(v)
    except Exception:
        ctx.count('refused')
        return
    ctx.fail('%s: %r was encoded as %r' % (what, v, b), 'out-of-range')


def ranges(ctx):
    """Values outside the range; texts."""
    rng = ctx.rng
    t = int_like()[ctx.idx % len(int_like())]
    regs, code, res = int_info(t)
    bits = 16 * regs
    signed = code[1].islower()
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    for name, enc, dec, impl, tov, n in codecs(t):
        if n is not None:
            ctx.eq(n, regs, '%s (%s): registers' % (t, name), 'registers')
        far = [hi + 1, lo - 1, 2 * hi + 1, 2 * hi + 2, lo - 2, 1 << bits, (1 << bits) + 5, -(1 << bits), 1 << 70, -(1 << 70), hi + rng.randint(1, 1 << bits),
               lo - rng.randint(1, 1 << bits)]
        if signed:
            far += [(1 << bits) - 1, (1 << (bits - 1))]
        for v in far:
            if t == 'acc64' and -(1 << 63) <= v < 1 << 64:
                continue
            refused(ctx, enc, v, '%s (%s)' % (t, name))
        for v in ('abc', None, '1'):
            refused(ctx, enc, v, '%s (%s)' % (t, name))
        if tov is not None:
            for _ in range(20):
                v = ref.rand_int(rng, t) if t != 'pad' else rng.randint(lo, hi)
                ctx.eq(tov(v), v, '%s (%s): value of a number' % (t, name), 'to-value')
                ctx.eq(tov(str(v)), v, '%s (%s): value of text' % (t, name), 'to-value')
                if v >= 0:
                    ctx.eq(tov(hex(v)), v, '%s (%s): value of hexadecimal text' % (t, name), 'to-value')
                    ctx.eq(tov('0x%X' % v), v, '%s (%s): value of hexadecimal text' % (t, name), 'to-value')
                ctx.eq(dec(enc(tov(str(v)))), v, '%s (%s): text through registers' % (t, name), 'to-value')
                ctx.count('texts')
    ctx.seen('range', t, ctx.idx)


def float_case(ctx):
    rng = ctx.rng
    pats = patterns(rng, 2, 600)
    for _ in range(100):
        # around infinities and NaNs
        x = 0x7f800000 + rng.choice([0, 1, -1, 0x400000, 0x3fffff, rng.randint(0, 0x7fffff)])
        pats.append((x | rng.choice([0, 1 << 31])).to_bytes(4, 'big'))
    pats.append(b'\x7f\xc0\x00\x00')
    cs = codecs('float32')
    ctx.eq(cs[0][5], 2, 'float32: registers', 'registers')
    for b in pats:
        v = struct.unpack('>f', b)[0]
        for name, enc, dec, impl, tov, n in cs:
            g = dec(b)
            if v != v:
                ctx.check(not impl(g), 'float32 (%s): NaN %s is implemented' % (name, b.hex()), 'reserved')
                ctx.count('reserved_seen')
                continue
            ctx.eq(g, v, 'float32 (%s): decoding %s' % (name, b.hex()), 'decode')
            ctx.check(impl(g), 'float32 (%s): %r is reported as not implemented' % (name, g), 'reserved')
            ctx.check(bytes(enc(g)) == b, 'float32 (%s): %r encoded as %s, not %s' % (name, g, enc(g).hex(), b.hex()), 'encode')
            ctx.eq(tov(repr(v)), v, 'float32 (%s): value of text' % name, 'to-value')
            ctx.eq(tov(v), v, 'float32 (%s): value of a number' % name, 'to-value')
        for f in (util.float32_to_data, util.float_to_data32):
            if v == v:
                ctx.check(f(v) == b, '%s of %r' % (f.__name__, v), 'encode')
        d = struct.pack('>d', v)
        if v == v:
            ctx.check(util.float_to_data(v) == d and util.data_to_double(d) == v, 'double %r' % v, 'double')
        ctx.count('patterns_float32')
        ctx.seen('f', b)
    for name, enc, dec, impl, tov, n in cs:
        for v in (3.5e38, -3.5e38, 1e300, -1e308, rng.uniform(4e38, 1e300)):
            refused(ctx, enc, v, 'float32 (%s)' % name)
        for _ in range(50):
            v = rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 37)
            want = struct.unpack('>f', struct.pack('>f', v))[0]
            ctx.eq(dec(enc(v)), want, 'float32 (%s): %r through registers' % (name, v), 'nearest')


def string_case(ctx):
    rng = ctx.rng
    regs = rng.choice([1, 2, 3, 8, 16, rng.randint(1, 100)]) if rng.random() < .97 else rng.choice([127, 128, 129, 300, 2000])
    cs = codecs('string', regs)
    ctx.eq(cs[0][5], regs, 'string: registers', 'registers')
    texts = [ref.rand_text(rng, n) for n in {1, 2 * regs - 1, 2 * regs, rng.randint(1, 2 * regs)} if n]
    texts += ['%s' % c for c in rng.sample([chr(x) for x in range(1, 256)], 8)] + ['A' * (2 * regs), ' ' * (2 * regs)]
    if regs > 1:
        # NULs inside belong to the text
        for _ in range(4):
            s = ref.rand_text(rng, rng.randint(3, 2 * regs))
            k = rng.randint(1, len(s) - 2)
            texts.append(s[:k] + '\0' * rng.randint(1, len(s) - 1 - k) + s[-1])
            texts[-1] = texts[-1][:2 * regs]
    for s in texts:
        raw = s.encode('latin-1')
        b = raw + b'\0' * (2 * regs - len(raw))
        for name, enc, dec, impl, tov, n in cs:
            e = enc(s)
            ctx.check(bytes(e) == b, 'string[%d] (%s): %r encoded as %r' % (regs, name, s, e), 'encode')
            g = dec(b)
            ctx.eq(g, s, 'string[%d] (%s): decoding %r' % (regs, name, b), 'decode')
            ctx.check(impl(g), 'string (%s): %r is reported as not implemented' % (name, s), 'reserved')
            ctx.eq(tov(s), s, 'string (%s): value of text' % name, 'to-value')
        ctx.count('patterns_string')
        ctx.seen('s', regs, s)
    for name, enc, dec, impl, tov, n in cs:
        ctx.check(bytes(enc('')) == b'\0' * (2 * regs), 'string (%s): empty text' % name, 'encode')
        ctx.check(not impl(dec(b'\0' * (2 * regs))), 'string (%s): zero registers are implemented' % name, 'reserved')
        ctx.count('reserved_seen')


def addr_case(ctx):
    rng = ctx.rng
    for t, n, lead in (('ipv6addr', 16, b''), ('eui48', 6, b'\0\0')):
        cs = codecs(t)
        ctx.eq(cs[0][5], ref.REGS[t], '%s: registers' % t, 'registers')
        vals = [bytes(rng.getrandbits(8) for _ in range(n)) for _ in range(30)]
        for k in range(n):
            vals.append(b'\0' * k + bytes([rng.randint(1, 255)]) + b'\0' * (n - 1 - k))
            vals.append(b'\xff' * k + bytes([rng.randint(0, 254)]) + b'\xff' * (n - 1 - k))
        for v in vals:
            b = lead + v
            want = ref.decode(t, b)
            if want is None:
                continue
            for name, enc, dec, impl, tov, ln in cs:
                g = dec(b)
                ctx.eq(g, want, '%s (%s): decoding %s' % (t, name, b.hex()), 'decode')
                ctx.check(impl(g), '%s (%s): %s is reported as not implemented' % (t, name, g), 'reserved')
                e = enc(g)
                ctx.check(bytes(e) == b, '%s (%s): %s encoded as %r' % (t, name, g, e), 'encode')
                ctx.check(bytes(enc(g.replace(':', ''))) == b, '%s (%s): %s without colons' % (t, name, g), 'encode')
                ctx.eq(tov(g), g, '%s (%s): value of text' % (t, name), 'to-value')
            ctx.count('patterns_' + t)
            ctx.seen(t, b)
        for name, enc, dec, impl, tov, ln in cs:
            h = vals[0].hex().upper()
            for bad in (h[:-1], h[:-2], h + '0', h + '00', h[:4], '', 'G' + h[1:], h + h, 'FE80::12' if t == 'ipv6addr' else '1:2:3:4:5:6:7', h[:-2] + '::'):
                refused(ctx, enc, bad, '%s (%s)' % (t, name))
            z = ref.unimpl(t, ref.REGS[t])
            ctx.check(not impl(dec(z)), '%s (%s): the reserved pattern is implemented' % (t, name), 'reserved')
            ctx.count('reserved_seen')
    for f in ('ipv6addr', 'eui48'):
        g = getattr(util, 'data_to_' + f)
        if f == 'ipv6addr':
            ctx.eq(util.ipv6addr_to_data(g(b'\x01' * 16)), b'\x01' * 16, 'helpers of ipv6addr', 'encode')
        else:
            ctx.eq(util.eui48_to_data(g(b'\0\0' + b'\x01' * 6)), b'\0\0' + b'\x01' * 6, 'helpers of eui48', 'encode')


KINDS = {
    'sweep16': (sweep16, 16 * 8, 16 * 8),
    'wide': (wide, 180, 2700),
    'ranges': (ranges, 17 * 6, 17 * 200),
    'float': (float_case, 100, 1500),
    'string': (string_case, 1000, 6000),
    'addr': (addr_case, 300, 3000),
}
MIN = {'sweeps': 128, 'refused': 3000, 'texts': 2000, 'reserved_seen': 500, 'patterns_float32': 5000, 'patterns_string': 800,
       'patterns_ipv6addr': 2000, 'patterns_eui48': 1500}
for _t in TYPES:
    if _t in int_like():
        MIN['patterns_' + _t] = 65536 if int_info(_t)[0] == 1 else 3000

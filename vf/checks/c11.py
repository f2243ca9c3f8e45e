"""C11: Modbus maps against a sparse array of registers."""
import os

from .. import ref, rig
from ..env import client, mbmap, modbus

ID = 'C11'
LEVEL = 'exploration'
TECH = 'model-based history checking: every map operation mirrored on a sparse array'
RULE = ('Random histories of adding register groups (by offset and by address, ascending and not), reading with and without a function and '
        'writing on maps built through regs_add, from register groups, from documents and from hex files, directly and through mapped '
        'devices; each outcome and, after every operation, the whole contents are compared with a sparse array. Ranges are drawn around '
        'group borders. Distinct by history.')
ASSUMPTIONS = ['registers addressed by a refused write may hold old or new contents']

ERRS = (mbmap.ModbusMapError, modbus.ModbusClientError, client.SunSpecClientError)


def rbytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))


def groups_of(rng, n, adjacent=True):
    """[(offset, count)] ascending."""
    out = []
    off = rng.choice([0, 0, 0, 1, 5, 100])
    many = n > 1 and rng.random() < .03
    if many:
        n = rng.randint(45, 90)
    for i in range(n):
        c = rng.randint(1, 3) if many else rng.choice([1, 1, 2, 3, 10, 66, rng.randint(1, 200)]) if rng.random() < .99 else rng.randint(1000, 12000)
        out.append((off, c))
        off += c + (rng.choice([0, 1, 1, 2, 50]) if adjacent else rng.choice([1, 1, 2, 50]))
    return out


class Model(object):
    def __init__(self, base, func):
        self.base = base
        self.func = func
        self.regs = {}

    def add(self, off, n, data=None):
        for k in range(n):
            self.regs[self.base + off + k] = data[2 * k:2 * k + 2] if data else b'\0\0'

    def end(self):
        return max(self.regs) + 1 - self.base if self.regs else 0

    def get(self, addr, n):
        if any(a not in self.regs for a in range(addr, addr + n)):
            return None
        return b''.join(self.regs[a] for a in range(addr, addr + n))


def pick_range(rng, m):
    if not m.regs or rng.random() < .05:
        return rng.randint(0, 65535), rng.randint(1, 20)
    keys = sorted(m.regs)
    edges = [a for a in keys if a - 1 not in m.regs or a + 1 not in m.regs]
    a = rng.choice(edges) if rng.random() < .5 else rng.choice(keys)
    a += rng.choice([0, 0, 0, -1, 1, -2, 3])
    n = rng.choice([1, 1, 2, 3, rng.randint(1, 30), rng.randint(1, 300)])
    if len(keys) > 1000 and rng.random() < .3:
        n = rng.randint(1, len(keys))
    if rng.random() < .3:                       # exactly to an edge
        ends = [e for e in edges if e >= a]
        if ends:
            n = max(1, min(ends) + 1 - a + rng.choice([0, 0, 1]))
    return a, n


def run_history(ctx, io, m, add=None):
    rng = ctx.rng
    log = []
    adds = 0
    for step in range(rng.randint(5, 30)):
        op = rng.choice(['read', 'read', 'read', 'write', 'write', 'add'])
        if op == 'add' and (add is None or adds > 5):
            op = 'write'
        if op == 'read':
            a, n = pick_range(rng, m)
            f = rng.choice([None, None, 3, 4]) if io.func else None
            want = m.get(a, n)
            if f is not None and f != m.func:
                want = None
            try:
                got = io.read(a, n, f)
            except ERRS:
                got = None
            log.append((op, a, n, f, want is not None))
            if want is None:
                ctx.check(got is None, 'reading %d registers at %d with function %s succeeded' % (n, a, f), 'read-outside', log=log)
                ctx.count('reads_refused')
            else:
                ctx.check(got == want, 'reading %d registers at %d returned other contents' % (n, a), 'read', log=log, got=got, want=want)
                ctx.count('reads')
        elif op == 'write':
            a, n = pick_range(rng, m)
            data = rbytes(rng, 2 * n)
            odd = rng.random() < .05
            if odd:
                data += b'x'
            ok = m.get(a, n) is not None and not odd
            try:
                io.write(a, data)
                done = True
            except ERRS:
                done = False
            log.append((op, a, n, odd, ok))
            ctx.check(done == ok, 'writing %s bytes at %d %s' % (len(data), a, 'succeeded' if done else 'failed'), 'write-accept', log=log)
            for k in range(n):
                if a + k not in m.regs:
                    continue
                new = data[2 * k:2 * k + 2]
                if done:
                    m.regs[a + k] = new
                else:
                    got = io.read(a + k, 1, None)
                    ctx.check(got in (m.regs[a + k], new), 'a refused write left register %d with other contents' % (a + k), 'write', log=log)
                    m.regs[a + k] = got
            ctx.count('writes' if done else 'writes_refused')
        else:
            adds += 1
            end = m.end()
            off = end + rng.choice([0, 0, 1, 3, 20, -1, -2, -end, -end - 1])
            n = rng.choice([1, 2, 5, 40])
            by_addr = rng.random() < .5
            ok = off >= end
            try:
                add(off, n, by_addr)
                done = True
            except ERRS:
                done = False
            log.append((op, off, n, by_addr, ok))
            ctx.check(done == ok, 'adding %d registers at offset %d after %d %s' % (n, off, end, 'succeeded' if done else 'failed'), 'add', log=log)
            if done:
                m.add(off, n)
            ctx.count('adds' if done else 'adds_refused')
        whole(ctx, io, m, log)
    ctx.seen(m.func, m.base, log)
    ctx.note(base=m.base, registers=len(m.regs), log=log[:10])


def whole(ctx, io, m, log):
    """The entire contents, run by run, and the registers beside each run."""
    keys = sorted(m.regs)
    i = 0
    while i < len(keys):
        j = i
        while j + 1 < len(keys) and keys[j + 1] == keys[j] + 1:
            j += 1
        try:
            got = io.read(keys[i], j - i + 1, None)
        except ERRS as e:
            ctx.fail('reading %d registers at %d failed: %s' % (j - i + 1, keys[i], e), 'read', log=log)
        want = m.get(keys[i], j - i + 1)
        if got != want:
            d = [k for k in range(len(want) // 2) if got[2 * k:2 * k + 2] != want[2 * k:2 * k + 2]]
            ctx.fail('register %s differs' % [keys[i] + k for k in d[:4]], 'contents', log=log)
        ctx.count('registers_compared', j - i + 1)
        i = j + 1


class Io(object):
    def __init__(self, read, write, func=True):
        self.read = read
        self.write = write
        self.func = func


def direct_case(ctx):
    rng = ctx.rng
    func = rng.choice([3, 3, 4])
    base = rng.choice([40000, 0, 50000, rng.randint(0, 60000)])
    kind = rng.choice(['regs_add', 'groups', 'groups'])
    kw = {}
    if base != 40000 or rng.random() < .5:
        kw['base_addr'] = base
    else:
        base = 40000
    if func == 4 or rng.random() < .5:
        kw['func'] = mbmap.MBMAP_FUNC_INPUT if func == 4 else mbmap.MBMAP_FUNC_HOLDING
    mm = mbmap.ModbusMap(rng.choice([1, None]), **kw)
    m = Model(base, func)
    for off, n in groups_of(rng, rng.randint(0 if kind == 'regs_add' else 1, 6)):
        if kind == 'groups':
            data = rbytes(rng, 2 * n)
            mm.regs.append(mbmap.ModbusMapRegs(off, n, data, mbmap.MBMAP_REGS_ACCESS_RW))
            m.add(off, n, data)
        else:
            g = mm.regs_add(offset=off, count=n) if rng.random() < .5 else mm.regs_add(addr=base + off, count=n)
            if n and rng.random() < .3:
                # the group it went to is returned
                data = rbytes(rng, 2 * n)
                g.write(off, data)
                m.add(off, n, data)
                ctx.count('filled_groups')
            else:
                m.add(off, n)

    def add(off, n, by_addr):
        if by_addr:
            mm.regs_add(addr=base + off, count=n)
        else:
            mm.regs_add(offset=off, count=n)
    io = Io(lambda a, n, f: mm.read(a, n) if f is None else mm.read(a, n, f), mm.write)
    ctx.count('kind_' + kind)
    run_history(ctx, io, m, add)


def document(rng, m, groups, func):
    o = ['<mbmap addr="%d" func="%s">' % (m.base, 'input' if func == 4 else 'holding')]
    for off, n in groups:
        data = rbytes(rng, 2 * n)
        m.add(off, n, data)
        # one group may be given as several adjacent entries
        pos = 0
        while pos < n:
            k = n - pos if rng.random() < .6 else rng.randint(1, n - pos)
            o.append(' <regs offset="%d" len="%d" access="rw">%s</regs>' % (off + pos, k, data[2 * pos:2 * (pos + k)].hex()))
            pos += k
    return '\n'.join(o + ['</mbmap>'])


def file_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        func = rng.choice([3, 3, 4])
        base = rng.choice([40000, 0, 50000, rng.randint(0, 60000)])
        m = Model(base, func)
        path = os.path.join(w.store.dir, 'm.xml')
        kind = rng.choice(['from_xml', 'mapped', 'client', 'hex'])
        add = None
        if kind == 'hex':
            m.base, m.func = 40000, 3
            n = rng.choice([1, 3, 70, 300])
            data = rbytes(rng, 2 * n)
            m.add(0, n, data)
            lines = ['# comment']
            pos = 0
            while pos < 2 * n:
                k = rng.randint(1, 20)
                lines.append(' '.join('%02x' % b for b in data[pos:pos + k]))
                pos += k
                if rng.random() < .2:
                    lines.append(rng.choice(['', '# 00 11', '#']))
            with open(path, 'w') as f:
                f.write('\n'.join(lines) + rng.choice(['', '\n']))
            mm = mbmap.ModbusMap()
            try:
                mm.from_hex(path)
            except IndexError:
                ctx.fail('an empty line', 'hex')
            io = Io(lambda a, n, f: mm.read(a, n) if f is None else mm.read(a, n, op=f), mm.write)
        else:
            with open(path, 'w') as f:
                f.write(document(rng, m, groups_of(rng, rng.randint(1, 6)), func))
            if kind == 'from_xml':
                mm = mbmap.ModbusMap(1)
                mm.from_xml(path)
                io = Io(lambda a, n, f: mm.read(a, n) if f is None else mm.read(a, n, f), mm.write)

                def add(off, n, by_addr):
                    if by_addr:
                        mm.regs_add(addr=base + off, count=n)
                    else:
                        mm.regs_add(offset=off, count=n)
            elif kind == 'mapped':
                d = modbus.ModbusClientDeviceMapped(1, path)
                io = Io(lambda a, n, f: d.read(a, n) if f is None else d.read(a, n, op=f), d.write)
            else:
                d = client.ClientDevice(client.MAPPED, 1, name=path)
                io = Io(lambda a, n, f: d.read(a, n), d.write, func=False)
        ctx.count('kind_' + kind)
        whole(ctx, io, m, [kind])
        run_history(ctx, io, m, add)


def regs_case(ctx):
    """One register block used by itself: contents, borders, appending."""
    rng = ctx.rng
    off = rng.choice([0, 1, 70, rng.randint(0, 60000)])
    n = rng.choice([1, 2, 10, rng.randint(1, 200)])
    want = rbytes(rng, 2 * n)
    acc = rng.choice([mbmap.MBMAP_REGS_ACCESS_R, mbmap.MBMAP_REGS_ACCESS_RW])
    r = mbmap.ModbusMapRegs(off, n, want, acc) if rng.random() < .8 or acc != 'r' else mbmap.ModbusMapRegs(off, n, want)
    log = []
    for step in range(rng.randint(3, 25)):
        op = rng.choice(['read', 'read', 'write', 'write', 'append'])
        a = off + rng.choice([0, 0, -1, -2, n, n - 1, n + 1, rng.randrange(n), rng.randrange(n)])
        c = rng.choice([1, 2, max(1, off + n - a), max(1, off + n - a + 1), rng.randint(1, n + 3)])
        inside = a >= off and a + c <= off + n
        log.append((op, a, c))
        if op == 'read':
            try:
                got = r.read(a, c)
            except mbmap.ModbusMapError:
                got = 'refused'
            if inside:
                ctx.check(got == want[2 * (a - off):2 * (a - off + c)], 'reading %d registers at %d of a block returned other contents' % (c, a), 'read', log=log)
                ctx.count('reads')
            elif a < off or a >= off + n:
                ctx.check(got == 'refused', 'reading %d registers at %d outside a block succeeded' % (c, a), 'read-outside', log=log)
                ctx.count('reads_refused')
            else:                               # over the end: refused or only what there is
                ctx.check(got == 'refused' or got == want[2 * (a - off):], 'reading over the end of a block returned other contents', 'read', log=log)
        elif op == 'write':
            d = rbytes(rng, 2 * c)
            try:
                r.write(a, d)
                done = True
            except mbmap.ModbusMapError:
                done = False
            ctx.check(done == inside, 'writing %d registers at %d of a block %s' % (c, a, 'succeeded' if done else 'failed'), 'write-accept', log=log)
            if done:
                k = 2 * (a - off)
                want = want[:k] + d + want[k + 2 * c:]
            ctx.count('writes' if done else 'writes_refused')
        else:
            d = rbytes(rng, 2 * rng.randint(1, 20))
            r.append(off + n, len(d) // 2, d, acc)
            want += d
            n += len(d) // 2
        ctx.check((r.offset, r.count, bytes(r.data), r.access) == (off, n, want, acc), 'a block holds other contents', 'contents', log=log)
        ctx.count('blocks_compared')
    ctx.seen('regs', off, log)


KINDS = {
    'regs': (regs_case, 1000, 10000),
    'direct': (direct_case, 2500, 40000),
    'file': (file_case, 2500, 40000),
}
MIN = {'blocks_compared': 8000, 'reads': 10000, 'reads_refused': 3000, 'writes': 5000, 'writes_refused': 2000, 'adds': 1000, 'adds_refused': 1000,
       'kind_hex': 300, 'kind_mapped': 300, 'kind_client': 300}

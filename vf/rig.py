"""Device under simulation: definitions on disk, image in a unit, client objects."""
import contextlib
import os
import tempfile
import shutil

from . import ref, sim
from .env import client, device, modbus

TRANSPORTS = ('MAPPED', 'TCP', 'RTU')


def clear_caches():
    """Forget cached definitions between cases (ids are also unique per case)."""
    clear_caches_light()
    for d in registries(modbus, 'modbus_rtu_clients', getattr(modbus, 'ModbusClientRTU', None)):
        d.clear()


def clear_caches_light():
    """Forget cached definitions only; open ports stay registered."""
    for d in registries(device, 'model_types', getattr(device, 'ModelType', None)):
        d.clear()
    for v in list(vars(device).values()):
        f = getattr(v, 'cache_clear', None)
        if callable(f):
            f()


def registries(module, name, cls):
    """The dictionaries a module keeps instances of a class in, under whatever name (or in an object or class of the module)."""
    out = []
    for k, v in list(vars(module).items()):
        held = [v] if isinstance(v, dict) else []
        if not held and getattr(type(v), '__module__', None) == module.__name__ and hasattr(v, '__dict__'):
            held = [x for x in vars(v).values() if isinstance(x, dict)]
        elif isinstance(v, type) and v.__module__ == module.__name__:
            held = [x for x in vars(v).values() if isinstance(x, dict)]
        for d in held:
            if k == name or cls is not None and d and any(isinstance(x, cls) for x in d.values()):
                out.append(d)
    return out


_next_id = [100]


def fresh_id():
    """Model ids unique within the process, so that definition caching is invisible."""
    _next_id[0] += 1
    if _next_id[0] == 1000:
        _next_id[0] += 1                # used by C04 for a model nobody defines
    if _next_id[0] >= 60000:
        _next_id[0] = 101
    return _next_id[0]


def rand_chunks(rng, mode=None):
    """A function frame -> chunk sizes."""
    mode = mode or rng.choice(['whole', 'bytes', 'random', 'random', 'head', 'tail'])
    if mode == 'whole':
        return None

    def f(frame):
        n = len(frame)
        if mode == 'bytes':
            return [1] * n
        if mode == 'head':
            k = rng.randint(1, 8)
            return [1] * k + [n]
        if mode == 'tail':
            k = rng.randint(1, 8)
            return [max(1, n - k)] + [1] * k
        out = []
        while sum(out) < n:
            out.append(rng.randint(1, max(1, n // 2)))
        return out
    return f


class World(object):
    """Definitions + network for one case; a context manager."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.store = ref.Store()
        self.net = sim.Net(ctx)
        self.stack = contextlib.ExitStack()
        self.ports = 0
        self.closers = []

    def __enter__(self):
        clear_caches()
        self.stack.enter_context(self.net)
        self.stack.enter_context(device.fresh_file_pathlist(self.store.dir))
        return self

    def __exit__(self, et, ev, tb):
        try:
            self.stack.close()
        finally:
            self.store.close()
            clear_caches()
        return False

    def define(self, *mds):
        for md in mds:
            self.store.put(md)

    def attach(self, image, transport, unit_id=None, inputs=False, **kw):
        return Rig(self, image, transport, unit_id, **kw)

    def check_bad(self):
        bad = self.net.all_bad()
        if bad:
            self.ctx.fail('the device received a malformed request', 'malformed-request', bad=bad[:5])


class Rig(object):
    """One simulated device reachable over one transport."""

    def __init__(self, world, image, transport, unit_id=None, host='10.1.2.3', port=None, bus=None, pathlist=None,
                 **kw):
        self.world = world
        self.ctx = world.ctx
        self.image = image
        self.transport = transport
        self.unit_id = unit_id if unit_id is not None else world.rng.choice([1, 1, 2, 126, 247])
        self.station = None
        self.unit = None
        self.kw = dict(kw)
        self.obj = None
        rng = world.rng
        if transport == 'MAPPED':
            self.name = os.path.join(world.store.dir, 'map%d.xml' % world.ports)
            world.ports += 1
            total = len(image.bytes()) // 2
            with open(self.name, 'w') as f:
                f.write(ref.mbmap_xml(image, chunk=rng.choice([total, total, max(1, total // 2), 7 if total < 400 else 50])))
            self.args = dict(name=self.name)
        else:
            self.unit = sim.Unit()
            image.load(self.unit)
            if transport == 'TCP':
                port = port or 502 + world.ports
                world.ports += 1
                key = (host, port)
                if key in world.net.tcp:
                    self.station = world.net.tcp[key]
                    self.station.units[self.unit_id] = self.unit
                else:
                    self.station = world.net.add_tcp(host, port, {self.unit_id: self.unit})
                self.args = dict(ipaddr=host, ipport=port)
            else:
                bus = bus or '/dev/vfbus%d' % world.ports
                world.ports += 1
                if bus in world.net.buses:
                    self.station = world.net.buses[bus]
                    self.station.units[self.unit_id] = self.unit
                else:
                    self.station = world.net.add_bus(bus, {self.unit_id: self.unit})
                self.args = dict(name=bus)
        self.args.update(kw)

    @property
    def type(self):
        return {'MAPPED': client.MAPPED, 'TCP': client.TCP, 'RTU': client.RTU}[self.transport]

    def client(self):
        d = client.ClientDevice(self.type, slave_id=self.unit_id, **self.args)
        self.obj = d
        return d

    def scripting(self, **kw):
        a = dict(self.args)
        a.update(kw)
        d = client.SunSpecClientDevice(self.type, slave_id=self.unit_id, **a)
        self.obj = d.device
        return d

    def memory(self):
        """Current registers as seen by the device: {address: value}."""
        if self.transport == 'MAPPED':
            mm = self.obj.modbus_device.modbus_map
            out = {}
            base = int(mm.base_addr)
            for r in mm.regs:
                for k in range(int(r.count)):
                    out[base + int(r.offset) + k] = (r.data[2 * k] << 8) | r.data[2 * k + 1]
            return out
        return dict(self.unit.h)

    def set_memory(self, image):
        """Load an image's registers into the running device."""
        b = image.bytes()
        if self.transport == 'MAPPED':
            mm = self.obj.modbus_device.modbus_map
            base = int(mm.base_addr)
            for r in mm.regs:
                o = 2 * (base + int(r.offset) - image.base)
                r.data = b[o:o + 2 * int(r.count)]
        else:
            image.load(self.unit)

    def writes(self):
        return self.unit.writes if self.unit else None


def rand_device(world, nmodels=None, base=None, common=True, types=None, punimpl=.15, max_regs=1200, crowds=None, slack=0, **kw):
    """Random definitions and an image using them."""
    rng = world.rng
    if crowds is None:
        crowds = nmodels is None
    crowd = rng.choice(['models', 'models', 'instances', 'points', 'sf', 'far']) if crowds and rng.random() < .02 else None
    if crowd:
        return crowded_device(world, crowd, base, common, punimpl, slack)
    if nmodels is None:
        nmodels = rng.choice([1, 1, 2, 3, 4])
    models = []
    if common and rng.random() < .7:
        md = ref.common_md()
        world.define(md)
        models.append(ref.ModelImage(md, 0, rng.choice([66, 66, 65])))
    defs = []
    total = 0
    for i in range(nmodels):
        if defs and rng.random() < .3:
            md = rng.choice(defs)
        else:
            i = fresh_id()
            dense = rng.random() < .15          # long runs of writable neighbours
            md = ref.rand_md(rng, i, name=rng.choice([None, 'mod_%d' % i, 'mod_%d' % i]), **(dict(kw, gaps=False) if dense else kw))
            if dense:
                for b in (md.fixed, md.rep):
                    for p in b.points if b else ():
                        p.access = 'rw' if p.type != 'sunssf' else p.access
            if rng.random() < .5:
                ref.rand_symbols(rng, md)
            defs.append(md)
            world.define(md)
        nrep = 0
        if md.rep:
            nrep, lim = rng.choice([0, 1, 1, 2, 3, 5]), 600
            if rng.random() < .06:
                nrep, lim = rng.randint(98, 130), max(600, max_regs)     # more than two digits of index
            while nrep and md.total(nrep) > lim:
                nrep -= 1
            if nrep > 99:
                world.ctx.count('many_repeating')
        m = ref.ModelImage(md, nrep)
        if total + m.len > max_regs and models:
            break
        total += m.len
        models.append(m)
    if base is None:
        base = rng.choice([40000, 40000, 0, 50000])
    img = ref.DeviceImage(base, models, end_len=rng.choice([None, None, 0]))
    for m in models:
        m.randomize(rng, punimpl=punimpl)
    return img


def crowded_device(world, kind, base, common, punimpl, slack):
    """A device with more of something than devices usually have."""
    rng = world.rng
    models, defs = [], []
    if common and rng.random() < .5:
        md = ref.common_md()
        world.define(md)
        models.append(ref.ModelImage(md, 0, 66))
    small = ['int16', 'uint16', 'acc16', 'enum16', 'bitfield16']

    def define(size, rep, **kw):
        i = fresh_id()
        md = ref.rand_md(rng, i, size=size, rep=bool(rep), rep_size=rep or None, name='mod_%d' % i, **kw)
        defs.append(md)
        return md

    if kind == 'far':
        # at the end of the address space
        base = 50000 if base is None else base
        more = [ref.ModelImage(define(rng.choice([2, 10, 40]), rng.random() < .4 and 4), 0) for k in range(rng.randint(1, 3))]
        more = [ref.ModelImage(m.md, rng.randint(0, 4) if m.md.rep else 0) for m in more]
        used = base + 4 + sum(m.len + 2 for m in models + more)
        md = ref.MD(fresh_id(), ref.BT('fixed', [ref.PT('A', 'uint16', 1, 3, access='rw')], 0), None, 'long')
        md.fixed.len = min(65535 - 2 - slack - used - rng.choice([0, 0, 1, rng.randint(0, 4000)]), 15500 if base >= 50000 else 12000)
        defs.append(md)
        models += [ref.ModelImage(md, 0)] + more
    elif kind == 'models':
        for k in range(rng.randint(45, 60)):
            md = define(rng.choice([1, 2, 4]), rng.random() < .1 and 1, types=small)
            models.append(ref.ModelImage(md, rng.randint(0, 2) if md.rep else 0))
    elif kind == 'instances':
        mds = [define(rng.choice([1, 2, 4]), k and 1, types=small) for k in range(2)]
        for k in range(rng.randint(45, 60)):
            md = mds[rng.random() < .1]
            models.append(ref.ModelImage(md, rng.randint(0, 2) if md.rep else 0))
    else:
        md = define(rng.randint(60, 150), rng.choice([0, 60]), types=small)
        if kind == 'sf':
            # a scale factor for every point
            for c, b in (('F', md.fixed), ('R', md.rep)):
                n = 0
                for p in list(b.points) if b else ():
                    if p.type in ('int16', 'uint16', 'acc16'):
                        n += 1
                        p.sf = '%s_OWN%d' % (c, n)
                        b.points.append(ref.PT(p.sf, 'sunssf', 1, b.len))
                        b.len += 1
        models.append(ref.ModelImage(md, rng.randint(1, 2) if md.rep else 0))
    for md in defs:
        if rng.random() < .2:
            ref.rand_symbols(rng, md)
        world.define(md)
    if base is None:
        base = rng.choice([40000, 40000, 0, 50000])
    img = ref.DeviceImage(base, models, end_len=rng.choice([None, None, 0]))
    for m in models:
        m.randomize(rng, punimpl=punimpl)
    world.ctx.count('crowded_' + kind)
    return img


def find_points(model):
    """{(block index, point id): point} of a loaded model, scale factors included."""
    out = {}
    for b in model.blocks:
        for pid, p in b.points.items():
            out[b.index, pid] = p
        for pid, p in b.points_sf.items():
            out[b.index, pid] = p
    return out


def wild_scale_factors(ctx, img, share=.4):
    """Scale factor registers holding values no device should send."""
    rng = ctx.rng
    for m in img.models:
        if m.md is not None:
            for bi, p, a in m.each():
                if p.type == 'sunssf' and rng.random() < share and a + 1 <= m.addr + m.len:
                    m.put(a, ref.encode('sunssf', rng.choice(ref.WILD + [rng.randint(-32767, 32767)]), 1))
                    ctx.count('wild_scale_factors')


def verify_model(ctx, model, mi, what=''):
    """Compare every point of a loaded and read model with its image."""
    exp = mi.expected()
    pts = find_points(model)
    if set(pts) != set(exp):
        ctx.fail('%spoints of model %s differ from its definition' % (what, mi.id), 'point-set',
                 missing=sorted(set(exp) - set(pts))[:5], extra=sorted(set(pts) - set(exp))[:5])
    n = 0
    for key, (addr, raw, sf, val) in exp.items():
        p = pts[key]
        ctx.count('points_checked')
        t = p.point_type.type
        if int(p.addr) != addr:
            ctx.fail('%spoint %s of model %s at address %s instead of %s' % (what, key, mi.id, p.addr, addr), 'address')
        got = p.value_base
        if not ref.same_value(got, raw):
            ctx.fail('%spoint %s (%s) of model %s: registers encode %s, raw value reported %s' % (what, key, t, mi.id, ref_s(raw), ref_s(got)),
                     'raw-value', addr=addr, registers=mi.raw(addr, p.point_type.len).hex())
        if t != 'sunssf':
            g = p.value
            if not ref.same_value(g, val):
                ctx.fail('%spoint %s (%s) of model %s: value %s expected %s (raw %s, scale factor %s)' % (
                    what, key, t, mi.id, ref_s(g), ref_s(val), ref_s(raw), sf), 'value', addr=addr)
            n += 1
            if raw is None:
                ctx.count('unimplemented_seen')
            elif sf:
                ctx.count('scaled_seen')
            ctx.count('type_' + t)
    return n


def ref_s(v):
    s = ref.show(v) if isinstance(v, ref.Fraction) else repr(v)
    return s if len(s) < 120 else s[:120] + '...'


# ---------------------------------------------------------------------------
# assigning points

class Target(object):
    """A writable point with its place in the image."""

    def __init__(self, model, mi, bi, p, addr):
        self.model = model
        self.mi = mi
        self.bi = bi
        self.p = p
        self.addr = addr

    @property
    def point(self):
        return self.model.blocks[self.bi].points[self.p.id]

    def raw(self):
        return self.mi.raw(self.addr, self.p.regs)

    def sf(self):
        """Scale factor in effect, None when there is none."""
        if self.p.sf is None or ref.decode(self.p.type, self.raw()) is None:
            return None
        return self.mi.sf_of(self.bi, self.p)

    def assignable(self):
        """Scaled points without a value have no scale factor in effect yet: left out."""
        return self.p.sf is None or ref.decode(self.p.type, self.raw()) is not None


def targets(pairs, access=('rw',)):
    out = []
    for m, mi in pairs:
        if m.load_error:
            continue
        for bi, p, a in mi.each():
            if p.type != 'sunssf' and p.access in access:
                t = Target(m, mi, bi, p, a)
                if t.assignable():
                    out.append(t)
    return out


LIM = 1 << 50


def value_for(rng, t, base=None):
    """-> (value to assign, registers it must produce) for a target."""
    ty, regs, sf = t.p.type, t.p.regs, t.sf()
    if ty in ref.INT:
        lo, hi = ref.int_range(ty)
        if base is None:
            while True:
                base = ref.rand_int(rng, ty)
                if sf and abs(base) > LIM:
                    base = rng.randint(max(lo, -LIM), min(hi, LIM))
                if base != ref.INT[ty][2]:
                    break
        if sf:
            frac = ref.Fraction(rng.choice([0, 0, 0, rng.randint(-40, 40)]), 100) if abs(base) < 1 << 40 else 0
            exact = (base + frac) * ref.Fraction(10) ** sf
            v = float(exact)
            r = rng.random()
            if frac == 0 and exact.denominator == 1 and abs(exact) < 1 << 53 and r < .4:
                v = int(exact)
            elif r < .55:
                v = repr(v)
        else:
            v = base
            r = rng.random()
            if r < .1:
                v = str(base)
            elif r < .15 and base >= 0:
                v = hex(base)
        return v, ref.encode(ty, base, regs)
    if ty == 'float32':
        v = ref.rand_value(rng, ty, regs)
        if rng.random() < .3:
            v = round(v, 3) if abs(v) < 1e6 else v
        return (repr(v) if rng.random() < .1 else v), ref.encode(ty, v, regs)
    v = ref.rand_value(rng, ty, regs)
    if ty == 'string' and rng.random() < .05:
        v = ''
    return v, ref.encode(ty, v, regs)


def bad_value(rng, t):
    """A numeric value that does not fit the target, or None."""
    ty, sf = t.p.type, t.sf()
    if ty == 'float32':
        return rng.choice([1e39, -3.5e38, 1e300])
    if ty not in ref.INT:
        return None
    lo, hi = ref.int_range(ty)
    if ty == 'acc64':
        base = rng.choice([1 << 63, (1 << 64) + 5])
    else:
        over = [hi + 1, hi + 2, 2 * hi + 2, hi * 1000, lo - 1, lo - 2, lo - hi - 2]
        base = rng.choice(over)
    if sf:
        base = base + (base // 1000 if base > 0 else -(-base // 1000))        # clear of rounding
        return float(ref.Fraction(base) * ref.Fraction(10) ** sf)
    return base

"""C25: no point value is assembled from two device requests (device whose registers change at every request)."""
import random

from .. import ref, rig, sim
from ..env import client

ID = 'C25'
LEVEL = 'exploration'
TECH = 'torn-read monitor: the simulated device replaces all its registers between requests; every value read is matched with the epochs of the device and the wire log'
RULE = ('Random models (lengths 1 to about 1500 registers, repeating blocks, multi-register points placed around request boundaries, gaps, '
        'points listed out of order) on TCP and serial devices whose registers are replaced by a new random epoch at every request; after '
        'each read of a device, model or scripting entry every point must hold the value of one single epoch in which one single request '
        'covered all its registers. Distinct by definition and request sequence.')
ASSUMPTIONS = ['standard request size (no smaller limit configured)', 'no point is longer than one request']


def dense_md(rng, i):
    """Multi-register points packed so that request boundaries fall everywhere."""
    t = rng.choice([['int64', 'uint64', 'acc64'], ['float32', 'int32', 'uint32'], ['string'], ['ipv6addr'], ['eui48'],
                    ['string', 'int64', 'int16'], ['int32', 'uint16', 'string', 'ipv6addr'], None])
    kw = dict(types=t, gaps=rng.random() < .5, max_string=rng.choice([3, 20, 100, 125]))
    size = rng.choice([100, 123, 124, 125, 126, 127, 128, 200, 249, 250, 251, 252, 300, 374, 376, 500, 700])
    if rng.random() < .3:
        # a repeating block of more registers than a request
        kw.update(rep=True, rep_size=rng.choice([70, 124, 125, 126, 130, 180, 251, 300]))
        size = min(size, 300)
    md = ref.rand_md(rng, i, size=size, **kw)
    if rng.random() < .3:
        # large areas without points
        k = rng.randrange(len(md.fixed.points))
        d = rng.choice([1, 3, 60, 124, 125, 126, 200])
        for p in md.fixed.points[k:]:
            p.offset += d
        md.fixed.len += d
    if rng.random() < .1:
        md.fixed.len += rng.choice([1, 5, 125, 130])
    shuffled = False
    if rng.random() < .15:
        shuffled = True
        for b in (md.fixed, md.rep):
            if b:
                rng.shuffle(b.points)
    return md, shuffled


class Epochs(object):
    def __init__(self, rng, image, unit):
        self.rng = rng
        self.image = image
        self.unit = unit
        self.log = []                # (func, addr, count, registers of every model)
        unit.on_request = self.step

    def step(self, unit, func, addr, count):
        for m in self.image.models:
            m.randomize(self.rng, punimpl=.05)
        # ids, lengths and marker stay as they are
        self.image.load(unit)
        self.log.append((func, addr, count, [bytes(m.data) for m in self.image.models]))


def judge(ctx, model, mi, k, log, image):
    """Every point of a model against the requests of the read."""
    reads = [e for e in log if e[0] in (3, 4)]
    for b in model.blocks:
        for pts in (b.points, b.points_sf):
            for pid, p in pts.items():
                t = p.point_type.type
                addr, regs = int(p.addr), int(p.point_type.len)
                cover = [e for e in reads if e[1] <= addr and addr + regs <= e[1] + e[2]]
                part = [e for e in reads if e[1] < addr + regs and addr < e[1] + e[2]]
                ctx.count('points')
                if regs > 1:
                    ctx.count('multi_register_points')
                if not cover:
                    ctx.fail('the %d registers of %s (%s) were read with %d requests' % (regs, pid, t, len(part)), 'split-point',
                             addr=addr, requests=[(e[1], e[2]) for e in reads], model=mi.addr, length=mi.len)
                ok = False
                for e in cover:
                    o = 2 * (addr - mi.addr)
                    if ref.same_value(p.value_base, ref.decode(t, e[3][k][o:o + 2 * regs])):
                        ok = True
                if not ok:
                    ctx.fail('%s (%s, %d registers) has a value the device never had: %r' % (pid, t, regs, p.value_base), 'torn-value',
                             addr=addr, requests=[(e[1], e[2]) for e in reads])


def case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        models = []
        shuffled = False
        if rng.random() < .3:
            md = ref.common_md()
            w.define(md)
            models.append(ref.ModelImage(md, 0, rng.choice([65, 66])))
        for n in range(rng.choice([1, 1, 2])):
            i = rig.fresh_id()
            if rng.random() < .8:
                md, sh = dense_md(rng, i)
                shuffled |= sh
            else:
                md = ref.rand_md(rng, i)
            w.define(md)
            nrep = 0
            if md.rep and md.rep.len:
                nrep = rng.choice([0, 1, 2, 4, 8, 20])
                while nrep and md.total(nrep) > 1500:
                    nrep -= 1
            models.append(ref.ModelImage(md, nrep))
        image = ref.DeviceImage(rng.choice([40000, 0, 50000]), models)
        for m in models:
            m.randomize(rng)
        r = rig.Rig(w, image, rng.choice(['TCP', 'RTU']))
        level = rng.choice(['client', 'client', 'script'])
        if level == 'script':
            sd = r.scripting()
            d = sd.device
        else:
            d = r.client()
            d.scan()
        for m in d.models_list:
            ctx.check(not m.load_error, 'model does not load: %s' % m.load_error, 'load')
        ep = Epochs(random.Random(rng.getrandbits(40)), image, r.unit)
        sig = []
        for n in range(rng.choice([1, 2, 3])):
            del ep.log[:]
            if rng.random() < .5:
                if level == 'script':
                    sd.read()
                else:
                    d.read_points()
                what = list(enumerate(d.models_list))
            else:
                k = rng.randrange(len(d.models_list))
                d.models_list[k].read_points()
                what = [(k, d.models_list[k])]
            for k, m in what:
                judge(ctx, m, image.models[k], k, ep.log, image)
            sig.append([(e[1], e[2]) for e in ep.log])
            ctx.count('requests', len(ep.log))
            if len(ep.log) > len(what):
                ctx.count('reads_of_several_requests')
        if shuffled:
            ctx.count('points_out_of_order')
        r.unit.on_request = None
        w.check_bad()
        d.close()
        ctx.count('level_' + level)
        ctx.seen([(m.id, m.addr, m.len, [(p.type, p.offset) for p in m.md.fixed.points]) for m in models], sig)
        ctx.note(models=[(m.addr, m.len, m.nrep) for m in models], requests=sig[0][:12])


KINDS = {'read': (case, 900, 15000)}
MIN = {'points': 60000, 'multi_register_points': 30000, 'reads_of_several_requests': 600, 'requests': 3000, 'points_out_of_order': 50}

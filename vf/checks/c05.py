"""C05: blocks and points of a loaded model against its definition and reported length."""
from .. import ref, rig
from ..env import client, device, util

ID = 'C05'
LEVEL = 'exploration'
TECH = 'layout oracle evaluated on every loaded model (blocks, point addresses, scale factor resolution)'
RULE = ('Random definitions (all types, pads, gaps, repeating blocks, local/fixed/constant scale factors, equal ids in both blocks) '
        'loaded at random addresses with every kind of reported length: exact, extra, cutting a block; definitions whose scale factors '
        'resolve nowhere; the legacy common model. Every block and point of the result is compared with the definition. '
        'Distinct by definition, address and length.')
ASSUMPTIONS = ['a length of 0 given to a plain model object stands for the defined length (C13)']


def layout(ctx, m, md, addr, mlen, nrep, legacy=False):
    """Compare a loaded model with its definition."""
    ctx.eq(len(m.blocks), 1 + nrep, 'number of blocks of a model of %d registers' % mlen, 'block-count')
    ctx.eq(int(m.addr), addr, 'model address', 'model-address')
    ctx.eq(int(m.len), mlen, 'model length', 'model-length')
    a = addr
    fixed_sf = {p.id for p in md.fixed.sf_points()}
    for i, b in enumerate(md.blocks(nrep)):
        blk = m.blocks[i]
        ln = 65 if legacy else b.len
        ctx.eq(int(blk.addr), a, 'address of block %d' % i, 'block-address')
        ctx.eq(int(blk.len), ln, 'length of block %d' % i, 'block-length')
        ctx.eq(blk.index, i, 'index of block', 'block-index')
        ctx.eq(blk.type, b.kind, 'type of block %d' % i, 'block-type')
        ctx.check(blk.model is m, 'block %d does not refer to its model' % i, 'block-model')
        want = [p for p in b.points if p.type not in ('pad', 'sunssf')]
        ctx.eq([p.point_type.id for p in blk.points_list], [p.id for p in want], 'points of block %d' % i, 'points')
        ctx.eq(sorted(blk.points), sorted(p.id for p in want), 'points by id of block %d' % i, 'points')
        ctx.eq(sorted(blk.points_sf), sorted(p.id for p in b.sf_points()), 'scale factor points of block %d' % i, 'sf-points')
        own = set(blk.points_sf)
        for p in b.points:
            if p.type == 'pad':
                continue
            q = blk.points_sf[p.id] if p.type == 'sunssf' else blk.points[p.id]
            ctx.eq(int(q.addr), a + p.offset, 'address of point %s of block %d' % (p.id, i), 'point-address')
            ctx.eq(q.point_type.type, p.type, 'type of point %s' % p.id, 'point-type')
            ctx.eq(int(q.point_type.len), p.regs, 'length of point %s' % p.id, 'point-len')
            ctx.check(q.block is blk, 'point %s does not refer to its block' % p.id, 'point-block')
            ctx.count('points_checked')
            if p.type == 'sunssf':
                continue
            ctx.check(q is blk.points_list[[x.id for x in want].index(p.id)], 'list and dictionary hold different objects for %s' % p.id, 'points')
            if p.sf is None:
                ctx.check(q.sf_point is None, 'point %s has a scale factor' % p.id, 'sf')
                continue
            ctx.check(q.sf_point is not None, 'point %s has no scale factor' % p.id, 'sf')
            try:
                c = int(p.sf)
            except ValueError:
                c = None
            if c is not None:
                ctx.eq(q.sf_point.value_base, c, 'constant scale factor of %s' % p.id, 'sf')
                ctx.count('sf_constant')
            elif p.sf in own:
                ctx.check(q.sf_point is blk.points_sf[p.sf], 'scale factor of %s in block %d is not the one of its own block' % (p.id, i), 'sf')
                ctx.count('sf_own')
                if i and p.sf in fixed_sf:
                    ctx.count('sf_shadowing')
            else:
                ctx.check(q.sf_point is m.blocks[0].points_sf[p.sf], 'scale factor of %s in block %d is not the one of the fixed block' % (p.id, i), 'sf')
                ctx.count('sf_fixed')
        a += ln
    ctx.eq([p.point_type.id for p in m.points_list], [p.id for p in md.fixed.real_points()], 'points exposed by the model', 'model-points')
    for pid, q in m.points.items():
        ctx.check(q is m.blocks[0].points[pid], 'point %s exposed by the model is not the one of the fixed block' % pid, 'model-points')
    ctx.eq(sorted(m.points_sf), sorted(fixed_sf), 'scale factors exposed by the model', 'model-points')


def load(cls, mid, addr, mlen):
    if cls == 'client':
        m = client.ClientModel(device.Device(), mid, addr, mlen)
    else:
        m = device.Model(device.Device(), mid, addr, mlen)
    m.load()
    return m


def load_case(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        i = rig.fresh_id()
        md = ref.rand_md(rng, i, max_string=rng.choice([4, 40]))
        w.define(md)
        cls = rng.choice(['device', 'client'])
        lens = set()
        for _ in range(4):
            n = rng.choice([0, 1, 2, 3, 7, 20, 60]) if md.rep else 0
            lens.add(md.total(n))
        if md.rep and rng.random() < .05:
            # indexes of three and more digits, and above 255
            lens.add(md.total(rng.choice([99, 100, 128, 255, 256, 257, 300, 1000])))
        if md.rep:
            lens |= {md.total(1) + rng.randint(1, max(1, md.rep.len - 1)), md.total(0) + 1, md.total(5) - 1, md.total(2) + 1}
        lens |= {md.fixed.len - 1, md.fixed.len + 1, rng.randint(1, max(1, md.fixed.len)), md.fixed.len}
        if cls == 'client':
            lens.add(0)                     # the device reports no registers at all
        for mlen in sorted(x for x in lens if x >= (0 if cls == 'client' else 1)):
            addr = rng.choice([0, 2, 40004, 40070, 50002, rng.randint(0, 60000)])
            if mlen < md.fixed.len:
                ok, nrep = False, 0
            elif md.rep is None:
                ok, nrep = True, 0
            else:
                nrep, left = divmod(mlen - md.fixed.len, md.rep.len)
                ok = not left
            try:
                m = load(cls, i, addr, mlen)
            except util.SunSpecError as e:
                ctx.check(not ok, 'length %d was refused: %s' % (mlen, e), 'refused', fixed=md.fixed.len, rep=md.rep and md.rep.len)
                ctx.count('refused' if mlen else 'refused_zero')
                ctx.seen('refused', ref.smdx(md), addr, mlen)
                continue
            ctx.check(ok, 'length %d (fixed %d, repeating %s) was accepted although it cuts a block' % (
                mlen, md.fixed.len, md.rep and md.rep.len), 'accepted', blocks=[(b.addr, b.len) for b in m.blocks])
            layout(ctx, m, md, addr, mlen, nrep)
            ctx.count('loaded')
            if nrep > 1:
                ctx.count('with_repeats')
            if nrep > 255:
                ctx.count('over_255_blocks')
            ctx.seen('loaded', ref.smdx(md), addr, mlen)
        ctx.note(id=i, fixed=md.fixed.len, rep=md.rep and md.rep.len, lengths=sorted(lens))


def common_case(ctx):
    """The common model, 66 registers or the legacy 65."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        md = ref.common_md()
        w.define(md)
        for mlen in (65, 66, 64, 1, rng.randint(2, 63)):
            addr = rng.choice([2, 40004, rng.randint(0, 60000)])
            try:
                m = load(rng.choice(['device', 'client']), 1, addr, mlen)
            except util.SunSpecError:
                ctx.check(mlen < 65, 'the common model of %d registers was refused' % mlen, 'legacy')
                ctx.count('refused')
                continue
            ctx.check(mlen >= 65, 'the common model of %d registers was accepted' % mlen, 'accepted')
            layout(ctx, m, md, addr, mlen, 0, legacy=mlen == 65)
            ctx.count('common_%d' % mlen)
            ctx.seen(addr, mlen)
        # length 65 is special for the common model only
        i = rig.fresh_id()
        md2 = ref.rand_md(rng, i, rep=False)
        md2.fixed.len = max(66, md2.fixed.len)
        w.define(md2)
        try:
            load('device', i, 100, 65)
            ctx.fail('65 registers for a block of %d were accepted' % md2.fixed.len, 'accepted')
        except util.SunSpecError:
            ctx.count('refused')


def sf_case(ctx):
    """Scale factors that resolve nowhere."""
    rng = ctx.rng
    with rig.World(ctx) as w:
        i = rig.fresh_id()
        md = ref.rand_md(rng, i, size=rng.choice([4, 30]), rep=rng.random() < .6, gaps=False)
        kind = rng.choice(['nowhere', 'not-a-sf', 'from-rep'])
        where = md.rep if md.rep and rng.random() < .5 and kind != 'from-rep' else md.fixed
        cand = [p for p in where.points if p.type in ref.SCALABLE]
        if not cand:
            return
        p = rng.choice(cand)
        if kind == 'nowhere':
            p.sf = rng.choice(['No_SF', 'x', '1.5', 'SF-1'])
        elif kind == 'not-a-sf':
            p.sf = rng.choice([q.id for q in where.real_points()])
        else:
            sfs = [q.id for q in (md.rep.sf_points() if md.rep else []) if q.id not in {s.id for s in md.fixed.sf_points()}]
            if not sfs:
                return
            p.sf = rng.choice(sfs)          # the fixed block does not see the repeating block's
        w.define(md)
        nrep = rng.choice([1, 2]) if md.rep else 0
        try:
            load(rng.choice(['device', 'client']), i, 40002, md.total(nrep))
            ctx.fail('scale factor %r of %s (%s) was accepted' % (p.sf, p.id, kind), 'unresolved')
        except util.SunSpecError as e:
            ctx.count('unresolved_' + kind)
            ctx.seen(ref.smdx(md))
            ctx.note(kind=kind, sf=p.sf, error=str(e))


KINDS = {
    'load': (load_case, 1500, 15000),
    'common': (common_case, 100, 500),
    'sf': (sf_case, 400, 3000),
}
MIN = {'refused_zero': 300, 'over_255_blocks': 8, 'loaded': 2000, 'refused': 1000, 'with_repeats': 500, 'common_65': 50, 'sf_shadowing': 100, 'sf_constant': 500, 'sf_own': 500,
       'sf_fixed': 300, 'unresolved_nowhere': 30, 'unresolved_not-a-sf': 30, 'unresolved_from-rep': 10}

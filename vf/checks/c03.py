"""C03: modifications stay pending until the device acknowledged them."""
from .. import ref, rig, sim
from . import c02

ID = 'C03'
LEVEL = 'fault_enumeration'
TECH = 'fault injection at every write request position with a register/convergence monitor'
RULE = ('Random devices over TCP and serial; a set of points is assigned, then the write is disturbed at request k (every k of the '
        'write, every fault kind: exception, busy, dropped before or after being applied, late, cut short, connection refused, send '
        'or port error, damaged reply, interrupted program), possibly several times; the write is repeated once the fault is over and the register image '
        'compared with the assigned values; the repetition must not send again what was acknowledged, and one more write nothing at all. Histories of assignments, writes and reads, failing or not: a read replaces what was pending, a failed one does not. Distinct by fault kind, position and assignment.')
ASSUMPTIONS = ['a fault concerns one request']

TCP_FAULTS = ['exc', 'busy', 'drop', 'drop-applied', 'late', 'cut-close', 'cut-silence', 'cut-reset', 'sendfail', 'connect', 'damaged']
RTU_FAULTS = ['exc', 'busy', 'drop', 'drop-applied', 'late', 'cut-silence', 'cut-ioerror', 'sendfail', 'flushfail', 'damaged']


def make_fault(rng, kind):
    if kind == 'exc':
        return sim.Fault('exc', code=rng.choice([1, 2, 3, 4, 10, 11]))
    if kind == 'busy':
        return sim.Fault('busy')
    if kind == 'drop':
        return sim.Fault('drop')
    if kind == 'drop-applied':
        return sim.Fault('drop', apply=True)
    if kind == 'late':
        return sim.Fault('late')
    if kind.startswith('cut-'):
        return sim.Fault('cut', keep=rng.choice([0, 1, 2, 3, 4, 6, 7]), then=kind[4:])
    if kind == 'interrupt':
        return sim.Fault('cut', keep=rng.choice([0, 0, 1, 3, 5, 6, 7, 9]), then='interrupt')
    if kind in ('sendfail', 'flushfail'):
        return sim.Fault(kind)
    if kind == 'damaged':
        def fn(frame, req):
            b = bytearray(frame)
            b[rng.randrange(max(0, len(b) - 6), len(b))] ^= rng.randint(1, 255)
            return bytes(b)
        return sim.Fault('raw', fn=fn)
    raise AssertionError(kind)


def arm(st, k, fault, hit, n=1):
    """Fault on the n requests starting with the k-th one from now."""
    first = len(st.requests) + k

    def f(i, req):
        if first <= i < first + n:
            hit.append(i)
            return fault
        return None
    st.fault = f


def fault_case(ctx, transport):
    rng = ctx.rng
    kinds = (TCP_FAULTS if transport == 'TCP' else RTU_FAULTS) + ['interrupt']
    kind = kinds[ctx.idx % len(kinds)]
    with rig.World(ctx) as w:
        r, cd, s, img, pairs = c02.setup_device(ctx, w, transport)
        st = r.station
        ts = rig.targets(pairs)
        if not ts:
            ctx.count('nothing_writable')
            return
        explicit = transport == 'TCP' and rng.random() < .4 and kind != 'connect'
        if explicit:
            cd.modbus_device.connect()
        mode = rng.choice(['model', 'model', 'model', 'point'])
        if mode == 'point':
            ts0 = [rng.choice(ts)]
        else:
            m = rng.choice(ts).model
            mine = [t for t in ts if t.model is m]
            ts0 = c02.pick(rng, mine)
        want = {}

        def do_assign(t):
            v, data = rig.value_for(rng, t)
            c02.assign(ctx, s, pairs, t, v)
            want[t.addr] = data
            pend[t.addr] = len(data) // 2
        pend = {}                           # address -> registers, not known to be acknowledged
        for t in ts0:
            do_assign(t)
        model = ts0[0].model

        def settle(first, reqs):
            """Runs of pending registers wholly acknowledged are done; nothing else may be sent."""
            for q in st.requests[first:]:
                if mode == 'model' and q.func == 16 and q.count:
                    for a in range(q.addr, q.addr + q.count):
                        if not any(b <= a < b + n for b, n in pend.items()):
                            ctx.fail('repeating the write sent register %d again, which the device had acknowledged and nobody assigned since' % a, 'acked-again', faults=log)
            regs = {a for q in reqs if q.func == 16 and q.count for a in range(q.addr, q.addr + q.count)}
            runs = []
            for a in sorted(pend):
                if runs and runs[-1][-1] + pend[runs[-1][-1]] == a:
                    runs[-1].append(a)
                else:
                    runs.append([a])
            for run in runs:
                if all(a + i in regs for a in run for i in range(pend[a])):
                    ctx.count('runs_settled')
                    for a in run:
                        del pend[a]

        def write():
            # a failed write of one point may be repeated as a write of the model
            if mode == 'point' and (not tries or rng.random() < .4):
                ts0[0].point.write()
            else:
                if mode == 'point':
                    ctx.count('point_write_repeated_by_model')
                model.write_points()
        # every request position in turn, then several at once
        tries = 0
        k = rng.choice([0, 0, 1, 2]) if ctx.idx % 2 else 0
        log = []
        while True:
            hit = []
            if kind == 'connect':
                target = st.nconnect + k
                st.connect_fault = lambda n: ConnectionRefusedError(111, 'Connection refused') if n == target and not hit.append(n) else None
            else:
                arm(st, k, make_fault(rng, kind), hit, n=rng.choice([1, 1, 1, 2]))
            err = None
            nreq = len(st.requests)
            try:
                write()
            except (Exception, KeyboardInterrupt) as e:
                err = e
            st.fault = None
            st.connect_fault = None
            sent = len(st.requests) - nreq
            if not hit:
                if err is not None:
                    raise err
                settle(nreq, [])
                # the write was complete before position k: the device holds everything
                break
            ctx.count('faults_hit')
            ctx.count('fault_' + kind)
            log.append((kind, k, sent, type(err).__name__))
            if k:
                ctx.count('faults_after_first_request')
            if err is None:
                # reported as done: then it must be done
                ctx.count('fault_without_error')
                break
            tries += 1
            settle(nreq, [q for q in st.requests[nreq:] if q.n < hit[0]] if kind != 'connect' else st.requests[nreq:])
            if rng.random() < .3 and mode == 'model':
                extra = rng.choice([t for t in ts if t.model is model])
                do_assign(extra)
                ctx.count('assigned_between')
            k = rng.choice([0, k, k + 1])
            if tries >= 4 or rng.random() < .4:
                nreq = len(st.requests)
                write()
                settle(nreq, [])
                break
        # everything assigned is on the device now
        exp = c02.image_regs(img)
        for a, b in want.items():
            for i in range(len(b) // 2):
                exp[a + i] = (b[2 * i] << 8) | b[2 * i + 1]
        got = r.memory()
        for a in exp:
            if got[a] != exp[a]:
                ctx.fail('after the write was repeated successfully, register %d holds %#06x instead of %#06x' % (a, got[a], exp[a]),
                         'not-converged', faults=log, modified={k: v.hex() for k, v in want.items()})
        n = len(st.requests)
        model.write_points()
        ctx.check(len(st.requests) == n, 'writing again without modifications sent %d requests' % (len(st.requests) - n),
                  'sent-again', requests=st.requests[n:n + 3])
        ctx.count('converged')
        ctx.seen(transport, kind, log, sorted(want.items()))
        ctx.note(transport=transport, faults=log, points=len(want))
        cd.close()


def clean_case(ctx):
    """Without faults: one write sends, the next does not, an assignment makes it send again."""
    rng = ctx.rng
    transport = rng.choice(['TCP', 'RTU'])
    with rig.World(ctx) as w:
        r, cd, s, img, pairs = c02.setup_device(ctx, w, transport)
        st = r.station
        # a point that is not writable can be written all the same; the device decides
        ts = rig.targets(pairs, rng.choice([('rw',), ('rw', 'r')]))
        n0 = len(st.requests)
        for m, mi in pairs:
            m.write_points()
        ctx.check(len(st.requests) == n0, 'writing an unmodified device sent requests', 'sent-unmodified')
        for rnd in range(4):
            if not ts:
                return
            t = rng.choice(ts)
            v, data = rig.value_for(rng, t)
            t.point.value = v
            n0 = len(st.requests)
            if t.p.access != 'rw':
                ctx.count('clean_ro')
            if t.p.access != 'rw' or rng.random() < .3:
                t.point.write()
            else:
                t.model.write_points()
            ctx.check(len(st.requests) > n0, 'an assigned point was not sent', 'not-sent')
            n0 = len(st.requests)
            for m, mi in pairs:
                m.write_points()
            ctx.check(len(st.requests) == n0, 'writing again without modifications sent requests', 'sent-again')
            ctx.count('clean_rounds')
            ctx.seen(transport, rnd, t.addr, data)
        cd.close()


def reread_case(ctx):
    """Reading replaces what was pending; a read that fails leaves it pending."""
    rng = ctx.rng
    transport = rng.choice(['TCP', 'RTU'])
    with rig.World(ctx) as w:
        r, cd, s, img, pairs = c02.setup_device(ctx, w, transport)
        st = r.station
        if not rig.targets(pairs):
            ctx.count('nothing_writable')
            return
        pending = {}                        # model -> {address: bytes}
        log = []
        for rnd in range(rng.randint(2, 6)):
            ts = rig.targets(pairs)
            op = rng.choice(['assign', 'assign', 'assign', 'change', 'read', 'readfail', 'readfail', 'write', 'write', 'write', 'writefail'])
            if op == 'assign' and ts:
                for t in c02.pick(rng, ts):
                    if t.point.value_sf and t.point.value_base is None:
                        continue
                    v, data = rig.value_for(rng, t)
                    c02.assign(ctx, s, pairs, t, v)
                    pending.setdefault(id(t.model), {})[t.addr] = data
            elif op == 'change':
                # the device changes its values; scale factors stay
                for m, mi in pairs:
                    for bi, p, a in mi.each():
                        if p.type not in ('sunssf', 'pad') and rng.random() < .3:
                            mi.put(a, ref.unimpl(p.type, p.regs) if rng.random() < .3 else
                                   ref.encode(p.type, ref.rand_value(rng, p.type, p.regs), p.regs))
                img.load(r.unit)
                # scales of what is assigned next come from a read
                log.append('change')
                op = 'read'
            m, mi = rng.choice([x for x in pairs if id(x[0]) in pending] or pairs) if rng.random() < .7 else rng.choice(pairs)
            if op == 'read':
                how = rng.choice(['device', 'model', 'script'])
                if how == 'device' or log[-1:] == ['change']:
                    cd.read_points()
                    pending.clear()
                    mine = pairs
                else:
                    scr = [o for n in (s.models if s and how == 'script' else []) for o in (s[n][1:] if isinstance(s[n], list) else [s[n]]) if o.model is m]
                    (scr[0].read if scr else m.read_points)()
                    pending.pop(id(m), None)
                    mine = [(m, mi)]
                for x, xi in mine:
                    rig.verify_model(ctx, x, xi, 'read with modifications pending: ')
                ctx.count('reads_with_pending' if log else 'reads')
            elif op in ('readfail', 'writefail'):
                hit = []
                kind = rng.choice(['exc', 'drop', 'cut-silence', 'interrupt'])
                arm(st, rng.choice([0, 0, 1]), make_fault(rng, kind), hit)
                try:
                    m.read_points() if op == 'readfail' else m.write_points()
                    failed = False
                except (Exception, KeyboardInterrupt):
                    failed = True
                st.fault = None
                # a reply can be complete when it is cut
                ctx.check(failed == bool(hit) or hit and kind in ('cut-silence', 'interrupt'), '%s %s' % (op, 'failed without a fault' if failed else 'succeeded in spite of a fault'), 'fault')
                if failed and op == 'writefail':
                    # what arrived already is not pending: settled below
                    m.write_points()
                    ctx.count('failed_writes')
                if failed and op == 'readfail':
                    ctx.count('failed_reads')
                elif op == 'readfail':
                    pending.pop(id(m), None)
                else:
                    done(img, pairs, m, pending)
            elif op == 'write':
                r.unit.writes.clear()
                m.write_points()
                got = {}
                for a, b in r.unit.writes:
                    for k in range(len(b) // 2):
                        got[a + k] = b[2 * k:2 * k + 2]
                want = {a + k: b[2 * k:2 * k + 2] for a, b in pending.get(id(m), {}).items() for k in range(len(b) // 2)}
                ctx.check(got == want, 'a write after %s sent registers %s instead of %s' % (log, sorted(got)[:6], sorted(want)[:6]), 'pending-after-read')
                done(img, pairs, m, pending)
                ctx.count('writes_judged')
                ctx.count('writes_empty' if not want else 'writes_full')
            log.append(op)
        # in the end the device holds what was written, and what is pending still goes out
        for m, mi in pairs:
            m.write_points()
            done(img, pairs, m, pending)
        exp = c02.image_regs(img)
        got = r.memory()
        for a in exp:
            if got[a] != exp[a]:
                ctx.fail('after %s and a write, register %d holds %#06x instead of %#06x' % (log, a, got[a], exp[a]), 'reread-memory')
        ctx.seen(transport, log, sorted(exp.items())[:40])
        cd.close()


def done(img, pairs, m, pending):
    for x, xi in pairs:
        if x is m:
            for a, b in pending.pop(id(m), {}).items():
                xi.put(a, b)


KINDS = {
    'reread': (reread_case, 800, 8000),
    'tcp': (lambda c: fault_case(c, 'TCP'), 1500, 16000),
    'rtu': (lambda c: fault_case(c, 'RTU'), 1000, 12000),
    'clean': (clean_case, 300, 3000),
}
MIN = {'runs_settled': 100, 'clean_ro': 50, 'reads_with_pending': 400, 'failed_reads': 60, 'failed_writes': 15, 'writes_empty': 50, 'writes_full': 60, 'faults_hit': 1000, 'faults_after_first_request': 200, 'converged': 1000}
MIN.update({'fault_' + k: 20 for k in set(TCP_FAULTS + RTU_FAULTS + ['interrupt'])})

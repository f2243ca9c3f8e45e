"""C24: what the command-line tool prints, against the device's registers."""
import contextlib
import errno
import io
import os
import pty
import re
import runpy
import select
import socket
import struct
import subprocess
import sys
import threading
import tty

from .. import core, ref, rig, sim
from ..env import client                        # noqa: F401
from . import c22

ID = 'C24'
LEVEL = 'exploration'
TECH = 'output monitor: every run of the tool is parsed and compared, line by line, with the registers of the device it was pointed at'
RULE = ('The tool is run (in the checking process on the simulated network, and as a process of its own on loopback sockets, pseudo '
        'terminals and map files) on random devices with random options and defaults, labels, repeating blocks, unimplemented points, '
        'models without or with broken definitions, and on devices that cannot be reached, fail half way or are not SunSpec devices; output '
        'and exit status are compared with the register image. Distinct by options and printed report.')
ASSUMPTIONS = ['labels and units are free of line breaks', 'the order of points within one block is not checked']

TOOL = os.path.join(core.REPO, 'scripts', 'suns.py')
LINE = re.compile(r'^\s{3}(\d\d+:|   )(?:(.*?) )?\(([A-Za-z0-9_]+)\):(.*)$')
HEAD = re.compile(r'^model: (?:(.*) )?\((-?\d+)\)$')


def run_tool(args):
    """-> (exit status, standard output, traceback or None); the tool runs in this process on the simulated network."""
    out, err = io.StringIO(), io.StringIO()
    argv = sys.argv
    sys.argv = [TOOL] + [str(a) for a in args]
    crash = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(TOOL, run_name='__main__')
                code = 0
            except SystemExit as e:
                code = e.code
                if code is None:
                    code = 0
                elif not isinstance(code, int):
                    err.write(str(code))
                    code = 1
    except Exception as e:
        code = 1
        crash = e
    finally:
        sys.argv = argv
    return code, out.getvalue(), err.getvalue(), crash


def report(text):
    """Parse the report: [(label, id, [(index, label, id, rest)])]"""
    models = []
    for line in text.split('\n'):
        m = HEAD.match(line)
        if m:
            models.append((m.group(1), int(m.group(2)), []))
            continue
        if not models:
            continue
        if not line.strip():
            continue
        m = LINE.match(line)
        if m is None:
            return None, line
        models[-1][2].append((m.group(1).strip(), m.group(2), m.group(3), m.group(4)))
    return models, None


def value_ok(p, raw, val, text):
    """Does the text show the value?"""
    if p.type in ('bitfield16', 'bitfield32'):
        try:
            return text[:2].lower() == '0x' and len(text) == 2 + 4 * p.regs and int(text, 16) == raw
        except ValueError:
            return False
    if isinstance(val, str):
        return text.split() == val.split()
    try:
        return ref.same_value(int(text), val)
    except ValueError:
        pass
    try:
        return ref.same_value(float(text), val)
    except ValueError:
        return False


def verify(ctx, img, text, args):
    models, bad = report(text)
    if models is None:
        ctx.fail('a line that shows no point: %r' % bad, 'line', args=args)
    ctx.check([m[1] for m in models] == [m.id for m in img.models], 'models listed: %s instead of %s' % (
        [m[1] for m in models], [m.id for m in img.models]), 'models', args=args)
    for (label, mid, lines), mi in zip(models, img.models):
        if mi.md is None or getattr(mi, 'broken', False):
            ctx.check(label is None and not lines, 'a model without definition shows a label or points', 'unknown-model', lines=lines[:3])
            ctx.count('unknown_models')
            continue
        ctx.check((label or None) == (mi.md.label or None), 'label of model %d: %r instead of %r' % (mid, label, mi.md.label), 'model-label')
        want = {}
        for bi, p, a in mi.each():
            if p.type == 'sunssf':
                continue
            raw = ref.decode(p.type, mi.raw(a, p.regs))
            if raw is None:
                ctx.count('unimplemented')
                continue
            sf = mi.sf_of(bi, p)
            want['%02d:' % bi if bi else '', p.id] = (p, raw, ref.scaled(raw, sf))
        seen = []
        order = []
        for idx, plabel, pid, rest in lines:
            k = (idx, pid)
            if k not in want:
                ctx.fail('model %d: the report shows %s %s%s' % (mid, idx, pid, ' again' if k in seen else ''), 'extra-point', line=rest)
            if k in seen:
                ctx.fail('model %d: %s %s is shown twice' % (mid, idx, pid), 'twice')
            seen.append(k)
            order.append(int(idx.rstrip(':')) if idx else 0)
            p, raw, val = want[k]
            ctx.check((plabel or None) == (p.label or None), 'label of point %s: %r instead of %r' % (pid, plabel, p.label), 'point-label')
            u = p.units or ''
            t = rest.rstrip()
            if u:
                if not t.endswith(' ' + u):
                    ctx.fail('point %s is shown without its units %s: %r' % (pid, u, rest), 'units')
                t = t[:-len(u)].rstrip()
            t = t.strip()
            if not value_ok(p, raw, val, t):
                ctx.fail('model %d, point %s %s (%s): shown as %r, the registers hold %s%s' % (mid, idx, pid, p.type, t, rig.ref_s(raw),
                         ', scaled %s' % ref.show(val) if isinstance(val, ref.Fraction) else ''), 'value', units=u)
            ctx.count('points')
            ctx.count('type_' + p.type)
            if idx:
                ctx.count('repeating_points')
        ctx.check(order == sorted(order), 'blocks of model %d are out of order' % mid, 'block-order', order=order)
        missing = [k for k in want if k not in seen]
        if missing:
            ctx.fail('model %d: implemented points are not shown: %s' % (mid, missing[:4]), 'missing-point')
        ctx.count('models')


def texts(rng, md):
    for b in (md.fixed, md.rep):
        for p in b.points if b else ():
            r = rng.random()
            if p.type == 'pad':
                continue
            if r < .3:
                p.label = rng.choice(['Amps (phase A)', 'V', '50% & more', 'A label that is much longer than the forty columns there are',
                                      'Temp %s', 'x:y', 'Gr\xf6\xdfe'])
            elif r < .4:
                p.label = None
            if rng.random() < .1:
                p.units = rng.choice(['%', 'VAr', 'Pct', 'a unit with spaces', '\xb0C'])
    if rng.random() < .2:
        md.label = rng.choice(['Inverter (Three Phase)', 'M%d', 'L'])


def make(ctx, w, base=None, unknown=True):
    """A device, possibly with models without (usable) definitions."""
    rng = ctx.rng
    img = rig.rand_device(w, base=base, punimpl=rng.choice([0, .15, .15, .5, 1]), max_regs=rng.choice([300, 900]), max_string=rng.choice([20, 20, 50, 120]), slack=2000)
    for md in {id(m.md): m.md for m in img.models}.values():
        if md.id != 1:
            if rng.random() < .4:
                ref.rand_symbols(rng, md)
            texts(rng, md)
            w.define(md)
    models = list(img.models)
    if unknown and rng.random() < .4:
        for k in range(rng.randint(1, 3)):
            m = ref.ModelImage(None, mlen=rng.choice([1, 2, 50, 150]), id=rng.choice([rig.fresh_id(), 64999, 2]))
            m.randomize(rng)
            if rng.random() < .4 and m.id not in (64999, 2):
                m.broken = True
                with open(os.path.join(w.store.dir, 'smdx_%05d.xml' % m.id), 'w') as f:
                    f.write(rng.choice(['', '<sunSpecModels>', 'no xml', '<sunSpecModels v="1"><model id="%d" len="1"><block len="1"><point id="A" offset="0" type="int17"/></block></model></sunSpecModels>' % m.id]))
            models.insert(rng.randint(0, len(models)), m)
        img = ref.DeviceImage(img.base, models, end_len=img.end_len)
    return img


def report_case(ctx, transport):
    rng = ctx.rng
    with rig.World(ctx) as w:
        w.store.put(ref.common_md())
        img = make(ctx, w)
        host = rng.choice(['localhost', '10.1.2.3', 'inv.example'])
        port = rng.choice([502, 502, 1502, 65535])
        bus = rng.choice(['/dev/ttyUSB0', '/dev/ttyUSB0', '/dev/vf', 'com4'])
        uid = rng.choice([1, 1, 2, 126, 247])
        if transport == 'MAPPED':
            r = w.attach(img, transport, uid)
        else:
            r = w.attach(img, transport, uid, host=host, port=port, bus=bus)
            r.station.chunker = rig.rand_chunks(rng)
            # a decoy behind every default
            if transport == 'TCP' and (host, port) != ('localhost', 502):
                w.net.add_tcp('localhost', 502, {1: sim.Unit()})
            for other in (1, 2):
                if other != uid:
                    o = sim.Unit()
                    ref.DeviceImage(img.base, [ref.ModelImage(ref.common_md(), 0)]).load(o)
                    r.station.units[other] = o
        baud, T = 9600, 2.0
        args = []
        if transport != 'TCP' or rng.random() < .5:
            args += ['-t', transport.lower()]
        if uid != 1 or rng.random() < .3:
            args += ['-a', uid]
        if transport == 'TCP':
            if host != 'localhost' or rng.random() < .3:
                args += ['-i', host]
            if port != 502 or rng.random() < .3:
                args += ['-P', port]
        elif transport == 'RTU':
            if bus != '/dev/ttyUSB0' or rng.random() < .3:
                args += ['-p', bus]
            if rng.random() < .5:
                baud = rng.choice([1200, 9600, 19200, 115200])
                args += ['-b', baud]
        else:
            args += ['-m', r.name]
        if rng.random() < .4:
            T = rng.choice([.1, .5, 1.5, 2, 5, 10])
            args += ['-T', T]
        groups = [args[i:i + 2] for i in range(0, len(args), 2)]
        rng.shuffle(groups)
        args = [a for g in groups for a in g]
        if transport != 'MAPPED' and rng.random() < .15:
            rig.wild_scale_factors(ctx, img)
            img.load(r.unit)
        code, out, err, crash = run_tool(args)
        if crash:
            ctx.fail('the tool crashed on a working device: %s: %s' % (type(crash).__name__, crash), 'crash', args=args)
        ctx.check(code == 0, 'the tool failed with status %s on a working device' % code, 'status', out=out[-400:], args=args)
        verify(ctx, img, out, args)
        if transport == 'RTU':
            p = w.net.ports[0]
            ctx.check(int(p.baudrate) == baud and p.timeout == T, 'port settings %s/%s instead of %s/%s' % (p.baudrate, p.timeout, baud, T), 'options')
        if transport == 'TCP':
            for s in w.net.sockets:
                ctx.check(all(t == T for t in s.timeouts_set), 'timeouts %s instead of %s' % (s.timeouts_set, T), 'options')
        if transport != 'MAPPED':
            ctx.check(all(q.unit == uid for q in r.station.requests), 'requests for other units', 'options')
            ctx.check(not r.unit.writes, 'the tool wrote to the device', 'writes')
            w.check_bad()
        ctx.count('reports')
        ctx.seen(ID, transport, [a for a in args if not str(a).startswith(w.store.dir)], [m.id for m in img.models], out[out.find('model:'):])


FAILS = ('refused', 'unreachable', 'timeout', 'silent', 'nounit', 'notsunspec', 'exception', 'half', 'noport', 'nofile', 'badfile', 'nomarker', 'badtype', 'endless')


def fail_case(ctx):
    rng = ctx.rng
    kind = FAILS[ctx.idx % len(FAILS)]
    with rig.World(ctx) as w:
        w.store.put(ref.common_md())
        img = make(ctx, w)
        if kind in ('refused', 'unreachable', 'timeout'):
            transport = 'TCP'
        elif kind == 'noport':
            transport = 'RTU'
        elif kind in ('nofile', 'badfile'):
            transport = 'MAPPED'
        elif kind == 'nomarker':
            transport = rng.choice(['MAPPED', 'TCP', 'RTU'])
        else:
            transport = rng.choice(['TCP', 'RTU'])
        r = w.attach(img, transport, 1)
        args = ['-t', transport.lower()]
        if transport == 'TCP':
            args += ['-i', r.args['ipaddr'], '-P', r.args['ipport']]
        elif transport == 'RTU':
            args += ['-p', r.args['name']]
        else:
            args += ['-m', r.name]
        st = r.station
        late = False
        if kind == 'refused':
            st.connect_fault = lambda n: ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        elif kind == 'unreachable':
            e = rng.choice([OSError(errno.EHOSTUNREACH, 'No route to host'), socket.gaierror(-2, 'Name or service not known')])
            st.connect_fault = lambda n: e
        elif kind == 'timeout':
            st.connect_fault = lambda n: socket.timeout('timed out')
        elif kind == 'silent':
            st.fault = lambda n, q: sim.Fault('drop')
        elif kind == 'nounit':
            args += ['-a', 99]
        elif kind in ('notsunspec', 'nomarker'):
            if transport == 'MAPPED':
                with open(r.name) as f:
                    t = f.read()
                with open(r.name, 'w') as f:
                    f.write(t.replace('53756e53', rng.choice(['00000000', 'ffffffff', '53756e54'])))
            else:
                r.unit.h[img.base] = rng.choice([0, 0x5375 ^ 1, 0xffff])
                if kind == 'nomarker':
                    r.unit.h.clear()
        elif kind == 'exception':
            code = rng.choice([1, 2, 4, 6, 10, 11])
            st.fault = lambda n, q: sim.Fault('exc', code=code) if q is not None else None
        elif kind == 'half':
            k = rng.randint(1, 8)
            f = rng.choice(['drop', 'exc'])
            late = True
            st.fault = lambda n, q: (sim.Fault('drop') if f == 'drop' else sim.Fault('exc', code=4)) if q is not None and n >= k else None
        elif kind == 'noport':
            args[-1] = '/dev/no-such-port'
        elif kind == 'nofile':
            args[-1] = os.path.join(w.store.dir, 'no-such-file.xml')
        elif kind == 'badfile':
            with open(r.name, 'w') as f:
                f.write(rng.choice(['', 'nonsense', '<mbmap>', '<other/>']))
        elif kind == 'endless':
            late = True
            k = len(img.models) + 99
            r.unit.h[img.models[0].addr - 1] = rng.choice([65535, 65536 - img.models[0].addr, 20000])
            ctx.check(img.models[0].addr - 1 in r.unit.h, 'address', 'internal')
        elif kind == 'badtype':
            args[1] = rng.choice(['udp', '', 'TCP ', 'serial'])
        code, out, err, crash = run_tool(args)
        if crash:
            ctx.fail('the tool crashed on a %s device: %s: %s' % (kind, type(crash).__name__, crash), 'crash', args=args)
        if late and code == 0 and kind != 'endless':
            # every request was before the fault
            ctx.check(len(st.requests) <= k or all(q.n < k for q in st.requests), 'status 0 although the device stopped answering', 'status', args=args)
            verify(ctx, img, out, args)
            ctx.count('half_complete')
            return
        ctx.check(code not in (0, None), 'exit status %s for a %s device' % (code, kind), 'status', args=args, out=out[-300:])
        said = out + err
        ctx.check(bool(said.strip()), 'no error message for a %s device' % kind, 'silent-failure', args=args)
        if kind != 'badtype':
            ctx.check('error' in said.lower(), 'no error message for a %s device: %r' % (kind, said[-200:]), 'silent-failure', args=args)
            ctx.check('Traceback' not in said, 'a traceback instead of an error message', 'crash')
        if not late:
            ctx.check(not HEAD.search(out), 'models are listed for a %s device' % kind, 'models')
        ctx.count('failures')
        ctx.count('fail_' + kind)
        ctx.seen(ID, kind, transport, code, said[:200].replace(w.store.dir, ''))


def serve_pty(fd, units, stop):
    """A serial device on a pseudo terminal."""
    buf = b''
    while not stop.is_set():
        r, _, _ = select.select([fd], [], [], .05)
        if not r:
            buf = b''
            continue
        try:
            buf += os.read(fd, 4096)
        except OSError:
            return
        while len(buf) >= 8:
            f, buf = buf[:8], buf[8:]
            if sim.crc16(f[:-2]) != f[-2:]:
                continue
            addr, count = struct.unpack('>HH', f[2:6])
            u = units.get(f[0])
            if u is None:
                continue
            exc, payload = u.serve(f[1], addr, count, None)
            pdu = bytes([f[0], f[1] | 0x80, exc]) if exc else bytes([f[0], f[1]]) + payload
            os.write(fd, pdu + sim.crc16(pdu))


def process_case(ctx):
    """The tool as a process of its own."""
    rng = ctx.rng
    kind = ['mapped', 'tcp', 'rtu', 'refused', 'silent', 'closed'][ctx.idx % 6]
    with rig.World(ctx) as w:
        w.store.put(ref.common_md())
        img = make(ctx, w)
        uid = rng.choice([1, 3, 200])
        unit = sim.Unit()
        img.load(unit)
        r = w.attach(img, 'MAPPED', uid)
        sim.ACTIVE = None                       # real sockets and terminals from here on
        stop = threading.Event()
        srv = th = None
        args = ['-a', uid, '-t', 'tcp', '-i', '127.0.0.1']
        fds = ()
        if kind == 'mapped':
            args = ['-t', 'mapped', '-m', r.name, '-a', uid]
        elif kind in ('tcp', 'silent'):
            srv = c22.Server({uid: unit})
            srv.conf = {'mode': 'plain' if kind == 'tcp' else 'silent'}
            args += ['-P', srv.port, '-T', 5 if kind == 'tcp' else .3]
        elif kind == 'rtu':
            mfd, sfd = pty.openpty()
            fds = (mfd, sfd)
            tty.setraw(sfd)
            th = threading.Thread(target=serve_pty, args=(mfd, {uid: unit}, stop), daemon=True)
            th.start()
            args = ['-t', 'rtu', '-p', os.ttyname(sfd), '-b', 115200, '-a', uid, '-T', 2]
        else:
            s = socket.socket()
            s.bind(('127.0.0.1', 0))            # bound, not listening: connections are refused
            args += ['-P', s.getsockname()[1]]
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8')
        try:
            p = subprocess.run([sys.executable, '-W', 'ignore', TOOL] + [str(a) for a in args], cwd=w.store.dir, env=env,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            ctx.fail('the tool did not end within 120 s (%s)' % kind, 'blocked', args=args)
        finally:
            stop.set()
            if srv:
                srv.close()
            if th:
                th.join(10)
            for f in fds:
                os.close(f)
        out = p.stdout.decode('utf-8')
        err = p.stderr.decode('utf-8', 'replace')
        if kind in ('mapped', 'tcp', 'rtu'):
            ctx.check(p.returncode == 0, 'the tool failed with status %s on a working device (%s)' % (p.returncode, kind), 'status', out=out[-300:], err=err[-600:])
            verify(ctx, img, out, args)
        else:
            ctx.check(p.returncode != 0, 'exit status 0 for a device that is %s' % kind, 'status')
            ctx.check('error' in (out + err).lower() and 'Traceback' not in err, 'no error message', 'silent-failure', out=out[-300:], err=err[-600:])
        ctx.count('process_' + kind)
        ctx.seen(ID, 'process', kind, [m.id for m in img.models], out[out.find('model:'):])


KINDS = {
    'report_mapped': (lambda c: report_case(c, 'MAPPED'), 700, 20000),
    'report_tcp': (lambda c: report_case(c, 'TCP'), 700, 20000),
    'report_rtu': (lambda c: report_case(c, 'RTU'), 700, 20000),
    'failure': (fail_case, 650, 13000),
    'process': (process_case, 48, 600),
}
MIN = {'reports': 1500, 'points': 20000, 'repeating_points': 3000, 'unknown_models': 200, 'unimplemented': 3000, 'failures': 500, 'process_rtu': 5,
       'process_tcp': 5, 'process_mapped': 5, 'process_silent': 5, 'wild_scale_factors': 50}

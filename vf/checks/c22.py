"""C22: TLS connections authenticate the server (real sockets on loopback, scripted TLS servers record what reaches them)."""
import os
import random
import socket
import ssl
import struct
import threading

from .. import core, ref, rig, sim
from ..env import client, modbus

ID = 'C22'
LEVEL = 'exploration'
TECH = 'end-to-end monitor: scripted TLS/plain servers on loopback log handshakes, peer certificates and decrypted bytes; verdict from a table of certificate facts'
RULE = ('Histories of connects, reads, writes, scans and constructions by one to three devices with random TLS settings (authority or those of the system, client '
        'certificate, verification, plain) by IP address or host name against servers presenting proper, chained, expired, future, '
        'self-signed, foreign-issuer, other-name and name-less certificates, plain or silent servers, and servers demanding client '
        'certificates, changing between connections. Distinct by settings and outcomes.')
ASSUMPTIONS = ['TLS devices are configured with a client certificate (required by the library)', 'the certificates in vf/certs and the system clock (2000-2140)', 'SSL_CERT_FILE stands for the authorities the system trusts']

CERTS = os.path.join(core.VERIF, 'vf', 'certs')
LIB = (modbus.ModbusClientError, client.SunSpecClientError)


def cert(n):
    return os.path.join(CERTS, n)


# server certificate -> (issuer, valid now, names)
SERVER = {'good': ('ca', True, ('127.0.0.1', 'localhost')), 'good2': ('ca', True, ('127.0.0.1', 'localhost')),
          'chain': ('ca', True, ('127.0.0.1', 'localhost')), 'ip': ('ca', True, ('127.0.0.1',)), 'dns': ('ca', True, ('localhost',)),
          'otherissuer': ('otherca', True, ('127.0.0.1', 'localhost')), 'expired': ('ca', False, ('127.0.0.1', 'localhost')),
          'future': ('ca', False, ('127.0.0.1', 'localhost')), 'othername': ('ca', True, ()), 'cnonly': ('ca', True, ()),
          'self': ('self', True, ('127.0.0.1', 'localhost'))}
AUTHORITY = {'ca.pem': ('ca',), 'otherca.pem': ('otherca',), 'bundle.pem': ('ca', 'otherca'), 'self.pem': ('self',)}
# the authorities the system trusts, used when none is configured
SYSTEM = {'none': None, 'ca': 'ca.pem', 'other': 'otherca.pem', 'both': 'bundle.pem'}
WAIT = 20.0


class Conn(object):
    """What one connection carried."""

    def __init__(self, conf):
        self.conf = conf
        self.hello = b''
        self.handshake = None
        self.peer = None
        self.data = b''
        self.requests = 0
        self.ended = threading.Event()
        self.how = None
        self.version = None


class Server(object):
    """A loopback server whose behaviour is set per connection."""

    def __init__(self, units, port=0):
        self.units = units
        self.conf = None
        self.conns = []
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            self.sock.bind(('127.0.0.1', port))
        except OSError:                 # taken, or not ours to take
            self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.stop = False
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        while True:
            try:
                s, _ = self.sock.accept()
            except OSError:
                return
            if self.stop:
                s.close()
                return
            c = Conn(self.conf)
            self.conns.append(c)
            threading.Thread(target=self.serve, args=(s, c), daemon=True).start()

    def close(self):
        self.stop = True
        try:
            k = socket.create_connection(('127.0.0.1', self.port), 2)
            k.close()
        except OSError:
            pass
        self.thread.join(5)
        self.sock.close()

    def serve(self, s, c):
        conf = c.conf
        try:
            s.settimeout(WAIT)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if conf['mode'] == 'silent':
                while True:
                    d = s.recv(4096)
                    if not d:
                        break
                    c.hello += d
                c.how = 'eof'
                return
            if conf['mode'] == 'tls':
                c.hello = s.recv(3, socket.MSG_PEEK)
                if conf.get('abort') == 'before':
                    c.how = 'aborted'
                    return
                ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
                ctx.load_cert_chain(cert(conf['cert'] + '.pem'))
                if conf.get('max') == 'tls12':
                    ctx.maximum_version = ssl.TLSVersion.TLSv1_2
                if conf.get('demand'):
                    ctx.verify_mode = ssl.CERT_REQUIRED
                    ctx.load_verify_locations(cert('clientca.pem'))
                try:
                    s = ctx.wrap_socket(s, server_side=True)
                    c.handshake = True
                    c.peer = s.getpeercert(True)
                    c.version = s.version()
                except (ssl.SSLError, OSError) as e:
                    c.handshake = False
                    c.how = 'handshake: %s' % e
                    return
            self.modbus(s, c)
        except OSError as e:
            c.how = 'error: %s' % e
        finally:
            try:
                s.close()
            except OSError:
                pass
            c.ended.set()

    def modbus(self, s, c):
        buf = b''
        while True:
            d = s.recv(4096)
            if not d:
                c.how = 'eof'
                return
            c.data += d
            if c.conf['mode'] == 'plain' and c.data[:1] == b'\x16':
                c.how = 'tls to a plain server'
                return
            buf += d
            while len(buf) >= 6:
                tid, proto, ln = struct.unpack('>HHH', buf[:6])
                if len(buf) < 6 + ln:
                    break
                f, buf = buf[:6 + ln], buf[6 + ln:]
                unit, func = f[6], f[7]
                addr, count = struct.unpack('>HH', f[8:12])
                u = self.units.get(unit)
                c.requests += 1
                if u is None:
                    continue
                exc, payload = u.serve(func, addr, count, f[13:] if func == 16 else None)
                pdu = bytes([unit, func | 0x80, exc]) if exc else bytes([unit, func]) + payload
                s.sendall(struct.pack('>HHH', tid, 0, len(pdu)) + pdu)


_der = {}


def der(name):
    if name not in _der:
        with open(cert(name + '.crt')) as f:
            _der[name] = ssl.PEM_cert_to_DER_cert(f.read())
    return _der[name]


class Dev(object):
    """A device's settings and the objects using them."""

    def __init__(self, rng, host, port, unit):
        self.host = host
        self.tls = rng.random() < .9
        self.cafile = rng.choice(['ca.pem', 'ca.pem', 'ca.pem', 'bundle.pem', 'otherca.pem', 'self.pem', None])
        self.who = rng.choice(['client1', 'client1', 'client2', 'clientother'])
        self.insecure = rng.choice([False, False, False, True])
        self.level = rng.choice(['modbus', 'modbus', 'client', 'script'])
        self.unit = unit
        self.broken = rng.choice([None] * 12 + ['certfile', 'keyfile', 'cafile'])
        if self.broken == 'cafile' and self.cafile is None:
            self.broken = None
        kw = {}
        if self.tls:
            kw['tls'] = True
            if rng.random() < .5:
                kw['certfile'], kw['keyfile'] = cert(self.who + '.crt'), cert(self.who + '.key')
            else:
                # one file with certificate and key, in a third of the cases with authority certificates as well
                kw['certfile'] = cert(self.who + rng.choice(['.pem', '.pem', 'chain.pem']))
            if self.broken == 'keyfile':
                kw['keyfile'] = cert('client1.key' if self.who != 'client1' else 'client2.key')
            elif self.broken == 'certfile':
                kw['certfile'] = cert('no-such-file.pem')
            if self.cafile:
                kw['cafile'] = cert(self.cafile) if self.broken != 'cafile' else cert('no-such-ca.pem')
            if self.insecure:
                kw['insecure_skip_tls_verify'] = True
            elif rng.random() < .3:
                kw['insecure_skip_tls_verify'] = False
        elif rng.random() < .5:
            kw['tls'] = False
            if rng.random() < .5:
                kw.update(cafile=cert('ca.pem'), certfile=cert('client1.pem'))
        self.kw = kw
        self.port = port
        self.obj = None
        self.system = None

    def trusted(self):
        return AUTHORITY.get(self.cafile or self.system, ())

    def settings(self):
        return (self.host, self.tls, self.cafile, self.who, self.insecure, self.level, self.broken, self.system)

    def make(self, timeout):
        a = dict(self.kw, ipaddr=self.host, ipport=self.port, timeout=timeout)
        if self.level == 'modbus':
            return modbus.ModbusClientDeviceTCP(self.unit, **a)
        if self.level == 'client':
            return client.ClientDevice(client.TCP, self.unit, **a)
        return client.SunSpecClientDevice(client.TCP, self.unit, **a)

    def authentic(self, conf):
        """May this device talk to a TLS server presenting that certificate?"""
        issuer, valid, names = SERVER[conf['cert']]
        return issuer in self.trusted() and valid and self.host in names

    def usable(self, conf):
        """-> (operation must succeed, Modbus bytes may reach the server)"""
        if conf['mode'] == 'silent' or conf.get('abort'):
            return False, False
        if not self.tls:
            return conf['mode'] == 'plain', conf['mode'] == 'plain'
        if self.broken or conf['mode'] == 'plain':
            return False, False
        if not self.insecure and not self.authentic(conf):
            return False, False
        if conf.get('demand') and self.who == 'clientother':
            return False, True              # refused by the server
        return True, True


def random_conf(rng, dev):
    m = rng.choice(['tls'] * 12 + ['plain'] * (1 if dev.tls else 12) + (['silent'] if rng.random() < .3 else []))
    conf = {'mode': m}
    if m == 'tls':
        conf['cert'] = rng.choice(['good', 'good', 'good', 'good2', 'chain', 'ip', 'dns', 'otherissuer', 'expired', 'future', 'othername', 'cnonly', 'self'])
        conf['max'] = rng.choice(['tls13', 'tls13', 'tls12'])
        if rng.random() < .4:
            conf['demand'] = True
        if rng.random() < .04:
            conf['abort'] = 'before'
    return conf


def setup():
    global HOSTS
    HOSTS = ['127.0.0.1']
    try:
        if socket.gethostbyname('localhost') == '127.0.0.1':
            HOSTS.append('localhost')
    except OSError:
        pass


HOSTS = ['127.0.0.1']


def history(ctx):
    rng = ctx.rng
    with rig.World(ctx) as w:
        sim.ACTIVE = None               # real sockets and clock inside
        image = rig.rand_device(w, nmodels=1, max_regs=300, base=40000)
        units = {}
        for u in (1, 2, 3):
            units[u] = sim.Unit()
            image.load(units[u])
        srv = Server(units, rng.choice([0, 0, 0, 802, rng.randint(600, 1023)]))
        if srv.port < 1024:
            ctx.count('low_ports')
        try:
            devs = [Dev(rng, rng.choice(HOSTS), srv.port, u) for u in range(1, rng.choice([1, 1, 2, 3]) + 1)]
            name = rng.choice(sorted(SYSTEM))
            os.environ['SSL_CERT_FILE'] = cert(SYSTEM[name] or 'no-such-system-authorities.pem')
            os.environ['SSL_CERT_DIR'] = w.store.dir
            for d in devs:
                d.system = SYSTEM[name]
            outcomes = []
            for step in range(rng.randint(2, 5) * len(devs)):
                d = rng.choice(devs)
                one(ctx, rng, srv, d, image, units, outcomes)
            for d in devs:
                if d.obj is not None:
                    d.obj.close()
            for c in srv.conns:
                ctx.check(c.ended.wait(WAIT + 5), 'a connection stays open after closing the devices', 'leak', conf=c.conf)
                ctx.check(not (c.how or '').endswith('timed out'), 'a connection stays open after closing the devices', 'leak', conf=c.conf, how=c.how)
            ctx.seen([d.settings() for d in devs], outcomes)
            ctx.note(devices=[d.settings() for d in devs], outcomes=outcomes[:4])
        finally:
            srv.close()
            for k in ('SSL_CERT_FILE', 'SSL_CERT_DIR'):
                os.environ.pop(k, None)


def one(ctx, rng, srv, d, image, units, outcomes):
    """One operation: connections it opens are judged."""
    conf = random_conf(rng, d)
    srv.conf = conf
    n0 = len(srv.conns)
    ok, bytes_ok = d.usable(conf)
    timeout = .3 if conf['mode'] == 'silent' else WAIT
    unit = units[d.unit]
    err = None
    connected = False
    try:
        if d.level == 'modbus':
            if d.obj is None or d.obj.timeout != timeout:
                d.obj = d.make(timeout)
            what = rng.choice(['read', 'read', 'write', 'connect', 'connect'])
            if what == 'connect':
                d.obj.connect()
                connected = True
            a = image.base + rng.randrange(min(10, image.end - image.base))
            n = rng.randint(1, 300)
            n = min(n, image.end - a)
            data = bytes(rng.getrandbits(8) for _ in range(2 * n))
            for k in range(2 if connected else 1):
                if what == 'write' or k == 1:
                    d.obj.write(a, data)
                    ctx.check(unit.get(a, n) == data, 'the registers written over a secure connection are wrong', 'data')
                else:
                    ctx.eq(d.obj.read(a, n), unit.get(a, n), 'registers read', 'data')
        elif d.level == 'client':
            what = 'scan'
            image.load(unit)
            if d.obj is None or d.obj.modbus_device.timeout != timeout:
                d.obj = d.make(timeout)
            d.obj.scan()
            ctx.eq([m.id for m in d.obj.models_list], [m.id for m in image.models], 'models', 'data')
            if rng.random() < .5:
                what = 'scan+read'
                d.obj.read_points()
                for m, mi in zip(d.obj.models_list, image.models):
                    rig.verify_model(ctx, m, mi)
        else:
            what = 'construct'
            image.load(unit)
            if d.obj is not None:
                d.obj.close()
            d.obj = None
            d.obj = d.make(timeout)
            d.obj.read()
            for m, mi in zip(d.obj.device.models_list, image.models):
                rig.verify_model(ctx, m, mi)
    except LIB as e:
        err = e
    finally:
        if connected:
            d.obj.disconnect()
    label = 'plain' if not d.tls else ('insecure' if d.insecure else 'verify')
    outcomes.append((d.unit, what, conf, err is None))
    mine = srv.conns[n0:]
    for c in mine:
        # the library has closed its connections by now
        ctx.check(c.ended.wait(WAIT + 5), 'the connection of a finished operation stays open', 'leak', conf=conf, settings=d.settings())
    if ok and err is not None:
        ctx.fail('%s with %s failed although server and certificates are proper: %s' % (what, label, err), 'refused', conf=conf, settings=d.settings())
    if not ok and err is None:
        ctx.fail('%s with %s succeeded' % (what, label), 'accepted', conf=conf, settings=d.settings())
    for c in mine:
        if not bytes_ok and c.data and not (conf['mode'] == 'plain' and c.data[0] == 0x16):
            ctx.fail('Modbus bytes reached a server that is not authenticated', 'bytes-sent', conf=conf, settings=d.settings(), data=c.data[:16].hex())
        if d.tls:
            first = c.hello or c.data
            if first and first[:1] != b'\x16':
                ctx.fail('a TLS device sends plain bytes', 'plain-bytes', conf=conf, data=first[:16].hex())
        elif conf['mode'] == 'plain' and err is None:
            ctx.check(c.data[2:4] == b'\0\0' and c.data[6] == d.unit, 'traffic without TLS is not plain Modbus', 'not-plain', data=c.data[:16].hex())
        if ok and conf.get('demand'):
            ctx.check(c.peer == der(d.who), 'the client certificate presented is not the configured one', 'client-cert', settings=d.settings(), none=c.peer is None)
            ctx.count('client_certs')
        if c.version:
            ctx.count('protocol_' + c.version)
        ctx.count('connections')
    if ok:
        if d.tls and not d.insecure and conf['mode'] == 'tls':
            ctx.count('system_authority' if d.cafile is None else 'configured_authority')
        ctx.check(mine and all(c.requests for c in mine), 'an operation succeeded without any request on a connection', 'no-connection')
        ctx.count('ok_' + label)
        if conf['mode'] == 'tls' and d.insecure and not d.authentic(conf):
            ctx.count('unverified_accepted')
    else:
        ctx.count('refused_' + label)
        if conf['mode'] == 'tls' and d.tls and not d.insecure and not d.broken and not d.authentic(conf):
            issuer, valid, names = SERVER[conf['cert']]
            if d.cafile and issuer not in d.trusted() and issuer in AUTHORITY.get(d.system, ()):
                ctx.count('system_authority_not_configured')
            for k, v in (('issuer', issuer in d.trusted()), ('validity', valid), ('name', d.host in names)):
                if not v:
                    ctx.count('rejected_' + k)
            if [issuer in d.trusted(), valid, d.host in names].count(False) == 1:
                ctx.count('rejected_for_one_reason')


KINDS = {'history': (history, 700, 8000)}
MIN = {'connections': 2500, 'client_certs': 250, 'rejected_issuer': 300, 'rejected_validity': 100, 'rejected_name': 100, 'rejected_for_one_reason': 300,
       'unverified_accepted': 150, 'ok_verify': 300, 'ok_plain': 100,
       'system_authority': 15, 'system_authority_not_configured': 30}

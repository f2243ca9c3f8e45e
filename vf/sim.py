"""Simulated Modbus world: units with registers, TCP endpoints, serial buses.

Everything runs in the caller's thread on a virtual clock.  Every event at the
boundary of the library (connect, close, bytes sent, bytes delivered, requests
decoded, registers written, port opened/closed) is recorded for the monitors.
"""
import errno
import socket as _socket
import struct

import serial as _serial

from .core import NoProgress

OP_LIMIT = 1000000

READ_H, READ_I, WRITE_M = 3, 4, 16


def crc16(data):
    """Bitwise Modbus CRC (independent of the library's table)."""
    crc = 0xFFFF
    for b in data:
        crc ^= b
        for _ in range(8):
            lsb = crc & 1
            crc >>= 1
            if lsb:
                crc ^= 0xA001
    return struct.pack('<H', crc)


class Req(object):
    """One decoded request as the device saw it."""
    __slots__ = ('n', 'unit', 'func', 'addr', 'count', 'data', 'frame', 'tid', 'when', 'status', 'via', 'reply')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def __repr__(self):
        return '<req %s unit=%s func=%s addr=%s count=%s%s %s>' % (
            self.n, self.unit, self.func, self.addr, self.count,
            '' if self.data is None else ' data=' + self.data.hex()[:64], self.status)

    def key(self):
        return (self.unit, self.func, self.addr, self.count, self.data)


class Unit(object):
    """A Modbus slave: sparse holding and input registers."""

    def __init__(self, holding=None, inputs=None, readonly=()):
        self.h = dict(holding or {})
        self.i = dict(inputs or {})
        self.writes = []            # (addr, bytes) applied, in order
        self.reads = []             # (func, addr, count) served
        self.on_request = None      # hook(unit, func, addr, count) before serving
        self.max_read = 125
        self.max_write = 123

    def load(self, addr, data, inputs=False):
        m = self.i if inputs else self.h
        for k in range(len(data) // 2):
            m[addr + k] = (data[2 * k] << 8) | data[2 * k + 1]

    def get(self, addr, count, inputs=False):
        m = self.i if inputs else self.h
        out = bytearray()
        for a in range(addr, addr + count):
            v = m[a]
            out.append(v >> 8)
            out.append(v & 255)
        return bytes(out)

    def serve(self, func, addr, count, data):
        """-> (exception code or 0, reply payload after the function byte)"""
        if self.on_request:
            self.on_request(self, func, addr, count)
        if func in (READ_H, READ_I):
            if not 1 <= count <= self.max_read:
                return 3, b''
            m = self.h if func == READ_H else self.i
            for a in range(addr, addr + count):
                if a not in m:
                    return 2, b''
            self.reads.append((func, addr, count))
            d = self.get(addr, count, func == READ_I)
            return 0, bytes([len(d)]) + d
        if func == WRITE_M:
            if not 1 <= count <= self.max_write or len(data) != 2 * count:
                return 3, b''
            for a in range(addr, addr + count):
                if a not in self.h:
                    return 2, b''
            self.load(addr, data)
            self.writes.append((addr, bytes(data)))
            return 0, struct.pack('>HH', addr, count)
        return 1, b''

    def snapshot(self):
        return dict(self.h), dict(self.i)


class Fault(object):
    """What happens to one request.

    kind:
      exc       device answers with exception `code` (request not applied)
      drop      no reply (applied if `apply`)
      late      reply only arrives after the client's timeout (applied)
      cut       first `keep` bytes of the reply, then `then` ('close'|'silence'|'reset'|'ioerror';
                'interrupt': the program is interrupted there and the rest arrives afterwards)
      raw       reply frame replaced by bytes_fn(frame, req)
      prefix    stale bytes_fn(frame, req) delivered before the reply
      sendfail  sending raises; request not delivered
      sendblock sending blocks until the timeout; request not delivered
      flushfail serial input flush raises (serial only)
      busy      like exc 6
    """

    def __init__(self, kind, code=None, apply=False, keep=0, then='close', fn=None, exc=None):
        self.kind = kind
        self.code = code
        self.apply = apply
        self.keep = keep
        self.then = then
        self.fn = fn
        self.exc = exc

    def __repr__(self):
        return '<fault %s code=%s apply=%s keep=%s then=%s>' % (self.kind, self.code, self.apply, self.keep, self.then)


TIMEOUT = 'TIMEOUT'
EOF = 'EOF'


class Station(object):
    """Units behind one TCP endpoint or on one serial bus, plus a fault plan."""

    def __init__(self, net, units, kind):
        self.net = net
        self.units = dict(units)
        self.kind = kind                 # 'tcp' or 'rtu'
        self.requests = []
        self.bad = []                    # malformed frames, with the reason
        self.fault = None                # fn(n, req) -> Fault or None
        self.connect_fault = None        # fn(n) -> exception or None
        self.close_fault = None          # fn() -> exception or None: closing releases the resource and reports an error
        self.close_faults = 0
        self.chunker = None              # fn(frame) -> list of chunk sizes
        self.nconnect = 0
        self.replies = []                # frames sent back

    # -- PDU level
    def make_reply(self, unit, func, payload, tid=0, exc=0):
        if exc:
            pdu = bytes([unit, func | 0x80, exc])
        else:
            pdu = bytes([unit, func]) + payload
        if self.kind == 'tcp':
            return struct.pack('>HHH', tid, 0, len(pdu)) + pdu
        return pdu + crc16(pdu)

    def handle(self, unit, func, addr, count, data, frame, tid, via):
        """Process one request; returns the list of delivery items."""
        req = Req(n=len(self.requests), unit=unit, func=func, addr=addr, count=count, data=data, frame=frame,
                  tid=tid, when=self.net.now, via=via)
        self.requests.append(req)
        f = self.fault(req.n, req) if self.fault else None
        u = self.units.get(unit)
        if u is None and f is None:
            req.status = 'no-unit'
            return []
        k = f.kind if f else None
        if k in ('exc', 'busy'):
            code = f.code if k == 'exc' else 6
            req.status = 'exc%s' % code
            frame = self.make_reply(unit, func, b'', tid, 0) if code is None else None
            if code == 0:
                pdu = bytes([unit, func | 0x80, 0])
                frame = struct.pack('>HHH', tid, 0, 3) + pdu if self.kind == 'tcp' else pdu + crc16(pdu)
            else:
                frame = self.make_reply(unit, func, b'', tid, code)
            return self.deliver(frame)
        if k == 'drop' and not f.apply:
            req.status = 'dropped'
            return []
        if u is None:
            req.status = 'no-unit'
            return []
        exc, payload = u.serve(func, addr, count, data)
        frame = self.make_reply(unit, func, payload, tid, exc)
        req.reply = frame
        req.status = 'exc%d' % exc if exc else 'ok'
        if k is None:
            return self.deliver(frame)
        if k == 'drop':
            req.status += '-reply-dropped'
            return []
        if k == 'late':
            req.status += '-late'
            return [TIMEOUT] + self.deliver(frame)
        if k == 'cut':
            req.status += '-cut'
            items = self.deliver(frame[:f.keep]) if f.keep else []
            if f.keep >= len(frame):
                return items                # complete after all: nothing else goes wrong
            if f.then == 'close':
                items.append(EOF)
            elif f.then == 'reset':
                items.append(f.exc or ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'))
            elif f.then == 'ioerror':
                items.append(f.exc or _serial.SerialException('device reports readiness to read but returned no data'))
            elif f.then == 'interrupt':
                items.append(f.exc or KeyboardInterrupt())
                items += self.deliver(frame[f.keep:])
            return items
        if k == 'raw':
            req.status += '-raw'
            return self.deliver(f.fn(frame, req))
        if k == 'prefix':
            req.status += '-prefix'
            return self.deliver(f.fn(frame, req) + frame)
        raise AssertionError(k)

    def deliver(self, frame):
        self.replies.append(frame)
        if not frame:
            return []
        if self.chunker is None:
            return [frame]
        out = []
        pos = 0
        for n in self.chunker(frame):
            if pos >= len(frame):
                break
            out.append(frame[pos:pos + n])
            pos += n
        if pos < len(frame):
            out.append(frame[pos:])
        return out

    def note_bad(self, why, frame):
        self.bad.append('%s: %s' % (why, bytes(frame).hex()))

    def parse_body(self, unit, func, body, frame):
        """Decode the request body; returns (addr, count, data) or None."""
        if func in (READ_H, READ_I):
            if len(body) != 4:
                self.note_bad('read request of %d body bytes' % len(body), frame)
                return None
            addr, count = struct.unpack('>HH', body)
            if not 1 <= count <= 125:
                self.note_bad('read of %d registers' % count, frame)
            data = None
        elif func == WRITE_M:
            if len(body) < 5:
                self.note_bad('short write request', frame)
                return None
            addr, count, nb = struct.unpack('>HHB', body[:5])
            data = bytes(body[5:])
            if nb != len(data) or nb != 2 * count:
                self.note_bad('write byte count %d, %d registers, %d data bytes' % (nb, count, len(data)), frame)
            if not 1 <= count <= 123:
                self.note_bad('write of %d registers' % count, frame)
        else:
            self.note_bad('function %d' % func, frame)
            return None
        if addr + count > 65536:
            self.note_bad('range %d+%d beyond the address space' % (addr, count), frame)
        return addr, count, data


class Net(object):
    """The world of one case."""

    def __init__(self, ctx=None):
        self.now = 0.0
        self.tcp = {}
        self.buses = {}
        self.events = []
        self.sockets = []
        self.ports = []
        self.ops = 0
        self.ctx = ctx
        self.slept = []

    def tick(self):
        self.ops += 1
        if self.ops > OP_LIMIT:
            raise NoProgress('more than %d transport operations in one case' % OP_LIMIT)

    def log(self, what, *a):
        self.events.append((what,) + a)

    def add_tcp(self, host, port, units):
        s = Station(self, units, 'tcp')
        self.tcp[(host, port)] = s
        return s

    def add_bus(self, name, units):
        s = Station(self, units, 'rtu')
        self.buses[name] = s
        return s

    def open_sockets(self):
        return [s for s in self.sockets if not s.closed]

    def open_ports(self):
        return [p for p in self.ports if p.is_open]

    def all_bad(self):
        out = []
        for s in list(self.tcp.values()) + list(self.buses.values()):
            out += s.bad
        return out

    def __enter__(self):
        global ACTIVE
        self._prev = ACTIVE
        ACTIVE = self
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = self._prev
        return False


ACTIVE = None


def close_error(st):
    e = st.close_fault() if st is not None and st.close_fault else None
    if e is not None:
        st.close_faults += 1
        raise e


class FakeSocket(object):
    """Stand-in for socket.socket on the virtual network."""

    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        self.net = ACTIVE
        self.family = family
        self.type = type
        self.proto = proto
        self.closed = False
        self.peer = None
        self.station = None
        self._timeout = None
        self.rx = []
        self.inbuf = b''
        self.dead = None
        self.stuck = False
        self.sent = 0
        self.peer_closed = False
        self.id = len(self.net.sockets)
        self.timeouts_set = []
        self.net.sockets.append(self)
        self.net.log('socket', self.id)

    # -- plumbing
    def settimeout(self, t):
        self._timeout = t
        self.timeouts_set.append(t)

    def gettimeout(self):
        return self._timeout

    timeout = property(gettimeout)

    def setblocking(self, flag):
        self.settimeout(None if flag else 0.0)

    def getblocking(self):
        return self._timeout != 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1 if self.closed else 100000 + self.id

    def bind(self, a):
        pass

    def getpeername(self):
        if self.peer is None:
            raise OSError(errno.ENOTCONN, 'not connected')
        return self.peer

    def getsockname(self):
        return ('127.0.0.1', 50000)

    def _live(self):
        self.net.tick()
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def connect(self, address):
        self._live()
        if self.station is not None:
            raise OSError(errno.EISCONN, 'Transport endpoint is already connected')
        host, port = address[0], address[1]
        self.net.log('connect', self.id, host, port)
        st = self.net.tcp.get((host, port))
        if st is None:
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        n = st.nconnect
        st.nconnect += 1
        e = st.connect_fault(n) if st.connect_fault else None
        if e is not None:
            if isinstance(e, _socket.timeout):
                if self._timeout is None:
                    raise NoProgress('connect without a timeout to an unresponsive host')
                self.net.now += self._timeout
            raise e
        self.peer = (host, port)
        self.station = st
        self.net.log('connected', self.id, host, port)

    def connect_ex(self, address):
        try:
            self.connect(address)
        except OSError as e:
            return e.errno or errno.ETIMEDOUT
        return 0

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def sendall(self, data, flags=0):
        self._live()
        data = bytes(data)
        if self.station is None:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        if self.peer_closed or self.dead:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if self.stuck:
            self._wait()
        st = self.station
        self.net.log('send', self.id, data)
        self.inbuf += data
        self.sent += len(data)
        while len(self.inbuf) >= 6:
            tid, proto, ln = struct.unpack('>HHH', self.inbuf[:6])
            if proto != 0:
                st.note_bad('protocol id %d' % proto, self.inbuf)
            if ln < 2 or ln > 254:
                st.note_bad('MBAP length %d' % ln, self.inbuf)
                self.inbuf = b''
                return
            if len(self.inbuf) < 6 + ln:
                break
            frame = self.inbuf[:6 + ln]
            self.inbuf = self.inbuf[6 + ln:]
            unit, func = frame[6], frame[7]
            body = st.parse_body(unit, func, frame[8:], frame)
            if body is None:
                continue
            f = st.fault(len(st.requests), None) if st.fault else None
            if f is not None and f.kind == 'sendblock':
                st.requests.append(Req(n=len(st.requests), unit=unit, func=func, addr=body[0], count=body[1], data=body[2],
                                       frame=frame, tid=tid, when=self.net.now, status='sendblock', via=self.id))
                self.stuck = True
                self._wait()
            if f is not None and f.kind == 'sendfail':
                st.requests.append(Req(n=len(st.requests), unit=unit, func=func, addr=body[0], count=body[1], data=body[2],
                                       frame=frame, tid=tid, when=self.net.now, status='sendfail', via=self.id))
                self.dead = True
                raise f.exc or BrokenPipeError(errno.EPIPE, 'Broken pipe')
            self.rx += st.handle(unit, func, body[0], body[1], body[2], frame, tid, self.id)

    def recv(self, bufsize, flags=0):
        self._live()
        if self.station is None:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        if bufsize <= 0:
            return b''
        if not self.rx:
            if self.peer_closed:
                return b''
            if self.dead:
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            return self._wait()
        item = self.rx[0]
        if item is TIMEOUT:
            self.rx.pop(0)
            return self._wait()
        if item is EOF:
            self.peer_closed = True
            self.rx.pop(0)
            self.net.log('eof', self.id)
            return b''
        if isinstance(item, BaseException):
            self.rx.pop(0)
            self.dead = isinstance(item, Exception)
            raise item
        out = item[:bufsize]
        rest = item[bufsize:]
        if rest:
            self.rx[0] = rest
        else:
            self.rx.pop(0)
        self.net.log('recv', self.id, out)
        return out

    def _wait(self):
        if self._timeout is None:
            raise NoProgress('receive without a timeout on a silent connection')
        if self._timeout == 0.0:
            raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        self.net.now += self._timeout
        self.net.log('timeout', self.id, self._timeout)
        raise _socket.timeout('timed out')

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)

    def shutdown(self, how):
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if self.station is None or self.dead:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        self.net.log('shutdown', self.id)

    def close(self):
        if not self.closed:
            self.closed = True
            self.net.log('close', self.id)
            close_error(self.station)

    def detach(self):
        self.close()
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FakeSerial(_serial.SerialBase):
    """Stand-in for serial.Serial on a simulated bus."""

    def __init__(self, *a, **kw):
        self.net = ACTIVE
        self.rx = []
        self.bus = None
        self.inbuf = b''
        self.id = len(self.net.ports)
        self.net.ports.append(self)
        self.opens = 0
        self.closes = 0
        super().__init__(*a, **kw)

    def open(self):
        self.net.tick()
        if self._port is None:
            raise _serial.SerialException('Port must be configured before it can be used.')
        if self.is_open:
            raise _serial.SerialException('Port is already open.')
        bus = self.net.buses.get(self._port)
        if bus is None:
            raise _serial.SerialException(errno.ENOENT, "could not open port %s: No such file or directory" % self._port)
        e = bus.connect_fault(bus.nconnect) if bus.connect_fault else None
        bus.nconnect += 1
        if e is not None:
            raise e
        self.bus = bus
        self.is_open = True
        self.opens += 1
        self.net.log('open', self.id, self._port)

    def _reconfigure_port(self, force_update=False):
        pass

    def close(self):
        if getattr(self, 'is_open', False):
            self.is_open = False
            self.closes += 1
            self.net.log('portclose', self.id, self._port)
            close_error(self.bus)

    def _live(self):
        self.net.tick()
        if not self.is_open:
            raise _serial.PortNotOpenError()

    @property
    def in_waiting(self):
        self._live()
        n = 0
        for x in self.rx:
            if isinstance(x, bytes):
                n += len(x)
            else:
                break
        return n

    def reset_input_buffer(self):
        self._live()
        b = self.bus
        f = b.fault(len(b.requests), None) if b.fault else None
        if f is not None and f.kind == 'flushfail':
            raise f.exc or _serial.SerialException('flush failed')
        while self.rx and isinstance(self.rx[0], bytes):
            self.net.log('flushed', self.id, self.rx[0])
            self.rx.pop(0)

    def reset_output_buffer(self):
        self._live()

    def flush(self):
        self._live()

    def write(self, data):
        self._live()
        data = _serial.to_bytes(data)
        b = self.bus
        f = b.fault(len(b.requests), None) if b.fault else None
        if f is not None and f.kind == 'sendblock':
            b.requests.append(Req(n=len(b.requests), unit=data[0], func=data[1], frame=bytes(data), status='sendblock', via=self.id, when=self.net.now))
            if self._write_timeout is None:
                raise NoProgress('serial write without a timeout on a blocked line')
            self.net.now += self._write_timeout
            self.net.log('timeout', self.id, self._write_timeout)
            raise _serial.SerialTimeoutException('Write timeout')
        if f is not None and f.kind == 'sendfail':
            b.requests.append(Req(n=len(b.requests), unit=data[0], func=data[1], frame=bytes(data), status='sendfail', via=self.id))
            raise f.exc or _serial.SerialTimeoutException('Write timeout')
        self.net.log('send', self.id, bytes(data))
        self.inbuf += data
        self._parse()
        return len(data)

    def _parse(self):
        b = self.bus
        while len(self.inbuf) >= 8:
            func = self.inbuf[1]
            if func in (READ_H, READ_I):
                ln = 8
            elif func == WRITE_M:
                ln = 9 + self.inbuf[6]
            else:
                b.note_bad('function %d' % func, self.inbuf)
                self.inbuf = b''
                return
            if len(self.inbuf) < ln:
                return
            frame = self.inbuf[:ln]
            self.inbuf = self.inbuf[ln:]
            if crc16(frame[:-2]) != frame[-2:]:
                b.note_bad('request checksum', frame)
                continue
            body = b.parse_body(frame[0], func, frame[2:-2], frame)
            if body is None:
                continue
            self.rx += b.handle(frame[0], func, body[0], body[1], body[2], frame, None, self.id)

    def read(self, size=1):
        self._live()
        if size <= 0:
            return b''
        if not self.rx or self.rx[0] is TIMEOUT:
            if self.rx:
                self.rx.pop(0)
            if self._timeout is None:
                raise NoProgress('serial read without a timeout on a silent line')
            self.net.now += self._timeout
            self.net.log('timeout', self.id, self._timeout)
            return b''
        item = self.rx[0]
        if item is EOF:
            item = _serial.SerialException('device disconnected')
        if isinstance(item, BaseException):
            self.rx.pop(0)
            raise item
        out = item[:size]
        rest = item[size:]
        if rest:
            self.rx[0] = rest
        else:
            self.rx.pop(0)
        self.net.log('recv', self.id, out)
        return out

    def fileno(self):
        raise OSError('no descriptor')

"""Sanity of the harness itself (setup_cmd): independent of the library's behaviour."""
import struct

from . import ref, sim


def main():
    assert sim.crc16(bytes.fromhex('01030000000a')) == bytes.fromhex('c5cd')
    assert ref.decode('int16', b'\x80\x00') is None and ref.decode('uint32', b'\0\0\0\5') == 5
    for t in ref.ALL_TYPES:
        n = ref.REGS[t] or 4
        assert len(ref.unimpl(t, n)) == 2 * n and ref.decode(t, ref.unimpl(t, n)) is None, t
    u = sim.Unit({i: i for i in range(10)})
    assert u.serve(3, 2, 2, None) == (0, b'\x04\0\2\0\3')
    assert u.serve(3, 9, 2, None)[0] == 2
    assert u.serve(16, 1, 1, b'\xab\xcd')[0] == 0 and u.h[1] == 0xabcd
    with sim.Net() as net:
        net.add_tcp('h', 502, {1: u})
        s = sim.FakeSocket()
        s.settimeout(1)
        s.connect(('h', 502))
        s.sendall(struct.pack('>HHHBBHH', 7, 0, 6, 1, 3, 1, 1))
        assert s.recv(100) == bytes.fromhex('0007000000050103') + b'\x02\xab\xcd'
        s.close()
    print('selftest ok')
    return 0

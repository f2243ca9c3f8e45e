"""Installs the dispatching stand-ins, then imports the library under test."""
import os
import socket
import ssl                                   # before socket.socket is replaced
import sys
import time

import serial

from . import core, sim

_RealSocket = socket.socket
_RealSerial = serial.Serial
_real_sleep = time.sleep


class DispatchSocket(_RealSocket):
    def __new__(cls, *a, **kw):
        if sim.ACTIVE is not None and cls is DispatchSocket and kw.get('fileno') is None:
            return sim.FakeSocket(*a, **kw)
        return _RealSocket.__new__(cls, *a, **kw)


def DispatchSerial(*a, **kw):
    if sim.ACTIVE is not None:
        return sim.FakeSerial(*a, **kw)
    return _RealSerial(*a, **kw)


def dispatch_sleep(t):
    if sim.ACTIVE is not None:
        sim.ACTIVE.tick()
        sim.ACTIVE.now += t
        sim.ACTIVE.slept.append(t)
        return
    _real_sleep(t)


socket.socket = DispatchSocket
serial.Serial = DispatchSerial
time.sleep = dispatch_sleep

import sunspec.core.client as client            # noqa: E402
import sunspec.core.data as data                # noqa: E402
import sunspec.core.device as device            # noqa: E402
import sunspec.core.modbus.client as modbus     # noqa: E402
import sunspec.core.modbus.mbmap as mbmap       # noqa: E402
import sunspec.core.pics as pics                # noqa: E402
import sunspec.core.smdx as smdx                # noqa: E402
import sunspec.core.suns as suns                # noqa: E402
import sunspec.core.util as util                # noqa: E402

for m in (client, data, device, modbus, mbmap, pics, smdx, suns, util):
    if not os.path.realpath(m.__file__).startswith(core.REPO + os.sep):
        sys.stderr.write('library imported from %s instead of %s\n' % (m.__file__, core.REPO))
        sys.exit(2)

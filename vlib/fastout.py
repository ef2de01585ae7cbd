"""Independent encoder of OpenFAST binary output files (the published layout), used as an oracle."""
import struct
import numpy as np


def encode(fileID, names, units, nt, packed, scl, off, desc='', t0=0.0, dt=0.1, tscl=1.0, toff=0.0, ptime=None, lenname=10):
    """names/units include the time channel; packed: (nt, nchan) int16, or float64 for ID 3."""
    nch = len(names) - 1
    b = struct.pack('<h', fileID)
    if fileID == 4:
        b += struct.pack('<h', lenname)
    L = lenname if fileID == 4 else 10
    b += struct.pack('<ii', nch, nt)
    if fileID == 1:
        b += struct.pack('<dd', tscl, toff)
    else:
        b += struct.pack('<dd', t0, dt)
    if fileID != 3:
        b += np.asarray(scl, '<f4').tobytes() + np.asarray(off, '<f4').tobytes()
    d = desc.encode('latin1')
    b += struct.pack('<i', len(d)) + d
    for s in names:
        b += s.encode('latin1').ljust(L)[:L]
    for u in units:
        b += ('(' + u + ')').encode('latin1').ljust(L)[:L]
    if fileID == 1:
        b += np.asarray(ptime, '<i4').tobytes()
    b += np.asarray(packed, '<f8' if fileID == 3 else '<i2').tobytes()
    return b


def decode(raw):
    """Independent decoder: returns dict(id, t, data, names, units, desc, quant) from bytes."""
    o = [0]

    def take(fmt):
        v = struct.unpack_from('<' + fmt, raw, o[0])
        o[0] += struct.calcsize('<' + fmt)
        return v
    fid, = take('h')
    L = take('h')[0] if fid == 4 else 10
    nch, nt = take('ii')
    a, c = take('dd')
    if fid != 3:
        scl = np.array(take('%df' % nch))
        off = np.array(take('%df' % nch))
    else:
        scl, off = np.ones(nch), np.zeros(nch)
    nd, = take('i')
    desc = raw[o[0]:o[0] + nd].decode('latin1')
    o[0] += nd
    names, units = [], []
    for lst in (names, units):
        for _ in range(nch + 1):
            lst.append(raw[o[0]:o[0] + L].decode('latin1').strip())
            o[0] += L
    units = [u[1:-1] if u[:1] in '([' and u[-1:] in ')]' else u for u in units]
    if fid == 1:
        p = np.array(take('%di' % nt), float)
        t = (p - c) / a
    else:
        t = a + c * np.arange(nt)
    dt = '<f8' if fid == 3 else '<i2'
    n = nt * nch
    packed = np.frombuffer(raw, dt, count=n, offset=o[0]).reshape(nt, nch)
    o[0] += packed.nbytes
    return dict(id=fid, t=t, data=(packed - off) / scl, names=names, units=units, desc=desc.strip(), rest=len(raw) - o[0], scl=scl, off=off)

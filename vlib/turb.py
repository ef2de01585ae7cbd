"""Independent encoders/decoders of TurbSim (.bts) and Mann box binary layouts."""
import struct
import numpy as np


def bts_encode(ID, dz, dy, dt, uHub, zHub, zBot, scl, off, info, u, tw):
    """u: int16 (3, nt, ny, nz); tw: int16 (3, nt, ntwr).  Component fastest, then y, then z, then time."""
    _, nt, ny, nz = u.shape
    ntw = tw.shape[2]
    raw = info.encode()
    b = [struct.pack('<hiiii', ID, nz, ny, ntw, nt), struct.pack('<6f', dz, dy, dt, uHub, zHub, zBot),
         struct.pack('<6f', scl[0], off[0], scl[1], off[1], scl[2], off[2]), struct.pack('<i', len(raw)), raw]
    for it in range(nt):
        # (z, y, comp) in C order
        b.append(np.ascontiguousarray(np.transpose(u[:, it], (2, 1, 0))).astype('<i2').tobytes())
        b.append(np.ascontiguousarray(tw[:, it].T).astype('<i2').tobytes())
    return b''.join(b)


def bts_decode(raw):
    ID, nz, ny, ntw, nt = struct.unpack_from('<hiiii', raw, 0)
    o = 18
    dz, dy, dt, uHub, zHub, zBot = struct.unpack_from('<6f', raw, o)
    o += 24
    s = struct.unpack_from('<6f', raw, o)
    o += 24
    nch, = struct.unpack_from('<i', raw, o)
    o += 4
    info = raw[o:o + nch]
    o += nch
    scl, off = np.array(s[0::2], float), np.array(s[1::2], float)
    u = np.zeros((3, nt, ny, nz))
    tw = np.zeros((3, nt, ntw))
    for it in range(nt):
        for iz in range(nz):
            for iy in range(ny):
                u[:, it, iy, iz] = struct.unpack_from('<3h', raw, o)
                o += 6
        for k in range(ntw):
            tw[:, it, k] = struct.unpack_from('<3h', raw, o)
            o += 6
    u = (u - off[:, None, None, None]) / scl[:, None, None, None]
    tw = (tw - off[:, None, None]) / scl[:, None, None]
    return dict(ID=ID, dz=dz, dy=dy, dt=dt, uHub=uHub, zHub=zHub, zBot=zBot, u=u, uTwr=tw, rest=len(raw) - o, info=info)


def mann_encode(field):
    """field (nx, ny, nz) with y increasing; file: x slowest, y from + to -, z fastest, 4-byte floats."""
    nx, ny, nz = field.shape
    out = []
    for ix in range(nx):
        for iy in range(ny):
            out.append(np.asarray(field[ix, ny - 1 - iy, :], '<f4').tobytes())
    return b''.join(out)

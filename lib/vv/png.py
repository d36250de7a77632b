"""Minimal PNG reader."""
import struct, zlib
import numpy as np


def read(path):
    """-> (h, w, channels) uint8 array."""
    b = open(path, "rb").read()
    if b[:8] != b"\x89PNG\r\n\x1a\n":
        raise ValueError("not a PNG file (%d bytes)" % len(b))
    i, idat, pal = 8, b"", None
    while i < len(b):
        n, t = struct.unpack(">I4s", b[i:i + 8])
        d = b[i + 8:i + 8 + n]
        if len(d) != n or zlib.crc32(t + d) != struct.unpack(">I", b[i + 8 + n:i + 12 + n])[0]:
            raise ValueError("damaged PNG chunk %r" % t)
        if t == b"IHDR":
            w, h, bits, color, _, _, inter = struct.unpack(">IIBBBBB", d)
        elif t == b"PLTE":
            pal = np.frombuffer(d, np.uint8).reshape(-1, 3)
        elif t == b"IDAT":
            idat += d
        i += 12 + n
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[color]
    if inter or bits not in (1, 2, 4, 8):
        raise ValueError("unsupported PNG")
    raw = np.frombuffer(zlib.decompress(idat), np.uint8)
    rb = (w * ch * bits + 7) // 8
    raw = raw.reshape(h, rb + 1)
    out = np.zeros((h, rb), np.uint8)
    bpp = max(1, ch * bits // 8)
    prev = np.zeros(rb, np.int64)
    for y in range(h):
        f, x = raw[y, 0], raw[y, 1:].astype(np.int64)
        if f == 2:
            x = x + prev & 255
        elif f == 1:
            x = x.reshape(-1, bpp).cumsum(0).reshape(-1) & 255
        elif f in (3, 4):
            for k in range(rb):
                a = x[k - bpp] if k >= bpp else 0
                u = prev[k]
                if f == 3:
                    x[k] = x[k] + (a + u) // 2 & 255
                else:
                    c = prev[k - bpp] if k >= bpp else 0
                    p = a + u - c
                    pa, pb, pc = abs(p - a), abs(p - u), abs(p - c)
                    x[k] = x[k] + (a if pa <= pb and pa <= pc else u if pb <= pc else c) & 255
        out[y] = x
        prev = x
    if bits < 8:
        out = np.unpackbits(out, axis=1).reshape(h, -1, bits) @ (1 << np.arange(bits)[::-1])
        out = out[:, :w * ch].astype(np.uint8)
    out = out.reshape(h, w, ch)
    return pal[out[..., 0]] if color == 3 else out

"""readers for the images of a run (PNG and GIF), independent of gnome and py_gd"""
import struct
import zlib

import numpy as np


class BadImage(Exception):
    """the file is not a complete image"""


def read_png(path):
    """the image as rows x columns x (r, g, b); transparent pixels are white"""
    with open(path, 'rb') as f:
        data = f.read()
    if data[:8] != b'\x89PNG\r\n\x1a\n':
        raise BadImage('not a PNG file')
    pos, idat, plte, trns, head, end = 8, b'', None, b'', None, False
    while pos < len(data):
        if pos + 12 > len(data):
            raise BadImage('cut off')
        n, = struct.unpack('>I', data[pos:pos + 4])
        kind, body = data[pos + 4:pos + 8], data[pos + 8:pos + 8 + n]
        if len(data) < pos + 12 + n:
            raise BadImage('cut off')
        crc, = struct.unpack('>I', data[pos + 8 + n:pos + 12 + n])
        if crc != zlib.crc32(kind + body):
            raise BadImage('damaged')
        if kind == b'IHDR':
            head = struct.unpack('>IIBBBBB', body)
        elif kind == b'PLTE':
            plte = np.frombuffer(body, np.uint8).reshape(-1, 3)
        elif kind == b'tRNS':
            trns = body
        elif kind == b'IDAT':
            idat += body
        elif kind == b'IEND':
            end = True
        pos += 12 + n
    if not end or head is None:
        raise BadImage('cut off')
    w, h, depth, ctype, _, _, lace = head
    if ctype != 3 or lace:
        raise BadImage('unexpected kind of PNG (%d, %d)' % (ctype, lace))
    raw = zlib.decompress(idat)
    rb = (w * depth + 7) // 8
    if len(raw) != h * (rb + 1):
        raise BadImage('cut off')
    rows, prev = [], np.zeros(rb, np.uint8)
    for y in range(h):
        flt = raw[y * (rb + 1)]
        line = np.frombuffer(raw, np.uint8, rb, y * (rb + 1) + 1).copy()
        if flt == 2:
            line = line + prev
        elif flt:
            out = [0] * rb
            for i in range(rb):
                a = out[i - 1] if i else 0
                b = int(prev[i])
                c = int(prev[i - 1]) if i else 0
                if flt == 1:
                    p = a
                elif flt == 3:
                    p = (a + b) // 2
                else:
                    pa, pb, pc = abs(b - c), abs(a - c), abs(a + b - 2 * c)
                    p = a if pa <= pb and pa <= pc else (b if pb <= pc else c)
                out[i] = (int(line[i]) + p) & 255
            line = np.array(out, np.uint8)
        prev = line
        if depth < 8:
            bits = np.unpackbits(line)
            line = bits.reshape(-1, depth).dot(1 << np.arange(depth)[::-1])[:w]
        rows.append(line)
    pal = plte.copy()
    for i, alpha in enumerate(trns):
        if alpha == 0:
            pal[i] = 255
    idx = np.array(rows)
    if idx.max() >= len(pal):
        raise BadImage('colour out of the palette')
    return pal[idx]


def read_gif(path):
    """size, delays of the frames and whether the file is closed properly (py_gd merges equal frames
    by adding their delays and leaves out what does not change, so the pixels are not compared)"""
    with open(path, 'rb') as f:
        d = f.read()
    if d[:6] not in (b'GIF89a', b'GIF87a') or len(d) < 13:
        raise BadImage('not a GIF file')
    w, h, flags = struct.unpack('<HHB', d[6:11])
    pos = 13 + (3 * (2 << (flags & 7)) if flags & 0x80 else 0)
    delays, delay = [], 0

    def blocks(pos):
        out = b''
        while True:
            if pos >= len(d) or pos + 1 + d[pos] > len(d):
                raise BadImage('cut off')
            n = d[pos]
            out += d[pos + 1:pos + 1 + n]
            pos += 1 + n
            if n == 0:
                return out, pos

    while pos < len(d):
        b = d[pos]
        if b == 0x3b:
            if pos + 1 != len(d):
                raise BadImage('%d bytes after the end' % (len(d) - pos - 1))
            return (w, h), delays, True
        if b == 0x21:
            if pos + 1 >= len(d):
                raise BadImage('cut off')
            label = d[pos + 1]
            body, pos = blocks(pos + 2)
            if label == 0xf9:
                delay, = struct.unpack('<H', body[1:3])
        elif b == 0x2c:
            if pos + 11 > len(d):
                raise BadImage('cut off')
            fl = d[pos + 9]
            pos += 10 + (3 * (2 << (fl & 7)) if fl & 0x80 else 0)
            body, pos = blocks(pos + 1)
            delays.append(delay)
        else:
            raise BadImage('unexpected byte %02x' % b)
    return (w, h), delays, False

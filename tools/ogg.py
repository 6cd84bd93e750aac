"""Ogg pages: parsing and building."""
import struct

_T = []
for _i in range(256):
    _c = _i << 24
    for _ in range(8):
        _c = ((_c << 1) ^ 0x04C11DB7) & 0xFFFFFFFF if _c & 0x80000000 else _c << 1
    _T.append(_c)


def crc(data):
    c = 0
    for b in data:
        c = ((c << 8) & 0xFFFFFFFF) ^ _T[(c >> 24) ^ b]
    return c


def page(serial, seq, granule, segs, body, flags=0, version=0, badcrc=False):
    h = b'OggS' + struct.pack('<BBqIII', version, flags, granule, serial & 0xFFFFFFFF, seq & 0xFFFFFFFF, 0) + bytes([len(segs)]) + bytes(segs)
    c = crc(h + body) ^ (1 if badcrc else 0)
    return h[:22] + struct.pack('<I', c) + h[26:] + body


def lacing(n):
    return [255] * (n // 255) + [n % 255]


def parse(data):
    """[(dict)] pages from byte 0; garbage between pages is skipped and counted"""
    out, i = [], 0
    junk = 0
    while i + 27 <= len(data):
        if data[i:i + 4] != b'OggS':
            i += 1
            junk += 1
            continue
        v, fl, g, ser, seq, c = struct.unpack('<BBqIII', data[i + 4:i + 26])
        ns = data[i + 26]
        segs = list(data[i + 27:i + 27 + ns])
        n = sum(segs)
        end = i + 27 + ns + n
        if len(segs) < ns or end > len(data):
            return out, junk + len(data) - i
        raw = data[i:end]
        ok = crc(raw[:22] + b'\0\0\0\0' + raw[26:]) == c
        out.append(dict(off=i, flags=fl, version=v, granule=g, serial=ser, seq=seq, crcok=ok, segs=segs,
                        body=data[end - n:end], len=end - i))
        i = end
    return out, junk + len(data) - i


def streams(pages):
    """serial -> list of packets (bytes) in order, per logical stream"""
    out, part = {}, {}
    for p in pages:
        s = p['serial']
        lst = out.setdefault(s, [])
        cur = part.get(s, b'')
        o = 0
        for x in p['segs']:
            cur += p['body'][o:o + x]
            o += x
            if x < 255:
                lst.append(cur)
                cur = b''
        part[s] = cur
    return out


class Mux:
    """Lays packets of several streams out in pages."""

    def __init__(self):
        self.out = b''

    def stream(self, serial, packets, ends, granules, bos=True, eos=True, seq=0, cut=None):
        """ends[i]: end the page after packet i; granules[i]: granule if a page ends there. Returns pages list."""
        pages = []
        segs, body = [], b''
        cont = False
        lastg = -1
        done = -1
        for i, p in enumerate(packets):
            lac = lacing(len(p))
            o = 0
            for j, l in enumerate(lac):
                if len(segs) == 255 or (cut and j > 0 and cut()):
                    pages.append((segs, body, lastg, cont, False))
                    segs, body, lastg = [], b'', -1
                    cont = j > 0
                segs.append(l)
                body += p[o:o + l]
                o += l
            lastg = granules[i]
            if ends[i] or i == len(packets) - 1:
                pages.append((segs, body, lastg, cont, i == len(packets) - 1))
                segs, body, lastg, cont = [], b'', -1, False
        res = []
        for n, (segs, body, g, cont, last) in enumerate(pages):
            fl = (1 if cont else 0) | (2 if n == 0 and bos else 0) | (4 if last and eos else 0)
            res.append(page(serial, seq + n, g, segs, body, fl))
        return res

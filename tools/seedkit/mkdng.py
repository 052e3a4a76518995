"""Makes a minimal uncompressed CFA DNG file for the demonstrations."""
import struct


def dng(w=64, h=48, seed=1, model="Demo", extra=None, exif=None):
    px, x = [], seed * 2654435761 & 0xFFFFFFFF
    for _ in range(w * h):
        x = (x * 1664525 + 1013904223) & 0xFFFFFFFF
        px.append(x >> 20)
    data = struct.pack("<%dH" % len(px), *px)
    ts = {1: ("B", 1), 2: ("s", 1), 3: ("H", 2), 4: ("I", 4), 5: ("II", 8), 10: ("ii", 8)}
    tags = {
        254: (4, [0]), 256: (4, [w]), 257: (4, [h]), 258: (3, [16]), 259: (3, [1]), 262: (3, [32803]),
        271: (2, b"Demo\0"), 272: (2, model.encode() + b"\0"), 273: (4, [0]), 274: (3, [1]), 277: (3, [1]), 278: (4, [h]),
        279: (4, [len(data)]), 33421: (3, [2, 2]), 33422: (1, [0, 1, 1, 2]), 50706: (1, [1, 4, 0, 0]),
        50708: (2, b"Demo " + model.encode() + b"\0"), 50714: (3, [0]), 50717: (4, [4095]),
        50721: (10, [(1, 1), (0, 1), (0, 1), (0, 1), (1, 1), (0, 1), (0, 1), (0, 1), (1, 1)]),
        50728: (5, [(1, 2), (1, 1), (1, 2)]), 50778: (3, [21]),
    }
    tags.update(extra or {})

    def enc(t, v):
        return v if t == 2 else b"".join(struct.pack("<" + ts[t][0], *(e if isinstance(e, tuple) else (e,))) for e in v)

    def ifd(at, tags):
        n = len(tags)
        head, body, pos = struct.pack("<H", n), b"", at + 2 + 12 * n + 4
        for k in sorted(tags):
            t, v = tags[k]
            e = enc(t, v)
            cnt = len(v)
            if len(e) <= 4:
                head += struct.pack("<HHI", k, t, cnt) + e.ljust(4, b"\0")
            else:
                e += b"\0" * (len(e) % 2)
                head += struct.pack("<HHII", k, t, cnt, pos + len(body))
                body += e
        return head + b"\0\0\0\0" + body

    def whole(off, exoff):
        t = dict(tags)
        t[273] = (4, [off])
        if exif:
            t[34665] = (4, [exoff])
        first = ifd(8, t)
        ex = ifd(8 + len(first), exif) if exif else b""
        return struct.pack("<2sHI", b"II", 42, 8) + first + ex, 8 + len(first)

    a, e = whole(0, 0)
    a, e = whole(len(a), e)
    return a + data



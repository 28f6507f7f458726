"""Reference framing: boundary byte, then the data interrupted by a marker at every multiple of the boundary size."""
import struct


def frame(boundary, ops):
    """ops: ("w", bytes) and ("s",) for a declared split.  Returns the framed stream."""
    B = 1 << boundary
    out = bytearray([boundary])
    split = 1
    for op in ops:
        if op[0] == "s":
            split = len(out)
            continue
        data = op[1]
        while data:
            if len(out) % B == 0:
                out += struct.pack(">i", max(split - len(out), -0x80000000))
            n = min(len(data), B - len(out) % B)
            out += data[:n]
            data = data[n:]
    return bytes(out)


def unframe(raw):
    B = 1 << raw[0]
    out = bytearray()
    pos = 1
    while pos < len(raw):
        if pos % B == 0:
            pos += 4
            continue
        n = B - pos % B
        out += raw[pos:min(pos + n, len(raw))]
        pos += n
    return bytes(out)


def pattern(n, start=0):
    """Data in which every window of a few bytes tells where it is."""
    out = bytearray()
    i = start
    while len(out) < n:
        out += struct.pack("<HB", (i // 3) & 0xFFFF, (i * 37 + 11) & 0xFF)
        i += 3
    return bytes(out[:n])

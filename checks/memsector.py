"""The stored index format (src/mws/index/memsector.h, index.h): header magic u32, version u32,
index_size u64, crc u32, root_off u64 (packed), then nodes in 4-byte units."""
import struct
import zlib

HDR = struct.Struct("<IIQIQ")


def parse_node(b, off):
    """(type, size, entries or (hits, id)) of the node at unit offset off"""
    a = off * 4
    w, = struct.unpack_from("<Q", b, a)
    ty = w & 3
    if ty == 3:
        v, fid = struct.unpack_from("<II", b, a)
        return ty, 0, (v >> 2, fid)
    size = w >> 2
    es = 8 if ty == 1 else 12
    ent = []
    for i in range(size):
        tok = b[a + 8 + i * es:a + 12 + i * es]
        o = struct.unpack_from("<I" if ty == 1 else "<Q", b, a + 12 + i * es)[0]
        ent.append((tok, o))
    return ty, size, ent


def to_long(b, pick=lambda n: True):
    """The same index with the nodes chosen by pick (numbered in post-order) stored with 64-bit
    links."""
    magic, ver, isz, crc, root = HDR.unpack_from(b, 0)
    out = bytearray(HDR.size)
    n = [0]
    count = [0]
    # iterative post-order
    stack = [(root, iter(parse_node(b, root)[2]), [])]
    while True:
        off, it, done = stack[-1]
        try:
            tok, rel = next(it)
        except StopIteration:
            stack.pop()
            me = len(out) // 4
            n[0] += 1
            long = pick(n[0])
            count[0] += long
            out += struct.pack("<Q", (2 if long else 1) | (len(done) << 2))
            for tok, coff in done:
                out += tok + struct.pack("<Q" if long else "<I", me - coff)
            if not stack:
                break
            stack[-1][2].append((stack[-1][3], me) if len(stack[-1]) > 3 else None)
            # the token of the finished child was remembered below
            stack[-1][2][-1] = (pending.pop(), me)
            continue
        child = off - rel
        ty, size, body = parse_node(b, child)
        if ty == 3:
            me = len(out) // 4
            out += b[child * 4:child * 4 + 8]
            done.append((tok, me))
        else:
            if len(stack) == 1:
                pending = []
            pending.append(tok)
            stack.append((child, iter(body), []))
    payload = bytes(out[HDR.size:])
    HDR.pack_into(out, 0, magic, ver, len(payload), zlib.crc32(payload), me)
    return bytes(out), count[0]

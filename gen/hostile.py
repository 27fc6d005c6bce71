"""Programs outside the architectural contract: garbage, mutated and wild ones.
Only memory safety of the simulator is judged on them."""
import random
import struct

import gen as guestgen

KINDS = ('noise', 'soup', 'mutant', 'wildptr', 'paging', 'csr', 'edge')
OPC = (0x37, 0x17, 0x6f, 0x67, 0x63, 0x03, 0x23, 0x13, 0x33, 0x0f, 0x73, 0x2f, 0x53)
REGIONS = (0x80000000, 0x80001000, 0xbfffff00, 0xbffffffc, 0xc0000000, 0x7ffffffc,
           0x10000000, 0x0c000000, 0x0c201000, 0x1fd0e000, 0x1fd0f000, 0x1fb00000,
           0x00000000, 0x00001ffc, 0xfffffffc, 0x40000000, 0x90000000, 0xa0000000)


def lui_addi(rd, v):
    lo = v & 0xfff
    hi = (v + 0x800) & 0xfffff000
    return [hi | rd << 7 | 0x37, lo << 20 | rd << 15 | rd << 7 | 0x13]


def soup_word(r):
    """A word with a real major opcode and otherwise random fields."""
    w = r.getrandbits(32)
    op = r.choice(OPC)
    w = w & ~0x7f | op
    k = r.random()
    if op == 0x33 and k < 0.7:
        w = w & 0x01ffffff | r.choice((0, 0x20, 1, 5, 0x10, 0x30, 0x24, 0x34, 0x14, 4)) << 25
    elif op == 0x2f and k < 0.8:
        w = w & 0x07ff8fff | r.choice((0, 1, 2, 3, 4, 8, 12, 16, 20, 24, 28)) << 27 | 2 << 12
    elif op == 0x73:
        if k < 0.25:
            w = r.choice((0x73, 0x30200073, 0x10200073, 0x12000073 | w & 0x1ff8000,
                          0x10500073, 0x00100073 if k < 0.02 else 0x73))
        else:
            w = w & 0x000fffff | r.choice((
                0x300, 0x301, 0x302, 0x303, 0x304, 0x305, 0x340, 0x341, 0x342, 0x343, 0x344,
                0x100, 0x104, 0x105, 0x140, 0x141, 0x142, 0x143, 0x144, 0x180, 0xf14, 0xc00,
                0xc01, 0xb00, 0x001, 0x003, r.getrandbits(12))) << 20
    elif op == 0x53 and k < 0.8:
        w = w & 0x01ffffff | r.choice((0, 4, 8, 0xc, 0x2c, 0x10, 0x14, 0x50, 0x60, 0x68, 0x70,
                                       0x78)) << 25
    elif op in (0x63, 0x6f) and k < 0.9:
        # near targets, so that the program stays in its own text for a while
        off = r.randrange(-64, 64) * 4
        if op == 0x63:
            u = off & 0x1fff
            w = w & 0x01fff07f | (u >> 12 & 1) << 31 | (u >> 5 & 63) << 25 | \
                (u >> 1 & 15) << 8 | (u >> 11 & 1) << 7
        else:
            u = off & 0x1fffff
            w = w & 0xfff | (u >> 20 & 1) << 31 | (u >> 1 & 1023) << 21 | \
                (u >> 11 & 1) << 20 | (u >> 12 & 255) << 12
    elif op in (3, 0x23) and k < 0.7:
        w = w & ~(31 << 15) | r.choice((8, 9, 18, 19, 20, 21)) << 15
    return w


def pointers(r, wild):
    out = []
    for rd in (8, 9, 18, 19, 20, 21):
        v = r.choice(REGIONS) if wild else 0x80000000 + r.randrange(1 << 20)
        out += lui_addi(rd, v + (r.randrange(-8, 64) if wild else 0) & 0xffffffff)
    return out


def tvec(at):
    # trap handler: step over the instruction and go on
    return lui_addi(5, at) + [0x30529073]


def handler():
    return [0x341022f3, 0x00428293, 0x34129073, 0x30200073]


def hostile(seed, kind):
    r = random.Random('hostile/%s/%d' % (kind, seed))
    n = r.choice((64, 300, 1500))
    if kind == 'noise':
        w = [r.getrandbits(32) for _ in range(n)]
        if r.random() < 0.7:
            w = tvec(0x80000000 + 4 * r.randrange(n)) + w
    elif kind == 'mutant':
        d, _ = guestgen.gen(seed, dict(guestgen.PROFILES[r.choice(
            ('mix', 'vm', 'dev', 'trap', 'smc', 'atomic', 'vmirq'))], budget=300))
        d = bytearray(d)
        used = [i for i in range(0, len(d), 4) if d[i:i + 4] != b'\0\0\0\0']
        for _ in range(r.choice((1, 4, 30, 200))):
            i = r.choice(used)
            if r.random() < 0.6:
                d[i + r.randrange(4)] ^= 1 << r.randrange(8)
            else:
                struct.pack_into('<I', d, i, r.getrandbits(32) if r.random() < 0.5
                                 else soup_word(r))
        return bytes(d)
    else:
        body = []
        while len(body) < n:
            if kind in ('wildptr', 'edge') and r.random() < 0.1:
                body += pointers(r, True)[:2 * r.randrange(1, 7)]
            elif kind == 'csr' and r.random() < 0.4:
                body += lui_addi(6, r.choice((r.getrandbits(32), 1 << r.randrange(32), 0x1800,
                                              0xffffffff)))
                body.append(r.choice((0x300, 0x302, 0x303, 0x304, 0x305, 0x341, 0x344, 0x180, 0x100,
                                      0x104, 0x105, 0x141, 0x144, 0x301, 0xf14)) << 20 |
                            6 << 15 | r.choice((1, 2, 3)) << 12 | r.randrange(32) << 7 | 0x73)
            elif kind == 'edge' and r.random() < 0.3:
                # a run of the same kind of instruction fills one queue
                base = r.choice((0x0000a003, 0x0000a023, 0x0200c033, 0x1800a02f, 0x00000063,
                                 0x58000053, 0x0000100f, 0x00000067))
                for _ in range(r.randrange(5, 60)):
                    w = base | r.choice((8, 9, 18, 19)) << 15
                    if base & 0x7f in (3, 0x33, 0x2f, 0x53):
                        w |= r.randrange(1, 32) << 7
                    body.append(w)
            else:
                body.append(soup_word(r))
        pre = pointers(r, kind in ('wildptr', 'edge'))
        if kind == 'paging':
            root = 0x80000000 + (r.randrange(1, 64) << 12)
            pre += lui_addi(6, 0x80000000 | root >> 12) + [0x18031073]
            pre += lui_addi(6, 0x80000000 + 4 * 60) + [0x34131073]
            pre += lui_addi(6, r.choice((0, 0x800))) + [0x30031073]
            if r.random() < 0.5:
                pre += lui_addi(6, 0xffff) + [0x30231073]
            pre += [0x30200073]
        w = tvec(0x80000000 + 4 * 50) + pre
        w += [0x13] * (49 - len(w)) + [(60 - 49) * 4 << 20 | 0x6f] + handler()
        w += [0x13] * (60 - len(w)) + body
    if kind == 'paging':
        w += [0] * (0x41000 // 4 - len(w))
        words = w
        for k in range(0x1000 // 4, 0x41000 // 4):
            if r.random() < 0.5:
                words[k] = (0x80000000 >> 2 | r.randrange(0x41) << 10 | r.getrandbits(10)) \
                    if r.random() < 0.7 else r.getrandbits(32)
        # the text stays reachable in half of the programs
        if r.random() < 0.6:
            words[(root - 0x80000000) // 4 + 512] = 0x80000000 >> 2 | 0xcf | \
                (r.choice((0, 0x10)))
    return struct.pack('<%dI' % len(w), *[x & 0xffffffff for x in w])

"""Small programs that end in a chosen way: code in a0 produced late, ends that
are only reached on a wrong path, ends in each privilege level."""
import random

import asm as A


def ending(seed, kind, code):
    """kind: ebreak | wfi. Returns (image, number of instructions unknown)."""
    r = random.Random(seed)
    a = A.Asm()
    code &= 0xffffffff
    handler, body, data = a.new('H'), a.new('B'), a.new('D')
    a.la(5, handler)
    a.csr('csrrw', 0, 0x305, 5)
    a.jal(0, body)
    while a.here() % 64:
        a.nop()
    a.label(handler)            # skips the trapping instruction
    a.csr('csrrs', 6, 0x341, 0)
    a.op('addi', 6, 6, 4)
    a.csr('csrrw', 0, 0x341, 6)
    a.mret()
    a.ebreak()
    a.label(body)
    for x in range(8, 32):
        a.li(x, r.getrandbits(32))
    a.la(3, data)

    def bogus():
        """An end that must not happen."""
        a.li(10, r.getrandbits(8) | 1)
        r.choice((a.ebreak, a.wfi))()

    for _ in range(r.randrange(2, 9)):
        k = r.randrange(7)
        l = a.new()
        if k == 0:              # not reached: always taken after a division
            a.op('div', 7, r.randrange(8, 32), r.randrange(8, 32))
            a.op('sub', 7, 7, 7)
            a.br('beq', 7, 0, l)
            bogus()
            a.label(l)
        elif k == 1:            # loop exit mispredicts into an end
            a.li(7, r.randrange(2, 30))
            top = a.new()
            a.label(top)
            a.op('addi', 7, 7, -1)
            a.br('bne', 7, 0, top)
            a.jal(0, l)
            bogus()
            a.label(l)
        elif k == 2:            # trap just before an end that is skipped by it
            a.jal(0, l)
            bogus()
            a.label(l)
            a.w(r.choice((0, 0xffffffff, 0x0000002b)))
        elif k == 3:            # indirect jump over an end
            a.la(7, l)
            a.jalr(r.choice((0, 1)), 7, 0)
            bogus()
            a.label(l)
        elif k == 4:            # a load decides
            a.load('lw', 7, 3, 0)
            a.br('beq', 7, 0, l)
            bogus()
            a.label(l)
        elif k == 5:            # environment call right before
            a.ecall()
        else:
            for _ in range(r.randrange(1, 6)):
                a.op(r.choice(('add', 'xor', 'mul', 'or')), r.randrange(8, 32),
                     r.randrange(8, 32), r.randrange(8, 32))
    mode = r.choice((3, 3, 1, 0)) if kind == 'ebreak' else 3
    how = r.randrange(6)
    if mode != 3:
        l = a.new('U')
        a.la(7, l)
        a.csr('csrrw', 0, 0x341, 7)
        a.li(7, 0x1800)
        a.csr('csrrc', 0, 0x300, 7)
        a.li(7, mode << 11)
        a.csr('csrrs', 0, 0x300, 7)
        a.mret()
        bogus()
        a.label(l)
    if how == 0:
        a.li(10, code)
    elif how == 1:              # last value wins
        a.li(10, code ^ 0xff)
        a.li(10, code)
    elif how == 2:              # through memory, with a miss
        a.li(7, code)
        a.store('sw', 7, 3, 64 * r.randrange(1, 16))
        a.li(10, 1)
        a.store('sw', 7, 3, 4)
        a.load('lw', 10, 3, 4)
    elif how == 3:              # product of a division
        a.li(7, code)
        a.li(6, 1)
        a.op('div', 10, 7, 6)
    elif how == 4:              # atomically
        a.li(7, code)
        a.op('addi', 6, 3, 8)
        a.amo('amoadd', 0, 6, 7)
        a.amo('amoswap', 10, 6, 0)
    else:                       # from a table
        a.load('lw', 10, 3, 12)
    (a.ebreak if kind == 'ebreak' else a.wfi)()
    a.li(10, (code + 1) & 0xff)  # never
    a.ebreak()
    while a.here() % 64:
        a.nop()
    a.label(data)
    for w in (0, 0, 0, code):
        a.w(w)
    a.pad_to(a.here() + 2048)
    return a.code()

"""Small RV32 assembler used by the program generators."""
import struct

BASE = 0x80000000

R_OPS = {
    'add': (0x00, 0), 'sub': (0x20, 0), 'sll': (0x00, 1), 'slt': (0x00, 2),
    'sltu': (0x00, 3), 'xor': (0x00, 4), 'srl': (0x00, 5), 'sra': (0x20, 5),
    'or': (0x00, 6), 'and': (0x00, 7),
}
M_OPS = {n: (0x01, i) for i, n in enumerate(
    ['mul', 'mulh', 'mulhsu', 'mulhu', 'div', 'divu', 'rem', 'remu'])}
B_OPS = {
    'andn': (0x20, 7), 'orn': (0x20, 6), 'xnor': (0x20, 4),
    'sh1add': (0x10, 2), 'sh2add': (0x10, 4), 'sh3add': (0x10, 6),
    'max': (0x05, 6), 'maxu': (0x05, 7), 'min': (0x05, 4), 'minu': (0x05, 5),
    'clmul': (0x05, 1), 'clmulh': (0x05, 3), 'clmulr': (0x05, 2),
    'rol': (0x30, 1), 'ror': (0x30, 5), 'bclr': (0x24, 1), 'bext': (0x24, 5),
    'binv': (0x34, 1), 'bset': (0x14, 1), 'pack': (0x04, 4), 'packh': (0x04, 7),
}
I_OPS = {'addi': 0, 'slti': 2, 'sltiu': 3, 'xori': 4, 'ori': 6, 'andi': 7}
SH_OPS = {'slli': (0x00, 1), 'srli': (0x00, 5), 'srai': (0x20, 5)}
BSH_OPS = {'rori': (0x30, 5), 'bclri': (0x24, 1), 'bexti': (0x24, 5),
           'binvi': (0x34, 1), 'bseti': (0x14, 1)}
# fixed-operand unary: funct12, funct3, opcode
U_OPS = {
    'clz': (0x600, 1, 0x13), 'ctz': (0x601, 1, 0x13), 'cpop': (0x602, 1, 0x13),
    'sext.b': (0x604, 1, 0x13), 'sext.h': (0x605, 1, 0x13),
    'orc.b': (0x287, 5, 0x13), 'rev8': (0x698, 5, 0x13),
    'zext.h': (0x080, 4, 0x33),
}
LOADS = {'lb': 0, 'lh': 1, 'lw': 2, 'lbu': 4, 'lhu': 5}
STORES = {'sb': 0, 'sh': 1, 'sw': 2}
SIZE = {'lb': 1, 'lbu': 1, 'sb': 1, 'lh': 2, 'lhu': 2, 'sh': 2, 'lw': 4,
        'sw': 4}
BR = {'beq': 0, 'bne': 1, 'blt': 4, 'bge': 5, 'bltu': 6, 'bgeu': 7}
AMOS = {'amoadd': 0, 'amoswap': 1, 'amoxor': 4, 'amoor': 8, 'amoand': 12,
        'amomin': 16, 'amomax': 20, 'amominu': 24, 'amomaxu': 28}
CSRS = {
    'mtvec': 0x305, 'mepc': 0x341, 'mcause': 0x342, 'mie': 0x304, 'mip': 0x344,
    'mtval': 0x343, 'mscratch': 0x340, 'mstatus': 0x300, 'mideleg': 0x303,
    'medeleg': 0x302, 'sepc': 0x141, 'stvec': 0x105, 'scause': 0x142,
    'sscratch': 0x140, 'stval': 0x143, 'sstatus': 0x100, 'sie': 0x104,
    'sip': 0x144, 'satp': 0x180, 'mhartid': 0xf14, 'misa': 0x301,
}
CSROP = {'csrrw': 1, 'csrrs': 2, 'csrrc': 3, 'csrrwi': 5, 'csrrsi': 6,
         'csrrci': 7}
# funct7, rs2 (or None), funct3 (None = rounding mode)
FP_OPS = {
    'fadd': (0x00, None, None), 'fsub': (0x04, None, None),
    'fmul': (0x08, None, None), 'fdiv': (0x0c, None, None),
    'fsqrt': (0x2c, 0, None), 'fsgnj': (0x10, None, 0),
    'fsgnjn': (0x10, None, 1), 'fsgnjx': (0x10, None, 2),
    'fmin': (0x14, None, 0), 'fmax': (0x14, None, 1), 'fle': (0x50, None, 0),
    'flt': (0x50, None, 1), 'feq': (0x50, None, 2),
    'fcvt.w.s': (0x60, 0, None), 'fcvt.wu.s': (0x60, 1, None),
    'fcvt.s.w': (0x68, 0, None), 'fcvt.s.wu': (0x68, 1, None),
    'fclass': (0x70, 0, 1),
}


def r(op, f3, f7, rd, a, b):
    return f7 << 25 | b << 20 | a << 15 | f3 << 12 | rd << 7 | op


def i(op, f3, rd, a, imm):
    return (imm & 0xfff) << 20 | a << 15 | f3 << 12 | rd << 7 | op


def s(op, f3, a, b, imm):
    imm &= 0xfff
    return (imm >> 5) << 25 | b << 20 | a << 15 | f3 << 12 | (imm & 31) << 7 | op


def b_(f3, a, b, off):
    assert -4096 <= off < 4096, off
    o = off & 0x1fff
    return ((o >> 12) << 31 | (o >> 5 & 63) << 25 | b << 20 | a << 15 |
            f3 << 12 | (o >> 1 & 15) << 8 | (o >> 11 & 1) << 7 | 0x63)


def j_(rd, off):
    assert -(1 << 20) <= off < (1 << 20), off
    o = off & 0x1fffff
    return ((o >> 20) << 31 | (o >> 1 & 0x3ff) << 21 | (o >> 11 & 1) << 20 |
            (o >> 12 & 255) << 12 | rd << 7 | 0x6f)


class Asm:
    """Collects words; labels are resolved in `image`."""

    def __init__(self, base=BASE):
        self.base = base
        self.words = []       # int or callable(pc) -> int
        self.labels = {}
        self.uniq = 0

    def here(self):
        return self.base + 4 * len(self.words)

    def new(self, p='L'):
        self.uniq += 1
        return '%s%d' % (p, self.uniq)

    def label(self, n):
        assert n not in self.labels
        self.labels[n] = self.here()
        return n

    def w(self, v):
        self.words.append(v)

    def addr(self, l):
        return self.labels[l] if isinstance(l, str) else l

    # --- plain instructions
    def op(self, name, rd, a, b=0):
        if name in R_OPS:
            f7, f3 = R_OPS[name]
        elif name in M_OPS:
            f7, f3 = M_OPS[name]
        elif name in B_OPS:
            f7, f3 = B_OPS[name]
        elif name in I_OPS:
            return self.w(i(0x13, I_OPS[name], rd, a, b))
        elif name in SH_OPS:
            f7, f3 = SH_OPS[name]
            return self.w(r(0x13, f3, f7, rd, a, b & 31))
        elif name in BSH_OPS:
            f7, f3 = BSH_OPS[name]
            return self.w(r(0x13, f3, f7, rd, a, b & 31))
        elif name in U_OPS:
            f12, f3, o = U_OPS[name]
            return self.w(i(o, f3, rd, a, f12))
        else:
            raise KeyError(name)
        self.w(r(0x33, f3, f7, rd, a, b))

    def fp(self, name, rd, a, b=0, rm=7):
        f7, r2, f3 = FP_OPS[name]
        self.w(r(0x53, rm if f3 is None else f3, f7, rd, a,
                 b if r2 is None else r2))

    def lui(self, rd, v):
        self.w((v & 0xfffff000) | rd << 7 | 0x37)

    def auipc(self, rd, v):
        self.w((v & 0xfffff000) | rd << 7 | 0x17)

    def li(self, rd, v):
        v &= 0xffffffff
        lo = v & 0xfff
        if lo & 0x800:
            lo -= 0x1000
        hi = (v - lo) & 0xffffffff
        if hi == 0:
            return self.op('addi', rd, 0, lo)
        self.lui(rd, hi)
        if lo:
            self.op('addi', rd, rd, lo)

    def la(self, rd, l):
        """pc-relative address"""
        def hi(pc):
            d = (self.addr(l) - pc) & 0xffffffff
            return ((d + 0x800) & 0xfffff000) | rd << 7 | 0x17

        def lo(pc):
            d = (self.addr(l) - (pc - 4)) & 0xffffffff
            return i(0x13, 0, rd, rd, d & 0xfff)
        self.w(hi)
        self.w(lo)

    def load(self, name, rd, a, off=0):
        self.w(i(0x03, LOADS[name], rd, a, off))

    def store(self, name, b, a, off=0):
        self.w(s(0x23, STORES[name], a, b, off))

    def br(self, name, a, b, l):
        self.w(lambda pc: b_(BR[name], a, b, self.addr(l) - pc))

    def jal(self, rd, l):
        self.w(lambda pc: j_(rd, self.addr(l) - pc))

    def jalr(self, rd, a, off=0):
        self.w(i(0x67, 0, rd, a, off))

    def amo(self, name, rd, a, b, aqrl=0):
        self.w(AMOS[name] << 27 | aqrl << 25 | b << 20 | a << 15 | 2 << 12 |
               rd << 7 | 0x2f)

    def lr(self, rd, a, aqrl=0):
        self.w(2 << 27 | aqrl << 25 | a << 15 | 2 << 12 | rd << 7 | 0x2f)

    def sc(self, rd, a, b, aqrl=0):
        self.w(3 << 27 | aqrl << 25 | b << 20 | a << 15 | 2 << 12 | rd << 7 |
               0x2f)

    def csr(self, name, rd, c, a):
        n = CSRS[c] if isinstance(c, str) else c
        self.w(n << 20 | (a & 31) << 15 | CSROP[name] << 12 | rd << 7 | 0x73)

    def fence(self):
        self.w(0x0ff0000f)

    def fencei(self):
        self.w(0x0000100f)

    def sfence(self, a=0, b=0):
        self.w(9 << 25 | b << 20 | a << 15 | 0x73)

    def ecall(self):
        self.w(0x73)

    def ebreak(self):
        self.w(0x00100073)

    def wfi(self):
        self.w(0x10500073)

    def mret(self):
        self.w(0x30200073)

    def sret(self):
        self.w(0x10200073)

    def nop(self):
        self.w(0x13)

    def pad_to(self, addr):
        assert self.here() <= addr, (hex(self.here()), hex(addr))
        while self.here() < addr:
            self.w(0)

    def code(self):
        out = []
        for k, v in enumerate(self.words):
            if callable(v):
                v = v(self.base + 4 * k)
            out.append(v & 0xffffffff)
        return struct.pack('<%dI' % len(out), *out)

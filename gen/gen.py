"""Random guest programs. gen(seed, profile) -> (image bytes, info dict)."""
import random
import struct
from asm import *

MAGIC = 0x5eca11ed
TIMER = 0x1fd0e000
DMA = 0x1fd0f000
BUSDEV = 0x1fb00000
UART = 0x10000000
PLIC_CLAIM = 0x0c201004

O_FUNC = 0x8000
O_PT = 0x20000
O_SAVE = 0x28000
O_STACK = 0x29000
O_TBL = 0x2b000
O_DMASRC = 0x2c000
O_SWEEP = 0x2e000
O_DATA = 0x30000
O_DMADST = 0x50000
O_XCODE = 0x5c000   # four pages of small routines, reached through XWIN
WAY = 0x4000
U_XOR = 0xC0000000  # physical 0x8000.... <-> user virtual 0x4000....
WIN = 0x60000000
SWIN = 0x70000000
XWIN = 0x68000000

GEN = [5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 22, 23]

V, R_, W_, X_, U_, G_, A_, D_ = 1, 2, 4, 8, 16, 32, 64, 128


def pte(pa, fl):
    return (pa >> 12) << 10 | fl


SPECIAL_I = [0, 1, 2, 0xffffffff, 0x80000000, 0x7fffffff, 0x80000001, 31, 32,
             0xffff, 0xffff0000, 0x55555555, 0xaaaaaaaa, 0x80808080, 0xff, 0x100]
SPECIAL_F = [0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000,
             0xff800000, 0x7fc00000, 0x7f800001, 0xffc00001, 0x00000001,
             0x807fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x4b000000,
             0x4b7fffff, 0x4f000000, 0xcf000000, 0x4f7fffff, 0x3effffff,
             0x3f000000, 0x3f7fffff, 0x34000000, 0x33800000, 0x4effffff]

DEFAULT = dict(
    alu=30, muldiv=4, bit=6, fp=3, mem=22, memhot=10, conflict=6, stack=2,
    amo=2, lrsc=1, skip=10, loop=2, call=3, icall=2, switch=1, wild=2,
    wildjump=1, prng=6, li=3, fence=0, fencei=0, smc=0, csr=0, ecall=0,
    illegal=0, swirq=0, timer=0, uart=0, extirq=0, win=0, swin=0, ptedit=0,
    satp=0, fetchfault=0, status=0, mprv=0, devrd=0, ret=0, corr=2, rec=1,
    burst=1, lag=1, evict=0, sweep=0, claims=0, lrvm=0, xwin=0,
    xedit=0, far=2, farcode=0,
    busdev=0, redo=0)


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.a = Asm()
        self.wt = dict(DEFAULT)
        self.wt.update(prof.get('w', {}))
        self.funcs1, self.funcs2 = [], []
        self.loop_ok = True
        self.mode = 'M'
        self.paging = bool(prof.get('paging'))
        self.modes = prof.get('modes', ['M'])
        self.data = None
        self.count = {}
        self.smc_slots = []
        self.sweeps = []
        self.nowin = False

    # ---- helpers
    def ri(self, a, b):
        return self.r.randint(a, b)

    def pick(self, l):
        return l[self.r.randrange(len(l))]

    def rd(self):
        return self.pick(GEN) if self.r.random() < .97 else 0

    def rs(self):
        x = self.r.random()
        if x < .9:
            return self.pick(GEN)
        return self.pick([0, 25, 26, 3])

    # ---- operations
    def op_alu(self):
        a = self.a
        if self.r.random() < .55:
            a.op(self.pick(list(R_OPS)), self.rd(), self.rs(), self.rs())
        elif self.r.random() < .6:
            a.op(self.pick(list(I_OPS)), self.rd(), self.rs(),
                 self.pick([0, 1, -1, 2047, -2048, self.ri(-2048, 2047)]))
        elif self.r.random() < .8:
            a.op(self.pick(list(SH_OPS)), self.rd(), self.rs(),
                 self.pick([0, 31, self.ri(0, 31)]))
        elif self.r.random() < .5:
            a.lui(self.rd(), self.r.getrandbits(32))
        else:
            a.auipc(self.rd(), self.r.getrandbits(32))

    def op_muldiv(self):
        self.a.op(self.pick(list(M_OPS)), self.rd(), self.rs(), self.rs())

    def op_bit(self):
        x = self.r.random()
        if x < .6:
            self.a.op(self.pick(list(B_OPS)), self.rd(), self.rs(), self.rs())
        elif x < .8:
            self.a.op(self.pick(list(BSH_OPS)), self.rd(), self.rs(),
                      self.pick([0, 31, self.ri(0, 31)]))
        else:
            self.a.op(self.pick(list(U_OPS)), self.rd(), self.rs())

    def op_fp(self):
        a = self.a
        if self.r.random() < .5:
            a.load('lw', self.pick(GEN), 3, 4 * self.ri(-512, 511))
        a.fp(self.pick(list(FP_OPS)), self.rd(), self.rs(), self.rs(),
             self.pick([0, 0, 1, 2, 3, 4, 7]))

    def op_sweep(self):
        """Every pair of a table of edge values through some operations."""
        a = self.a
        if len(self.sweeps) >= 6 or not self.loop_ok:
            return self.op_alu()
        fp = self.r.random() < self.p.get('sweep_fp', .4)
        vals = list(SPECIAL_F if fp else SPECIAL_I)
        vals = self.r.sample(vals, self.ri(12, len(vals)))
        vals += [self.r.getrandbits(32) for _ in range(self.ri(1, 4))]
        self.r.shuffle(vals)
        at = O_SWEEP + 0x100 * len(self.sweeps)
        self.sweeps.append(vals)
        if fp:
            ops = [(0, k) for k in FP_OPS]
        else:
            ops = [(1, k) for k in list(R_OPS) + list(M_OPS) * 2 + list(B_OPS)]
            ops += [(2, k) for k in list(SH_OPS) + list(BSH_OPS)]
            ops += [(3, k) for k in U_OPS] + [(4, k) for k in BR]
            ops += [(5, k) for k in I_OPS]
        ops = self.r.sample(ops, self.ri(8, 16))
        x, y = self.r.sample(GEN, 2)
        dst = [g for g in GEN if g not in (x, y)]
        lo, li = a.new('So'), a.new('Si')
        a.la(27, BASE + at)
        a.la(29, BASE + at + 4 * len(vals))
        a.label(lo)
        a.la(28, BASE + at)
        a.label(li)
        a.load('lw', x, 27, 0)
        a.load('lw', y, 28, 0)
        for kind, k in ops:
            d = self.pick(dst)
            if kind == 0:
                a.fp(k, d, x, y, self.pick([0, 1, 2, 3, 4, 7]))
            elif kind == 1:
                a.op(k, d, x, y)
            elif kind == 2:
                a.op(k, d, x, self.pick([0, 1, 31, self.ri(0, 31)]))
            elif kind == 3:
                a.op(k, d, x)
            elif kind == 5:
                a.op(k, d, x, self.pick([0, 1, -1, 2047, -2048]))
            else:
                e = a.new('Sb')
                a.br(k, x, y, e)
                a.op('addi', d, d, 1)
                a.label(e)
        a.op('addi', 28, 28, 4)
        a.br('bne', 28, 29, li)
        a.op('addi', 27, 27, 4)
        a.br('bne', 27, 29, lo)

    def op_li(self):
        v = self.pick([self.r.getrandbits(32), self.pick(SPECIAL_I),
                       self.pick(SPECIAL_F)])
        self.a.li(self.pick(GEN), v)

    def op_prng(self):
        a = self.a
        t = self.pick(GEN)
        a.op('slli', t, 25, 13)
        a.op('xor', 25, 25, t)
        a.op('srli', t, 25, 17)
        a.op('xor', 25, 25, t)
        a.op('slli', t, 25, 5)
        a.op('xor', 25, 25, t)
        if self.r.random() < .7:
            a.op('xor', t, t, 25)

    def acc(self, base, off):
        """a random aligned load or store near base+off (off word aligned)"""
        a = self.a
        if self.r.random() < .5:
            n = self.pick(['lw', 'lw', 'lb', 'lbu', 'lh', 'lhu'])
            d = self.pick([0, 1, 2, 3]) & ~(SIZE[n] - 1)
            a.load(n, self.rd(), base, off + d)
        else:
            n = self.pick(['sw', 'sw', 'sb', 'sh'])
            d = self.pick([0, 1, 2, 3]) & ~(SIZE[n] - 1)
            a.store(n, self.rs(), base, off + d)

    def op_mem(self):
        a = self.a
        t = self.pick([30, 31])
        x = self.r.random()
        if x < .45:
            a.op('andi', t, self.rs(), 0x7fc & self.pick([0x7fc, 0x3c, 0xfc]))
            a.op('add', t, t, 3)
            for _ in range(self.pick([1, 1, 2, 3])):
                self.acc(t, 4 * self.ri(-4, 3) if self.r.random() < .5 else 0)
        elif x < .8:
            self.acc(3, 4 * self.ri(-512, 510))
        else:  # dependent pointer
            a.load('lw', t, 3, 4 * self.ri(-512, 511))
            a.op('andi', t, t, 0x7fc)
            a.op('add', t, t, 3)
            self.acc(t, 0)

    def op_memhot(self):
        # few words, mixed sizes: forwarding and partial overlap
        hot = self.hot
        for _ in range(self.ri(1, 4)):
            self.acc(3, self.pick(hot))

    def op_conflict(self):
        a = self.a
        t = self.pick([30, 31])
        if self.r.random() < .6:
            a.op('andi', t, self.rs(), 7)
            a.op('slli', t, t, 14)
        else:
            a.li(t, WAY * self.ri(0, 7))
        a.op('add', t, t, 4)
        o = self.pick(self.hotset)
        for _ in range(self.pick([1, 1, 2])):
            self.acc(t, o + 4 * self.ri(0, 3))

    def op_burst(self):
        # a dense stream of stores to a few lines of one set while they miss
        a = self.a
        regs = self.r.sample([28, 29, 30, 31], self.ri(2, 4))
        ways = self.r.sample(range(8), len(regs))
        o = self.pick(self.hotset) & ~63
        rot = self.r.random() < .7
        if rot:
            # move to other lines in every iteration
            a.op('andi', regs[0], self.pick([25, 26]), 7)
            a.op('slli', regs[0], regs[0], 14)
        for k, (t, w) in enumerate(zip(regs, ways)):
            if rot and k:
                a.li(24, WAY)
                a.op('add', t, regs[k - 1], 24)
                a.li(24, ~(8 * WAY) & 0xffffffff)
                a.op('and', t, t, 24)
            elif not rot:
                a.li(t, WAY * w)
        for t in regs:
            a.op('add', t, t, 4)
        ld = self.pick([0, .1, .3])
        for _ in range(self.pick([12, 24, 40])):
            t = self.pick(regs)
            n = self.pick(['sw', 'sw', 'sb', 'sh'])
            d = self.pick([0, 1, 2, 3]) & ~(SIZE[n] - 1)
            off = o + 4 * self.ri(0, 15) + d
            if self.r.random() < ld:
                a.load(self.pick(['lw', 'lbu', 'lh']), self.rd(), t, off & ~3)
            else:
                a.store(n, self.rs(), t, off)

    def op_evict(self):
        # dirty more lines than the cache sets hold, faster than they can be
        # written back, and come back to each line while its fill has to wait
        if not self.loop_ok or self.level:
            return self.op_conflict()
        a = self.a
        a.li(28, self.pick([24, 48, 80]))
        if self.r.random() < .5:
            a.op('andi', 30, self.rs(), 15)
            a.op('add', 28, 28, 30)
        top = a.new()
        a.label(top)
        sh = self.ri(0, 3)
        a.op('srli', 30, 28, sh)
        a.op('andi', 31, 30, 7)
        a.op('slli', 31, 31, 14)
        a.op('slli', 30, 28, self.pick([6, 7, 8]))
        a.op('andi', 30, 30, 0x3c0)
        a.op('add', 31, 31, 30)
        a.op('add', 31, 31, 4)
        for _ in range(self.pick([1, 2, 4, 6])):
            k = 4 * self.pick([0, 0, 1, 3])
            if self.r.random() < .5:
                # let the stores above reach the cache first
                for _ in range(self.ri(1, 2)):
                    a.op('divu', 30, 30, self.rs())
                a.op('andi', 30, 30, 0)
                a.op('add', 31, 31, 30)
            if self.r.random() < .7:
                a.store(self.pick(['sw', 'sw', 'sh', 'sb']),
                        self.pick([28, self.rs()]), 31, k)
            else:
                a.load(self.pick(['lw', 'lw', 'lbu', 'lh']), self.rd(), 31, k)
        a.op('addi', 28, 28, -1)
        a.br('bne', 28, 0, top)

    def op_redo(self):
        # several stores to the same bytes of each of many absent lines, so
        # that some must be sent again while younger ones follow
        if not self.loop_ok or self.level:
            return self.op_burst()
        a = self.a
        a.li(28, self.pick([16, 32, 64]))
        top = a.new()
        a.label(top)
        a.op('andi', 31, 28, 7)
        a.op('slli', 31, 31, 14)
        a.op('slli', 30, 28, self.pick([5, 6, 6, 9]))
        a.op('andi', 30, 30, 0x7c0)
        a.op('add', 31, 31, 30)
        a.op('add', 31, 31, 4)
        for _ in range(self.ri(1, 3)):
            k = 4 * self.ri(0, 15)
            for _ in range(self.pick([2, 2, 3])):
                n = self.pick(['sw', 'sw', 'sw', 'sh', 'sb'])
                d = self.pick([0, 0, 1, 2, 3]) & ~(SIZE[n] - 1)
                a.store(n, self.pick([28, 31, self.rs()]), 31, k + d)
            if self.r.random() < .3:
                a.load('lw', self.rd(), 31, (k + 64) & 0x7c)
        if self.r.random() < .5:
            for _ in range(self.ri(1, 4)):
                self.op_alu()
        a.op('addi', 28, 28, -1)
        a.br('bne', 28, 0, top)

    def op_lag(self):
        # younger loads bring lines in while older stores to the same lines
        # wait for slow data, so stores meet the arriving fills
        a = self.a
        o = self.pick(self.hotset) & ~63
        ways = self.r.sample(range(8), self.ri(4, 8))
        a.op('addi', 30, self.rs(), 0)
        chain = self.r.random() < .6
        for w in ways:
            a.li(31, WAY * w)
            a.op('add', 31, 31, 4)
            x = self.r.random()
            if x < .5:
                a.op(self.pick(['div', 'remu', 'divu']), 30,
                     30 if chain else self.rs(), self.rs())
            elif x < .8:
                a.op('mul', 30, 30 if chain else self.rs(), self.rs())
            n = self.pick(['sw', 'sw', 'sh', 'sb'])
            i, j = self.r.sample(range(16), 2)
            a.store(n, 30, 31, o + 4 * i)
            if self.r.random() < .8:
                a.load('lw', self.rd(), 31, o + 4 * j)

    def op_press(self):
        # one slow value holds back a run of dependent work until a queue,
        # the tags or the registers run out
        a = self.a
        a.op('addi', 30, self.rs(), 0)
        if self.r.random() < .5:
            a.li(31, WAY * self.ri(0, 7))
            a.op('add', 31, 31, 4)
            a.load('lw', 30, 31, self.pick(self.hotset) & ~3)
        for _ in range(self.ri(0, 3)):
            a.op(self.pick(['div', 'remu', 'mul']), 30, 30, self.rs())
        kind = self.pick(['br', 'br', 'ld', 'st', 'int', 'mix'])
        for _ in range(self.ri(6, 26)):
            k = self.pick(['br', 'ld', 'st', 'int']) if kind == 'mix' else kind
            if k == 'br':
                l = a.new()
                x = self.r.random()
                if x < .4:
                    a.op('andi', 31, 30, 1 << self.ri(0, 9))
                    a.br(self.pick(['beq', 'bne']), 31, 0, l)
                elif x < .8:
                    a.br(self.pick(['blt', 'bge', 'bltu', 'bgeu']), 30,
                         self.rs(), l)
                else:
                    a.jal(0, l)
                for _ in range(self.ri(0, 2)):
                    o = self.pick(GEN)
                    y = self.r.random()
                    if y < .4:
                        a.op('addi', o, self.rs(), self.ri(-9, 9))
                    elif y < .7:
                        a.load('lw', o, 3, self.pick(self.hot) & ~3)
                    else:
                        a.store('sw', self.rs(), 3, self.pick(self.hot) & ~3)
                a.label(l)
            elif k == 'ld':
                a.op('andi', 31, 30, 0x7c)
                a.op('add', 31, 31, 3)
                a.load('lw', self.rd(), 31, 4 * self.ri(0, 31))
            elif k == 'st':
                if self.r.random() < .5:
                    a.op('andi', 31, 30, 0x7c)
                    a.op('add', 31, 31, 3)
                    a.store('sw', self.rs(), 31, 4 * self.ri(0, 31))
                else:
                    a.store('sw', 30, 3, self.pick(self.hot) & ~3)
            else:
                a.op(self.pick(['add', 'xor', 'sub', 'mul', 'div']),
                     self.pick(GEN), 30, self.rs())

    def op_stack(self):
        a = self.a
        k = self.ri(1, 4)
        a.op('addi', 2, 2, -4 * k)
        for j in range(k):
            a.store('sw', self.rs(), 2, 4 * j)
        if self.r.random() < .5:
            self.op_alu()
        for j in range(k):
            a.load('lw', self.pick(GEN), 2, 4 * j)
        a.op('addi', 2, 2, 4 * k)

    def amo_addr(self, t):
        a = self.a
        if self.r.random() < .7:
            a.op('addi', t, 3, self.pick(self.hot))
        elif self.r.random() < .5:
            a.op('andi', t, self.rs(), 0x7c)
            a.op('add', t, t, 3)
        else:
            a.li(t, WAY * self.ri(0, 7))
            a.op('add', t, t, 4)
            a.op('addi', t, t, self.pick(self.hotset))

    def op_amo(self):
        a = self.a
        t = self.pick([30, 31])
        self.amo_addr(t)
        if self.r.random() < .3:
            self.acc(t, 0)
        for _ in range(self.pick([1, 1, 2, 3])):
            a.amo(self.pick(list(AMOS)), self.rd(), t, self.rs(), self.ri(0, 3))
            if self.r.random() < .3:
                self.acc(t, 0)
        if self.r.random() < .3:
            a.load('lw', self.rd(), t, 0)

    def op_lrsc(self):
        a = self.a
        self.amo_addr(30)
        x = self.r.random()
        if x < .12:      # no reservation
            a.sc(self.rd(), 30, self.rs(), self.ri(0, 3))
            return
        a.lr(self.pick(GEN), 30, self.ri(0, 3))
        y = self.r.random()
        for _ in range(self.ri(0, 3)):
            z = self.r.random()
            if y < .75:
                if z < .7:
                    self.op_alu()
                else:
                    a.load('lw', self.pick(GEN), 3, self.pick(self.hot))
            elif z < .5:
                self.acc(3, self.pick(self.hot))
            else:
                self.simple_skip()
        if x < .22:      # other address
            a.op('xori', 30, 30, 4)
        d = self.pick(GEN)
        a.sc(d, 30, self.rs(), self.ri(0, 3))
        if x > .8:
            a.sc(self.pick(GEN), 30, self.rs())  # second one must fail
        if x > .5:
            a.load('lw', self.rd(), 30, 0)

    def far_pair(self, off=None):
        """x30 and x31 differ in one high address bit."""
        a = self.a
        if off is None:
            self.amo_addr(30)
        else:
            a.li(30, off)
            a.op('add', 30, 30, 3)
        a.li(31, 1 << self.ri(19, 29))
        a.op('xor', 31, 31, 30)

    def op_far(self):
        a = self.a
        if self.mode == 'U' and self.paging:
            return self.op_mem()
        self.far_pair()
        x = self.r.random()
        if x < .15:
            b = [30, 31]
            self.r.shuffle(b)
            a.lr(self.pick(GEN), b[0])
            a.sc(self.pick(GEN), b[1], self.rs())
            a.load('lw', self.rd(), b[1], 0)
            return
        if x < .3:
            a.amo(self.pick(list(AMOS)), self.rd(), 31, self.rs())
            a.load('lw', self.rd(), 30, 0)
        for _ in range(self.ri(2, 6)):
            k = self.pick([30, 31])
            if self.r.random() < .5:
                a.store(self.pick(['sw', 'sh', 'sb']), self.rs(), k, 0)
            else:
                a.load(self.pick(['lw', 'lh', 'lbu']), self.rd(), k, 0)

    def op_farcode(self):
        """The same low address bits hold different code."""
        a = self.a
        if self.mode == 'U' and self.paging:
            return self.op_alu()
        self.far_pair(0x10000 + 64 * self.ri(0, 255))
        # the lower one is data elsewhere: use two far ones
        a.li(29, 1 << 20)
        a.op('or', 30, 30, 29)
        a.op('or', 31, 31, 29)
        for k, n in ((30, 1), (31, 2)):
            r_ = self.pick(GEN)
            a.li(29, i(0x13, 0, r_, r_, 4 * self.ri(0, 500) + n))
            a.store('sw', 29, k, 0)
            a.li(29, i(0x67, 0, 0, 28, 0))
            a.store('sw', 29, k, 4)
        a.fencei()
        for _ in range(self.ri(1, 4)):
            l = a.new()
            a.la(28, l)
            a.jalr(self.pick([0, 0, 29]), self.pick([30, 31]), 0)
            a.label(l)

    def op_evcode(self):
        """Code is written, thrown out of the data cache and run while it may
        still be on its way to memory."""
        a = self.a
        if self.mode == 'U' and self.paging:
            return self.op_alu()
        self.far_pair(0x10000 + 64 * self.ri(0, 255))
        a.li(29, 1 << 20)
        a.op('or', 30, 30, 29)
        r_ = self.pick(GEN)
        a.li(31, i(0x13, 0, r_, r_, 0))
        a.op('slli', 29, self.pick([25, 26]), 20)
        a.op('add', 31, 31, 29)
        k = 4 * self.pick([0, 0, 3, 7, 11, 14])
        for w in range(0, k, 4):
            # no-ops up to there
            if not w:
                a.li(29, 0x13)
            a.store('sw', 29, 30, w)
        a.store('sw', 31, 30, k)
        a.li(29, i(0x67, 0, 0, 28, 0))
        a.store('sw', 29, 30, k + 4)
        if self.r.random() < .3:
            a.fence()
        n = self.pick(['lw', 'sw', 'any'])
        for w in range(1, self.pick([3, 5, 6, 9, 10])):
            a.li(29, WAY * w)
            a.op('add', 29, 29, 30)
            if n == 'lw' or n == 'any' and self.r.random() < .5:
                a.load('lw', self.rd(), 29, 4 * self.ri(0, 15))
            else:
                a.store('sw', self.rs(), 29, 4 * self.ri(0, 15))
        y = self.r.random()
        if y < .3:
            # let the line go
            a.load('lw', 29, 29, 0)
            a.op('andi', 29, 29, 0)
            a.op('add', 30, 30, 29)
        for _ in range(self.pick([0, 0, 0, 2, 5, 8])):
            a.op('divu', 29, 29, self.rs())
        a.fencei()
        l = a.new()
        a.la(28, l)
        a.jalr(self.pick([0, 29]), 30, 0)
        a.label(l)

    def op_lrvm(self):
        """A reservation held across a branch that may wrongly run into an
        access that faults."""
        a = self.a
        if self.mode == 'M' or self.nowin:
            return self.op_lrsc()
        self.amo_addr(30)
        a.li(31, WIN + 4096 * self.ri(0, self.win_n - 1) +
             self.win_off(self.ri(0, 3)))
        d = self.pick(GEN)
        a.lr(d, 30, self.ri(0, 3))
        l = a.new()
        k = self.r.random()
        if k < .5:
            if self.r.random() < .5:
                a.op('div', d, d, self.pick(GEN))
            a.op('andi', d, d, 1 << self.ri(0, 10))
            a.br(self.pick(['beq', 'bne']), d, 0, l)
        else:
            self.br(l)
        for _ in range(self.ri(1, 2)):
            self.acc(31, 4 * self.ri(0, 3))
        a.label(l)
        a.sc(self.pick(GEN), 30, self.rs(), self.ri(0, 3))

    def br(self, l, inv=False):
        a, b = self.rs(), self.rs()
        if self.r.random() < .4:
            a = 25
        self.a.br(self.pick(list(BR)), a, b, l)

    def simple_skip(self):
        l = self.a.new()
        self.br(l)
        for _ in range(self.ri(1, 3)):
            self.op_alu()
        self.a.label(l)

    def op_skip(self):
        a = self.a
        l = a.new()
        k = self.r.random()
        if k < .5:
            t = self.pick(GEN)
            a.op('andi', t, 25, 1 << self.ri(0, 10))
            a.br(self.pick(['beq', 'bne']), t, 0, l)
        else:
            self.br(l)
        for _ in range(self.ri(1, 4)):
            self.one(inner=True)
        if self.r.random() < .3:
            l2 = a.new()
            a.jal(0, l2)
            a.label(l)
            for _ in range(self.ri(1, 3)):
                self.one(inner=True)
            a.label(l2)
        else:
            a.label(l)

    def op_corr(self):
        # correlated branches on the same condition
        a = self.a
        t = self.pick(GEN)
        a.op('andi', t, 26 if self.r.random() < .5 else 25, 1 << self.ri(0, 3))
        for _ in range(2):
            l = a.new()
            a.br(self.pick(['beq', 'bne']), t, 0, l)
            o = self.pick([x for x in GEN if x != t])
            a.op('addi', o, o, self.ri(1, 9))
            a.label(l)

    def op_loop(self):
        if not self.loop_ok:
            return self.op_alu()
        self.loop_ok = False
        a = self.a
        l = a.new()
        if self.r.random() < .5:
            a.op('addi', 27, 0, self.ri(1, 12))
        else:
            a.op('andi', 27, 25, 7)
            a.op('addi', 27, 27, 1)
        a.label(l)
        for _ in range(self.ri(1, 6)):
            self.one(inner=True)
        a.op('addi', 27, 27, -1)
        a.br('bne', 27, 0, l)
        self.loop_ok = True

    def callee(self):
        return self.pick(self.funcs1 if self.level == 0 else self.funcs2)

    def op_call(self):
        if self.level >= 2:
            return self.op_alu()
        self.a.jal(1, self.callee())

    def op_icall(self):
        a = self.a
        if self.level >= 2:
            return self.op_switch()
        if self.r.random() < .5:
            a.la(30, self.callee())
        else:
            fs = self.funcs1 if self.level == 0 else self.funcs2
            f, g = self.pick(fs), self.pick(fs)
            l = a.new()
            a.la(30, f)
            self.br(l)
            a.la(30, g)
            a.label(l)
        a.jalr(1, 30, 0)

    def op_switch(self):
        a = self.a
        n = self.pick([2, 4, 8])
        end = a.new()
        tb = a.new('T')
        t = self.pick([x for x in GEN])
        a.op('andi', t, self.rs() if self.r.random() < .5 else 25, n - 1)
        a.la(31, tb)
        a.op('sh2add', 31, t, 31)
        a.jalr(0, 31, 0)
        a.label(tb)
        ls = [a.new() for _ in range(n)]
        for l in ls:
            a.jal(0, l)
        for l in ls:
            a.label(l)
            self.op_alu()
            if self.r.random() < .4:
                self.acc(3, self.pick(self.hot))
            a.jal(0, end)
        a.label(end)

    def op_rec(self):
        # recursion deeper than a return-address stack
        if self.level:
            return self.op_alu()
        self.a.op('addi', 24, 0, self.pick([3, 9, 18, 40]))
        self.a.jal(1, 'rec')

    def op_ret(self):
        # call/return pairs that confuse a return-address stack
        a = self.a
        l, l2 = a.new(), a.new()
        a.jal(5, l)
        self.op_alu()
        a.jal(0, l2)
        a.label(l)
        a.op('addi', 30, 5, 0)
        a.op('addi', 6, 6, 1)
        a.jalr(0, 30 if self.r.random() < .5 else 5, 0)
        a.label(l2)

    def op_wild(self):
        # access through a garbage pointer on the wrong path only
        a = self.a
        t = self.pick(GEN)
        l1, l2 = a.new(), a.new()
        a.op('andi', t, 25, 1 << self.ri(0, 7))
        a.op('addi', 31, 3, 0)
        a.br('bne', t, 0, l1)
        a.op('addi', 31, self.pick(GEN), 0)
        if self.p.get('wild_aligned', False):
            a.op('andi', 31, 31, -4)
        a.label(l1)
        if self.r.random() < .5:
            a.op('mul', 30, 31, 31)   # delay
            a.op('div', 29, 30, 30) if self.r.random() < .3 else None
        a.br('beq', t, 0, l2)
        if self.r.random() < .7:
            a.load(self.pick(['lw', 'lb', 'lhu']), self.rd(), 31, 0)
            if self.r.random() < .4:
                a.load('lw', self.rd(), 3, self.pick(self.hot))
        else:
            a.store('sw', self.rs(), 31, 0)
        a.label(l2)

    def op_wildjump(self):
        a = self.a
        t = self.pick([x for x in GEN])
        g = self.pick([x for x in GEN if x != t])
        l = a.new()
        a.op('andi', t, 25, 1 << self.ri(0, 7))
        a.op('andi', 31, g, -4)
        # the jump is only ever reached with a good target
        a.la(30, l)
        a.br('bne', t, 0, l)
        a.op('sltiu', 31, 25, 0)      # always 0
        a.op('add', 30, 30, 31)
        a.jalr(0, 30, 0)
        for _ in range(self.ri(0, 3)):
            a.w(self.pick([0x00000073, 0x00100073, 0x30200073, 0x0000100f,
                           0x12000073, 0xffffffff, 0x00000000, 0x10500073,
                           0x0000a003]))
        a.label(l)

    def op_fence(self):
        self.a.fence()

    def op_fencei(self):
        self.a.fencei()

    def op_smc(self):
        a = self.a
        slot = a.new('S')
        reg = self.pick(GEN)
        a.la(30, slot)
        x = self.r.random()
        if x < .5:     # immediate follows the loop counter
            a.li(31, i(0x13, self.pick([0, 4, 6]), reg, reg, 0))
            t = self.pick([y for y in GEN if y != reg])
            a.op('slli', t, self.pick([25, 26]), 20)
            a.op('add', 31, 31, t)
        else:          # alternate between instruction kinds
            l = a.new()
            v1 = self.smc_word(reg)
            v2 = self.smc_word(reg)
            a.li(31, v1)
            a.op('andi', reg, self.pick([25, 26]), 1 << self.ri(0, 2))
            a.br('beq', reg, 0, l)
            a.li(31, v2)
            a.label(l)
        if self.r.random() < .4:
            # keep the store queue busy so that the code store drains late
            t = self.pick([y for y in GEN if y != reg])
            for w in self.r.sample(range(8), self.ri(4, 8)):
                a.li(29, WAY * w)
                a.op('add', 29, 29, 4)
                for _ in range(self.ri(1, 2)):
                    a.store('sw', t, 29, 64 * self.ri(0, 7) + 4 * self.ri(0, 15))
        a.store('sw', 31, 30, 0)
        a.fencei()
        y = self.r.random()
        if y < .3:
            self.op_alu()
        elif y < .6:
            # in another line, which is on its way when the fence commits
            if self.r.random() < .5:
                a.jal(0, slot)
            for _ in range(self.pick([4, 8, 12, 16, 24])):
                a.nop()
        a.label(slot)
        a.nop()
        a.op('addi', reg, reg, 1)
        a.op('xori', reg, reg, 0x55)

    def smc_word(self, reg):
        k = self.ri(0, 6)
        if k == 0:
            return i(0x13, 0, reg, reg, self.ri(-2048, 2047))
        if k == 1:
            return j_(0, 8)
        if k == 2:
            return b_(self.pick([0, 1]), reg, 0, 8)
        if k == 3:
            return i(0x03, 2, reg, 3, self.pick(self.hot))
        if k == 4:
            return s(0x23, 2, 3, reg, self.pick(self.hot))
        if k == 5:
            return r(0x33, 0, 1, reg, reg, reg)
        return j_(reg, 8)

    # ---- privileged
    def op_csr(self):
        a = self.a
        m = self.mode
        if m == 'U':
            return self.op_alu()
        names = ['stval', 'scause', 'sepc']
        if m == 'M':
            names += ['mtval', 'mcause', 'mepc', 'mhartid', 'misa', 'mideleg',
                      'medeleg', 'mie', 'mstatus', 'satp', 'mtvec', 'mscratch',
                      'sscratch', 'stvec', 'mip']
        names += ['sstatus', 'sie', 'sip', 'stvec']
        n = self.pick(names)
        ro = n in ('mhartid', 'misa', 'mideleg', 'medeleg', 'satp', 'mtvec',
                   'mscratch', 'sscratch', 'stvec', 'sip', 'mip', 'sie', 'mie',
                   'sstatus', 'mstatus')
        if ro:
            if self.r.random() < .7:
                a.csr(self.pick(['csrrs', 'csrrc']), self.rd(), n, 0)
            else:
                a.csr(self.pick(['csrrsi', 'csrrci']), self.rd(), n, 0)
            return
        if n in ('sepc', 'mepc'):
            if self.r.random() < .5:
                a.op('andi', 30, self.rs(), -4)
                a.csr('csrrw', self.rd(), n, 30)
            else:
                a.csr(self.pick(['csrrsi', 'csrrci', 'csrrwi']), self.rd(), n,
                      4 * self.ri(0, 7))
            return
        if self.r.random() < .6:
            a.csr(self.pick(['csrrw', 'csrrs', 'csrrc']), self.rd(), n,
                  self.rs())
        else:
            a.csr(self.pick(['csrrwi', 'csrrsi', 'csrrci']), self.rd(), n,
                  self.ri(0, 31))

    def op_status(self):
        a = self.a
        if self.mode == 'U':
            return self.op_alu()
        bits = [1 << 1, 1 << 18, 1 << 19, 1 << 5]
        c = 'sstatus'
        if self.mode == 'M' and self.r.random() < .7:
            c = 'mstatus'
            bits += [1 << 3, 1 << 7, 1 << 8]
            if self.p.get('paging') is None:
                bits += [3 << 11]
        v = self.pick(bits) | (self.pick(bits) if self.r.random() < .3 else 0)
        if v < 32 and self.r.random() < .5:
            a.csr(self.pick(['csrrsi', 'csrrci']), self.rd(), c, v)
        else:
            a.li(30, v)
            a.csr(self.pick(['csrrs', 'csrrc']), self.rd(), c, 30)
        if self.mode == 'M' and self.r.random() < .5:
            a.csr('csrrsi', 0, 'mstatus', 8)   # keep interrupts mostly on

    def op_ecall(self):
        self.a.ecall()

    def op_illegal(self):
        self.a.w(self.pick([
            0xffffffff, 0x00000000, 0xc0102573, 0xc8102573, 0x00c5f543,
            0x0000006b, 0x0000002b, 0x0000000b, 0x0000005b, 0x00c5f547,
            0x00c5f54b, 0x00c5f54f, 0xc01027f3]))

    def op_swirq(self):
        a = self.a
        if self.mode == 'U':
            return self.op_alu()
        if self.mode == 'S':
            return a.csr('csrrsi', self.pick([0, self.rd()]), 'sip', 2)
        x = self.r.random()
        if x < .6:
            a.csr('csrrsi', 0, 'mip', 8)
        elif x < .8:
            a.csr('csrrsi', 0, 'mip', self.pick([2, 8, 10]))
        else:
            a.li(30, self.pick([1 << 5, 1 << 9, 0x222, 0x22a]))
            a.csr('csrrs', self.rd() if self.r.random() < .3 else 0, 'mip', 30)

    def op_timer(self):
        a = self.a
        if self.mode == 'U':
            return self.op_alu()
        a.li(30, TIMER)
        x = self.r.random()
        if x < .6:
            a.load('lw', 31, 30, 0)
            a.op('addi', 31, 31, self.pick([0, 5, 20, 60, 150, 400, 1500]))
            a.store('sw', 31, 30, 8)
            a.store('sw', 0, 30, 12)
        elif x < .8:
            a.load('lw', self.rd(), 30, 4 * self.ri(0, 3))
        elif x < .9:
            a.op('addi', 31, 0, -1)
            a.store('sw', 31, 30, 12)
            if self.r.random() < .5:
                a.load('lw', self.rd(), 30, self.pick([8, 12]))
        elif x < .95:
            # the upper half of the clock and of the compare value
            for _ in range(self.ri(1, 3)):
                a.li(31, self.pick([0, 1, 2, 0x7fffffff, 0x80000000]))
                a.store('sw', 31, 30, self.pick([4, 4, 12]))
            if self.r.random() < .4:
                a.li(31, 0xffffffff - self.ri(0, 300))
                a.store('sw', 31, 30, 0)
            a.load('lw', self.rd(), 30, 0)
            a.load('lw', self.rd(), 30, 4)
        else:
            # set the clock
            a.load('lw', 31, 30, 0)
            a.op('addi', 31, 31, self.ri(-100, 1000))
            a.store('sw', 31, 30, 0)
            a.load('lw', self.rd(), 30, 0)

    def op_uart(self):
        a = self.a
        if self.mode == 'U':
            return self.op_alu()
        a.li(30, UART)
        x = self.r.random()
        if x < .6:
            # mostly bytes the simulator's own messages never contain
            a.li(31, self.ri(33, 126) if x < .1 else self.ri(128, 255))
            a.store('sb', 31, 30, 0)
        elif x < .8:
            a.load(self.pick(['lb', 'lbu']), self.rd(), 30,
                   self.pick([0, 1, 2, 5, 6]))
        else:
            a.op('andi', 31, self.pick(GEN), 0x7f)
            a.op('addi', 31, 31, 0x80)
            a.store('sb', 31, 30, 0)

    def op_extirq(self):
        a = self.a
        if self.mode == 'U':
            return self.op_alu()
        a.li(30, UART)
        a.op('addi', 31, 0, self.pick([7, 7, 5]))
        a.store('sb', 31, 30, 1)
        if self.r.random() < .3:
            a.load('lbu', self.rd(), 30, self.pick([0, 2]))

    def op_claims(self):
        """Two device interrupts pending at once, completed in any order."""
        a = self.a
        if self.mode == 'U':
            return self.op_alu()
        if self.mode == 'M' and self.r.random() < .7:
            a.csr('csrrci', 0, 'mstatus', 8)

        def uart():
            a.li(30, UART)
            a.op('addi', 31, 0, 7)
            a.store('sb', 31, 30, 1)

        def dma():
            a.li(30, DMA)
            a.li(31, BASE + O_DMASRC + 4 * self.ri(0, 600))
            a.store('sw', 31, 30, 0)
            # never loaded
            a.li(31, BASE + O_DMADST + 0x8000 + self.ri(0, 0x1000))
            a.store('sw', 31, 30, 4)
            a.op('addi', 31, 0, self.ri(1, 64))
            a.store('sw', 31, 30, 8)
            a.op('addi', 31, 0, 3)
            a.store('sw', 31, 30, 12)

        ev = [uart, dma]
        self.r.shuffle(ev)
        for f in ev:
            f()
        a.li(30, PLIC_CLAIM & ~0xfff)
        for _ in range(self.ri(1, 4)):
            d = self.rd()
            a.load('lw', d, 30, PLIC_CLAIM & 0xfff)
            if self.r.random() < .4:
                d = 31
                a.op('addi', 31, 0, self.pick([10, 11, 10, 11, 0, 5]))
            a.store('sw', d, 30, PLIC_CLAIM & 0xfff)
        a.load('lw', self.rd(), 30, PLIC_CLAIM & 0xfff)
        if self.mode == 'M' and self.r.random() < .7:
            a.csr('csrrsi', 0, 'mstatus', 8)

    def op_busdev(self):
        """A device behind the memory bus: plain registers, then registers
        that change with every read."""
        a = self.a
        if self.mode == 'U':
            return self.op_alu()
        for _ in range(self.ri(1, 4)):
            a.li(30, BUSDEV + self.pick([0, 0x800]) + 16 * self.ri(0, 5))
            sz = self.ri(0, 2)
            off = self.ri(0, 15) & ~((1 << sz) - 1)
            if self.r.random() < .15:
                for _ in range(self.ri(0, 3)):
                    self.op_alu()
                self.pick([self.op_illegal, self.op_illegal, self.op_ecall])()
            if self.r.random() < .45:
                a.store(['sb', 'sh', 'sw'][sz], self.rs(), 30, off)
            else:
                a.load(self.pick([['lb', 'lbu'], ['lh', 'lhu'], ['lw']][sz]),
                       self.rd(), 30, off)
            if self.r.random() < .3:
                self.op_alu()

    def op_devrd(self):
        a = self.a
        if self.mode == 'U':
            return self.op_alu()
        x = self.r.random()
        if x < .4:
            a.li(30, PLIC_CLAIM & ~0xfff)
            a.load('lw', self.rd(), 30, PLIC_CLAIM & 0xfff)
        elif x < .7:
            a.li(30, 0x0c000000 + 4 * self.ri(0, 15))
            a.store(self.pick(['sw', 'sb', 'sh']), self.rs(), 30, 0)
            a.load(self.pick(['lw', 'lbu', 'lh']), self.rd(), 30, 0)
        else:
            a.li(30, DMA)
            a.store('sw', self.rs(), 30, self.pick([0, 4, 8]))
            a.load('lw', self.rd(), 30, self.pick([0, 4, 8, 12, 16]))

    # ---- translation
    def op_win(self):
        a = self.a
        t = self.pick([30, 31])
        if self.mode == 'M' or self.nowin:
            return self.op_mem()
        if self.r.random() < .6:
            a.op('andi', t, self.pick([25, self.pick(GEN)]), self.win_n - 1)
            a.op('slli', t, t, 12)
            u = 30 + 31 - t
            a.li(u, WIN + self.win_off(self.ri(0, 3)))
            a.op('add', t, t, u)
        else:
            a.li(t, WIN + 4096 * self.ri(0, self.win_n - 1) +
                 self.win_off(self.ri(0, 3)))
        for _ in range(self.pick([1, 1, 2])):
            if self.r.random() < .12:
                if self.r.random() < .6:
                    a.amo(self.pick(list(AMOS)), self.rd(), t, self.rs())
                else:
                    a.lr(self.rd(), t)
                    a.sc(self.rd(), t, self.rs())
            else:
                self.acc(t, 4 * self.ri(0, 3))

    def win_off(self, k):
        x = self.r.random()
        if x < .6:
            return 0x400 + 64 * k
        if x < .8:
            return 0x400 + 64 * k + 4 * self.ri(0, 12)
        return 4 * self.ri(0, 1020)

    def op_swin(self):
        a = self.a
        t = self.pick([30, 31])
        if self.mode == 'M' or self.nowin:
            return self.op_mem()
        a.li(t, SWIN + 0x400000 * self.ri(0, 7) + O_DATA +
             (0x400 + 64 * self.ri(0, 7) if self.r.random() < .7 else
              4096 * self.ri(0, 31) + 4 * self.ri(0, 1020)))
        self.acc(t, 4 * self.ri(0, 3))

    def rand_pte(self):
        pa = BASE + O_DATA + 4096 * self.ri(0, 31)
        if self.r.random() < .2:
            pa ^= 1 << self.ri(19, 29)
        x = self.r.random()
        good = V | A_ | D_ | R_ | W_
        if x < .45:
            f = good | (U_ if self.r.random() < .5 else 0)
        elif x < .6:
            f = good | U_ | X_
        else:
            f = V | A_ | D_
            f |= self.pick([R_, R_ | W_, X_, R_ | X_, R_ | W_ | X_, 0, W_,
                            W_ | X_])
            if self.r.random() < .5:
                f |= U_
            if self.r.random() < .25:
                f &= ~A_
            if self.r.random() < .25:
                f &= ~D_
            if self.r.random() < .15:
                f &= ~V
            if not f & (R_ | X_):
                # at the last level this is an invalid entry in any case
                pass
        if self.r.random() < .2:
            f |= self.ri(0, 3) << 8
        return pte(pa, f)

    def op_ptedit(self):
        a = self.a
        if self.mode == 'U':
            return self.op_win()
        n = self.pick([1, 1, 2])
        pages = [self.ri(1, self.win_n - 1) for _ in range(n)]
        for p in pages:
            # edit the table of either address space
            tb = BASE + O_PT + self.pick([0x2000, 0x2000, 0x6000]) + 4 * p
            a.li(30, tb)
            if self.r.random() < .3:
                a.load('lw', 31, 30, 0)
                a.op('xori', 31, 31, self.pick([R_, W_, X_, U_, A_, D_, V,
                                                D_ | W_]))
                # keep writable entries readable or invalid: any is fine
            else:
                a.li(31, self.rand_pte())
            a.store('sw', 31, 30, 0)
        x = self.r.random()
        if n == 1 and x < .3:
            a.li(30, WIN + 4096 * pages[0])
            a.sfence(30, 0)
        elif x < .45:
            # all address-space numbers in use
            for s_ in self.asids:
                a.li(31, s_)
                a.sfence(0, 31)
        else:
            a.sfence()
        if self.mode != 'M':
            for p in pages:
                if self.r.random() < .7:
                    a.li(30, WIN + 4096 * p + self.win_off(0))
                    self.acc(30, 0)

    def op_satp(self):
        a = self.a
        if self.mode == 'U':
            return self.op_win()
        # the same place before and after the switch
        if self.r.random() < .5:
            at = SWIN + 0x400000 * self.ri(0, 7) + O_DATA + 0x400
        else:
            at = WIN + 4096 * self.ri(0, self.win_n - 1) + self.win_off(0)
        both = self.mode != 'M' and not self.nowin and self.r.random() < .6
        if both:
            a.li(31, at)
            a.load('lw', self.rd(), 31, 0)
        k = self.ri(0, 1)
        self.set_satp(k)
        if self.r.random() < .2:
            a.sfence()
        if both:
            a.li(31, at)
            self.acc(31, 0)

    def set_satp(self, k):
        a = self.a
        root = BASE + O_PT + (0x4000 if k else 0)
        a.li(30, 0x80000000 | self.asids[k] << 22 | root >> 12)
        a.csr('csrrw', self.pick([0, 0, self.rd()]), 'satp', 30)

    def rand_xpte(self):
        x = self.r.random()
        f = V | A_ | X_ | self.pick([0, R_, R_, R_ | W_ | D_])
        if self.r.random() < .5:
            f |= U_
        if x < .35:
            f ^= self.pick([V, A_, A_, X_, X_, W_, D_])
        return pte(BASE + O_XCODE + 4096 * self.ri(0, 3), f)

    def xcall(self, pg=None):
        """Run a small routine through a window; x28 is where it, or the
        handler of a fetch page fault, goes on."""
        a = self.a
        l = a.new()
        a.la(28, l)
        off = self.pick([0, 0x800, 0xff8, 0xff8, 0xffc])
        if pg is None:
            pg = self.ri(0, 7)
            if self.r.random() < .2:
                a.li(30, SWIN + 0x400000 * self.ri(0, 3) + O_XCODE +
                     4096 * self.ri(0, 2) + off)
                pg = -1
        if pg >= 0:
            a.li(30, XWIN + 4096 * pg + off)
        a.jalr(self.pick([0, 0, 5]), 30, 0)
        a.label(l)

    def op_xwin(self):
        if self.mode == 'M' or self.nowin or not self.paging:
            return self.op_alu()
        for _ in range(self.pick([1, 1, 2])):
            self.xcall()

    def op_xedit(self):
        a = self.a
        if self.mode == 'M' or self.nowin or not self.paging:
            return self.op_alu()
        if self.mode == 'U':
            return self.op_xwin()
        pg = self.ri(0, 7)
        a.li(30, BASE + O_PT + self.pick([0x3000, 0x3000, 0x7000]) + 4 * pg)
        if self.r.random() < .4:
            a.load('lw', 31, 30, 0)
            a.op('xori', 31, 31, self.pick([X_, A_, U_, V, 1 << 10, 2 << 10]))
        else:
            a.li(31, self.rand_xpte())
        a.store('sw', 31, 30, 0)
        x = self.r.random()
        if x < .35:
            a.li(30, XWIN + 4096 * pg)
            a.sfence(30, 0)
        elif x < .5:
            for s_ in self.asids:
                a.li(31, s_)
                a.sfence(0, 31)
        else:
            a.sfence()
        if self.r.random() < .8:
            self.xcall(pg)

    def op_fetchfault(self):
        a = self.a
        if self.mode == 'M' or self.nowin or not self.paging:
            return self.op_alu()
        l = a.new()
        a.la(28, l)
        x = self.r.random()
        if x < .5:
            a.li(30, 0x20000000 + 4 * self.ri(0, 1000))   # unmapped
        elif x < .8:
            a.li(30, WIN + 4096 * self.pick(self.win_nx) + 0x800)
        elif self.mode == 'S':
            # user page, must not be executed in supervisor mode
            a.la(30, l)
            a.li(31, U_XOR)
            a.op('xor', 30, 30, 31)
        else:
            # supervisor page
            a.la(30, l)
            a.li(31, U_XOR)
            a.op('xor', 30, 30, 31)
        a.jalr(self.pick([0, 5]), 30, 0)
        a.label(l)

    def op_mprv(self):
        a = self.a
        if self.mode != 'M' or not self.paging:
            return self.op_mem()
        # data accesses with the privilege in MPP
        # with interrupts off, so that MPP is what the sequence says
        a.csr('csrrci', 0, 'mstatus', 8)
        a.li(30, 0x1800 | 1 << 17)
        a.csr('csrrc', 0, 'mstatus', 30)
        a.li(30, (1 << 17) | self.pick([0, 0x800]))
        t = 31
        a.li(t, self.pick([WIN + 4096 * self.ri(0, self.win_n - 1) +
                           self.win_off(1),
                           BASE + O_DATA + 0x400, (BASE ^ U_XOR) + O_DATA + 64]))
        a.csr('csrrs', 0, 'mstatus', 30)
        self.acc(t, 0)
        a.li(30, 0x1800 | 1 << 17)
        a.csr('csrrc', 0, 'mstatus', 30)
        a.csr('csrrsi', 0, 'mstatus', 8)

    # ---- composition
    INNER_NO = {'skip', 'loop', 'switch', 'rec'}

    def one(self, inner=False):
        keys, cum = self.table[1 if inner else 0]
        k = self.r.choices(keys, cum_weights=cum)[0]
        self.count[k] = self.count.get(k, 0) + 1
        getattr(self, 'op_' + k)()

    def mktable(self):
        t = []
        for inner in (0, 1):
            keys, cum, s_ = [], [], 0
            for k, v in self.wt.items():
                if v <= 0 or (inner and k in self.INNER_NO):
                    continue
                s_ += v
                keys.append(k)
                cum.append(s_)
            t.append((keys, cum))
        self.table = t

    # ---- handlers
    def handlers(self):
        a = self.a
        # vector tables, 64-byte aligned
        while a.here() & 63:
            a.nop()
        a.label('mvec')
        for _ in range(16):
            a.jal(0, 'mh')
        a.label('svec')
        for _ in range(16):
            a.jal(0, 'sh')
        a.label('mh')
        a.csr('csrrw', 31, 'mscratch', 31)
        a.store('sw', 30, 31, 0)
        a.store('sw', 29, 31, 4)
        a.csr('csrrs', 30, 'mcause', 0)
        a.br('blt', 30, 0, 'm_irq')
        a.op('addi', 29, 30, -12)
        a.br('beq', 29, 0, 'm_ff')
        a.op('andi', 29, 30, 0x1c)
        a.op('addi', 29, 29, -8)
        a.br('bne', 29, 0, 'm_plus4')
        a.li(29, MAGIC)
        a.br('bne', 17, 29, 'm_plus4')
        a.csr('csrrs', 29, 'mepc', 0)
        a.op('addi', 29, 29, 4)
        a.br('blt', 29, 0, 'm_phys')
        a.li(30, U_XOR)
        a.op('xor', 29, 29, 30)
        a.label('m_phys')
        a.csr('csrrw', 0, 'mepc', 29)
        a.li(30, 0x1800)
        a.csr('csrrs', 0, 'mstatus', 30)
        a.jal(0, 'm_out')
        a.label('m_ff')
        a.csr('csrrw', 0, 'mepc', 28)
        a.jal(0, 'm_out')
        a.label('m_plus4')
        a.csr('csrrs', 29, 'mepc', 0)
        a.op('addi', 29, 29, 4)
        a.csr('csrrw', 0, 'mepc', 29)
        a.label('m_post')
        if self.s_irqs & 0x220:
            # post supervisor-level interrupts and enable them again
            a.li(29, self.pick([0x20, 0x200, 0x220]) & self.s_irqs)
            a.csr('csrrs', 0, 'mip', 29)
            a.csr('csrrs', 0, 'mie', 29)
        a.label('m_out')
        a.load('lw', 30, 31, 0)
        a.load('lw', 29, 31, 4)
        a.csr('csrrw', 31, 'mscratch', 31)
        a.mret()
        a.label('m_irq')
        a.op('andi', 30, 30, 31)
        a.op('addi', 29, 30, -7)
        a.br('beq', 29, 0, 'm_timer')
        a.op('addi', 29, 30, -11)
        a.br('beq', 29, 0, 'm_ext')
        a.op('addi', 29, 0, 1)
        a.op('sll', 29, 29, 30)
        a.csr('csrrc', 0, 'mip', 29)
        a.jal(0, 'm_out')
        a.label('m_timer')
        a.li(29, TIMER)
        a.load('lw', 30, 31, 8)          # remaining re-arms
        a.op('addi', 30, 30, -1)
        a.br('blt', 30, 0, 'm_toff')
        a.store('sw', 30, 31, 8)
        a.load('lw', 30, 29, 0)
        a.op('addi', 30, 30, self.pick([60, 200, 500, 1900]))
        a.store('sw', 30, 29, 8)
        a.jal(0, 'm_post')
        a.label('m_toff')
        a.op('addi', 30, 0, -1)
        a.store('sw', 30, 29, 12)
        a.jal(0, 'm_out')
        a.label('m_ext')
        a.li(29, PLIC_CLAIM & ~0xfff)
        a.load('lw', 30, 29, PLIC_CLAIM & 0xfff)
        a.store('sw', 30, 29, PLIC_CLAIM & 0xfff)
        a.jal(0, 'm_out')
        # supervisor handler
        a.label('sh')
        a.csr('csrrw', 31, 'sscratch', 31)
        a.store('sw', 30, 31, 0)
        a.store('sw', 29, 31, 4)
        a.csr('csrrs', 30, 'scause', 0)
        a.br('blt', 30, 0, 's_irq')
        a.op('addi', 29, 30, -12)
        a.br('beq', 29, 0, 's_ff')
        a.op('addi', 29, 30, -8)
        a.br('bne', 29, 0, 's_plus4')
        a.li(29, MAGIC)
        a.br('bne', 17, 29, 's_plus4')
        a.csr('csrrs', 29, 'sepc', 0)
        a.op('addi', 29, 29, 4)
        a.br('blt', 29, 0, 's_phys')
        a.li(30, U_XOR)
        a.op('xor', 29, 29, 30)
        a.label('s_phys')
        a.csr('csrrw', 0, 'sepc', 29)
        a.ecall()                         # to machine mode, right here
        a.csr('csrrs', 29, 'sepc', 0)
        a.csr('csrrci', 0, 'mstatus', 8)  # no interrupt may spoil mepc
        a.csr('csrrw', 0, 'mepc', 29)
        a.li(30, 0x1880)
        a.csr('csrrs', 0, 'mstatus', 30)
        a.load('lw', 30, 31, 0)
        a.load('lw', 29, 31, 4)
        a.csr('csrrw', 31, 'sscratch', 31)
        a.mret()
        a.label('s_ff')
        a.csr('csrrw', 0, 'sepc', 28)
        a.jal(0, 's_out')
        a.label('s_plus4')
        a.csr('csrrs', 29, 'sepc', 0)
        a.op('addi', 29, 29, 4)
        a.csr('csrrw', 0, 'sepc', 29)
        a.label('s_out')
        a.load('lw', 30, 31, 0)
        a.load('lw', 29, 31, 4)
        a.csr('csrrw', 31, 'sscratch', 31)
        a.sret()
        a.label('s_irq')
        a.op('andi', 30, 30, 31)
        a.op('addi', 29, 0, 1)
        a.op('sll', 29, 29, 30)
        a.op('addi', 30, 30, -1)
        a.br('bne', 30, 0, 's_irqm')
        a.csr('csrrci', 0, 'sip', 2)
        a.jal(0, 's_out')
        a.label('s_irqm')
        a.csr('csrrc', 0, 'sie', 29)
        a.jal(0, 's_out')

    def bases(self):
        a = self.a
        a.la(2, BASE + O_STACK + 0xe00)
        a.la(3, BASE + O_DATA + 0x1000)
        a.la(4, BASE + O_DATA + 0x400)

    def enter_mode(self, m):
        a = self.a
        if m != 'M':
            l = a.new('P')
            a.csr('csrrci', 0, 'mstatus', 8)
            if self.s_irqs and self.r.random() < .5:
                a.li(30, self.s_irqs)
                a.csr('csrrs', 0, 'mie', 30)
                a.li(30, self.pick([0x22, 0x200, 0x222, 0x20]) & self.s_irqs)
                a.csr('csrrs', 0, 'mip', 30)
            a.la(30, l)
            if m == 'U' and self.paging:
                a.li(31, U_XOR)
                a.op('xor', 30, 30, 31)
            a.csr('csrrw', 0, 'mepc', 30)
            a.li(30, 0x1800)
            a.csr('csrrc', 0, 'mstatus', 30)
            a.li(30, (0x800 if m == 'S' else 0) | 0x80)
            a.csr('csrrs', 0, 'mstatus', 30)
            a.mret()
            a.label(l)
        self.mode = m
        self.bases()

    def leave_mode(self):
        if self.mode != 'M':
            self.a.li(17, MAGIC)
            self.a.ecall()
            self.a.li(17, 0)
            self.mode = 'M'

    def dma_ops(self, k):
        a = self.a
        for j in range(k):
            src = BASE + O_DMASRC + 4 * self.ri(0, 600)
            dst = BASE + O_DMADST + 1024 * j + 4 * self.ri(0, 15)
            ln = self.pick([1, 3, 4, 64, self.ri(1, 200), 400])
            bad = self.r.random()
            a.li(30, DMA)
            a.li(31, src)
            if bad < .12:
                a.li(31, self.pick([0x10, 0xBFFFFFF0 + 8, 0xC0000000]))
                ln = 64
            a.store('sw', 31, 30, 0)
            a.li(31, dst)
            a.store('sw', 31, 30, 4)
            a.li(31, 0 if bad > .92 else ln)
            a.store('sw', 31, 30, 8)
            irq = self.r.random() < .5
            a.li(31, 3 if irq else 1)
            a.store('sw', 31, 30, 12)
            a.load('lw', 31, 30, 16)
            a.load('lw', 5, 30, 12)
            if self.r.random() < .6:
                a.op('addi', 31, 0, self.pick([6, 6, 2, 4]))
                a.store('sw', 31, 30, 16)
            a.load('lw', 6, 30, 16)
            # the copy bypasses the data cache: no load of the destination,
            # speculative or not, may start before the transfer
            a.op('andi', 6, 6, 0)
            a.li(31, dst & ~3)
            a.op('add', 31, 31, 6)
            for o in range(0, min(ln, 64) + 4, 4):
                a.load('lw', self.pick(GEN), 31, o)

    # ---- whole program
    def build(self):
        p, a = self.p, self.a
        self.mktable()
        self.level = 0
        self.hot = [4 * self.ri(-512, 510) for _ in range(self.ri(2, 6))]
        h0 = 64 * self.ri(0, 6)
        self.hotset = [h0 + 4 * self.ri(0, 10) for _ in range(3)]
        if self.r.random() < .5:
            self.hotset.append(64 * self.ri(0, 6))
        self.win_n = 16
        self.win_nx = [0]
        # two address-space numbers, sometimes one bit apart
        self.asids = [1, 2]
        if self.r.random() < .7:
            k = self.ri(0, 511)
            self.asids = [k, k ^ 1 << self.ri(0, 8)]
        budget = p.get('budget', 6000)
        nf1 = p.get('nf1', self.ri(2, 5))
        nf2 = p.get('nf2', self.ri(2, 5))
        self.funcs1 = ['f1_%d' % k for k in range(nf1)]
        self.funcs2 = ['f2_%d' % k for k in range(nf2)]

        # configuration
        S_irqs = self.pick([0, 2, 0x20, 0x22, 0x220, 0x222, 0x222])
        medeleg = 0
        if set(self.modes) - {'M'} and self.r.random() < .6:
            for b in (2, 8, 12, 13, 15):
                if self.r.random() < .6:
                    medeleg |= 1 << b
        if p.get('nodeleg'):
            medeleg = S_irqs = 0
        self.s_irqs = S_irqs if p.get('irq') else 0
        mie = 0
        if p.get('irq'):
            mie = 0x888 | S_irqs
            if self.r.random() < .2:
                mie &= ~(1 << self.pick([3, 7, 11]))
        vec_m = bool(p.get('vectored')) and self.r.random() < .5
        vec_s = bool(p.get('vectored')) and self.r.random() < .5

        a.la(30, 'mvec')
        if vec_m:
            a.op('addi', 30, 30, 1)
        a.csr('csrrw', 0, 'mtvec', 30)
        a.la(30, BASE + O_SAVE)
        a.csr('csrrw', 0, 'mscratch', 30)
        a.la(30, 'svec')
        if vec_s:
            a.op('addi', 30, 30, 1)
        a.csr('csrrw', 0, 'stvec', 30)
        a.la(30, BASE + O_SAVE + 0x100)
        a.csr('csrrw', 0, 'sscratch', 30)
        a.li(30, medeleg)
        a.csr('csrrw', 0, 'medeleg', 30)
        a.li(30, S_irqs)
        a.csr('csrrw', 0, 'mideleg', 30)
        a.li(30, TIMER)
        a.op('addi', 31, 0, -1)
        if p.get('irq') or p.get('dev'):
            a.store('sw', 31, 30, 12)
        a.li(30, mie)
        a.csr('csrrw', 0, 'mie', 30)
        if self.paging:
            self.set_satp(0)
            a.sfence()
        if p.get('irq'):
            a.csr('csrrsi', 0, 'mstatus', 8 | (2 if self.r.random() < .5 else 0))
        for x in GEN + [24, 28, 29]:
            a.li(x, self.pick([self.r.getrandbits(32), self.pick(SPECIAL_I)]))
        a.li(25, self.r.getrandbits(32) | 1)
        self.bases()
        a.jal(0, 'main')
        self.handlers()
        a.label('main')
        if p.get('dma'):
            self.dma_ops(self.ri(2, 6))
            self.bases()

        nphase = p.get('phases') or self.ri(1, 3)
        seq = [self.pick(self.modes) for _ in range(nphase)]
        for m in seq:
            self.enter_mode(m)
            n_ops = self.ri(*p.get('ops', (40, 110)))
            start = len(a.words)
            l = a.new('B')
            a.li(26, 1)
            at = len(a.words) - 1
            a.label(l)
            for _ in range(n_ops):
                self.one()
            length = len(a.words) - start
            it = max(1, min(60, int(budget / nphase / max(1, length * 1.3))))
            a.words[at] = i(0x13, 0, 26, 0, it)
            a.op('addi', 26, 26, -1)
            e = a.new('E')
            a.br('beq', 26, 0, e)
            a.la(30, l)
            a.jalr(0, 30, 0)
            a.label(e)
            self.leave_mode()

        self.bases()
        if p.get('readback', True):
            # windows of the two base registers
            for lo, n in [(0x800, 64)] + [(0x400 + WAY * k, 8)
                                          for k in range(8)]:
                l = a.new('R')
                a.la(30, BASE + O_DATA + lo)
                a.li(27, n)
                a.label(l)
                for o in range(0, 64, 4):
                    a.load('lw', self.pick(GEN), 30, o)
                a.op('addi', 30, 30, 64)
                a.op('addi', 27, 27, -1)
                a.br('bne', 27, 0, l)
        code = p.get('exit', self.pick([0, 0, 1, 42, 255]))
        a.li(10, code)
        a.ebreak()
        self.exit = code
        for _ in range(8):
            a.nop()

        # functions, spread over instruction-cache sets
        assert a.here() < BASE + O_FUNC, hex(a.here())
        at = BASE + O_FUNC
        stride = 0x1000 if nf1 + nf2 <= 22 else 0x800
        self.mode = 'U' if 'U' in self.modes else (
            'S' if 'S' in self.modes else 'M')
        # machine mode has no view of the translated windows
        self.nowin = 'M' in seq
        fn = [(f, 1) for f in self.funcs1] + [(f, 2) for f in self.funcs2]
        self.r.shuffle(fn)
        for k, (f, lev) in enumerate(fn):
            base = at + stride * k + 64 * self.ri(0, 3) + 4 * self.ri(0, 15)
            a.pad_to(base)
            self.level = lev
            a.label(f)
            a.op('addi', 2, 2, -8)
            a.store('sw', 1, 2, 4)
            sv = self.loop_ok
            self.loop_ok = False
            for _ in range(self.ri(3, p.get('fn_ops', 12))):
                self.one(inner=self.r.random() < .5)
            self.loop_ok = sv
            a.load('lw', 1, 2, 4)
            a.op('addi', 2, 2, 8)
            a.jalr(0, 1, 0)
        a.label('rec')
        a.op('addi', 2, 2, -8)
        a.store('sw', 1, 2, 4)
        a.op('addi', 24, 24, -1)
        a.br('bge', 0, 24, 'rec_out')
        a.jal(1, 'rec')
        a.op('addi', 24, 24, 0)
        a.label('rec_out')
        a.load('lw', 1, 2, 4)
        a.op('addi', 2, 2, 8)
        a.jalr(0, 1, 0)
        assert a.here() < BASE + O_PT, hex(a.here())

        return self.finish()

    def finish(self):
        rr = self.r
        # data is generated before code() so that window lists are fixed
        img = bytearray(O_DMADST)
        words = []
        for _ in range((O_DMADST - O_DATA) // 4):
            x = rr.random()
            if x < .2:
                words.append(self.pick(SPECIAL_I))
            elif x < .45:
                words.append(self.pick(SPECIAL_F))
            else:
                words.append(rr.getrandbits(32))
        img[O_DATA:O_DMADST] = struct.pack('<%dI' % len(words), *words)
        img[O_DMASRC:O_DMASRC + 0x1000] = bytes(rr.getrandbits(8)
                                                for _ in range(0x1000))
        for k, v in enumerate(self.sweeps):
            struct.pack_into('<%dI' % len(v), img, O_SWEEP + 0x100 * k, *v)
        struct.pack_into('<I', img, O_SAVE + 8, self.ri(0, 6))
        if self.paging:
            img += bytes(O_XCODE + 0x4000 - len(img))
            self.routines(img)
            self.tables(img)
        code = self.a.code()
        img[0:len(code)] = code
        # drop trailing zeros
        return bytes(img).rstrip(b'\0') + b'\0' * 8, {
            'exit': self.exit, 'ops': self.count}

    def routines(self, img):
        for pg in range(4):
            def put(off, *ws):
                struct.pack_into('<%dI' % len(ws), img,
                                 O_XCODE + 4096 * pg + off, *ws)
            ret = 28 << 15 | 0x67

            def addi():
                r = self.pick(GEN)
                return (16 * self.ri(0, 63) + pg + 1) << 20 | r << 15 | \
                    r << 7 | 0x13
            put(0, addi(), ret)
            put(0x800, addi(), addi(), ret)
            put(0xff8, addi(), addi())     # goes on in the next page

    def tables(self, img):
        def put(off, v):
            struct.pack_into('<I', img, off, v)
        P = BASE + O_PT
        for k in (0, 1):
            root = O_PT + 0x4000 * k
            l2u, l2w = root + 0x1000, root + 0x2000
            kern = V | R_ | W_ | X_ | A_ | D_ | (G_ if k in (0, 1) else 0)
            put(root + 4 * 0x200, pte(0x80000000, kern))
            for b in range(22, 30):
                pa = 0x80000000 ^ 1 << b
                put(root + 4 * (pa >> 22), pte(pa, kern))
            # devices
            put(root + 4 * (0x10000000 >> 22), pte(0x10000000, V | R_ | W_ | A_ | D_ | G_))
            put(root + 4 * (0x0c000000 >> 22), pte(0x0c000000, V | R_ | W_ | A_ | D_ | G_))
            put(root + 4 * (0x1f800000 >> 22), pte(0x1f800000, V | R_ | W_ | A_ | D_ | G_))
            put(root + 4 * (0x1fc00000 >> 22), pte(0x1fc00000, V | R_ | W_ | A_ | D_ | G_))
            # user view: 64 + 64 pages of code, stack, data
            put(root + 4 * 0x100, pte(BASE + l2u, V))
            for pg in range(O_DMADST >> 12):
                put(l2u + 4 * pg, pte(BASE + 4096 * pg,
                                      V | R_ | W_ | X_ | U_ | A_ | D_))
            # random window
            put(root + 4 * (WIN >> 22), pte(BASE + l2w, V))
            for pg in range(self.win_n):
                put(l2w + 4 * pg, self.rand_pte())
            put(l2w, pte(BASE + O_DATA, V | R_ | W_ | A_ | D_ | U_))
            # code window
            l2x = root + 0x3000
            put(root + 4 * (XWIN >> 22), pte(BASE + l2x, V))
            for pg in range(8):
                put(l2x + 4 * pg, self.rand_xpte())
            # random superpages
            for s_ in range(8):
                f = self.rand_pte() & 0x3ff
                if not f & (R_ | X_):
                    f = 0
                pa = 0x80000000
                if s_ > 3:                            # not used for code
                    pa += self.pick([0, 0x400000, 0x1000000])
                if self.r.random() < .15:
                    pa += 0x1000 << self.ri(0, 9)     # misaligned superpage
                put(root + 4 * ((SWIN >> 22) + s_), pte(pa, f))


def gen(seed, prof):
    return Gen(seed, prof).build()


PRIV = dict(csr=5, ecall=2, illegal=2, swirq=2, timer=1, extirq=1, status=3)
PROFILES = {
    'user': dict(),
    'press': dict(w=dict(press=25, alu=10, mem=8, skip=10, burst=4, lag=4,
                         csr=1, ecall=1, swirq=2, timer=1), irq=True,
                  modes=['M', 'S', 'U']),
    'alu': dict(w=dict(alu=60, muldiv=15, bit=30, mem=8, memhot=3, conflict=1,
                       skip=6)),
    'sweep': dict(w=dict(sweep=12, alu=30, mem=8, skip=6, li=4), ops=(24, 40),
                  phases=1, budget=1),
    'fp': dict(w=dict(fp=60, alu=10, mem=6, memhot=2, conflict=0, li=10)),
    'mem': dict(w=dict(alu=12, mem=40, memhot=25, conflict=20, amo=4, lrsc=1,
                       fence=2, skip=6, burst=8, lag=10, redo=3)),
    'evict': dict(w=dict(alu=8, mem=10, memhot=8, conflict=20, amo=6, lrsc=2,
                         skip=6, loop=4, burst=8, lag=4, evict=5, far=4, redo=4)),
    'atomic': dict(w=dict(amo=30, lrsc=20, far=6, memhot=15, mem=12, conflict=6,
                          alu=15, fence=2)),
    'atomicvm': dict(w=dict(amo=8, lrsc=6, lrvm=25, memhot=6, mem=6, win=6,
                            ptedit=3, alu=12, skip=5), paging=True,
                     modes=['S', 'U'], phases=2),
    'flow': dict(w=dict(alu=15, mem=6, memhot=2, conflict=0, skip=30, loop=8,
                        call=16, icall=14, switch=8, rec=5, ret=6, corr=10,
                        wildjump=4, prng=15, farcode=2), nf1=9, nf2=12, fn_ops=20),
    'smc': dict(w=dict(smc=10, fencei=1, farcode=2, evcode=4, call=5, icall=4, skip=10)),
    'trap': dict(w=PRIV, irq=True, vectored=True, modes=['M', 'M', 'S', 'U']),
    'irq': dict(w=dict(csr=3, swirq=4, timer=4, extirq=3, status=2, ecall=1),
                irq=True, vectored=True, modes=['M', 'S', 'U']),
    'vm': dict(w=dict(win=25, swin=8, xwin=6, xedit=4, ptedit=5, satp=2, fetchfault=2, mprv=3,
                      status=3, ecall=1, alu=15), paging=True,
               modes=['S', 'U', 'M', 'S', 'U'], phases=3),
    'vmirq': dict(w=dict(win=15, swin=5, xwin=4, xedit=3, ptedit=4, satp=2, fetchfault=2,
                         status=2, mprv=1, smc=1, **{k: v for k, v in PRIV.items()
                                              if k != 'status'}),
                  paging=True, irq=True, vectored=True,
                  modes=['S', 'U', 'M'], phases=3),
    'smcvm': dict(w=dict(smc=10, fencei=1, win=25, swin=8, ptedit=2, satp=2,
                         call=5, icall=4, alu=12, mem=15), paging=True,
                  modes=['S', 'U'], phases=2),
    'dev': dict(w=dict(timer=8, uart=8, extirq=4, devrd=6, claims=3,
                       alu=20, mem=12),
                irq=True, dev=True, dma=True, modes=['M', 'S']),
    'busdev': dict(w=dict(timer=8, uart=4, extirq=3, devrd=3, busdev=25,
                          alu=15, mem=10, skip=8), irq=True, dev=True,
                   modes=['M', 'S']),
    'mix': dict(w=dict(win=8, swin=3, ptedit=2, satp=1, fetchfault=1, smc=1,
                       fence=1, timer=1, uart=1, **{k: v for k, v in PRIV.items()
                                           if k != 'timer'}),
                paging=True, irq=True, vectored=True, modes=['M', 'S', 'U'],
                phases=3),
}
# the same without code written at run time
PROFILES['calls'] = dict(PROFILES['flow'], w=dict(PROFILES['flow']['w'], farcode=0))

if __name__ == '__main__':
    import sys
    prof, seed, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    P = dict(PROFILES[prof])
    if len(sys.argv) > 4:
        P['w'] = dict(P.get('w', {}), **{k: int(v) for k, v in (
            x.split('=') for x in sys.argv[4].split(','))})
    img, info = gen(seed, P)
    open(out, 'wb').write(img)
    print(info)

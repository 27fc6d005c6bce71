from build import refstep
from harness import *


def main():
    c = Check('P07')
    exe = refstep()
    n = 25000000 if THOROUGH else 3000000
    c.drivers([('user-%d' % i, [exe, 'user', seed_of('P07', i), n]) for i in range(8)])
    for k in ('alu', 'muldiv', 'load', 'store', 'branch', 'jal', 'jalr', 'lr', 'sc', 'amo'):
        c.need('kinds.' + k, c.hist.get('kinds', {}).get(k, 0), 100000)
    for k in ('ok', 'fail'):
        c.need('sc.' + k, c.hist.get('sc', {}).get(k, 0), 10000)
    return c.finish('random states and random instructions with corner-case operands; each step of '
                    "the repository's reference model is compared with the sequential model in all "
                    'registers, control registers, mode, next address, reservation and the words '
                    'around a store, and all of memory at the end; built with address and '
                    'undefined-behaviour sanitizers; distinct by hash of the step results')

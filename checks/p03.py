from build import sim
from harness import *


def main():
    return guest_check(
        'P03', [('vm', 240), ('vmirq', 80), ('mix', 16)],
        {'paged': 100000, 'pf_i': 100, 'pf_l': 300, 'pf_s': 300, 'sfence': 1000},
        lambda m: m['paged'] > 500 and m['pf_l'] + m['pf_s'] > 3,
        'random Sv32 tables, address spaces, SUM/MXR/MPRV settings, page-table '
        'edits and fences on random bus timing; every access outcome compared '
        'with a table walk in the model\'s own memory; non-trivial = over 500 '
        'translated commits and 3 data page faults', sim('dbg'))

from build import sim
from harness import *


def main():
    return guest_check(
        'P06', [('flow', 60), ('smc', 110), ('vm', 12), ('smcvm', 20)],
        {'branches': 10000, 'jalr': 3000, 'fencei': 500, 'jal': 3000,
         'causes.e12': 10},
        lambda m: m['branches'] > 50 and m['jalr'] + m['fencei'] > 10,
        'control-flow-heavy and self-modifying guests on random bus timing; '
        'address and instruction word of every commit compared with the '
        'model\'s memory; non-trivial = over 50 branches and 10 indirect jumps '
        'or fence.i', sim('dbg'))

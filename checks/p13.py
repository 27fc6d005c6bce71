from build import sim
from harness import *


def main():
    return guest_check(
        'P13', [('dev', 200), ('irq', 30), ('busdev', 60)],
        {'mmio_ld': 5000, 'mmio_st': 5000, 'bus_dev': 2000,
         'interrupts': 300, 'causes.i11': 100,
         'causes.i7': 10},
        lambda m: m['mmio_ld'] + m['mmio_st'] > 20,
        'guests using console, timer, interrupt controllers and copy engine on '
        'random bus timing, and a device behind the bus that changes with '
        'each read; every access it sees, loaded values, copies, interrupts '
        'and console bytes compared with a device model driven by the committed accesses; '
        'non-trivial = over 20 device accesses', sim('dbg'))

from build import sim
from harness import *


def main():
    return guest_check(
        'P04', [('mem', 300), ('user', 16), ('atomic', 16),
                ('evict', 32, FULL_WB)],
        {'loads': 50000, 'stores': 50000, 'wb_lines': 3000, 'wb_bytes': 150000,
         'bus_reads': 10000},
        lambda m: m['loads'] > 100 and m['stores'] > 100 and m['wb_lines'] > 0,
        'memory-heavy guests on few cache sets with all sizes and overlaps, '
        'random bus latency, order and back-pressure, and guests that keep the '
        'write-back queue full; every load value, every '
        'store and every written-back byte checked, all regions read back at '
        'the end; non-trivial = over 100 loads and stores and a write-back',
        sim('dbg'))

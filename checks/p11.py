from build import sim
from harness import *

# A single access may take the longest latency of the bus model several times
# over (walk, refill, write-back); nothing takes 30000 cycles without a commit.
SLOW = ['slow', 'spiky', 'stall', 'slowwr', 'all', 'reorder']


def main():
    return guest_check(
        'P11', [('user', 20), ('mem', 24), ('flow', 16), ('vm', 24), ('mix', 20),
                ('irq', 14), ('atomic', 12), ('smc', 14), ('dev', 10),
                ('evict', 10, FULL_WB)],
        {'commits': 100000, 'bus_reads': 10000, 'max_gap': 500,
         'bus_rejected': 1000, 'sim_time': 500000},
        lambda m: m['commits'] > 300 and m['max_gap'] > 50,
        'guests of every kind on slow, bursty, stalling and reordering memory; '
        'monitor on the longest gap between commits, the repository\'s own hang '
        'detector armed, every run has to reach its end; non-trivial = over 300 '
        'commits with a gap of more than 50 cycles', sim('dbg'), buses=SLOW)

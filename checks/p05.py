from build import sim
from harness import *


def main():
    return guest_check(
        'P05', [('atomic', 200), ('atomicvm', 60), ('evict', 8, FULL_WB)],
        {'amo': 10000, 'lr': 3000, 'sc_ok': 1000, 'sc_fail': 300},
        lambda m: m['amo'] > 20 and m['lr'] > 5,
        'guests full of atomic operations and LR/SC sequences between aliasing '
        'loads and stores on random bus timing; result, memory effect and '
        'reservation outcome of each compared with the model; non-trivial = '
        'over 20 AMOs and 5 load-reserved', sim('dbg'))

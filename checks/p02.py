from build import sim
from harness import *
import probes


def main():
    return guest_check(
        'P02', [('trap', 110), ('irq', 120), ('vmirq', 60), ('mix', 12)],
        {'traps': 3000, 'interrupts': 1000, 'csr': 4000, 'mret': 2000, 'sret': 300,
         'illegal': 100, 'ecall': 300, 'causes.i1': 20, 'causes.i3': 20,
         'causes.i5': 20, 'causes.i7': 20, 'causes.i9': 20, 'causes.i11': 20,
         'causes.e8': 20, 'causes.e9': 20, 'causes.e12': 10, 'causes.e13': 20,
         'causes.e15': 20},
        lambda m: m['traps'] + m['interrupts'] > 10 and m['csr'] > 10,
        'random guests with trap handlers, delegation, CSR traffic and '
        'software/timer/external interrupts on random bus timing; each commit '
        'is matched against "executed" or "replaced by an allowed interrupt"; '
        'non-trivial = over 10 traps or interrupts and 10 CSR instructions', sim('dbg'),
        fixed=[('undelegated-supervisor-interrupt', probes.undelegated_irq(), 0)])

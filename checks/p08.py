from build import refstep
from harness import *


def main():
    c = Check('P08')
    exe = refstep()
    n = 20000000 if THOROUGH else 2500000
    jobs = [('priv-%d' % i, [exe, 'priv', seed_of('P08', i), n]) for i in range(8)]
    c.drivers([('probe', [exe, 'probe', 0, 0])] + jobs)
    for k in ('m3', 'm7', 'm11', 's1', 's5', 's9'):
        c.need('interrupt_causes.' + k, c.hist.get('interrupt_causes', {}).get(k, 0), 1000)
    for k in ('m12_from_u', 'm13_from_s', 'm15_from_s', 's12_from_u', 's13_from_u', 's15_from_s',
              'm2_from_s', 's2_from_u', 'm8_from_u', 's8_from_u', 's9_from_s', 'm11_from_m',
              'm13_from_m'):
        c.need('trap_causes.' + k, c.hist.get('trap_causes', {}).get(k, 0), 1000)
    for k in ('mret', 'sret', 'csr', 'sfence', 'wfi', 'fetch_fault'):
        c.need('kinds.' + k, c.hist.get('kinds', {}).get(k, 0), 10000)
    c.need('translated', c.totals.get('translated', 0), 100000)
    return c.finish('random privileged states, page tables, delegation and pending interrupts; each '
                    "step of the repository's reference model is compared with the sequential model "
                    'in all registers, control registers, mode, next address and memory; distinct '
                    'by hash of the step results')

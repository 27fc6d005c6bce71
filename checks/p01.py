from build import sim
from harness import *


def main():
    c = Check('P01')
    exe = sim('dbg')
    k = 10 if THOROUGH else 1
    plan = [('user', 100 * k), ('alu', 24 * k), ('flow', 40 * k), ('mem', 40 * k),
            ('fp', 12 * k), ('sweep', 32 * k)]
    c.guests(mix_cases('P01', exe, plan), nontrivial=lambda m:
             m['commits'] > 500 and m['branches'] > 10 and m['loads'] > 10)
    t = c.totals
    for n, least in (('commits', 200000), ('branches', 10000), ('loads', 10000),
                     ('stores', 8000), ('muldiv', 20000), ('fp', 20000), ('jalr', 500)):
        c.need(n, t.get(n, 0), least)
    return c.finish('random guest programs (seeded) on random bus timing; every '
                    'commit compared with an independent sequential model; '
                    'non-trivial = over 500 commits, 10 branches and 10 loads, '
                    'distinct by hash of the commit stream')

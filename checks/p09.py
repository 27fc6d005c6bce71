import build
from build import refstep, sim
from harness import *


def main():
    c = Check('P09')
    k = 10 if THOROUGH else 1
    n = 2500000 * k
    exe = refstep()
    c.drivers([('ref-%d' % i, [exe, 'fp', seed_of('P09', i), n]) for i in range(8)])
    for r in ('0', '1', '2', '3', '4', '7'):
        c.need('rounding.' + r, c.hist.get('rounding', {}).get(r, 0), 500000)
    try:
        unit = build.fpunit()
    except BuildError as e:
        c.cov['units_alone'] = 'not driven: ' + str(e)[-300:]
    else:
        c.drivers([('unit-%d' % i, [unit, seed_of('P09', 'unit', i), 6 * n]) for i in range(8)])
        for x in ('add', 'sub', 'mul', 'div', 'sqrt', 'sgnj', 'minmax', 'cmp', 'to_int',
                  'from_int', 'class'):
            c.need('unit_ops.' + x, c.hist.get('unit_ops', {}).get(x, 0), 1000000)
    if len(c.violations) < 2:
        c.guests(mix_cases('P09', sim('dbg'), [('fp', 40 * k)], buses=['fast', 'jitter', 'all']),
                 nontrivial=lambda m: m['fp'] > 50)
        c.need('fp', c.totals.get('fp', 0), 5000)
    return c.finish('single-precision operations with special, boundary, tie and random operands in '
                    'every rounding mode, on the reference model, on the execution units alone and '
                    'in whole programs on the core, compared bit for bit with an independent '
                    'computation; distinct by hash of results, non-trivial guests execute over 50 '
                    'FP operations')

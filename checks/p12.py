from build import sim
from harness import *

PARTS = {'registers', 'reorder', 'fetch-target', 'branch-tags', 'load-store',
         'issue', 'miss'}
# what a run ends with when a resource is lost, besides the monitors' own keys
STUCK = {'hang', 'assert', 'crash', 'timeout', 'sanitizer'}
MINE = ('preg_', 'map_', 'rob_', 'ftq_', 'tag_', 'ldq_', 'stq_', 'lsu_ring',
        'iq_', 'mshr_', 'wb_count', 'wb_leak')


def main():
    exe = sim('dbg', name='res', resource='res')
    c = Check('P12')
    n = 10 if THOROUGH else 1
    parts = set()
    peaks = {}

    def judge(r):
        m = r['mon']
        parts.update(m.get('res_parts', []))
        for k in [k for k in m if k.endswith('_peak')]:
            peaks[k[4:-5]] = max(peaks.get(k[4:-5], 0), m.pop(k))
        if r['verdict'] == 'violation' and r['key'] not in STUCK and \
                not r['key'].startswith(MINE) and PARTS <= parts:
            # a wrong result with every resource accounted for
            r['verdict'] = 'skip'

    plan = [('press', 50), ('flow', 24), ('mix', 22), ('trap', 16), ('vmirq', 14),
            ('mem', 16), ('evict', 6, FULL_WB), ('atomic', 8), ('smc', 8), ('dev', 8), ('irq', 12)]
    c.guests(mix_cases('P12', exe, [(p, q * n, *o) for p, q, *o in plan]), judge=judge,
             nontrivial=lambda m: m.get('res_drains', 0) > 5)
    t = c.totals
    c.cov['monitors'] = sorted(parts)
    c.cov['left_out'] = sorted(PARTS - parts)
    c.cov['most_held_at_once'] = peaks
    if parts:
        c.need('res_cycles', t.get('res_cycles', 0), 1000000)
    for part, name, least in (('registers', 'preg_short', 5000),
                              ('fetch-target', 'ftq_full', 5000),
                              ('load-store', 'ldq_full', 2000),
                              ('load-store', 'stq_full', 2000),
                              ('miss', 'mshr_full', 20),
                              ('reorder', 'rob_full', 20)):
        if part in parts:
            c.need(name, t.get('res_' + name, 0), least)
    if {'registers', 'reorder', 'fetch-target'} <= parts:
        c.need('drains', t.get('res_drains', 0), 3000)
    c.need('interrupts', t.get('interrupts', 0), 100)
    c.need('commits', t.get('commits', 0), 100000)
    return c.finish(
        'programs that exhaust queues, tags and registers among mispredictions, '
        'traps and interrupts; at the start of every core cycle the owner of '
        'every physical register, reorder, issue, load, store, fetch-target '
        'slot, branch tag and miss register is looked up, and the pools are '
        'compared with their first state whenever the pipeline has been empty '
        'for 8 cycles; a resource whose holder no longer exists, has two '
        'holders or none is a violation; non-trivial = over 5 drains')

from build import sim
from harness import *

FAULTS = ('pc', 'inst', 'fetch_fault', 'load_fault', 'store_fault', 'gpr', 'csr', 'store_addr',
          'store_data', 'store_by_core_only', 'store_by_ref_only', 'at_page_fault')


def main():
    c = Check('P10', level='fault_enumeration')
    k = 6 if THOROUGH else 1
    bins = [sim('dbg'), sim('rel')]
    # 1. runs that agree go on; a reference that differs in one item stops them
    cases = mix_cases('P10', bins[0], [('user', 6 * k), ('fp', 2 * k), ('atomic', 6 * k),
                                       ('trap', 8 * k), ('irq', 6 * k), ('vmirq', 12 * k),
                                       ('dev', 8 * k), ('mix', 8 * k)])
    for i, x in enumerate(cases):
        x['vp'].update(strict=1, inj=seed_of('P10', 'inj', i) % 100000007 + 1, inj_gap=120,
                       inj_max=1500)
        x['sim'] = bins[i % 2]
        x['timeout'] = 200
    c.guests(cases, nontrivial=lambda m: m['inj'] > 50)
    for f in FAULTS:
        c.need('inj_items.' + f, c.hist.get('inj_items', {}).get(f, 0), 40)
    c.need('inj_stop', c.totals.get('inj_stop', 0), 10000)
    c.need('inj_pass', c.totals.get('inj_pass', 0), 10)
    c.need('synced', c.totals.get('synced', 0), 500)
    # 2. a core that really goes wrong because one bit of a bus read is wrong
    seen = {'stopped_at_divergence': 0, 'no_effect': 0, 'inconclusive': 0}
    kinds = {}

    def judge(r):
        m = r['mon']
        st, key = m.get('status'), r['key']
        if st == 'diverged':
            if r['rc'] == 1:
                seen['stopped_at_divergence'] += 1
                w = m.get('key', '?')
                w = 'register' if w[0] == 'x' and w[1:].isdigit() else w
                kinds[w] = kinds.get(w, 0) + 1
                r['verdict'] = 'ok'
            else:
                r.update(verdict='violation', key='missed',
                         detail='%s but the run ended with status %s' % (m.get('detail'), r['rc']))
        elif st == 'violation' and key in ('missed', 'unchecked'):
            pass
        elif st == 'end' and r['verdict'] == 'ok':
            seen['no_effect'] += 1
        elif r['verdict'] == 'violation' and key == 'sanitizer':
            pass
        else:
            # the core ran into something the corrupted value caused before a
            # wrong instruction committed
            seen['inconclusive'] += 1
            r['verdict'] = 'skip'

    if len(c.violations) < 2:
        flips = mix_cases('P10f', bins[1], [('mem', 60 * k), ('vm', 60 * k), ('flow', 30 * k),
                                            ('atomic', 30 * k)], buses=['fast', 'jitter'])
        for i, x in enumerate(flips):
            s = seed_of('P10', 'flip', i)
            x['vp'].update(lenient=1, nowb=1, hang=6000, flip=1 + s % 400, flipbit=(s >> 20) % 512)
            x['sim'] = bins[i % 2]
            x['prof'] = {'budget': 300}
        c.guests(flips, judge=judge, nontrivial=lambda m: m.get('status') == 'diverged')
        c.cov['corrupted_reads'] = seen
        c.cov['first_difference'] = kinds
        c.need('stopped_at_divergence', seen['stopped_at_divergence'], 20 * k)
    return c.finish('(1) random guests with devices and interrupts compared by the simulator\'s own '
                    'checker; at random commits a forked copy is given a reference that differs in '
                    'one bit of one item and has to stop with a failing status before the next '
                    'commit, or go on when only device-dependent bits differ; (2) one bit of one '
                    'bus read is corrupted and the first wrong commit has to end the run; '
                    'non-trivial = over 50 faults tried, or a divergence occurred; distinct by hash '
                    'of the commit stream')

"""The same programs in other build profiles and parameter settings."""
import build
from build import sim, shadow, BuildError
from harness import *

CONF = 'include/config.h'
FRONT = 'front-end/config/frontend_feature_config.h'


def k(name, value):
    return (CONF, r'^(constexpr (?:int|uint32_t|IssueSchedulePolicy) %s =\s*)[^;]*;' % name,
            r'\g<1>%s;' % value)


def off(name, f=CONF):
    return (f, r'^[ \t]*#define %s[ \t]*$' % name, '')


def ks(**kw):
    return [k(a, b) for a, b in kw.items()]


PLAIN = ['user', 'alu', 'fp', 'mem', 'calls', 'atomic']
ALL = ['user', 'press', 'alu', 'fp', 'mem', 'evict', 'atomic', 'flow', 'smc', 'trap', 'irq', 'vm',
       'vmirq', 'dev', 'busdev', 'smcvm', 'atomicvm', 'mix']
NO_FLUSH_NO_PAGES = ['user', 'alu', 'fp', 'mem', 'evict', 'atomic', 'calls', 'irq', 'dev',
                     'busdev']

# name: (profile, edits of the headers, compiler macros, programs)
# Values stay inside the ranges doc/config_parameters.md names.
SETTINGS = {
    'default': ('default', [], [], ALL),
    'medium': ('medium', [], [], ALL),
    'large': ('large', [], [], ALL),
    'deep': (None, ks(ROB_NUM=256, PRF_NUM=256, MAX_BR_NUM=64, STQ_SIZE=128, LDQ_SIZE=128,
                      FTQ_SIZE=64, DCACHE_MSHR_ENTRIES=16, DCACHE_WB_ENTRIES=16,
                      ITLB_ENTRIES=64, DTLB_ENTRIES=64, MUL_MAX_LATENCY=5,
                      DIV_MAX_LATENCY=32), [], ALL),
    'tight': (None, ks(MAX_BR_NUM=4, MAX_BR_PER_CYCLE=1, FTQ_SIZE=4, IDU_INST_BUFFER_SIZE=8,
                       DCACHE_MSHR_ENTRIES=1, DCACHE_WB_ENTRIES=1, ITLB_ENTRIES=8,
                       DTLB_ENTRIES=8, MUL_MAX_LATENCY=1, DIV_MAX_LATENCY=10,
                       DCACHE_WAYS_NUM=1, ICACHE_WAY_NUM=1), [], ALL),
    'narrow': (None, ks(DECODE_WIDTH=1, LSU_LOAD_WINDOW_WIDTH='LSU_LDU_COUNT',
                        LSU_STORE_WINDOW_WIDTH='LSU_STA_COUNT',
                        ISSUE_SCHEDULE_POLICY='IssueSchedulePolicy::ROB_OLDEST_FIRST'), [], ALL),
    'wide': (None, ks(FETCH_WIDTH=8, DECODE_WIDTH=4, MUL_MAX_LATENCY=3), [], ALL),
    'geometry': (None, ks(DCACHE_SETS_NUM=16, DCACHE_WAYS_NUM=2, DCACHE_BANK_NUM=4,
                          DCACHE_MSHR_ENTRIES=2, DCACHE_WB_ENTRIES=2, ICACHE_WAY_NUM=2), [],
                 ALL),
    'lines': (None, ks(DCACHE_LINE_SIZE=32, DCACHE_BANK_NUM=8, ICACHE_LINE_SIZE=32,
                       DCACHE_WAYS_NUM=8), [], ALL),
    'waits': (None, ks(LSU_WAIT_MSHR_FILL=0, LSU_PEPLAY_WAIT_CYCLES=9, STQ_SIZE=64,
                       LDQ_SIZE=32), [], ALL),
    'queues': (None, [(CONF, r'\{(IQ_\w+), \d+, DECODE', r'{\1, 8, DECODE')] +
               ks(PRF_NUM=128, ROB_NUM=128), [], ALL),
    'bus_fast': (None, [], ['-DCONFIG_AXI_SUBSYSTEM_FREQ_DIV=1u', '-DCONFIG_AXI_LLC_ENABLE=0'],
                 ALL),
    'bus_third': (None, [], ['-DCONFIG_AXI_SUBSYSTEM_FREQ_DIV=3u',
                             '-DCONFIG_AXI_LLC_DCACHE_READ_MISS_NOALLOC=1'], ALL),
    'fetch_local': (None, [], ['-DCONFIG_ICACHE_USE_AXI_MEM_PORT=0'], ALL),
    'sram': (None, [], ['-DSRAM_DELAY_ENABLE', '-DSRAM_DELAY_MIN=1', '-DSRAM_DELAY_MAX=3'], ALL),
    'front_small': (None, [], ['-DFRONTEND_DISABLE_2AHEAD', '-DRAS_DEPTH=2',
                               '-DINSTRUCTION_FIFO_SIZE=4', '-DPTAB_SIZE=4',
                               '-DFETCH_ADDR_FIFO_SIZE=4', '-DFRONT2BACK_FIFO_SIZE=4',
                               '-DENABLE_TAGE_SC_LITE=0', '-DENABLE_TAGE_USE_ALT_ON_NA=0'], ALL),
    'front_other': (None, [], ['-DBPU_BANK_NUM=16', '-DQ_DEPTH=16',
                               '-DENABLE_2AHEAD_SLOT1_PRED=0',
                               '-DENABLE_INDIRECT_BTB_FALLBACK=0', '-DENABLE_INDIRECT_BTB_TRAIN=0',
                               '-DENABLE_TC_TARGET_SIGNATURE=0', '-DENABLE_BTB_ALIAS_HASH=0'],
                    ALL),
    'front_plain': (None, [off('ENABLE_BPU_RAS', FRONT), off('SPECULATIVE_ON', FRONT)], [], ALL),
    'features': (None, [off('CONFIG_TLB_MMU'), off('CONFIG_PERF_COUNTER')], [], ALL),
    # for programs that never make the front end throw instructions away
    'no_predictor': (None, [off('CONFIG_BPU')], [], PLAIN),
    'ideal_fetch': (None, [], ['-DFRONTEND_ICACHE_MODE=1'], NO_FLUSH_NO_PAGES),
    'short_data_line': (None, ks(DCACHE_LINE_SIZE=32, DCACHE_BANK_NUM=8), [],
                        NO_FLUSH_NO_PAGES),
}
# Programs that two settings are known to get wrong: setting, class, seed.
PROBES = [('ideal_fetch', 'smc', 1), ('ideal_fetch', 'vm', 1), ('short_data_line', 'smc', 1)]


def builds():
    out, left = {}, {}
    cc, flags = build.VARIANTS['dbg']
    for n, (prof, edits, defs, _) in SETTINGS.items():
        try:
            out[n] = sim(cc=cc, flags=flags + defs, name='cfg_' + n,
                         root=shadow('cfg_' + n, prof, edits))
        except BuildError as e:
            # whether a setting builds at all is not this property
            left[n] = ' '.join(str(e).split())[-200:]
    return out, left


def cases_of(n, exe, per, profs):
    """Every program class in turn; three modes of starting the core."""
    r = random.Random(seed_of('P17', n))
    plan = {}
    ps = profs[:]
    while sum(plan.values()) < per:
        r.shuffle(ps)
        for p in ps[:per - sum(plan.values())]:
            plan[p] = plan.get(p, 0) + 1
    out = mix_cases('P17' + n, exe, [
        (p, q, FULL_WB) if p == 'evict' and not n.startswith('bus') else (p, q)
        for p, q in sorted(plan.items())])
    for x in out:
        x['prof']['budget'] = min(x['prof']['budget'], 1200)
        x['name'] = '%s-%s' % (n, x['name'])
        x['setting'] = n
        if n.startswith('bus'):
            # the bus options are in bus cycles, the watchdog is in core cycles
            x['vp']['hang'] = 300000
    if n != 'no_predictor':
        for x in r.sample(out, max(1, per // 8)):
            if x['profile'] in PLAIN + ['flow']:
                x['args'] = ['-m', 'fast', '-f', str(r.randrange(1, 400))]
    return out


def main():
    c = Check('P17')
    base = sim('dbg')
    exes, left = builds()
    per = 160 if THOROUGH else 20
    cases = []
    for n, exe in exes.items():
        cases += cases_of(n, exe, per, SETTINGS[n][3])
    random.Random(seed_of('P17', 'order')).shuffle(cases)
    for n, prof, s in PROBES:
        if n in exes:
            cases.append(Case(name='%s-probe-%s' % (n, prof), profile=prof, gseed=s,
                              vp=bus_opts('fast', 1), sim=exes[n], prof={'budget': 600},
                              setting=n))
    seen = {}
    everywhere = []

    def judge(r):
        s = seen.setdefault(r['setting'], {'programs': 0, 'commits': 0, 'cycles': 0, 'fast': 0})
        m = r['mon']
        if r['verdict'] == 'ok':
            s['programs'] += 1
            s['commits'] += m.get('commits', 0)
            s['cycles'] += m.get('sim_time', 0)
            s['fast'] += 'args' in r
        elif r['verdict'] == 'violation':
            # wrong in every setting alike: not a matter of the setting
            others = [('committed', base)] + [(x, exes[x]) for x in exes
                                              if x != r['setting'] and
                                              r['profile'] in SETTINGS[x][3]][:3]
            for x, exe in others:
                o = Case({q: r[q] for q in ('profile', 'gseed', 'vp', 'prof', 'dir')})
                if 'args' in r:
                    o['args'] = r['args']
                o.update(name=r['name'] + '-on-' + x, sim=exe)
                if run_case(o)['verdict'] != 'violation':
                    r['detail'] = 'right in setting %s, in setting %s: %s' % (
                        x, r['setting'], r['detail'])
                    return
            everywhere.append(r['name'])
            r['verdict'] = 'skip'

    c.guests(cases, judge=judge, nontrivial=lambda m: m.get('commits', 0) > 200)
    c.cov['settings'] = seen
    c.cov['not_built'] = left
    c.cov['wrong_in_every_setting'] = len(everywhere)
    c.need('settings', len(seen), 12)
    c.need('commits', sum(s['commits'] for s in seen.values()), 100000)
    return c.finish(
        'programs of every class in build profiles and documented parameter settings other '
        'than the committed one, under random bus timing, from reset and after fast-forward; '
        'every commit is compared with the sequential model, exit code and console with the '
        'program; a program that is wrong in one setting and right in another is a violation; '
        'non-trivial = over 200 commits')

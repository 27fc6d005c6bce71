"""The numbers of the final report against what the monitors counted."""
from build import sim, shadow, mkckpt, BuildError
from harness import *
import endings

# evaluates the instruction cache once per cycle; wrapped by monitor/stat/fetch.cpp
WRAP = ['-Wl,--wrap=_Z16icache_comb_calcP9icache_inP10icache_out']


def builds():
    out = {'small': sim('dbg', name='stat', resource='stat', ld=WRAP),
           'shipped': sim('rel', name='stat_rel', resource='stat', ld=WRAP)}
    try:
        out['medium'] = sim('dbg', name='stat_medium', resource='stat', ld=WRAP,
                            root=shadow('stat_medium', 'medium'))
    except BuildError:
        # whether a profile builds at all is not this property
        pass
    return out


NUM = r'(-?\d+)'
VAL = r'(-?(?:\d+\.\d+|nan|inf))'
HEAD = re.compile(r'sim-time\(cycle\)= %s, committed\(total/load/store\)= %s / %s / %s' %
                  ((NUM,) * 4))


class Report:
    """One printed report."""

    def __init__(self, text):
        self.t = text
        h = HEAD.search(text)
        self.head = [int(x) for x in h.groups()]
        b = text.find('*BPU COUNTER*')
        e = text.find('\n****', b)
        self.bpu = text[b:e] if b >= 0 else ''

    def n(self, label, text=None):
        m = re.search(r'(?m)^%s\s*:\s*%s\b' % (label, NUM), self.t if text is None else text)
        return int(m.group(1)) if m else None

    def v(self, label, text=None):
        m = re.search(r'(?m)^%s\s*:\s*%s' % (label, VAL), self.t if text is None else text)
        return float(m.group(1)) if m else None

    def branch(self, kind):
        """(accuracy, num, mispred, addr error, dir error) of one branch kind"""
        m = re.search(r'(?m)^%s\s+accuracy\s*:\s*%s\s+num\s*:\s*%s\s+mispred\s*:\s*%s\s+'
                      r'addr error\s*:\s*%s\s+dir\s+error\s*:\s*%s' %
                      (kind, VAL, NUM, NUM, NUM, NUM), self.bpu)
        return [float(m.group(1))] + [int(x) for x in m.groups()[1:]] if m else None


def reports(text):
    text = re.sub(r'\x1b\[[0-9;]*m', '', text).replace('\r', '')
    at = [m.start() for m in HEAD.finditer(text)]
    return [Report(text[a:b]) for a, b in zip(at, at[1:] + [len(text)])]


class Judge:
    def __init__(self):
        self.compared = {}
        self.missing = {}

    def look(self, r):
        """Returns (key, detail) of the first disagreement, or None."""
        m = r['mon']
        s = m.get('stat')
        reps = reports(r.get('text', ''))
        if not reps:
            return 'no_report', 'the run printed no report'
        for x in reps[1:]:
            if x.head != reps[0].head:
                return 'report', 'two reports differ: %s and %s' % (reps[0].head, x.head)
        p = reps[-1]
        bad = []

        def note(what):
            self.compared[what] = self.compared.get(what, 0) + 1

        def between(what, got, lo, hi):
            if got is None:
                self.missing[what] = self.missing.get(what, 0) + 1
                return
            note(what)
            if not lo <= got <= hi:
                bad.append((what.replace(' ', '_'), '%s is %s, counted %s%s' % (
                    what, got, lo, '' if lo == hi else '..%s' % hi)))

        def ratio(what, got, num, den, whole=None, digits=6, slack=1.0):
            """got = num/den, or 1 - num/den"""
            if got is None or num is None or den is None:
                self.missing[what] = self.missing.get(what, 0) + 1
                return
            note('ratio ' + what)
            if den == 0:
                return  # nothing to relate
            want = num / den if whole is None else whole - num / den
            if not abs(got - want) <= slack * 10 ** -digits * max(1, abs(want)):
                bad.append(('ratio_' + what.replace(' ', '_'),
                            '%s is %s, the counts give %.7f' % (what, got, want)))
        warm = r.get('warm', 0)
        # the counters start again in the middle of a cycle
        w = m.get('w_commit_width', 8) if warm else 0
        cyc, tot, ld, st = p.head
        between('cycles', cyc, s['cycles'] - (1 if warm else 0), s['cycles'] + (1 if warm else 0))
        between('instructions', tot, s['done'] - s['trapped'], s['done'])
        between('loads', ld, s['ld'], s['ld'] + s['trap_ld'])
        between('stores', st, s['st'], s['st'] + s['trap_st'])
        between('instruction line', p.n('instruction num'), tot, tot)
        between('cycle line', p.n('cycle       num'), cyc, cyc)
        ratio('ipc', p.v('ipc'), tot, cyc)
        if r.get('limit') is not None:
            lim = r['limit']
            between('limit', tot, lim, lim + m.get('w_commit_width', 8) - 1)
        # branches
        br, jr, rt = p.branch('br'), p.branch('jalr'), p.branch('ret')
        for what, x, n, mis in (('conditional branches', br, 'br', 'mis_br'),
                                ('indirect jumps', jr, 'jalr', 'mis_jalr'),
                                ('returns', rt, 'ret', 'mis_ret')):
            if x is None:
                self.missing[what] = self.missing.get(what, 0) + 1
                continue
            between(what, x[1], s[n] - w, s[n] + w)
            if 'w_redirects' in m:
                between('mispredicted ' + what, x[2], s[mis] - w, s[mis] + w)
            between('mispredicted %s by kind' % what, x[3] + x[4], x[2], x[2])
            ratio(what + ' accuracy', x[0], x[2], x[1], 1)
        if br and jr and rt:
            ratio('branch accuracy', p.v('bpu   accuracy', p.bpu), br[2] + jr[2] + rt[2],
                  br[1] + jr[1] + rt[1], 1)
        # data cache
        acc, miss = p.n('dcache access'), p.n('dcache miss')
        first, every, again = p.n('L1D_REQ_INITIAL'), p.n('L1D_REQ_ALL'), p.n('L1D_REQ_REPLAY')
        if acc is not None and first is not None:
            between('data accesses', acc, first, first)
        if None not in (first, every, again):
            between('data requests', every, first + again, first + again)
        if 'w_requests' in m and not warm:
            between('data requests on the wires', every, m['w_requests'], m['w_requests'])
            # an entry handed out again in the same cycle looks like a repetition
            f = m['w_first_requests']
            between('first data requests on the wires', first, f, int(f * 1.002) + 8)
        # each miss is one line read; those of the page walker come on top
        # (a program with tables can cause walks on a wrong path alone)
        prof = guestgen.PROFILES.get(r['name'].split('-')[0], {})
        if m.get('paged', 0) == 0 and not prof.get('paging') and not r.get('tables'):
            between('data misses', miss, s['rd_d'] - (16 if warm else 0), s['rd_d'] + 16)
            if not warm:
                between('data misses', miss, max(0, s['data_lines'] - 200), 1 << 60)
        else:
            between('data misses (paged)', miss, 0, s['rd_d'] + 16)
        ratio('data hit rate', p.v('L1D Hit Rate'), miss, first, 1)
        ratio('data misses per 1000', p.v('L1D MPKI'), 1000 * miss if miss is not None else None,
              tot)
        pen = p.v('Avg Miss Penalty')
        if None not in (pen, miss, first) and first:
            ratio('data access time', p.v(r'L1D AMAT\(cycles\)'), 1e6 * (1 + miss / first * pen),
                  1e6, digits=5)
        # instruction cache
        ia, ih, im = p.n('L1I access'), p.n('L1I hit'), p.n('L1I miss')
        if 'w_fetches' in m and not warm:
            between('fetches', ia, m['w_fetches'], m['w_fetches'])
        if ia is not None and im is not None:
            between('fetch hits', ih, ia - im, ia - im)
        if not warm:
            # a redirect can withdraw a line request before the bus takes it
            turns = m.get('w_redirects', 1 << 40) + sum(
                m.get(k, 0) for k in ('traps', 'interrupts', 'mret', 'sret', 'csr', 'fencei',
                                      'sfence', 'fence', 'amo', 'lr', 'sc_ok', 'sc_fail'))
            between('fetch misses', im, s['rd_i'], s['rd_i'] + turns + 4)
            between('fetch misses', im, 1, 1 << 60)
        ratio('fetch hit rate', p.v('L1I accuracy'), im, ia, 1)
        return bad[0] if bad else None


def cases_of(c, exes, mk, k):
    r = random.Random(seed_of('P19', 'plan'))
    out = []
    names = list(exes)

    def exe(i):
        return exes[names[i % len(names)]]

    plan = [('user', 6), ('press', 8), ('flow', 8), ('mem', 6), ('atomic', 6), ('smc', 5),
            ('trap', 9), ('irq', 14), ('vm', 6), ('vmirq', 10), ('dev', 8), ('mix', 12),
            ('fp', 3), ('alu', 3), ('evict', 4), ('busdev', 4)]
    cs = mix_cases('P19', None, [(p, n * k) for p, n in plan], keep_text=True, kind='whole')
    for i, x in enumerate(cs):
        x['sim'] = exe(i)
    out += cs
    # limits
    for i in range(24 * k):
        prof = r.choice(['user', 'flow', 'mem', 'irq', 'mix', 'trap'])
        tables = bool(guestgen.PROFILES[prof].get('paging'))
        s = seed_of('P19', 'limit', i)
        data, info = guestgen.gen(s, dict(guestgen.PROFILES[prof], budget=600))
        img = os.path.join(c.dir, 'limit-%d.bin' % i)
        with open(img, 'wb') as f:
            f.write(data)
        n = r.choice([1, 2, 3, 7, 64, r.randrange(1, 2200), r.randrange(1, 2200)])
        out.append(Case(name='limit-%s-%d' % (prof, i), image=img, exit=0, args=['-c', str(n)],
                        sim=exe(i), vp=bus_opts(r.choice(BUSES), s), limit=n, kind='limit', tables=tables,
                        keep_text=True, temp=img))
    # checkpoints: the report starts when the warm-up is over
    for i in range(20 * k):
        prof = r.choice(['user', 'flow', 'mem', 'alu', 'fp'])
        s = seed_of('P19', 'ckpt', i)
        data, info = guestgen.gen(s, dict(guestgen.PROFILES[prof], budget=600))
        img = os.path.join(c.dir, 'ckpt-%d.bin' % i)
        with open(img, 'wb') as f:
            f.write(data)
        iv = r.randrange(1, 700)
        warm = r.choice([0, iv, r.randrange(iv + 1)])
        n = r.choice([1, 2, 5, r.randrange(1, 600), r.randrange(1, 600)])
        ck = img[:-4] + '.gz'
        at = r.randrange(1, 900)
        subprocess.run([mk, 'write', img, str(at), str(iv), ck], check=True)
        vp = dict(bus_opts(r.choice(BUSES), s), ckpt=1, ckpt_img=img, ckpt_n=at, warm=warm)
        out.append(Case(name='ckpt-%s-%d' % (prof, i), image=ck, exit=0, sim=exe(i), vp=vp,
                        args=['-m', 'ckpt', '-w', str(warm), '-c', str(n)], limit=n, warm=warm,
                        kind='checkpoint', keep_text=True, split=True, temp=img))
    # other ends: interrupted, WFI, after a fast start
    for i in range(18 * k):
        s = seed_of('P19', 'end', i)
        img = os.path.join(c.dir, 'end-%d.bin' % i)
        kind = ('sigint', 'wfi', 'fast')[i % 3]
        vp = bus_opts(r.choice(BUSES), s)
        args, want = [], 0
        if kind == 'wfi':
            data = endings.ending(s, 'wfi', 0)
        else:
            data, info = guestgen.gen(s, dict(guestgen.PROFILES[r.choice(['user', 'flow', 'irq'])],
                                              budget=600))
            if kind == 'sigint':
                vp['max_cycles'] = r.randrange(100, 2000)
                want = 130
            else:
                args, want = ['-m', 'fast', '-f', str(r.randrange(1, 900))], info['exit']
        with open(img, 'wb') as f:
            f.write(data)
        out.append(Case(name='%s-%d' % (kind, i), image=img, exit=want, args=args, sim=exe(i),
                        vp=vp, kind=kind, keep_text=True, temp=img, split=True))
    return out


def main():
    exes = builds()
    mk = mkckpt()
    c = Check('P19')
    j = Judge()
    k = 8 if THOROUGH else 1
    kinds = {}
    parts = {}
    seen = {'interrupted_instructions': 0, 'trapped_instructions': 0, 'redirects': 0,
            'redirecting_instructions_replaced': 0}

    def judge(r):
        m = r['mon']
        if r['verdict'] == 'violation' and r['key'] in ('assert', 'crash', 'hang', 'sanitizer'):
            return
        if r['verdict'] == 'violation' and r['key'] != 'exit_status':
            # wrong results are for other properties
            r['verdict'] = 'skip'
            return
        if r['verdict'] not in ('ok', 'violation') or 'stat' not in m:
            return
        if r['verdict'] == 'violation':
            r['verdict'] = 'skip'
            return
        kinds[r['kind']] = kinds.get(r['kind'], 0) + 1
        for a, b in (('redirects', 'w_redirects'), ('data requests', 'w_requests'),
                     ('fetches', 'w_fetches')):
            parts[a] = parts.get(a, 0) + (b in m)
        seen['interrupted_instructions'] += m.get('interrupts', 0)
        seen['trapped_instructions'] += m['stat']['trapped']
        seen['redirects'] += m.get('w_redirects', 0)
        seen['redirecting_instructions_replaced'] += m.get('w_redirects_replaced', 0)
        bad = j.look(r)
        if bad:
            r['verdict'], r['key'], r['detail'] = 'violation', bad[0], '%s (%s)' % (
                bad[1], r['kind'])
            with open(os.path.join(r['dir'], r['name'] + '.log'), 'w') as f:
                f.write(r['text'])

    rs = c.guests(cases_of(c, exes, mk, k), judge=judge,
                  nontrivial=lambda m: m.get('commits', 0) > 20)
    for r in rs:
        if r['verdict'] == 'ok' and r.get('temp'):
            for x in (r['temp'], r['temp'][:-4] + '.gz'):
                if os.path.exists(x):
                    os.unlink(x)
    c.cov['reports_by_kind'] = kinds
    c.cov['numbers_compared'] = j.compared
    c.cov['numbers_not_printed'] = j.missing
    c.cov['wire_monitors'] = sorted(p for p in parts if parts[p])
    c.cov['builds'] = sorted(exes)
    for a, b in seen.items():
        c.cov[a] = b
    c.need('reports', sum(kinds.values()), 100)
    for x in ('limit', 'checkpoint', 'whole'):
        c.need('reports_' + x, kinds.get(x, 0), 10)
    for x in ('cycles', 'instructions', 'loads', 'stores', 'conditional branches',
              'indirect jumps', 'returns', 'data accesses', 'data misses', 'fetch misses',
              'ratio ipc', 'ratio data hit rate', 'ratio fetch hit rate',
              'ratio branch accuracy', 'limit'):
        c.need(x, j.compared.get(x, 0), 20)
    c.need('interrupted_instructions', seen['interrupted_instructions'], 100)
    return c.finish(
        'programs, limits, checkpoints with warm-up, interrupted runs and other '
        'ends in three builds; every number of the printed report is compared '
        'with what the sequential model committed, the cycles and bus line reads '
        'counted outside the simulator, and the redirects and cache requests '
        'seen on the wires; ratios are recomputed from the printed counts; '
        'non-trivial = over 20 commits')

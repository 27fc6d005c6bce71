from build import sim, tool, mkckpt, shadow, REPO
from harness import *
import hostile

ASAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS',
        '-D_GLIBCXX_SANITIZE_VECTOR=1', '-fsanitize=address,undefined,float-cast-overflow',
        '-fsanitize=bounds-strict', '-fno-sanitize-recover=all']
MSAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=memory',
        '-fsanitize-recover=memory', '-DNDEBUG']
HARD = {'SIGSEGV': (139, -11), 'SIGBUS': (135, -7), 'SIGFPE': (136, -8), 'SIGILL': (132, -4)}
PROFS = ['user', 'press', 'alu', 'fp', 'mem', 'atomic', 'flow', 'smc', 'trap', 'irq', 'vm',
         'vmirq', 'dev', 'mix', 'evict', 'busdev', 'smcvm', 'atomicvm']


def asan():
    return sim(cc='g++', flags=ASAN, name='asan')


def asan_other():
    return sim(cc='g++', flags=ASAN, name='asan_medium', root=shadow('medium', 'medium'))


def msan():
    return sim(cc='clang++', flags=MSAN, name='msan', ld=['-Wl,--wrap=gzread'],
               extra=[VERIF + '/monitor/msan_gz.cpp'])


def plain():
    return sim(cc='g++', flags=['-O1', '-g1', '-DNDEBUG'], name='vg')


def wild(kind):
    srcs = [VERIF + '/tools/refwild.cpp', REPO + '/diff/ref.cpp']
    if kind == 'asan':
        return tool('refwild', srcs, ASAN, libs=[REPO + '/libs/softfloat.a'])
    return tool('refwild_m', srcs, MSAN, cc='clang++', libs=[REPO + '/libs/softfloat.a'])


def judge(r):
    """Only undefined behaviour counts here; a run that stops by its own
    decision (unsupported access, wrong result, limit) does not."""
    if r['verdict'] == 'timeout':
        return
    if r['key'] == 'sanitizer':
        return
    t = r['text']
    hard = [n for n, v in HARD.items() if r['rc'] in v and r['rc'] != r['want']]
    if r['rc'] in (134, -6) and re.search(r"/c\+\+/.*Assertion '", t):
        l = [x for x in t.splitlines() if "Assertion '" in x][0]
        r.update(verdict='violation', key='library_bounds', detail=l[:300])
    elif hard:
        r.update(verdict='violation', key='crash', detail='%s %s' % (hard[0], t[-300:]))
    elif r.get('valgrind') and r['rc'] == 86:
        l = [x for x in t.splitlines() if x.startswith('==')]
        r.update(verdict='violation', key='memcheck', detail=' | '.join(l[:6])[:400])
    elif not r['mon'] and r.get('judged', True):
        r.update(verdict='skip')
    else:
        r.update(verdict='ok', key='', detail='')


def hostile_case(job):
    d, kind, i, tag, exe, how = job
    s = seed_of('P15', tag, kind, i)
    r = random.Random(s)
    name = '%s-%s-%d' % (tag, kind, i)
    img = os.path.join(d, name + '.bin')
    with open(img, 'wb') as f:
        f.write(hostile.hostile(s, kind))
    vp = bus_opts(r.choice(BUSES), s)
    vp.update(free=1, mark=1, hang=100000000, max_cycles=r.choice([2000, 3000, 5000]))
    args = ['--no-diff', '-c', str(r.choice([1, 700, 6000, 6000]))]
    if r.random() < 0.15:
        args += ['-m', 'fast', '-f', str(r.choice([1, 3, 50, 400]))]
    return Case(name=name, image=img, args=args, vp=vp, sim=exe, dir=d, keep_text=True,
                kind=tag + '_hostile', **how)


def contract(tag, exe, n, profs=PROFS, budget=300, **how):
    out = []
    for p in profs:
        for i in range(n):
            s = seed_of('P15', tag, p, i)
            vp = bus_opts(BUSES[(i + s) % len(BUSES)], s)
            vp['mark'] = 1
            out.append(Case(name='%s-%s-%d' % (tag, p, i), profile=p, gseed=s, vp=vp, sim=exe,
                            prof={'budget': budget}, keep_text=True, kind=tag + '_program',
                            **how))
    return out


def loads(c, mk, exe, vg, k):
    """Loading, command line and hand-over, under ASan and under memcheck."""
    d = c.dir
    r = random.Random(seed_of('P15', 'loads'))
    out = []

    def put(name, data):
        p = os.path.join(d, name)
        with open(p, 'wb') as f:
            f.write(data)
        return p
    prof = dict(guestgen.PROFILES['mix'], budget=300)
    data, info = guestgen.gen(seed_of('P15', 'loads'), prof)
    img = put('load.bin', data)
    ck = os.path.join(d, 'load.gz')
    subprocess.run([mk, 'write', img, '200', '60', ck], check=True)
    raw = open(ck, 'rb').read()

    def damaged(j):
        b = bytearray(raw)
        for _ in range(r.choice([1, 1, 3, 20])):
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        if r.random() < 0.4:
            b = b[:r.randrange(1, len(b))]
        return put('dam%d.gz' % j, bytes(b))
    sets = [(['-m', 'ckpt', '-w', w, '-c', '40'], ck) for w in ('0', '10', '60', '61')]
    sets += [(['-m', 'ckpt', '-c', '30'], damaged(j)) for j in range(14 * k)]
    sets += [(['-m', 'fast', '-f', f, '-c', '50'], img) for f in ('1', '150', '100000')]
    sets += [(['-m', 'ref', '-c', '400'], img), (['-m', 'ref'], img)]
    for n in (1, 2, 3, 4, 5, 4095, 4097, 65537):
        sets.append((['-c', '20', '--no-diff'], put('size%d.bin' % n, data[:n])))
    sets.append((['-c', '5'], put('empty.bin', b'')))
    sets += [(a, img) for a in (
        ['-h'], ['--help'], ['-c'], ['-c', ''], ['-c', '0'], ['-c', '-1'], ['-c', 'x' * 5000],
        ['-f'], ['-w', '18446744073709551615'], ['-m'], ['-m', ''], ['-m', 'x' * 5000],
        ['--frob'], ['-z'], ['-c', '9' * 400], ['--', '-c'], ['--no-diff', '-c', '1'])]
    sets += [([], ''), (['-c', '5'], d), (['-c', '5'], '/dev/null'), (['-c', '5'], 'a' * 300),
             (['-m', 'ckpt', '-c', '5'], img), (['-m', 'ckpt'], d), (['-m', 'fast', '-f', '3'], ck)]
    for j, (a, f) in enumerate(sets):
        # a second file to run keeps these independent of the harness' naming
        out.append(Case(name='load-%d' % j, image=f, args=a, sim=exe, kind='asan_command_line',
                        vp={'free': 1, 'lenient': 1, 'max_cycles': 3000, 'hang': 100000000},
                        keep_text=True, judged=False))
    for j, (a, f) in enumerate(sets[i] for i in (0, 1, 4, 5, 6, 18, 20, 23, 24, 32)):
        out.append(Case(name='vg-%d' % j, image=f, sim='/usr/bin/valgrind', valgrind=True,
                        args=['-q', '--error-exitcode=86', '--num-callers=8', vg] + a,
                        kind='memcheck_command_line', keep_text=True, judged=False,
                        vp={'free': 1, 'lenient': 1, 'max_cycles': 300, 'hang': 100000000},
                        timeout=200))
    return out


def wild_runs(c, exe, kind, n):
    """Arbitrary images on the repository's own reference model."""
    jobs = []
    for k in hostile.KINDS:
        for i in range(n):
            jobs.append((c.dir, exe, kind, k, i))
    with mp.Pool(8) as pool:
        for name, rc, bad, rep, cmd, files in pool.imap_unordered(wild_one, jobs, chunksize=2):
            c.evaluations += 1
            if rc in (124, 137):
                c.timeouts += 1
            elif bad:
                c.violation('sanitizer', '%s [%s]' % (bad, name), {'cmd': cmd, 'rc': rc}, files)
            else:
                c.totals['reference_steps_' + kind] = (
                    c.totals.get('reference_steps_' + kind, 0) + rep.get('steps', 0))
                if rep.get('steps', 0) > 1:
                    c.distinct.add(name + rep['hash'])


def wild_one(job):
    d, exe, kind, k, i = job
    name = 'ref-%s-%s-%d' % (kind, k, i)
    base = os.path.join(d, name)
    with open(base + '.bin', 'wb') as f:
        f.write(hostile.hostile(seed_of('P15', 'ref', kind, k, i), k))
    cmd = [exe, base + '.bin', '4000', base + '.json']
    e = dict(os.environ, MSAN_OPTIONS='exitcode=0:halt_on_error=0',
             UBSAN_OPTIONS='halt_on_error=1:exitcode=86:print_stacktrace=1',
             ASAN_OPTIONS='exitcode=86:detect_leaks=0')
    with open(base + '.log', 'wb') as f:
        rc = subprocess.run(['timeout', '-k', '5', '120'] + cmd, env=e, cwd=d, stdout=f,
                            stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL).returncode
    txt = open(base + '.log', 'rb').read(200000).decode('latin1')
    bad = ''
    if kind == 'msan':
        bad = ''.join(msan_reports(txt)[:1])
    elif SAN.search(txt):
        bad = [l for l in txt.splitlines() if SAN.search(l)][0][:300]
    for n, v in HARD.items():
        if rc in v:
            bad = bad or n
    try:
        rep = json.load(open(base + '.json'))
    except (OSError, ValueError):
        rep = {}
    if not bad:
        for x in ('.bin', '.json', '.log'):
            if os.path.exists(base + x):
                os.unlink(base + x)
    return name, rc, bad, rep, cmd, (base + '.bin', base + '.log')


def main():
    c = Check('P15')
    k = 8 if THOROUGH else 1
    mk = mkckpt()
    ea, em, eo, ev = asan(), msan(), asan_other(), plain()
    jobs = [(c.dir, kind, i, 'asan', ea, {}) for kind in hostile.KINDS for i in range(9 * k)]
    jobs += [(c.dir, kind, i, 'medium', eo, {}) for kind in hostile.KINDS for i in range(2 * k)]
    jobs += [(c.dir, kind, i, 'msan', em, {'msan': True}) for kind in hostile.KINDS
             for i in range(4 * k)]
    with mp.Pool(8) as pool:
        cases = pool.map(hostile_case, jobs, chunksize=4)
    cases += contract('asan', ea, 3 * k)
    cases += contract('medium', eo, k)
    cases += contract('msan', em, 2 * k, msan=True)
    cases += loads(c, mk, ea, ev, k)
    random.Random(seed_of('P15', 'order')).shuffle(cases)
    kinds, ends = {}, {}

    def done(r):
        if r['verdict'] == 'ok':
            kinds[r['kind']] = kinds.get(r['kind'], 0) + 1
            ends[r['rc']] = ends.get(r['rc'], 0) + 1
            c.totals['judged_cycles'] = c.totals.get('judged_cycles', 0) + r['mon'].get('sim_time', 0)
            for x in ([r['image_used']] if 'hostile' in r['kind'] else []) + \
                    [os.path.join(r['dir'], r['name'] + e) for e in ('.log', '.json')]:
                if os.path.exists(x):
                    os.unlink(x)

    c.guests(cases, judge=judge, on_result=done,
             nontrivial=lambda m: m.get('commits', 0) > 0 or not m)
    if len(c.violations) < 2:
        wild_runs(c, wild('asan'), 'asan', 12 * k)
    if len(c.violations) < 2:
        wild_runs(c, wild('msan'), 'msan', 6 * k)
    c.cov['runs'] = kinds
    c.cov['exit_statuses'] = ends
    for n, least in (('asan_hostile', 50), ('asan_program', 36), ('msan_hostile', 20),
                     ('msan_program', 24), ('medium_program', 12), ('asan_command_line', 40),
                     ('memcheck_command_line', 7)):
        c.need(n, kinds.get(n, 0), least * k if 'line' not in n else least)
    c.need('judged_cycles', c.totals.get('judged_cycles', 0), 200000 * k)
    c.need('reference_steps', c.totals.get('reference_steps_asan', 0), 50000 * k)
    return c.finish('programs inside and outside the contract (noise, mutated, wild pointers, wild '
                    'page tables, CSR writes, edges of memory), random bus timing, damaged '
                    'checkpoints and odd command lines on builds with AddressSanitizer, UBSan and '
                    'library bounds checks, with MemorySanitizer, and under memcheck; any report '
                    'in repository code fails; non-trivial = instructions were committed')

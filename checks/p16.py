from build import sim, mkckpt, fast_march
from harness import *
import hostile

NAMES = ['shipped', 'O0', 'O1_pattern_reversed', 'O2_zero', 'clang_O2']
PROFS = ['user', 'press', 'alu', 'fp', 'mem', 'atomic', 'flow', 'smc', 'trap', 'irq', 'vm',
         'vmirq', 'dev', 'mix', 'evict', 'busdev', 'smcvm', 'atomicvm']


def builds():
    """The same sources compiled so that indeterminate values, evaluation order
    and initialisation order of the files come out differently."""
    heap = [VERIF + '/monitor/heapfill.cpp']
    return {
        'shipped': sim('rel', name='det_rel', extra=heap),
        'O0': sim(cc='g++', flags=['-O0', '-DNDEBUG'], name='det_o0', extra=heap),
        'O1_pattern_reversed': sim(
            cc='g++', flags=['-O1', '-DNDEBUG', '-ftrivial-auto-var-init=pattern'],
            name='det_pat', extra=heap, reverse=True),
        'O2_zero': sim(cc='g++', flags=['-O2', '-DNDEBUG', '-ftrivial-auto-var-init=zero'],
                       name='det_zero', extra=heap),
        'clang_O2': sim(cc='clang++', flags=['-O2', '-DNDEBUG'] + fast_march(),
                        name='det_clang', extra=heap),
    }


def variants(exes, r, layout, big):
    """(name, executable, command prefix, environment)"""
    out = [('again', exes['shipped'], [], {})]
    out.append(('heap_%02x' % (p := r.randrange(1, 255)), exes['shipped'], [],
                {'VP_HEAP': str(p), 'MALLOC_ARENA_MAX': '1'}))
    out.append(('mmap_heap', exes['shipped'], [],
                {'MALLOC_MMAP_THRESHOLD_': '4096', 'MALLOC_TOP_PAD_': '1',
                 'VP_HEAP': str(r.randrange(1, 255))}))
    out.append(('environment', exes['shipped'], [],
                {'X' * 50: 'y' * r.randrange(1, 60000), 'LANG': 'de_DE.UTF-8', 'TZ': 'Asia/Tokyo',
                 'LC_NUMERIC': 'de_DE.UTF-8', 'COLUMNS': '3', 'HOME': '/nowhere',
                 'LD_BIND_NOW': '1'}))
    if big:
        # the system allocator fills too: touches all of guest memory
        out.append(('malloc_fill', exes['shipped'], [],
                    {'MALLOC_PERTURB_': str(r.randrange(1, 255))}))
    if layout:
        out.append(('fixed_layout', exes['shipped'], layout, {}))
    for n in NAMES[1:]:
        e = {}
        if r.random() < 0.7:
            e['VP_HEAP'] = str(r.randrange(1, 255))
        out.append((n, exes[n], layout if layout and r.random() < 0.3 else [], e))
    return out


def one(base, name, exe, args, img, vp, prefix, env, limit):
    out = base + '.json'
    if os.path.exists(out):
        os.unlink(out)
    e = dict(os.environ)
    e.update(env)
    e['VP'] = ','.join('%s=%s' % kv for kv in dict(vp, out=out).items())
    cmd = prefix + [exe] + args + [img]
    with open(base + '.log', 'wb') as f:
        rc = subprocess.run(['timeout', '-k', '5', str(limit)] + cmd, env=e, stdout=f,
                            stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                            cwd=os.path.dirname(base)).returncode
    txt = open(base + '.log', 'rb').read()
    try:
        mon = json.load(open(out))
    except (OSError, ValueError):
        mon = {}
    return rc, txt, mon, cmd, e['VP']


def differ(a, b):
    if a[0] != b[0]:
        return 'exit status %d and %d' % (a[0], b[0])
    for k in sorted(set(a[2]) | set(b[2])):
        if a[2].get(k) != b[2].get(k):
            return '%s is %s and %s' % (k, str(a[2].get(k))[:80], str(b[2].get(k))[:80])
    if a[1] != b[1]:
        x, y = a[1].splitlines(), b[1].splitlines()
        for p, q in zip(x, y):
            if p != q:
                return 'output line %r and %r' % (p[:150], q[:150])
        return 'output has %d and %d lines' % (len(x), len(y))
    return ''


def group(job):
    d, exes, kind, prof, i, mk, layout = job
    s = seed_of('P16', kind, prof, i)
    r = random.Random(s)
    name = '%s-%s-%d' % (kind, prof, i)
    base = os.path.join(d, name)
    img = base + '.bin'
    args, vp = [], bus_opts(r.choice(BUSES), s)
    if kind == 'hostile':
        data = hostile.hostile(s, prof)
        args = ['--no-diff', '-c', '4000']
        vp.update(free=1, hang=100000000, max_cycles=3000)
    else:
        data, info = guestgen.gen(s, dict(guestgen.PROFILES[prof],
                                          budget=r.choice([300, 300, 600, 1000])))
    with open(img, 'wb') as f:
        f.write(data)
    guest = img
    if kind == 'fast':
        args = ['-m', 'fast', '-f', str(r.randrange(1, 900))]
    elif kind == 'ckpt':
        img = base + '.gz'
        subprocess.run([mk, 'write', guest, str(r.randrange(50, 300)), '60', img], check=True)
        vp.update(ckpt=1)
        args = ['-m', 'ckpt', '-w', str(r.randrange(61)), '-c', str(r.randrange(20, 3000))]
    elif kind == 'limit':
        args = ['-c', str(r.randrange(1, 2500))]
    first = None
    res = {'name': name, 'runs': 0, 'kinds': {}, 'bad': None, 'timeout': 0}
    for v, exe, prefix, env in [('first', exes['shipped'], [], {})] + variants(exes, r, layout, kind in ('limit', 'fast') and prof == 'mix'):
        got = one(base + '.' + v, v, exe, args, img, vp, prefix, env, 150)
        if got[0] in (124, 137):
            got = one(base + '.' + v, v, exe, args, img, vp, prefix, env, 400)
        if got[0] in (124, 137):
            res['timeout'] += 1
            continue
        if first is None:
            if v != 'first':
                break
            first = got
            res['mon'] = got[2]
            res['rc'] = got[0]
            res['bytes'] = len(got[1])
        else:
            res['runs'] += 1
            w = 'heap' if v.startswith('heap') else v
            res['kinds'][w] = res['kinds'].get(w, 0) + 1
            bad = differ(first, got)
            if bad:
                res['bad'] = '%s: first run and run "%s" differ: %s' % (name, v, bad)
                res['cmd'] = [first[3], got[3]]
                res['VP'] = got[4]
                res['env'] = {k: x[:80] for k, x in env.items()}
                res['files'] = (img, guest, base + '.first.log', base + '.' + v + '.log',
                                base + '.first.json', base + '.' + v + '.json')
                return res
        if v != 'first':
            for x in ('.log', '.json'):
                if os.path.exists(base + '.' + v + x):
                    os.unlink(base + '.' + v + x)
    for x in {img, guest, base + '.first.log', base + '.first.json'}:
        if os.path.exists(x):
            os.unlink(x)
    return res


def main():
    c = Check('P16')
    k = 8 if THOROUGH else 1
    exes = builds()
    mk = mkckpt()
    layout = ['setarch', os.uname().machine, '-R']
    try:
        if subprocess.run(layout + ['true'], stderr=subprocess.DEVNULL).returncode:
            layout = []
    except OSError:
        layout = []
    jobs = []
    for p in PROFS:
        jobs += [('run', p, i) for i in range(2 * k)]
    for p in ('user', 'vm', 'dev', 'mix'):
        jobs += [('limit', p, i) for i in range(k)] + [('fast', p, i) for i in range(k)]
    for p in ('mem', 'vm', 'irq', 'mix'):
        jobs += [('ckpt', p, i) for i in range(k)]
    for p in hostile.KINDS:
        jobs += [('hostile', p, i) for i in range(k)]
    jobs = [(c.dir, exes) + j + (mk, layout) for j in jobs]
    random.Random(seed_of('P16', 'order')).shuffle(jobs)
    kinds = {}
    with mp.Pool(8) as pool:
        for r in pool.imap_unordered(group, jobs, chunksize=1):
            c.evaluations += r['runs']
            c.timeouts += r['timeout']
            for a, b in r['kinds'].items():
                kinds[a] = kinds.get(a, 0) + b
            m = r.get('mon') or {}
            c.add_counts({x: m[x] for x in ('commits', 'bus_reads', 'bus_writes', 'sim_time')
                          if x in m})
            c.totals['output_bytes_compared'] = (c.totals.get('output_bytes_compared', 0) +
                                                 r.get('bytes', 0) * r['runs'])
            if r['bad']:
                c.violation('differs', r['bad'], {'cmd': r['cmd'], 'VP': r['VP'],
                                                  'env': r['env']}, r['files'])
            elif r['runs']:
                if m.get('commits', 0) or m.get('sim_time', 0):
                    c.distinct.add(m.get('bus_hash', '') + m.get('commit_hash', '') + r['name'])
                c.sample({'program': r['name'], 'exit': r['rc'], 'runs_equal': r['runs'] + 1,
                          'cycles': m.get('sim_time'), 'bus_hash': m.get('bus_hash'),
                          'output_bytes': r['bytes']})
            if len(c.violations) >= 2:
                pool.terminate()
                break
    c.cov['compared_with'] = kinds
    for n in ['again', 'heap', 'mmap_heap', 'environment'] + NAMES[1:]:
        c.need('runs.' + n, kinds.get(n, 0), 40 * k)
    c.need('bus_reads', c.totals.get('bus_reads', 0), 2000 * k)
    if not layout:
        c.assumptions.append('address layout was varied only by the system, not pinned')
    return c.finish('each program is run once and again with other heap fill, heap placement, '
                    'environment, address layout, optimisation levels, compilers, fill of '
                    'uninitialised locals and link order; exit status, complete output with all '
                    'statistics, cycle count, every bus transfer with its cycle and the commit '
                    'stream have to be identical; evaluations = compared pairs; distinct by '
                    'program')

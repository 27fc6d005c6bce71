from build import sim, mkckpt
from harness import *
import endings

RAM = 1 << 30
CODES = [0, 1, 2, 3, 42, 77, 126, 127, 128, 129, 130, 134, 139, 143, 200, 254, 255, 256, 257,
         511, 0x80000000, 0xffffffff, 0x7fffffff, 0x100, 0xff00, 0xfffffffe]


def image_cases(c, exes, r):
    """Sizes and contents; the load monitor compares all of memory."""
    out = []
    d = c.dir
    end = endings.ending(1, 'ebreak', 5)

    def put(name, data, size=None, tail=b''):
        p = os.path.join(d, name + '.bin')
        with open(p, 'wb') as f:
            f.write(data)
            if size is not None:
                f.seek(size - len(tail))
                f.write(tail)
        return p

    def add(name, path, runs, i):
        args, want = (['-c', '3'], 0) if not runs else ([], runs & 255)
        out.append(Case(name='image-' + name, image=path, args=args, exit=want, sim=exes[i % 2],
                        vp={'load': path, 'hang': 100000}, kind='image', temp=path,
                        timeout=200))
    for i, n in enumerate((1, 2, 3, 4, 5, 6, 7, 8, 63, 64, 65, 4095, 4096, 4097)):
        add('%d' % n, put('image-%d' % n, r.randbytes(n)), 0, i)
    for i in range(8 if not THOROUGH else 40):
        code = r.choice(CODES)
        body = endings.ending(r.getrandbits(30), 'ebreak', code)
        n = r.choice([0, 1, 2, 3, 5, 4093, r.randrange(1 << 20), r.randrange(1 << 22)])
        add('tail%d' % i, put('image-tail%d' % i, body + r.randbytes(n)), code | 1 << 16, i)
    for i, n in enumerate((1 << 24, (1 << 28) + 3, RAM - 1, RAM)):
        add('big%d' % i, put('image-big%d' % i, end, n, r.randbytes(5)), 5, i)
    return out


def ending_cases(c, exes, mk, r, k):
    out = []
    d = c.dir
    for i in range(60 * k):
        kind = 'wfi' if i % 4 == 3 else 'ebreak'
        code = CODES[i // 4 % len(CODES)] if i % 3 else r.getrandbits(32)
        s = seed_of('P18', 'end', i)
        img = os.path.join(d, 'end-%d.bin' % i)
        with open(img, 'wb') as f:
            f.write(endings.ending(s, kind, code))
        vp = bus_opts(r.choice(BUSES), s)
        args = []
        mode = r.choice(['run', 'run', 'run', 'fast', 'ref', 'nodiff'])
        if mode == 'fast':
            args = ['-m', 'fast', '-f', str(r.choice([1, 5, 20, 100, 100000]))]
        elif mode == 'ref':
            args = ['-m', 'ref']
        elif mode == 'nodiff':
            args = ['--no-diff']
            vp.update(free=1, hang=100000000, max_cycles=60000)
        else:
            vp['load'] = img
        out.append(Case(name='end-%s-%s-%d' % (kind, mode, i), image=img, args=args,
                        exit=0 if kind == 'wfi' else code & 255, sim=exes[i % 2], vp=vp,
                        kind='%s_%s' % (kind, mode), temp=img, nodiff=mode == 'nodiff',
                        keep_text=True))
    for i in range(28 * k):
        # whole programs; several modes have to give the program's code
        prof = r.choice(['user', 'mem', 'trap', 'vm', 'fp', 'flow', 'atomic', 'mix'])
        code = r.choice(CODES)
        s = seed_of('P18', 'prog', i)
        data, info = guestgen.gen(s, dict(guestgen.PROFILES[prof], budget=300, exit=code))
        img = os.path.join(d, 'prog-%d.bin' % i)
        with open(img, 'wb') as f:
            f.write(data)
        vp = bus_opts(r.choice(BUSES), s)
        mode = ['run', 'fast', 'ref', 'ckpt'][i % 4]
        args, path = [], img
        if mode == 'run':
            vp['load'] = img
        elif mode == 'fast':
            args = ['-m', 'fast', '-f', str(r.randrange(1, 3000))]
        elif mode == 'ref':
            args = ['-m', 'ref']
        else:
            path = img[:-4] + '.gz'
            subprocess.run([mk, 'write', img, '300', '50', path], check=True)
            args = ['-m', 'ckpt', '-w', str(r.choice([0, 50])), '-c', '100000000']
            vp.update(ckpt=1, ckpt_img=img, ckpt_n=300)
        out.append(Case(name='prog-%s-%s-%d' % (prof, mode, i), image=path, args=args,
                        exit=code & 255, sim=exes[i % 2], vp=vp, kind='program_' + mode,
                        temp=img, split=True))
    return out


def limit_cases(c, exes, r, k):
    """Ends at a limit, also with other spellings of the same options."""
    out = []
    s = seed_of('P18', 'limit')
    data, info = guestgen.gen(s, dict(guestgen.PROFILES['user'], budget=1000, exit=9))
    img = os.path.join(c.dir, 'limit.bin')
    with open(img, 'wb') as f:
        f.write(data)
    for i in range(16 * k):
        n = r.choice([1, 2, 3, 4, 5, 17, r.randrange(1, 400), r.randrange(1, 400)])
        form = i % 8
        args = [['-c', str(n)], ['-c%d' % n], ['--max-commit', str(n)],
                ['--max-commit=%d' % n], ['-m', 'run', '-c', '00%d' % n],
                ['--mode=run', '-c', str(n)], ['-m', 'ref', '-c', str(n)],
                ['-c', '7', '-c', str(n), '--mode', 'ref']][form]
        out.append(Case(name='limit-%d-%d' % (i, n), image=img, args=args, exit=0,
                        sim=exes[i % 2], vp={'load': img}, kind='limit_ref' if form > 5 else
                        'limit_run', limit=n))
    return out


def refuse(job):
    d, i, name, args, path, exe = job
    base = os.path.join(d, 'refuse-%d' % i)
    e = dict(os.environ, VP='out=%s.json,lenient=1,free=1,max_cycles=3000' % base)
    if os.path.exists(base + '.json'):
        os.unlink(base + '.json')
    cmd = [exe] + args + ([path] if path is not None else [])
    with open(base + '.log', 'wb') as f:
        rc = subprocess.run(['timeout', '-k', '5', '120'] + cmd, env=e, cwd=d, stdout=f,
                            stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL).returncode
    txt = open(base + '.log', 'rb').read(100000).decode('latin1')
    try:
        m = json.load(open(base + '.json'))
    except (OSError, ValueError):
        m = {}
    ran = m.get('commits', 0) + m.get('prefix', 0) + m.get('sim_time', 0)
    return name, rc, ran, txt, cmd, base


def refusals(c, exes, r):
    d = c.dir
    good = os.path.join(d, 'good.bin')
    with open(good, 'wb') as f:
        f.write(endings.ending(3, 'ebreak', 0))
    jobs = []

    def no(name, args, path=good):
        for e in exes:
            jobs.append((d, len(jobs), name, args, path, e))
    # files
    no('missing', [], os.path.join(d, 'nowhere.bin'))
    no('missing-ref', ['-m', 'ref'], os.path.join(d, 'nowhere.bin'))
    no('missing-fast', ['-m', 'fast', '-f', '5'], os.path.join(d, 'nowhere.bin'))
    no('missing-nodiff', ['--no-diff', '-c', '50'], os.path.join(d, 'nowhere.bin'))
    no('directory', [], d)
    no('directory-ref', ['-m', 'ref', '-c', '10'], d)
    no('under-file', [], os.path.join(good, 'x'))
    no('long-name', [], 'x' * 5000)
    os.symlink('nothing', os.path.join(d, 'dangling'))
    no('dangling', [], os.path.join(d, 'dangling'))
    no('empty-name', [], '')
    no('none', [], None)
    no('none-options', ['-m', 'run', '-c', '5'], None)
    # too large; also sizes whose low 32 bits look small
    for n in (RAM + 1, RAM + 4, RAM + 4096, (1 << 31) + 16, (1 << 32), (1 << 32) + 64,
              (1 << 32) + RAM, (1 << 33) + 4096):
        p = os.path.join(d, 'large-%x.bin' % n)
        with open(p, 'wb') as f:
            f.write(endings.ending(3, 'ebreak', 0))
            f.truncate(n)
        for m in ([], ['-m', 'ref'], ['-m', 'fast', '-f', '4'], ['--no-diff', '-c', '9']):
            jobs.append((d, len(jobs), 'large-%x %s' % (n, ' '.join(m)), m, p,
                         exes[len(jobs) % 2]))
    # options
    bad = ['', ' ', '-1', '-0', '+1', '1x', 'x1', '0x10', '1e3', '1.5', ' 5', '5 ', '1,000',
           '18446744073709551616', '99999999999999999999999', 'ten', '--5', '1\n', '\t2']
    for b in bad:
        no('max-commit %r' % b, ['-c', b])
        no('max-commit-long %r' % b, ['--max-commit=' + b])
        no('fast-forward %r' % b, ['-m', 'fast', '-f', b])
        no('warmup %r' % b, ['-m', 'ckpt', '-w', b])
    no('max-commit 0', ['-c', '0'])
    no('max-commit 000', ['-c', '000'])
    no('max-commit twice', ['-c', '5', '-c', 'x'])
    no('fast without count', ['-m', 'fast'])
    no('fast 0', ['-m', 'fast', '-f', '0'])
    no('fast then 0', ['-m', 'fast', '-f', '5', '-f', '0'])
    for m in ('', 'RUN', 'Run', 'runs', 'ru', 'ckp', 'checkpoint', 'reference', ' run', 'run ',
              'fastest', '0'):
        no('mode %r' % m, ['-m', m])
    no('mode twice', ['-m', 'run', '-m', 'bad'])
    for o in ('-x', '--x', '-q', '--nodiff', '--max', '--no-diff=1', '--help=1', '-C', '-F',
              '--frob=3', '-1', '-?'):
        # prefixes of long options are legal in getopt_long
        if o != '--max':
            no('option ' + o, [o])
    no('missing count', ['-c'], None)
    no('missing mode', ['-m'], None)
    no('missing long count', ['--max-commit'], None)
    no('warmup without value', ['-w'], None)
    r.shuffle(jobs)
    seen = {'refused': 0, 'files': 0, 'options': 0}
    with mp.Pool(8) as pool:
        for name, rc, ran, txt, cmd, base in pool.imap_unordered(refuse, jobs):
            c.evaluations += 1
            why = ''
            if rc in (124, 137):
                c.timeouts += 1
                continue
            if rc == 0:
                why = 'accepted'
            elif ran:
                why = 'failing status but something was run'
            elif not txt.strip():
                why = 'refused without a message'
            elif rc in (-11, 139, -8, 136, -4, 132):
                why = 'crashed'
            if why:
                c.violation('not_refused', '%s: %s (exit status %d) %s' %
                            (name, why, rc, txt[-150:]), {'cmd': cmd}, (base + '.log',))
            else:
                seen['refused'] += 1
                seen['files' if 'large' in name or 'missing' in name or 'dir' in name
                     else 'options'] += 1
                c.distinct.add('refused ' + name)
            for x in ('.log', '.json'):
                if os.path.exists(base + x):
                    os.unlink(base + x)
    # accepted for contrast: help, and the file the refusals used
    for e in exes:
        for name, args, path in (('help', ['-h'], None), ('long help', ['--help'], None),
                                 ('good', [], good), ('good run', ['-m', 'run'], good),
                                 ('two files', [good], good),
                                 ('options last', [good, '-m', 'run'], None)):
            name, rc, ran, txt, cmd, base = refuse((d, 9000, name, args, path, e))
            c.evaluations += 1
            if rc != 0 or (('help' in name) != (not ran)) or not txt.strip():
                c.violation('not_accepted', '%s: exit status %d, ran %d: %s' %
                            (name, rc, ran, txt[-200:]), {'cmd': cmd}, (base + '.log',))
            else:
                c.distinct.add('accepted ' + name)
    for f in os.listdir(d):
        if f.startswith('large-'):
            os.unlink(os.path.join(d, f))
    c.cov['refusals'] = seen
    c.need('refused', seen['refused'], 200)


def main():
    c = Check('P18', level='fault_enumeration')
    k = 6 if THOROUGH else 1
    exes = [sim('dbg'), sim('rel')]
    mk = mkckpt()
    r = random.Random(seed_of('P18', 'all'))
    cases = ending_cases(c, exes, mk, r, k) + limit_cases(c, exes, r, k)
    r.shuffle(cases)
    cases = image_cases(c, exes, r) + cases
    kinds = {}

    def judge(r):
        m = r['mon']
        if r.get('nodiff') and r['verdict'] == 'violation' and r['key'] in ('console', 'no_end'):
            r.update(verdict='ok', key='', detail='')
        if r['verdict'] != 'ok':
            return
        if 'load' in r['vp'] and m.get('memory_compared', 0) != RAM:
            r.update(verdict='violation', key='load', detail='memory was not set up')
        elif r['kind'] == 'limit_ref' and m['prefix'] != r['limit']:
            r.update(verdict='violation', key='limit',
                     detail='%d instructions run, limit %d' % (m['prefix'], r['limit']))
        elif r['kind'] == 'limit_run' and not r['limit'] <= m['commits'] < r['limit'] + 8:
            r.update(verdict='violation', key='limit',
                     detail='%d instructions committed, limit %d' % (m['commits'], r['limit']))

    def done(r):
        if r['verdict'] == 'ok':
            kinds[r['kind']] = kinds.get(r['kind'], 0) + 1
        if r.get('temp') and os.path.exists(r['temp']) and r['verdict'] == 'ok':
            os.unlink(r['temp'])

    c.guests(cases, judge=judge, on_result=done,
             nontrivial=lambda m: m.get('commits', 0) + m.get('prefix', 0) > 0)
    c.cov['runs'] = kinds
    if len(c.violations) < 2:
        refusals(c, exes, r)
    for n, least in (('image', 20), ('ebreak_run', 10), ('wfi_run', 3), ('limit_run', 8),
                     ('program_ref', 4), ('program_ckpt', 4)):
        c.need(n, kinds.get(n, 0), least)
    return c.finish('images of many sizes compared with all of memory before the first '
                    'instruction; programs that end in many ways with many codes, with ends on '
                    'wrong paths, in every mode; instruction limits; enumerated unusable files, '
                    'sizes and options that must be refused without a run; non-trivial = '
                    'instructions ran or the input was refused; distinct by commit stream or '
                    'input')

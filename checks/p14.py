import struct
import zlib

from build import sim, mkckpt
from harness import *


def prep(job):
    """Generates a program, picks where to switch, writes the checkpoint."""
    d, mk, mode, prof, i, exe = job
    s = seed_of('P14', mode, prof, i)
    r = random.Random(s)
    name = '%s-%s-%d' % (mode, prof, i)
    base = os.path.join(d, name)
    p = dict(guestgen.PROFILES[prof])
    p['budget'] = BUDGETS[s // 7 % len(BUDGETS)]
    data, info = guestgen.gen(s, p)
    img = base + '.bin'
    with open(img, 'wb') as f:
        f.write(data)
    subprocess.run([mk, 'plan', img, '200000', str(s % 99991), base + '.plan'], check=True)
    plan = json.load(open(base + '.plan'))
    os.unlink(base + '.plan')
    tags = sorted(t for t in plan['tags'] if mode == 'fast' or not t.endswith('+dma'))
    if plan['bad'] or not tags:
        os.unlink(img)
        return None
    tag = r.choice(tags)
    n = r.choice(plan['tags'][tag])
    end = plan['ended']
    if end and r.random() < 0.12:
        tag, n = 'near_end', max(1, plan['total'] - r.randrange(4))
    elif mode == 'fast' and end and r.random() < 0.06:
        tag, n = 'beyond_end', plan['total'] + r.randrange(50)
    elif r.random() < 0.05:
        tag, n = 'first', r.randrange(1, 4)
    vp = bus_opts(r.choice(BUSES), s)
    c = Case(name=name, exit=info['exit'], vp=vp, sim=exe, image=img, guest=img, tag=tag,
             switch=n, plan=plan, mode=mode, dir=d)
    if mode == 'fast':
        c['args'] = ['-m', 'fast', '-f', str(n)]
        return c
    if tag == 'near_end':
        n = max(1, n - 4)
    # interval = instructions run by the reference model + warm-up of the core
    left = max(1, plan['total'] - n - 1)
    iv = r.choice([0, 1, 2, r.randrange(1, 200), r.randrange(1, 3000)])
    iv = min(iv, left)
    warm = r.choice([0, iv, r.randrange(iv + 1), r.randrange(iv + 1)])
    ck = base + '.gz'
    subprocess.run([mk, 'write', img, str(n), str(iv), ck], check=True)
    vp.update(ckpt=1, ckpt_img=img, ckpt_n=n)
    c.update(image=ck, args=['-m', 'ckpt', '-w', str(warm), '-c', '100000000'],
             switch=n + iv - warm, interval=iv, warm=warm, split=warm > 0)
    return c


def refusals(c, mk, exes):
    """Damaged checkpoints and inconsistent options."""
    d = c.dir
    r = random.Random(seed_of('P14', 'damage'))
    data, info = guestgen.gen(seed_of('P14', 'victim'), dict(guestgen.PROFILES['user'],
                                                             budget=300))
    img = os.path.join(d, 'victim.bin')
    with open(img, 'wb') as f:
        f.write(data)
    good = os.path.join(d, 'good.gz')
    subprocess.run([mk, 'write', img, '300', '100', good, good + '.idx'], check=True)
    zero = os.path.join(d, 'zero.gz')
    subprocess.run([mk, 'write', img, '300', '0', zero], check=True)
    raw = open(good, 'rb').read()
    at = [int(x) for x in open(good + '.idx')] + [len(raw)]
    member = lambda k: raw[at[k]:at[k + 1]]
    unpack = lambda k: bytearray(zlib.decompress(member(k), 31))

    def pack(b):
        z = zlib.compressobj(1, zlib.DEFLATED, 31)
        return z.compress(bytes(b)) + z.flush()
    last = len(at) - 2          # timer range
    boot = last - 3             # first device range
    out = []                    # (name, bytes)

    def field(name, k, off, fmt, val):
        b = unpack(k)
        struct.pack_into(fmt, b, off, val)
        out.append((name, raw[:at[k]] + pack(b) + raw[at[k + 1]:]))
    for v in (0, 0x006d6553, 0x52656d00, r.getrandbits(32) | 1 << 31):
        field('magic-%x' % v, 0, 0, '<I', v)
    for v in (0, 1, 3, 0x0200, 0xffff):
        field('version-%d' % v, 0, 4, '<H', v)
    for v in (2, 4, 7, 0x100, 0xffff):
        field('privilege-%d' % v, 0, 6, '<H', v)
    for v in (0, 0x3ffffffc, 0x40000004, 0x80000000, 1 << r.randrange(30)):
        field('ramsize-%x' % v, 0, 8, '<I', v)
    for v in (0, 3, 5, 0xffffffff):
        field('ranges-%d' % v, 0, 12, '<I', v)
    for j in range(4):
        b = struct.unpack_from('<II', unpack(boot + j))
        field('base-%d' % j, boot + j, 0, '<I', b[0] ^ (1 << r.randrange(2, 32)))
        field('size-%d' % j, boot + j, 4, '<I', b[1] + (4 if j < 3 else 0x100000))
        field('hugesize-%d' % j, boot + j, 4, '<I', 0xfffffffc)
    out.append(('swapped', raw[:at[boot]] + member(boot + 1) + member(boot) + raw[at[boot + 2]:]))
    out.append(('trailing', raw + pack(b'\0' * 8)))
    out.append(('lostram', raw[:at[5]] + raw[at[6]:]))
    for k in (0, 1, 2, last // 2, boot, boot + 1, boot + 2, last):
        out.append(('cut-%d' % k, raw[:at[k]]))
        out.append(('cutin-%d' % k, raw[:r.randrange(at[k] + 1, at[k + 1])]))
    out.append(('cutlast', raw[:-1]))
    out.append(('cutcrc', raw[:-8]))
    flips = 24 if not THOROUGH else 200
    while flips:
        k = r.choice([0, 0, 1, 2, 3, r.randrange(last + 1), boot, boot + 1, boot + 2, last])
        o = r.randrange(at[k] + 10, at[k + 1])
        b = bytearray(raw)
        b[o] ^= 1 << r.randrange(8)
        try:  # some flips in runs of zeros leave the content as it was
            if zlib.decompress(bytes(b[at[k]:at[k + 1]]), 31) == unpack(k):
                continue
        except zlib.error:
            pass
        flips -= 1
        out.append(('flip-%d-%d' % (k, o - at[k]), bytes(b)))
    out.append(('image', data))
    out.append(('nothing', b''))
    out.append(('text', b'not a checkpoint\n' * 50))
    jobs = []
    for i, (n, b) in enumerate(out):
        jobs.append((n, b, ['-m', 'ckpt', '-c', '1000'], None, exes[(i + SEED) % 2]))
    opts = [('warm>interval', ['-m', 'ckpt', '-w', '101'], good),
            ('warm-huge', ['-m', 'ckpt', '-w', '18446744073709551615'], good),
            ('warm-text', ['-m', 'ckpt', '-w', 'ten'], good),
            ('warm-negative', ['-m', 'ckpt', '-w', '-1'], good),
            ('warm-empty', ['-m', 'ckpt', '-w', ''], good),
            ('warm-trail', ['-m', 'ckpt', '-w', '10x'], good),
            ('count-zero', ['-m', 'ckpt', '-c', '0'], good),
            ('count-text', ['-m', 'ckpt', '-c', 'x'], good),
            ('count-overflow', ['-m', 'ckpt', '-c', '18446744073709551616'], good),
            ('zero-interval', ['-m', 'ckpt'], zero),
            ('zero-interval-w', ['-m', 'ckpt', '-w', '1', '-c', '10'], zero),
            ('zero-interval-w0', ['-m', 'ckpt', '-w', '0'], zero),
            ('fast-none', ['-m', 'fast'], img),
            ('fast-zero', ['-m', 'fast', '-f', '0'], img),
            ('fast-negative', ['-m', 'fast', '-f', '-5'], img),
            ('fast-text', ['-m', 'fast', '-f', 'many'], img),
            ('fast-overflow', ['-m', 'fast', '-f', '99999999999999999999'], img),
            ('mode', ['-m', 'resume'], good),
            ('missing-file', ['-m', 'ckpt', '-c', '10'], os.path.join(d, 'nowhere.gz')),
            ('fast-missing', ['-m', 'fast', '-f', '10'], os.path.join(d, 'nowhere.bin')),
            ('no-file', ['-m', 'ckpt', '-c', '10'], '')]
    for i, (n, a, f) in enumerate(opts):
        for e in exes:
            jobs.append((n, None, a, f, e))
    with mp.Pool(8) as pool:
        res = pool.map(refuse, [(d, i) + j for i, j in enumerate(jobs)], chunksize=1)
    ok = 0
    for n, rc, why, cmd, files in res:
        c.evaluations += 1
        if rc in (124, 137):
            c.timeouts += 1
        elif why:
            c.violation('not_refused', '%s: %s (exit status %d)' % (n, why, rc), {'cmd': cmd},
                        files)
        else:
            ok += 1
            c.distinct.add('refused ' + n)
    c.cov['refused'] = {'files': len(out), 'option_sets': len(opts), 'refused': ok}
    # the undamaged file is accepted, so the refusals above mean something
    for i, e in enumerate(exes):
        x = refuse((d, 9000 + i, 'good', None, ['-m', 'ckpt', '-c', '50'], good, e))
        if x[1] != 0:
            c.violation('good_refused', 'undamaged checkpoint ended with status %d' % x[1],
                        {'cmd': x[3]}, x[4])


def refuse(job):
    d, i, name, data, args, path, exe = job
    base = os.path.join(d, 'refuse-%d' % i)
    if data is not None:
        path = base + '.gz'
        with open(path, 'wb') as f:
            f.write(data)
    e = dict(os.environ, VP='out=%s.json,ckpt=1,lenient=1' % base)
    cmd = [exe] + args + ([path] if path else [])
    with open(base + '.log', 'wb') as f:
        rc = subprocess.run(['timeout', '-k', '5', '120'] + cmd, env=e, cwd=d, stdout=f,
                            stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL).returncode
    txt = open(base + '.log', 'rb').read(100000).decode('latin1')
    try:
        ran = json.load(open(base + '.json'))
        ran = ran.get('commits', 0) + ran.get('prefix', 0)
    except (OSError, ValueError):
        ran = 0
    why = ''
    if rc == 0:
        why = 'accepted'
    elif ran:
        why = '%d instructions were run' % ran
    elif not txt.strip():
        why = 'no message'
    elif rc in (-11, 139, -8, 136, -4, 132) or SAN.search(txt):
        why = 'crashed: ' + txt[-200:]
    if not why:
        for f in (base + '.log', base + '.json'):
            if os.path.exists(f):
                os.unlink(f)
        if data is not None:
            os.unlink(path)
    return name, rc, why, cmd, (base + '.log', path or '')


def main():
    c = Check('P14', level='fault_enumeration')
    k = 8 if THOROUGH else 1
    mk = mkckpt()
    exes = [sim('dbg'), sim('rel')]
    jobs = []
    for mode, plan in (('fast', [('user', 10), ('mem', 8), ('atomic', 12), ('trap', 8),
                                 ('vm', 12), ('fp', 4), ('smc', 6), ('flow', 6), ('irq', 14),
                                 ('vmirq', 10), ('dev', 24), ('mix', 10)]),
                       ('ckpt', [('user', 8), ('mem', 6), ('atomic', 10), ('trap', 8),
                                 ('vm', 12), ('fp', 4), ('smc', 4), ('flow', 4), ('irq', 16),
                                 ('vmirq', 10), ('dev', 4), ('mix', 8)])):
        for prof, n in plan:
            for i in range(n * k):
                jobs.append((c.dir, mk, mode, prof, i, exes[len(jobs) % 4 == 3]))
    with mp.Pool(8) as pool:
        cases = [x for x in pool.map(prep, jobs, chunksize=1) if x]
    random.Random(seed_of('P14', 'order')).shuffle(cases)
    tags, seen = {}, {'whole_stream_equal': 0, 'ended_before_switch': 0, 'warmed_by_model': 0}

    def judge(r):
        m, plan = r['mon'], r['plan']
        if r['verdict'] != 'ok':
            return
        if r['mode'] == 'ckpt' and not m.get('restores'):
            r.update(verdict='violation', key='restore', detail='the checkpoint was not handed over')
            return
        if m['prefix'] != min(r['switch'], plan['total']) and not plan['irqs'] \
                and not m['interrupts'] and plan['ended']:
            r.update(verdict='violation', key='switch_point',
                     detail='switched after %d instructions instead of %d' % (m['prefix'],
                                                                             r['switch']))
            return
        if plan['ended'] and not plan['irqs'] and not m['interrupts'] and not m['mmio_ld']:
            if m['commit_hash'] != plan['hash'] or m['prefix'] + m['commits'] != plan['total']:
                r.update(verdict='violation', key='stream',
                         detail='%d+%d instructions, hash %s; uninterrupted %d, %s' %
                         (m['prefix'], m['commits'], m['commit_hash'], plan['total'],
                          plan['hash']))
                return
            seen['whole_stream_equal'] += 1

    def done(r):
        if r['verdict'] == 'ok':
            t = r['tag'].replace('+dma', '')
            tags[t] = tags.get(t, 0) + 1
            if '+dma' in r['tag']:
                tags['dma_in_use'] = tags.get('dma_in_use', 0) + 1
            seen['ended_before_switch'] += not r['mon']['commits']
            seen['warmed_by_model'] += r.get('interval', 0) > r.get('warm', 0)
            for f in {r['guest'], r['image']}:
                os.unlink(f)

    c.guests(cases, judge=judge, on_result=done, nontrivial=lambda m: m['commits'] > 0)
    c.cov['switch_points'] = tags
    c.cov['hand_over'] = seen
    if len(c.violations) < 2:
        refusals(c, mk, exes)
    c.need('restores', c.totals.get('restores', 0), 60 * k)
    c.need('whole_stream_equal', seen['whole_stream_equal'], 60 * k)
    c.need('refused', c.cov.get('refused', {}).get('refused', 0), 80)
    for t in ('reserved', 'paged', 'trap', 'timer_set', 'ext_pending'):
        c.need('switch.' + t, tags.get(t, 0), 1)
    return c.finish('random programs switched from the sequential model to the core at random and '
                    'chosen instructions (fast-forward and checkpoint files written by the model); '
                    'restored state compared with a run from the start, then lock-step and whole '
                    'stream, exit code and console; damaged files and options must be refused; '
                    'non-trivial = the core committed after the switch; distinct by hash of the '
                    'commit stream')

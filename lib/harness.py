"""Case runner, verdicts, known findings and evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import time

from build import VERIF, REPO, BUILD, BuildError

sys.path.insert(0, os.path.join(VERIF, 'gen'))
import gen as guestgen

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
T0 = time.time()


def seed_of(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in (SEED,) + parts).encode())
    return int.from_bytes(h.digest()[:6], 'big')


# Bus behaviours. Latencies are in bus ticks; the core advances one cycle every
# 16 ticks, so 1600 is 100 core cycles.
BUS = {
    'fast': {},
    'jitter': dict(rd_min=1, rd_max=600, wr_min=1, wr_max=600),
    'slow': dict(rd_min=800, rd_max=1600, wr_min=400, wr_max=2400),
    'spiky': dict(rd_min=1, rd_max=40, wr_min=1, wr_max=40, spike=8,
                  spike_lat=6000),
    'stall': dict(rd_min=1, rd_max=300, wr_min=1, wr_max=300, ready=20),
    'reorder': dict(rd_min=1, rd_max=900, wr_min=1, wr_max=900, reorder=1),
    'slowwr': dict(rd_min=1, rd_max=20, wr_min=1000, wr_max=6000, reorder=1),
    'all': dict(rd_min=1, rd_max=1200, wr_min=1, wr_max=2400, ready=50,
                spike=3, spike_lat=5000, reorder=1),
}
BUSES = list(BUS)
# Writes so slow that the write-back queue runs full; for runs that ask for it.
BUS['drain'] = dict(rd_min=1, rd_max=40, wr_min=6000, wr_max=24000)
FULL_WB = ['drain', 'drain', 'slowwr', 'all']


def bus_opts(name, seed):
    d = dict(BUS[name])
    d['axi_seed'] = seed % 1000003 + 1
    return d


class Case(dict):
    """A guest run: profile/gen seed or an image path, VP options, binary."""


def guest_check(pid, plan, floors, nontrivial, rule, sim_exe, k=10, fixed=(),
                **kw):
    """A check that is a set of monitored guest runs."""
    c = Check(pid)
    n = k if THOROUGH else 1
    extra = []
    for name, data, code in fixed:
        img = os.path.join(c.dir, name + '.bin')
        with open(img, 'wb') as f:
            f.write(data)
        extra.append(Case(name=name, image=img, exit=code, vp={}, sim=sim_exe))
    c.guests(extra + mix_cases(pid, sim_exe, [(p[0], p[1] * n) + p[2:] for p in plan],
                              **kw),
             nontrivial=nontrivial)
    for name, least in floors.items():
        got = c.totals.get(name, 0)
        if '.' in name:
            a, b = name.split('.')
            got = c.hist.get(a, {}).get(b, 0)
        c.need(name, got, least)
    return c.finish(rule + '; distinct by hash of the commit stream')


def rundir(check):
    d = os.path.join(BUILD, 'run', check)
    os.makedirs(d, exist_ok=True)
    return d


SAN = re.compile(r'(AddressSanitizer|UndefinedBehaviorSanitizer|runtime error:|'
                 r'MemorySanitizer|ThreadSanitizer|LeakSanitizer)')


# Code of the (not instrumented) standard library that MemorySanitizer cannot
# judge, and the phase before the first cycle in which files are read with it.
MSAN_STD = re.compile(r'stl_tree|basic_string|locale|ostream|istream|basic_ios|'
                      r'ios_base|streambuf|stl_map|char_traits|fstream')


def msan_reports(txt):
    """Uninitialised uses in the repository's code after the first cycle."""
    i = txt.find('[VP] first cycle')
    out = []
    for blk in (txt[i:] if i >= 0 else '').split('WARNING: MemorySanitizer')[1:]:
        fr = []
        for n, x in re.findall(r'^\s+#(\d+) 0x[0-9a-f]+ in (.*)$', blk, re.M):
            if int(n) < len(fr):
                break
            fr.append(x)
        if not fr or MSAN_STD.search(fr[0]):
            continue
        own = [x for x in fr if VERIF + '/' not in x and
               '/include/c++/' not in x and ' (' not in x[-60:] and
               not re.search(r' (csu|stdlib|nptl|\.\./sysdeps)/', x)]
        mine = [x for x in fr if VERIF + '/monitor' in x]
        if own and not (mine and fr.index(mine[0]) < fr.index(own[0])):
            out.append(own[0])
    return out


def console_diff(want, txt, pre=0, split=False):
    """Console bytes against what the committed program wrote. Bytes from 128
    on never occur in the simulator's own messages and have to match exactly;
    the whole sequence has to appear in one piece unless a progress line was
    printed in between."""
    w = bytes.fromhex(want)
    got = txt.encode('latin1')
    a = got.find(b'[File] ')
    b = got.rfind(b'Simulation Exited')
    got = got[a if a >= 0 else 0:b if b >= 0 else len(got)]
    hi = bytes(x for x in got if x > 127)
    whi = bytes(x for x in w if x > 127)
    if hi != whi:
        n = next((i for i, (x, y) in enumerate(zip(hi, whi)) if x != y),
                 min(len(hi), len(whi)))
        return 'console byte %d differs: wrote %d bytes, %d appeared' % (
            n, len(whi), len(hi))
    # the simulator announces the switch after the first `pre` bytes
    for part in (w[:pre], w[pre:]):
        if part in got or part in re.sub(rb'\n?[0-9]+\n', b'', got):
            continue
        # a message at the end of the warm-up may come in between
        if split and any(part[:i] in got and
                         part[i:] in got[got.find(part[:i]) + i:]
                         for i in range(1, len(part))):
            continue
        return 'console text differs from the bytes written'
    return ''


def run_case(case):
    """Runs one guest. Returns the case plus: rc, mon (monitor JSON or {}),
    verdict in ok | violation | undef | timeout, key, detail."""
    d = case['dir']
    base = os.path.join(d, case['name'])
    if 'image' in case:
        img, info = case['image'], {'exit': case.get('exit', 0)}
    else:
        prof = dict(guestgen.PROFILES[case['profile']])
        if case.get('w'):
            prof['w'] = dict(prof.get('w', {}), **case['w'])
        for k in case.get('prof', {}):
            prof[k] = case['prof'][k]
        data, info = guestgen.gen(case['gseed'], prof)
        img = base + '.bin'
        with open(img, 'wb') as f:
            f.write(data)
    vp = dict(case.get('vp', {}))
    out = base + '.json'
    if os.path.exists(out):
        os.unlink(out)
    vp['out'] = out
    e = dict(os.environ)
    e['VP'] = ','.join('%s=%s' % kv for kv in vp.items())
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=0:exitcode=86:print_stacktrace=1'
    e['ASAN_OPTIONS'] = ('exitcode=86:detect_leaks=0:abort_on_error=0:'
                         'detect_stack_use_after_return=1')
    e['MSAN_OPTIONS'] = 'exitcode=0:halt_on_error=0'
    e.update(case.get('env', {}))
    cmd = [case['sim']] + list(case.get('args', [])) + ([img] if img else [])
    res = dict(case)
    res['image_used'] = img
    res['cmd'] = cmd
    res['VP'] = e['VP']
    res['want'] = info['exit']
    log = base + '.log'
    limit = case.get('timeout', 120)
    try:
        with open(log, 'wb') as lf:
            p = subprocess.run(['timeout', '-k', '5', str(limit)] + cmd, env=e, cwd=d,
                               stdout=lf, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL)
        rc = p.returncode
    except OSError as x:
        rc = -999
        res['detail'] = str(x)
    res['rc'] = rc
    try:
        res['mon'] = json.load(open(out))
    except (OSError, ValueError):
        res['mon'] = {}
    m = res['mon']
    with open(log, 'rb') as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(0)
        txt = f.read(200000)
        if n > 400000:
            f.seek(n - 200000)
            txt += f.read()
        else:
            txt += f.read()
    txt = txt.decode('latin1')
    res['text'] = txt if case.get('keep_text') else ''
    res['detail'] = m.get('detail', '')
    st = m.get('status')
    san = SAN.search(txt)
    if case.get('msan'):
        rep = msan_reports(txt)
        san = None
        if rep:
            res['verdict'] = 'violation'
            res['key'] = 'sanitizer'
            res['detail'] = 'use of uninitialised value in ' + rep[0][:250]
            return res
    if san:
        line = [l for l in txt.splitlines() if SAN.search(l)][0]
        res.update(verdict='violation', key='sanitizer', detail=line[:300])
    elif st == 'violation':
        res.update(verdict='violation', key=m.get('key', '?'))
    elif st == 'undef':
        res.update(verdict='undef', key='undef')
    elif rc == 124 or rc == 137:
        res.update(verdict='timeout', key='timeout', detail='%ss' % limit)
    elif 'Assertion' in txt and rc in (1, -6, 134):
        line = [l for l in txt.splitlines() if 'Assert' in l][0]
        res.update(verdict='violation', key='assert', detail=line[:300])
    elif rc < 0 or rc >= 128:
        if rc != info['exit']:
            res.update(verdict='violation', key='crash',
                       detail='exit status %d; %s' % (rc, txt[-300:]))
        else:
            res.update(verdict='ok', key='')
    elif rc != info['exit']:
        res.update(verdict='violation', key='exit_status',
                   detail='exit status %d, guest asked for %d; %s' %
                   (rc, info['exit'], txt[-300:]))
    elif st != 'end':
        res.update(verdict='violation', key='no_end',
                   detail='run ended without the monitor seeing the end: ' +
                   str(st) + txt[-200:])
    else:
        res.update(verdict='ok', key='')
        bad = console_diff(m.get('console', ''), txt, m.get('console_pre', 0),
                           case.get('split', False))
        if bad:
            res.update(verdict='violation', key='console', detail=bad)
    if res['verdict'] == 'ok' and not case.get('keep_files'):
        for x in ((img,) if 'image' not in case else ()) + (out, log):
            try:
                os.unlink(x)
            except OSError:
                pass
    return res


def run_driver(job):
    d, limit, name, before = job[:4]
    after = job[4] if len(job) > 4 else []
    out = os.path.join(d, name + '.json')
    log = os.path.join(d, name + '.log')
    cmd = [str(x) for x in list(before) + [out] + list(after)]
    e = dict(os.environ)
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=0:exitcode=86:print_stacktrace=1'
    e['ASAN_OPTIONS'] = 'exitcode=86:detect_leaks=0:abort_on_error=0'
    for again in (1, 3):
        with open(log, 'wb') as f:
            p = subprocess.run(['timeout', '-k', '5', str(limit * again)] + cmd,
                               env=e, cwd=d, stdout=f, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL)
        if p.returncode not in (124, 137):
            break
    rc = p.returncode
    txt = open(log, 'rb').read(400000).decode('latin1')
    try:
        rep = json.load(open(out))
    except (OSError, ValueError):
        rep = {}
    r = {'name': name, 'cmd': cmd, 'rc': rc, 'log': log, 'report': rep,
         'verdict': 'ok', 'key': '', 'detail': rep.get('detail', '')}
    san = [l for l in txt.splitlines() if SAN.search(l)]
    if san:
        r.update(verdict='violation', key='sanitizer', detail=san[0][:300])
    elif rc == 77:
        r.update(verdict='violation', key='mismatch')
    elif rc in (124, 137):
        r.update(verdict='timeout')
    elif rc == 1 or rc < 0 or rc >= 128:
        # the code under test ended the process
        r.update(verdict='violation', key='stopped',
                 detail='exit status %d: %s' % (rc, txt[-300:]))
    elif rc or rep.get('status') != 'end':
        r.update(verdict='error', detail='exit status %d: %s' % (rc, txt[-300:]))
    return r


class Check:
    def __init__(self, pid, level='exploration'):
        self.pid = pid
        self.level = level
        self.dir = rundir(pid)
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        self.cov = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.errors = []
        self.evaluations = 0
        self.distinct = set()
        self.totals = {}
        self.hist = {}
        self.undef = 0
        self.timeouts = 0
        self.assumptions = []
        self.findings = load_findings(pid)

    # ---- bookkeeping
    def add_counts(self, m):
        for k, v in m.items():
            if isinstance(v, bool):
                continue
            if isinstance(v, (int, float)):
                if k.startswith('max_') or k.endswith('_max'):
                    self.totals[k] = max(self.totals.get(k, 0), v)
                else:
                    self.totals[k] = self.totals.get(k, 0) + v
            elif isinstance(v, dict):
                h = self.hist.setdefault(k, {})
                for a, b in v.items():
                    h[a] = h.get(a, 0) + b

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, detail, replay_payload=None, files=()):
        """Routes one failure through the known findings."""
        for f in self.findings:
            if re.search(f['match'], key + ' ' + detail):
                self.known.append((f, key, detail))
                return False
        rp = os.path.join(BUILD, 'replay', self.pid)
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, 'violation-%d.json' % len(self.violations))
        pl = {'property': self.pid, 'key': key, 'detail': detail, 'seed': SEED,
              'tier': TIER}
        pl.update(replay_payload or {})
        kept = []
        for x in files:
            if os.path.exists(x):
                dst = os.path.join(rp, os.path.basename(x))
                shutil.copy(x, dst)
                kept.append(dst)
        pl['files'] = kept
        with open(path, 'w') as f:
            json.dump(pl, f, indent=1, default=str)
        self.violations.append({'key': key, 'detail': detail[:400], 'replay': path})
        return True

    def error(self, msg):
        self.errors.append(msg)

    def need(self, name, got, least):
        """A run that saw too little decides nothing."""
        self.cov.setdefault('floors', {})[name] = {'seen': got, 'least': least}
        if got < least and not self.violations:
            self.error('observed too little: %s=%s (need %s)' % (name, got, least))

    # ---- guests
    def guests(self, cases, stop_after=2, nontrivial=None, on_result=None,
               judge=None):
        """Runs cases on 8 workers. Violations are routed, undef counted,
        timeouts re-run once and then counted."""
        for c in cases:
            c.setdefault('dir', self.dir)
        got = []
        with mp.Pool(8) as pool:
            it = pool.imap_unordered(run_case, cases)
            for r in it:
                if (r['verdict'] == 'timeout' and not r.get('again') and
                        not self.timeouts):
                    c = Case(r)
                    c['again'] = True
                    c['timeout'] = 3 * r.get('timeout', 120)
                    r = run_case(c)
                if judge:
                    judge(r)
                self.evaluations += 1
                got.append(r)
                m = r['mon']
                self.add_counts({k: v for k, v in m.items()})
                if r['verdict'] == 'undef':
                    self.undef += 1
                elif r['verdict'] == 'timeout':
                    self.timeouts += 1
                elif r['verdict'] == 'skip':
                    pass
                elif r['verdict'] == 'violation':
                    self.violation(
                        r['key'], '%s [%s]' % (r['detail'], r['name']),
                        {'cmd': r['cmd'], 'VP': r['VP'], 'want_exit': r['want'],
                         'rc': r['rc']},
                        (r['image_used'], os.path.join(r['dir'], r['name'] + '.log'),
                         os.path.join(r['dir'], r['name'] + '.json')))
                else:
                    if nontrivial is None or nontrivial(m):
                        self.distinct.add(m.get('commit_hash', r['name']))
                    self.sample({'case': r['name'], 'VP': r['VP'],
                                 'exit': r['rc'],
                                 'commits': m.get('commits'),
                                 'cycles': m.get('sim_time'),
                                 'commit_hash': m.get('commit_hash')})
                if on_result:
                    on_result(r)
                if (len(self.violations) >= stop_after or
                        self.timeouts > max(1, len(cases) // 20)):
                    pool.terminate()
                    break
        return got

    # ---- drivers that are not guests
    def drivers(self, jobs, stop_after=2, limit=600):
        """jobs: (name, argv without the output path, argv after it). Each
        driver writes a JSON report and exits 0, or 77 for a mismatch."""
        with mp.Pool(8) as pool:
            for r in pool.imap_unordered(
                    run_driver, [(self.dir, limit) + tuple(j) for j in jobs]):
                self.evaluations += 1
                m = r['report']
                self.add_counts(m)
                if r['verdict'] == 'violation':
                    self.violation(r['key'], '%s [%s]' % (r['detail'], r['name']),
                                   {'cmd': r['cmd'], 'rc': r['rc']}, (r['log'],))
                elif r['verdict'] == 'timeout':
                    self.timeouts += 1
                elif r['verdict'] == 'error':
                    self.error('%s: %s' % (r['name'], r['detail']))
                else:
                    self.distinct.add(m.get('hash', r['name']))
                    self.sample({'driver': r['name'], 'cmd': ' '.join(r['cmd']),
                                 'steps': m.get('steps'), 'hash': m.get('hash')})
                if len(self.violations) >= stop_after:
                    pool.terminate()
                    break

    def finish(self, rule):
        n = self.evaluations
        if self.undef > max(2, n // 20):
            self.error('%d of %d guests left the modelled contract' % (self.undef, n))
        if self.timeouts > max(1, n // 20):
            self.error('%d of %d guests did not finish in time' % (self.timeouts, n))
        if n == 0:
            self.error('nothing ran')
        cov = {'evaluations': n, 'distinct_nontrivial': len(self.distinct),
               'rule': rule, 'samples': self.samples}
        if self.undef:
            cov['left_contract'] = self.undef
        if self.timeouts:
            cov['inconclusive_timeouts'] = self.timeouts
        if self.totals:
            cov['observed'] = {k: v for k, v in sorted(self.totals.items()) if v}
        for k, v in self.hist.items():
            cov['observed_' + k] = v
        cov.update(self.cov)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED,
              'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - T0, 2)}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        if self.violations:
            ev['violations'] = len(self.violations)
            cov['violation_details'] = self.violations
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for f, key, detail in self.known[:20]:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        if self.violations:
            for v in self.violations:
                print('%s: %s' % (v['key'], v['detail']))
            print('VIOLATION property=%s replay=%s' %
                  (self.pid, self.violations[0]['replay']))
            return 1
        if self.errors:
            for x in self.errors:
                print('ERROR property=%s %s' % (self.pid, x))
            return 2
        print('HELD property=%s evaluations=%d distinct=%d wall=%.1fs' %
              (self.pid, n, len(self.distinct), time.time() - T0))
        return 0


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out


# Loop budgets: many short programs, a few long ones.
BUDGETS = [300, 600, 600, 1000, 1000, 1500, 2500, 6000]


def mix_cases(pid, sim, plan, buses=BUSES, extra_vp=None, **kw):
    """plan: list of (profile, count[, buses]). Bus behaviour cycles with the
    index."""
    out = []
    for prof, n, *own in plan:
        bs = own[0] if own else buses
        for i in range(n):
            s = seed_of(pid, prof, i)
            b = bs[(i + s) % len(bs)]
            vp = bus_opts(b, s)
            if extra_vp:
                vp.update(extra_vp)
            out.append(Case(name='%s-%d-%s' % (prof, i, b), profile=prof,
                            gseed=s, vp=vp, sim=sim,
                            prof={'budget': 1 if prof == 'sweep' else
                                  BUDGETS[s // 7 % len(BUDGETS)]},
                            **kw))
    r = random.Random(seed_of(pid, 'order'))
    r.shuffle(out)
    return out

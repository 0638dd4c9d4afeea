#!/usr/bin/env python3
"""check.py <property> quick|thorough        decide one property (exit 0 / 1 + VIOLATION line)
check.py replay <file>                       re-run the recorded case
check.py setup                               build everything once"""
import json, os, re, subprocess, sys, threading, time, queue, mmap, struct, tempfile, shutil, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from registry import PROPS, HARNESS

V = build.V
T0 = time.time()
NW = int(os.environ.get('VF_JOBS', '0')) or (os.cpu_count() or 4)


def sanenv(san):
    e = dict(os.environ)
    e.pop('LD_PRELOAD', None)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:malloc_context_size=8:quarantine_size_mb=32:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
    e['TSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1:second_deadlock_stack=1:history_size=4'
    e['LC_ALL'] = 'C'
    e['TZ'] = 'UTC'
    for k in ('DNSTABLE_FNAME', 'DNSTABLE_SETFILE'):
        e.pop(k, None)
    return e


FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in ([^\s(]+)[^\n]*?((?:/[\w.+-]+)+\.(?:c|cc|h)|/repo/\S+?)(?::(\d+))?')
TFRAME = re.compile(r'#\d+ ([^\s(]+)[^\n]*? ((?:/[\w.+-]+)+\.(?:c|cc|h))(?::(\d+))?')


def site(txt):
    """innermost frame in the code under test, else innermost in ours"""
    own = None
    for m in list(FRAME.finditer(txt)) + list(TFRAME.finditer(txt)):
        if m.group(2).startswith(build.R + '/'):
            return m.group(1)
        if own is None and m.group(2).startswith(V):
            own = m.group(1)
    return own or '?'


def crash_key(txt, rc):
    if 'VF-CPU-LIMIT' in txt:
        return 'hang', 'no result within the CPU limit'
    m = re.search(r'([\w./+-]+\.(?:c|cc|h)):(\d+):\d+: runtime error: ([^\n]*)', txt)
    if m:
        kind = re.sub(r"0x[0-9a-f]+|-?\d+|'[^']*'", 'N', m.group(3))[:80]
        return 'ubsan:%s:%s' % (kind.strip().replace(' ', '_'), site(txt[m.start():])), m.group(0)
    m = re.search(r"[\w./+-]+: ([^\n]*): Assertion `([^\n]*)' failed", txt)
    if m:
        return 'abort:assert:%s' % (m.group(1).split(':')[-1],), m.group(0)
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)[^\n]*', txt)
    if m:
        return 'asan:%s:%s' % (m.group(1), site(txt[m.start():])), m.group(0)
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', txt)
    if m:
        return 'tsan:%s:%s' % (m.group(1).strip().replace(' ', '-'), site(txt[m.start():])), m.group(0)
    if 'terminate called' in txt:
        return 'abort:exception', txt[-300:]
    return 'crash:%s' % (signal.Signals(-rc).name if rc < 0 else 'exit%d' % rc), txt[-300:]


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.P = PROPS[pid]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.viol = {}
        self.counts, self.maxi, self.sets, self.samples = {}, {}, {}, []
        self.inconclusive = []
        self.lock = threading.Lock()
        self.b = build.Builder()
        self.deadline = T0 + (820 if tier == 'quick' else 3300)
        self.tmp = tempfile.mkdtemp(prefix='vfrun')
        self.skipped = 0
        self.crashes = 0
        self.stop = False  # a confirmed hang: nothing further is needed, and each costs minutes

    def add_viol(self, key, detail, part, case):
        with self.lock:
            v = self.viol.setdefault(key, dict(key=key, detail=detail[:1500], part=part, case=case, n=0))
            v['n'] += 1

    def parse(self, path, part):
        done = False
        try:
            lines = open(path, errors='replace').read().split('\n')
        except OSError:
            return False
        for l in lines:
            f = l.split('\t')
            if f[0] == 'V' and len(f) >= 4:
                self.add_viol(f[1], f[3], part, int(f[2]))
            elif f[0] == 'C':
                with self.lock:
                    self.counts[f[1]] = self.counts.get(f[1], 0) + int(f[2])
            elif f[0] == 'M':
                with self.lock:
                    self.maxi[f[1]] = max(self.maxi.get(f[1], 0), int(f[2]))
            elif f[0] == 'S' and len(f) >= 3:
                s = set(x for x in f[2].split(',') if x)
                with self.lock:
                    self.sets.setdefault(f[1], set()).update(s)
            elif f[0] == 'E':
                with self.lock:
                    if len(self.samples) < 4:
                        self.samples.append(f[1])
            elif f[0] == 'DONE':
                done = True
        return done

    def cmd(self, part, a, b, out, prog, cpu):
        c = [part['exe'], '--prop', part['mode'], '--seed', str(self.seed), '--from', str(a), '--to', str(b), '--out', out, '--prog', prog, '--cpu', str(cpu)]
        if self.tier == 'thorough':
            c.append('--thorough')
        return c

    def exec1(self, part, a, b, tag, cpu, wall):
        """run cases [a,b); -> (ok, last_case, rc, stderr, timed_out)"""
        out, prog, err = ['%s/%s.%s' % (self.tmp, tag, x) for x in ('out', 'prog', 'err')]
        for p in (out, prog):
            if os.path.exists(p):
                os.unlink(p)
        scr = '%s/%s.scr' % (self.tmp, tag)
        shutil.rmtree(scr, ignore_errors=True)
        os.makedirs(scr)
        os.chmod(scr, 0o777)
        env = sanenv(part['san'])
        env.update(part['env'])
        env['VF_SCRATCH'] = scr
        with open(err, 'wb') as ef:
            p = subprocess.Popen(self.cmd(part, a, b, out, prog, cpu), stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env, start_new_session=True, cwd=scr)
            last, t_last, timed = None, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.5 if last is not None else 0.02)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = self.progress(prog)
                if cur != last:
                    last, t_last = cur, time.time()
                if time.time() - t_last > wall or time.time() > self.deadline + 60 or self.stop:
                    timed = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scr, ignore_errors=True)
        case = (self.progress(prog) or (a, 0))[0]
        txt = open(err, 'rb').read()[-60000:].decode(errors='replace')
        done = self.parse(out, part)
        return done and p.returncode == 0 and not timed, case, p.returncode, txt, timed

    @staticmethod
    def progress(prog):
        try:
            d = open(prog, 'rb').read(16)
            return struct.unpack('QQ', d) if len(d) == 16 else None
        except OSError:
            return None

    def worker(self, q, wid):
        while True:
            try:
                part, a, b = q.get_nowait()
            except queue.Empty:
                return
            cpu = part['cpu']
            while a < b:
                if time.time() > self.deadline or self.crashes > 40 or self.stop:
                    with self.lock:
                        self.skipped += b - a
                    break
                tag = '%s-%d' % (part['mode'], wid)
                ok, case, rc, txt, timed = self.exec1(part, a, b, tag, cpu, part['wall'])
                if ok:
                    break
                if timed and self.stop:
                    continue
                case = max(a, min(case, b - 1))
                key, det = ('hang', 'no progress') if timed else crash_key(txt, rc)
                if key == 'hang' or key.startswith('crash:SIGKILL'):
                    # a slow or starved machine looks the same: once more, alone, with room
                    ok2, _, rc2, txt2, timed2 = self.exec1(part, case, case + 1, tag + 'r', cpu * 3, part['wall'] * 2)
                    if timed2 and self.stop:
                        continue
                    if ok2:
                        with self.lock:
                            self.inconclusive.append('%s case %d' % (part['mode'], case))
                        key = None
                    else:
                        key, det = ('hang', 'no progress (twice)') if timed2 else crash_key(txt2, rc2)
                if key == 'crash:exit78':
                    raise build.BuildError('harness setup error: ' + txt[-500:])
                if key:
                    if key == 'hang' or key.startswith('crash:SIGKILL'):
                        self.stop = True
                    if key == 'hang':
                        key = 'hang:' + part['mode']
                    with self.lock:
                        self.crashes += 1
                        n = self.crashes
                    if n <= 5:
                        try:
                            os.makedirs(V + '/replays', exist_ok=True)
                            with open('%s/replays/%s-report-%d.txt' % (V, self.pid, n), 'w') as f:
                                f.write(txt[-20000:])
                        except OSError:
                            pass
                    self.add_viol(key, det, part, case)
                # events of the part up to the crash are lost; count the cases that ran
                with self.lock:
                    self.counts['cases'] = self.counts.get('cases', 0) + max(0, case - a)
                a = case + 1

    def go(self):
        parts = []
        for spec in self.P['parts']:
            h = HARNESS[spec['h']]
            san = spec.get('san', 'asan')
            try:
                exe, env = self.b.build(h, san)
            except build.BuildError as e:
                # a program that uses the published functions no longer builds against the library: for the property about them that is the observation
                m = re.findall(r"(dnstable_\w+)[^\n]*(?:was not declared|has not been declared|is not a member)|undefined reference to .(dnstable_\w+)", str(e)) if self.P.get('api') else []
                api = re.findall(r'\{ "(dnstable_\w+)", "LIBDNSTABLE', open(V + '/h/cli.cc').read())
                gone = sorted({x or y for x, y in m} & set(api))
                if not gone:
                    raise
                self.build_s = time.time() - T0
                self.viol['gone'] = dict(key='gone', n=1, case=0, detail='a program cannot be built: %s' % ', '.join(gone), part=dict(h=spec['h'], san=san, mode=spec['mode']))
                self.counts['cases'] = 1
                return self.verdict()
            n = max(1, int(spec['n'][0 if self.tier == 'quick' else 1] * float(os.environ.get('VF_SCALE', '1'))))
            parts.append(dict(spec, exe=exe, env=env, san=san, count=n, cpu=spec.get('cpu', 40), wall=spec.get('wall', 120)))
        self.build_s = time.time() - T0
        q = queue.Queue()
        chunks = []
        for p in parts:
            k = p.get('chunk') or max(1, (p['count'] + NW * 4 - 1) // (NW * 4))
            chunks += [(p, a, min(a + k, p['count'])) for a in range(0, p['count'], k)]
        for c in chunks:
            q.put(c)
        errs = []

        def wk(i):
            try:
                self.worker(q, i)
            except Exception as e:  # noqa
                errs.append(e)
        ts = [threading.Thread(target=wk, args=(i,)) for i in range(max(1, min(NW, self.P.get('jobs', NW))))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        shutil.rmtree(self.tmp, ignore_errors=True)
        if errs:
            raise errs[0]
        return self.verdict()

    def verdict(self):
        known = []
        try:
            known = json.load(open(V + '/known_findings.json'))['findings']
        except (OSError, ValueError, KeyError):
            pass
        kn = {k['key']: k for k in known if k.get('property') == self.pid and k.get('status') == 'known'}
        bad = [v for k, v in self.viol.items() if k not in kn]
        for k in kn.values():
            print('KNOWN-FINDING: property=%s %s%s' % (self.pid, k['what'], '' if k['key'] in self.viol else ' (not hit in this run)'))
        replay = None
        for i, v in enumerate(sorted(bad, key=lambda v: v['key'])):
            os.makedirs(V + '/replays', exist_ok=True)
            rp = '%s/replays/%s-%d.json' % (V, self.pid, i)
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, harness=v['part']['h'], san=v['part']['san'], mode=v['part']['mode'], case=v['case'], key=v['key'], detail=v['detail'], times=v['n']), open(rp, 'w'), indent=1)
            replay = replay or rp
            print('  %s case=%d: %s' % (v['key'], v['case'], v['detail'][:600]))
        ev = self.counts.get('cases', 0)
        dn = len(self.sets['nontrivial'] if 'nontrivial' in self.sets else max(self.sets.values(), key=len, default=()))
        cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=self.P['rule'], samples=self.samples[:4] or ['(none)'],
                   observed={k: v for k, v in sorted(self.counts.items()) if k != 'cases'}, maxima=self.maxi,
                   distinct={k: len(s) for k, s in sorted(self.sets.items())}, inconclusive=self.inconclusive[:20], cases_not_run=self.skipped,
                   build_s=round(self.build_s, 1), known_hit=[k for k in self.viol if k in kn])
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.P.get('level', 'exploration'), coverage=cov, assumptions=self.P.get('assume', []),
                       wall_s=round(time.time() - T0, 2), violations=len(bad)), open('%s/evidence/%s.json' % (V, self.pid), 'w'), indent=1)
        if bad:
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        low = []
        for k, m in self.P.get('floor', {}).items():
            have = len(self.sets[k[4:]]) if k.startswith('set:') and k[4:] in self.sets else self.counts.get(k, 0)
            if have < m:
                low.append('%s=%d < %d' % (k, have, m))
        if dn < 2 or low:
            print('INSUFFICIENT property=%s: the run did not observe enough (%s)' % (self.pid, ', '.join(low) or 'no distinct cases'))
            return 2
        print('OK property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs' % (self.pid, self.tier, self.seed, ev, dn, time.time() - T0))
        return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == 'setup':
        b = build.Builder()
        done = set()
        for p in PROPS.values():
            for s in p['parts']:
                k = (s['h'], s.get('san', 'asan'))
                if k not in done:
                    done.add(k)
                    b.build(HARNESS[k[0]], k[1])
        print('setup: %d harness builds in %.0fs' % (len(done), time.time() - T0))
        return 0
    if a and a[0] == 'replay':
        j = json.load(open(a[1]))
        exe, env = build.Builder().build(HARNESS[j['harness']], j['san'])
        e = sanenv(j['san'])
        e.update(env)
        c = [exe, '--prop', j['mode'], '--seed', str(j['seed']), '--case', str(j['case']), '-v'] + (['--thorough'] if j['tier'] == 'thorough' else [])
        print(' '.join(c))
        return subprocess.run(c, env=e).returncode
    if len(a) < 1 or a[0] not in PROPS:
        print(__doc__)
        return 64
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        return Run(a[0], tier).go()
    except build.BuildError as e:
        print('BUILD-ERROR property=%s: %s' % (a[0], e))
        return 2


if __name__ == '__main__':
    sys.stdout.flush()
    sys.exit(main())

"""Builds what the checks need from /repo's working tree into /verif/build (ignored by git)."""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VF_REPO', '/repo')
B = os.environ.get('VF_BUILD', os.path.join(V, 'build'))
SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-O1'],
    'tsan': ['-fsanitize=thread', '-fno-omit-frame-pointer', '-O1'],
    'plain': ['-O2', '-fno-strict-aliasing'],
}
BASE = ['-g1', '-w', '-pipe', '-pthread']
CINC = ['-D_GNU_SOURCE', '-include', V + '/shim/config.h', '-include', 'stdbool.h', '-I' + V + '/shim', '-I' + V + '/lib', '-I' + R, '-I' + R + '/dnstable']
HINC = ['-D_GNU_SOURCE', '-I' + V + '/shim', '-I' + V + '/lib', '-I' + V + '/h', '-I' + R, '-I' + R + '/dnstable']
LIBS = ['-lz', '-lzstd', '-llz4', '-lpthread', '-ldl', '-lm']


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def files(d, exts):
    if not os.path.isdir(d):
        return []
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(exts))


def errs(t):
    return '\n'.join([l for l in t.split('\n') if 'error' in l or 'undefined' in l][:25]) or t[-2000:]


class Builder:
    def __init__(self):
        os.makedirs(B + '/obj', exist_ok=True)
        self.repo_files = files(R + '/libmy', ('.c', '.h')) + files(R + '/dnstable', ('.h',)) + files(R, ('.h',))
        self.repo_hash = sha(*[x for p in self.repo_files for x in (p, read(p))])
        self.shim_hash = sha(*[x for p in files(V + '/shim', ('.h',)) for x in (p, read(p))])
        self.lib_hash = sha(*[x for p in files(V + '/lib', ('.h',)) + files(V + '/h', ('.h',)) for x in (p, read(p))])
        self.pool = ThreadPoolExecutor(max_workers=os.cpu_count() or 4)
        self.log = []

    def run(self, cmd):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def compile(self, src, san, kind, extra=(), must=True):
        """kind: 'repo' (C from /repo or shim), 'h' (harness C++), 'hc' (harness C wrapper)"""
        cxx = kind == 'h'
        cmd = (['g++', '-std=c++17'] if cxx else ['gcc', '-std=gnu11']) + BASE + SAN[san] + list(extra) + (HINC if cxx else CINC)
        key = sha(src, read(src), ' '.join(cmd), self.repo_hash, self.shim_hash, self.lib_hash if kind != 'repo' else '')
        obj = '%s/obj/%s-%s.o' % (B, os.path.basename(src), key)
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = obj + '.%d.tmp' % os.getpid()
        r = self.run(cmd + ['-c', src, '-o', tmp])
        if r.returncode:
            self.log.append('%s: %s' % (src, errs(r.stdout)))
            if must:
                raise BuildError('cannot compile %s:\n%s' % (src, errs(r.stdout)))
            return None
        os.rename(tmp, obj)
        return obj

    def many(self, jobs):
        futs = [self.pool.submit(self.compile, *j[0], **j[1]) for j in jobs]
        return [f.result() for f in futs]

    def archive(self, name, objs):
        objs = [o for o in objs if o]
        lib = '%s/obj/lib%s-%s.a' % (B, name, sha(*objs))
        if not os.path.exists(lib):
            tmp = lib + '.%d.tmp' % os.getpid()
            r = self.run(['ar', 'rcs', tmp] + objs)
            if r.returncode:
                raise BuildError('ar: ' + r.stdout)
            os.rename(tmp, lib)
        return lib

    def link(self, name, san, objs, libs, extra=(), cxx=True, ldlibs=()):
        cmd = ['g++' if cxx else 'gcc'] + BASE + SAN[san] + list(extra)
        exe = '%s/obj/%s-%s' % (B, name, sha(' '.join(cmd), *objs, *libs, *ldlibs, *[read(o) for o in ()]))
        if not os.path.exists(exe):
            tmp = exe + '.%d.tmp' % os.getpid()
            r = self.run(cmd + objs + ['-Wl,--start-group'] + libs + ['-Wl,--end-group'] + list(ldlibs) + LIBS + ['-o', tmp])
            if r.returncode:
                raise BuildError('cannot link %s:\n%s' % (name, errs(r.stdout)))
            os.rename(tmp, exe)
        return exe

    def build(self, spec, san):
        """spec: {'name', 'src': [harness files], 'libs': subset of libmy, dnstable, shim; 'cflags', 'ld', 'tools'}"""
        with open(B + '/lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            self.gc()
            return self._build(spec, san)

    def repo_objs(self, d, san, extra=(), skip=()):
        js = []
        for p in files(R + '/' + d, ('.c',)):
            if os.path.basename(p) in skip or p.endswith('_test.c'):
                continue
            js.append(((p, san, 'repo', extra), {'must': False}))
        return js

    def _build(self, spec, san):
        cfl = spec.get('cflags', [])
        groups = []
        jobs = []
        for s in spec['src']:
            jobs.append(((V + '/h/' + s, san, 'h' if s.endswith('.cc') else 'hc', cfl), {}))
        jobs.append(((V + '/lib/vf.cc', san, 'h', []), {}))
        nh = len(jobs)
        for l in spec['libs']:
            if l == 'shim':
                js = [((V + '/shim/mtbl.c', san, 'repo'), {}), ((V + '/shim/wdns.c', san, 'repo'), {})]
            else:
                js = self.repo_objs(l, san, spec.get('repo_cflags', []), spec.get('skip', ()))
            groups.append((l, len(js)))
            jobs += js
        pic = spec.get('tools')
        objs = self.many(jobs)
        libs = []
        i = nh
        for l, n in groups:
            libs.append(self.archive(l, objs[i:i + n]))
            i += n
        exe = self.link(spec['name'], san, objs[:nh], libs, ldlibs=spec.get('ld', ()))
        env = {}
        if spec.get('tools'):
            env = self.tools(san)
        return exe, env

    def tools(self, san):
        """command line tools and libdnstable.so, in one directory"""
        fp = ['-fPIC']
        dn = self.repo_objs('dnstable', san, fp)
        my = self.repo_objs('libmy', san, fp)
        sh = [((V + '/shim/mtbl.c', san, 'repo', fp), {}), ((V + '/shim/wdns.c', san, 'repo', fp), {})]
        src = [((p, san, 'repo', fp), {}) for p in files(R + '/src', ('.c',))] + [((V + '/shim/mtbl_merge.c', san, 'repo', fp), {}), ((V + '/shim/vclock.c', san, 'repo', fp), {})]
        o = self.many(dn + my + sh + src)
        a, b, c = len(dn), len(my), len(sh)
        dno = [x for x in o[:a] if x]
        myl = self.archive('mypic', o[a:a + b])
        sho = o[a + b:a + b + c]
        srco = o[a + b + c:-1]
        clk = o[-1]
        d = '%s/obj/tools-%s' % (B, sha(san, *dno, *o, *[read(p) for p in (R + '/dnstable/libdnstable.sym', R + '/src/dnstable_merge.sh.in') if os.path.exists(p)]))
        if not os.path.isdir(d):
            t = d + '.%d.tmp' % os.getpid()
            os.makedirs(t)

            def lk(out, objs, extra=()):
                r = self.run(['gcc'] + BASE + SAN[san] + list(extra) + objs + ['-Wl,--start-group', myl, '-Wl,--end-group'] + LIBS + ['-o', t + '/' + out])
                if r.returncode:
                    raise BuildError('cannot link %s:\n%s' % (out, errs(r.stdout)))
            vs = R + '/dnstable/libdnstable.sym'
            lk('libdnstable.so', dno + sho, ['-shared'] + (['-Wl,--version-script=' + vs] if os.path.exists(vs) else []))
            for s in srco:
                n = os.path.basename(s).split('.c-')[0]
                if n == 'mtbl_merge':
                    lk(n, [s] + sho)
                else:
                    lk(n, [s, clk] + dno + sho, ['-Wl,--wrap=clock_gettime'])
            sc = R + '/src/dnstable_merge.sh.in'
            if os.path.exists(sc):
                txt = read(sc).decode().replace('@LIBDNSTABLE_DLNAME@', d + '/libdnstable.so')
                with open(t + '/dnstable_merge', 'w') as f:
                    f.write(txt)
                os.chmod(t + '/dnstable_merge', 0o755)
            os.rename(t, d)
        return {'VF_TOOLS': d}

    def gc(self):
        """drop old objects when the build directory grows beyond 1.5 GB"""
        tot, ents = 0, []
        for f in os.listdir(B + '/obj'):
            p = B + '/obj/' + f
            try:
                st = os.stat(p)
            except OSError:
                continue
            sz = st.st_size if not os.path.isdir(p) else sum(os.path.getsize(p + '/' + x) for x in os.listdir(p))
            tot += sz
            ents.append((st.st_mtime, sz, p))
        if tot < 1500e6:
            return
        for m, sz, p in sorted(ents):
            if time.time() - m < 1800:
                continue
            (shutil.rmtree if os.path.isdir(p) else os.unlink)(p)
            tot -= sz
            if tot < 700e6:
                break

"""Runs monitored workloads for one property, decides the verdict and writes the evidence."""
import os, sys, re, json, time, subprocess, signal, shutil, threading, array, hashlib, resource
from concurrent.futures import ThreadPoolExecutor
import build
VERIF = build.VERIF
NCPU = min(8, os.cpu_count() or 1)

class Inconclusive(Exception):
    pass

class Job:
    def __init__(self, name, argv, timeout=120, env=None, cwd=None, san=None, label=None, kinds=None):
        self.name, self.argv, self.timeout, self.env, self.cwd, self.san = name, argv, timeout, env, cwd, san

SAN_RE = re.compile(r'(ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|ERROR: ThreadSanitizer.*|.*runtime error: .*|ERROR: LeakSanitizer.*|==\d+== .*(?:Invalid (?:read|write|free).*|uninitialised.*|definitely lost.*))')

class Check:
    def __init__(self, pid, level='exploration', assumptions=(), rule=''):
        self.pid, self.level, self.assumptions, self.rule = pid, level, list(assumptions), rule
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.quick = self.tier == 'quick'
        self.t0 = time.time()
        self.stats, self.samples, self.ids, self.violations, self.notes = {}, [], set(), [], []
        self.evals = 0
        self.errors = []
        self.extra = {}
        self.lock = threading.Lock()
        self.tag = pid
        self.dir = os.path.join(build.BUILD, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.libs = {}
        self.unbuildable = {}

    # ---- building -------------------------------------------------------------
    def lib(self, config, pic=False, extra_flags=()):
        k = (config, pic, tuple(extra_flags))
        if k not in self.libs:
            self.libs[k] = build.build_lib(config, self.pid, pic, extra_flags)
        return self.libs[k]

    def harness(self, name, config, *a, **k):
        """Like _harness; None if this configuration cannot be built although the product configuration can."""
        if config in self.unbuildable:
            return None
        try:
            return self._harness(name, config, *a, **k)
        except build.BuildError as e:
            if config == 'product':
                raise
            k.update(ldflags=[f for f in k.get('ldflags', ()) if not f.startswith('-fsanitize')], cxxflags=[f for f in k.get('cxxflags', ()) if not f.startswith('-fsanitize')], cc='g++')
            self._harness(name + '-probe', 'product', *a, **k)      # raises if the trouble is general
            self.unbuildable[config] = str(e)[-1500:]
            self.extra.setdefault('configurations_not_built', []).append(config)
            if self.pid == 'C22':
                self.add_violation(Job('build/' + config, ['(build)']), 'configuration-build | the %s configuration does not build: %s' % (config, str(e)[-600:].replace('\n', ' / ')), str(e))
            else:
                print('note: the %s configuration does not build (judged by C22); its workloads are left out: %s' % (config, str(e)[-300:]))
            return None

    def _harness(self, name, config, src, cxxflags=('-O1', '-g', '-fno-omit-frame-pointer'), ldflags=(), cc='g++', extra_objs=(), asm=('harness/mach.S',), lang_flags=('-std=gnu++17',), objs=None, libconfig=None):
        """Compile one harness against one library configuration; returns the program's path."""
        lobjs, inc, d = self.lib(config)
        out = os.path.join(self.dir, name)
        hd = out + '.o.d'
        os.makedirs(hd, exist_ok=True)
        cmds, os_ = [], []
        for s in [src] if isinstance(src, str) else src:
            o = os.path.join(hd, os.path.basename(s) + '.o')
            os_.append(o)
            s = s if os.path.isabs(s) else os.path.join(VERIF, s)
            cmds.append([cc] + list(cxxflags) + list(lang_flags) + ['-w', '-I' + os.path.join(VERIF, 'harness')] + inc + ['-c', s, '-o', o])
        for s in asm:
            o = os.path.join(hd, os.path.basename(s) + '.o')
            os_.append(o)
            cmds.append(['gcc', '-c', os.path.join(VERIF, s), '-o', o])
        build.compile_many(cmds)
        if build.CONFIGS[config].get('so'):
            lobjs = build.shared(config, os.path.join(self.dir, 'libffi-%s.so' % name), lobjs, d, ldflags)
        build.run([cc, '-no-pie' if config in build.NOPIE else '-pie', '-o', out] + os_ + list(lobjs) + list(extra_objs) + list(ldflags) + ['-lpthread'])
        return out

    # ---- running --------------------------------------------------------------
    def _exec(self, job, timeout):
        env = dict(os.environ)
        env.update({'ASAN_OPTIONS': 'abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:detect_stack_use_after_return=0',
                    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66', 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:handle_segv=0:handle_abort=0'})
        env.update(job.env or {})
        p = subprocess.Popen(job.argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=job.cwd, start_new_session=True)
        to = False
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, _ = p.communicate()
        return p.returncode, out.decode('utf-8', 'replace'), to

    def run_job(self, job):
        if self.violations:          # the verdict is in
            return
        rc, out, to = self._exec(job, job.timeout)
        if to or rc == -signal.SIGKILL:
            rc, out, to = self._exec(job, job.timeout * 2)          # once more before calling it a hang
            if rc == -signal.SIGKILL and not to:
                with self.lock:
                    self.errors.append('%s: killed twice (out of memory?)' % job.name)
                return
        m = re.findall(r'^VIOL (.*)$', out, re.M)
        san = SAN_RE.findall(out)
        with self.lock:
            for l in out.splitlines():
                if l.startswith('STAT '):
                    _, k, v = l.split()
                    self.stats[k] = max(self.stats.get(k, 0), int(v)) if k.startswith('max_') else self.stats.get(k, 0) + int(v)
                elif l.startswith('SAMPLE ') and len(self.samples) < 24:
                    self.samples.append(l[7:][:400])
            if to:
                self.add_violation(job, 'hang | %s did not finish within %d s, twice' % (job.name, job.timeout * 2), out)
            elif m:
                for v in m[:1]:
                    self.add_violation(job, v, out)
            elif san:
                self.add_violation(job, 'sanitizer | ' + san[0].strip(), out)
            elif rc < 0:
                self.add_violation(job, 'crash-signal-%d | %s' % (-rc, job.name), out)
            elif rc != 0 or not re.search(r'^DONE', out, re.M):
                self.errors.append('%s: exit %d\n%s' % (job.name, rc, out[-1500:]))

    def run_jobs(self, jobs, width=None):
        with ThreadPoolExecutor(width or NCPU) as ex:
            list(ex.map(self.run_job, jobs))

    def add_violation(self, job, text, out):
        self.violations.append((job, text, out))

    def merge_ids(self, paths):
        for p in paths:
            if os.path.exists(p):
                a = array.array('Q')
                with open(p, 'rb') as f:
                    a.frombytes(f.read())
                self.ids.update(a)
                os.unlink(p)

    # ---- verdict ----------------------------------------------------------------
    def known(self):
        k = []
        path = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(path):
            for l in open(path):
                m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)$', l.strip())
                if m and m.group(1) == self.pid:
                    k.append((re.compile(m.group(2)), m.group(3)))
        return k

    def finish(self, min_evals=1):
        ev = self.evals or self.stats.get('invocations', 0)
        shown = set()
        bad = []
        for job, text, out in self.violations:
            for rx, what in self.known():
                if rx.search(text):
                    if what not in shown:
                        print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
                        shown.add(what)
                    break
            else:
                bad.append((job, text, out))
        cov = {'evaluations': int(ev), 'distinct_nontrivial': len(self.ids) if self.ids else int(self.stats.get('distinct', 0)), 'rule': self.rule,
               'samples': (self.samples[:: max(1, len(self.samples) // 8)][:8] or ['(none)']), 'observed': self.stats}
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
                   'wall_s': round(time.time() - self.t0, 2), 'violations': len(bad)}, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if bad:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            seen = set()
            for n, (job, text, out) in enumerate(bad[:10]):
                rp = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (self.pid, self.tier, n))
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'job': job.name, 'argv': job.argv, 'env': job.env, 'cwd': job.cwd,
                           'violation': text, 'output_tail': out[-6000:],
                           'how': 'VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s rebuilds the program; then run argv' % (self.seed, self.tier, self.pid)}, open(rp, 'w'), indent=1)
                print('  ' + text[:600])
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            self.cleanup()
            return 1
        if self.errors:
            print('ERROR: check of %s could not be completed:' % self.pid)
            for e in self.errors[:5]:
                print(e)
            self.cleanup()
            return 2
        if ev < min_evals:
            print('ERROR: %s observed only %d evaluations' % (self.pid, ev))
            self.cleanup()
            return 2
        print('OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs' % (self.pid, self.tier, ev, cov['distinct_nontrivial'], time.time() - self.t0))
        self.cleanup()
        return 0

    def cleanup(self):
        if not os.environ.get('VERIF_KEEP'):
            if not self.violations:
                shutil.rmtree(self.dir, ignore_errors=True)

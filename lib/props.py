"""One function per property: builds the instrumented programs, runs the workloads, gives the verdict."""
import os, subprocess
import build, emu
from driver import Check, Job, NCPU, VERIF as VERIF_DIR
CHECKS = {}

def prop(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d

STATE = ['callee-saved', 'stack-pointer', 'direction-flag', 'mxcsr', 'x87-control', 'x87-stack', 'errno', 'stack-alignment', 'extension']
CALLK = ['argument', 'callee-count', 'layout']
RESK = ['result', 'result-extent', 'result-pointer']
CLOK = ['closure-argument', 'closure-cif', 'closure-userdata', 'closure-result', 'closure-count', 'result-extent', 'layout']
RAWK = ['raw-argument', 'raw-pack', 'raw-size', 'raw-unpack'] + CALLK + RESK + CLOK
GOK = ['static-chain', 'go-closure'] + CALLK + RESK + CLOK
ABIS = ('unix64', 'gnuw64', 'win64')
MS = ('gnuw64', 'win64')
RULE = ('a case is one signature (systematic: every struct of up to 3 [4 in part] members over 10 member kinds x every register pressure; random: '
        'nested structs, arrays, complex, long double, up to hundreds of arguments) with random and boundary values; non-trivial = at least one argument '
        'or a non-void result; distinct = distinct rendered signatures, merged over all processes')
HOST = 'x86-64 Linux host; natural alignment of at most 16'
WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'mmap munmap mprotect malloc calloc realloc free open memfd_create mkstemp mkostemp write ftruncate close fopen setmntent unlink access'.split())]
TWRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'pthread_mutex_lock pthread_mutex_unlock mmap munmap sysconf'.split())]
SANFLAGS = {'asan': ['-fsanitize=address,undefined'], 'ubsan': ['-fsanitize=undefined'], 'tsan': ['-fsanitize=thread'], 'tsandyn': ['-fsanitize=thread'],
            'asandyn': ['-fsanitize=address,undefined']}

class Runner:
    """Builds harnesses for library configurations and shards workloads over processes."""
    def __init__(self, chk):
        self.c, self.jobs, self.idfiles, self.bins = chk, [], [], {}
    def bin(self, harness, config, wrap=(), asm=(), san_harness=True, defs=(), tag=''):
        k = (harness, config, tag)
        if k not in self.bins:
            san = SANFLAGS.get(config, [])
            cc = 'clang++' if config in ('ubsan', 'msan') else 'g++'
            cx = ['-O1', '-g', '-fno-omit-frame-pointer'] + list(defs) + (san if san_harness else [])
            self.bins[k] = self.c.harness('%s%s-%s' % (harness, tag, config), config, 'harness/%s.cpp' % harness, cxxflags=cx, ldflags=san + list(wrap), cc=cc, asm=asm)
        return self.bins[k]
    def ids(self):
        p = os.path.join(self.c.dir, 'ids%d' % len(self.idfiles))
        self.idfiles.append(p)
        return p
    def shard(self, b, name, args, cases, shards=NCPU, kinds=None, timeout=120, seed_add=0, env=None):
        if not b:
            return
        for k in range(shards):
            m = (cases - k + shards - 1) // shards
            if m <= 0:
                continue
            self.jobs.append(Job('%s/%d' % (name, k), [b] + list(args) + ['--seed=%d' % (self.c.seed + seed_add), '--from=%d' % k, '--step=%d' % shards, '--cases=%d' % m, '--ids=' + self.ids()] +
                                 (['--kinds=' + ','.join(kinds)] if kinds else []), timeout=timeout, env=env))
    def valgrind(self, b, name, args, cases, shards=NCPU, seed_add=0):
        # long doubles have 64 bits of precision there, so only memory errors count
        k = len(self.jobs)
        self.shard(b, 'valgrind/' + name, args, cases, shards, ['none'], 240 if self.c.quick else 3000, seed_add)
        for j in self.jobs[k:]:
            j.argv = ['valgrind', '-q', '--error-exitcode=9', '--max-stackframe=400000000', '--main-stacksize=64000000'] + j.argv
    def run(self, width=None):
        self.c.run_jobs(self.jobs, width)
        self.c.merge_ids(self.idfiles)
        self.jobs, self.idfiles = [], []

class Sig(Runner):
    """Shards of the signature monitor."""
    def sigbin(self, config, counted=False):
        if counted:
            return self.bin('sig', config, wrap=WRAP, asm=('harness/mach.S',), san_harness=False, defs=['-DSIG_WRAP'], tag='-counted')
        return self.bin('sig', config, asm=('harness/mach.S',), san_harness=False)
    def add(self, abi, api, cases, kinds, config='product', enum=False, focus='', shards=NCPU, big=0, timeout=120, counted=False, seed_add=0, extra=()):
        b = self.sigbin(config, counted)
        if not b:
            return
        if enum:
            n = int(subprocess.check_output([b, '--abi=' + abi, '--api=' + api, '--print-enum=1'] + (['--focus=' + focus] if focus else [])))
            cases = min(cases, n) if cases else n
        self.shard(b, '%s/%s/%s%s' % (config, abi, api, '/systematic' if enum else '/random'), ['--abi=' + abi, '--api=' + api, '--enum=%d' % enum, '--big=%d' % big] + (['--focus=' + focus] if focus else []) + list(extra),
                   cases, shards, kinds, timeout, seed_add)

# ---- natively compiled oracle ---------------------------------------------------------------
import natgen
NATRULE = 'a case is one generated signature or structure, compiled as callee, caller and layout oracle by gcc and by clang; distinct = distinct (type text, compiler, convention)'

def native(c, plan, config='product', part=125):
    """plan: {mode: number of generated signatures}. Compiles them with gcc and clang; returns the monitor program."""
    d = os.path.join(c.dir, 'native')
    os.makedirs(d, exist_ok=True)
    cmds, tabs, objs = [], [], []
    for mode, n in plan.items():
        for k, first in enumerate(range(0, n, part)):
            src = os.path.join(d, '%s%d.c' % (mode, k))
            open(src, 'w').write(natgen.gen(c.seed, min(part, n - first), mode, first))
            for cc, opt in (('gcc', ('-O1', '-O2', '-O0')[k % 3]), ('clang', ('-O1', '-O0', '-O2')[k % 3])):
                t = 'nat_%s_%d_%s' % (mode, k, cc)
                o = os.path.join(d, t + '.o')
                cmds.append([cc, opt, '-w', '-std=gnu17', '-ffp-contract=off', '-I' + os.path.join(VERIF_DIR, 'harness'), '-DTABLE=' + t, '-DCOUNT=%s_n' % t, '-c', src, '-o', o])
                objs.append(o)
                tabs.append((mode, cc, t))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(build.run, cmds))
    with open(os.path.join(d, 'nat_tables.h'), 'w') as f:
        f.write('extern "C" {' + ''.join('extern const struct nat_sig %s[]; extern const int %s_n;\n' % (t, t) for _, _, t in tabs) + '}\n')
        f.write('struct nat_tab { const char *name; const nat_sig *t; const int &n; bool ms, var, layout, clang; };\nstatic const nat_tab nat_tabs[] = {\n')
        for mode, cc, t in tabs:
            f.write('{ "%s-%s", %s, %s_n, %d, %d, %d, %d },\n' % (mode, cc, t, t, mode in ('ms', 'msvar'), mode in ('var', 'msvar'), mode == 'layout', cc == 'clang'))
        f.write('};\n')
    return c.harness('native-' + config, config, 'harness/native.cpp', cxxflags=('-O1', '-g', '-fno-omit-frame-pointer', '-I' + d), asm=(), extra_objs=objs)

def natjobs(c, r, b, tables, abi, trials, kinds, shards=NCPU):
    n = int(subprocess.check_output([b, '--tables=' + tables, '--print-count=1']))
    r.shard(b, 'native/%s/%s' % (tables, abi), ['--tables=' + tables, '--abi=' + abi, '--trials=%d' % trials], n, shards, kinds, 120 if c.quick else 3000)

def sigprop(pid, plan, kinds, assumptions=(), more=None):
    @prop(pid)
    def f():
        c = Check(pid, rule=RULE, assumptions=[HOST] + list(assumptions))
        s = Sig(c)
        for abi, api, enum, rnd in plan:
            mult = 1 if c.quick else 25
            if enum:
                s.add(abi, api, 0, kinds, enum=True, focus='sys4' if abi == 'unix64' and (enum == 2 or not c.quick) else '', timeout=120 if c.quick else 900)
            s.add(abi, api, rnd * mult, kinds, big=0 if c.quick else 1, timeout=120 if c.quick else 3000)
        if more:
            more(c, s)
        s.run()
        return c.finish(1000)

def with_native(plan):
    """plan: [(mode, abi, kinds)] - natively compiled callees and callers beside the model."""
    def more(c, s):
        modes = {m: (375 if c.quick else 6000) for m, _, _ in plan}
        b = native(c, modes)
        for m, abi, kinds in plan:
            for cc in ('gcc', 'clang'):
                natjobs(c, s, b, '%s-%s' % (m, cc), abi, 6 if c.quick else 20, kinds, 2 if c.quick else 4)
    return more

sigprop('C01', [('unix64', 'call', 2, 800000)], CALLK + ['extension'], more=with_native([('sysv', 'unix64', CALLK)]))
sigprop('C02', [('unix64', 'call', 2, 800000)], RESK + ['callee-count', 'x87-stack'], more=with_native([('sysv', 'unix64', RESK)]))
sigprop('C03', [(a, 'call', 1, 400000) for a in MS], CALLK + RESK, more=with_native([('ms', a, CALLK + RESK) for a in MS]))
sigprop('C04', [('unix64', 'closure', 2, 600000)], CLOK, more=with_native([('sysv', 'unix64', CLOK)]))
sigprop('C05', [(a, 'closure', 1, 400000) for a in MS], CLOK, more=with_native([('ms', a, CLOK) for a in MS]))

@prop('C06')
def c06():
    c = Check('C06', rule='a case is one variadic signature: generated C compiled by gcc and clang that reads the variable arguments with va_arg, a machine-state probe run, or a preparation with a random mix of allowed and forbidden '
                          'variable arguments; distinct = distinct signatures', assumptions=[HOST, 'gcc 13.3 and clang 18.1 as installed'])
    s = Sig(c)
    for abi in ABIS:
        s.add(abi, 'varcall', 300000 if c.quick else 8000000, CALLK + RESK + ['vector-count'], timeout=120 if c.quick else 3000)
    b = native(c, dict(var=1250 if c.quick else 12000, msvar=500 if c.quick else 6000))
    for mode, abis in (('var', ('unix64',)), ('msvar', MS)):
        for abi in abis:
            for cc in ('gcc', 'clang'):
                natjobs(c, s, b, '%s-%s' % (mode, cc), abi, 10 if c.quick else 30, None)
    s.shard(b, 'preparation rules', ['--status=1'], 400000 if c.quick else 20000000, NCPU, None, 120 if c.quick else 3000)
    s.run()
    return c.finish(1000)

@prop('C07')
def c07():
    c = Check('C07', rule=NATRULE + '; or one random structure description (nested, shared, deep, wide, beyond 4 GiB) laid out several times in several ways, compared with the monitor\'s model of C layout, '
                          'which is itself compared with both compilers', assumptions=[HOST])
    s = Sig(c)
    b = native(c, dict(layout=3000 if c.quick else 30000))
    for abi in ABIS:
        natjobs(c, s, b, 'layout', abi, 1, None)
    for cfg in ('product', 'clang'):
        p = s.bin('prep', cfg)
        s.shard(p, 'layouts/' + cfg, ['--mode=layout', '--big=%d' % (not c.quick)], 250000 if c.quick else 4000000, NCPU, None, 120 if c.quick else 3000)
    for abi in ABIS:
        s.add(abi, 'call', 100000 if c.quick else 2000000, ['layout'])
    s.run()
    return c.finish(1000)

@prop('C08')
def c08():
    c = Check('C08', rule='a case is one signature, valid or with some structures lacking members or with an unsupported ABI number, prepared up to three times, queried, repaired, prepared again, compared with a preparation of '
                          'fresh objects and used; distinct = distinct cases', assumptions=[HOST, 'type objects are of known kinds, complete where they claim to be, and not recursive'])
    s = Runner(c)
    for cfg, n in (('product', 1000000), ('o0', 200000), ('debug', 200000), ('asan', 60000)):
        p = s.bin('prep', cfg)
        s.shard(p, 'statuses/' + cfg, ['--mode=status', '--odd=%d' % (cfg != 'debug'), '--big=%d' % (not c.quick)], n if c.quick else n * 20, NCPU, None, 120 if c.quick else 3000)
    s.run()
    return c.finish(1000)

CALLS = ['call', 'gocall', 'rawcall', 'varcall']
CLOSURES = ['closure', 'goclosure', 'rawclosure']
sigprop('C09', [(a, x, 0, 130000 if a == 'unix64' else 60000) for a in ABIS for x in CALLS + CLOSURES + ['jrawcall', 'jrawclosure']] +
        [('unix64', 'call', 1, 1), ('unix64', 'closure', 1, 1)], STATE, ['the extension rule is checked for the System V convention only'])
sigprop('C10', [(a, x, 0, 300000 if x == 'call' else 100000) for a in ABIS for x in ('call', 'gocall', 'varcall')], ['result-extent', 'argument', 'result', 'layout', 'callee-count'],
        ['read-only and guard pages decide; the callee overwrites its by-reference and stack copies'])
sigprop('C17', [(a, x, 0, 120000) for a in ABIS for x in ('rawcall', 'jrawcall', 'rawclosure', 'jrawclosure')], RAWK,
        ['the Java raw interface is limited to integers, floats, doubles and pointers'])
sigprop('C18', [(a, x, 0, 150000) for a in ABIS for x in ('gocall', 'goclosure')] + [('unix64', 'gocall', 1, 1), ('unix64', 'goclosure', 1, 1)], GOK)

@prop('C22')
def c22():
    c = Check('C22', rule=RULE + '; every configuration is run over the same seeds', assumptions=[HOST, 'gcc 13.3 and clang 18.1 as installed'])
    s = Sig(c)
    cfgs = ['product', 'so', 'o0', 'nocet', 'clang', 'clangcet', 'dyn', 'dynclang', 'debug']
    per = 9000 if c.quick else 150000
    c.harness_cfgs = cfgs
    for cfg in cfgs:
        for abi in ABIS:
            for api in ('call', 'closure', 'gocall', 'goclosure', 'rawcall', 'rawclosure', 'varcall'):
                s.add(abi, api, per, None, config=cfg, shards=1 if c.quick else 2, timeout=120 if c.quick else 3000)
        if cfg != 'product':
            s.add('unix64', 'call', 0 if not c.quick else 20000, None, config=cfg, enum=True, shards=2)
            s.add('unix64', 'closure', 0 if not c.quick else 20000, None, config=cfg, enum=True, shards=2)
        static = not cfg.startswith('dyn')
        b = s.bin('closures', cfg, wrap=WRAP)
        s.shard(b, 'histories/' + cfg, ['--mode=history', '--ops=%d' % (6000 if c.quick else 30000), '--static=%d' % static], 4 if c.quick else 80, 2, None)
        if not static:
            s.shard(b, 'histories/memfd/' + cfg, ['--mode=history', '--ops=3000', '--static=0', '--policy=2'], 4 if c.quick else 40, 2, None)
    c.extra['configurations'] = cfgs
    s.run()
    return c.finish(1000)

# ---- control flow that does not return normally ----------------------------------------
UNWFLAGS = ('-O2', '-g', '-fomit-frame-pointer', '-fno-reorder-blocks-and-partition')

@prop('C19')
def c19():
    c = Check('C19', rule='a case is a chain of up to 40 calls, closures, Go closures, raw closures and native callees (each with a random signature) at whose end an exception is thrown, the thread exits or the stack is '
                          'walked; distinct = distinct chains', assumptions=[HOST, 'the C++ runtime and unwinder of gcc 13.3'])
    r = Runner(c)
    for cfg, n in (('product', 1200000), ('nocet', 200000), ('clang', 200000), ('clangcet', 200000), ('dyn', 120000), ('debug', 120000), ('o0', 120000)):
        b = c.harness('unwind-' + cfg, cfg, 'harness/unwind.cpp', cxxflags=UNWFLAGS, asm=())
        r.shard(b, 'chains/' + cfg, [], n // 2 if c.quick else n * 25, NCPU, None, 120 if c.quick else 3000)
        r.shard(b, 'single step/' + cfg, ['--single=1'], n // 400 if c.quick else n // 5, NCPU, None, 120 if c.quick else 3000)
    r.run()
    return c.finish(1000)

@prop('C20')
def c20():
    c = Check('C20', rule='a case is one signature whose call or closure invocation is interrupted after every single instruction by a signal handler that overwrites the free stack, performs calls and closure invocations and in '
                          'some cases leaves by siglongjmp; or one tree of nested calls and closures of mixed conventions up to 3000 deep with longjmps and timer signals; distinct = distinct signatures and trees',
              assumptions=[HOST, 'signal handlers run on the interrupted stack'])
    s = Sig(c)
    q = 1 if c.quick else 15
    for abi in ABIS:
        for api in ('call', 'closure', 'gocall', 'goclosure', 'rawcall', 'rawclosure', 'jrawcall', 'jrawclosure', 'varcall'):
            s.add(abi, api, (400 if abi == 'unix64' else 800) * q, None, shards=2 if c.quick else 4, timeout=120 if c.quick else 3000, extra=['--trap=40'])
    for cfg in ('clang', 'nocet', 'debug'):
        for api in ('call', 'closure'):
            for abi in ABIS:
                s.add(abi, api, 100 * q, None, config=cfg, shards=1, timeout=120 if c.quick else 3000, extra=['--trap=40'])
    for cfg, n in (('product', 12000), ('clang', 2000), ('dyn', 2000), ('debug', 2000)):
        s.shard(s.bin('reent', cfg), 'nesting/' + cfg, [], n if c.quick else n * 15, NCPU, None, 120 if c.quick else 3000)
    s.run()
    return c.finish(1000)

@prop('C26')
def c26():
    c = Check('C26', rule='a case is one signature whose calls or closure invocations are observed instruction by instruction under a software model of indirect branch tracking and the shadow stack; '
                          'distinct = distinct signatures', assumptions=[HOST, 'the processor\'s own enforcement is not available here; its rules are applied by the monitor to every instruction executed'])
    s = Sig(c)
    q = 1 if c.quick else 20
    k = ['landing-pad', 'return-address', 'cet-marking']
    for cfg, m in (('product', 3), ('dyn', 1), ('clangcet', 1), ('so', 1), ('debug', 1)):
        # bound at start: the lazy stubs of the test program are not the library's
        s.bin('sig', cfg, asm=('harness/mach.S',), san_harness=False, wrap=['-Wl,-z,now'])
        for abi in ABIS:
            for api in ('call', 'closure', 'gocall', 'goclosure', 'rawcall', 'rawclosure', 'jrawcall', 'jrawclosure', 'varcall'):
                s.add(abi, api, 120 * m * q, k, config=cfg, shards=1 if c.quick else 4, timeout=120 if c.quick else 3000, extra=['--cet=1'])
    objs, d = native32(c, dict(i386=300 if c.quick else 3000, i386var=75 if c.quick else 750), flags=['-fcf-protection'])
    for cfg in build.I386_CET:
        b = harness32(c, cfg, 'x32-' + cfg, objs, d, flags=['-fcf-protection'])
        if b:
            n = int(subprocess.check_output([b, '--print-count=1']))
            s.shard(b, 'x32/' + cfg, ['--trials=2', '--cet=1'], n, 4, ['i386-landing-pad', 'i386-return-address'], 120 if c.quick else 3000)
    s.run()
    return c.finish(1000)

@prop('C27')
def c27():
    c = Check('C27', rule='a case is one signature or history of closure operations carried out by a program compiled against the headers of the pinned tree and linked to the shared library built from the current one, or one '
                          'versioned symbol; distinct = distinct signatures, states and symbols', assumptions=[HOST, 'the interface of the pinned tree, symbol versions LIBFFI_*_8.0, stands for all earlier programs'])
    s = Sig(c)
    q = 1 if c.quick else 20
    pair = {}
    def both(harness, **k):
        b = s.bin(harness, 'abi', **k)
        pair[b] = lambda: s.bin(harness, 'so', **k)
        return b
    b = both('binabi', asm=(), san_harness=False)
    s.shard(b, 'symbols', ['--so=' + os.path.join(c.dir, 'libffi-binabi-abi.so')], 1, 1)
    both('sig', asm=('harness/mach.S',), san_harness=False)
    for abi in ABIS:
        for api in ('call', 'closure', 'gocall', 'goclosure', 'rawcall', 'rawclosure', 'jrawcall', 'jrawclosure', 'varcall'):
            s.add(abi, api, 6000 * q, None, config='abi', shards=1 if c.quick else 4, timeout=120 if c.quick else 3000)
    b = both('prep')
    for mode in ('layout', 'status'):
        s.shard(b, mode, ['--mode=' + mode], 20000 * q, 4, None, 120 if c.quick else 3000)
    b = both('closures', wrap=WRAP)
    s.shard(b, 'histories', ['--mode=history', '--ops=6000', '--static=1'], 16 * q, NCPU, None, 120 if c.quick else 3000)
    s.run()
    # what also fails with the current headers is no matter of compatibility: the other properties judge it
    mine = []
    for job, text, out in c.violations:
        if 'binabi' not in job.argv[0]:
            rc, o, to = c._exec(Job(job.name, [pair[job.argv[0]]()] + job.argv[1:]), 240)
            if rc != 0:
                print('note: %s fails with the current headers as well: %s' % (job.name, text[:300]))
                continue
        mine.append((job, text, out))
    c.violations = mine
    return c.finish(1000)

# ---- closure memory ------------------------------------------------------------------
HRULE = ('a case is one history of allocate, prepare, re-prepare, invoke, query, check and free operations over a palette of 12 signatures x 4 handlers in two conventions; '
         'distinct = distinct (live closures, mappings, heap blocks) states of the library seen')

def cloprop(pid, kinds, plan, more=None, rule=HRULE, assumptions=()):
    @prop(pid)
    def f():
        c = Check(pid, rule=rule, assumptions=[HOST] + list(assumptions))
        r = Sig(c)
        for cfg, mode, args, cases, ops in plan:
            b = r.bin('closures', cfg, wrap=WRAP)
            m = 1 if c.quick else 12
            r.shard(b, '%s/%s%s' % (cfg, mode, ''.join(args)), ['--mode=' + mode, '--ops=%d' % (ops if c.quick else ops * 4), '--static=%d' % (not cfg.startswith('dyn'))] + args, cases * m, NCPU, kinds, 120 if c.quick else 3000)
        if more:
            more(c, r)
        r.run()
        return c.finish(1000)

CLOSK = ['overlap', 'misrouted', 'content', 'data-to-code', 'closure-memory', 'closure-code', 'impossible-size']
cloprop('C11', CLOSK, [('product', 'history', [], 160, 20000), ('dyn', 'history', [], 64, 20000), ('dyn', 'history', ['--policy=2'], 32, 6000), ('product', 'cycle', [], 32, 40000),
                       ('debug', 'history', [], 32, 8000)])

def c12more(c, r):
    for abi in ABIS:
        for api in ('call', 'closure', 'rawcall', 'jrawcall', 'varcall', 'rawclosure', 'goclosure'):
            r.add(abi, api, 20000 if c.quick else 400000, ['call-allocates'], counted=True, shards=1 if c.quick else 4)
    for cfg in ('product', 'dyn'):
        b = r.bin('faults', cfg, wrap=WRAP)
        r.shard(b, 'descriptors/' + cfg, ['--mode=order', '--static=%d' % (cfg == 'product')], 800 if c.quick else 20000, 4, ['descriptor-inherited', 'descriptors-leak', 'name-left'])
cloprop('C12', ['mappings-grow', 'heap-grows', 'descriptors-grow', 'descriptor-inherited', 'tables-not-returned', 'call-allocates'],
        [('product', 'cycle', [], 96, 60000), ('dyn', 'cycle', [], 48, 60000), ('dyn', 'cycle', ['--policy=2'], 32, 8000), ('product', 'history', [], 64, 20000), ('dyn', 'history', [], 24, 20000)], c12more)

cloprop('C16', ['writable-executable', 'code-modified', 'policy', 'closure-memory', 'closure-code', 'misrouted'],
        [('product', 'history', ['--expect-wx0=1'], 96, 12000), ('product', 'history', ['--policy=1', '--expect-wx0=1'], 64, 12000), ('product', 'history', ['--policy=2', '--expect-wx0=1'], 16, 12000),
         ('clang', 'history', ['--policy=1', '--expect-wx0=1'], 16, 6000), ('so', 'history', ['--policy=1', '--expect-wx0=1'], 16, 6000), ('product', 'cycle', ['--policy=1', '--expect-wx0=1'], 32, 20000)],
        assumptions=['the default (static trampoline) configuration under normal resource conditions; a kernel filter and page protection scans decide'])

@prop('C13')
def c13():
    c = Check('C13', rule='a case is a run of 2 to 8 threads with seeded operations and injected delays at every lock, mapping and first-use step; distinct = distinct windows of 8 consecutive operations '
                          '(thread, kind) involving at least two threads, in the order they really started', assumptions=[HOST, 'ThreadSanitizer for the C code; the assembly has no shared data'])
    r = Runner(c)
    q = 1 if c.quick else 10
    K = None
    plans = [('tsan', 'stress', [], 48, 12000), ('tsan', 'first', [], 400, 0), ('tsandyn', 'stress', [], 24, 12000), ('tsandyn', 'first', [], 200, 0),
             ('product', 'stress', [], 160, 40000), ('product', 'stress', ['--delay=0'], 160, 60000), ('product', 'first', [], 2000, 0), ('product', 'first', ['--delay=300'], 400, 0),
             ('dyn', 'stress', ['--policy=2'], 16, 8000), ('dyn', 'first', ['--policy=2'], 200, 0), ('tsandyn', 'stress', ['--policy=2'], 8, 4000)]
    for cfg, mode, args, cases, rounds in plans:
        b = r.bin('threads', cfg, wrap=TWRAP)
        r.shard(b, '%s/%s%s' % (cfg, mode, ''.join(args)), ['--mode=' + mode, '--threads=8', '--rounds=%d' % (rounds or 1)] + args, cases * q, 4, K, 120 if c.quick else 3000)
    r.run(4)
    return c.finish(1000)

@prop('C21')
def c21():
    c = Check('C21', rule='a case is one closure history with up to three nested forks, some of them inside a closure handler, whose processes continue in turns or concurrently, each with its own shadow table; distinct = '
                          'distinct cases', assumptions=[HOST, 'no other thread is inside the library during a fork', 'closures in private memory: static trampolines or anonymous executable memory'])
    r = Runner(c)
    for cfg, n in (('product', 16000), ('nocet', 4000), ('clang', 4000), ('dyn', 8000), ('dynclang', 3000), ('debug', 3000)):
        r.shard(r.bin('forks', cfg), 'forks/' + cfg, [], n if c.quick else n * 25, NCPU, None, 120 if c.quick else 3000)
    r.run()
    return c.finish(1000)

@prop('C25')
def c25():
    c = Check('C25', rule='a case is one signature, preparation, closure history, fault plan or multi-threaded run of the other monitors, executed with the library compiled with AddressSanitizer and '
                          'UndefinedBehaviorSanitizer (gcc and clang), with the closure heap\'s own consistency checks, or under valgrind with every object the library fills in marked uninitialised; '
                          'distinct = distinct cases', assumptions=[HOST, 'C code; the assembly is judged by the machine-state monitors', 'misaligned accesses are left to the architecture, which permits them'])
    s = Sig(c)
    apis = ('call', 'closure', 'gocall', 'goclosure', 'rawcall', 'rawclosure', 'jrawcall', 'jrawclosure', 'varcall')
    q = 1 if c.quick else 20
    T = 120 if c.quick else 3000
    for abi in ABIS:
        for api in apis:
            for cfg in ('asan', 'ubsan'):
                s.add(abi, api, (4000 if cfg == 'asan' else 6000) * q, None, config=cfg, big=1, shards=1 if c.quick else 4, timeout=T, seed_add=1000)
    for api in ('call', 'closure'):
        for cfg in ('asan', 'ubsan'):
            s.add('unix64', api, 6000 if c.quick else 0, None, config=cfg, enum=True, shards=2, timeout=T)
    for cfg in ('asan', 'ubsan'):
        p = s.bin('prep', cfg)
        for mode in ('status', 'layout'):
            s.shard(p, mode + '/' + cfg, ['--mode=' + mode, '--big=1'], 20000 * q, 4, None, T, 1000)
    for cfg, static in (('asan', 1), ('asandyn', 0), ('ubsan', 1), ('heapcheck', 1), ('heapcheckdyn', 0)):
        b = s.bin('closures', cfg, wrap=WRAP, san_harness=False)
        s.shard(b, 'histories/' + cfg, ['--mode=history', '--ops=20000', '--static=%d' % static], 16 * q, 4, None, T, 1000)
        s.shard(b, 'cycles/' + cfg, ['--mode=cycle', '--ops=20000', '--static=%d' % static], 16 * q, 4, None, T, 1000)
        if not static:
            s.shard(b, 'histories/memfd/' + cfg, ['--mode=history', '--ops=4000', '--static=0', '--policy=2'], 8 * q, 4, None, T, 1000)
    for cfg, static in (('asan', 1), ('asandyn', 0), ('heapcheck', 1), ('heapcheckdyn', 0)):
        b = s.bin('faults', cfg, wrap=WRAP, san_harness=False)
        for env in (0, 1, 2, 3):
            s.shard(b, 'faults/%s/env%d' % (cfg, env), ['--mode=inject', '--env=%d' % env, '--static=%d' % static], 80 * q, 2, None, T, 1000)
        s.shard(b, 'order/' + cfg, ['--mode=order', '--static=%d' % static], 100 * q, 2, None, T, 1000)
    for cfg in ('heapcheck', 'heapcheckdyn'):
        b = s.bin('threads', cfg, wrap=TWRAP)
        s.shard(b, 'threads/' + cfg, ['--mode=stress', '--threads=8', '--rounds=8000'], 8 * q, 2, None, T, 1000)
    for cfg in ('o0', 'product'):
        for abi in ABIS:
            for api in apis:
                s.valgrind(s.sigbin(cfg), '%s/%s/%s' % (cfg, abi, api), ['--abi=' + abi, '--api=' + api], (800 if abi == 'unix64' else 400) * q, 1, 2000)
    p = s.bin('prep', 'o0')
    for mode in ('status', 'layout'):
        s.valgrind(p, mode, ['--mode=' + mode], 1500 * q, 2, 2000)
    for cfg, static in (('o0', 1), ('dyn', 0)):
        b = s.bin('closures', cfg, wrap=WRAP)
        s.valgrind(b, 'histories/' + cfg, ['--mode=history', '--ops=1500', '--static=%d' % static], 8 * q, 2, 2000)
        s.valgrind(b, 'cycles/' + cfg, ['--mode=cycle', '--ops=1500', '--static=%d' % static], 8 * q, 2, 2000)
    s.run()
    return c.finish(1000)

FRULE = 'a case is one fault plan (which requests are refused, when, for how long) applied to one closure history in a fresh process; distinct = distinct plans'

@prop('C14')
def c14():
    c = Check('C14', rule=FRULE, assumptions=[HOST, 'requests are refused at the library\'s calls to mmap, malloc, open, memfd_create, mkstemp, write, ftruncate and fopen'])
    r = Runner(c)
    q = 1 if c.quick else 15
    for cfg in ('product', 'dyn', 'so'):
        b = r.bin('faults', cfg, wrap=WRAP)
        for env in (0, 1, 2, 3):
            r.shard(b, '%s/env%d' % (cfg, env), ['--mode=inject', '--env=%d' % env, '--static=%d' % (cfg != 'dyn')], (1200 if cfg != 'so' else 160) * q, NCPU, None, 120 if c.quick else 3000)
    for cfg in ('asan', 'asandyn'):
        b = r.bin('faults', cfg, wrap=WRAP, san_harness=False)
        for env in (0, 1, 3):
            r.shard(b, '%s/env%d' % (cfg, env), ['--mode=inject', '--env=%d' % env, '--static=%d' % (cfg == 'asan')], 120 * q, NCPU, None, 120 if c.quick else 3000)
    r.run()
    return c.finish(1000)

@prop('C15')
def c15():
    c = Check('C15', rule='a case is one state of the candidate list: for each candidate whether a file can be created (with or without a name), has space and may be mapped executable, the environment variables and two mount '
                          'tables; distinct = distinct states', assumptions=[HOST, 'directories are redirected to a scratch directory, mount tables substituted'])
    r = Runner(c)
    for cfg in ('dyn', 'product'):
        b = r.bin('faults', cfg, wrap=WRAP)
        r.shard(b, 'order/' + cfg, ['--mode=order', '--static=%d' % (cfg == 'product')], (6000 if c.quick else 200000), NCPU, None, 120 if c.quick else 3000)
    r.run()
    return c.finish(1000)

@prop('C24')
def c24():
    c = Check('C24', rule='a case is one thing done to the library\'s file (16 actions) x one file name (9, with spaces and look-alikes) x one set of refused requests; distinct = distinct combinations', assumptions=[HOST])
    r = Runner(c)
    b = r.bin('faults', 'product', wrap=WRAP)
    b2 = r.bin('faults', 'nocet', wrap=WRAP)
    b3 = r.bin('faults', 'clang', wrap=WRAP)
    n = 800 if c.quick else 12000
    r.shard(b, 'file/product', ['--mode=fs', '--other=%s' % b2], n, NCPU, None, 120 if c.quick else 3000)
    b4 = r.bin('faults', 'so', wrap=WRAP)
    if b4:
        r.shard(b4, 'file/shared library', ['--mode=fs', '--other=%s' % b2, '--so=' + os.path.join(c.dir, 'libffi-faults-so.so')], n // 2, NCPU, None, 120 if c.quick else 3000)
    r.shard(b2, 'file/nocet', ['--mode=fs', '--other=' + b], n // 4, 2, None, 120 if c.quick else 3000)
    r.shard(b3, 'file/clang', ['--mode=fs', '--other=' + b], n // 4, 2, None, 120 if c.quick else 3000)
    r.run()
    return c.finish(1000)

# ---- the 32-bit back end ------------------------------------------------------------------------
def native32(c, plan, part=125, flags=()):
    """Generated 32-bit functions compiled with gcc and clang; returns (objects, directory of the table header)."""
    d = os.path.join(c.dir, 'native32')
    os.makedirs(d, exist_ok=True)
    cmds, tabs, objs = [], [], []
    for mode, n in plan.items():
        for k, first in enumerate(range(0, n, part)):
            src = os.path.join(d, '%s%d.c' % (mode, k))
            open(src, 'w').write(natgen.gen(c.seed, min(part, n - first), mode, first))
            for cc, opt in (('gcc', ('-O1', '-O2', '-O0')[k % 3]), ('clang', ('-O1', '-O0', '-O2')[k % 3])):
                t = 'nat_%s_%d_%s' % (mode, k, cc)
                o = os.path.join(d, t + '.o')
                cmds.append([cc, opt, '-w', '-std=gnu17', '-ffp-contract=off', '-fno-pie', '-fno-stack-protector', '-DNAT_I386'] + list(flags) + build.i386_flags(c.pid) + ['-I' + os.path.join(VERIF_DIR, 'harness'), '-DTABLE=' + t, '-DCOUNT=%s_n' % t, '-c', src, '-o', o])
                objs.append(o)
                tabs.append((mode, cc, t))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(build.run, cmds))
    with open(os.path.join(d, 'nat_tables.h'), 'w') as f:
        f.write(''.join('extern const struct nat_sig %s[]; extern const int %s_n;\n' % (t, t) for _, _, t in tabs) + 'static const struct nat_tab nat_tabs[] = {\n')
        for mode, cc, t in tabs:
            f.write('{ "%s-%s", %s, &%s_n, %d },\n' % (mode, cc, t, t, mode == 'i386var'))
        f.write('};\n')
    return objs, d

def harness32(c, config, name, objs, d, flags=()):
    try:
        lib, inc = build.build_i386(config, c.pid)
    except build.BuildError as e:
        c.add_violation(Job('build/' + config, ['(build)']), 'i386-build | the %s configuration does not build: %s' % (config, str(e)[-600:].replace('\n', ' / ')), str(e))
        return None
    h = [os.path.join(VERIF_DIR, 'harness', x) for x in ('x32.c', 'mach32.S', 'start32.S')]
    out, o = os.path.join(c.dir, name), []
    cmds = []
    for s in h:
        o.append('%s.%s.o' % (out, os.path.basename(s)))
        cmds.append(['gcc', '-O1', '-g', '-w', '-std=gnu17', '-fno-pie', '-fno-stack-protector', '-DNAT_I386'] + list(flags) + ['-I' + d, '-I' + os.path.join(VERIF_DIR, 'harness')] + inc + build.i386_flags(c.pid) + ['-c', s, '-o', o[-1]])
    build.compile_many(cmds)
    build.run(['gcc', '-m32'] + build.I386_LINK + (['-Wl,-z,now'] if flags else []) + ['-o', out] + o + lib + objs + build.I386_LIBS)
    return out

@prop('C23')
def c23():
    c = Check('C23', rule='a case is one generated signature in one of five 32-bit conventions (System V, stdcall, fastcall, thiscall, caller-popped aggregates; or variadic), compiled as callee, caller and layout oracle by gcc and by '
                          'clang with -m32 and used with every interface of the library; distinct = distinct (type text, compiler, convention)',
              assumptions=['32-bit x86 Linux programs on the x86-64 host\'s kernel and preinstalled 32-bit C library', 'gcc 13.3 and clang 18.1 as installed'])
    r = Runner(c)
    q = c.quick
    objs, d = native32(c, dict(i386=3000 if q else 15000, i386var=750 if q else 4000))
    for cfg in build.I386_CONFIGS:
        b = harness32(c, cfg, 'x32-' + cfg, objs, d)
        if not b:
            continue
        n = int(subprocess.check_output([b, '--print-count=1']))
        r.shard(b, 'x32/' + cfg, ['--trials=%d' % ((40 if cfg == 'i386' else 10) * (1 if q else 5))], n, NCPU if cfg == 'i386' else 4, None, 120 if q else 3000)
    r.run()
    if not c.violations:    # a known finding: last, and alone
        r.shard(os.path.join(c.dir, 'x32-i386'), 'x32/raw thiscall', ['--rawthis=1', '--tables=i386-gcc'], n, 1)
        r.run()
    return c.finish(1000)


EMU_RULE = ('a case is one generated signature compiled by clang for that architecture as callee, caller and layout oracle, and used with every interface of the library under the interpreter; '
            'distinct = distinct (type text, kind of table)')
EMU_ASSUME = ['the interpreter in harness/emu carries out the instructions as the architecture defines them; what it does not know ends a run (observed as gaps)', 'clang 18.1 follows the platform\'s calling convention', 'a guest C library of a few functions; one thread']

def emulated(c, r, arch, configs, plan, trials, natflags=(), tag='', shards=NCPU):
    """One architecture: its library in several configurations (name, flags, static trampolines, interpreter options, share of the cases)."""
    d = os.path.join(c.dir, 'emu', arch + tag)
    nat = emu.natives(arch, os.path.join(d, 'nat'), c.seed, plan, flags=natflags, part=60 if c.quick else 125)
    if not hasattr(r, 'emus'):
        r.emus = {}
    isa = emu.ARCHES[arch]['isa']
    if isa not in r.emus:
        r.emus[isa] = emu.emulator(arch, os.path.join(c.dir, 'emu'))
    e, bad = r.emus[isa], []
    for name, flags, static, opts, share in configs:
        g = emu.Guest(arch, os.path.join(d, name), flags=list(flags) + list(natflags), static=static)
        try:
            lib = g.lib()
        except build.BuildError as x:
            bad.append(str(x))
            c.extra.setdefault('configurations_not_built', []).append('%s/%s' % (arch, name))
            continue
        im = emu.image(g, lib, nat)
        n = int(subprocess.check_output([e, '--image=' + im, '--print-count=1']))
        r.shard(e, '%s%s/%s' % (arch, tag, name), ['--image=' + im, '--trials=%d' % trials, '--pool=%d' % (600 if share == 1 else 120)] + list(opts), int(n * share), shards if share == 1 else min(shards, 3), None, 200 if c.quick else 3000)
    if len(bad) == len(configs):
        raise build.BuildError(bad[0])

@prop('C28')
def c28():
    c = Check('C28', rule=EMU_RULE, assumptions=EMU_ASSUME)
    r, q = Runner(c), c.quick
    k = 1 if q else 6
    emulated(c, r, 'riscv64', [('o2', ['-O2'], False, [], 1), ('o0', ['-O0'], False, [], .3), ('o3', ['-O3', '-fomit-frame-pointer', '-ffast-math'], False, [], .3), ('os', ['-Os'], False, [], .3), ('debug', ['-O2', '-DFFI_DEBUG'], False, [], .1)], dict(emu=3000 * k, emuvar=800 * k), 5)
    for a in ('riscv64-lp64', 'riscv64-lp64f', 'riscv32-ilp32d', 'riscv32-ilp32f', 'riscv32-ilp32'):
        emulated(c, r, a, [('o2', ['-O2'], False, [], 1), ('o0', ['-O0'], False, [], .2)], dict(emu=400 * k, emuvar=100 * k), 4, shards=4)
    r.run()
    return c.finish(20000)

@prop('C29')
def c29():
    c = Check('C29', rule=EMU_RULE, assumptions=EMU_ASSUME)
    r, q = Runner(c), c.quick
    k = 1 if q else 6
    emulated(c, r, 'aarch64', [('o2', ['-O2'], True, [], 1), ('o0', ['-O0'], True, [], .3), ('dyn', ['-O3', '-fomit-frame-pointer', '-ffast-math'], False, [], .4), ('debug', ['-O2', '-DFFI_DEBUG'], True, [], .1)], dict(emu=3000 * k, emuvar=800 * k, emuabi=500 * k), 5)
    bp = ['-mbranch-protection=standard']
    emulated(c, r, 'aarch64', [('bti', ['-O2'], True, ['--cet=1'], 1), ('btidyn', ['-O0'], False, ['--cet=1'], .5)], dict(emu=500 * k, emuvar=100 * k), 4, bp, '-protected')
    emulated(c, r, 'aarch64', [('leaf', ['-O2'], True, [], 1)], dict(emu=200 * k, emuvar=50 * k), 4, ['-mbranch-protection=pac-ret+leaf+b-key'], '-leaf')
    r.run()
    return c.finish(20000)

@prop('C30')
def c30():
    c = Check('C30', rule=EMU_RULE, assumptions=EMU_ASSUME)
    r, q = Runner(c), c.quick
    k = 1 if q else 6
    emulated(c, r, 'loongarch64', [('o2', ['-O2'], True, [], 1), ('o0', ['-O0'], True, [], .3), ('dyn', ['-O3', '-fomit-frame-pointer', '-ffast-math'], False, [], .4), ('debug', ['-O2', '-DFFI_DEBUG'], True, [], .1)], dict(emu=3000 * k, emuvar=800 * k), 5)
    emulated(c, r, 'loongarch64-lp64s', [('o2', ['-O2'], True, [], 1), ('o0', ['-O0'], False, [], .3)], dict(emu=600 * k, emuvar=200 * k), 4)
    r.run()
    return c.finish(20000)

@prop('C31')
def c31():
    c = Check('C31', rule=EMU_RULE, assumptions=EMU_ASSUME)
    r, q = Runner(c), c.quick
    k = 1 if q else 6
    for a in ('arm', 'arm-soft'):
        emulated(c, r, a, [('o2', ['-O2'], True, [], 1), ('o0', ['-O0'], True, [], .3), ('dyn', ['-O3', '-fomit-frame-pointer', '-ffast-math'], False, [], .4), ('debug', ['-O2', '-DFFI_DEBUG'], True, [], .1)], dict(emu=1500 * k, emuvar=400 * k, emuabi=500 * k), 5)
    r.run()
    return c.finish(20000)

@prop('C32')
def c32():
    c = Check('C32', rule=EMU_RULE, assumptions=EMU_ASSUME)
    r, q = Runner(c), c.quick
    k = 1 if q else 6
    cf = [('o2', ['-O2'], True, [], 1), ('o0', ['-O0'], True, [], .3), ('dyn', ['-O3', '-fomit-frame-pointer', '-ffast-math'], False, [], .4), ('debug', ['-O2', '-DFFI_DEBUG'], True, [], .1)]
    emulated(c, r, 'powerpc64le', cf, dict(emu=2500 * k, emuvar=700 * k), 5)
    emulated(c, r, 'powerpc64', cf[:3], dict(emu=1200 * k, emuvar=300 * k), 4)
    emulated(c, r, 'powerpc64le-ieee', cf[:2], dict(emu=700 * k, emuvar=200 * k), 4)
    r.run()
    return c.finish(20000)

@prop('C33')
def c33():
    c = Check('C33', rule=EMU_RULE, assumptions=EMU_ASSUME)
    r, q = Runner(c), c.quick
    k = 1 if q else 6
    cf = [('o2', ['-O2'], True, [], 1), ('o0', ['-O0'], True, [], .3), ('dyn', ['-O3', '-fomit-frame-pointer', '-ffast-math'], False, [], .4), ('debug', ['-O2', '-DFFI_DEBUG'], True, [], .1)]
    for a in ('powerpc', 'powerpc-svr4', 'powerpc-soft'):
        emulated(c, r, a, cf, dict(emu=1200 * k, emuvar=300 * k), 5)
    r.run()
    return c.finish(20000)

@prop('C34')
def c34():
    c = Check('C34', rule=EMU_RULE, assumptions=EMU_ASSUME)
    r, q = Runner(c), c.quick
    k = 1 if q else 6
    emulated(c, r, 's390x', [('o2', ['-O2'], True, [], 1), ('o0', ['-O0'], True, [], .3), ('dyn', ['-O3', '-fomit-frame-pointer', '-ffast-math'], False, [], .4), ('debug', ['-O2', '-DFFI_DEBUG'], True, [], .1)], dict(emu=3600 * k, emuvar=1000 * k), 5)
    r.run()
    return c.finish(20000)

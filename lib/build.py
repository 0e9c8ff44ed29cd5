"""Builds libffi from /repo's working tree in one of several configurations.

All output goes below /verif/build (ignored by git); nothing under /repo is written.
"""
import os, subprocess, re, shutil, sys, hashlib
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
PRODUCT = '-Wall -O3 -fomit-frame-pointer -fstrict-aliasing -ffast-math -fexceptions'.split()
C_SRC = ['prep_cif', 'types', 'raw_api', 'java_raw_api', 'closures', 'tramp']
X_C = ['ffi64', 'ffiw64']
X_S = ['unix64', 'win64']

def sources():
    """Source lists as the project's own build files give them (constants if they cannot be read)."""
    c = ['src/%s.c' % s for s in C_SRC]
    t = ['src/x86/%s.c' % s for s in X_C] + ['src/x86/%s.S' % s for s in X_S]
    try:
        m = re.search(r'^libffi_la_SOURCES\s*=((?:.*\\\n)*.*)$', open(os.path.join(REPO, 'Makefile.am')).read(), re.M)
        l = [w for w in m.group(1).replace('\\\n', ' ').split() if w.endswith(('.c', '.S'))]
        if l and all(os.path.exists(os.path.join(REPO, x)) for x in l):
            c = l
        for m in re.finditer(r'SOURCES="([^"]*)"', open(os.path.join(REPO, 'configure.host')).read()):
            w = ['src/x86/' + x for x in m.group(1).split()]
            if 'src/x86/ffiw64.c' in w and 'src/x86/unix64.S' in w and all(os.path.exists(os.path.join(REPO, x)) for x in w):
                t = w
    except Exception:
        pass
    return c, t

# position dependent programs; all others are linked and compiled like the shared library (-fPIC)
NOPIE = ('o0', 'debug', 'nocet', 'heapcheck')

class BuildError(Exception):
    pass

CONFIGS = {
    # name: (cc, cflags, undef macros from fficonfig, defines)
    'product': dict(cc='gcc', flags=PRODUCT),
    'o0': dict(cc='gcc', flags=['-O0', '-g', '-fexceptions']),
    'nocet': dict(cc='gcc', flags=PRODUCT + ['-fcf-protection=none']),
    'clang': dict(cc='clang', flags=['-O3', '-fomit-frame-pointer', '-fexceptions']),
    'clangcet': dict(cc='clang', flags=['-O2', '-fcf-protection=full', '-fexceptions']),
    'dyn': dict(cc='gcc', flags=PRODUCT, undef=['FFI_EXEC_STATIC_TRAMP']),
    'dynclang': dict(cc='clang', flags=['-O2', '-fexceptions'], undef=['FFI_EXEC_STATIC_TRAMP']),
    'debug': dict(cc='gcc', flags=['-O1', '-g', '-fexceptions'], defs=['FFI_DEBUG=1'], extra=['debug']),
    # consistency checks of the closure heap itself
    'heapcheck': dict(cc='gcc', flags=['-O1', '-g', '-fexceptions', '-DDEBUG=1']),
    'heapcheckdyn': dict(cc='gcc', flags=['-O1', '-g', '-fexceptions', '-DDEBUG=1'], undef=['FFI_EXEC_STATIC_TRAMP']),
    'asan': dict(cc='gcc', flags=['-O1', '-g', '-fno-omit-frame-pointer', '-fexceptions', '-fsanitize=address,undefined', '-fno-sanitize=alignment',
                                  '-fno-sanitize-recover=all', '--param=asan-instrument-allocas=0']),
    'asandyn': dict(cc='gcc', flags=['-O1', '-g', '-fno-omit-frame-pointer', '-fexceptions', '-fsanitize=address,undefined', '-fno-sanitize=alignment',
                                  '-fno-sanitize-recover=all', '--param=asan-instrument-allocas=0'], undef=['FFI_EXEC_STATIC_TRAMP']),
    'ubsan': dict(cc='clang', flags=['-O1', '-g', '-fexceptions', '-fsanitize=undefined', '-fno-sanitize=alignment,function,pointer-overflow', '-fno-sanitize-recover=all']),
    'tsan': dict(cc='gcc', flags=['-O1', '-g', '-fexceptions', '-fsanitize=thread']),
    'tsandyn': dict(cc='gcc', flags=['-O1', '-g', '-fexceptions', '-fsanitize=thread'], undef=['FFI_EXEC_STATIC_TRAMP']),
    # a shared library with the project's version script; the program only sees what it exports
    'so': dict(cc='gcc', flags=PRODUCT, so=True),
    # the same, used by a program compiled against the headers as they were
    'abi': dict(cc='gcc', flags=PRODUCT, so=True, frozen=True),
    'wx': dict(cc='gcc', flags=['-O1', '-g', '-fexceptions']),
}

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout

def headers(dst, target='X86_64', undef=(), defs=(), longdouble=True):
    os.makedirs(os.path.join(dst, 'include'), exist_ok=True)
    t = open(os.path.join(REPO, 'include/ffi.h.in')).read()
    for k, v in dict(VERSION='0.0', TARGET=target, HAVE_LONG_DOUBLE=str(int(longdouble)), FFI_EXEC_TRAMPOLINE_TABLE='0').items():
        t = t.replace('@%s@' % k, v)
    open(os.path.join(dst, 'include/ffi.h'), 'w').write(t)
    for f in ('ffitarget.h',):
        shutil.copy(os.path.join(REPO, 'src/x86', f), os.path.join(dst, 'include', f))
    c = open(os.path.join(VERIF, 'config/fficonfig-x86_64.h')).read()
    for u in undef:
        c = re.sub(r'#define %s\b.*' % u, '/* #undef %s */' % u, c)
    for d in defs:
        n, _, v = d.partition('=')
        c = '#define %s %s\n' % (n, v) + c
    open(os.path.join(dst, 'fficonfig.h'), 'w').write(c)

def build_lib(config, tag, pic=False, extra_flags=()):
    """Compile libffi; returns (objects, include flags, dir)."""
    cf = CONFIGS[config]
    pic = pic or config not in NOPIE
    d = os.path.join(BUILD, tag, 'lib-' + config)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    headers(d, undef=cf.get('undef', ()), defs=cf.get('defs', ()))
    inc = ['-I' + d, '-I' + os.path.join(d, 'include'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')]
    flags = list(cf['flags']) + list(extra_flags) + ['-w', '-DHAVE_CONFIG_H'] + (['-fPIC', '-DPIC'] if pic else [])
    objs, procs = [], []
    csrc, tsrc = sources()
    jobs = csrc + ['src/%s.c' % s for s in cf.get('extra', [])] + tsrc
    for s in jobs:
        o = os.path.join(d, os.path.basename(s).replace('.', '_') + '.o')
        objs.append(o)
        fl = [f for f in flags if not (s.endswith('.S') and f.startswith('-fsanitize'))]
        cmd = [cf['cc']] + fl + inc + ['-c', os.path.join(REPO, s), '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
    for cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError('command failed: %s\n%s' % (' '.join(cmd), out[-4000:]))
    if cf.get('frozen'):
        inc = ['-I' + os.path.join(VERIF, 'config/abi')]
    return objs, inc, d

def shared(config, out, objs, d, ldflags=()):
    """Link the objects as the project links its shared library (plus --wrap options, resolved from the program)."""
    m = os.path.join(d, 'libffi.map')
    run(['gcc', '-DX86_64', '-DGENERATE_LIBFFI_MAP', '-DHAVE_CONFIG_H', '-I' + d, '-I' + os.path.join(d, 'include'), '-I' + os.path.join(REPO, 'include'), '-E', '-x', 'assembler-with-cpp', '-P', '-o', m, os.path.join(REPO, 'libffi.map.in')])
    run([CONFIGS[config]['cc'], '-shared', '-o', out] + list(objs) + ['-Wl,--version-script=' + m, '-Wl,-soname=' + os.path.basename(out)] + [f for f in ldflags if 'wrap' in f])
    return [out, '-rdynamic', '-Wl,-rpath,' + os.path.dirname(out)]

def compile_many(cmds):
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')) for c in cmds]
    for c, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError('command failed: %s\n%s' % (' '.join(c), out[-4000:]))


# ---- i386: compiled with -m32 against the 64-bit system's headers, linked by hand against the preinstalled 32-bit C library
I386_CONFIGS = {
    'i386': dict(cc='gcc', flags=PRODUCT),
    'i386-pic': dict(cc='gcc', flags=PRODUCT + ['-fPIC', '-DPIC']),
    'i386-dyn': dict(cc='gcc', flags=PRODUCT, undef=['FFI_EXEC_STATIC_TRAMP']),
    'i386-clang': dict(cc='clang', flags=['-O3', '-fomit-frame-pointer', '-fexceptions']),
    'i386-debug': dict(cc='gcc', flags=['-O0', '-g', '-fexceptions'], defs=['FFI_DEBUG=1'], extra=['debug']),
    'i386-nopie': dict(cc='gcc', flags=PRODUCT + ['-fno-pie', '-fcf-protection=none']),
}
I386_CET = {    # the compiler does not enable it by itself for this target
    'i386-cet': dict(cc='gcc', flags=PRODUCT + ['-fcf-protection']),
    'i386-cet-pic': dict(cc='gcc', flags=PRODUCT + ['-fPIC', '-DPIC', '-fcf-protection']),
    'i386-cet-dyn': dict(cc='clang', flags=['-O2', '-fexceptions', '-fcf-protection=full'], undef=['FFI_EXEC_STATIC_TRAMP']),
}
I386_LINK = ['-nostdlib', '-no-pie', '-Wl,-dynamic-linker,/lib/ld-linux.so.2']
I386_LIBS = ['/usr/lib32/libc.so.6', '/usr/lib32/libgcc_s.so.1']

def i386_flags(tag):
    d = os.path.join(BUILD, tag, 'i386-inc')
    os.makedirs(os.path.join(d, 'gnu'), exist_ok=True)
    open(os.path.join(d, 'gnu', 'stubs-32.h'), 'w').close()     # the only header that differs and is missing
    return ['-m32', '-I' + d, '-isystem', '/usr/include/x86_64-linux-gnu']

def build_i386(config, tag):
    """Compile the i386 back end; returns (objects, include flags)."""
    cf = I386_CONFIGS.get(config) or I386_CET[config]
    d = os.path.join(BUILD, tag, 'lib-' + config)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    headers(d, target='X86', undef=['HAVE_AS_X86_64_UNWIND_SECTION_TYPE'] + list(cf.get('undef', ())), defs=cf.get('defs', ()))
    p = os.path.join(d, 'fficonfig.h')
    c = open(p).read().replace('SIZEOF_LONG_DOUBLE 16', 'SIZEOF_LONG_DOUBLE 12').replace('SIZEOF_SIZE_T 8', 'SIZEOF_SIZE_T 4')
    open(p, 'w').write(c)
    inc = ['-I' + d, '-I' + os.path.join(d, 'include'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')]
    csrc, _ = sources()
    objs, cmds = [], []
    for s in csrc + ['src/%s.c' % x for x in cf.get('extra', [])] + ['src/x86/ffi.c', 'src/x86/sysv.S']:
        o = os.path.join(d, os.path.basename(s).replace('.', '_') + '.o')
        objs.append(o)
        cmds.append([cf['cc']] + cf['flags'] + ['-w', '-DHAVE_CONFIG_H'] + inc + i386_flags(tag) + ['-c', os.path.join(REPO, s), '-o', o])
    compile_many(cmds)
    return objs, inc

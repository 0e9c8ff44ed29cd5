"""Guests for harness/emu: libffi's back ends for other architectures, compiled by clang, with generated native functions, as one program image."""
import os, re, shutil, subprocess
import build, natgen
from build import REPO, VERIF
H = os.path.join(VERIF, 'harness', 'emu')
# abi: number of a second convention, and how to have the compiler use it. name: triple, flags of the target, libffi's name and directory, interpreter, types clang and the library have no common convention for
ARCHES = {
    'riscv64': dict(triple='riscv64-linux-gnu', flags=['-march=rv64g', '-mabi=lp64d'], target='RISCV', dir='riscv', isa='rv64.h', without='XYZqrst', tramp=False),
    'aarch64': dict(triple='aarch64-linux-gnu', flags=['-march=armv8-a', '-mno-outline-atomics'], target='AARCH64', dir='aarch64', isa='a64.h', without='qrst', tramp=True, cet=['-mbranch-protection=standard'], abi=(2, ['-DNAT_ABI=__attribute__((ms_abi))'], 'LZXY')),
}
for _n, _t in (('arm', 'gnueabihf'), ('arm-soft', 'gnueabi')):
    ARCHES[_n] = dict(triple='arm-linux-' + _t, flags=['-march=armv7ve', '-mfpu=vfpv3-d16', '-marm', '-mfloat-abi=' + ('hard' if _n == 'arm' else 'softfp')], target='ARM', dir='arm', isa='a32.h', without='-', tramp=True, longdouble=False, abi=(1, ['-DNAT_ABI=__attribute__((pcs("aapcs")))'], '') if _n == 'arm' else (2, ['-DNAT_ABI=__attribute__((pcs("aapcs-vfp")))'], ''))
for _n, _t in (('loongarch64', 'gnu'), ('loongarch64-lp64s', 'gnusf')):
    ARCHES[_n] = dict(triple='loongarch64-linux-' + _t, flags=['-march=loongarch64', '-mabi=' + ('lp64d' if _t == 'gnu' else 'lp64s')], target='LOONGARCH64', dir='loongarch64', isa='loong64.h', without='XYZqrst', tramp=True)
ARCHES['powerpc64le'] = dict(triple='powerpc64le-linux-gnu', flags=['-mcpu=pwr8', '-mno-vsx'], target='POWERPC', dir='powerpc', isa='ppc.h', without='XYZqrst', tramp=True, variant=True)
ARCHES['powerpc64'] = dict(ARCHES['powerpc64le'], triple='powerpc64-linux-gnu', flags=['-mabi=elfv2', '-mcpu=pwr8', '-mno-vsx'], defs=('WORDS_BIGENDIAN=1',))
ARCHES['powerpc64le-ieee'] = dict(ARCHES['powerpc64le'], flags=['-mcpu=pwr8', '-mfloat128', '-mabi=ieeelongdouble', '-fno-vectorize', '-fno-slp-vectorize'], longdoubletype='__float128', notvar='L')     # clang does not apply the aggregate rules to this long double
ARCHES['powerpc'] = dict(ARCHES['powerpc64'], notvar='L{', triple='powerpc-linux-gnu', flags=['-mcpu=pwr8', '-mno-vsx', '-mno-altivec', '-msecure-plt'])
ARCHES['powerpc-svr4'] = dict(ARCHES['powerpc'], flags=ARCHES['powerpc']['flags'] + ['-msvr4-struct-return', '-D__SVR4_STRUCT_RETURN'])
ARCHES['powerpc-soft'] = dict(ARCHES['powerpc'], without='LXYZqrst', flags=['-mcpu=ppc', '-msoft-float', '-msecure-plt', '-D__NO_FPRS__'])     # clang and gcc align this long double differently
ARCHES['s390x'] = dict(triple='s390x-linux-gnu', flags=['-march=z10'], target='S390', dir='s390', isa='s390.h', without='qrst', tramp=True, nocfi=True, noarray=True, defs=('WORDS_BIGENDIAN=1', 'HAVE_AS_S390_ZARCH=1'))      # libffi has no arrays, and those of one element are not passed like the element here. The assembler knows other register names in unwind tables than that of the project, which are not executed
for _n, _a in (('lp64', 'riscv64'), ('lp64f', 'riscv64'), ('ilp32d', 'riscv32'), ('ilp32f', 'riscv32'), ('ilp32', 'riscv32')):     # other ABIs of the architecture
    ARCHES['%s-%s' % (_a, _n)] = dict(ARCHES['riscv64'], triple=_a + '-linux-gnu', flags=['-march=rv%sg' % _a[-2:], '-mabi=' + _n])
HOSTFN = 0x0f000000

def backend(d):
    """The back end's own sources, as configure.host names them."""
    want = {'riscv': 'ffi.c sysv.S', 'aarch64': 'ffi.c sysv.S', 'loongarch64': 'ffi.c sysv.S', 'arm': 'ffi.c sysv.S', 's390': 'ffi.c sysv.S', 'powerpc': 'ffi.c ffi_sysv.c ffi_linux64.c sysv.S ppc_closure.S linux64.S linux64_closure.S'}[d]
    try:
        for m in re.finditer(r'TARGETDIR=%s\s*\n\s*SOURCES="([^"]*)"' % d, open(os.path.join(REPO, 'configure.host')).read()):
            if all(os.path.exists(os.path.join(REPO, 'src', d, x)) for x in m.group(1).split()):
                want = m.group(1)
    except Exception:
        pass
    return ['src/%s/%s' % (d, x) for x in want.split()]

class Guest:
    def __init__(self, arch, out, flags=('-O2',), cet=False, static=True, natdir=None, defs=()):
        a = self.a = ARCHES[arch]
        self.arch, self.out, self.flags = arch, out, list(flags)
        os.makedirs(out, exist_ok=True)
        longdouble = a.get('longdouble', True)      # one that differs from double
        undef = ['HAVE_AS_X86_64_UNWIND_SECTION_TYPE', 'HAVE_AS_X86_PCREL'] + ([] if a['tramp'] and static else ['FFI_EXEC_STATIC_TRAMP'])
        build.headers(out, target=a['target'], undef=undef + (['HAVE_LONG_DOUBLE'] if not longdouble or a.get('variant') else []), defs=tuple(defs) + tuple(a.get('defs', ())) + (('HAVE_LONG_DOUBLE_VARIANT=1',) if a.get('variant') else ()), longdouble=longdouble)
        shutil.copy(os.path.join(REPO, 'src', a['dir'], 'ffitarget.h'), os.path.join(out, 'include/ffitarget.h'))
        p = os.path.join(out, 'fficonfig.h')
        c = open(p).read()
        for k, v in a.get('config', {}).items():
            c = re.sub(r'#define %s .*' % k, '#define %s %s' % (k, v), c)
        open(p, 'w').write(c)
        self.cc = ['clang', '--target=' + a['triple']] + a['flags'] + ['-w', '-ffreestanding', '-fno-stack-protector', '-fno-pic', '-fno-unwind-tables', '-fno-asynchronous-unwind-tables', '-isystem', os.path.join(H, 'inc'), '-isystem', '/usr/include/x86_64-linux-gnu']
        self.inc = ['-I' + out, '-I' + os.path.join(out, 'include'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')]

    def lib(self):
        """Compile libffi for the guest; may raise BuildError."""
        csrc, _ = build.sources()
        objs, cmds = [], []
        for s in csrc + (['src/debug.c'] if '-DFFI_DEBUG' in self.flags and 'src/debug.c' not in csrc else []) + backend(self.a['dir']):
            objs.append(os.path.join(self.out, s.replace('/', '_') + '.o'))
            src = os.path.join(REPO, s)
            if s.endswith('.S') and self.a.get('nocfi'):
                src = objs[-1][:-2] + '.s'
                build.run(self.cc + self.flags + ['-DHAVE_CONFIG_H'] + self.inc + ['-E', os.path.join(REPO, s), '-o', src])
                t = re.sub(r'\.cfi_[^;\n]*', '', open(src).read())
                open(src, 'w').write(t)
            cmds.append(self.cc + self.flags + ['-DHAVE_CONFIG_H'] + self.inc + ['-c', src, '-o', objs[-1]])
        build.compile_many(cmds)
        return objs

def natives(arch, out, seed, plan, part=125, flags=()):
    """Generated functions of the guest's compiler: (objects, source of the table)."""
    a = ARCHES[arch]
    os.makedirs(out, exist_ok=True)
    cc = ['clang', '--target=' + a['triple']] + a['flags'] + list(flags) + ['-w', '-ffreestanding', '-fno-stack-protector', '-fno-pic', '-std=gnu17', '-ffp-contract=off', '-fno-unwind-tables', '-fno-asynchronous-unwind-tables', '-isystem', os.path.join(H, 'inc'), '-isystem', '/usr/include/x86_64-linux-gnu', '-DNAT_EMU', '-I' + os.path.join(VERIF, 'harness')]
    objs, cmds, tabs = [], [], []
    for mode, n in plan.items():
        for k, first in enumerate(range(0, n, part)):
            src = os.path.join(out, '%s%d.c' % (mode, k))
            text = natgen.gen('%s-%s' % (seed, arch), min(part, n - first), mode + ':' + a['without'] + (a['abi'][2] if 'abi' in mode else a.get('notvar', '') if 'var' in mode else ''), first)
            if a.get('noarray'):
                text = re.sub(r'\b(m\d+)\[1\]', r'\1', text)
            open(src, 'w').write(text.replace('long double', a.get('longdoubletype', 'long double')))
            t = 'nat_%s_%d' % (mode, k)
            objs.append(os.path.join(out, t + '.o'))
            tabs.append((mode, t))
            cmds.append(cc + (a['abi'][1] if 'abi' in mode else ['-DNAT_ABI=']) + [('-O1', '-O2', '-O0')[k % 3], '-DTABLE=' + t, '-DCOUNT=%s_n' % t, '-c', src, '-o', objs[-1]])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        list(ex.map(build.run, cmds))
    src = os.path.join(out, 'tables.c')
    open(src, 'w').write('#include "nat.h"\nstruct nat_tab { const char *name; const struct nat_sig *t; const int *n; long abi; };\n' + ''.join('extern const struct nat_sig %s[]; extern const int %s_n;\n' % (t, t) for _, t in tabs) +
                         'const struct nat_tab TABLES[] = {\n' + ''.join('{ "%s", %s, &%s_n, %d },\n' % (m, t, t, a['abi'][0] if 'abi' in m else 0) for m, t in tabs) + '{ 0 } };\n')
    o = os.path.join(out, 'tables.o')
    build.run(cc + ['-O1', '-c', src, '-o', o])
    return objs + [o]

def image(g, lib, nat, name='guest'):
    """Link everything into an image the interpreter loads."""
    o = os.path.join(g.out, 'guest.o')
    build.run(g.cc + ['-O1', '-fno-builtin'] + g.a.get('guestflags', []) + g.inc + ['-c', os.path.join(H, 'guest.c'), '-o', o])
    names = re.findall(r'H\((\w+)\)', open(os.path.join(H, 'hostfns.h')).read())
    out = os.path.join(g.out, name)
    cmd = ['ld.lld', '--image-base=0x10000000', '-z', 'max-page-size=4096', '-z', 'norelro', '-e', 'ffi_call', '--no-gc-sections', '-o', out, o] + lib + nat
    for _ in range(2):      # what else the library refers to is only missing if it is called
        try:
            build.run(cmd + ['--defsym=%s=0x%x' % (n, HOSTFN + 16 * i) for i, n in enumerate(names)])
            break
        except build.BuildError as e:
            more = [n for n in dict.fromkeys(re.findall(r'undefined symbol: (\w+)', str(e))) if n not in names]
            if not more:
                raise
            names += more
    return out

def emulator(arch, out):
    exe = os.path.join(out, 'emu-' + arch)
    build.run(['g++', '-std=c++17', '-O2', '-g', '-w', '-DISA="%s"' % ARCHES[arch]['isa'], os.path.join(H, 'drive.cpp'), '-o', exe])
    return exe

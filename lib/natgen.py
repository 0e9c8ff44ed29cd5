"""Random signatures written out as C, so that gcc and clang themselves act as native callee, native caller and layout oracle.

gen(seed, n, mode) -> C source. mode: sysv, ms (ms_abi), var, msvar, layout.
The C knows nothing of libffi; harness/native.cpp rebuilds the type descriptors from the encoded text."""
import random

# encoding letter, C type, promoted (allowed as a variable argument)
SC = {'a': ('uint8_t', 0), 'b': ('int8_t', 0), 'c': ('uint16_t', 0), 'd': ('int16_t', 0), 'e': ('uint32_t', 1), 'f': ('int32_t', 1), 'g': ('uint64_t', 1), 'h': ('int64_t', 1),
      'p': ('void *', 1), 'F': ('float', 0), 'D': ('double', 1), 'L': ('long double', 1), 'X': ('_Complex float', 1), 'Y': ('_Complex double', 1), 'Z': ('_Complex long double', 1),
      'q': ('_Complex unsigned char', 1), 'r': ('_Complex short', 1), 's': ('_Complex int', 1), 't': ('_Complex long', 1)}
WEIGHT = 'aabbccddeefffgghhpppFFFFDDDDDLLXXYYZqrst'

class St:
    """A struct type: members are (type, count); count 0 = not an array. al: alignment beyond that of the members (unions, which
    libffi is told of as a struct of the largest member, and aligned structs)."""
    def __init__(self, members, name, al=0):
        self.m, self.name, self.al = members, name, al
    def enc(self):
        return '{' + ''.join((enc(t) + ('*%d;' % n if n > 1 else '')) for t, n in self.m) + '}' + ('@%d;' % self.al if self.al else '')
def enc(t):
    return t if isinstance(t, str) else t.enc()
def cname(t):
    return SC[t][0] if isinstance(t, str) else t.name

SIZE = {'a': 1, 'b': 1, 'c': 2, 'd': 2, 'e': 4, 'f': 4, 'g': 8, 'h': 8, 'p': 8, 'F': 4, 'D': 8, 'L': 16, 'X': 8, 'Y': 16, 'Z': 32, 'q': 2, 'r': 4, 's': 8, 't': 16}
ALIGN = dict(SIZE, X=4, Y=8, Z=16, q=1, r=2, s=4, t=8)
def lay(t):
    """(size, alignment, {eightbyte: set of classes}) on x86-64."""
    if isinstance(t, str):
        k = 'X' if t in 'LZ' else 'S' if t in 'FDXY' else 'I'
        return SIZE[t], ALIGN[t], [(o, k) for o in range(SIZE[t])]
    off, al, c = 0, 1, []
    for m, n in t.m:
        s, a, cc = lay(m)
        al = max(al, a)
        for i in range(max(n, 1)):
            off = (off + a - 1) // a * a
            c += [(off + o, k) for o, k in cc]
            off += s
    al = max(al, t.al)
    return (off + al - 1) // al * al, al, c
def classes(c):
    r = {}
    for o, k in c:
        r.setdefault(o // 8, set()).add(k)
    return {e: 'X' if 'X' in k else 'I' if 'I' in k else 'S' for e, k in r.items()}

class Gen:
    def __init__(self, seed, mode):
        self.r, self.mode, self.defs, self.n = random.Random('%s-%s' % (seed, mode)), mode, [], 0
        self.ms = mode in ('ms', 'msvar')
        self.i386 = mode in ('i386', 'i386var')
        self.emu = mode.startswith('emu')           # emu:<letters not used>, emuvar:<...>, with another convention emuabi:<...>
        self.weight = [k for k in WEIGHT if k not in (mode.partition(':')[2] if self.emu else '')]
        self.plain = self.i386 or self.emu
    def scalar(self):
        return self.r.choice(self.weight)
    def struct(self, depth=2, big=False):
        r = self.r
        shape = r.random()
        n = r.randint(1, 3) if shape < .5 else r.randint(1, 6) if shape < .85 else r.randint(1, 14)
        small, fp = r.random() < .3, r.random() < .2
        m, approx = [], 0
        if self.emu and not big and r.random() < .45:   # what is passed in parts: all of one kind, or two that differ
            x = r.random()
            k = r.choice([q for q in 'FFDDLXYZ' if q in self.weight])
            m = [(k, 0)] * r.randint(1, 5) if x < .3 else [(k, r.randint(1, 5))] if x < .45 else [(self.scalar(), 0), (r.choice('FD'), 0)] if x < .9 else [(self.scalar(), 0)]
            r.shuffle(m)
            if depth > 0 and r.random() < .3:
                i = r.randrange(len(m))
                t = St([m[i]] if r.random() < .5 else m[i:i + 2], 'S%d' % self.n)
                self.n += 1
                self.defs.append('typedef struct { %s } %s;' % (' '.join('%s m%d%s;' % (cname(q), j, '[%d]' % c if c else '') for j, (q, c) in enumerate(t.m)), t.name))
                m[i:i + len(t.m)] = [(t, 0)]
            n = 0
        for i in range(n):
            if depth > 0 and r.random() < .18:
                t = self.struct(depth - 1) if self.plain or self.mode == 'layout' or r.random() < .85 else self.union() if r.random() < .6 else self.aligned()
            else:
                t = r.choice('FFD') if fp else r.choice('aabcdFf') if small else self.scalar()
            k = r.randint(1, 5 if not big else 40) if r.random() < .12 else 0
            m.append((t, k))
        s = St(m, 'S%d' % self.n)
        self.n += 1
        body = ' '.join('%s m%d%s;' % (cname(t), i, '[%d]' % k if k else '') for i, (t, k) in enumerate(m))
        self.defs.append('typedef struct { %s } %s;' % (body, s.name))
        return s
    def union(self):
        """A union that libffi can be told of: its first member decides how it is passed."""
        r = self.r
        while True:
            t = self.struct(1) if r.random() < .6 else self.scalar()
            size, al, c = lay(t)
            if size > 16 or 'X' not in classes(c).values():
                break
        ms = [t]
        for i in range(r.randint(1, 12)):
            o = self.struct(0) if r.random() < .2 else self.scalar()
            os, oa, oc = lay(o)
            if os <= size and (size > 16 or 'X' not in classes(oc).values() and classes(c) == classes(c + oc)):
                ms.append(o)
                al = max(al, oa)
        s = St([(t, 0)], 'S%d' % self.n, al)
        self.n += 1
        order = ['%s m%d;' % (cname(m), i) for i, m in enumerate(ms)]
        r.shuffle(order)
        self.defs.append('typedef union { %s } %s;' % (' '.join(order), s.name))
        return s
    def aligned(self):
        s = self.struct(1)
        al = max(lay(s)[1], self.r.choice((4, 8, 8, 16, 16)))
        t = St(s.m, 'S%d' % self.n, al)
        self.n += 1
        self.defs.append('typedef struct { %s } __attribute__((aligned(%d))) %s;' % (' '.join('%s m%d%s;' % (cname(m), i, '[%d]' % k if k else '') for i, (m, k) in enumerate(s.m)), al, t.name))
        return t
    def type(self):
        x = self.r.random()
        if not self.plain and x < .05:
            return self.union() if x < .03 else self.aligned()
        return self.struct() if x < .38 else self.scalar()
    def promoted(self):
        while True:
            t = self.type()
            if not isinstance(t, str) or SC[t][1]:
                return t
    def small(self):
        s = St([(self.r.choice('aabbcdefpFDLXqr'), self.r.choice((0, 0, 0, 2, 3))) for k in range(self.r.randint(1, 2))], 'S%d' % self.n)
        self.n += 1
        self.defs.append('typedef struct { %s } %s;' % (' '.join('%s m%d%s;' % (cname(t), i, '[%d]' % k if k else '') for i, (t, k) in enumerate(s.m)), s.name))
        return s
    def fixed(self, members):
        m = []
        for c in members:
            if c.isdigit():
                m[-1] = (m[-1][0], int(c))
            elif c.isalpha():
                m.append((c, 0))
        s = St(m, 'S%d' % self.n)
        self.n += 1
        self.defs.append('typedef struct { %s } %s;' % (' '.join('%s m%d%s;' % (cname(t), i, '[%d]' % k if k else '') for i, (t, k) in enumerate(s.m)), s.name))
        return s
    def layouts(self, t, out):
        """C expressions, in the order the harness visits them: members first, then size, alignment and offsets of the struct."""
        if isinstance(t, str):
            return
        for m, k in t.m:
            self.layouts(m, out)
        out.append('sizeof(%s), _Alignof(%s)' % (t.name, t.name))
        for i, (m, k) in enumerate(t.m):
            for j in range(max(k, 1)):
                out.append('offsetof(%s, m%d)%s' % (t.name, i, ' + %d * sizeof(%s)' % (j, cname(m)) if j else ''))
    def source(self, n, first):
        r, body, tab = self.r, [], []
        ab = '__attribute__((ms_abi)) ' if self.ms else 'NAT_ABI ' if self.emu else ''
        for i in range(first, first + n):
            if self.mode == 'layout':
                s = self.struct(4, True)
                out = []
                self.layouts(s, out)
                body.append('static const size_t lay%d[] = { %s, 0 };' % (i, ', '.join(out)))
                tab.append('{ "%s", -1, 0, 0, lay%d }' % (enc(s), i))
                continue
            var = self.mode.startswith(('var', 'msvar', 'i386var', 'emuvar'))
            x = r.random()
            na = r.randint(0, 6) if x < .5 else r.randint(4, 14) if x < .9 else r.randint(10, 40)
            if var and na == 0:
                na = 1
            nf = r.randint(1, min(na, 12)) if var else na
            args = [self.type() if k < nf else self.promoted() for k in range(na)]
            ret = None if r.random() < .08 else self.type()
            conv = 0
            if self.i386 and not var:
                conv = r.choice((0, 0, 1, 1, 2, 2, 3, 3, 4))
                if conv in (2, 3):      # register conventions: mostly what competes for the registers
                    args = [(self.type() if r.random() < .5 else self.small()) if r.random() < .3 else r.choice('abcdefpppF') for k in range(r.randint(0, 7))]
                elif r.random() < .25:  # what the raw interface can take
                    args = [r.choice('abcdefghpFD') for k in range(r.randint(0, 9))]
                nf = na = len(args)
            if self.emu and r.random() < .1:    # little else than structures that are passed by reference
                ts = [self.struct(1) for k in range(4)]
                ts = [t for t in ts if lay(t)[0] > 16] or [self.struct(1)]
                args = [r.choice(ts) if r.random() < .93 else self.scalar() if not var else self.promoted() for k in range(r.randint(7, 20))]
                na, nf = len(args), r.randint(1, len(args) - 1) if var else len(args)
            elif self.emu and r.random() < .1:  # the same few types over and over: what is counted too small by little adds up
                ts = [self.struct(1) if r.random() < .5 else r.choice([k for k in 'aefghpFDLLLXYZqrst' if k in self.weight and (not var or SC[k][1])]) for k in range(r.randint(2, 5))]
                if r.random() < .5:     # with alignments that alternate
                    ts = [r.choice([k for k in 'ggpDDL' if k in self.weight]) if r.random() < .4 else self.fixed(r.choice(('gp*2;', 'gp*2;', 'p*5;', 'Lg', 'gL', 'Lg', 'DDD', 'LL', 'L', 'h'))) for k in range(r.randint(2, 4))]
                args = (ts * 36)[r.randint(0, 4):r.choice((r.randint(20, 60), 62))]
                na, nf = len(args), r.randint(1, 12) if var else len(args)
            elif self.emu and not var and r.random() < .25:   # what the raw interface can take
                args = [r.choice([k for k in 'abcdefghpFD' if k in self.weight]) for k in range(r.randint(0, 14))]
                nf = na = len(args)
            if var and '{' in self.mode:     # no structures among the variable arguments
                args = args[:nf] + [a if isinstance(a, str) else r.choice([k for k in self.weight if SC[k][1]]) for a in args[nf:]]
            rc = cname(ret) if ret else 'void'
            proto = ', '.join(cname(a) for a in args[:nf]) or 'void'
            if var:
                proto += ', ...'
            if self.i386:
                ab = ('', '__attribute__((stdcall)) ', '__attribute__((fastcall)) ', '__attribute__((thiscall)) ', '__attribute__((callee_pop_aggregate_return(0))) ')[conv]
            params = ', '.join('%s a%d' % (cname(a), k) for k, a in enumerate(args[:nf])) or 'void'
            if var:
                params += ', ...'
            b = ['NAT_CALLS++;']
            if var:
                b.append('%s ap; %s(ap, a%d);' % ('__builtin_ms_va_list' if self.ms else '__builtin_va_list', '__builtin_ms_va_start' if self.ms else '__builtin_va_start', nf - 1))
                for k in range(nf, na):
                    b.append('%s a%d = __builtin_va_arg(ap, %s);' % (cname(args[k]), k, cname(args[k])))
                b.append('%s(ap);' % ('__builtin_ms_va_end' if self.ms else '__builtin_va_end'))
            for k in range(na):         # before their addresses are taken: as they come
                if self.emu and args[k] in list('abcdef'):
                    b.append('nat_wide[%d] = (int64_t)a%d;' % (k, k))
                if self.emu and args[k] == 'e':     # conventions may extend it as signed
                    b.append('nat_sgn[%d] = (int32_t)a%d;' % (k, k))
                if self.emu and args[k] == 'F':
                    b.append('nat_fl[%d] = a%d;' % (k, k))
            for k in range(na):
                b.append('memcpy(nat_in[%d], &a%d, sizeof a%d);' % (k, k, k))
                if self.i386 and args[k] in ('a', 'b', 'c', 'd'):
                    b.append('nat_wide[%d] = (int32_t)a%d;' % (k, k))
                if self.emu and not isinstance(args[k], str):
                    b.append('nat_at(&a%d, _Alignof(%s));' % (k, cname(args[k])))
            for k in range(nf):
                if r.random() < .7:
                    b.append('nat_trash(&a%d, sizeof a%d);' % (k, k))
            if ret:
                b.append('%s r; memcpy(&r, nat_out, sizeof r); return r;' % rc)
            body.append('static %s%s callee%d(%s) { %s }' % (ab, rc, i, params, ' '.join(b)))
            call = 'f(%s)' % ', '.join('*(%s *)av[%d]' % (cname(a), k) for k, a in enumerate(args))
            body.append('static void caller%d(void *code, void **av, void *ret) { %s (%s*f)(%s) = (%s (%s*)(%s))code; %s }' % (
                i, rc, ab, proto, rc, ab, proto, ('%s r = %s;%s memcpy(ret, &r, sizeof r);' % (rc, call, ' nat_wide[0] = (int32_t)r;' if self.i386 and ret in ('a', 'b', 'c', 'd') else ' nat_wide[0] = (int64_t)r;' + ' nat_sgn[0] = (int32_t)r;' * (ret == 'e') if self.emu and ret in list('abcdef') else '')) if ret else call + ';'))
            out = []
            for t in ([ret] if ret else []) + args:
                self.layouts(t, out)
            body.append('static const size_t lay%d[] = { %s 0 };' % (i, ''.join(o + ', ' for o in out)))
            tab.append('{ "%s%s%s", %d, (void *)callee%d, caller%d, lay%d }' % (conv if self.i386 else '', enc(ret) if ret else 'v', ''.join(enc(a) for a in args), nf if var else -1, i, i, i))
        return '#include "nat.h"\n' + '\n'.join(self.defs + body) + '\nconst struct nat_sig TABLE[] = {\n' + ',\n'.join(tab) + '\n};\nconst int COUNT = sizeof TABLE / sizeof *TABLE;\n'

def gen(seed, n, mode, first=0):
    return Gen('%s.%s' % (seed, first), mode).source(n, first)

if __name__ == '__main__':
    import sys
    sys.stdout.write(gen(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]))

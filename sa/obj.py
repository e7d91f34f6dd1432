"""Assemble/compile /repo sources and read the resulting relocatable objects (code, data, relocations, lines)."""
import os, re, subprocess, struct, glob


class ToolError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode:
        raise ToolError('command failed: %s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    return p.stdout


class Insn:
    __slots__ = ('addr', 'next', 'mn', 'ops', 'rel', 'line', 'text')

    def __repr__(self):
        return '%x: %s' % (self.addr, self.text)


class Section:
    def __init__(self, idx, name, typ, addr, off, size, flags, align):
        self.idx, self.name, self.typ, self.off, self.size, self.flags, self.align = idx, name, typ, off, size, flags, align
        self.data = b''
        self.writable = 'W' in flags
        self.exec = 'X' in flags
        self.rels = {}


class Obj:
    """One relocatable ELF object."""

    def __init__(self, path, name, src):
        self.path, self.name, self.src = path, name, src
        raw = open(path, 'rb').read()
        self._parse(raw)
        self._disasm()

    def _parse(self, raw):
        assert raw[:4] == b'\x7fELF'
        shoff, = struct.unpack_from('<Q', raw, 0x28)
        shentsize, shnum, shstrndx = struct.unpack_from('<HHH', raw, 0x3A)
        sh = [struct.unpack_from('<IIQQQQIIQQ', raw, shoff + i * shentsize) for i in range(shnum)]

        def cstr(base, o):
            e = raw.index(b'\0', base + o)
            return raw[base + o:e].decode()
        stro = sh[shstrndx][4]
        self.sections = []
        for i, s in enumerate(sh):
            fl = ''.join(c for b, c in ((1, 'W'), (2, 'A'), (4, 'X')) if s[2] & b)
            sec = Section(i, cstr(stro, s[0]), s[1], s[3], s[4], s[5], fl, s[8])
            if s[1] != 8:
                sec.data = raw[s[4]:s[4] + s[5]]
            else:
                sec.data = b'\0' * s[5]
            self.sections.append(sec)
        self.symbols = []
        self.funcs = {}
        self.globals = {}
        for i, s in enumerate(sh):
            if s[1] == 2:
                strb = sh[s[6]][4]
                for o in range(s[4], s[4] + s[5], 24):
                    n, info, other, shndx, val, size = struct.unpack_from('<IBBHQQ', raw, o)
                    nm = cstr(strb, n)
                    typ = info & 15
                    if typ == 3 and shndx < len(self.sections):
                        nm = self.sections[shndx].name
                    self.symbols.append((nm, info >> 4, typ, shndx, val, size))
                    if nm and (info >> 4) in (1, 2) and 0 < shndx < 0xff00:
                        self.globals[nm] = (shndx, val)
        self.localsyms = {}
        for nm, bind, typ, shndx, val, size in self.symbols:
            if nm and typ != 3 and 0 < shndx < 0xff00:
                self.localsyms.setdefault(nm, (shndx, val))
        for i, s in enumerate(sh):
            if s[1] == 4:
                tgt = self.sections[s[7]]
                for o in range(s[4], s[4] + s[5], 24):
                    off, info, add = struct.unpack_from('<QQq', raw, o)
                    sym = self.symbols[info >> 32]
                    tgt.rels[off] = (info & 0xffffffff, sym, add)

    def _disasm(self):
        out = run(['objdump', '-d', '-l', '-w', '-M', 'intel', '--no-show-raw-insn', self.path])
        self.code = {}
        self.labels = {}
        cur = None
        line = None
        ins = []
        secbyname = {s.name: s for s in self.sections}
        for l in out.splitlines():
            m = re.match(r'^Disassembly of section (\S+):', l)
            if m:
                cur = secbyname[m.group(1)]
                line = None
                continue
            m = re.match(r'^([0-9a-f]+) <(.*)>:$', l)
            if m:
                self.labels[(cur.idx, int(m.group(1), 16))] = m.group(2)
                continue
            m = re.match(r'^(/.*):(\d+)( \(discriminator \d+\))?$', l)
            if m:
                line = (m.group(1), int(m.group(2)))
                continue
            m = re.match(r'^\s+([0-9a-f]+):\s+(.*)$', l)
            if m:
                x = Insn()
                x.addr = int(m.group(1), 16)
                x.text = re.sub(r'\s*(#.*|<[^>]*>\s*)$', '', m.group(2)).strip()
                x.line = line
                x.rel = None
                ins.append((cur, x))
        for i, (sec, x) in enumerate(ins):
            if i + 1 < len(ins) and ins[i + 1][0] is sec:
                x.next = ins[i + 1][1].addr
            else:
                x.next = sec.size
            for o in range(x.addr, x.next):
                if o in sec.rels:
                    x.rel = (o,) + sec.rels[o]
            t = x.text
            while True:
                m = re.match(r'^(data16|notrack|bnd|cs|ds|es|ss|repz|repnz|rep|rex\S*|addr32)\s+(\S.*)$', t)
                if not m or (m.group(1).startswith('rep') and not re.match(r'ret', m.group(2))):
                    break
                t = m.group(2)
            p = t.split(None, 1)
            x.mn = p[0]
            x.ops = [o.strip() for o in _split(p[1])] if len(p) > 1 else []
            self.code[(sec.idx, x.addr)] = x

    def where(self, x):
        if x.line:
            return '%s:%d' % (x.line[0], x.line[1])
        return '%s+0x%x' % (self.src, x.addr)


def _split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
            continue
        d += ch in '[({'
        d -= ch in '])}'
        cur += ch
    out.append(cur)
    return out


def asm_sources(repo):
    out = []
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', '_build', 'third_party', 'build'))
        for f in sorted(files):
            if f.endswith('.asm'):
                out.append(os.path.join(root, f))
    return out


def build_kernels(repo, work):
    """Assemble every .asm that defines code, and compile every ssz/*.cpp naming the kernels; returns list of Obj."""
    os.makedirs(work, exist_ok=True)
    objs = []
    for src in asm_sources(repo):
        o = os.path.join(work, os.path.basename(src) + '.o')
        run(['yasm', '-I' + repo + '/_build', '-I' + repo + '/', '-I' + repo + '/include', '-f', 'elf64', '-g', 'dwarf2', '-o', o, src], cwd=repo)
        ob = Obj(o, os.path.basename(src), src)
        if any(s.exec and s.size for s in ob.sections):
            objs.append(ob)
    return objs


def build_cpp(repo, work, rel, extra=()):
    os.makedirs(work, exist_ok=True)
    src = os.path.join(repo, rel)
    o = os.path.join(work, rel.replace('/', '_') + '.o')
    run(['clang++', '-std=c++20', '-O1', '-gline-tables-only', '-fno-pic', '-fno-pie', '-mno-red-zone', '-fno-vectorize',
         '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-asynchronous-unwind-tables', '-fcf-protection=none', '-fno-optimize-sibling-calls', '-I' + repo, '-I' + repo + '/include',
         *extra, '-c', src, '-o', o], cwd=repo)
    return Obj(o, rel, src)

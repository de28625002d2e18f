#!/usr/bin/env python3
"""A small compiler for the part of the Flavor language (ISO/IEC 14496-1 SDL) that mg's .fl files use.

The real compiler (deps/flavor) is not part of the repository and not installed.  This one turns NAME.fl into
NAME.h / NAME.cpp with one class per Flavor class, with members for all variables and int get(IBitstream &),
int put(IBitstream &).  usage: flavor.py OUTDIR FILE.fl...
"""
import os, re, sys

OPS = ['<<=', '>>=', '...', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '::', '..']

class Tok:
    __slots__ = ('k', 'v', 'line')
    def __init__(self, k, v, line): self.k, self.v, self.line = k, v, line
    def __repr__(self): return '%s:%r@%d' % (self.k, self.v, self.line)

def lex(s, name):
    t, i, n, line = [], 0, len(s), 1
    def verb(open_, close):
        nonlocal i, line
        j = s.find(close, i + len(open_))
        if j < 0: raise SyntaxError('%s:%d: no %s' % (name, line, close))
        body = s[i + len(open_):j]
        t.append(Tok('V' + open_[1:-1], body, line))
        line += s.count('\n', i, j + len(close)); i = j + len(close)
    while i < n:
        c = s[i]
        if c == '\n': line += 1; i += 1
        elif c.isspace() or c == '\x1a' or c == '\ufeff': i += 1
        elif s.startswith('//', i):
            j = s.find('\n', i); i = n if j < 0 else j
        elif s.startswith('/*', i):
            j = s.index('*/', i) + 2; line += s.count('\n', i, j); i = j
        elif s.startswith('%.c{', i): verb('%.c{', '%.c}')
        elif s.startswith('%.j{', i): verb('%.j{', '%.j}')
        elif s.startswith('%g{', i): verb('%g{', '%g}')
        elif s.startswith('%p{', i): verb('%p{', '%p}')
        elif s.startswith('%*{', i): verb('%*{', '%*}')
        elif s.startswith('%{', i): verb('%{', '%}')
        elif c == '%' and re.match(r'%(pragma|include|import)\b', s[i:]):
            j = s.find('\n', i); j = n if j < 0 else j
            t.append(Tok('D', s[i:j].strip(), line)); i = j
        elif c.isalpha() or c == '_':
            m = re.compile(r'\w+').match(s, i); t.append(Tok('I', m.group(), line)); i = m.end()
        elif c.isdigit():
            m = re.compile(r'0[bB][01.]+|0[xX][0-9a-fA-F]+|\d+\.\d+|\d+').match(s, i); v = m.group(); i = m.end()
            if v[:2] in ('0b', '0B'): t.append(Tok('N', (str(int(v[2:].replace('.', ''), 2)), len(v[2:].replace('.', ''))), line))
            else: t.append(Tok('N', (v, 0), line))
        elif c == '"' or c == "'":
            j = i + 1
            while s[j] != c:
                if s[j] == '\\': j += 1
                j += 1
            t.append(Tok('S', s[i:j + 1], line)); i = j + 1
        else:
            for o in OPS:
                if s.startswith(o, i): t.append(Tok('O', o, line)); i += len(o); break
            else: t.append(Tok('O', c, line)); i += 1
    t.append(Tok('E', '', line))
    return t

TYPES = {'bit': 'unsigned int', 'int': 'int', 'char': 'char', 'short': 'short', 'long': 'long', 'float': 'float', 'double': 'double', 'uint64_t': 'uint64_t', 'int64_t': 'int64_t', 'uint32_t': 'uint32_t', 'bool': 'bool'}

class Compiler:
    def __init__(self, path, known):
        self.path = path; self.name = os.path.splitext(os.path.basename(path))[0]
        self.t = lex(open(path, encoding='latin-1', newline='').read().replace('\r\n', '\n').replace('\r', '\n'), self.name)
        self.p = 0; self.array = 64; self.known = known      # known: class name -> dict(params, base); 'maps': set
        self.h, self.c = [], []; self.deps = []; self.objects = []
    # ---- token helpers
    def cur(self): return self.t[self.p]
    def err(self, m): raise SyntaxError('%s.fl:%d: %s near %r' % (self.name, self.cur().line, m, self.cur().v))
    def isop(self, v, k=0): x = self.t[self.p + k]; return x.k == 'O' and x.v == v
    def isid(self, v=None, k=0): x = self.t[self.p + k]; return x.k == 'I' and (v is None or x.v == v)
    def op(self, v):
        if not self.isop(v): self.err('expected ' + v)
        self.p += 1
    def ident(self):
        if self.cur().k != 'I': self.err('expected a name')
        self.p += 1; return self.t[self.p - 1].v
    def text(self, toks):
        o = []
        for i, x in enumerate(toks):
            if x.k == 'N': o.append(x.v[0])
            elif x.k == 'I' and x.v in ('nextbits', 'snextbits', 'skipbits') and i + 1 < len(toks) and toks[i + 1].v == '(': o.append('var_bs.' + x.v)
            elif x.k == 'I' and x.v == 'nextcode':
                # nextcode(aligned(n), code): skip to the next occurrence of a 32 bit code at an n bit boundary
                j = i + 1; inner = ''.join(str(y.v[0] if y.k == 'N' else y.v) for y in toks[j:])
                m = re.match(r'\(aligned\((\w+)\),(\w+)\)$', inner)
                if not m: self.err('nextcode')
                o.append('var_bs.nextcode(%s, 32, %s)' % (m.group(2), m.group(1))); return ' '.join(o)
            elif x.k == 'I' and x.v == 'numbits': o.append('var_bs.getpos')
            elif x.k == 'I' and x.v == 'lengthof': pass
            elif x.k == 'I' and i > 1 and toks[i - 2].v == 'lengthof': o.append('var_len_' + x.v)
            elif x.k == 'O' and x.v == '.' and i and toks[i - 1].v in self.objects: o.append('->')
            else: o.append(x.v)
        return ' '.join(o)
    def until(self, stops):
        """tokens up to one of the stop operators at depth 0 (not consumed)"""
        d, a = 0, self.p
        while True:
            x = self.cur()
            if x.k == 'E': self.err('unexpected end')
            if x.k.startswith('V'): self.err('code inside an expression')
            if x.k == 'O':
                if d == 0 and x.v in stops: return self.t[a:self.p]
                if x.v in '([{': d += 1
                if x.v in ')]}': d -= 1
            self.p += 1
    def paren(self):
        self.op('('); e = self.until(')'); self.op(')'); return e
    # ---- file level
    def run(self):
        while self.cur().k != 'E':
            x = self.cur()
            if x.k == 'D':
                self.p += 1
                m = re.match(r'%pragma\s+array\s*=\s*(\d+)', x.v)
                if m: self.array = int(m.group(1))
                m = re.match(r'%include\s+"([^"]+)\.fl"', x.v)
                if m: self.deps.append(m.group(1)); self.h.append('#include "%s.h"' % m.group(1))
            elif x.k in ('V', 'V.c', 'V*'): self.p += 1; self.h.append(x.v)
            elif x.k == 'V.j': self.p += 1
            elif self.isid('const'): self.const()
            elif self.isid('map'): self.map()
            elif self.isop(';'): self.p += 1
            else: self.klass()
    def const(self):
        a = self.p
        while not self.isop(';'): self.p += 1
        self.h.append(self.text(self.t[a:self.p]) + ';'); self.op(';')
    def map(self):
        self.p += 1; name = self.ident(); ty = self.text(self.paren()); self.op('{'); items = []
        while not self.isop('}'):
            if self.isop(','): self.p += 1; continue
            k = self.cur(); 
            if k.k != 'N' or not k.v[1]: self.err('expected a code')
            self.p += 1; self.op(','); v = self.until([',', '}'])
            items.append((k.v[0], k.v[1], self.text(v)))
        self.op('}')
        self.known['maps'].add(name)
        self.h.append('struct %s_map { static %s get(IBitstream & var_bs); static void put(IBitstream & var_bs, %s v); };' % (name, ty, ty))
        self.c.append('%s %s_map::get(IBitstream & var_bs)\n{' % (ty, name))
        for k, n, v in sorted(items, key=lambda q: q[1]): self.c.append('\tif(var_bs.nextbits(%d) == %s){var_bs.skipbits(%d); return %s;}' % (n, k, n, v))
        self.c.append('\tfl_error("%s: unknown code"); var_bs.skipbits(%d); return 0;\n}' % (name, max(n for _, n, _ in items)))
        self.c.append('void %s_map::put(IBitstream & var_bs, %s v)\n{' % (name, ty))
        for k, n, v in items: self.c.append('\tif(v == %s){var_bs.putbits(%s, %d); return;}' % (v, k, n))
        self.c.append('\tfl_error("%s: value without a code"); var_bs.putbits(0, %d);\n}' % (name, items[0][1]))
    # ---- classes
    def klass(self):
        al = 0
        if self.isid('aligned'): 
            self.p += 1; al = '8'
            if self.isop('('): al = self.text(self.paren())
        if self.isid('abstract'): self.p += 1
        if self.isid('expandable'): self.err('expandable is not supported')
        if not self.isid('class'): self.err('expected a class')
        self.p += 1; name = self.ident(); params = ''; base = None
        if self.isop('('):
            pt = self.paren(); s = self.text(pt)
            ps = []
            for q in s.split(','):
                w = q.split()
                if not w: continue
                if any(x in self.known['classes'] for x in w[:-1]): w.insert(len(w) - 1, '*')
                ps.append(' '.join(w))
            params = ', '.join(ps)
        if self.isid('extends'): self.p += 1; base = self.ident()
        self.members = []; self.seen = {}; self.mode = None; self.objects = []
        self.known['classes'][name] = dict(params=params, base=base)
        pre = None
        if self.isop(':'):
            self.p += 1; a = self.p
            while not self.isop('{'): self.p += 1
            b = self.p; has_base_id = base and self.known['classes'].get(base, {}).get('id')
            self.known['classes'][name]['id'] = True
            if not has_base_id:
                toks = self.t[a:b]; cut = [i for i, x in enumerate(toks) if x.v == '=']
                pre = toks[:cut[0]] if cut else toks
        self.cname = name
        start = self.p
        body = {}
        for mode in 'gp':
            self.mode = mode; self.p = start; self.op('{'); out = []
            if pre and mode == 'g' or pre and mode == 'p':
                sv = self.t, self.p; self.t = pre + [Tok('O', ';', 0), Tok('E', '', 0)]; self.p = 0
                out.append(self.stmt()); self.t, self.p = sv
            while not self.isop('}'): out.append(self.stmt())
            self.op('}'); body[mode] = out
        h = ['class %s%s\n{\npublic:' % (name, ' : public ' + base if base else '')] + self.members
        extra = ', ' + params if params else ''
        h.append('public:\n\tvirtual int get(IBitstream & var_bs%s);\n\tvirtual int put(IBitstream & var_bs%s);\n};' % (extra, extra))
        self.h += h
        for mode, fn in (('g', 'get'), ('p', 'put')):
            o = ['int %s::%s(IBitstream & var_bs%s)\n{' % (name, fn, extra), '\tint var_ret = 0; uint64_t var_start = var_bs.getpos(); int var_dim0_end = 0; (void)var_dim0_end; (void)var_start;']
            for n in self.objects: o.append('\tint var_len_%s = 0; (void)var_len_%s;' % (n, n))
            if base: o.append('\t%s::%s(var_bs);' % (base, fn))
            if al: o.append('\tvar_bs.align(%s);' % al)
            o += body[mode]
            o.append('\tvar_ret = (int)(var_bs.getpos() - var_start);\n\treturn var_ret;\n}')
            self.c += o
    def member(self, decl, name):
        """a class member; only noted once, while generating get"""
        if self.mode != 'g': return
        if name in self.seen: return
        self.seen[name] = decl; self.members.append('\t' + decl + ';')
    # ---- statements
    def sub(self):
        s = self.stmt()
        return s if s.strip() else '{}'
    def stmt(self):
        x = self.cur()
        if x.k in ('V', 'V.c'):
            self.p += 1
            if self.mode == 'g': self.members.append(x.v)
            return ''
        if x.k == 'V.j': self.p += 1; return ''
        if x.k == 'V*': self.p += 1; return x.v + '\n'
        if x.k in ('Vg', 'Vp'): self.p += 1; return x.v + '\n' if x.k[1] == self.mode else ''
        if x.k == 'O':
            if x.v == ';': self.p += 1; return ';\n'
            if x.v == '{':
                self.p += 1; o = '{\n'
                while not self.isop('}'): o += self.stmt()
                self.op('}'); return o + '}\n'
        if x.k == 'I':
            if x.v == 'if':
                self.p += 1; c = self.text(self.paren()); o = 'if(%s)\n%s' % (c, self.sub())
                if self.isid('else'): self.p += 1; o = 'if(%s)\n{%s}\nelse\n%s' % (c, o[o.index('\n') + 1:], self.sub())
                return o
            if x.v == 'while': self.p += 1; c = self.text(self.paren()); return 'while(%s)\n%s' % (c, self.sub())
            if x.v == 'do':
                self.p += 1; b = self.sub()
                if not self.isid('while'): self.err('expected while')
                self.p += 1; c = self.text(self.paren()); self.op(';'); return 'do\n{%s}\nwhile(%s);\n' % (b, c)
            if x.v == 'for': self.p += 1; c = self.text(self.paren()); return 'for(%s)\n%s' % (c, self.sub())
            if x.v == 'switch':
                self.p += 1; c = self.text(self.paren()); self.op('{'); o = 'switch(%s)\n{\n' % c
                while not self.isop('}'):
                    if self.isid('case'): self.p += 1; o += 'case %s:\n' % self.text(self.until(':')); self.op(':')
                    elif self.isid('default'): self.p += 1; self.op(':'); o += 'default:\n'
                    else: o += self.stmt()
                self.op('}'); return o + '}\n'
            if x.v in ('break', 'continue'): self.p += 1; self.op(';'); return x.v + ';\n'
            d = self.decl()
            if d is not None: return d
        e = self.until(';'); self.op(';')
        return self.text(e) + ';\n'
    def decl(self):
        a = self.p; al = ''; little = False; const = False
        while True:
            if self.isid('aligned'):
                self.p += 1; v = '8'
                if self.isop('('): v = self.text(self.paren())
                al = 'var_bs.align(%s);\n' % v
            elif self.isid('const'): self.p += 1; const = True
            elif self.isid('little'): self.p += 1; little = True
            elif self.isid('big'): self.p += 1
            elif self.isid('legacy'): self.p += 1
            else: break
        uns = None
        if self.isid('unsigned') or self.isid('signed'): uns = self.ident()
        if not self.isid(): self.p = a; return None
        ty = self.cur().v
        if uns is None and ty not in TYPES:
            if ty in self.known['classes'] and self.isid(None, 1): return al + self.object()
            self.p = a; return None
        if ty in TYPES: self.p += 1
        elif uns: ty = 'int'
        ct = TYPES[ty]
        if uns == 'unsigned' and ct != 'unsigned int': ct = 'unsigned ' + ct
        size = None
        if self.isop('('): size = self.text(self.paren())
        if not self.isid(): self.err('expected a variable')
        out = al
        while True:
            name = self.ident(); dims = []
            while self.isop('['):
                if self.isop('[', 1): self.p += 2; dims.append(('part', self.text(self.until(']')))); self.op(']'); self.op(']')
                else: self.p += 1; dims.append(('all', self.text(self.until(']')))); self.op(']')
            init = None
            if self.isop('='): self.p += 1; init = self.text(self.until([',', ';']))
            out += self.var(name, ct, uns, ty, size, dims, init, little, const)
            if self.isop(','): self.p += 1; continue
            self.op(';'); return out
    def var(self, name, ct, uns, ty, size, dims, init, little, const):
        ds = ''
        for k, e in dims: ds += '[%s]' % (e if k == 'all' and re.match(r'^\d+$', e) else self.array)
        self.member('%s %s%s' % (ct, name, ds), name)
        if size is None:
            if init is None: return ''
            if init.startswith('{'):
                vals = init.strip('{} ').split(',')
                return ''.join('%s[%d] = %s;\n' % (name, i, v) for i, v in enumerate(vals))
            return '%s = %s;\n' % (name, init)
        o = ''; ref = name; loops = 0
        for i, (k, e) in enumerate(dims):
            if k == 'part':
                # the index is evaluated once (it may have side effects)
                o += '{ int var_i%d = (int)(%s);\n' % (i, e); ref += '[var_i%d]' % i; loops += 1
                o += 'if(var_i%d < 0 || var_i%d >= (int)(sizeof(%s) / sizeof(%s[0]))) throw CMediaParserErr(_T(__FILE__), __LINE__, _T("array overflow"));\n' % (i, i, ref[:ref.rindex('[')], ref[:ref.rindex('[')])
            else:
                o += '{ int var_e%d = (int)(%s);\nif(var_e%d > (int)(sizeof(%s) / sizeof(%s[0]))) throw CMediaParserErr(_T(__FILE__), __LINE__, _T("array overflow"));\nfor(int var_i%d = 0; var_i%d < var_e%d; var_i%d++) {\n' % (i, e, i, ref, ref, i, i, i, i); ref += '[var_i%d]' % i; loops += 2
        m = size.strip()
        if self.mode == 'g':
            if m in self.known['maps']: o += '%s = %s_map::get(var_bs);\n' % (ref, m)
            else:
                f = 'little_getbits' if little else 'sgetbits' if not uns and ty in ('int', 'char', 'short', 'long') else 'getbits'
                o += '%s = (%s)var_bs.%s(%s);\n' % (ref, ct, f, size)
            if init is not None: o += 'if(%s != (%s)(%s)) fl_error("%s.%s: unexpected value");\n' % (ref, ct, init, self.cname, name)
        else:
            if init is not None: o += '%s = %s;\n' % (ref, init)
            if m in self.known['maps']: o += '%s_map::put(var_bs, %s);\n' % (m, ref)
            else: o += 'var_bs.%s(%s, %s);\n' % ('little_putbits' if little else 'putbits', ref, size)
        if init is not None and not loops: return '{\n' + o + '}\n'
        return o + '}' * loops + ('\n' if loops else '')
    def object(self):
        ty = self.ident(); name = self.ident(); args = ''
        if self.isop('['): self.err('arrays of objects are not supported')
        if self.isop('('): args = self.text(self.paren())
        self.op(';')
        self.member('%s * %s' % (ty, name), name)
        if name not in self.objects: self.objects.append(name)
        a = ', ' + args if args.strip() else ''
        if self.mode == 'g': return '%s = new %s;\nvar_len_%s = %s->get(var_bs%s);\n' % (name, ty, name, name, a)
        return 'var_len_%s = %s->put(var_bs%s);\n' % (name, name, a)

def compile_all(outdir, files):
    os.makedirs(outdir, exist_ok=True)
    known = {'classes': {}, 'maps': set()}; done = {}
    byname = {os.path.splitext(os.path.basename(f))[0]: f for f in files}
    def go(n):
        if n in done: return
        done[n] = None
        src = open(byname[n], encoding='latin-1').read()
        for d in re.findall(r'%include\s+"([^"]+)\.fl"', src): go(d)
        for d in re.findall(r'#include\s+"(?:mp4/)?(\w+)\.h"', src):
            if d in byname: go(d)
        c = Compiler(byname[n], known); c.run(); done[n] = c
        g = 'FL_%s_H' % n.upper()
        with open(os.path.join(outdir, n + '.h'), 'w', encoding='latin-1') as f:
            f.write('#ifndef %s\n#define %s\n#include <stdio.h>\n#include <vector>\n#include "flbase.h"\n' % (g, g) + '\n'.join(c.h) + '\n#endif\n')
        with open(os.path.join(outdir, n + '.cpp'), 'w', encoding='latin-1') as f:
            f.write('#include "%s.h"\n__ALX_BEGIN_NAMESPACE\n' % n + '\n'.join(c.c) + '\n__ALX_END_NAMESPACE\n')
    for n in byname: go(n)
    with open(os.path.join(outdir, 'flbase.h'), 'w') as f:
        f.write('''#ifndef FLBASE_H
#define FLBASE_H
#include <mg/media/TBitstream.h>
#include <mg/media/media_parser.h>
// a constant field that reads differently, or a value that has no code: the real runtime prints a message
inline unsigned int & fl_error_count() { static unsigned int n; return n; }
inline void fl_error(const char *) { fl_error_count()++; }
#endif
''')

if __name__ == '__main__': compile_all(sys.argv[1], sys.argv[2:])

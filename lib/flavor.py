#!/usr/bin/env python3
"""A small compiler for the bit stream descriptions of src/mg/media/mp4/*.fl.

The media sources of mediagoom/mg include C++ generated from these descriptions by `flavor`, which is
a git submodule that is not here (deps/flavor is empty).  This is a substitute for exactly the constructs
used in the repository:   flavor.py IN.fl OUTDIR   writes OUTDIR/IN.h and OUTDIR/IN.cpp.

Every class becomes a C++ class with public members for its fields and variables, and
  int get(IBitstream &var_bs, params...)   reads the fields,
  int put(IBitstream &var_bs, params...)   writes them.
Both return the number of fields that did not have their expected value (get) or 0 (put).
"""
import sys, os, re

TOK = re.compile(r'''
   (?P<verb>%(?:\{.*?%\}|g\{.*?%g\}|p\{.*?%p\}|\.c\{.*?%\.c\}|\.j\{.*?%\.j\}))
 | (?P<inc>%include\s+"[^"]*")
 | (?P<pragma>%pragma[^\n]*)
 | (?P<com>//[^\n]*|/\*.*?\*/)
 | (?P<bin>0b[01][01.]*)
 | (?P<num>0[xX][0-9a-fA-F]+|\d+)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<str>"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')
 | (?P<dots>\.\.)
 | (?P<op>\[\[|\]\]|<<=|>>=|\+\+|--|->|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[-+*/%&|^~!<>=?:;,.(){}\[\]])
 | (?P<ws>\s+)
''', re.S | re.X)


class FlavorError(Exception):
    pass


def tokenize(text, name):
    res = []
    p = 0
    line = 1
    while p < len(text):
        m = TOK.match(text, p)
        if not m:
            raise FlavorError('%s:%d: cannot read %r' % (name, line, text[p:p + 30]))
        k = m.lastgroup
        v = m.group()
        if k not in ('ws', 'com'):
            res.append((k, v, line))
        line += v.count('\n')
        p = m.end()
    # a[b[c]] ends with two brackets: "]]" closes "[[" only, otherwise it is two tokens
    out, st = [], []
    for t in res:
        if t[1] in ('[[', '['):
            st.append(t[1])
        elif t[1] == ']':
            if st: st.pop()
        elif t[1] == ']]':
            if st and st[-1] == '[[':
                st.pop()
            else:
                for _ in range(2):
                    if st: st.pop()
                    out.append(('op', ']', t[2]))
                continue
        out.append(t)
    return out


SIMPLE = ('unsigned', 'int', 'bit', 'char', 'short', 'uint64_t', 'int64_t', 'float', 'double')


class Cls(object):
    def __init__(self, name):
        self.name = name
        self.base = None
        self.align = 0
        self.params = []        # (type text, name)
        self.idfield = None
        self.members = []       # C++ declarations in order: strings
        self.names = {}         # member name -> class name or None
        self.get = []
        self.put = []


class Compiler(object):
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)
        self.classes = {}       # all known, including included ones
        self.maps = {}
        self.array = 256
        self.head = []          # generated header text
        self.own_classes = []
        self.uniq = 0

    # -- token helpers
    def peek(self, k=0):
        i = self.i + k
        return self.t[i][1] if i < len(self.t) else ''

    def kind(self, k=0):
        i = self.i + k
        return self.t[i][0] if i < len(self.t) else 'eof'

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def fail(self, what):
        line = self.t[min(self.i, len(self.t) - 1)][2]
        raise FlavorError('%s:%d: %s near %r' % (self.name, line, what, ' '.join(x[1] for x in self.t[self.i:self.i + 6])))

    def expect(self, v):
        if self.peek() != v:
            self.fail('expected %r' % v)
        self.i += 1

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def until(self, stops):
        """tokens up to (not including) one of stops at depth 0"""
        out = []
        depth = 0
        while True:
            if self.kind() == 'eof':
                self.fail('unexpected end')
            v = self.peek()
            if depth == 0 and v in stops:
                return out
            if v in ('(', '[', '{', '[['):
                depth += 1
            if v in (')', ']', '}', ']]'):
                depth -= 1
            out.append(self.t[self.i])
            self.i += 1

    # -- expressions
    def expr(self, toks):
        out = []
        i = 0
        while i < len(toks):
            k, v, _ = toks[i]
            if k == 'bin':
                v = '0x%x' % int(v[2:].replace('.', ''), 2)
            elif k == 'id' and v == 'nextbits':
                v = 'var_bs.nextbits'
            elif k == 'id' and v == 'numbits':
                v = 'var_bs.getpos'
            elif k == 'id' and v == 'lengthof':
                # lengthof(x): bits of the nested field x
                v = toks[i + 2][1] + '_flavor_length'
                i += 3
            elif k == 'op' and v == '.' and out and i + 1 < len(toks) and toks[i + 1][0] == 'id' and self.member_class(toks[i - 1][1]):
                v = '->'
            elif k == 'id' and v == 'skipbits':
                v = 'var_bs.skipbits'
            out.append(v)
            i += 1
        return ' '.join(out)

    def member_class(self, name):
        c = self.cur
        while c:
            if name in c.names:
                return c.names[name]
            c = self.classes.get(c.base)
        return None

    def has_member(self, name):
        c = self.cur
        while c:
            if name in c.names:
                return True
            c = self.classes.get(c.base)
        return False

    def declare(self, name, text, cls=None):
        if self.has_member(name) or name in [p[1] for p in self.cur.params]:
            return
        self.cur.names[name] = cls
        self.cur.members.append(text)

    # -- file level
    def compile(self, text, included=False):
        saved = (getattr(self, 't', None), getattr(self, 'i', 0))
        self.t = tokenize(text.replace('\r', ''), self.name)
        self.i = 0
        out = []
        while self.kind() != 'eof':
            k, v = self.kind(), self.peek()
            if k == 'verb':
                self.i += 1
                tag, body = self.verbatim(v)
                if tag in ('', 'c'):
                    out.append(body)
            elif k == 'inc':
                self.i += 1
                f = v.split('"')[1]
                self.include(f)
                out.append('#include "%s.h"\n' % f.rsplit('.', 1)[0])
            elif k == 'pragma':
                self.i += 1
                m = re.search(r'array\s*=\s*(\d+)', v)
                if m:
                    self.array = int(m.group(1))
            elif v == 'map':
                out.append(self.map())
            elif v in ('class', 'aligned', 'abstract'):
                out.append(self.cls())
            elif v == 'const':
                toks = self.until((';',))
                self.expect(';')
                out.append(self.expr(toks) + ';\n')
            elif v == ';':
                self.i += 1
            else:
                self.fail('cannot compile')
        self.t, self.i = saved
        return ''.join(out)

    def verbatim(self, v):
        if v.startswith('%{'):
            return '', v[2:-2]
        if v.startswith('%.'):
            return v[2], v[4:-4]
        return v[1], v[3:-3]

    def include(self, f):
        path = os.path.join(os.path.dirname(self.path), f)
        sub = Compiler(path)
        sub.compile(open(path, encoding='latin-1').read(), True)
        self.classes.update(sub.classes)
        self.maps.update(sub.maps)

    def map(self):
        self.expect('map')
        name = self.next()
        self.expect('(')
        self.until((')',))
        self.expect(')')
        self.expect('{')
        vals = []
        while not self.accept('}'):
            if self.accept(','):
                continue
            code = self.next()
            self.expect(',')
            value = self.expr(self.until((',', '}')))
            if not code.startswith('0b'):
                self.fail('map codes have to be binary')
            vals.append((code[2:], value))
        widths = set(len(c) for c, _ in vals)
        if len(widths) != 1:
            self.fail('only maps of one width are supported')
        w = widths.pop()
        self.maps[name] = w
        # codes that are not in the table read as 0 and are reported; values not in the table cannot be written
        g = 'inline unsigned int flavor_map_get_%s(IBitstream &var_bs, int &var_ret)\n{\n   switch(var_bs.getbits(%d))\n   {\n' % (name, w)
        p = 'inline void flavor_map_put_%s(IBitstream &var_bs, unsigned int value)\n{\n   switch(value)\n   {\n' % name
        seen = set()
        for c, v in vals:
            g += '     case %d: return %s;\n' % (int(c, 2), v)
            if v not in seen:
                p += '     case %s: var_bs.putbits(%d, %d); return;\n' % (v, int(c, 2), w)
            seen.add(v)
        g += '   }\n   var_ret++; return 0;\n}\n'
        p += '   }\n   flavor_map_error("%s", value);\n}\n' % name
        return ('#ifndef FLAVOR_MAP_ERROR\n#define FLAVOR_MAP_ERROR\ninline void flavor_map_error(const char * name, unsigned int value)\n'
                '{ (void)name; (void)value; throw mgexception(E_INVALID_INPUT, "value is not in the map", __FILE__, __LINE__); }\n#endif\n') + g + p

    # -- classes
    def cls(self):
        align = 0
        if self.accept('aligned'):
            self.expect('(')
            align = int(self.next())
            self.expect(')')
        self.accept('abstract')
        self.expect('class')
        c = self.cur = Cls(self.next())
        c.align = align
        if self.accept('('):
            while not self.accept(')'):
                toks = [x[1] for x in self.until((',', ')'))]
                self.accept(',')
                typ, nm = ' '.join(toks[:-1]), toks[-1]
                if toks[-2] in self.classes:
                    typ += ' *'
                c.params.append((typ, nm))
        if self.accept('extends'):
            c.base = self.next()
            if c.base not in self.classes:
                self.fail('unknown base class')
        idtoks = None
        if self.accept(':'):
            idtoks = self.until(('{',))
        self.classes[c.name] = c
        if idtoks:
            self.idfield(idtoks)
        self.expect('{')
        self.out_g, self.out_p = c.get, c.put
        while not self.accept('}'):
            g, p = self.stmt()
            c.get.append(g)
            c.put.append(p)
        self.accept(';')
        pars = ''.join(', %s %s' % x for x in c.params)
        bpars = ''
        o = 'class %s%s\n{\npublic:\n' % (c.name, ' : public ' + c.base if c.base else '')
        o += ''.join(c.members)
        o += 'public:\n'
        for what in ('get', 'put'):
            o += '   virtual int %s(IBitstream &var_bs%s)\n   {\n      int var_ret = 0; int var_dim0_end = 0; (void)var_dim0_end;\n' % (what, pars)
            if c.align:
                o += '      var_bs.align(%d);\n' % c.align
            if c.base:
                bp = self.classes[c.base].params
                o += '      var_ret += %s::%s(var_bs%s);\n' % (c.base, what, ''.join(', ' + x[1] for x in bp))
            o += ''.join(c.get if what == 'get' else c.put)
            o += '      return var_ret;\n   }\n'
        o += '};\n\n'
        return o

    def idfield(self, toks):
        # `const unsigned int(32) tag = 5` or a range `= 1 .. 4`; the first class of a hierarchy reads it
        txt = [t[1] for t in toks]
        if txt[0] == 'const':
            toks, txt = toks[1:], txt[1:]
        lp, rp = txt.index('('), txt.index(')')
        width = self.expr(toks[lp + 1:rp])
        nm = txt[rp + 1]
        if not self.has_member(nm):
            self.declare(nm, '   unsigned int %s = 0;\n' % nm)
            self.cur.get.append('      %s = var_bs.getbits(%s);\n' % (nm, width))
            self.cur.put.append('      var_bs.putbits(%s, %s);\n' % (nm, width))

    # -- statements: return (text for get, text for put)
    def body(self):
        if self.kind() == 'verb':
            g, p = self.stmt()
            return '      {%s}\n' % g, '      {%s}\n' % p
        g, p = self.stmt()
        return '      {\n%s      }\n' % g, '      {\n%s      }\n' % p

    def stmt(self):
        k, v = self.kind(), self.peek()
        if k == 'verb':
            self.i += 1
            tag, body = self.verbatim(v)
            if tag == 'g':
                return body + '\n', ''
            if tag == 'p':
                return '', body + '\n'
            if tag in ('', 'c'):
                self.cur.members.append(body + '\n')
            return '', ''
        if k == 'pragma':
            self.i += 1
            return '', ''
        if v == ';':
            self.i += 1
            return '', ''
        if v == '{':
            self.i += 1
            g, p = '      {\n', '      {\n'
            while not self.accept('}'):
                a, b = self.stmt()
                g += a
                p += b
            return g + '      }\n', p + '      }\n'
        if v == 'if':
            self.i += 1
            self.expect('(')
            e = self.expr(self.until((')',)))
            self.expect(')')
            a, b = self.body()
            g, p = '      if(%s)\n%s' % (e, a), '      if(%s)\n%s' % (e, b)
            if self.accept('else'):
                a, b = self.body()
                g += '      else\n' + a
                p += '      else\n' + b
            return g, p
        if v == 'while':
            self.i += 1
            self.expect('(')
            e = self.expr(self.until((')',)))
            self.expect(')')
            a, b = self.body()
            return '      while(%s)\n%s' % (e, a), '      while(%s)\n%s' % (e, b)
        if v == 'for':
            self.i += 1
            self.expect('(')
            e1 = self.expr(self.until((';',))); self.expect(';')
            e2 = self.expr(self.until((';',))); self.expect(';')
            e3 = self.expr(self.until((')',))); self.expect(')')
            a, b = self.body()
            h = '      for(%s; %s; %s)\n' % (e1, e2, e3)
            return h + a, h + b
        if v in ('break', 'continue', 'return'):
            toks = self.until((';',))
            self.expect(';')
            s = '      %s;\n' % self.expr(toks)
            return s, s
        if v == 'skipbits':
            self.i += 1
            self.expect('(')
            e = self.expr(self.until((')',)))
            self.expect(')')
            self.accept(';')
            return '      var_bs.skipbits(%s);\n' % e, '      for(int var_s = (%s); var_s > 0; var_s -= 8) var_bs.putbits(0, static_cast<short>(var_s < 8 ? var_s : 8));\n' % e
        if v == 'nextcode':
            self.i += 1
            self.expect('(')
            al = '0'
            if self.accept('aligned'):
                self.expect('(')
                al = self.next()
                self.expect(')')
                self.expect(',')
            code = self.until((')',))
            self.expect(')')
            self.expect(';')
            txt = code[0][1]
            bits = (len(txt) - 2) * 4 if txt[:2] in ('0x', '0X') else 32
            return '      var_bs.nextcode(%s, %d, %s);\n' % (self.expr(code), bits, al), '      var_bs.align(%s);\n' % al
        if v in SIMPLE or v in ('aligned', 'const', 'little', 'big'):
            return self.decl()
        if k == 'id' and v in self.classes and self.kind(1) == 'id':
            return self.nested()
        # expression statement
        toks = self.until((';',))
        self.expect(';')
        s = '      %s;\n' % self.expr(toks)
        return s, s

    def nested(self):
        cn = self.next()
        nm = self.next()
        args = ''
        if self.accept('('):
            toks = self.until((')',))
            self.expect(')')
            args = self.expr(toks)
        self.expect(';')
        self.declare(nm, '   %s * %s = 0;\n' % (cn, nm), cn)
        a = ', ' + args if args else ''
        ln = nm + '_flavor_length'
        self.declare(ln, '   uint64_t %s = 0;\n' % ln)
        t = '      %s = var_bs.getpos();\n%s      var_ret += %s->%s(var_bs%s);\n      %s = var_bs.getpos() - %s;\n'
        return (t % (ln, '      %s = new %s;\n' % (nm, cn), nm, 'get', a, ln, ln), t % (ln, '', nm, 'put', a, ln, ln))

    def decl(self):
        al = None
        const = little = False
        while self.peek() in ('aligned', 'const', 'little', 'big'):
            q = self.next()
            if q == 'aligned':
                self.expect('(')
                al = self.next()
                self.expect(')')
            const |= q == 'const'
            little |= q == 'little'
        tw = []
        while self.peek() in SIMPLE:
            tw.append(self.next())
        width = None
        if self.accept('('):
            wt = self.until((')',))
            self.expect(')')
            width = wt
        g = p = ''
        while True:
            nm = self.next()
            dims = []           # (partial, tokens)
            while self.peek() in ('[', '[['):
                o = self.next()
                cl = ']]' if o == '[[' else ']'
                toks = self.until((cl,))
                self.expect(cl)
                dims.append((o == '[[', toks))
            init = None
            if self.accept('='):
                init = self.until((';', ',', '..'))
                if self.peek() == '..':
                    self.fail('ranges of expected values are not supported for fields')
            a, b = self.one(tw, width, nm, dims, init, little, al)
            g += a
            p += b
            if not self.accept(','):
                break
        self.expect(';')
        return g, p

    def one(self, tw, width, nm, dims, init, little, al):
        signed = tw == ['int']
        ctype = ' '.join(tw)
        if ctype in ('bit', 'unsigned', 'unsigned bit'):
            ctype = 'unsigned int'
        size = ''
        for partial, toks in dims:
            e = self.expr(toks)
            size += '[%s]' % (e if (not partial and re.match(r'^(0x[0-9a-fA-F]+|\d+)$', e)) else self.array)
        if not dims:
            first = ' = 0'
        else:
            first = ' = {}'
        if width is None:
            # a variable
            if init is not None and dims:
                vals = self.expr(init)
                self.declare(nm, '   %s %s%s = %s;\n' % (ctype, nm, size, vals))
                m = re.match(r'^\{(.*)\}$', vals.strip(), re.S)
                if not m:
                    self.fail('cannot initialise')
                s = ''.join('      %s[%d] = %s;\n' % (nm, i, x.strip()) for i, x in enumerate(m.group(1).split(',')))
                return s, s
            self.declare(nm, '   %s %s%s%s;\n' % (ctype, nm, size, first))
            if init is None:
                return '', ''
            s = '      %s = %s;\n' % (nm, self.expr(init))
            return s, s
        # a parsable field
        wname = width[0][1] if len(width) == 1 else ''
        self.declare(nm, '   %s %s%s%s;\n' % (ctype, nm, size, first))
        w = self.expr(width)
        if wname in self.maps:
            rd = 'flavor_map_get_%s(var_bs, var_ret)' % wname
            wr = 'flavor_map_put_%s(var_bs, %%s)' % wname
        elif little:
            rd = 'var_bs.little_getbits(%s)' % w
            wr = 'var_bs.little_putbits(%%s, %s)' % w
        elif signed:
            rd = 'static_cast<int>(var_bs.sgetbits(%s))' % w
            wr = 'var_bs.putbits(%%s, %s)' % w
        else:
            rd = 'var_bs.getbits(%s)' % w
            wr = 'var_bs.putbits(%%s, %s)' % w
        if ctype in ('char', 'unsigned char', 'unsigned short', 'short'):
            rd = 'static_cast<%s>(%s)' % (ctype, rd)
        if ctype == 'char':
            wr = wr % 'static_cast<unsigned char>(%s)'
        pre = '      var_bs.align(%s);\n' % al if al else ''
        self.uniq += 1
        target, loops_o, loops_c = nm, '', ''
        for n, (partial, toks) in enumerate(dims):
            e = self.expr(toks)
            if partial:
                target += '[%s]' % e
            else:
                v = 'var_i%d_%d' % (self.uniq, n)
                loops_o += '      for(unsigned int %s = 0; %s < static_cast<unsigned int>(%s); %s++) {\n' % (v, v, e, v)
                loops_c += '      }\n'
                target += '[%s]' % v
        g = pre + loops_o + '      %s = %s;\n' % (target, rd)
        p = pre + loops_o
        if init is not None:
            ie = self.expr(init)
            mask = ''
            g += '      if(%s != static_cast<%s>(%s)) var_ret++;\n' % (target, ctype, ie)
            p += '      %s = %s;\n' % (target, ie)
        p += '      %s;\n' % (wr % target)
        return g + loops_c, p + loops_c


def main():
    src, outdir = sys.argv[1], sys.argv[2]
    c = Compiler(src)
    text = c.compile(open(src, encoding='latin-1').read())
    base = os.path.basename(src).rsplit('.', 1)[0]
    with open(os.path.join(outdir, base + '.h'), 'w', encoding='latin-1') as f:
        f.write('#pragma once\n' + text)
    with open(os.path.join(outdir, base + '.cpp'), 'w') as f:
        f.write('#include "stdafx.h"\n#include "mp4/%s.h"\n' % base)


if __name__ == '__main__':
    main()

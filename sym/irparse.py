"""Textual LLVM-IR (LLVM 18, opaque pointers) reader: types, constants, functions."""
import re
import struct

# ---------------------------------------------------------------- types
# int: ('i',n)  float: ('f',32|64|80)  ptr: ('p',)  void: ('v',)
# array: ('a',n,T)  struct: ('s',packed,(T..))  vector: ('x',n,T)  label/metadata: ('l',)
PTR = ('p',)
VOID = ('v',)


class P:
    """cursor over a string"""
    __slots__ = ('s', 'i')

    def __init__(self, s, i=0):
        self.s = s
        self.i = i

    def ws(self):
        s = self.s
        i = self.i
        n = len(s)
        while i < n and s[i] in ' \t\n':
            i += 1
        self.i = i

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise SyntaxError(f'expected {t!r} at {self.s[self.i:self.i+80]!r} in {self.s[:200]!r}')

    def re(self, rx):
        self.ws()
        m = rx.match(self.s, self.i)
        if m:
            self.i = m.end()
            return m
        return None

    def word(self):
        m = self.re(WORD)
        return m.group(0) if m else None

    def eof(self):
        self.ws()
        return self.i >= len(self.s)


WORD = re.compile(r'[A-Za-z_][A-Za-z0-9_.]*')
NAME = re.compile(r'[%@](?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+)')
NUM = re.compile(r'-?\d+')
INTT = re.compile(r'i(\d+)\b')
FLOATC = re.compile(r'-?\d+\.\d*(?:e[+-]?\d+)?|0x[KLMH]?[0-9A-Fa-f]+')


class Module:
    def __init__(self, text):
        self.types = {}
        self.typedefs = {}
        self.globals = {}
        self.funcs = {}      # name -> (header, body lines)
        self.decls = {}
        self.aliases = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        n = len(lines)
        i = 0
        while i < n:
            ln = lines[i]
            c = ln[:1]
            if c == '@':
                self._global(ln)
            elif c == '%':
                k, v = ln.split(' = type ', 1)
                self.typedefs[k] = v
            elif c == 'd':
                if ln.startswith('define'):
                    j = i + 1
                    while lines[j] != '}':
                        j += 1
                    m = NAME.search(ln, ln.index('@'))
                    self.funcs[m.group(0)] = (ln, lines[i + 1:j])
                    i = j
                elif ln.startswith('declare'):
                    m = NAME.search(ln, ln.index('@'))
                    self.decls[m.group(0)] = ln
            i += 1

    def _global(self, ln):
        m = NAME.match(ln)
        name = m.group(0)
        rest = ln[m.end():].lstrip(' =')
        if re.search(r'\balias\b', rest.split('"')[0][:120]) and ' alias ' in rest:
            self.aliases[name] = rest
            return
        self.globals[name] = rest

    # types -----------------------------------------------------------
    def ty(self, p):
        p.ws()
        s = p.s
        c = s[p.i]
        if c == 'i':
            m = p.re(INTT)
            t = ('i', int(m.group(1)))
        elif c == '%':
            m = p.re(NAME)
            t = self.named(m.group(0))
        elif c == '[':
            p.i += 1
            n = int(p.re(NUM).group(0))
            p.need('x')
            e = self.ty(p)
            p.need(']')
            t = ('a', n, e)
        elif c == '<':
            p.i += 1
            if p.eat('{'):
                t = ('s', True, self._fields(p))
                p.need('>')
            else:
                n = int(p.re(NUM).group(0))
                p.need('x')
                e = self.ty(p)
                p.need('>')
                t = ('x', n, e)
        elif c == '{':
            p.i += 1
            t = ('s', False, self._fields(p))
        else:
            w = p.word()
            t = {'ptr': PTR, 'void': VOID, 'float': ('f', 32), 'double': ('f', 64), 'x86_fp80': ('f', 80),
                 'label': ('l',), 'metadata': ('l',), 'half': ('f', 16), 'token': ('l',)}.get(w)
            if t is None:
                raise SyntaxError(f'type {w!r} at {s[p.i-10:p.i+40]!r}')
            if w == 'ptr' and p.eat('addrspace('):
                p.re(NUM)
                p.need(')')
        return t

    def _fields(self, p):
        r = []
        if p.eat('}'):
            return ()
        while True:
            r.append(self.ty(p))
            if p.eat('}'):
                return tuple(r)
            p.need(',')

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            d = self.typedefs.get(n, 'opaque')
            t = ('s', False, ()) if d == 'opaque' else self.ty(P(d))
            self.types[n] = t
        return t

    def align(self, t):
        k = t[0]
        if k == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], 8)
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'p':
            return 8
        if k == 'a':
            return self.align(t[2])
        if k == 'x':
            return max(1, self.size(t))
        if k == 's':
            if t[1] or not t[2]:
                return 1
            return max(self.align(x) for x in t[2])
        return 1

    def size(self, t):
        k = t[0]
        if k == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'p':
            return 8
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 'x':
            return t[1] * self.size(t[2])
        if k == 's':
            return self.layout(t)[1]
        raise ValueError(t)

    _lay = {}

    def layout(self, t):
        r = self._lay.get(t)
        if r is None:
            off = 0
            offs = []
            for f in t[2]:
                if not t[1]:
                    a = self.align(f)
                    off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(f)
            if not t[1]:
                a = self.align(t)
                off = (off + a - 1) // a * a
            r = (offs, off)
            self._lay[t] = r
        return r

    # constants/operands ----------------------------------------------
    # returns: ('c', python value) | ('l', local) | ('g', global) | ('z',) zeroinit | ('u',) undef
    #          ('agg', [(ty,val)..]) | ('gep', ty, base, idx list) | ('cast', op, (ty,val), ty) | ('bin', op, a, b) | ('str', bytes)
    def val(self, p, t):
        p.ws()
        s = p.s
        c = s[p.i]
        if c == '%':
            return ('l', p.re(NAME).group(0))
        if c == '@':
            return ('g', p.re(NAME).group(0))
        k = t[0]
        if c == 'c' and s.startswith('c"', p.i):
            j = s.index('"', p.i + 2)
            raw = s[p.i + 2:j]
            p.i = j + 1
            out = bytearray()
            q = 0
            while q < len(raw):
                if raw[q] == '\\':
                    out.append(int(raw[q + 1:q + 3], 16))
                    q += 3
                else:
                    out.append(ord(raw[q]))
                    q += 1
            return ('str', bytes(out))
        if c in '[{<':
            close = {'[': ']', '{': '}', '<': '>'}[c]
            p.i += 1
            packed = False
            if c == '<' and p.eat('{'):
                packed = True
                close = '}'
            els = []
            if not p.eat(close):
                while True:
                    et = self.ty(p)
                    els.append((et, self.val(p, et)))
                    if p.eat(close):
                        break
                    p.need(',')
            if packed:
                p.need('>')
            return ('agg', els)
        if c.isalpha():
            w = p.word()
            if w == 'true':
                return ('c', True)
            if w == 'false':
                return ('c', False)
            if w in ('null', 'none'):
                return ('c', 0)
            if w in ('undef', 'poison'):
                return ('u',)
            if w == 'zeroinitializer':
                return ('z',)
            if w == 'getelementptr':
                while p.eat('inbounds') or p.eat('nuw') or p.eat('nusw') or p.re(INRANGE):
                    pass
                p.need('(')
                bt = self.ty(p)
                p.need(',')
                pt = self.ty(p)
                base = self.val(p, pt)
                idx = []
                while p.eat(','):
                    p.eat('inrange')
                    it = self.ty(p)
                    idx.append((it, self.val(p, it)))
                p.need(')')
                return ('gep', bt, base, idx)
            if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                p.need('(')
                ft = self.ty(p)
                v = self.val(p, ft)
                p.need('to')
                tt = self.ty(p)
                p.need(')')
                return ('cast', w, (ft, v), tt)
            if w in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
                while p.word_opt('nuw', 'nsw'):
                    pass
                p.need('(')
                at = self.ty(p)
                a = self.val(p, at)
                p.need(',')
                bt = self.ty(p)
                b = self.val(p, bt)
                p.need(')')
                return ('bin', w, at, a, b)
            if w in ('dso_local_equivalent', 'no_cfi'):
                return self.val(p, t)
            raise SyntaxError(f'constant {w!r}: {s[p.i-20:p.i+60]!r}')
        if k == 'f':
            m = p.re(FLOATC)
            x = m.group(0)
            if x.startswith('0x'):
                if x[2] in 'KLMH':
                    if x[2] == 'K':
                        v = int(x[3:], 16)
                        sgn = -1.0 if v >> 79 else 1.0
                        ex = (v >> 64) & 0x7fff
                        man = v & ((1 << 64) - 1)
                        return ('c', sgn * float(man) * 2.0 ** (ex - 16383 - 63) if man else 0.0 * sgn)
                    raise SyntaxError('fp const ' + x)
                return ('c', struct.unpack('>d', int(x, 16).to_bytes(8, 'big'))[0])
            return ('c', float(x))
        m = p.re(NUM)
        if not m:
            raise SyntaxError(f'value at {s[p.i:p.i+60]!r}')
        v = int(m.group(0))
        if k == 'i':
            if t[1] == 1:
                return ('c', bool(v))
            v &= (1 << t[1]) - 1
        return ('c', v)


INRANGE = re.compile(r'inrange\([^)]*\)')


def _word_opt(self, *ws):
    self.ws()
    for w in ws:
        if self.s.startswith(w, self.i) and not (self.s[self.i + len(w):self.i + len(w) + 1] or ' ').isalnum():
            self.i += len(w)
            return w
    return None


P.word_opt = _word_opt

PATTR = re.compile(r'(?:noundef|nonnull|noalias|nocapture|readonly|writeonly|readnone|returned|signext|zeroext|inreg|nest|'
                   r'immarg|swiftself|swifterror|nofree|dead_on_unwind|writable|allocptr|captures\([^)]*\)|range\([^)]*\)|initializes\(.*?\)\)|'
                   r'align \d+|align\(\d+\)|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|nofpclass\([^)]*\)|noext|'
                   r'allocalign|immarg|"[^"]*"(?:="[^"]*")?)(?=[\s,)])')
TATTR = re.compile(r'(sret|byval|byref|inalloca|preallocated|elementtype)\(')


def attrs(mod, p):
    """skip parameter attributes; return dict(byval=type)"""
    out = {}
    while True:
        p.ws()
        m = PATTR.match(p.s, p.i)
        if m:
            p.i = m.end()
            continue
        m = TATTR.match(p.s, p.i)
        if m:
            p.i = m.end()
            out[m.group(1)] = mod.ty(p)
            p.need(')')
            continue
        return out


META = re.compile(r',?\s*![A-Za-z0-9_.]+(?:\s*![A-Za-z0-9_]+|\s*!\{[^}]*\})?')

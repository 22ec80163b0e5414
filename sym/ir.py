"""LLVM-IR -> Python translation (one Python function per IR function) and program loading."""
import math
import re
import struct
import time

from . import mach, val as V
from .irparse import Module, P, NAME, attrs, WORD, PTR
from .mach import (M, LD, ST, ALLOCA, CxxThrow, MemError, Trap, Unsupported, H)

CODE = {('i', 8): 1, ('i', 16): 2, ('i', 32): 3, ('i', 64): 4, ('p',): 4, ('f', 32): 5, ('f', 64): 6, ('i', 1): 1}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
FNBASE = 1 << 40

G = {}                # namespace of generated code
FN = {}               # mangled name -> python callable name
PROG = None
STAT = {'funcs': {}, 'lines': 0}


class Prog:
    def __init__(self):
        self.mods = []
        self.fdef = {}       # external-linkage function -> (mod)
        self.gdef = {}
        self.gaddr = {}      # (mod or None, name) -> address
        self.fnaddr = {}     # key -> address
        self.ataddr = {}     # address -> python function name
        self.pyname = {}     # key -> python name
        self.ti = {}         # address -> typeinfo name
        self.n = 0
        self.ctors = []

    def add(self, text, name):
        m = Module(text)
        m.name = name
        self.mods.append(m)
        m.internal = set()
        for f, (hdr, body) in m.funcs.items():
            if ' internal ' in hdr[:60] or ' private ' in hdr[:60]:
                m.internal.add(f)
            else:
                self.fdef.setdefault(f, m)
        for g, rest in m.globals.items():
            head = rest[:80]
            if re.match(r'(internal|private)\b', head):
                m.internal.add(g)
            elif not re.search(r'\bexternal\b', head.split('{')[0].split('[')[0]):
                self.gdef.setdefault(g, m)
        for a, rest in m.aliases.items():
            t = NAME.findall(rest)[-1]
            m.aliases[a] = t
        return m

    def resolve_alias(self, m, name):
        while True:
            if name in m.funcs:
                return m, name
            if name in m.aliases:
                name = m.aliases[name]
                continue
            d = self.fdef.get(name)
            if d is not None:
                return d, name
            for mm in self.mods:
                if name in mm.aliases:
                    m, name = mm, mm.aliases[name]
                    break
            else:
                return None, name

    # functions ------------------------------------------------------------------
    def fkey(self, m, name):
        if name in m.internal:
            return (m, name)
        mm, nm = self.resolve_alias(m, name)
        if mm is None:
            return (None, name)
        if nm in mm.internal:
            return (mm, nm)
        return (self.fdef[nm], nm)

    def py(self, m, name):
        key = self.fkey(m, name)
        p = self.pyname.get(key)
        if p is None:
            if key[0] is None:
                nm = name[1:].strip('"')
                f = EXT.get(nm)
                if f is None:
                    def f(*a, _n=nm):
                        raise Unsupported('external function ' + _n)
                p = 'x_' + re.sub(r'\W', '_', nm)
                G[p] = f
            else:
                self.n += 1
                p = f'f{self.n}'
                G[p] = self._stub(key, p)
            self.pyname[key] = p
        return p

    def _stub(self, key, p):
        def stub(*a):
            f = compile_fn(self, key, p)
            G[p] = f
            return f(*a)
        return stub

    def faddr(self, m, name):
        p = self.py(m, name)
        a = self.fnaddr.get(p)
        if a is None:
            a = FNBASE + 16 * (len(self.fnaddr) + 1)
            self.fnaddr[p] = a
            self.ataddr[a] = p
        return a

    def isfunc(self, m, name):
        if name in m.funcs or name in m.decls:
            return True
        if name in m.aliases:
            return self.isfunc(m, m.aliases[name])
        return False

    # globals --------------------------------------------------------------------
    def sym(self, m, name):
        """address of a global or function"""
        if self.isfunc(m, name):
            return self.faddr(m, name)
        if name in m.aliases:
            return self.sym(m, m.aliases[name])
        key = (m, name) if name in m.internal else (None, name)
        a = self.gaddr.get(key)
        if a is None:
            mm = m if name in m.internal else self.gdef.get(name)
            if mm is None:
                a = mach.galloc(256)
                mach.memset(a, 0, 256)
                if name in ('@_ZSt4cout', '@_ZSt4cerr', '@_ZSt4clog'):
                    # vtable with a zero offset to the ios_base part
                    vt = mach.galloc(64)
                    mach.memset(vt, 0, 64)
                    mach.greg(vt)
                    mach.ST(a, 4, vt + 32)
                elif name.startswith('@_ZTT'):
                    # construction vtables of library streams: zero offsets
                    vt = mach.galloc(64)
                    mach.memset(vt, 0, 64)
                    mach.greg(vt)
                    for o in range(0, 256, 8):
                        mach.ST(a + o, 4, vt + 32)
                mach.greg(a)
                self.gaddr[key] = a
                if name.startswith('@_ZTI'):
                    self.ti[a] = name[5:]
                return a
            rest = mm.globals[name]
            p = P(rest)
            const = False
            while True:
                w = p.re(WORD)
                if w is None:
                    break
                w = w.group(0)
                if w in ('global', 'constant'):
                    const = w == 'constant'
                    break
                if w == 'thread_local' and p.eat('('):
                    p.word()
                    p.need(')')
                if w == 'addrspace':
                    p.need('(')
                    p.re(re.compile(r'\d+'))
                    p.need(')')
            t = mm.ty(p)
            n = mm.size(t)
            a = mach.galloc(max(n, 1))
            self.gaddr[key] = a
            if name.startswith('@_ZTI'):
                self.ti[a] = name[5:]
            v = mm.val(p, t)
            if name.startswith('@_ZTI') and v[0] == 'agg' and len(v[1]) >= 3 and v[1][2][1][0] == 'g':
                mach.TI_BASES.setdefault(name[5:], v[1][2][1][1][5:])
            self.init(mm, a, t, v)
            if const:
                mach.O[a][4] = 'c'
            mach.greg(a)
        return a

    def init(self, m, a, t, v):
        k = v[0]
        if k == 'z':
            if m.size(t):
                mach.memset(a, 0, m.size(t))
        elif k == 'u':
            pass
        elif k == 'str':
            if len(v[1]) > 0:
                mach.O[mach.find(a)[0]][3] = True
            for i, b in enumerate(v[1]):
                M[a + i] = (1, b)
        elif k == 'agg':
            if t[0] == 's':
                offs = m.layout(t)[0]
                for (et, ev), off in zip(v[1], offs):
                    self.init(m, a + off, et, ev)
            else:
                es = m.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init(m, a + i * es, et, ev)
        else:
            if t[0] in 'as' and k == 'c':
                raise Unsupported('init')
            mach.ST(a, CODE[t], self.const(m, t, v))

    def const(self, m, t, v):
        """python value of a constant operand"""
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.sym(m, v[1])
        if k in 'zu':
            return self.zero(m, t)
        if k == 'agg':
            return tuple(self.const(m, et, ev) for et, ev in v[1])
        if k == 'gep':
            _, bt, base, idx = v
            a = self.const(m, PTR, base)
            return (a + self.gepoff(m, bt, [(it, self.const(m, it, iv)) for it, iv in idx])) & mach.M64
        if k == 'cast':
            _, op, (ft, fv), tt = v
            x = self.const(m, ft, fv)
            if tt[0] == 'i' and type(x) is int:
                return x & ((1 << tt[1]) - 1)
            return x
        if k == 'bin':
            _, op, at, x, y = v
            x = self.const(m, at, x)
            y = self.const(m, at, y)
            r = {'sub': x - y, 'add': x + y, 'mul': x * y, 'xor': x ^ y, 'and': x & y, 'or': x | y}.get(op)
            return r & ((1 << at[1]) - 1)
        raise Unsupported('const ' + k)

    def zero(self, m, t):
        k = t[0]
        if k == 'f':
            return 0.0
        if k == 'i' and t[1] == 1:
            return False
        if k in 'ip':
            return 0
        if k in 'ax':
            return tuple(self.zero(m, t[2]) for _ in range(t[1]))
        if k == 's':
            return tuple(self.zero(m, x) for x in t[2])
        return 0

    def gepoff(self, m, t, idx):
        off = 0
        for n, (it, v) in enumerate(idx):
            if it[0] == 'i' and v >> (it[1] - 1):
                v -= 1 << it[1]
            if n == 0:
                off += v * m.size(t)
            elif t[0] == 's':
                off += m.layout(t)[0][v]
                t = t[2][v]
            else:
                t = t[2]
                off += v * m.size(t)
        return off

    def call_ctors(self):
        for m in self.mods:
            rest = m.globals.get('@llvm.global_ctors')
            if rest:
                for f in re.findall(r'ptr (@[^,\s]+), ptr', rest):
                    G[self.py(m, f)]()


# ------------------------------------------------------------------------------------------------
METACUT = re.compile(r'(?:,? ![A-Za-z_.]+ ![0-9]+)+\s*$|, ![A-Za-z_.]+ ![0-9]+')


def split_lines(body):
    out = []
    for ln in body:
        if not ln.strip():
            continue
        if ln.startswith('   ') or ln.startswith('  ]'):
            out[-1] = out[-1] + ' ' + ln.strip()
        else:
            out.append(ln)
    return out


class Gen:
    def __init__(self, prog, key, pyname):
        self.p = prog
        self.m, self.name = key
        self.py = pyname
        self.vars = {}
        self.race = bool(mach.WATCH.get('instr'))

    def var(self, n):
        v = self.vars.get(n)
        if v is None:
            v = f'v{len(self.vars)}'
            self.vars[n] = v
        return v

    def opnd(self, t, v):
        k = v[0]
        if k == 'l':
            return self.var(v[1])
        if k == 'agg' and any(x[1][0] == 'l' for x in v[1]):
            return '(' + ''.join(self.opnd(a, b) + ',' for a, b in v[1]) + ')'
        return self.lit(self.p.const(self.m, t, v))

    def lit(self, c):
        if isinstance(c, tuple):
            return '(' + ''.join(self.lit(x) + ',' for x in c) + ')'
        if isinstance(c, float):
            if c != c:
                return 'NAN'
            if c == math.inf:
                return 'INF'
            if c == -math.inf:
                return 'NINF'
            return repr(c) if c >= 0 and math.copysign(1, c) > 0 else f'({c!r})'
        return repr(c)

    def tv(self, p):
        t = self.m.ty(p)
        attrs(self.m, p)
        return t, self.m.val(p, t)

    # -- function ---------------------------------------------------------------
    def build(self):
        hdr, body = self.m.funcs[self.name]
        p = P(hdr, hdr.index(self.name) + len(self.name))
        p.need('(')
        params = []
        i = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.need(')')
                    break
                t = self.m.ty(p)
                attrs(self.m, p)
                m = p.re(NAME)
                params.append(self.var(m.group(0) if m else f'%{i}'))
                i += 1
                if p.eat(')'):
                    break
                p.need(',')
        blocks = []
        cur = None
        for ln in split_lines(body):
            if ln[0] != ' ':
                lab = ln.split(':')[0].strip()
                if lab.startswith(';'):
                    continue
                cur = ['%' + lab, []]
                blocks.append(cur)
            else:
                if cur is None:
                    cur = ['%' + str(i), []]
                    blocks.append(cur)
                cur[1].append(ln.strip())
        self.blocks = {b[0]: b[1] for b in blocks}
        order = [b[0] for b in blocks]
        # phis
        self.phis = {}
        preds = {}
        self.succ = {}
        for b, ins in self.blocks.items():
            ph = []
            while ins and ' = phi ' in ins[0]:
                ln = ins.pop(0)
                dst, r = ln.split(' = phi ', 1)
                r = METACUT.sub('', r)
                q = P(r)
                while q.word_opt(*FMF):
                    pass
                t = self.m.ty(q)
                inc = {}
                while True:
                    q.need('[')
                    v = self.m.val(q, t)
                    q.need(',')
                    lb = q.re(NAME).group(0)
                    q.need(']')
                    inc[lb] = v
                    if not q.eat(','):
                        break
                ph.append((dst, t, inc))
            self.phis[b] = ph
            term = ins[-1]
            ss = re.findall(r'label (%(?:"[^"]*"|[-A-Za-z0-9_.$]+))', term)
            self.succ[b] = ss
            for s in ss:
                preds.setdefault(s, []).append(b)
        self.preds = preds
        # blocks that need a dispatch number: more than one incoming edge, or landing target
        entry = order[0]
        self.num = {}
        for b in order:
            if b == entry or len(preds.get(b, ())) != 1:
                if b == entry or b in preds:
                    self.num[b] = None
        self._lim = {}
        self.out = []
        chunks = {}
        pend = list(self.num)
        done = set()
        while pend:
            b = pend.pop(0)
            if b in done:
                continue
            done.add(b)
            self.lines = []
            self.newnum = []
            self.emit_block(b, 0, 0)
            chunks[b] = self.lines
            pend.extend(self.newnum)
        nums = list(chunks)
        nums.remove(entry)
        nums.insert(0, entry)
        idx = {b: k for k, b in enumerate(nums)}
        src = [f'def {self.py}({", ".join(params)}):']
        if len(nums) == 1 and not any('\x00' in x for x in chunks[entry]):
            for ln in chunks[entry]:
                src.append(' ' + ln)
        else:
            src.append(' b = 0')
            src.append(' while True:')

            def tree(lo, hi, ind):
                if hi - lo == 1:
                    for ln in chunks[nums[lo]]:
                        src.append(' ' * ind + ln)
                    return
                mid = (lo + hi) // 2
                src.append(' ' * ind + f'if b < {mid}:')
                tree(lo, mid, ind + 1)
                src.append(' ' * ind + 'else:')
                tree(mid, hi, ind + 1)
            tree(0, len(nums), 2)
        text = '\n'.join(src)
        text = re.sub('\x00([^\x00]*)\x00', lambda m: str(idx[m.group(1)]), text)
        return text

    def w(self, ind, s):
        self.lines.append(' ' * ind + s)

    def edge(self, frm, to, ind, depth):
        """code for taking the edge frm->to (phi moves and jump/inline)"""
        ph = self.phis[to]
        if ph:
            ds = []
            vs = []
            for dst, t, inc in ph:
                d = self.var(dst)
                v = self.opnd(t, inc[frm])
                if d != v:
                    ds.append(d)
                    vs.append(v)
            if ds:
                self.w(ind, ', '.join(ds) + ' = ' + ', '.join(vs))
        if to not in self.num and depth < 24:
            self.emit_block(to, ind, depth + 1)
        else:
            if to not in self.num:
                self.num[to] = None
                self.newnum.append(to)
            self.w(ind, f'b = \x00{to}\x00; continue')

    def emit_block(self, b, ind, depth):
        ins = self.blocks[b]
        for ln in ins:
            if not self.emit(b, METACUT.sub('', ln), ind, depth):
                return

    # -- instruction ------------------------------------------------------------
    def emit(self, b, ln, ind, depth):
        m = NAME.match(ln)
        dst = None
        if m and ln[m.end():m.end() + 3] == ' = ':
            dst = m.group(0)
            p = P(ln, m.end() + 3)
        else:
            p = P(ln)
        op = p.word()
        if op in ('tail', 'musttail', 'notail'):
            op = p.word()
        f = getattr(self, 'op_' + op, None)
        if f is not None:
            d = self.var(dst) if dst else None
            return f(p, d, b, ind, depth)
        if op in INTOP:
            d = self.var(dst)
            self.int_op(op, p, d, ind)
            return True
        if op in FOP:
            d = self.var(dst)
            self.f_op(op, p, d, ind)
            return True
        raise Unsupported(f'IR opcode {op}: {ln}')

    # terminators
    def op_ret(self, p, d, b, ind, depth):
        t = self.m.ty(p)
        if t == ('v',):
            self.w(ind, 'return None')
        else:
            self.w(ind, 'return ' + self.opnd(t, self.m.val(p, t)))
        return False

    def op_br(self, p, d, b, ind, depth):
        if p.eat('label'):
            self.edge(b, p.re(NAME).group(0), ind, depth)
            return False
        t, c = self.tv(p)
        p.need(',')
        p.need('label')
        x = p.re(NAME).group(0)
        p.need(',')
        p.need('label')
        y = p.re(NAME).group(0)
        self.w(ind, f'if {self.opnd(t, c)}:')
        self.edge(b, x, ind + 1, depth)
        self.w(ind, 'else:')
        self.edge(b, y, ind + 1, depth)
        return False

    def op_switch(self, p, d, b, ind, depth):
        t, c = self.tv(p)
        p.need(',')
        p.need('label')
        dfl = p.re(NAME).group(0)
        p.need('[')
        cs = self.opnd(t, c)
        self.w(ind, f'sw = {cs}')
        self.w(ind, f'if type(sw) is not int: sw = CONC(sw, {t[1]})')
        kw = 'if'
        while not p.eat(']'):
            ct = self.m.ty(p)
            cv = self.m.val(p, ct)
            p.need(',')
            p.need('label')
            lb = p.re(NAME).group(0)
            self.w(ind, f'{kw} sw == {self.lit(self.p.const(self.m, ct, cv))}:')
            self.edge(b, lb, ind + 1, depth)
            kw = 'elif'
        if kw == 'if':
            self.edge(b, dfl, ind, depth)
        else:
            self.w(ind, 'else:')
            self.edge(b, dfl, ind + 1, depth)
        return False

    def op_unreachable(self, p, d, b, ind, depth):
        self.w(ind, 'UNREACH()')
        return False

    def op_resume(self, p, d, b, ind, depth):
        t, v = self.tv(p)
        self.w(ind, f'raise CxxThrow(*RES({self.opnd(t, v)}))')
        return False

    # memory
    def op_alloca(self, p, d, b, ind, depth):
        t = self.m.ty(p)
        n = self.m.size(t)
        cnt = None
        if p.eat(','):
            if not p.peek('align'):
                ct, cv = self.tv(p)
                cnt = self.opnd(ct, cv)
        self.w(ind, f'{d} = ALLOCA({n})' if cnt is None else f'{d} = ALLOCA({n}*{cnt})')
        return True

    def ldx(self, a, code):
        if self.race:
            return f'LDR({a},{code})'
        return f'(c[1] if (c:=M.get({a})) is not None and c[0]=={code} else LD({a},{code}))'

    def load_expr(self, t, a, off=0):
        if t in CODE:
            ad = a if off == 0 else f'OFF({a},{off})'
            if t == ('i', 1):
                return f'TOB({self.ldx(ad, 1)})'
            return self.ldx(ad, CODE[t])
        if t[0] == 'i' and t[1] % 8 == 0:
            return 'JOIN(' + ','.join(self.ldx(f'OFF({a},{off + i})', 1) for i in range(t[1] // 8)) + ')'
        if t[0] == 's':
            offs = self.m.layout(t)[0]
            return '(' + ''.join(self.load_expr(x, a, off + o) + ',' for x, o in zip(t[2], offs)) + ')'
        if t[0] in 'ax':
            es = self.m.size(t[2])
            return '(' + ''.join(self.load_expr(t[2], a, off + i * es) + ',' for i in range(t[1])) + ')'
        raise Unsupported(f'load {t}')

    def op_load(self, p, d, b, ind, depth):
        at = p.word_opt('atomic')
        while p.word_opt('volatile', 'atomic'):
            pass
        t = self.m.ty(p)
        p.need(',')
        pt, pv = self.tv(p)
        keep, self.race = self.race, self.race and not at
        self.w(ind, f'{d} = ' + self.load_expr(t, self.opnd(pt, pv)))
        self.race = keep
        return True

    def store_code(self, t, a, v, off, ind):
        if t in CODE:
            c = CODE[t]
            if t == ('i', 1):
                v = f'B2I({v})'
            ad = a if off == 0 else f'OFF({a},{off})'
            if off:
                self.w(ind, f'ad = {ad}')
                ad = 'ad'
            if self.race:
                self.w(ind, f'STR({ad},{c},{v})')
            else:
                self.w(ind, f'if (c:=M.get({ad})) is not None and c[0]=={c}: M[{ad}] = ({c},{v})')
                self.w(ind, f'else: ST({ad},{c},{v})')
            return
        if t[0] == 'i' and t[1] % 8 == 0:
            n = t[1] // 8
            self.w(ind, f'by = SPLIT({v},{n})')
            for i in range(n):
                self.w(ind, f'{"STR" if self.race else "ST"}(OFF({a},{off + i}),1,by[{i}])')
            return
        if t[0] == 's':
            offs = self.m.layout(t)[0]
            for i, (x, o) in enumerate(zip(t[2], offs)):
                self.store_code(x, a, f'{v}[{i}]', off + o, ind)
            return
        if t[0] in 'ax':
            es = self.m.size(t[2])
            for i in range(t[1]):
                self.store_code(t[2], a, f'{v}[{i}]', off + i * es, ind)
            return
        raise Unsupported(f'store {t}')

    def op_store(self, p, d, b, ind, depth):
        at = p.word_opt('atomic')
        while p.word_opt('volatile', 'atomic'):
            pass
        t, v = self.tv(p)
        p.need(',')
        pt, pv = self.tv(p)
        keep, self.race = self.race, self.race and not at
        self.store_code(t, self.opnd(pt, pv), self.opnd(t, v), 0, ind)
        self.race = keep
        return True

    def op_getelementptr(self, p, d, b, ind, depth):
        while p.word_opt('inbounds', 'nuw', 'nusw'):
            pass
        t = self.m.ty(p)
        p.need(',')
        pt, pv = self.tv(p)
        if pt[0] == 'x':
            raise Unsupported('vector gep')
        base = self.opnd(pt, pv)
        off = 0
        terms = []
        n = 0
        while p.eat(','):
            it, iv = self.tv(p)
            if it[0] == 'x':
                raise Unsupported('vector gep')
            cst = iv[0] == 'c'
            v = iv[1] if cst else None
            if cst and v >> (it[1] - 1):
                v -= 1 << it[1]
            if n == 0:
                sz = self.m.size(t)
            elif t[0] == 's':
                off += self.m.layout(t)[0][v]
                t = t[2][v]
                n += 1
                continue
            else:
                t = t[2]
                sz = self.m.size(t)
            n += 1
            if cst:
                off += v * sz
            else:
                terms.append((self.opnd(it, iv), sz, it[1]))
        if not terms:
            if off == 0:
                self.w(ind, f'{d} = {base}')
            else:
                self.w(ind, f'{d} = {base}+{off} if type({base}) is int else i_add({base},{off & mach.M64},64)')
            return True
        if len(terms) == 1:
            x, sz, w = terms[0]
            if w == 64:
                e = f'{base}+{x}*{sz}' + (f'+{off}' if off else '')
                self.w(ind, f'{d} = ({e})&{mach.M64} if type({base}) is int and type({x}) is int else GEP({base},{off},{x},{sz},{w})')
                return True
        self.w(ind, f'{d} = GEP({base},{off},' + ','.join(f'{x},{sz},{w}' for x, sz, w in terms) + ')')
        return True

    # misc values
    def op_select(self, p, d, b, ind, depth):
        while p.word_opt(*FMF):
            pass
        ct, cv = self.tv(p)
        p.need(',')
        t, x = self.tv(p)
        p.need(',')
        _, y = self.tv(p)
        c, x, y = self.opnd(ct, cv), self.opnd(t, x), self.opnd(t, y)
        if ct[0] == 'x':
            self.w(ind, f'{d} = tuple([a1 if c1 is True else b1 if c1 is False else SEL(c1,a1,b1) for c1,a1,b1 in zip({c},{x},{y})])')
        else:
            self.w(ind, f'{d} = {x} if {c} is True else {y} if {c} is False else SEL({c},{x},{y})')
        return True

    def op_freeze(self, p, d, b, ind, depth):
        t, v = self.tv(p)
        self.w(ind, f'{d} = {self.opnd(t, v)}')
        return True

    def op_extractvalue(self, p, d, b, ind, depth):
        t, v = self.tv(p)
        s = self.opnd(t, v)
        while p.eat(','):
            s += f'[{p.re(re.compile("[0-9]+")).group(0)}]'
        self.w(ind, f'{d} = {s}')
        return True

    def op_insertvalue(self, p, d, b, ind, depth):
        t, v = self.tv(p)
        p.need(',')
        et, ev = self.tv(p)
        ix = []
        while p.eat(','):
            ix.append(int(p.re(re.compile('[0-9]+')).group(0)))
        self.w(ind, f'{d} = INSV({self.opnd(t, v)},{self.opnd(et, ev)},{tuple(ix)})')
        return True

    def op_extractelement(self, p, d, b, ind, depth):
        t, v = self.tv(p)
        p.need(',')
        it, iv = self.tv(p)
        self.w(ind, f'{d} = {self.opnd(t, v)}[{self.opnd(it, iv)}]')
        return True

    def op_insertelement(self, p, d, b, ind, depth):
        t, v = self.tv(p)
        p.need(',')
        et, ev = self.tv(p)
        p.need(',')
        it, iv = self.tv(p)
        self.w(ind, f'{d} = INSV({self.opnd(t, v)},{self.opnd(et, ev)},({self.opnd(it, iv)},))')
        return True

    def op_shufflevector(self, p, d, b, ind, depth):
        t, v = self.tv(p)
        p.need(',')
        _, w = self.tv(p)
        p.need(',')
        mt = self.m.ty(p)
        mv = self.p.const(self.m, mt, self.m.val(p, mt))
        self.w(ind, f'sv = {self.opnd(t, v)}+{self.opnd(t, w)}')
        self.w(ind, f'{d} = (' + ''.join(f'sv[{i}],' for i in mv) + ')')
        return True

    def op_landingpad(self, p, d, b, ind, depth):
        t = self.m.ty(p)
        cl = []
        clean = False
        while not p.eof():
            if p.eat('cleanup'):
                clean = True
            elif p.eat('catch'):
                ct, cv = self.tv(p)
                cl.append(0 if cv[0] == 'c' else self.p.const(self.m, ct, cv))
            elif p.eat('filter'):
                raise Unsupported('filter clause')
            else:
                raise SyntaxError(p.s)
        self.w(ind, f'{d} = PAD(EX, {clean}, {tuple(cl)})')
        return True

    def op_cmpxchg(self, p, d, b, ind, depth):
        p.word_opt('weak')
        p.word_opt('volatile')
        pt, pv = self.tv(p)
        p.need(',')
        t, c = self.tv(p)
        p.need(',')
        _, n = self.tv(p)
        a = self.opnd(pt, pv)
        self.w(ind, f'old = LD({a},{CODE[t]})')
        self.w(ind, f'if old == {self.opnd(t, c)}:')
        self.w(ind + 1, f'ST({a},{CODE[t]},{self.opnd(t, n)}); {d} = (old, True)')
        self.w(ind, f'else: {d} = (old, False)')
        return True

    def op_atomicrmw(self, p, d, b, ind, depth):
        p.word_opt('volatile')
        k = p.word()
        pt, pv = self.tv(p)
        p.need(',')
        t, v = self.tv(p)
        a = self.opnd(pt, pv)
        v = self.opnd(t, v)
        self.w(ind, f'{d} = LD({a},{CODE[t]})')
        n = t[1] if t[0] == 'i' else 64
        e = {'add': f'i_add({d},{v},{n})', 'sub': f'i_sub({d},{v},{n})', 'xchg': v, 'fadd': f'F32({d}+{v})' if t == ('f', 32) else f'({d}+{v})'}.get(k)
        if e is None:
            raise Unsupported('atomicrmw ' + k)
        if k in ('add', 'sub'):
            e = f'(({d}{"+" if k == "add" else "-"}{v})&{(1 << n) - 1} if type({d}) is int and type({v}) is int else {e})'
        self.w(ind, f'ST({a},{CODE[t]},{e})')
        return True

    def op_fence(self, p, d, b, ind, depth):
        return True

    # calls
    def call_parts(self, p):
        while p.word_opt(*FMF):
            pass
        while True:
            p.ws()
            m = re.compile(r'(fastcc|coldcc|ccc|tailcc)\b').match(p.s, p.i)
            if not m:
                break
            p.i = m.end()
        attrs(self.m, p)
        rt = self.m.ty(p)
        attrs(self.m, p)
        if p.peek('('):
            # explicit function type
            k = 0
            while True:
                ch = p.s[p.i]
                p.i += 1
                if ch == '(':
                    k += 1
                elif ch == ')':
                    k -= 1
                    if k == 0:
                        break
        callee = self.m.val(p, PTR)
        p.need('(')
        args = []
        if not p.eat(')'):
            while True:
                t = self.m.ty(p)
                at = attrs(self.m, p)
                if t == ('l',):
                    # metadata argument
                    k = p.s.index(')', p.i)
                    j = p.s.find(',', p.i)
                    p.i = j if 0 <= j < k else k
                    args.append(('None', t, at))
                else:
                    v = self.m.val(p, t)
                    args.append((self.opnd(t, v), t, at))
                if p.eat(')'):
                    break
                p.need(',')
        return rt, callee, args

    def call_expr(self, rt, callee, args):
        av = []
        for s, t, at in args:
            if 'byval' in at:
                s = f'BYVAL({s},{self.m.size(at["byval"])})'
            av.append(s)
        if callee[0] == 'g':
            n = callee[1][1:].strip('"')
            if n.startswith('llvm.'):
                return self.intrinsic(n, rt, args)
            f = self.p.py(self.m, callee[1])
            return f'{f}({",".join(av)})'
        return f'FPTR({self.opnd(PTR, callee)})({",".join(av)})'

    def op_call(self, p, d, b, ind, depth):
        if p.eat('asm'):
            raise Unsupported('inline asm')
        rt, callee, args = self.call_parts(p)
        e = self.call_expr(rt, callee, args)
        if e is None:
            return True
        self.w(ind, f'{d} = {e}' if d else e)
        return True

    def op_invoke(self, p, d, b, ind, depth):
        rt, callee, args = self.call_parts(p)
        rest = p.s[p.i:]
        m = re.search(r'to label (%(?:"[^"]*"|[-A-Za-z0-9_.$]+)) unwind label (%(?:"[^"]*"|[-A-Za-z0-9_.$]+))', rest)
        ok, bad = m.group(1), m.group(2)
        e = self.call_expr(rt, callee, args)
        if e is None:
            self.edge(b, ok, ind, depth)
            return False
        self.w(ind, 'try:')
        self.w(ind + 1, f'{d} = {e}' if d else e)
        self.w(ind, 'except CxxThrow as ex_:')
        self.w(ind + 1, 'EX = ex_')
        # the unwind edge must leave the except clause by a jump (no nesting inside the handler)
        self.edge(b, bad, ind + 1, 99)
        self.edge(b, ok, ind, depth)
        return False

    def intrinsic(self, n, rt, args):
        a = [x[0] for x in args]
        for pre in ('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.dbg', 'llvm.prefetch', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.invariant'):
            if n.startswith(pre):
                return None
        if n.startswith('llvm.memset'):
            return f'MEMSET({a[0]},{a[1]},{a[2]})'
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            return f'MEMCPY({a[0]},{a[1]},{a[2]})'
        if n.startswith('llvm.threadlocal.address'):
            return a[0]
        if n == 'llvm.trap':
            return 'TRAP()'
        m = re.match(r'llvm\.(umax|umin|smax|smin|usub\.sat|uadd\.sat|abs|ctlz|cttz|ctpop|fshl|bswap)\.(v(\d+))?i(\d+)', n)
        if m:
            w = int(m.group(4))
            f = 'I_' + m.group(1).replace('.', '_')
            if m.group(2):
                return f'tuple([{f}(x1,y1,{w}) for x1,y1 in zip({a[0]},{a[1]})])'
            return f'{f}({a[0]},{a[1] if len(a) > 1 else None},{w})'
        m = re.match(r'llvm\.(\w+)(?:\.\w+)*\.with\.overflow\.i(\d+)', n)
        m = re.match(r'llvm\.(umul|smul|uadd|usub|sadd|ssub)\.with\.overflow\.i(\d+)', n)
        if m:
            return f'OVF("{m.group(1)}",{a[0]},{a[1]},{m.group(2)})'
        m = re.match(r'llvm\.(sqrt|floor|ceil|fabs|trunc|rint|nearbyint|round|minnum|maxnum|copysign|fmuladd|exp|log|sin|cos|pow|powi)\.(v(\d+))?f(\d+)', n)
        if m:
            f = 'L_' + m.group(1)
            w = m.group(4)
            if m.group(2):
                if len(a) == 1:
                    return f'tuple([{f}(x1,{w}) for x1 in {a[0]}])'
                return f'tuple([{f}(x1,y1,{w}) for x1,y1 in zip({a[0]},{a[1]})])'
            return f'{f}({",".join(a)},{w})'
        m = re.match(r'llvm\.vector\.reduce\.(fadd|add|fmul|and|or|mul)\.v\d+(\w+)', n)
        if m:
            if m.group(1) == 'fadd':
                return f'VRFADD({a[0]},{a[1]},{m.group(2)[1:]})'
            return f'VRED("{m.group(1)}",{a[0]},{int(m.group(2)[1:])})'
        if n == 'llvm.x86.sse.cvttss2si':
            return f'f_to_int({a[0]}[0],32,True)'
        if n == 'llvm.x86.sse.cvttss2si64':
            return f'f_to_int({a[0]}[0],64,True)'
        if n == 'llvm.x86.sse2.cvttsd2si':
            return f'f_to_int({a[0]}[0],32,True)'
        if n == 'llvm.x86.sse2.cvttsd2si64':
            return f'f_to_int({a[0]}[0],64,True)'
        if n in ('llvm.x86.sse.min.ps', 'llvm.x86.sse.max.ps', 'llvm.x86.sse2.min.pd', 'llvm.x86.sse2.max.pd'):
            o = '<' if '.min.' in n else '>'
            return f'tuple([SELL(x1{o}y1,x1,y1) for x1,y1 in zip({a[0]},{a[1]})])'
        if n == 'llvm.eh.typeid.for' or n.startswith('llvm.eh.typeid.for'):
            return a[0]
        if n.startswith('llvm.is.constant'):
            return 'False'
        if n.startswith('llvm.objectsize'):
            return str(mach.M64)
        if n.startswith('llvm.expect'):
            return a[0]
        m = re.match(r'llvm\.is\.fpclass\.f(\d+)', n)
        if m:
            return f'FPCLASS({a[0]},{a[1]})'
        raise Unsupported('intrinsic ' + n)

    # arithmetic
    def int_op(self, op, p, d, ind):
        while p.word_opt('nuw', 'nsw', 'exact', 'disjoint', 'nneg'):
            pass
        if op == 'icmp':
            p.word_opt('samesign')
            pred = p.word()
            t, x = self.tv(p)
            p.need(',')
            y = self.m.val(p, t)
            x, y = self.opnd(t, x), self.opnd(t, y)
            if t[0] == 'x':
                self.w(ind, f'{d} = tuple([ICMP("{pred}",x1,y1,{t[2][1]}) for x1,y1 in zip({x},{y})])')
                return
            n = t[1] if t[0] == 'i' else 64
            if n == 1:
                self.w(ind, f'{d} = i_cmp("{pred}",{x},{y},1)')
                return
            if pred[0] == 's':
                k = 1 << (n - 1)
                o = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
                e = f'({x}^{k}){o}({y}^{k})'
            else:
                o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred]
                e = f'{x}{o}{y}'
            self.w(ind, f'{d} = ({e}) if {self.isint(x, y)} else i_cmp("{pred}",{x},{y},{n})')
            return
        t, x = self.tv(p)
        p.need(',')
        y = self.m.val(p, t)
        x, y = self.opnd(t, x), self.opnd(t, y)
        if t[0] == 'x':
            n = t[2][1]
            self.w(ind, f'{d} = tuple([{self.iexpr(op, "x1", "y1", n)} for x1,y1 in zip({x},{y})])')
            return
        self.w(ind, f'{d} = {self.iexpr(op, x, y, t[1])}')

    def isint(self, x, y):
        c = []
        if not x.isdigit():
            c.append(f'type({x}) is int')
        if not y.isdigit():
            c.append(f'type({y}) is int')
        return ' and '.join(c) or 'True'

    def iexpr(self, op, x, y, n):
        if n == 1:
            if op == 'and':
                return f'b_and({x},{y})'
            if op == 'or':
                return f'b_or({x},{y})'
            if op == 'xor':
                return f'((not {x}) if ({x} is True or {x} is False) else NOT({x}))' if y == 'True' else f'b_xor({x},{y})'
            if op in ('add', 'sub'):
                return f'b_xor({x},{y})'
            if op == 'mul':
                return f'b_and({x},{y})'
            raise Unsupported('i1 ' + op)
        mask = (1 << n) - 1
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            o = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
            e = f'({x}{o}{y})&{mask}' if op in ('add', 'sub', 'mul') else f'{x}{o}{y}'
            return f'({e}) if {self.isint(x, y)} else i_{op}({x},{y},{n})'
        if op in ('shl', 'lshr'):
            if y.isdigit() and int(y) < n:
                e = f'({x}<<{y})&{mask}' if op == 'shl' else f'{x}>>{y}'
                return f'({e}) if type({x}) is int else i_{op}({x},{y},{n})'
        if op in ('udiv', 'urem'):
            o = '//' if op == 'udiv' else '%'
            return f'({x}{o}{y}) if {self.isint(x, y)} and {y} else I_{op}({x},{y},{n})'
        return f'I_{op}({x},{y},{n})'

    def f_op(self, op, p, d, ind):
        if op in CASTS:
            p.word_opt('nneg')
            while p.word_opt('nuw', 'nsw', *FMF):
                pass
            ft, v = self.tv(p)
            p.need('to')
            tt = self.m.ty(p)
            x = self.opnd(ft, v)
            if ft[0] == 'x':
                self.w(ind, f'{d} = tuple([{self.cast(op, "x1", ft[2], tt[2])} for x1 in {x}])')
            else:
                self.w(ind, f'{d} = {self.cast(op, x, ft, tt)}')
            return
        while p.word_opt(*FMF):
            pass
        if op == 'fneg':
            t, v = self.tv(p)
            x = self.opnd(t, v)
            self.w(ind, f'{d} = tuple([-x1 for x1 in {x}])' if t[0] == 'x' else f'{d} = -{x}')
            return
        if op == 'fcmp':
            pred = p.word()
            t, x = self.tv(p)
            p.need(',')
            y = self.m.val(p, t)
            x, y = self.opnd(t, x), self.opnd(t, y)
            if t[0] == 'x':
                self.w(ind, f'{d} = tuple([{self.fc(pred, "x1", "y1")} for x1,y1 in zip({x},{y})])')
            else:
                self.w(ind, f'{d} = {self.fc(pred, x, y)}')
            return
        t, x = self.tv(p)
        p.need(',')
        y = self.m.val(p, t)
        x, y = self.opnd(t, x), self.opnd(t, y)
        if t[0] == 'x':
            self.w(ind, f'{d} = tuple([{self.fa(op, "x1", "y1", t[2][1])} for x1,y1 in zip({x},{y})])')
        else:
            self.w(ind, f'{d} = {self.fa(op, x, y, t[1])}')

    def fa(self, op, x, y, w):
        if op == 'fdiv':
            e = f'fdiv({x},{y})'
        elif op == 'frem':
            e = f'f_fmod({x},{y})'
        else:
            e = f'{x}{ {"fadd": "+", "fsub": "-", "fmul": "*"}[op] }{y}'
        return f'F32({e})' if w == 32 else f'({e})'

    def fc(self, pred, x, y):
        o = {'oeq': '==', 'olt': '<', 'ole': '<=', 'ogt': '>', 'oge': '>=', 'une': '!='}.get(pred)
        if o:
            return f'({x}{o}{y})'
        o = {'ult': '>=', 'ule': '>', 'ugt': '<=', 'uge': '<'}.get(pred)
        if o:
            return f'NOT({x}{o}{y})'
        if pred == 'ueq':
            return f'NOT(OR({x}<{y},{x}>{y}))'
        if pred == 'one':
            return f'OR({x}<{y},{x}>{y})'
        if pred == 'uno':
            return f'OR({x}!={x},{y}!={y})'
        if pred == 'ord':
            return f'AND({x}=={x},{y}=={y})'
        return {'true': 'True', 'false': 'False'}[pred]

    def cast(self, op, x, ft, tt):
        if op in ('zext', 'sext', 'trunc'):
            a, b = ft[1], tt[1]
            if op == 'zext':
                if a == 1:
                    return f'(1 if {x} is True else 0 if {x} is False else i_zext({x},1,{b}))'
                return f'({x} if type({x}) is int else i_zext({x},{a},{b}))'
            if op == 'sext':
                if a == 1:
                    return f'({(1 << b) - 1} if {x} is True else 0 if {x} is False else i_sext({x},1,{b}))'
                k = 1 << (a - 1)
                return f'((({x}^{k})-{k})&{(1 << b) - 1} if type({x}) is int else i_sext({x},{a},{b}))'
            if b == 1:
                return f'(({x}&1)==1 if type({x}) is int else i_trunc({x},{a},1))'
            return f'({x}&{(1 << b) - 1} if type({x}) is int else i_trunc({x},{a},{b}))'
        if op in ('ptrtoint', 'inttoptr'):
            return x
        if op == 'bitcast':
            return f'BITCAST({x},{ft!r},{tt!r})'
        if op == 'fpext':
            return x
        if op == 'fptrunc':
            return f'F32({x})'
        if op in ('fptosi', 'fptoui'):
            return f'f_to_int({x},{tt[1]},{op == "fptosi"})'
        if op in ('sitofp', 'uitofp'):
            return f'int_to_f({x},{ft[1]},{op == "sitofp"},{tt[1]})'
        raise Unsupported(op)


INTOP = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'icmp'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'addrspacecast'}
FOP = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp'} | CASTS


def compile_fn(prog, key, pyname):
    g = Gen(prog, key, pyname)
    src = g.build()
    STAT['funcs'][key[1]] = key[0].name
    code = compile(src, f'<ir {key[1]}>', 'exec')
    ns = G
    exec(code, ns)
    if DUMP is not None:
        with open(f'{DUMP}/{pyname}.py', 'w') as f:
            f.write(f'# {key[1]}\n{src}\n')
    return ns[pyname]


DUMP = None
EXT = {}

from . import rt  # noqa: E402,F401  (fills G and EXT)

"""LLVM IR (text, clang 18) -> C for CBMC.  Encodes chosen functions of the project's C++ sources, and everything they
call that has a body, as C with explicit memory; functions without a body must be supplied by the harness."""
import re, struct, subprocess, os, hashlib
ID = r'[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)'
class Err(Exception): pass
def split(s, sep=','):
    out, d, cur, q = [], 0, '', False
    for c in s:
        if c == '"': q = not q
        if not q:
            if c in '([{<': d += 1
            if c in ')]}>': d -= 1
            if c == sep and d == 0: out.append(cur.strip()); cur = ''; continue
        cur += c
    if cur.strip(): out.append(cur.strip())
    return out
def mang(n):
    n = n.strip('"'); return re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x' % ord(m.group(0)), n)
class Module:
    def __init__(self, text):
        self.types = {}; self.funcs = {}; self.decls = {}; self.globs = {}
        lines = text.split('\n'); i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)', l)
            if m: self.types[m.group(1)] = m.group(2)
            m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)', l)
            if m: self.globs[m.group(1)] = m.group(2)
            if l.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', l); self.decls[m.group(1)] = l
            if l.startswith('define'):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', l); body = []; i += 1
                while lines[i] != '}': body.append(lines[i]); i += 1
                self.funcs[m.group(1)] = (l, body)
            i += 1
    # ---- layout
    def parse_type(self, s):
        """parses a type at the start of s, returns (type string, rest)"""
        s = s.strip()
        m = re.match(r'(?:i\d+|double|float|ptr|void|x86_fp80|label|metadata|opaque)\b', s)
        if m: t, r = m.group(0), s[m.end():]
        elif s[0] in '[{<':
            d = 0
            for k, c in enumerate(s):
                if c in '[{<(': d += 1
                if c in ']}>)':
                    d -= 1
                    if d == 0: break
            t, r = s[:k + 1], s[k + 1:]
        elif s[0] == '%':
            m = re.match(ID, s); t, r = m.group(0), s[m.end():]
        else: raise Err('type? ' + s[:60])
        r2 = r.lstrip()
        while r2.startswith('('):   # function type
            d = 0
            for k, c in enumerate(r2):
                d += c == '('; d -= c == ')'
                if d == 0: break
            r2 = r2[k + 1:].lstrip(); t = t if t else t
        return t, r2
    def res(self, t):
        while t.startswith('%'): t = self.types[t]
        return t
    def fields(self, t):
        t = self.res(t); packed = t.startswith('<{')
        inner = t[2:-2] if packed else t[1:-1]
        return split(inner), packed
    def size(self, t):
        t = self.res(t)
        if t == 'ptr': return 8
        if t == 'double': return 8
        if t == 'float': return 4
        if t == 'x86_fp80': return 16
        if re.match(r'i\d+$', t): n = int(t[1:]); return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if t[0] == '[': m = re.match(r'\[(\d+) x (.*)\]$', t); return int(m.group(1)) * self.size(m.group(2))
        if t[0] in '{<':
            f, p = self.fields(t); o = 0
            for x in f: o = o if p else -(-o // self.align(x)) * self.align(x); o += self.size(x)
            return o if p else -(-o // self.align(t)) * self.align(t)
        raise Err('size of ' + t)
    def align(self, t):
        t = self.res(t)
        if t[0] == '[': return self.align(re.match(r'\[(\d+) x (.*)\]$', t).group(2))
        if t[0] == '<': return 1
        if t[0] == '{': return max([1] + [self.align(x) for x in self.fields(t)[0]])
        return self.size(t)
    def offset(self, t, k):
        f, p = self.fields(t); o = 0
        for i, x in enumerate(f):
            if not p: o = -(-o // self.align(x)) * self.align(x)
            if i == k: return o, x
            o += self.size(x)
    def ctype(self, t):
        if t == 'ptr': return 'P'
        if t == 'double': return 'double'
        if t == 'float': return 'float'
        if t == 'x86_fp80': return 'long double'
        if t == 'void': return 'void'
        if t == 'i1': return 'U8'
        if re.match(r'i\d+$', t):
            n = int(t[1:]); return 'U8' if n <= 8 else 'U16' if n <= 16 else 'U32' if n <= 32 else 'U64' if n <= 64 else 'unsigned __int128'
        r = self.res(t)
        if r[0] in '{[':
            nm = 'T_' + hashlib.md5(r.encode()).hexdigest()[:8]
            if nm not in self.structs:
                fs = self.fields(t)[0] if r[0] == '{' else [re.match(r'\[(\d+) x (.*)\]$', r).group(2)] * int(re.match(r'\[(\d+)', r).group(1))
                body = ' '.join('%s f%d;' % (self.ctype(x), i) for i, x in enumerate(fs)); self.structs[nm] = 'typedef struct { %s } %s;' % (body, nm)
            return nm
        raise Err('ctype of ' + t)
ATTR = re.compile(r'^(?:(?:noundef|nonnull|nocapture|readonly|readnone|writeonly|noalias|signext|zeroext|returned|immarg|noreturn|inreg|nofree|nest|swiftself|allocptr|writable|dead_on_unwind|nuw|nsw|exact|inbounds|volatile|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|samesign|disjoint|nneg|tail|musttail|notail|fastcc|ccc|unnamed_addr|local_unnamed_addr|dso_local)\b|(?:align|dereferenceable|dereferenceable_or_null|sret|byval|range|allocalign|captures|initializes|noundef)\s*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)|\d+))\s*')
def unattr(s):
    s = s.strip()
    while True:
        m = ATTR.match(s)
        if not m or not m.group(0): return s
        s = s[m.end():].strip()
HDR = '''typedef unsigned char U8; typedef unsigned short U16; typedef unsigned int U32; typedef unsigned long U64; typedef signed char S8; typedef short S16; typedef int S32; typedef long S64; typedef char *P;
void *malloc(U64); void free(void *); void *memcpy(void *, const void *, U64); void *memmove(void *, const void *, U64); void *memset(void *, int, U64); double fabs(double); double floor(double); double ceil(double); double sqrt(double);
#define CHECKED(x) x
'''
BIN = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^', 'shl': '<<', 'lshr': '>>', 'udiv': '/', 'urem': '%', 'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}
CMP = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<=', 'sgt': '>', 'sge': '>=', 'slt': '<', 'sle': '<='}
class Tr:
    def __init__(self, mod, provided=()):
        self.m = mod; mod.structs = {}; self.provided = set(provided); self.need = []; self.done = {}; self.usedglobs = {}; self.externs = {}
    def val(self, t, v):
        v = v.strip(); m = self.m
        if v in ('undef', 'poison', 'zeroinitializer'): return '0' if m.res(t)[0] not in '{[' else '(%s){0}' % m.ctype(t)
        if v == 'null': return '(P)0'
        if v == 'true': return '1'
        if v == 'false': return '0'
        if v[0] == '%': return self.local(v)
        if v[0] == '@':
            if v in m.funcs or v in m.decls: return '((P)%s)' % self.fn(v)
            self.usedglobs[v] = 1; return '((P)%s)' % self.gname(v)
        if t in ('double', 'float'):
            if v.startswith('0x'):
                x = struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0]
                if x != x: return '(0.0/0.0)'
                if x in (float('inf'), -float('inf')): return '(%s1.0/0.0)' % ('-' if x < 0 else '')
                return '(%s)' % x.hex()
            return '(%s)' % float(v).hex()
        if re.match(r'-?\d+$', v):
            c = m.ctype(t); return '((%s)%s%s)' % (c, v, 'UL' if int(v) >= 0 else 'L')
        mm = re.match(r'getelementptr\s+(?:inbounds\s+)?(?:inrange\([^)]*\)\s*)?(?:nuw\s+)?\((.*)\)$', v)
        if mm: return self.gep(mm.group(1))
        if v.startswith('{') or v.startswith('['):
            return '(%s){%s}' % (m.ctype(t), ', '.join(self.tv(x) for x in split(v[1:-1])))
        raise Err('value ' + t + ' ' + v)
    def tv(self, s):
        t, r = self.m.parse_type(unattr(s)); return self.val(t, unattr(r))
    def local(self, v): return 'v_' + mang(v[1:])
    def gname(self, v): return 'g_' + mang(v[1:])
    def fn(self, v):
        if v in self.m.funcs and v not in self.provided:
            if v not in self.done and v not in self.need: self.need.append(v)
        else: self.externs.setdefault(v, None)
        return mang(v[1:])
    def sgn(self, t, e):
        n = int(t[1:]); c = {8: 'S8', 16: 'S16', 32: 'S32', 64: 'S64'}.get(n)
        if c: return '((%s)%s)' % (c, e)
        if n == 128: return '((__int128)%s)' % e
        if n == 1: return '(-(S8)%s)' % e
        k = 32 if n < 32 else 64; return '(((S%d)((U%d)%s << %d)) >> %d)' % (k, k, e, k - n, k - n)
    def msk(self, t, e):
        n = int(t[1:]); c = self.m.ctype(t)
        if n in (8, 16, 32, 64, 128): return '(%s)(%s)' % (c, e)
        return '(%s)((%s) & %sUL)' % (c, e, (1 << n) - 1)
    def gep(self, s):
        m = self.m; p = split(s); t, r = m.parse_type(unattr(p[0])); base = self.tv(p[1]); off = []; const = 0
        cur = None
        for i, ix in enumerate(p[2:]):
            it, iv = m.parse_type(unattr(ix)); iv = iv.strip()
            if i == 0: sz = m.size(t); cur = t
            else:
                r_ = m.res(cur)
                if r_[0] in '{<': o, cur = m.offset(cur, int(iv)); const += o; continue
                cur = re.match(r'\[(\d+) x (.*)\]$', r_).group(2); sz = m.size(cur)
            if re.match(r'-?\d+$', iv): const += int(iv) * sz
            else: off.append('%s * %d' % (self.sgn(it, self.val(it, iv)) if it != 'i64' else '(S64)' + self.val(it, iv), sz))
        e = ' + '.join(off + ([str(const)] if const or not off else []))
        return '(%s + (%s))' % (base, e) if e != '0' else base
    def func(self, name):
        m = self.m; hdr, body = m.funcs[name]
        a = hdr[:hdr.rindex(')') + 1] if False else hdr
        i = a.index(name + '('); pre = a[:i]; k = i + len(name); d = 0
        for j in range(k, len(a)):
            d += a[j] == '('; d -= a[j] == ')'
            if d == 0: break
        args = split(a[k + 1:j]); pre = re.sub(r'^define\s+', '', pre)
        while True:
            q = re.sub(r'^(?:dso_local|internal|private|linkonce_odr|weak_odr|hidden|available_externally|weak|linkonce|noundef|nonnull|zeroext|signext|noalias|mustprogress|align \d+|dereferenceable\(\d+\)|range\([^)]*\)|local_unnamed_addr|unnamed_addr|fastcc)\s+', '', pre)
            if q == pre: break
            pre = q
        rt, _ = m.parse_type(pre); cargs = []
        for n_, x in enumerate(args):
            t, r = m.parse_type(unattr(x)); nm = unattr(r); cargs.append('%s %s' % (m.ctype(t), self.local(nm)))
        decl = '%s %s(%s)' % (m.ctype(rt), mang(name[1:]), ', '.join(cargs) or 'void')
        vars_, code, phis, blocks = {}, [], {}, []
        nargs = len(args); cur = str(nargs) if True else None
        # first pass: phis
        first = True
        lab = None; blk = {}
        order = []
        for l in body:
            l0 = l.split(' !')[0].rstrip() if not l.strip().startswith('call void @llvm.dbg') else l
            l0 = re.sub(r',?\s*![\w.]+.*$', '', l0).rstrip() if '!' in l0 and '"' not in l0 else l0
            s = l0.strip()
            if not s or s.startswith(';'): continue
            mm = re.match(r'((?:"[^"]*"|[-\w$.]+)):', s)
            if mm and not l.startswith('  '): lab = mm.group(1); blk[lab] = []; order.append(lab); continue
            if lab is None: lab = '#entry'; blk[lab] = []; order.append(lab)
            if blk[lab] and re.match(r'switch ', blk[lab][-1]) and not blk[lab][-1].endswith(']'): blk[lab][-1] += ' ' + s; continue
            blk[lab].append(s)
        def L(x): return 'L_' + mang(x.lstrip('%'))
        entrynames = {'#entry'}
        # name of an unnamed entry block: the number after the arguments
        implicit = str(sum(1 for x in args)) 
        for lb in order:
            for s in blk[lb]:
                mm = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = phi ([^\[]+) (\[.*)$', s)
                if mm:
                    t, _ = m.parse_type(unattr(mm.group(2)))
                    for inc in split(mm.group(3)):
                        v, src = split(inc[1:-1]); phis.setdefault((src.lstrip('%').strip('"'), lb.strip('"')), []).append((self.local(mm.group(1)), t, v))
                    vars_[self.local(mm.group(1))] = m.ctype(t)
        def edge(src, dst):
            s_ = src if src != '#entry' else None; dst = dst.lstrip('%').strip('"'); p = None
            for key in ([s_.strip('"')] if s_ else [implicit, 'entry']):
                p = phis.get((key, dst));
                if p: break
            out = ''
            if p:
                for i_, (v, t, e) in enumerate(p): out += '%s p%d_ = %s; ' % (m.ctype(t), i_, self.val(t, e))
                for i_, (v, t, e) in enumerate(p): out += '%s = p%d_; ' % (v, i_)
            return '{ %sgoto %s; }' % (out, L(dst))
        out = []
        for lb in order:
            if lb != '#entry': out.append('%s:;' % L(lb.strip('"')))
            for s in blk[lb]: out += self.instr(s, vars_, lb, edge)
        self.done[name] = (decl, '%s {\n%s\n%s\n}' % (decl, '\n'.join('  %s %s;' % (c, v) for v, c in vars_.items()), '\n'.join('  ' + x for x in out)))
    def instr(self, s, vars_, lb, edge):
        m = self.m; dst = None; full = s
        mm = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = (.*)$', s)
        if mm: dst, s = mm.group(1), mm.group(2)
        def setv(t, e): v = self.local(dst); vars_[v] = m.ctype(t); return ['%s = %s;' % (v, e)]
        s = re.sub(r'^(?:tail|musttail|notail) ', '', s)
        op = s.split(' ')[0]; rest = unattr(s[len(op):]) if op not in ('call', 'invoke') else s[len(op):].strip()
        if op == 'phi': return []
        if op in BIN or op in ('sdiv', 'srem', 'ashr', 'frem'):
            p = split(rest); t, a = m.parse_type(p[0]); x, y = self.val(t, a), self.val(t, p[1])
            if op in ('sdiv', 'srem'): return setv(t, self.msk(t, '%s %s %s' % (self.sgn(t, x), '/' if op == 'sdiv' else '%', self.sgn(t, y))))
            if op == 'ashr': return setv(t, self.msk(t, '%s >> %s' % (self.sgn(t, x), y)))
            if op == 'frem': raise Err('frem')
            e = '%s %s %s' % (x, BIN[op], y)
            return setv(t, e if op[0] == 'f' else self.msk(t, e))
        if op == 'fneg': t, a = m.parse_type(rest); return setv(t, '-%s' % self.val(t, a))
        if op == 'icmp':
            pr, r = rest.split(' ', 1); p = split(r); t, a = m.parse_type(p[0]); x, y = self.val(t, a), self.val(t, p[1])
            if t == 'ptr' and pr not in ('eq', 'ne'): x, y = '(U64)' + x, '(U64)' + y
            if pr[0] == 's': x, y = self.sgn(t, x), self.sgn(t, y)
            return setv('i1', '%s %s %s' % (x, CMP[pr], y))
        if op == 'fcmp':
            pr, r = rest.split(' ', 1); p = split(r); t, a = m.parse_type(p[0]); x, y = self.val(t, a), self.val(t, p[1])
            k = {'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}
            if pr == 'ord': e = '(%s == %s && %s == %s)' % (x, x, y, y)
            elif pr == 'uno': e = '(%s != %s || %s != %s)' % (x, x, y, y)
            elif pr[0] == 'o': e = ('%s %s %s' % (x, k[pr[1:]], y)) if pr != 'one' else '(%s < %s || %s > %s)' % (x, y, x, y)
            else:
                neg = {'ult': '>=', 'ule': '>', 'ugt': '<=', 'uge': '<'}
                e = '!(%s %s %s)' % (x, neg[pr], y) if pr in neg else ('%s != %s' % (x, y) if pr == 'une' else '!(%s < %s || %s > %s)' % (x, y, x, y))
            return setv('i1', e)
        if op == 'select':
            p = split(rest); c = self.tv(p[0]); t, a = m.parse_type(unattr(p[1])); t2, b = m.parse_type(unattr(p[2])); return setv(t, '%s ? %s : %s' % (c, self.val(t, a), self.val(t, b)))
        if op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            if op == 'freeze': t, a = m.parse_type(rest); return setv(t, self.val(t, a))
            a, t2 = rest.rsplit(' to ', 1); t, a = m.parse_type(a); x = self.val(t, a); t2 = t2.strip()
            if op == 'trunc': return setv(t2, self.msk(t2, x))
            if op == 'zext': return setv(t2, '(%s)%s' % (m.ctype(t2), x))
            if op == 'sext': return setv(t2, self.msk(t2, '(S64)%s' % self.sgn(t, x) if t2 != 'i128' else self.sgn(t, x)))
            if op == 'fptosi': return setv(t2, '(%s)FPTOSI%s(%s)' % (m.ctype(t2), t2[1:], x))
            if op == 'fptoui': return setv(t2, '(%s)%s' % (m.ctype(t2), x))
            if op == 'sitofp': return setv(t2, '(%s)%s' % (m.ctype(t2), self.sgn(t, x)))
            if op == 'uitofp': return setv(t2, '(%s)%s' % (m.ctype(t2), x))
            if op in ('fpext', 'fptrunc'): return setv(t2, '(%s)%s' % (m.ctype(t2), x))
            if op == 'bitcast':
                if {t, t2} == {'i64', 'double'}: v = self.local(dst); vars_[v] = m.ctype(t2); return ['{ %s b_ = %s; memcpy(&%s, &b_, 8); }' % (m.ctype(t), x, v)]
                return setv(t2, x)
            return setv(t2, '(%s)%s' % (m.ctype(t2), x))
        if op == 'alloca':
            p = split(rest); t, _ = m.parse_type(p[0]); n = 1
            if len(p) > 1 and not p[1].startswith('align'):
                n = re.match(r'i\d+ (\d+)', p[1]); n = int(n.group(1))
            v = self.local(dst); vars_[v] = 'P'; vars_[v + '_m[%d]' % max(1, n * m.size(t))] = 'static U8' if False else 'U64' if False else 'U8'
            return ['%s = (P)%s_m;' % (v, v)]
        if op == 'load':
            p = split(re.sub(r'^atomic ', '', rest)); t, _ = m.parse_type(p[0]); return setv(t, '*(%s *)%s' % (m.ctype(t), self.tv(p[1])))
        if op == 'store':
            p = split(rest); t, a = m.parse_type(unattr(p[0])); return ['*(%s *)%s = %s;' % (m.ctype(t), self.tv(p[1]), self.val(t, a))]
        if op == 'getelementptr': return setv('ptr', self.gep(rest))
        if op == 'br':
            p = split(rest)
            if len(p) == 1: return [edge(lb, p[0].replace('label ', '').strip())]
            return ['if (%s) %s else %s' % (self.tv(p[0]), edge(lb, p[1].replace('label ', '').strip()), edge(lb, p[2].replace('label ', '').strip()))]
        if op == 'switch':
            mm = re.match(r'(.*?), label (%[^ ]+) \[(.*)\]', rest); t, a = m.parse_type(mm.group(1)); x = self.val(t, a); out = []
            for c, d in re.findall(r'i\d+ (-?\d+), label (%(?:"[^"]*"|[-\w$.]+))', mm.group(3)): out.append('if (%s == %s) %s' % (x, self.val(t, c), edge(lb, d)))
            return out + [edge(lb, mm.group(2))]
        if op == 'ret':
            if rest.startswith('void'): return ['return;']
            return ['return %s;' % self.tv(rest)]
        if op == 'unreachable': return ['__CPROVER_assume(0);']
        if op == 'extractvalue':
            p = split(rest); t, a = m.parse_type(p[0]); e = self.val(t, a)
            for k in p[1:]: r_ = m.res(t); t = m.fields(t)[0][int(k)] if r_[0] == '{' else re.match(r'\[(\d+) x (.*)\]$', r_).group(2); e += '.f' + k
            return setv(t, e)
        if op == 'insertvalue':
            p = split(rest); t, a = m.parse_type(p[0]); v = self.local(dst); vars_[v] = m.ctype(t); und = a.strip() in ('undef', 'poison')
            return ([] if und else ['%s = %s;' % (v, self.val(t, a))]) + ['%s.%s = %s;' % (v, '.'.join('f' + k for k in p[2:]), self.tv(p[1]))]
        if op in ('call', 'invoke'):
            tail = None
            if op == 'invoke': mm = re.match(r'(.*)\s+to label (%\S+)\s+unwind label (%\S+)', rest); rest, tail = mm.group(1), mm.group(2)
            r = unattr(rest); rt, r = m.parse_type(r); r = unattr(r); mm = re.match(r'(%s)\(' % ID, r)
            if not mm: raise Err('call ' + full)
            f = mm.group(1); k = mm.end() - 1; d = 0
            for j in range(k, len(r)):
                d += r[j] == '('; d -= r[j] == ')'
                if d == 0: break
            args = [x for x in split(r[k + 1:j])]
            o = self.call(f, rt, args, dst, vars_, setv)
            return o + ([edge(lb, tail)] if tail else [])
        raise Err('instruction ' + full)
    def call(self, f, rt, args, dst, vars_, setv):
        n = f[1:].strip('"')
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.va_')): return []
        a = None
        if n.startswith('llvm.'):
            if n.startswith(('llvm.memcpy', 'llvm.memmove')): a = [self.tv(x) for x in args]; return ['%s(%s, %s, %s);' % (n[5:].split('.')[0], a[0], a[1], a[2])]
            if n.startswith('llvm.memset'): a = [self.tv(x) for x in args]; return ['memset(%s, %s, %s);' % (a[0], a[1], a[2])]
            ts = [self.m.parse_type(unattr(x))[0] for x in args]; a = [self.tv(x) for x in args]; k = n.split('.')[1]
            if k in ('smax', 'smin'): return setv(rt, '%s %s %s ? %s : %s' % (self.sgn(ts[0], a[0]), '>' if k == 'smax' else '<', self.sgn(ts[0], a[1]), a[0], a[1]))
            if k in ('umax', 'umin'): return setv(rt, '%s %s %s ? %s : %s' % (a[0], '>' if k == 'umax' else '<', a[1], a[0], a[1]))
            if k == 'abs': return setv(rt, self.msk(ts[0], '%s < 0 ? -%s : %s' % (self.sgn(ts[0], a[0]), a[0], a[0])))
            if k in ('fabs', 'floor', 'ceil', 'sqrt'): return setv(rt, '%s(%s)' % (k, a[0]))
            if k in ('rint', 'round', 'trunc', 'nearbyint'): self.externs.setdefault('@' + k, None); return setv(rt, '%s(%s)' % (k, a[0]))
            if k in ('fmuladd',): return setv(rt, '%s * %s + %s' % tuple(a))
            if k in ('maxnum', 'minnum'): return setv(rt, '%s %s %s ? %s : %s' % (a[0], '>' if k == 'maxnum' else '<', a[1], a[0], a[1]))
            if k == 'expect': return setv(rt, a[0])
            if k == 'trap': return ['__CPROVER_assert(0, "trap"); __CPROVER_assume(0);']
            if k == 'is' : raise Err(n)
            raise Err('intrinsic ' + n)
        a = [self.tv(x) for x in args]; e = '%s(%s)' % (self.fn(f), ', '.join(a))
        if f in self.externs and self.externs[f] is None:
            ts = [self.m.parse_type(unattr(x))[0] for x in args]; self.externs[f] = (rt, ts)
        if dst is None: return [e + ';']
        return setv(rt, e)
    def glob(self, g):
        d = self.m.globs[g]; mm = re.match(r'(?:(?:private|internal|external|dso_local|local_unnamed_addr|unnamed_addr|linkonce_odr|weak_odr|hidden|thread_local|comdat|weak|common)\s+)*(constant|global)\s+(.*)$', d)
        if not mm: raise Err('global ' + g + ' ' + d[:80])
        t, r = self.m.parse_type(mm.group(2)); sz = max(1, self.m.size(t)); r = r.strip()
        bs = None
        if r.startswith('c"'):
            b = r[2:r.rindex('"')]; bs = []
            k = 0
            while k < len(b):
                if b[k] == '\\': bs.append(int(b[k + 1:k + 3], 16)); k += 3
                else: bs.append(ord(b[k])); k += 1
        elif r.startswith('zeroinitializer') or d.startswith('external') or not r: bs = []
        else:
            bs = self.cbytes(t, split(r)[0])
        return 'static U8 %s[%d] __attribute__((aligned(16))) = {%s};' % (self.gname(g), sz, ','.join(map(str, bs)) or '0')
    def cbytes(self, t, v):
        m = self.m; v = v.strip(); r = m.res(t)
        if v in ('zeroinitializer', 'undef', 'null', 'poison'): return [0] * m.size(t)
        if r in ('double', 'float'):
            x = struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0] if v.startswith('0x') else float(v)
            return list(struct.pack('<d' if r == 'double' else '<f', x))
        if re.match(r'i\d+$', r): n = m.size(t); v = {'true': '1', 'false': '0'}.get(v, v); return list((int(v) & ((1 << 8 * n) - 1)).to_bytes(n, 'little'))
        if r[0] == '[':
            et = re.match(r'\[(\d+) x (.*)\]$', r).group(2); out = []
            if v.startswith('c"'): raise Err('nested string')
            for x in split(v[1:-1]): xt, xv = m.parse_type(x); out += self.cbytes(xt, xv)
            return out
        if r[0] == '{':
            out = []; fs, p = m.fields(t)
            for i, x in enumerate(split(v[1:-1])):
                o, ft = m.offset(t, i); out += [0] * (o - len(out)); xt, xv = m.parse_type(x); out += self.cbytes(xt, xv)
            return out + [0] * (m.size(t) - len(out))
        raise Err('constant ' + t + ' ' + v[:60])
    def emit(self, roots):
        for r in roots:
            if r not in self.m.funcs: raise Err('no function ' + r)
            self.need.append(r)
        while self.need:
            f = self.need.pop(0)
            if f not in self.done: self.func(f)
        body = '\n\n'.join(c for d, c in self.done.values())
        fp = '\n'.join('static S%d FPTOSI%d(double x) { __CPROVER_assert(x == x && x > %s && x < %s, "float to integer conversion in range"); return (S%d)x; }' % (n, n, '-2147483649.0' if n == 32 else '-9223372036854777856.0' if n == 64 else '-%d.0' % (2 ** (n - 1) + 1), '2147483648.0' if n == 32 else '9223372036854775808.0' if n == 64 else '%d.0' % 2 ** (n - 1), n) for n in (8, 16, 32, 64))
        gl = '\n'.join(self.glob(g) for g in self.usedglobs)
        self.header = HDR + '\n'.join(self.m.structs.values()) + '\n' + '\n'.join(d + ';' for d, c in self.done.values()) + '\n'
        ex = '\n'.join('%s %s(%s);' % (self.m.ctype(v[0]), mang(k[1:]), ', '.join(self.m.ctype(t) for t in v[1]) or 'void') for k, v in self.externs.items() if v and mang(k[1:]) not in ('memcpy', 'memmove', 'memset', 'malloc', 'free', 'fabs', 'floor', 'ceil', 'sqrt'))
        return HDR + '\n'.join(self.m.structs.values()) + '\n' + fp + '\n' + gl + '\n' + ex + '\n' + '\n'.join(d + ';' for d, c in self.done.values()) + '\n' + body + '\n'
def demangle(names):
    o = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n'); return dict(zip(names, o))
def translate(src, incs, wanted, flags=(), provided=()):
    """src: a C++ file; wanted: demangled names (exact). returns (C text, {demangled: C name}, functions encoded, externs)"""
    p = subprocess.run(['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-std=gnu++14', '-w', '-O1', '-S', '-emit-llvm', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-unroll-loops', '-fno-stack-protector', '-fno-math-errno', '-fno-access-control', '-mllvm', '-inline-threshold=2000', '-o', '-', src] + ['-I' + i for i in incs] + list(flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise Err('clang: ' + p.stderr[:500])
    mod = Module(p.stdout); dm = demangle([f[1:].strip('"') for f in mod.funcs]); inv = {}
    for k, v in dm.items(): inv.setdefault(v, k)
    roots = []
    for w in wanted:
        c = [k for k, v in dm.items() if v == w or v.split('(')[0] == w]
        if len(c) != 1: raise Err('function %s: %d candidates in %s' % (w, len(c), src))
        roots.append('@' + c[0])
    tr = Tr(mod, ['@' + x for x in provided]); c = tr.emit(roots)
    global header; header = tr.header
    return c, {w: mang(r[1:]) for w, r in zip(wanted, roots)}, [dm[f[1:].strip('"')] for f in tr.done], list(tr.externs)
if __name__ == '__main__':
    import sys
    c, names, done, ext = translate(sys.argv[1], sys.argv[2].split(':'), sys.argv[3:]); print(c); print(names, done, ext, file=sys.stderr)

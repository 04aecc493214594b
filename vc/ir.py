"""Textual LLVM-18 IR reader (the subset clang/opt emit for our harnesses)."""
import re
import struct
from fractions import Fraction


class IRError(Exception):
    pass


# ---- types: ('i',n) ('f','double'|'float'|'x86_fp80') ('ptr',) ('void',)
#             ('arr',n,T) ('st',[T..],packed) ('vec',n,T) ('lbl',) ('meta',)
class Types:
    def __init__(self):
        self.named = {}

    def resolve(self, t):
        while t[0] == 'named':
            if t[1] not in self.named:
                raise IRError('opaque type ' + t[1])
            t = self.named[t[1]]
        return t

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return p
        if k == 'f':
            return {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'st':
            off = 0
            al = 1
            for x in t[1]:
                a = 1 if t[2] else self.align(x)
                al = max(al, a)
                off = (off + a - 1) // a * a
                off += self.size(x)
            return (off + al - 1) // al * al
        raise IRError('size of %r' % (t,))

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'arr':
            return self.align(t[2])
        if k == 'st':
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        if k == 'i' and t[1] > 64:
            return 16
        return self.size(t)

    def field_off(self, t, i):
        t = self.resolve(t)
        if t[0] in ('arr', 'vec'):
            return i * self.size(t[2]), t[2]
        off = 0
        for j, x in enumerate(t[1]):
            a = 1 if t[2] else self.align(x)
            off = (off + a - 1) // a * a
            if j == i:
                return off, x
            off += self.size(x)
        raise IRError('field')


TOK = re.compile(r'''\s*(?:
  (?P<lid>%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<gid>@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<cid>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
  (?P<meta>![-a-zA-Z$._0-9]*(?:\([^)]*\))?) |
  (?P<cstr>c"[^"]*") |
  (?P<str>"[^"]*") |
  (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+) |
  (?P<attr>\#\d+) |
  (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*) |
  (?P<dots>\.\.\.) |
  (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise IRError('tokenize: ' + s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
               'returned', 'inreg', 'immarg', 'nofree', 'nest', 'writable', 'dead_on_unwind', 'swiftself', 'captures'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'volatile', 'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc', 'samesign'}


class Parser:
    def __init__(self, toks, types):
        self.t = toks
        self.i = 0
        self.types = types

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %s got %r near %r' % (v, self.peek(), self.t[max(0, self.i - 6):self.i + 4]))

    def type(self):
        k, v = self.next()
        if v == 'ptr':
            t = ('ptr',)
            if self.peek()[1] == 'addrspace':
                self.skip_paren_word()
        elif v == 'void':
            t = ('void',)
        elif v in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
            t = ('f', v)
        elif v in ('label', 'metadata', 'token'):
            t = (v,)
        elif k == 'word' and re.match(r'i\d+$', v):
            t = ('i', int(v[1:]))
        elif k == 'lid':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('st', self.tlist('}'), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                l = self.tlist('}')
                self.expect('>')
                t = ('st', l, True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif v == 'opaque':
            t = ('opaque',)
        else:
            raise IRError('type? %r near %r' % (v, self.t[max(0, self.i - 5):self.i + 5]))
        # function type  T (args)
        if self.peek()[1] == '(' and getattr(self, 'fnty_ok', False):
            d = 0
            while True:
                v = self.next()[1]
                if v == '(':
                    d += 1
                elif v == ')':
                    d -= 1
                    if d == 0:
                        break
            t = ('fn', t)
        return t

    def tlist(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            out.append(self.type())
            if self.accept(end):
                return out
            self.expect(',')

    def skip_paren_word(self):
        self.next()
        if self.accept('('):
            d = 1
            while d:
                v = self.next()[1]
                if v == '(':
                    d += 1
                elif v == ')':
                    d -= 1

    def skip_attrs(self):
        info = {}
        while True:
            k, v = self.peek()
            if v in PARAM_ATTRS:
                self.next()
                if self.peek()[1] == '(':
                    self.i -= 1
                    self.skip_paren_word()
            elif v == 'align':
                self.next()
                if self.peek()[1] == '(':
                    self.i -= 1
                    self.skip_paren_word()
                else:
                    self.next()
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'initializes',
                       'memory', 'allocsize', 'preallocated', 'inalloca'):
                info[v] = True
                self.skip_paren_word()
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return info

    def flags(self):
        out = set()
        while self.peek()[1] in FLAGS:
            out.add(self.next()[1])
            if self.peek()[1] == '(' and 'inbounds' not in out:
                break
        return out

    def value(self, t):
        """constant / register operand of type t"""
        k, v = self.next()
        if k == 'lid':
            return ('reg', v)
        if k == 'gid':
            return ('glob', v)
        if k == 'num':
            rt = self.types.resolve(t)
            if rt[0] == 'f':
                return ('c', parse_fp(v, rt))
            return ('c', int(v))
        if v == 'true':
            return ('c', True)
        if v == 'false':
            return ('c', False)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero', t)
        if v in ('{', '[', '<'):
            end = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                items = self.vlist('}')
                self.expect('>')
            else:
                items = self.vlist(end)
            return ('agg', items)
        if k == 'cstr':
            return ('cstr', v)
        if v == 'getelementptr':
            self.flags()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            pt = self.type()
            b = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append(self.value(it))
            self.expect(')')
            return ('gep', bt, b, idx)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'addrspacecast'):
            self.expect('(')
            ft = self.type()
            x = self.value(ft)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('cast', v, x, ft, tt)
        if v in ('sub', 'add'):
            self.flags()
            self.expect('(')
            ft = self.type()
            x = self.value(ft)
            self.expect(',')
            ft = self.type()
            y = self.value(ft)
            self.expect(')')
            return ('cexpr', v, x, y)
        raise IRError('value? %r near %r' % (v, self.t[max(0, self.i - 6):self.i + 6]))

    def vlist(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            t = self.type()
            out.append((t, self.value(t)))
            if self.accept(end):
                return out
            self.expect(',')

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def parse_fp(v, t):
    if v.startswith('0xK'):
        h = int(v[3:], 16)
        se = h >> 64
        m = h & ((1 << 64) - 1)
        sign = -1 if se >> 15 else 1
        e = se & 0x7fff
        if e == 0x7fff:
            return sign * float('inf') if m == 1 << 63 else float('nan')
        return Fraction(sign * m) * (Fraction(2) ** (e - 16383 - 63))
    if v.startswith('0x'):
        x = struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0]
        if x != x or x in (float('inf'), float('-inf')):
            return x
        return Fraction(x)
    return Fraction(float(v))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'text')

    def __init__(self, op, res, ty, args, x, text):
        self.op, self.res, self.ty, self.args, self.x, self.text = op, res, ty, args, x, text


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []


class Module:
    def __init__(self, path):
        self.types = Types()
        self.funcs = {}
        self.globals = {}
        self.decls = set()
        with open(path) as f:
            self.parse(f.read().split('\n'))

    def P(self, line):
        return Parser(tokenize(line), self.types)

    def parse(self, lines):
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                p = self.P(m.group(2))
                if p.peek()[1] != 'opaque':
                    p.fnty_ok = False
                    try:
                        self.types.named[m.group(1)] = p.type()
                    except IRError:
                        pass
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                if m:
                    self.decls.add('@' + m.group(1))
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(l, lines[i + 1:j])
                i = j
            i += 1

    def parse_global(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        m2 = re.search(r'\b(global|constant)\b (.*)$', rest)
        ext = bool(re.search(r'\bexternal\b', rest.split('global')[0].split('constant')[0]))
        if not m2:
            self.globals[name] = None
            return
        try:
            p = self.P(m2.group(2))
            t = p.type()
            v = None if ext else p.value(t)
            self.globals[name] = (t, v, m2.group(1) == 'constant')
        except IRError:
            self.globals[name] = None

    def parse_func(self, head, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        name = '@' + m.group(1)
        pre = head[:m.start()]
        p = self.P(head[m.end():])
        params = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                t = p.type()
                p.skip_attrs()
                k, v = p.peek()
                if k == 'lid':
                    p.next()
                    params.append((t, v))
                else:
                    params.append((t, '%' + str(len(params))))
                if p.accept(')'):
                    break
                p.expect(',')
        # return type
        f = Func(name, None, params)
        f.head = head
        f.raw = body
        f.parsed = False
        self.funcs[name] = f

    def body(self, f):
        if f.parsed:
            return f
        # entry label: unnamed => number of params
        cur = None
        named_entry = None
        first = next((x for x in f.raw if x.strip()), '')
        m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', first)
        if not m:
            nparam = len([1 for t, v in f.params])
            cur = '%' + str(sum(1 for _, v in f.params if v[1:].isdigit()))
            f.blocks[cur] = []
            f.order.append(cur)
        lines = f.raw
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):(\s*;.*)?$', l)
            if m:
                lab = m.group(1)
                cur = '%' + lab
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                while True:
                    s += ' ' + lines[i].strip()
                    i += 1
                    if lines[i - 1].strip().startswith(']'):
                        break
            if (' invoke ' in s or s.startswith('invoke ')) and ' unwind ' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            if 'landingpad' in s:
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            f.blocks[cur].append(self.instr(s))
        f.parsed = True
        return f

    def instr(self, s):
        text = s
        # strip metadata attachments and comments
        s = re.sub(r',\s*!(?!DI)[a-zA-Z_.]+ ![0-9]+', '', s)
        s = re.sub(r',\s*!srcloc.*$', '', s)
        p = self.P(s)
        res = None
        if p.peek()[0] == 'lid' and p.peek(1)[1] == '=':
            res = p.next()[1]
            p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        I_ = lambda ty, args, x=None: Instr(op, res, ty, args, x, text)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = p.flags()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I_(t, [a, b], fl)
        if op == 'fneg':
            p.flags()
            t = p.type()
            return I_(t, [p.value(t)])
        if op == 'freeze':
            t = p.type()
            return I_(t, [p.value(t)])
        if op in ('icmp', 'fcmp'):
            p.flags()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I_(t, [a, b], pred)
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast',
                  'ptrtoint', 'inttoptr', 'addrspacecast'):
            p.flags()
            t = p.type()
            a = p.value(t)
            p.expect('to')
            t2 = p.type()
            return I_(t2, [a], t)
        if op == 'alloca':
            p.flags()
            t = p.type()
            n = ('c', 1)
            if p.accept(','):
                if p.peek()[1] != 'align':
                    it = p.type()
                    n = p.value(it)
            return I_(t, [n])
        if op == 'load':
            p.flags()
            if p.accept('atomic'):
                pass
            p.flags()
            t = p.type()
            p.expect(',')
            pt = p.type()
            return I_(t, [p.value(pt)])
        if op == 'store':
            p.flags()
            p.accept('atomic')
            p.flags()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            return I_(t, [v, p.value(pt)])
        if op == 'getelementptr':
            p.flags()
            bt = p.type()
            p.expect(',')
            pt = p.type()
            b = p.value(pt)
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append((it, p.value(it)))
            return I_(bt, [b], idx)
        if op == 'phi':
            p.flags()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                lab = p.next()[1]
                p.expect(']')
                inc.append((v, lab))
                if not p.accept(','):
                    break
            return I_(t, inc)
        if op == 'select':
            p.flags()
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            return I_(t, [c, a, b])
        if op == 'br':
            if p.accept('label'):
                return I_(None, [], (p.next()[1],))
            p.type()
            c = p.value(('i', 1))
            p.expect(',')
            p.expect('label')
            a = p.next()[1]
            p.expect(',')
            p.expect('label')
            b = p.next()[1]
            return I_(None, [c], (a, b))
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()[1]))
            return I_(t, [v], (d, cases))
        if op == 'ret':
            t = p.type()
            if t[0] == 'void':
                return I_(t, [])
            return I_(t, [p.value(t)])
        if op == 'unreachable':
            return I_(None, [])
        if op in ('extractvalue', 'insertvalue'):
            t = p.type()
            a = p.value(t)
            args = [a]
            t2 = None
            p.expect(',')
            if op == 'insertvalue':
                t2 = p.type()
                args.append(p.value(t2))
                p.expect(',')
            idx = [int(p.next()[1])]
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return I_(t, args, idx)
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            args = []
            t0 = None
            while True:
                t = p.type()
                t0 = t0 or t
                args.append(p.value(t))
                if not p.accept(','):
                    break
            return I_(t0, args)
        if op in ('call', 'invoke'):
            p.flags()
            while p.peek()[1] in ('cc', 'fastcc', 'ccc', 'coldcc'):
                p.next()
            p.skip_attrs()
            p.fnty_ok = False
            t = p.type()
            # optional function type "(...)"
            if p.peek()[1] == '(':
                p.skip_fn = True
                d = 0
                while True:
                    v = p.next()[1]
                    if v == '(':
                        d += 1
                    elif v == ')':
                        d -= 1
                        if d == 0:
                            break
            k, v = p.peek()
            if v == 'asm':
                return I_(t, [], ('asm',))
            callee = p.value(('ptr',))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    info = p.skip_attrs()
                    if at[0] == 'metadata':
                        # skip metadata operand
                        d = 0
                        while not (d == 0 and p.peek()[1] in (',', ')')):
                            v = p.next()[1]
                            if v == '(':
                                d += 1
                            elif v == ')':
                                d -= 1
                        args.append((at, ('undef',), info))
                    else:
                        args.append((at, p.value(at), info))
                    if p.accept(')'):
                        break
                    p.expect(',')
            x = None
            if op == 'invoke':
                while p.peek()[1] != 'to':
                    p.next()
                p.expect('to')
                p.expect('label')
                a = p.next()[1]
                p.expect('unwind')
                p.expect('label')
                b = p.next()[1]
                x = (a, b)
            return I_(t, [callee] + args, x)
        if op in ('landingpad', 'resume', 'fence', 'cmpxchg', 'atomicrmw', 'va_arg'):
            return I_(None, [], text)
        raise IRError('instr ' + text)


def successors(ins):
    if ins.op == 'br':
        return list(ins.x)
    if ins.op == 'switch':
        return [ins.x[0]] + [l for _, l in ins.x[1]]
    if ins.op == 'invoke':
        return [ins.x[0]]
    return []


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.latches = set()
        self.children = []
        self.parent = None


def cfg_info(f):
    """succ, pred, reverse postorder, natural loops"""
    if hasattr(f, 'cfg'):
        return f.cfg
    succ = {b: successors(f.blocks[b][-1]) for b in f.order}
    entry = f.order[0]
    # reachable rpo
    seen = set()
    post = []
    st = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            if b not in pred[s]:
                pred[s].append(b)
    # dominators
    idom = {entry: entry}
    ch = True

    def inter(a, b):
        while a != b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [q for q in pred[b] if q in idom]
            n = ps[0]
            for q in ps[1:]:
                n = inter(n, q)
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                L = loops.setdefault(s, Loop(s))
                L.latches.add(b)
                stk = [b]
                while stk:
                    x = stk.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    stk += pred[x]
            elif num[s] <= num[b]:
                raise IRError('irreducible loop in ' + f.name)
    # nesting: smallest enclosing
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(ls):
        for m in ls[i + 1:]:
            if l.header in m.blocks and m is not l:
                l.parent = m
                m.children.append(l)
                break
    inner = {}
    for l in reversed(ls):
        for b in l.blocks:
            inner[b] = l
    f.cfg = (succ, pred, rpo, num, loops, inner)
    return f.cfg

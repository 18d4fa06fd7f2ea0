"""Minimal reader for LLVM-18 textual IR (the subset clang emits at -O2 for the witness translation units)."""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_.$][-a-zA-Z_.$0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        out.append((m.lastgroup, m.group()))
    return out


class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError('expected %r at %r' % (v, self.t[max(0, self.i - 4):self.i + 6]))


PARAM_ATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned', 'noalias', 'signext', 'zeroext', 'inreg',
              'immarg', 'swiftself', 'nest', 'noreturn', 'nofree', 'dead_on_unwind', 'writable', 'allocptr', 'allocalign', 'inalloca',
              'nounwind', 'mustprogress', 'willreturn', 'swifterror', 'range'}
PARAM_ATTR_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'nofpclass', 'byref', 'preallocated', 'range',
                'alignstack', 'memory', 'initializes', 'captures'}


def ptype(p):
    k = p.kind()
    v = p.next()
    if k == 'word':
        if v[0] == 'i' and v[1:].isdigit():
            t = ('i', int(v[1:]))
        elif v == 'double':
            t = ('f', 64)
        elif v == 'float':
            t = ('f', 32)
        elif v == 'x86_fp80':
            t = ('f', 80)
        elif v == 'half':
            t = ('f', 16)
        elif v == 'fp128':
            t = ('f', 128)
        elif v == 'ptr':
            t = ('p',)
        elif v == 'void':
            t = ('void',)
        elif v in ('metadata', 'label', 'token', 'opaque'):
            t = (v,)
        else:
            raise SyntaxError('type? ' + v)
    elif k == 'name' and v[0] == '%':
        t = ('n', v)
    elif v == '[':
        n = int(p.next())
        assert p.next() == 'x'
        e = ptype(p)
        p.expect(']')
        t = ('a', n, e)
    elif v == '{':
        t = ('s', tuple(plist(p, '}')), False)
    elif v == '<':
        if p.peek() == '{':
            p.next()
            el = plist(p, '}')
            p.expect('>')
            t = ('s', tuple(el), True)
        else:
            n = int(p.next())
            assert p.next() == 'x'
            e = ptype(p)
            p.expect('>')
            t = ('v', n, e)
    else:
        raise SyntaxError('type? %r' % v)
    # function type  T (args)
    while p.peek() == '(' or p.peek() == '*':
        if p.peek() == '*':
            p.next()
            t = ('p',)
            continue
        # function type
        p.next()
        args = []
        while not p.accept(')'):
            if p.accept('...'):
                pass
            else:
                args.append(ptype(p))
            p.accept(',')
        t = ('fn', t, tuple(args))
    return t


def plist(p, close):
    r = []
    if p.accept(close):
        return r
    while True:
        r.append(ptype(p))
        if p.accept(close):
            return r
        p.expect(',')


def skip_attrs(p):
    while True:
        v = p.peek()
        if v in PARAM_ATTR and not (p.i + 1 < len(p.t) and p.t[p.i + 1][1] == '(' and v in PARAM_ATTR_P):
            p.next()
        elif v in PARAM_ATTR_P:
            p.next()
            if p.accept('('):
                d = 1
                while d:
                    w = p.next()
                    if w == '(':
                        d += 1
                    elif w == ')':
                        d -= 1
            elif v == 'align':
                p.next()
        else:
            return


def pvalue(p, t):
    """value of known type; returns tuple ast"""
    k = p.kind()
    v = p.next()
    if k == 'name':
        return ('loc', v) if v[0] == '%' else ('glob', v)
    if k == 'num':
        if t[0] == 'f':
            if v.startswith('0x'):
                import struct
                if t[1] == 80 or v[2] == 'K':
                    return ('fp', None, v)
                return ('fp', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0], v)
            return ('fp', float(v), v)
        return ('int', int(v))
    if k == 'word':
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('undef',)
        if v in ('getelementptr',):
            p.accept('inbounds')
            while p.peek() in ('nuw', 'nusw', 'inrange'):
                p.next()
            p.expect('(')
            bt = ptype(p)
            p.expect(',')
            ops = []
            while True:
                if p.peek() == 'inrange':
                    p.next()
                ot = ptype(p)
                ops.append((ot, pvalue(p, ot)))
                if p.accept(')'):
                    break
                p.expect(',')
            return ('gep', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            p.expect('(')
            ot = ptype(p)
            ov = pvalue(p, ot)
            assert p.next() == 'to'
            dt = ptype(p)
            p.expect(')')
            return ('cast', v, ot, ov, dt)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            while p.peek() in ('nuw', 'nsw', 'exact'):
                p.next()
            p.expect('(')
            a_t = ptype(p)
            a = pvalue(p, a_t)
            p.expect(',')
            b_t = ptype(p)
            b = pvalue(p, b_t)
            p.expect(')')
            return ('bin', v, a_t, a, b)
        if v == 'splat':
            p.expect('(')
            et = ptype(p)
            ev = pvalue(p, et)
            p.expect(')')
            return ('agg', [(et, ev)] * t[1])
        if v == 'blockaddress':
            raise SyntaxError('blockaddress')
        raise SyntaxError('value? %s' % v)
    if k == 'str':
        return ('cstr', v)
    if v in ('{', '[', '<'):
        if v == '<' and p.peek() == '{':
            p.next()
            close = '}'
            extra = True
        else:
            close = {'{': '}', '[': ']', '<': '>'}[v]
            extra = False
        el = []
        if not p.accept(close):
            while True:
                et = ptype(p)
                el.append((et, pvalue(p, et)))
                if p.accept(close):
                    break
                p.expect(',')
        if extra:
            p.expect('>')
        return ('agg', el)
    raise SyntaxError('value? %r' % v)


FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
CC = {'fastcc', 'coldcc', 'ccc', 'tailcc', 'swiftcc', 'noundef'}


class Ins:
    __slots__ = ('res', 'op', 'a', 'line', 'dbg')

    def __init__(self, res, op, a, line):
        self.res = res
        self.op = op
        self.a = a
        self.line = line
        self.dbg = None


class Fn:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'raw', 'attrs')

    def __init__(self):
        self.blocks = None


def tv(p):
    t = ptype(p)
    skip_attrs(p)
    return (t, pvalue(p, t))


def pcall_rest(p):
    """after call/invoke keyword(s): [cc] [ret attrs] type callee(args)"""
    while p.peek() in FMF or p.peek() in CC:
        p.next()
    skip_attrs(p)
    rt = ptype(p)
    if rt[0] == 'fn':
        rt = rt[1]
    k = p.kind()
    if k == 'word' and p.peek() == 'asm':
        raise SyntaxError('asm')
    callee = pvalue(p, ('p',))
    p.expect('(')
    args = []
    if not p.accept(')'):
        while True:
            t = ptype(p)
            skip_attrs(p)
            if t == ('metadata',):
                # skip until , or ) at depth 0
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    w = p.next()
                    if w == '(':
                        d += 1
                    elif w == ')':
                        d -= 1
                args.append((t, ('undef',)))
            else:
                args.append((t, pvalue(p, t)))
            if p.accept(')'):
                break
            p.expect(',')
    return rt, callee, args


def parse_ins(line):
    p = P(tokenize(line))
    res = None
    if p.kind() == 'name' and p.i + 1 < len(p.t) and p.t[p.i + 1][1] == '=':
        res = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    dbg = None
    m = re.search(r'!dbg (!\d+)', line)
    if m:
        dbg = m.group(1)
    a = None
    if op in BIN:
        while p.peek() in FMF or p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        t = ptype(p)
        x = pvalue(p, t)
        p.expect(',')
        y = pvalue(p, t)
        disj = ' disjoint ' in line
        a = (t, x, y, disj)
    elif op == 'fneg':
        while p.peek() in FMF:
            p.next()
        t = ptype(p)
        a = (t, pvalue(p, t))
    elif op in ('icmp', 'fcmp'):
        while p.peek() in FMF:
            p.next()
        pred = p.next()
        t = ptype(p)
        x = pvalue(p, t)
        p.expect(',')
        y = pvalue(p, t)
        a = (pred, t, x, y)
    elif op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = ptype(p)
        x = pvalue(p, t)
        assert p.next() == 'to'
        a = (t, x, ptype(p))
    elif op == 'ret':
        t = ptype(p)
        a = (t, None if t[0] == 'void' else pvalue(p, t))
    elif op == 'br':
        if p.accept('label'):
            a = (None, p.next(), None)
        else:
            t = ptype(p)
            c = pvalue(p, t)
            p.expect(',')
            p.expect('label')
            x = p.next()
            p.expect(',')
            p.expect('label')
            a = (c, x, p.next())
    elif op == 'switch':
        t = ptype(p)
        c = pvalue(p, t)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = ptype(p)
            cv = pvalue(p, ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv, p.next()))
        a = (t, c, d, cases)
    elif op == 'unreachable':
        a = ()
    elif op == 'phi':
        while p.peek() in FMF:
            p.next()
        t = ptype(p)
        inc = []
        while True:
            p.expect('[')
            v = pvalue(p, t)
            p.expect(',')
            l = p.next()
            p.expect(']')
            inc.append((v, l))
            if not (p.peek() == ',' and p.t[p.i + 1][1] == '['):
                break
            p.next()
        a = (t, inc)
    elif op == 'select':
        while p.peek() in FMF:
            p.next()
        ct = ptype(p)
        c = pvalue(p, ct)
        p.expect(',')
        t = ptype(p)
        x = pvalue(p, t)
        p.expect(',')
        t2 = ptype(p)
        y = pvalue(p, t2)
        a = (ct, c, t, x, y)
    elif op == 'load':
        atomic = p.accept('atomic')
        p.accept('volatile')
        t = ptype(p)
        p.expect(',')
        pt = ptype(p)
        a = (t, pvalue(p, pt), atomic)
    elif op == 'store':
        atomic = p.accept('atomic')
        p.accept('volatile')
        t = ptype(p)
        v = pvalue(p, t)
        p.expect(',')
        pt = ptype(p)
        a = (t, v, pvalue(p, pt), atomic)
    elif op == 'alloca':
        p.accept('inalloca')
        t = ptype(p)
        n = None
        if p.accept(',') and p.peek() != 'align' and p.kind() == 'word':
            nt = ptype(p)
            n = pvalue(p, nt)
        a = (t, n)
    elif op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = ptype(p)
        p.expect(',')
        ops = []
        while True:
            t = ptype(p)
            ops.append((t, pvalue(p, t)))
            if not p.accept(','):
                break
            if p.kind() == 'meta':
                break
        a = (bt, ops)
    elif op in ('call', 'invoke'):
        rt, callee, args = pcall_rest(p)
        dest = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            dest = p.next()
        a = (rt, callee, args, dest)
    elif op == 'extractvalue':
        t = ptype(p)
        v = pvalue(p, t)
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        a = (t, v, idx)
    elif op == 'insertvalue':
        t = ptype(p)
        v = pvalue(p, t)
        p.expect(',')
        t2 = ptype(p)
        v2 = pvalue(p, t2)
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        a = (t, v, t2, v2, idx)
    elif op == 'extractelement':
        t = ptype(p)
        v = pvalue(p, t)
        p.expect(',')
        a = (t, v, tv(p))
    elif op == 'insertelement':
        t = ptype(p)
        v = pvalue(p, t)
        p.expect(',')
        t2 = ptype(p)
        v2 = pvalue(p, t2)
        p.expect(',')
        a = (t, v, t2, v2, tv(p))
    elif op == 'shufflevector':
        t = ptype(p)
        v = pvalue(p, t)
        p.expect(',')
        t2 = ptype(p)
        v2 = pvalue(p, t2)
        p.expect(',')
        a = (t, v, t2, v2, tv(p))
    elif op == 'freeze':
        a = tv(p)
    elif op == 'atomicrmw':
        p.accept('volatile')
        o = p.next()
        pt = ptype(p)
        pv = pvalue(p, pt)
        p.expect(',')
        t = ptype(p)
        a = (o, pv, t, pvalue(p, t))
    elif op in ('landingpad', 'resume', 'fence', 'cmpxchg', 'va_arg', 'cleanup', 'catch', 'filter'):
        a = (line,)
    else:
        raise SyntaxError('instruction? ' + line)
    i = Ins(res, op, a, line)
    i.dbg = dbg
    return i


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.fn_src = {}
        self.fns = {}
        self.decls = {}
        self.meta = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                self.types[nm.strip()] = rest
            elif l.startswith('@'):
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = ', l)
                if m:
                    self.globals[m.group(1)] = l[m.end():]
            elif l.startswith('define '):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', l)
                body = []
                j = i + 1
                while lines[j] != '}':
                    body.append(lines[j])
                    j += 1
                self.fn_src[m.group(1)] = (l, body)
                i = j
            elif l.startswith('declare '):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', l)
                if m:
                    self.decls[m.group(1)] = l
            elif l.startswith('!') and ' = ' in l:
                k, v = l.split(' = ', 1)
                self.meta[k] = v
            elif l.startswith('attributes #'):
                k, v = l.split(' = ', 1)
                self.meta[k.split()[1]] = v
            i += 1
        self._tc = {}
        self._gc = {}

    def struct(self, name):
        if name not in self._tc:
            src = self.types[name]
            self._tc[name] = ptype(P(tokenize(src)))
        return self._tc[name]

    def resolve(self, t):
        while t[0] == 'n':
            t = self.struct(t[1])
        return t

    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16)
        if k == 'f':
            if t[1] == 80:
                return 16, 16
            return t[1] // 8, t[1] // 8
        if k == 'p':
            return 8, 8
        if k == 'a':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'v':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 's':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise SyntaxError('size of %r' % (t,))

    def field_off(self, t, idx):
        off = 0
        for n, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if n == idx:
                return off, e
            off += s
        raise IndexError

    def fn(self, name):
        if name in self.fns:
            return self.fns[name]
        if name not in self.fn_src:
            return None
        head, body = self.fn_src[name]
        f = Fn()
        f.name = name
        # params
        i = head.index(name + '(') + len(name)
        p = P(tokenize(head[i:]))
        p.expect('(')
        params = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                t = ptype(p)
                skip_attrs(p)
                nm = None
                if p.kind() == 'name':
                    nm = p.next()
                params.append((t, nm))
                if p.accept(')'):
                    break
                p.expect(',')
        cnt = 0
        fixed = []
        for t, nm in params:
            if nm is None:
                nm = '%%%d' % cnt
                cnt += 1
            fixed.append((t, nm))
        f.params = fixed
        f.attrs = head
        blocks = {}
        order = []
        cur = None
        pend = ''
        for l in body:
            s = l.strip()
            if not s or s.startswith(';') or s.startswith('#dbg'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):(\s|$)', l)
            if m and not l.startswith(' '):
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = '%entry'
                blocks[cur] = []
                order.append(cur)
            # joins for multi-line constructs
            if pend:
                pend += ' ' + s
                if self._complete(pend):
                    blocks[cur].append(parse_ins(pend))
                    pend = ''
                continue
            if not self._complete(s):
                pend = s
                continue
            if s.startswith(('cleanup', 'catch ', 'filter ')):
                continue
            blocks[cur].append(parse_ins(s))
        # unnamed entry label: number after params
        if order and order[0] == '%entry' and not any(nm == '%entry' for _, nm in fixed):
            f.raw = '%%%d' % cnt
        else:
            f.raw = None
        f.blocks = blocks
        f.order = order
        self.fns[name] = f
        return f

    @staticmethod
    def _complete(s):
        if s.startswith('switch') and s.count('[') != s.count(']'):
            return False
        if re.match(r'(%\S+ = )?invoke ', s) and ' unwind label ' not in s:
            return False
        return True

    def loc(self, dbg):
        """!dbg node -> 'file:line' (best effort; follows inlinedAt outermost-in)"""
        if dbg is None:
            return None
        m = self.meta.get(dbg)
        if not m:
            return None
        ln = re.search(r'line: (\d+)', m)
        sc = re.search(r'scope: (!\d+)', m)
        f = None
        s = sc.group(1) if sc else None
        seen = 0
        while s and seen < 20:
            sm = self.meta.get(s, '')
            fm = re.search(r'file: (!\d+)', sm)
            if fm:
                f = self.meta.get(fm.group(1), '')
                fn = re.search(r'filename: "([^"]*)"', f)
                f = fn.group(1) if fn else None
                break
            nm = re.search(r'scope: (!\d+)', sm)
            s = nm.group(1) if nm else None
            seen += 1
        return '%s:%s' % (f, ln.group(1) if ln else '?')

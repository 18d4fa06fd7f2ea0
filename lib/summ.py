"""Gated-SSA summariser: LLVM IR function -> closed-form abstract summary (return value, guarded store logs, events, traps).

Blocks are visited once in topological order with a path predicate kept as a BDD and values joined with ite at phis
(no path is enumerated, nothing is executed, no solver is called).  Loops whose exit test does not become a constant
within the unroll bound make the summary incomplete (the obligation is then reported as undecided, never as a violation).
"""
from fractions import Fraction
import os
import re
from terms import *
import llir


class Incomplete(Exception):
    pass


class Cat:
    """little-endian concatenation of scalars: [(bytes, D), ...]"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        # parts narrower than a word are kept as signed values of their width
        self.parts = [(s, signed_part(d, 8 * s)) if s in (1, 2, 4) and isinstance(d, D) else (s, d) for s, d in parts]


def signed_part(d, w):
    def f(x):
        c = cval(x) if isinstance(x, Poly) else None
        if c is not None and not isinstance(c, Fraction) and (1 << (w - 1)) <= c < (1 << w):
            return leaf(const(c - (1 << w)))
        return leaf(x)
    if d.var == INF:
        return f(d.leaf) if isinstance(d.leaf, Poly) else d
    return apply1(('signed', w), f, d)


FLAGW = 6


class BVec:
    """flag word: FLAGW low bits as BDDs (higher bits are zero)"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


def bv_of(v):
    """D or BVec -> list of bit BDDs"""
    if isinstance(v, BVec):
        return v.b
    out = []
    for k in range(FLAGW):
        def f(x, k=k):
            if x is UNDEF_V:
                return F
            if isinstance(x, bool):
                return T if (x and k == 0) else F
            if not isinstance(x, Poly):
                raise Incomplete('flag bits of pointer')
            c = cval(x)
            if c is not None and not 0 <= c < (1 << FLAGW):
                raise Incomplete('flag constant out of range')
            return bit(x, k)
        out.append(apply1(('bvof', k), f, v))
    return out


def bv_num(v):
    """BVec -> D"""
    if not isinstance(v, BVec):
        return v
    r = leaf(ZERO)
    for k, b in enumerate(v.b):
        r = add(r, ite(b, leaf(const(1 << k)), leaf(ZERO)))
    return r


class Agg:
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = el


# ------------------------------------------------------------------------------------------- leaf operations
def L(p):
    return leaf(p)


def isundef(*xs):
    return any(x is UNDEF_V for x in xs)


def lf(f):
    def g(a, b):
        if isundef(a, b):
            return UNDEF
        if isinstance(a, Poly) and isinstance(b, Poly):
            return leaf(f(a, b))
        raise Incomplete('arithmetic on %s, %s' % (type(a).__name__, type(b).__name__))
    return g


def num(a):
    """boolean leaf -> 0/1"""
    return apply1('num', lambda x: leaf(ONE) if x is True else leaf(ZERO) if x is False else leaf(x), a)


def f_add(a, b):
    if isundef(a, b):
        return UNDEF
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(b, Ptr):
            a, b = b, a
        if isinstance(b, Poly):
            return leaf(ptr(a.base, a.key, padd(a.off, b)))
        raise Incomplete('ptr+ptr')
    return leaf(padd(a, b))


def f_sub(a, b):
    if isundef(a, b):
        return UNDEF
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.base == b.base and a.key == b.key:
            return leaf(psub(a.off, b.off))
        if a is NULL and b is NULL:
            return leaf(ZERO)
        return leaf(var(atom('app', ('ptrdiff', a, b), True)))
    if isinstance(a, Ptr):
        return leaf(ptr(a.base, a.key, psub(a.off, b)))
    if isinstance(b, Ptr):
        return leaf(var(atom('app', ('ptrneg', a, b), True)))
    return leaf(psub(a, b))


f_mul = lf(pmul)


def f_fdivr(a, b):
    if isundef(a, b):
        return UNDEF
    return leaf(pmul(a, pinv(b)))


def fdiv_sym(a, b):
    """floor division by a possibly symbolic positive divisor"""
    c = cval(b)
    if c is not None:
        if c > 0 and not isinstance(c, Fraction):
            return leaf(floordiv(a, c))
        if c < 0:
            return leaf(floordiv(pneg(a), -c))
        return UNDEF
    # exact monomial division
    if len(b.t) == 1:
        (m, c), = b.t.items()
        q = pmul(a, pinv(b))
        if all(e > 0 for mm in q.t for _, e in mm) and all(not isinstance(cc, Fraction) for cc in q.t.values()):
            return leaf(q)
    if a is ZERO:
        return leaf(ZERO)
    if a is b:
        return leaf(ONE)
    return leaf(var(atom('fdivs', (a, b), True, p_nonneg(a))))


def f_sdiv(a, b):
    if isundef(a, b):
        return UNDEF
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        raise Incomplete('sdiv')
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        if cb == 0:
            return UNDEF
        q = abs(ca) // abs(cb)
        return leaf(const(q if (ca >= 0) == (cb > 0) else -q))
    if cb is not None:
        if cb < 0:
            return neg(f_sdiv(a, const(-cb)))
        # exact
        if all(not isinstance(c, Fraction) and c % cb == 0 for c in a.t.values()):
            return leaf(floordiv(a, cb))
        if p_nonneg(a):
            return leaf(floordiv(a, cb))
        return ite(c_ge0_int(a), leaf(floordiv(a, cb)), leaf(pneg(floordiv(pneg(a), cb))))
    q = fdiv_sym(a, b)
    if q.leaf is UNDEF_V or p_nonneg(a) or not any(ATOMS[x].kind == 'fdivs' for m in q.leaf.t for x, _ in m):
        return q
    return ite(c_ge0_int(a), q, neg(fdiv_sym(pneg(a), b)))


def f_udiv(a, b):
    if isundef(a, b):
        return UNDEF
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        raise Incomplete('udiv')
    return fdiv_sym(a, b)


def neg(d):
    return apply1('neg', lambda x: UNDEF if x is UNDEF_V else leaf(pneg(x)), d)


def add(a, b):
    return apply2('add', f_add, a, b)


def sub(a, b):
    return apply2('sub', f_sub, a, b)


def mul(a, b):
    return apply2('mul', f_mul, a, b)


def f_shl(a, b):
    if isundef(a, b):
        return UNDEF
    if not isinstance(a, Poly):
        raise Incomplete('shl ptr')
    return leaf(pmul(a, pow2(b)))


def mk_shr(width, arith):
    def f(a, b):
        if isundef(a, b):
            return UNDEF
        if not isinstance(a, Poly):
            raise Incomplete('shr ptr')
        cb = cval(b)
        ca = cval(a)
        if cb is not None and not 0 <= cb < width:
            return UNDEF
        if cb is not None:
            if ca is not None:
                if not arith and ca < 0:
                    ca += 1 << width
                return leaf(const(ca >> cb))
            if cb == width - 1:
                return ite(c_ge0_int(a), leaf(ZERO), leaf(const(-1 if arith else 1)))
            return leaf(floordiv(a, 1 << cb))
        return fdiv_sym(a, pow2(b))
    return f


def bit(p, k):
    """bit k of integer polynomial p as D bool"""
    c = cval(p)
    if c is not None:
        return T if (int(c) >> k) & 1 else F
    # constant low part trick: all coefs divisible by 2^(k+1) drop
    t = {}
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            t[m] = c
        else:
            r = c % (1 << (k + 1))
            if r:
                t[m] = r
    q = mk(t)
    c = cval(q)
    if c is not None:
        return T if (int(c) >> k) & 1 else F
    # q divisible by 2^s -> bit k-s
    s = 0
    while s < k and all(not isinstance(c, Fraction) and c % 2 == 0 for c in q.t.values()):
        q = mk({m: c // 2 for m, c in q.t.items()})
        s += 1
    k -= s
    if k == 0:
        # parity: constant part flips
        c0 = q.t.get((), 0)
        if c0 == 1:
            q = mk({m: c for m, c in q.t.items() if m})
            return b_not(bit(q, 0))
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'bitop':
                o, x, y = a.args
                bx, by = bit(x, k), bit(y, k)
                return b_and(bx, by) if o == 'and' else b_or(bx, by) if o == 'or' else b_xor(bx, by)
            if a.kind == 'fdiv' and (a.args[1] & (a.args[1] - 1)) == 0:
                return bit(a.args[0], k + a.args[1].bit_length() - 1)
    return bvar('bit', q, k)


def bitnum(p, k):
    return num(bit(p, k))


def f_bitop(op, width):
    def f(a, b):
        if isundef(a, b):
            return UNDEF
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                r = (a and b) if op == 'and' else (a or b) if op == 'or' else (a != b)
                return T if r else F
            raise Incomplete('mixed bool/int bitop')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Incomplete('bitop on pointer')
        ca, cb = cval(a), cval(b)
        if ca is not None and cb is not None:
            r = (ca & cb) if op == 'and' else (ca | cb) if op == 'or' else (ca ^ cb)
            return leaf(const(r))
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if a is b:
            return leaf(a) if op in ('and', 'or') else leaf(ZERO)
        if cb is not None:
            full = (1 << width) - 1
            m = cb & full
            if op == 'and':
                if m == 0:
                    return leaf(ZERO)
                if m == full:
                    return leaf(a)
                if m & (m + 1) == 0:      # low mask
                    k = m.bit_length()
                    if k >= 31:
                        return leaf(a)     # zero extension of a (non negative) value
                    if k <= 8:
                        pass
                    else:
                        return leaf(psub(a, pscale(floordiv(a, 1 << k), 1 << k)))
                inv = full ^ m
                if inv & (inv + 1) == 0 and inv.bit_length() < 31:   # high mask: clear low bits
                    k = inv.bit_length()
                    return leaf(pscale(floordiv(a, 1 << k), 1 << k))
                if bin(m).count('1') <= 8:
                    r = leaf(ZERO)
                    for k in range(width):
                        if m >> k & 1:
                            r = add(r, ite(bit(a, k), leaf(const(1 << k)), leaf(ZERO)))
                    return r
                if bin(inv).count('1') <= 8:
                    r = leaf(a)
                    for k in range(width):
                        if inv >> k & 1:
                            r = sub(r, ite(bit(a, k), leaf(const(1 << k)), leaf(ZERO)))
                    return r
            if op == 'or':
                if m == 0:
                    return leaf(a)
                if bin(m).count('1') <= 8:
                    r = leaf(a)
                    for k in range(width):
                        if m >> k & 1:
                            r = add(r, ite(bit(a, k), leaf(ZERO), leaf(const(1 << k))))
                    return r
                if m == full:
                    return leaf(const(-1))
            if op == 'xor':
                if m == 0:
                    return leaf(a)
                if cb < -1:
                    return sub(leaf(const(-1)), f(a, const(~cb)))
                if m == full:
                    return leaf(psub(const(-1), a))
                if bin(m).count('1') <= 8:
                    r = leaf(a)
                    for k in range(width):
                        if m >> k & 1:
                            r = add(r, ite(bit(a, k), leaf(const(-(1 << k))), leaf(const(1 << k))))
                    return r
        if a.id > b.id:
            a, b = b, a
        return leaf(var(atom('bitop', (op, a, b), True)))
    return f


def f_icmp(pred):
    def f(a, b):
        if isundef(a, b):
            return UNDEF
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                x, y = int(a), int(b)
                if pred[0] == 's':
                    x, y = -x, -y
                r = {'eq': x == y, 'ne': x != y, 'gt': x > y, 'lt': x < y, 'ge': x >= y, 'le': x <= y}[pred if len(pred) == 2 else pred[1:]]
                return T if r else F
            raise Incomplete('icmp bool/int')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return icmp_ptr(pred, a, b)
        d = psub(a, b)
        if pred in ('eq', 'ne'):
            r = eq0(d)
            return r if pred == 'eq' else b_not(r)
        if pred == 'slt':
            return b_not(c_ge0_int(d))
        if pred == 'sge':
            return c_ge0_int(d)
        if pred == 'sgt':
            return b_not(c_ge0_int(pneg(d)))
        if pred == 'sle':
            return c_ge0_int(pneg(d))
        if pred == 'ult':
            return ult(a, b)
        if pred == 'uge':
            return b_not(ult(a, b))
        if pred == 'ugt':
            return ult(b, a)
        if pred == 'ule':
            return b_not(ult(b, a))
        raise Incomplete('icmp ' + pred)
    return f


def eq0(d):
    """integer d == 0, seeing through bitwise combinations of packed comparisons"""
    if len(d.t) == 1:
        (m, c), = d.t.items()
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'bitop' and a.args[0] == 'xor':
                return eq0(psub(a.args[1], a.args[2]))
            if a.kind == 'bitop' and a.args[0] == 'or':
                return b_and(eq0(a.args[1]), eq0(a.args[2]))
    return c_eq0(d, True)


def ult(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        m = 1 << 64
        return T if (ca % m) < (cb % m) else F
    lt = b_not(c_ge0_int(psub(a, b)))
    if cb is not None:
        nn = c_ge0_int(a)
        if cb >= 0:
            return b_and(nn, lt)
        return b_or(nn, lt)
    if ca is not None:
        # ca <u b  : b negative (huge) or b > ca
        nb = b_not(c_ge0_int(b))
        if ca >= 0:
            return b_or(lt, nb)
        return b_and(lt, nb)
    return lt


def icmp_ptr(pred, a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        return bvar('pcmp', pred, a, b)
    if a.base == b.base and a.key == b.key:
        d = psub(a.off, b.off)
        if pred == 'eq':
            return c_eq0(d, True)
        if pred == 'ne':
            return b_not(c_eq0(d, True))
        if pred in ('ult', 'slt'):
            return b_not(c_ge0_int(d))
        if pred in ('uge', 'sge'):
            return c_ge0_int(d)
        if pred in ('ugt', 'sgt'):
            return b_not(c_ge0_int(pneg(d)))
        return c_ge0_int(pneg(d))
    if pred in ('eq', 'ne'):
        if a.base == b.base and len(a.key) == len(b.key):
            c = T
            for x, y in zip(a.key, b.key):
                c = b_and(c, key_eq(x, y))
            c = b_and(c, c_eq0(psub(a.off, b.off), True))
            return c if pred == 'eq' else b_not(c)
        if a is NULL or b is NULL:
            o = b if a is NULL else a
            if o.base[0] in ('ld', 'arg'):
                c = bvar('isnull', o)
                return c if pred == 'eq' else b_not(c)
            return F if pred == 'eq' else T
        return F if pred == 'eq' else T
    return bvar('pcmp', pred, a, b)


def key_eq(x, y):
    if x is y:
        return T
    if isinstance(x, Poly) and isinstance(y, Poly):
        return c_eq0(psub(x, y), True)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return icmp_ptr('eq', x, y)
    return F


def f_fcmp(pred):
    def f(a, b):
        if isundef(a, b):
            return UNDEF
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Incomplete('fcmp')
        d = psub(a, b)
        p = pred[1:]
        if pred == 'ord':
            return T
        if pred == 'uno':
            return F
        if p == 'eq':
            return c_eq0(d, False)
        if p == 'ne':
            return b_not(c_eq0(d, False))
        if p == 'lt':
            return c_lt0_real(d)
        if p == 'ge':
            return b_not(c_lt0_real(d))
        if p == 'gt':
            return c_lt0_real(pneg(d))
        if p == 'le':
            return b_not(c_lt0_real(pneg(d)))
        raise Incomplete('fcmp ' + pred)
    return f


PIN = None      # when set: a function (name, type, key) -> integer; unknown integers of the witness become these constants


def app(name, args, isint, nonneg=False):
    """uninterpreted application lifted over leaves"""
    def f(*ls):
        ls = tuple(const(1) if x is True else const(0) if x is False else x for x in ls)
        if PIN and isint and all(isinstance(x, Poly) and cval(x) is not None for x in ls):
            return leaf(const(PIN(name.lstrip('@'), None, (name,) + tuple(str(cval(x)) for x in ls))))
        return leaf(var(atom('app', (name,) + ls, isint, nonneg)))
    return applyn(('app', name, isint), f, list(args))


def app_ptr(name, args):
    def f(*ls):
        ls = tuple(const(1) if x is True else const(0) if x is False else x for x in ls)
        return leaf(ptr(('call', name), ls, ZERO))
    return applyn(('appp', name), f, list(args))


def f_fabs(x):
    if x is UNDEF_V:
        return UNDEF
    c = cval(x)
    if c is not None:
        return leaf(const(abs(c)))
    if p_nonneg(x):
        return leaf(x)
    l = lead(x)
    g = abs(l)
    q = pscale(x, Fraction(1) / l)
    if len(q.t) == 1:
        (m, cc), = q.t.items()
        if all(ATOMS[a].nonneg for a, e in m):
            return leaf(pscale(q, g))
    return leaf(pscale(var(atom('fabs', (q,), False, True)), g))


def f_trunc_int(x):
    if x is UNDEF_V:
        return UNDEF
    c = cval(x)
    if c is not None:
        return leaf(const(int(c)))
    if p_isint(x):
        return leaf(x)
    return leaf(var(atom('ftrunc', (x,), True, p_nonneg(x))))


def f_floor(name):
    def f(x):
        if x is UNDEF_V:
            return UNDEF
        c = cval(x)
        if c is not None:
            import math
            return leaf(const(math.floor(c) if name == 'floor' else math.ceil(c)))
        if p_isint(x):
            return leaf(x)
        if name == 'ceil':
            return leaf(pneg(var(atom('ffloor', (pneg(x),), True, False))))
        return leaf(var(atom('ffloor', (x,), True, p_nonneg(x))))
    return f


# ------------------------------------------------------------------------------------------- memory
class Entry:
    __slots__ = ('g', 'key', 'off', 'oc', 'size', 'val', 'ty', 'dbg', 'kind', 'src')


class Summary:
    def __init__(self):
        self.logs = {}       # base -> [Entry]
        self.events = []     # (guard, name, args, dbg)
        self.trap = F
        self.traps = []
        self.assume = T
        self.ret = None
        self.retty = None
        self.dead = F


QUIET = {'puts', 'printf', 'putchar', 'fwrite', 'fflush', 'fputs', 'fputc', 'fprintf', '__cxa_atexit'}
QUIET_CXX = ('_ZNSt7__cxx1112basic_string', '_ZNKSt7__cxx1112basic_string', '_ZNSs', '_ZNKSs', '_ZNSo', '_ZNSi', '_ZStls', '_ZSt16__ostream_insert', '_ZSt4endl', '_ZSt5flush', '_ZNSt8ios_base', '_ZNSt9basic_ios',
             '_ZNSt7__cxx1119basic_ostringstream', '_ZNSt7__cxx1118basic_stringstream', '_ZNSt7__cxx1115basic_stringbuf', '_ZNSt6locale', '_ZNSt13basic_ostream', '_ZStrs', '_ZN3fmt', '_ZNKSt5ctype', '_ZNSt5ctype', '_ZSt16__throw_bad_cast', '_ZNSt12out_of_range', '_ZNSt13runtime_error', '_ZNSt16invalid_argument', '_ZNSt11logic_error', '_ZNSt12length_error', '_ZNSt12domain_error')
NOTRAP = ('llvm.lifetime', 'llvm.dbg', 'llvm.experimental', 'llvm.donothing', 'llvm.prefetch', 'llvm.stack', 'llvm.invariant', 'llvm.var.annotation')


class Exec:
    def __init__(self, mod, externs=None, max_unroll=70, max_steps=400000, ctx='', order_facts=None):
        self.m = mod
        self.S = Summary()
        self.fresh = 0
        self.max_unroll = max_unroll
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.ctx = ctx
        self.names = set()
        self.depinfo = {}

    # ---------------------------------------------------------------- memory access
    def log(self, base):
        l = self.S.logs.get(base)
        if l is None:
            l = self.S.logs[base] = []
        return l

    def is_local(self, base):
        # static variables of functions are private; the summary starts at their initialisation
        return base[0] in ('alloca', 'heap') or (base[0] == 'glob' and base[1].lstrip('@').startswith(('_ZGVZ', '_ZZ')))

    def init_val(self, p, size, ty):
        """initial content of memory"""
        base = p.base
        if base[0] == 'glob':
            v = self.global_const(base[1], p, size, ty)
            if v is not None:
                return v
        if base[0] == 'null':
            return UNDEF
        if self.is_local(base):
            return UNDEF
        k = ty[0]
        if k == 'i' and base[0] in ('call', 'arg'):
            nm = base[1]
            if size == 8 and 'slot' in nm and cval(p.off) in (0, 8):
                return leaf(ZERO)
            if size == 8 and elem_kind(nm) == 'f64':
                return leaf(var(atom('load', (base, p.key, p.off, ('f', 64)), False)))
            if size == 8 and elem_kind(nm) == 'i32':
                t4 = ('i', 32)
                return Cat([(4, self.init_val(p, 4, t4)), (4, self.init_val(ptr(base, p.key, padd(p.off, const(4))), 4, t4))])
        if k == 'p' and base[0] == 'call' and 'slot' in base[1]:
            return leaf(NULL)      # empty shared_ptr header of a slice
        if k == 'p':
            return leaf(ptr(('ld', base, p.key, p.off), (), ZERO))
        if k == 'i' and ty[1] == 1:
            return bvar('ldb', base, p.key, p.off)
        if k == 'i' and base[0] in ('call', 'arg') and base[1].startswith('flag'):
            x = var(atom('load', (base, p.key, p.off, ('i', 32)), True, True))
            return BVec([bvar('bit', x, j) for j in range(FLAGW)])
        return leaf(var(atom('load', (base, p.key, p.off, ty), k == 'i', k == 'i' and ty[1] == 8)))

    def read(self, p, size, ty, upto=None):
        """p: Ptr leaf"""
        lst = self.S.logs.get(p.base)
        if not lst:
            return self.init_val(p, size, ty)
        n = len(lst) if upto is None else upto
        return self._read(lst, n, p, size, ty, T)

    def _read(self, lst, n, p, size, ty, path):
        chain = []
        rest = path
        base_val = None
        i = n - 1
        pc = cval(p.off)
        pk = p.key
        while i >= 0:
            e = lst[i]
            i -= 1
            c = e.g
            dc = None
            if pc is not None and e.oc is not None:
                dc = pc - e.oc
                if e.size is not None and (dc >= e.size or dc + size <= 0):
                    continue
            if len(e.key) != len(pk):
                continue
            skip = False
            for x, y in zip(e.key, p.key):
                if x is y:
                    continue
                q = key_eq(x, y)
                if q is F:
                    skip = True
                    break
                c = b_and(c, q)
            if skip:
                continue
            c2 = b_and(rest, c)
            if c2 is F:
                continue
            if dc is None:
                d = psub(p.off, e.off)
                dc = cval(d)
            if dc is not None:
                if e.size is not None and (dc >= e.size or dc + size <= 0):
                    continue
                if e.kind == 'store' and dc == 0 and e.size == size:
                    v = e.val
                    if isinstance(v, Cat):
                        v = self.from_cat(v, 0, size, ty)
                elif e.kind == 'store':
                    if 0 <= dc and dc + size <= e.size:
                        v = self.extract(e.val, e.size, dc, size, ty)
                    else:
                        # partial overlap: assemble bytewise
                        if c2 is rest or True:
                            v = self.assemble(lst, i + 2, p, size, ty, e)
                elif e.kind == 'set':
                    if 0 <= dc and dc + size <= e.size:
                        v = self.setval(e.val, size, ty)
                    else:
                        v = self.assemble(lst, i + 2, p, size, ty, e)
                else:
                    if 0 <= dc and dc + size <= e.size:
                        sp, sn = e.src
                        def rd(l, dc=dc, sn=sn):
                            if l is UNDEF_V:
                                return UNDEF
                            return self.read(ptr(l.base, l.key, padd(l.off, const(dc))), size, ty, sn.get(l.base, 0))
                        v = self.map_ptr(sp, rd)
                    else:
                        v = self.assemble(lst, i + 2, p, size, ty, e)
                eqc = T
            else:
                # symbolic offset difference
                if e.kind != 'store' or e.size != size:
                    # assume accesses are element aligned w.r.t. each other: overlapping requires equality modulo layout
                    if e.kind == 'set':
                        inside = T
                        if e.size is None:
                            raise Incomplete('memset of symbolic size')
                        inside = b_and(c_ge0_int(d), b_not(c_ge0_int(psub(d, const(e.size - size + 1)))))
                        if inside is F:
                            continue
                        eqc = inside
                        v = self.setval(e.val, size, ty)
                    elif e.kind == 'copy':
                        sp, sn = e.src
                        inside = b_and(c_ge0_int(d), b_not(c_ge0_int(psub(d, const(e.size - size + 1)))))
                        if inside is F:
                            continue
                        eqc = inside
                        def rd2(l, d=d, sn=sn):
                            if l is UNDEF_V:
                                return UNDEF
                            return self.read(ptr(l.base, l.key, padd(l.off, d)), size, ty, sn.get(l.base, 0))
                        v = self.map_ptr(sp, rd2)
                    else:
                        eqc = c_eq0(d, True)
                        v = self.extract(e.val, e.size, 0, min(size, e.size), ty)
                else:
                    eqc = c_eq0(d, True)
                    v = e.val
                    if isinstance(v, Cat):
                        v = self.from_cat(v, 0, size, ty)
                if eqc is F:
                    continue
                c2 = b_and(c2, eqc)
                if c2 is F:
                    continue
            chain.append((c2, v))
            rest = b_and(rest, b_not(c2))
            if rest is F:
                break
        if rest is F and chain:
            res = chain[-1][1]
            chain = chain[:-1]
        else:
            res = self.init_val(p, size, ty)
        for c, v in reversed(chain):
            res = self.vite(c, v, res)
        return res

    def setval(self, bd, size, ty):
        c = cval(bd.leaf) if bd.var == INF and isinstance(bd.leaf, Poly) else None
        if c is None:
            raise Incomplete('memset of symbolic byte')
        c &= 255
        if c == 0:
            return self.zero(ty)
        if ty[0] == 'i':
            v = int.from_bytes(bytes([c] * size), 'little', signed=True)
            return leaf(const(v))
        if ty[0] == 'f':
            import struct
            return leaf(const(nice(struct.unpack('<d' if size == 8 else '<f', bytes([c] * size))[0])))
        raise Incomplete('memset pattern')

    def zero(self, ty):
        if ty[0] == 'p':
            return leaf(NULL)
        if ty == ('i', 1):
            return F
        return leaf(ZERO)

    def extract(self, v, vsize, off, size, ty):
        if isinstance(v, Cat):
            return self.from_cat(v, off, size, ty)
        if isinstance(v, Agg):
            raise Incomplete('extract from aggregate')
        if isinstance(v, BVec):
            if off == 0:
                return v
            return leaf(ZERO)

        def f(x):
            if x is UNDEF_V:
                return UNDEF
            if isinstance(x, bool):
                x = const(int(x))
            if isinstance(x, Ptr):
                if off == 0 and size == 8:
                    return leaf(x)
                if x is NULL:
                    return leaf(ZERO)
                raise Incomplete('byte of pointer')
            c = cval(x)
            if c is not None and not isinstance(c, Fraction):
                w = (c >> (8 * off)) & ((1 << (8 * size)) - 1)
                if ty[0] == 'i' and w >> (8 * size - 1):
                    w -= 1 << (8 * size)
                return leaf(const(w))
            if off == 0:
                return leaf(x)
            return leaf(var(atom('extract', (x, off, size), True)))
        return apply1(('extract', off, size, ty), f, v)

    def from_cat(self, v, off, size, ty):
        pos = 0
        sel = []
        for s, d in v.parts:
            if pos < off + size and pos + s > off:
                lo = max(off, pos)
                hi = min(off + size, pos + s)
                sel.append((hi - lo, d if (hi - lo == s) else self.extract(d, s, lo - pos, hi - lo, ('i', 8 * (hi - lo)))))
            pos += s
        if len(sel) == 1:
            d = sel[0][1]
            return d
        return Cat(sel)

    def assemble(self, lst, n, p, size, ty, e):
        """piecewise read across entries with different extents"""
        cuts = {0, size}
        for k in range(n):
            x = lst[k]
            if x.size is None or len(x.key) != len(p.key):
                continue
            d = cval(psub(x.off, p.off))
            if d is None:
                continue
            for q in (d, d + x.size):
                if 0 < q < size:
                    cuts.add(q)
        cuts = sorted(cuts)
        if len(cuts) == 2:
            raise Incomplete('overlapping access')
        parts = []
        for a, b in zip(cuts, cuts[1:]):
            t = ('i', 8 * (b - a))
            v = self._read(lst, n, ptr(p.base, p.key, padd(p.off, const(a))), b - a, t, T)
            if isinstance(v, Cat):
                parts += v.parts
            else:
                parts.append((b - a, v))
        # all constant?
        tot = 0
        ok = True
        sh = 0
        for s, d in parts:
            if d.var == INF and isinstance(d.leaf, Poly) and cval(d.leaf) is not None and not isinstance(cval(d.leaf), Fraction):
                tot |= (cval(d.leaf) & ((1 << (8 * s)) - 1)) << sh
            else:
                ok = False
            sh += 8 * s
        if ok:
            if ty[0] == 'p':
                if tot == 0:
                    return leaf(NULL)
            elif ty[0] == 'f' and tot == 0:
                return leaf(ZERO)
            elif ty[0] == 'i':
                if tot >> (8 * size - 1):
                    tot -= 1 << (8 * size)
                return leaf(const(tot))
        return Cat(parts)

    def vite(self, c, a, b):
        if a is b:
            return a
        if c is T:
            return a
        if c is F:
            return b
        if isinstance(a, BVec) or isinstance(b, BVec):
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return BVec([ite(c, x, y) for x, y in zip(bv_of(a), bv_of(b))])
        if isinstance(a, Cat) or isinstance(b, Cat):
            return self.ite_cat(c, a, b)
        if isinstance(a, Agg) or isinstance(b, Agg):
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return Agg([self.vite(c, x, y) for x, y in zip(a.el, b.el)])
        return ite(c, a, b)

    def ite_cat(self, c, a, b):
        def cuts(v):
            if isinstance(v, Cat):
                r = [0]
                for s, _ in v.parts:
                    r.append(r[-1] + s)
                return r
            return None
        ca, cb = cuts(a), cuts(b)
        tot = (ca or cb)[-1]
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        cs = sorted(set((ca or []) + (cb or [])))
        parts = []
        for lo, hi in zip(cs, cs[1:]):
            t = ('i', 8 * (hi - lo))
            x = self.extract(a, tot, lo, hi - lo, t)
            y = self.extract(b, tot, lo, hi - lo, t)
            parts.append((hi - lo, ite(c, x, y)))
        return Cat(parts)

    def map_ptr(self, d, f):
        if d.var == INF:
            return f(d.leaf)
        memo = {}

        def go(x):
            r = memo.get(x.id)
            if r is None:
                if x.var == INF:
                    r = f(x.leaf)
                else:
                    r = self.vite(node(x.var, T, F), go(x.hi), go(x.lo))
                memo[x.id] = r
            return r
        return go(d)

    def load(self, pd, ty, P):
        ty = self.m.resolve(ty)
        if ty[0] in ('s', 'a', 'v'):
            el = []
            n = len(ty[1]) if ty[0] == 's' else ty[1]
            for i in range(n):
                if ty[0] == 's':
                    o, t = self.m.field_off(ty, i)
                else:
                    t = ty[2]
                    o = i * self.m.size_align(t)[0]
                el.append(self.load(add(pd, leaf(const(o))), t, P))
            return Agg(el)
        size = self.m.size_align(ty)[0]

        def f(l):
            if l is UNDEF_V or l is NULL:
                return UNDEF
            if not isinstance(l, Ptr):
                raise Incomplete('load through non pointer')
            return self.read(l, size, ty)
        v = self.map_ptr(self.restrict(pd, P), f)
        if isinstance(v, BVec):
            return v
        if ty == ('i', 1) and not isinstance(v, (Cat, Agg)):
            v = apply1('tobool', lambda x: T if x is True else F if x is False else UNDEF if x is UNDEF_V else bit(x, 0), v)
        if ty == ('i', 8) and not isinstance(v, (Cat, Agg)):
            v = num(v)
        if ty == ('p',) and not isinstance(v, (Cat, Agg)):
            v = apply1('asptr', lambda x: leaf(NULL) if isinstance(x, Poly) and cval(x) == 0 else leaf(x), v)
        return v

    def restrict(self, d, P):
        """drop pointer alternatives excluded by the path predicate"""
        if d.var == INF or P is T:
            return d
        cs = [(g, l) for g, l in cases(d) if b_and(g, P) is not F]
        if not cs:
            return UNDEF
        r = leaf(cs[-1][1])
        for g, l in cs[:-1]:
            r = ite(g, leaf(l), r)
        return r

    def store(self, pd, v, ty, P, dbg):
        ty = self.m.resolve(ty)
        if isinstance(v, Agg):
            n = len(v.el)
            for i in range(n):
                if ty[0] == 's':
                    o, t = self.m.field_off(ty, i)
                else:
                    t = ty[2]
                    o = i * self.m.size_align(t)[0]
                self.store(add(pd, leaf(const(o))), v.el[i], t, P, dbg)
            return
        if ty[0] in ('s', 'a', 'v'):
            if v is UNDEF:
                return
            if v.var == INF and v.leaf is ZERO:
                size = self.m.size_align(ty)[0]
                self.memset(pd, leaf(ZERO), size, P, dbg)
                return
            raise Incomplete('aggregate store')
        size = self.m.size_align(ty)[0]
        if isinstance(v, Cat):
            o = 0
            for s, d in v.parts:
                self.put(add(pd, leaf(const(o))), s, d, ('i', 8 * s), P, dbg, 'store')
                o += s
            return
        self.put(pd, size, v, ty, P, dbg, 'store')

    def put(self, pd, size, v, ty, P, dbg, kind, src=None):
        for g, l in cases(pd):
            gg = b_and(P, g)
            if gg is F or l is UNDEF_V or l is NULL:
                if l is NULL and gg is not F:
                    self.S.trap = b_or(self.S.trap, gg)
                continue
            if not isinstance(l, Ptr):
                raise Incomplete('store through non pointer')
            e = Entry()
            e.g = gg
            e.key = l.key
            e.off = l.off
            e.oc = cval(l.off)
            e.size = size
            e.val = v
            e.ty = ty
            e.dbg = dbg
            e.kind = kind
            e.src = src
            self.log(l.base).append(e)

    def memset(self, pd, bd, size, P, dbg):
        self.put(pd, size, bd, None, P, dbg, 'set')

    def memcpy(self, pd, sd, size, P, dbg):
        if size == 0:
            return
        if size in (1, 2, 4, 8):
            t = ('i', 8 * size)
            # small copies: go through values
            v = self.load(sd, t, P)
            self.store(pd, v, t, P, dbg)
            return
        snap = {b: len(l) for b, l in self.S.logs.items()}
        self.put(pd, size, None, None, P, dbg, 'copy', (self.restrict(sd, P), snap))

    # ---------------------------------------------------------------- constants
    def global_const(self, name, p, size, ty):
        g = self.m._gc.get(name)
        if g is None:
            src = self.m.globals.get(name)
            kw = 'global' if name.lstrip('@').startswith(('_ZGVZ', '_ZZ')) and src is not None and 'constant' not in src.split(' ')[:12] else 'constant'
            if src is None or kw not in src.split(' ')[:12] or re.match(r'(\w+ )*external ', src):
                self.m._gc[name] = g = False
            else:
                i = re.search(r'\b%s ' % kw, src).end()
                pp = llir.P(llir.tokenize(src[i:]))
                t = llir.ptype(pp)
                v = llir.pvalue(pp, t)
                cells = []
                self.flat(t, v, 0, cells)
                self.m._gc[name] = g = (cells, {x[0]: x for x in cells})
        if g is False:
            return None
        c = cval(p.off)
        cells, bypos = g
        if c is None:
            # symbolic index into a constant table: ite chain over entries
            cells = [x for x in cells if x[1] == size]
            if not cells or len(cells) > 600:
                return None
            r = UNDEF
            for o, s, tt, vv in reversed(cells):
                val = self.constv(vv, tt)
                r = ite(c_eq0(psub(p.off, const(o)), True), val, r)
            return r
        x = bypos.get(c)
        if x is not None and x[1] == size:
            return self.constv(x[3], x[2])
        for o, s, tt, vv in cells:
            if o <= c and c + size <= o + s:
                x = self.constv(vv, tt)
                return self.extract(x, s, c - o, size, ty)
        if all(x[3] == ('int', 0) or x[3] == ('zero',) for x in cells if c <= x[0] < c + size):
            return self.zero(ty)
        parts = [(s, self.constv(vv, tt)) for o, s, tt, vv in cells if c <= o < c + size]
        if sum(s for s, _ in parts) == size:
            return Cat(parts)
        return None

    def flat(self, t, v, off, out):
        t = self.m.resolve(t)
        if t[0] in ('a', 's', 'v'):
            n = len(t[1]) if t[0] == 's' else t[1]
            if v[0] == 'cstr':
                v = ('agg', [(None, ('int', c)) for c in self.cstr(v[1])])
            for i in range(n):
                if t[0] == 's':
                    o, et = self.m.field_off(t, i)
                else:
                    et = t[2]
                    o = i * self.m.size_align(et)[0]
                if v[0] == 'agg':
                    ev = v[1][i][1]
                elif v[0] in ('zero', 'undef'):
                    ev = v
                elif v[0] == 'cstr':
                    ev = ('int', self.cstr(v[1])[i])
                else:
                    raise Incomplete('global initialiser')
                self.flat(et, ev, off + o, out)
            return
        out.append((off, self.m.size_align(t)[0], t, v))

    @staticmethod
    def cstr(s):
        s = s[2:-1] if s.startswith('c') else s[1:-1]
        out = []
        i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return out

    def constv(self, v, t):
        t = self.m.resolve(t)
        k = v[0]
        if k == 'int':
            if t == ('i', 1):
                return T if v[1] else F
            return leaf(const(v[1]))
        if k == 'fp':
            if v[1] is None:
                raise Incomplete('fp80 constant')
            n = nice(v[1])
            if n is None:
                return leaf(var(atom('app', ('fpconst:' + repr(v[1]),), False)))
            return leaf(const(n))
        if k == 'null':
            return leaf(NULL)
        if k == 'undef':
            if t[0] in ('s', 'a', 'v'):
                n = len(t[1]) if t[0] == 's' else t[1]
                return Agg([self.constv(v, t[1][i] if t[0] == 's' else t[2]) for i in range(n)])
            return UNDEF
        if k == 'zero':
            if t[0] in ('s', 'a', 'v'):
                n = len(t[1]) if t[0] == 's' else t[1]
                return Agg([self.constv(v, t[1][i] if t[0] == 's' else t[2]) for i in range(n)])
            return self.zero(t)
        if k == 'glob':
            return leaf(ptr(('glob', v[1]), (), ZERO))
        if k == 'agg':
            return Agg([self.constv(x, tt) for tt, x in v[1]])
        if k == 'gep':
            return self.gep(v[1], [(tt, self.constv(x, tt)) for tt, x in v[2]])
        if k == 'cast':
            x = self.constv(v[3], v[2])
            return x
        raise Incomplete('constant ' + k)

    # ---------------------------------------------------------------- evaluation
    def gep(self, bt, ops):
        p = ops[0][1]
        if isinstance(p, (Cat, Agg)):
            raise Incomplete('gep base')
        sz = self.m.size_align(bt)[0]
        off = mul(ops[1][1], leaf(const(sz)))
        t = bt
        for ot, ov in ops[2:]:
            t = self.m.resolve(t)
            if t[0] == 's':
                o, t = self.m.field_off(t, cval(ov.leaf))
                off = add(off, leaf(const(o)))
            else:
                t = t[2]
                off = add(off, mul(ov, leaf(const(self.m.size_align(t)[0]))))
        return add(p, off)

    def run(self, fname, argvals=None, P=T):
        f = self.m.fn(fname)
        if f is None:
            raise Incomplete('function %s not found' % fname)
        args = []
        for i, (t, nm) in enumerate(f.params):
            if argvals is not None:
                args.append(argvals[i])
            else:
                args.append(self.mkarg(nm[1:], t))
        rv = self.call_fn(f, args, P)
        self.S.ret = rv
        return self.S

    def mkarg(self, nm, t):
        t = self.m.resolve(t)
        if t[0] == 'p':
            return leaf(ptr(('arg', nm), (), ZERO))
        if t == ('i', 1):
            return bvar('argb', nm)
        if t[0] == 'i':
            if PIN:
                return leaf(const(max(PIN(nm, t, ('arg', nm)), 0 if arg_nonneg(nm) else -99)))
            return leaf(var(atom('arg', (nm, t), True, arg_nonneg(nm))))
        if t[0] == 'f':
            return leaf(var(atom('arg', (nm, t), False, False)))
        if t[0] in ('s', 'a', 'v'):
            n = len(t[1]) if t[0] == 's' else t[1]
            return Agg([self.mkarg('%s.%d' % (nm, i), t[1][i] if t[0] == 's' else t[2]) for i in range(n)])
        raise Incomplete('argument type')

    def call_fn(self, f, args, P):
        self.depth += 1
        if self.depth > 60:
            raise Incomplete('recursion depth in ' + f.name)
        fr = Frame(self, f, args)
        r = fr.go(P)
        self.depth -= 1
        return r


def elem_kind(nm):
    """element type of external memory by naming convention of the witnesses"""
    if nm.startswith(('i_', 'flag', 'islot')):
        return 'i32'
    if nm.startswith(('l_', 'm_')):
        return None
    return 'f64'


def arg_nonneg(nm):
    return nm.startswith(('lev', 'n_', 'u_')) or nm in ('level', 'size')


TERMS = {'br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'}


class Frame:
    def __init__(self, ex, f, args):
        self.ex = ex
        self.f = f
        self.env = {}
        for (t, nm), v in zip(f.params, args):
            self.env[nm] = v
        self.rets = []
        self.prepare()

    # ---- cfg
    def prepare(self):
        f = self.f
        c = getattr(f, 'attrs2', None) if hasattr(f, 'attrs2') else None
        cache = self.ex.m.__dict__.setdefault('_cfg', {})
        if f.name in cache:
            self.succ, self.tree = cache[f.name]
            return
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br':
                succ[b] = [x for x in t.a[1:] if x]
            elif t.op == 'switch':
                succ[b] = [t.a[2]] + [x for _, x in t.a[3]]
            elif t.op == 'invoke':
                succ[b] = [t.a[3]]
            else:
                succ[b] = []
        self.succ = succ
        reach = set()
        st = [f.order[0]]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st += succ[b]
        self.tree = self.build([b for b in f.order if b in reach], f.order[0])
        cache[f.name] = (self.succ, self.tree)

    def build(self, blocks, entry):
        """ordered list of items: block name or ('loop', header, subtree, blockset)"""
        bs = set(blocks)
        # Tarjan SCC ignoring edges to entry (of the enclosing region)
        idx = {}
        low = {}
        onst = set()
        st = []
        out = []
        cnt = [0]
        for root in blocks:
            if root in idx:
                continue
            work = [(root, iter([s for s in self.succ[root] if s in bs and s != entry]))]
            idx[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter([s for s in self.succ[w] if s in bs and s != entry])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
        out.reverse()
        items = []
        for comp in out:
            if len(comp) == 1 and comp[0] not in self.succ[comp[0]]:
                items.append(comp[0])
                continue
            if len(comp) == 1 and comp[0] == entry:
                items.append(comp[0])
                continue
            cs = set(comp)
            heads = set()
            for b in blocks:
                if b in cs:
                    continue
                for s in self.succ[b]:
                    if s in cs:
                        heads.add(s)
            if len(heads) != 1:
                items.append(('irreducible', sorted(cs)))
                continue
            h = heads.pop()
            sub = self.build([b for b in blocks if b in cs], h)
            defs = set()
            for b in comp:
                for i in self.f.blocks[b]:
                    if i.res:
                        defs.add(i.res)
            used = set()
            for b in self.f.order:
                if b in cs:
                    continue
                for i in self.f.blocks[b]:
                    for m in re.findall(r'%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', i.line):
                        if m in defs:
                            used.add(m)
            items.append(('loop', h, sub, cs, used))
        return items

    # ---- execution
    def go(self, P):
        self.inc = {}      # block -> list of (pred block, cond)
        self.phiv = {}
        entry = self.f.order[0]
        self.inc[entry] = [(None, P, None)]
        self.region(self.tree, None)
        rv = None
        for c, v in self.rets:
            if v is None:
                continue
            rv = v if rv is None else self.ex.vite(c, v, rv)
        return rv

    def region(self, items, header):
        for it in items:
            if isinstance(it, str):
                self.block(it)
            elif it[0] == 'irreducible':
                raise Incomplete('irreducible control flow in %s' % self.f.name)
            else:
                self.loop(it)

    def loop(self, it):
        _, h, sub, cs, used = it
        if not any(c is not F for _, c, _ in self.inc.get(h, [])):
            self.inc.pop(h, None)
            return
        exits = []
        n = 0
        outer_inc = {}
        while True:
            n += 1
            if n > self.ex.max_unroll:
                raise Incomplete('loop at %s of %s does not resolve statically' % (h, self.f.name))
            # isolate exit edges
            self.region(sub, h)
            for b in list(self.inc):
                if b not in cs:
                    pass
            # exit edges were appended to self.inc of outside blocks together with snapshot of used names
            back = self.inc.get(h, [])
            back = [x for x in back if x[1] is not F]
            self.inc[h] = back
            # record values of names used outside for the edges leaving in this iteration
            ex_c = F
            for b, l in self.inc.items():
                if b in cs:
                    continue
                for x in l:
                    if x[0] in cs and id(x) not in outer_inc:
                        outer_inc[id(x)] = x
                        ex_c = b_or(ex_c, x[1])
            if used:
                snap = {u: self.env[u] for u in used if u in self.env}
                exits.append((ex_c, snap))
            if not back:
                break
        self.inc.pop(h, None)
        for u in used:
            v = None
            for c, s in exits:
                if c is F or u not in s:
                    continue
                v = s[u] if v is None else self.ex.vite(c, s[u], v)
            if v is not None:
                self.env[u] = v

    def val(self, t, v):
        k = v[0]
        if k == 'loc':
            try:
                return self.env[v[1]]
            except KeyError:
                return UNDEF
        return self.ex.constv(v, t)

    def block(self, b):
        inc = [x for x in self.inc.pop(b, []) if x[1] is not F]
        if not inc:
            return
        P = F
        for _, c, _ in inc:
            P = b_or(P, c)
        if P is F:
            return
        ex = self.ex
        ins = self.f.blocks[b]
        i = 0
        # phis (parallel)
        newv = {}
        while i < len(ins) and ins[i].op == 'phi':
            t, arms = ins[i].a
            v = None
            for pb, c, pv in inc:
                x = pv.get(ins[i].res) if pv else UNDEF
                v = x if v is None else ex.vite(c, x, v)
            newv[ins[i].res] = v
            i += 1
        self.env.update(newv)
        while i < len(ins):
            I = ins[i]
            i += 1
            ex.steps += 1
            if ex.steps > ex.max_steps:
                raise Incomplete('summary too large')
            op = I.op
            if op in TERMS:
                if op == 'invoke':
                    P = self.call(I, P)
                    if P is not F:
                        self.edge(b, I.a[3], P)
                elif op == 'br':
                    c, x, y = I.a
                    if c is None:
                        self.edge(b, x, P)
                    else:
                        cv = self.val(('i', 1), c)
                        if cv is UNDEF:
                            cv = F
                        self.edge(b, x, b_and(P, cv))
                        self.edge(b, y, b_and(P, b_not(cv)))
                elif op == 'switch':
                    t, c, d, cs = I.a
                    cv = self.val(t, c)
                    if isinstance(cv, BVec):
                        cv = bv_num(cv)
                    if isinstance(cv, Cat):
                        raise Incomplete('switch on packed value')
                    rest = P
                    per = {}
                    for cc, tb in cs:
                        e = apply2('icmp:eq', f_icmp('eq'), cv, ex.constv(cc, t)) if t != ('i', 1) else None
                        g = b_and(rest, e)
                        per[tb] = b_or(per.get(tb, F), g)
                        rest = b_and(rest, b_not(e))
                    per[d] = b_or(per.get(d, F), rest)
                    for tb, g in per.items():
                        self.edge(b, tb, g)
                elif op == 'ret':
                    t, v = I.a
                    self.rets.append((P, None if v is None else self.val(t, v)))
                elif op == 'unreachable':
                    ex.S.trap = b_or(ex.S.trap, P)
                    ex.S.traps.append((P, I.dbg))
                return
            if op == 'call':
                P = self.call(I, P)
                if P is F:
                    return
                continue
            if op == 'load':
                pd = self.val(('p',), I.a[1])
                if isinstance(pd, D) and pd.var == INF and isinstance(pd.leaf, Ptr) and pd.leaf.base == ('null',) and is_const(pd.leaf.off):
                    # reading through a null pointer
                    ex.S.traps.append((P, I.dbg))
                    ex.S.trap = b_or(ex.S.trap, P)
                    return
            self.env_set(I, P)

    def edge(self, b, to, c):
        if c is F:
            return
        pv = {}
        for I in self.f.blocks[to]:
            if I.op != 'phi':
                break
            t, arms = I.a
            for v, l in arms:
                if l == b or (b == self.f.order[0] and l == self.f.raw):
                    pv[I.res] = self.val(t, v)
                    break
        self.inc.setdefault(to, []).append((b, c, pv))

    def env_set(self, I, P):
        ex = self.ex
        op = I.op
        a = I.a
        env = self.env
        if op == 'store':
            t, v, p, _ = a
            ex.store(self.val(('p',), p), self.val(t, v), t, P, I.dbg)
            return
        if op == 'load':
            t, p, _ = a
            env[I.res] = ex.load(self.val(('p',), p), t, P)
            return
        if op == 'getelementptr':
            bt, ops = a
            env[I.res] = ex.gep(bt, [(t, self.val(t, v)) for t, v in ops])
            return
        if op in llir.BIN:
            x, y = self.val(a[0], a[1]), self.val(a[0], a[2])
            if op in ('or', 'xor', 'add') and isinstance(x, Cat) != isinstance(y, Cat):
                # the upper bytes of a zero extension are zero
                x, y = self.zx_pack(a[1], x, a[0]), self.zx_pack(a[2], y, a[0])
            env[I.res] = self.binop(op, a[0], x, y, a[3])
            return
        if op == 'icmp' or op == 'fcmp':
            pred, t, x, y = a
            env[I.res] = self.cmp(op, pred, self.val(t, x), self.val(t, y), ex.m.resolve(t))
            return
        if op == 'select':
            ct, c, t, x, y = a
            cv = self.val(ct, c)
            xv, yv = self.val(t, x), self.val(t, y)
            if isinstance(cv, Agg):
                env[I.res] = Agg([ex.vite(cc, p, q) for cc, p, q in zip(cv.el, xv.el, yv.el)])
            elif cv is UNDEF:
                env[I.res] = xv
            else:
                env[I.res] = ex.vite(cv, xv, yv)
            return
        if op in llir.CAST:
            t, x, dt = a
            env[I.res] = self.cast(op, ex.m.resolve(t), self.val(t, x), ex.m.resolve(dt))
            return
        if op == 'fneg':
            v = self.val(a[0], a[1])
            env[I.res] = Agg([neg(x) for x in v.el]) if isinstance(v, Agg) else neg(v)
            return
        if op == 'freeze':
            env[I.res] = self.val(*a)
            return
        if op == 'alloca':
            ex.fresh += 1
            env[I.res] = leaf(ptr(('alloca', ex.ctx, ex.fresh), (), ZERO))
            return
        if op == 'extractvalue':
            t, v, idx = a
            x = self.val(t, v)
            for k in idx:
                if isinstance(x, D):
                    x = UNDEF
                    break
                x = x.el[k]
            env[I.res] = x
            return
        if op == 'insertvalue':
            t, v, t2, v2, idx = a
            x = self.val(t, v)
            env[I.res] = self.insv(ex.m.resolve(t), x, self.val(t2, v2), idx)
            return
        if op == 'extractelement':
            t, v, (it, iv) = a
            x = self.val(t, v)
            i = cval(self.val(it, iv).leaf)
            env[I.res] = x.el[i] if isinstance(x, Agg) else UNDEF
            return
        if op == 'insertelement':
            t, v, t2, v2, (it, iv) = a
            x = self.val(t, v)
            i = cval(self.val(it, iv).leaf)
            el = list(x.el) if isinstance(x, Agg) else [UNDEF] * t[1]
            el[i] = self.val(t2, v2)
            env[I.res] = Agg(el)
            return
        if op == 'shufflevector':
            t, v, t2, v2, (mt, mv) = a
            x, y = self.val(t, v), self.val(t2, v2)
            xe = x.el if isinstance(x, Agg) else [UNDEF] * t[1]
            ye = y.el if isinstance(y, Agg) else [UNDEF] * t2[1]
            al = list(xe) + list(ye)
            mask = ex.constv(mv, mt)
            r = []
            for e in mask.el:
                r.append(al[cval(e.leaf)] if isinstance(e.leaf, Poly) else UNDEF)
            env[I.res] = Agg(r)
            return
        if op == 'atomicrmw':
            o, pv, t, v = a
            p = self.val(('p',), pv)
            old = ex.load(p, t, P)
            x = self.val(t, v)
            o2 = {'add': 'add', 'sub': 'sub', 'or': 'or', 'and': 'and', 'xor': 'xor', 'fadd': 'fadd'}.get(o)
            if o2 is None:
                raise Incomplete('atomicrmw ' + o)
            ex.store(p, self.binop(o2, t, old, x, False), t, P, I.dbg)
            env[I.res] = old
            return
        if op == 'fence':
            return
        raise Incomplete('instruction ' + op)

    def insv(self, t, x, v, idx):
        t = self.ex.m.resolve(t)
        n = len(t[1]) if t[0] == 's' else t[1]
        el = list(x.el) if isinstance(x, Agg) else [UNDEF] * n
        if len(idx) == 1:
            el[idx[0]] = v
        else:
            el[idx[0]] = self.insv(t[1][idx[0]] if t[0] == 's' else t[2], el[idx[0]], v, idx[1:])
        return Agg(el)

    def cmp(self, op, pred, x, y, t):
        if isinstance(x, Agg) or isinstance(y, Agg):
            xe = x.el if isinstance(x, Agg) else [UNDEF] * len(y.el)
            ye = y.el if isinstance(y, Agg) else [UNDEF] * len(x.el)
            return Agg([self.cmp(op, pred, p, q, t[2] if t[0] == 'v' else t) for p, q in zip(xe, ye)])
        if isinstance(x, BVec) or isinstance(y, BVec):
            if pred in ('eq', 'ne'):
                for v in (x, y):
                    if isinstance(v, D) and v.var == INF and isinstance(v.leaf, Poly) and cval(v.leaf) is not None and not 0 <= cval(v.leaf) < (1 << FLAGW):
                        return F if pred == 'eq' else T
                r = T
                for p, q in zip(bv_of(x), bv_of(y)):
                    r = b_and(r, b_not(b_xor(p, q)))
                return r if pred == 'eq' else b_not(r)
            x, y = bv_num(x), bv_num(y)
        if isinstance(x, Cat) or isinstance(y, Cat):
            if pred in ('eq', 'ne'):
                n = sum(s for s, _ in (x if isinstance(x, Cat) else y).parts)
                cuts = {0, n}
                for v in (x, y):
                    if isinstance(v, Cat):
                        o = 0
                        for s, _ in v.parts:
                            cuts.add(o)
                            o += s
                cuts = sorted(cuts)
                r = T
                for lo, hi in zip(cuts, cuts[1:]):
                    tt = ('i', 8 * (hi - lo))
                    p = self.ex.extract(x, n, lo, hi - lo, tt)
                    q = self.ex.extract(y, n, lo, hi - lo, tt)
                    r = b_and(r, apply2('icmp:eq', f_icmp('eq'), p, q))
                return r if pred == 'eq' else b_not(r)
            if isinstance(x, Cat) and isinstance(y, D) and y.var == INF and isinstance(y.leaf, Poly) and cval(y.leaf) is not None and pred in ('ult', 'ugt', 'uge', 'ule'):
                c = cval(y.leaf) + (1 if pred in ('ugt', 'ule') else 0)
                if c > 0 and c & (c - 1) == 0 and (c.bit_length() - 1) % 8 == 0:
                    k = (c.bit_length() - 1) // 8
                    o = 0
                    r = T
                    ok = True
                    for sz, d in x.parts:
                        if o >= k:
                            r = b_and(r, apply2('icmp:eq', f_icmp('eq'), d, leaf(ZERO)))
                        elif o + sz > k:
                            ok = False
                        o += sz
                    if ok:
                        return r if pred in ('ult', 'ule') else b_not(r)
            raise Incomplete('ordered comparison of packed value')
        if t == ('i', 1):
            pass
        return apply2(op + ':' + pred, f_icmp(pred) if op == 'icmp' else f_fcmp(pred), x, y)

    def binop(self, op, t, x, y, disj):
        t = self.ex.m.resolve(t)
        if t[0] == 'v' or isinstance(x, Agg):
            xe = x.el if isinstance(x, Agg) else [UNDEF] * t[1]
            ye = y.el if isinstance(y, Agg) else [UNDEF] * t[1]
            return Agg([self.binop(op, t[2], p, q, disj) for p, q in zip(xe, ye)])
        if isinstance(x, BVec) or isinstance(y, BVec):
            r = self.binop_bv(op, t, x, y)
            if r is not None:
                return r
            x, y = bv_num(x), bv_num(y)
        if isinstance(x, Cat) or isinstance(y, Cat):
            return self.binop_cat(op, t, x, y)
        if op in ('add', 'fadd'):
            if t == ('i', 1):
                return b_xor(x, y)
            return self.wrapc(add(x, y), t)
        if op in ('sub', 'fsub'):
            if t == ('i', 1):
                return b_xor(x, y)
            return self.wrapc(sub(x, y), t)
        if op in ('mul', 'fmul'):
            if t == ('i', 1):
                return b_and(x, y)
            return self.wrapc(mul(x, y), t)
        if op == 'fdiv':
            return apply2('fdivr', f_fdivr, x, y)
        if op == 'sdiv':
            return apply2('sdiv', f_sdiv, x, y)
        if op == 'udiv':
            return apply2('udiv', f_udiv, x, y)
        if op in ('srem', 'urem'):
            q = apply2('sdiv', f_sdiv, x, y) if op == 'srem' else apply2('udiv', f_udiv, x, y)
            if q is UNDEF:
                return UNDEF
            return sub(x, mul(q, y))
        if op == 'shl':
            r = apply2('shl', f_shl, x, y)
            return self.wrapc(r, t)
        if op in ('lshr', 'ashr'):
            return apply2((op, t[1]), mk_shr(t[1], op == 'ashr'), x, y)
        if op in ('and', 'or', 'xor'):
            if t == ('i', 1):
                if x is UNDEF or y is UNDEF:
                    return UNDEF
                return b_and(x, y) if op == 'and' else b_or(x, y) if op == 'or' else b_xor(x, y)
            if op == 'or' and disj and t == ('i', 64) and x.var == INF and isinstance(x.leaf, Poly) and x.leaf.t and \
                    all(not isinstance(c, Fraction) and c % (1 << 32) == 0 for c in x.leaf.t.values()):
                return Cat([(4, y), (4, leaf(mk({m: c >> 32 for m, c in x.leaf.t.items()})))])
            if op == 'or' and disj and t == ('i', 64):
                # packed pair of 32-bit values (hi << 32 | lo)
                for p, q in ((x, y), (y, x)):
                    ls = dleaves(p)
                    if all(isinstance(l, Poly) and all(not isinstance(c, Fraction) and c % (1 << 32) == 0 for c in l.t.values()) for l in ls) and any(l.t for l in ls):
                        hi = apply1('hi32', lambda l: leaf(mk({m: c >> 32 for m, c in l.t.items()})), p)
                        return Cat([(4, q), (4, hi)])
            if op == 'or' and disj:
                return add(x, y)
            return apply2((op, t[1]), f_bitop(op, t[1]), x, y)
        if op == 'frem':
            return app('fmod', [x, y], False)
        raise Incomplete(op)

    def binop_bv(self, op, t, x, y):
        if op in ('and', 'or', 'xor'):
            if op == 'and':
                # masks may have high bits
                def low(v):
                    if isinstance(v, D):
                        return apply1('lowmask', lambda l: leaf(const(int(cval(l)) & ((1 << FLAGW) - 1))) if isinstance(l, Poly) and cval(l) is not None else leaf(l), v)
                    return v
                x, y = low(x), low(y)
            bx, by = bv_of(x), bv_of(y)
            f = b_and if op == 'and' else b_or if op == 'or' else b_xor
            return BVec([f(p, q) for p, q in zip(bx, by)])
        if op in ('lshr', 'ashr', 'shl') and isinstance(x, BVec) and isinstance(y, D) and y.var == INF:
            k = cval(y.leaf)
            if k is not None:
                if op == 'shl':
                    if any(b is not F for b in x.b[max(0, FLAGW - k):]):
                        return None
                    return BVec(([F] * k + x.b)[:FLAGW])
                return BVec((x.b[k:] + [F] * FLAGW)[:FLAGW])
        return None

    def wrapc(self, d, t):
        """wrap constants to the type's width (unsigned wrap-around idioms)"""
        if t[0] != 'i' or d.var != INF or not isinstance(d.leaf, Poly):
            return d
        c = cval(d.leaf)
        if c is None or isinstance(c, Fraction):
            return d
        w = t[1]
        if -(1 << (w - 1)) <= c < (1 << (w - 1)):
            return d
        c &= (1 << w) - 1
        if c >> (w - 1):
            c -= 1 << w
        return leaf(const(c))

    def zx_width(self):
        """bits below which a value's upper bits are known to be zero (per SSA name)"""
        cache = self.ex.m.__dict__.setdefault('_zx', {})
        if self.f.name in cache:
            return cache[self.f.name]
        w = {}
        flow = []
        for b in self.f.order:
            for I in self.f.blocks[b]:
                if I.op == 'zext':
                    t = self.ex.m.resolve(I.a[0])
                    if t[0] == 'i' and t[1] % 8 == 0:
                        w[I.res] = t[1]
                elif I.op == 'freeze':
                    flow.append((I.res, [I.a[1]]))
                elif I.op == 'phi':
                    flow.append((I.res, [x[0] for x in I.a[1]]))
                elif I.op == 'select':
                    flow.append((I.res, list(I.a[-2:])))
                elif I.op == 'and' and I.a[2][0] == 'int' and I.a[2][1] >= 0:
                    w[I.res] = self.zx_opd(w, I.a[2])
                elif I.op == 'lshr' and I.a[2][0] == 'int' and I.a[2][1] % 8 == 0 and I.a[0][0] == 'i':
                    w[I.res] = I.a[0][1] - I.a[2][1]
        for r, _ in flow:
            w[r] = 0
        changed = True
        while changed:
            changed = False
            for r, ops in flow:
                if r in w:
                    rs = [self.zx_opd(w, v) for v in ops]
                    if any(x is None for x in rs):
                        del w[r]
                        changed = True
                    elif max(rs) != w[r]:
                        w[r] = max(rs)
                        changed = True
        cache[self.f.name] = w
        return w

    def zx_opd(self, w, v):
        if v[0] == 'loc':
            return w.get(v[1])
        if v[0] == 'int' and v[1] >= 0:
            return 8 * max(1, (v[1].bit_length() + 7) // 8)
        return None

    def zx_pack(self, opd, v, t):
        if isinstance(v, D) and v is not UNDEF and opd[0] == 'loc' and t[0] == 'i':
            w = self.zx_width().get(opd[1])
            if w is not None and w < t[1]:
                w = 32 if w <= 32 < t[1] else w
                return Cat([(w // 8, self.ex.extract(v, t[1] // 8, 0, w // 8, ('i', w))), ((t[1] - w) // 8, leaf(ZERO))])
        return v

    def binop_cat(self, op, t, x, y):
        ex = self.ex
        n = t[1] // 8
        if op in ('lshr', 'ashr') and isinstance(x, Cat):
            k = cval(y.leaf)
            if k is not None and k % 8 == 0:
                k //= 8
                r = ex.from_cat(x, k, n - k, ('i', 8 * (n - k)))
                return r
            if k == 31 and [q for q, _ in x.parts] == [4, 4]:
                # twice the upper half plus the top bit of the lower one
                up = self.binop('mul', ('i', 64), x.parts[1][1], leaf(const(2)), False)
                return ite(self.cmp('icmp', 'slt', x.parts[0][1], leaf(ZERO), ('i', 32)), self.binop('add', ('i', 64), up, leaf(const(1)), False), up)
        if op == 'shl' and isinstance(x, Cat):
            k = cval(y.leaf)
            if k is not None and k % 8 == 0:
                k //= 8
                lo = ex.from_cat(x, 0, n - k, ('i', 8 * (n - k)))
                return Cat([(k, leaf(ZERO))] + (lo.parts if isinstance(lo, Cat) else [(n - k, lo)]))
        if op == 'and' and isinstance(x, Cat) and isinstance(y, D) and y.var == INF:
            c = cval(y.leaf)
            if c is not None:
                parts = []
                o = 0
                full = True
                for s, d in x.parts:
                    m = (c >> (8 * o)) & ((1 << 8 * s) - 1)
                    if m == (1 << 8 * s) - 1:
                        parts.append((s, d))
                    elif m == 0:
                        parts.append((s, leaf(ZERO)))
                    else:
                        full = False
                    o += s
                if full:
                    if all(d.var == INF and d.leaf is ZERO for _, d in parts[1:]):
                        return parts[0][1]
                    return Cat(parts)
        if op in ('or', 'xor', 'and'):
            if not isinstance(x, Cat):
                x, y = y, x
            cuts = {0, n}
            for v in (x, y):
                if isinstance(v, Cat):
                    o = 0
                    for s, _ in v.parts:
                        cuts.add(o)
                        o += s
            cuts = sorted(cuts)
            parts = []
            for lo, hi in zip(cuts, cuts[1:]):
                tt = ('i', 8 * (hi - lo))
                for v in (x, y):
                    if lo and isinstance(v, D) and not all(is_const(l) for l in dleaves(v) if isinstance(l, Poly)):
                        raise Incomplete('packed arithmetic ' + op + (' %s %s' % (x if isinstance(x, D) else [(s, str(q)[:80]) for s, q in x.parts], y if isinstance(y, D) else [(s, str(q)[:80]) for s, q in y.parts]) if os.environ.get('VP_DBG') else ''))
                p = ex.extract(x, n, lo, hi - lo, tt)
                q = ex.extract(y, n, lo, hi - lo, tt)
                if op != 'and' and q.var == INF and q.leaf is ZERO:
                    parts.append((hi - lo, p))
                elif op != 'and' and p.var == INF and p.leaf is ZERO:
                    parts.append((hi - lo, q))
                else:
                    parts.append((hi - lo, apply2((op, 8 * (hi - lo)), f_bitop(op, 8 * (hi - lo)), p, q)))
            return Cat(parts)
        if op in ('add', 'sub') and isinstance(x, Cat) and isinstance(y, D):
            # arithmetic on a packed value whose high part is a zero extension
            if all(d.var == INF and d.leaf is ZERO for _, d in x.parts[1:]):
                return self.binop(op, t, x.parts[0][1], y, False)
            # a constant that only touches the upper half
            k = cval(y.leaf) if y.var == INF and isinstance(y.leaf, Poly) else None
            if k is not None and len(x.parts) == 2 and k % (1 << (8 * x.parts[0][0])) == 0:
                s0, p0 = x.parts[0]
                s1, p1 = x.parts[1]
                return Cat([(s0, p0), (s1, self.binop(op, ('i', 8 * s1), p1, leaf(const(int(k) >> (8 * s0))), False))])
        raise Incomplete('packed arithmetic ' + op + (' %r %r' % (x, y) if os.environ.get('VP_DBG') else ''))

    def cast(self, op, t, x, dt):
        ex = self.ex
        if t[0] == 'v' and isinstance(x, Agg):
            if dt[0] == 'v':
                return Agg([self.cast(op, t[2], e, dt[2]) for e in x.el])
            if op == 'bitcast':
                s = ex.m.size_align(t[2])[0]
                return Cat([(s, e) for e in x.el])
        if op == 'bitcast' and dt[0] == 'v' and t[0] != 'v':
            s = ex.m.size_align(dt[2])[0]
            return Agg([ex.extract(x, s * dt[1], i * s, s, dt[2]) for i in range(dt[1])])
        if isinstance(x, BVec):
            if op in ('zext', 'sext'):
                return x
            if op == 'trunc':
                return x.b[0] if dt == ('i', 1) else x
            x = bv_num(x)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'fpext', 'fptrunc'):
            if op == 'bitcast' and t[0] == 'f' and dt[0] == 'i' or op == 'bitcast' and t[0] == 'i' and dt[0] == 'f':
                return x
            return x
        if isinstance(x, Cat):
            if op == 'trunc':
                n = dt[1] // 8
                return ex.from_cat(x, 0, n, dt)
            if op == 'zext':
                n = dt[1] // 8 - sum(s for s, _ in x.parts)
                return Cat(x.parts + [(n, leaf(ZERO))])
            raise Incomplete('cast of packed value')
        if op in ('zext', 'sext', 'uitofp', 'sitofp'):
            if t == ('i', 1):
                one = -1 if op in ('sext', 'sitofp') else 1
                return apply1(('b2i', one), lambda v: UNDEF if v is UNDEF_V else leaf(const(one if v else 0)), x)
            if op in ('zext', 'uitofp'):
                def z(v):
                    if isinstance(v, Poly):
                        c = cval(v)
                        if c is not None and c < 0:
                            return leaf(const(c + (1 << t[1])))
                        return leaf(v)
                    return UNDEF if v is UNDEF_V else leaf(v)
                return apply1(('zext', t[1]), z, x)
            return x
        if op == 'trunc':
            if dt == ('i', 1):
                return apply1('tobit', lambda v: UNDEF if v is UNDEF_V else bit(v, 0) if isinstance(v, Poly) else (T if v else F), x)

            def f(v):
                if isinstance(v, Poly):
                    c = cval(v)
                    if c is not None and not isinstance(c, Fraction):
                        return self.wrapc(leaf(v), dt)
                    return leaf(v)
                return UNDEF if v is UNDEF_V else leaf(v)
            return apply1(('trunc', dt[1]), f, x)
        if op in ('fptosi', 'fptoui'):
            return apply1('fptosi', f_trunc_int, x)
        raise Incomplete('cast ' + op)

    # ---- calls
    def call(self, I, P):
        ex = self.ex
        rt, callee, args, dest = I.a
        if callee[0] != 'glob':
            cv = self.val(('p',), callee) if callee[0] == 'loc' else None
            if cv is not None and cv.var == INF and isinstance(cv.leaf, Ptr) and cv.leaf.base[0] == 'glob':
                name = cv.leaf.base[1]
            elif cv is not None and cv.var != INF:
                # the callee depends on the branch taken: one guarded call per target
                alts = [(b_and(g, P), l) for g, l in cases(cv)]
                alts = [(g, l) for g, l in alts if g is not F]
                if len(alts) > 8 or not all(isinstance(l, Ptr) and l.base[0] == 'glob' or isinstance(l, Poly) and cval(l) == 0 or l is UNDEF_V for g, l in alts):
                    raise Incomplete('indirect call in %s' % self.f.name)
                res, out = None, F
                for g, l in alts:
                    if not isinstance(l, Ptr):
                        ex.S.traps.append((g, I.dbg))
                        ex.S.trap = b_or(ex.S.trap, g)
                        continue
                    out = b_or(out, self.call_name(l.base[1], I, g, rt, args))
                    if I.res:
                        v = self.env[I.res]
                        res = v if res is None else v if res is UNDEF else res if v is UNDEF else ex.vite(g, v, res)
                if I.res:
                    self.env[I.res] = UNDEF if res is None else res
                return out
            else:
                raise Incomplete('indirect call in %s' % self.f.name)
        else:
            name = callee[1]
        return self.call_name(name, I, P, rt, args)

    def call_name(self, name, I, P, rt, args):
        ex = self.ex
        name = name[1:].strip('"')
        if name.startswith(NOTRAP):
            if I.res:
                self.env[I.res] = UNDEF
            return P
        if name.startswith('llvm.'):
            return self.intrinsic(name, I, rt, args, P)
        av = [self.val(t, v) for t, v in args]
        av = [bv_num(v) if isinstance(v, BVec) else v for v in av]
        full = '@' + name if ('@' + name) in ex.m.fn_src or ('@' + name) in ex.m.decls else '@"%s"' % name
        if full in ex.m.fn_src:
            f = ex.m.fn(full)
            before = ex.S.trap
            r = ex.call_fn(f, av, P)
            if I.res:
                self.env[I.res] = r if r is not None else UNDEF
            tr = b_and(ex.S.trap, b_not(before))
            return b_and(P, b_not(tr))
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '__cxa_allocate_exception'):
            ex.fresh += 1
            self.env[I.res] = leaf(ptr(('heap', ex.ctx, ex.fresh), (), ZERO))
            return P
        if name == 'bcmp' and av[2].var == INF and isinstance(av[2].leaf, Poly) and cval(av[2].leaf) is not None:
            n = int(cval(av[2].leaf))
            r, o = T, 0
            while o < n:
                w = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
                a, b = (ex.load(add(p, leaf(const(o))), ('i', 8 * w), P) for p in av[:2])
                r = b_and(r, self.cmp('icmp', 'eq', a, b, ('i', 8 * w)))
                o += w
            self.env[I.res] = ite(r, leaf(ZERO), leaf(const(1)))
            return P
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdlPvmSt11align_val_t', '_ZdaPvm'):
            return P
        if name in ('memcpy', 'memmove'):
            return self.do_memcpy(av, P, I)
        if name in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'atan', 'atan2', 'cbrt', 'exp2', 'log2', 'pow', 'floor', 'ceil', 'fabs', 'ldexp', 'fmod', 'round', 'acos', 'asin', 'fmax', 'fmin',
                    'lround', 'trunc', 'sinf', 'powf'):
            self.env[I.res] = self.math(name, av)
            return P
        if '__throw_' in name or name in ('abort', 'exit', '_ZSt9terminatev', '__assert_fail', '__cxa_throw', '_exit', '__cxa_rethrow', '__clang_call_terminate'):
            ex.S.traps.append((P, I.dbg))
            ex.S.trap = b_or(ex.S.trap, P)
            return F
        d = ex.m.decls.get(full, '')
        # structure arguments passed by pointer to locals are not supported for external functions
        attrs = set()
        for mm in re.findall(r'#\d+', d + ' ' + (re.search(r'\)\s*(#\d+)', I.line).group(1) if re.search(r'\)\s*(#\d+)', I.line) else '')):
            attrs.add(ex.m.meta.get(mm, ''))
        pure = any('memory(none)' in x or 'memory(read)' in x for x in attrs)
        flat = []
        for v in av:
            if isinstance(v, Agg):
                flat += v.el
            elif isinstance(v, Cat):
                flat += [d for _, d in v.parts]
            else:
                flat.append(v)
        rtr = ex.m.resolve(rt)
        if name == 'vp_assume':
            ex.S.assume = b_and(ex.S.assume, b_or(b_not(P), flat[0]))
            return P
        if name.startswith('vp_box'):
            # identity, kept opaque: the diagram of the argument is not distributed over later operations
            v = flat[0]
            if v.var == INF:
                self.env[I.res] = v
            elif rtr == ('i', 1):
                self.env[I.res] = bvar('boxb', v)
            else:
                self.env[I.res] = leaf(var(atom('box', (v,), rtr[0] == 'i', name.startswith('vp_boxn'))))
            return P
        if pure and rtr[0] != 'void':
            if rtr[0] == 'p':
                self.env[I.res] = app_ptr(name, flat)
            elif rtr == ('i', 1):
                def fb(*ls):
                    return bvar('appb', name, *[const(1) if x is True else const(0) if x is False else x for x in ls])
                self.env[I.res] = applyn(('appb', name), fb, flat)
            elif rtr[0] == 'f' or rtr[0] == 'i':
                self.env[I.res] = app(name, flat, rtr[0] == 'i', name.startswith(('u_', 'n_', 'gap_')))
            else:
                raise Incomplete('extern returning aggregate: ' + name)
            return P
        if name in QUIET or name.startswith(QUIET_CXX):
            # text (names, messages): not observable
            if I.res:
                if rtr[0] == 'p' and '_M_create' in name:
                    ex.fresh += 1
                    self.env[I.res] = leaf(ptr(('heap', ex.ctx, ex.fresh), (), ZERO))
                elif rtr[0] == 'p' and av and 'compare' not in name:
                    self.env[I.res] = av[0]
                elif rtr[0] in ('i', 'f') and rtr != ('i', 1):
                    self.env[I.res] = app('text:' + name, [], rtr[0] == 'i')
                else:
                    self.env[I.res] = UNDEF
            return P
        if name.startswith('_Z'):
            raise Incomplete('external function ' + name)
        ex.S.events.append((P, name, flat, I.dbg))
        if 'noreturn' in ' '.join(attrs):
            ex.S.trap = b_or(ex.S.trap, P)
            return F
        if I.res:
            n = len(ex.S.events)
            if rtr[0] == 'p':
                self.env[I.res] = leaf(ptr(('call', name), (const(n),), ZERO))
            elif rtr == ('i', 1):
                self.env[I.res] = bvar('evb', name, n)
            elif rtr[0] in ('i', 'f'):
                self.env[I.res] = leaf(var(atom('app', (name, const(n)), rtr[0] == 'i')))
            else:
                self.env[I.res] = UNDEF
        return P

    def do_memcpy(self, av, P, I):
        n = av[2]
        c = cval(n.leaf) if n.var == INF and isinstance(n.leaf, Poly) else None
        if c is None:
            # guarded alternatives of constant sizes
            for g, l in cases(n):
                gg = b_and(g, P)
                if gg is F:
                    continue
                cc = cval(l) if isinstance(l, Poly) else None
                if cc is None:
                    raise Incomplete('memcpy of symbolic size')
                self.ex.memcpy(av[0], av[1], cc, gg, I.dbg)
        else:
            self.ex.memcpy(av[0], av[1], c, P, I.dbg)
        if I.res:
            self.env[I.res] = av[0]
        return P

    def math(self, name, av):
        if name == 'fabs':
            return apply1('fabs', f_fabs, av[0])
        if name in ('floor', 'ceil'):
            return apply1(name, f_floor(name), av[0])
        if name in ('fmax', 'fmin'):
            c = apply2('fcmp:olt', f_fcmp('olt'), av[0], av[1])
            return ite(c, av[1], av[0]) if name == 'fmax' else ite(c, av[0], av[1])
        if name == 'exp2':
            return apply1('pow2', lambda x: UNDEF if x is UNDEF_V else leaf(pow2(x)), av[0])
        if name == 'ldexp':
            return mul(av[0], apply1('pow2', lambda x: UNDEF if x is UNDEF_V else leaf(pow2(x)), av[1]))
        if name == 'pow':
            def f(a, b):
                if isundef(a, b):
                    return UNDEF
                c = cval(b)
                if c is not None and not isinstance(c, Fraction) and abs(c) < 20:
                    return leaf(ppow(a, c)) if c >= 0 else leaf(pinv(ppow(a, -c)))
                ca = cval(a)
                if ca is not None and ca > 0 and not isinstance(ca, Fraction) and (ca & (ca - 1)) == 0:
                    return leaf(pow2(pscale(b, ca.bit_length() - 1)))
                return leaf(var(atom('app', ('pow', a, b), False)))
            return apply2('pow', f, av[0], av[1])
        if name == 'sqrt':
            def f(a):
                if a is UNDEF_V:
                    return UNDEF
                c = cval(a)
                if c is not None and c >= 0:
                    import math
                    c = Fraction(c)
                    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if n * n == c.numerator and d * d == c.denominator:
                        return leaf(const(Fraction(n, d)))
                    return leaf(const(Fraction(math.sqrt(c))))
                return leaf(var(atom('app', ('sqrt', a), False, True)))
            return apply1('sqrt', f, av[0])
        return app(name, av, False)

    def intrinsic(self, name, I, rt, args, P):
        ex = self.ex
        p = name.split('.')
        k = p[1]
        if k == 'assume':
            c = self.val(*args[0])
            if c is not UNDEF:
                ex.S.assume = b_and(ex.S.assume, b_or(b_not(P), c))
            return P
        if k in ('trap', 'ubsantrap', 'debugtrap'):
            ex.S.trap = b_or(ex.S.trap, P)
            ex.S.traps.append((P, I.dbg))
            return F
        av = [self.val(t, v) for t, v in args]
        av = [bv_num(v) if isinstance(v, BVec) else v for v in av]
        if k in ('memcpy', 'memmove'):
            return self.do_memcpy(av, P, I)
        if k == 'memset':
            n = av[2]
            c = cval(n.leaf) if n.var == INF and isinstance(n.leaf, Poly) else None
            if c is None:
                for g, l in cases(n):
                    gg = b_and(g, P)
                    if gg is F:
                        continue
                    cc = cval(l) if isinstance(l, Poly) else None
                    if cc is None:
                        raise Incomplete('memset of symbolic size')
                    ex.memset(av[0], av[1], cc, gg, I.dbg)
            elif c:
                ex.memset(av[0], av[1], c, P, I.dbg)
            return P
        if any(isinstance(v, Agg) for v in av):
            n = len([v for v in av if isinstance(v, Agg)][0].el)
            el = []
            for j in range(n):
                el.append(self.intr1(k, p, [v.el[j] if isinstance(v, Agg) else v for v in av], args))
            self.env[I.res] = Agg(el)
            return P
        self.env[I.res] = self.intr1(k, p, av, args)
        return P

    def intr1(self, k, p, av, args):
        ex = self.ex
        if any(isinstance(v, Cat) for v in av):
            raise Incomplete('packed operand of ' + k)
        if k in ('fabs', 'sqrt', 'floor', 'ceil', 'pow', 'exp', 'log', 'sin', 'cos', 'exp2', 'trunc', 'round', 'rint', 'nearbyint'):
            return self.math(k, av)
        if k == 'powi':
            return self.math('pow', av)
        if k == 'ldexp':
            return self.math('ldexp', av)
        if k in ('fmuladd', 'fma'):
            return add(mul(av[0], av[1]), av[2])
        if k in ('smax', 'smin', 'umax', 'umin', 'maxnum', 'minnum', 'maximum', 'minimum'):
            if k[0] == 's':
                c = apply2('icmp:slt', f_icmp('slt'), av[0], av[1])
            elif k[0] == 'u':
                c = apply2('icmp:ult', f_icmp('ult'), av[0], av[1])
            else:
                c = apply2('fcmp:olt', f_fcmp('olt'), av[0], av[1])
            return ite(c, av[1], av[0]) if 'max' in k else ite(c, av[0], av[1])
        if k == 'abs':
            c = apply2('icmp:slt', f_icmp('slt'), av[0], leaf(ZERO))
            return ite(c, neg(av[0]), av[0])
        if k == 'copysign':
            c = apply2('fcmp:olt', f_fcmp('olt'), av[1], leaf(ZERO))
            a = apply1('fabs', f_fabs, av[0])
            return ite(c, neg(a), a)
        if k == 'expect':
            return av[0]
        if k == 'objectsize':
            return leaf(const(-1))
        if k == 'is' and p[2] == 'constant':
            return F
        if k in ('usub', 'uadd', 'sadd', 'ssub') and p[2] == 'sat':
            r = sub(av[0], av[1]) if 'sub' in k else add(av[0], av[1])
            if k == 'usub':
                c = apply2('icmp:ult', f_icmp('ult'), av[0], av[1])
                return ite(c, leaf(ZERO), r)
            return r
        if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and p[2] == 'with':
            r = add(av[0], av[1]) if 'add' in k else sub(av[0], av[1]) if 'sub' in k else mul(av[0], av[1])
            ov = F
            if k == 'usub':
                ov = apply2('icmp:ult', f_icmp('ult'), av[0], av[1])
            return Agg([r, ov])
        if k == 'ctpop':
            def f(x):
                if isinstance(x, Poly) and cval(x) is not None:
                    return leaf(const(bin(cval(x) & ((1 << 64) - 1)).count('1')))
                if isinstance(x, Poly):
                    return leaf(var(atom('app', ('ctpop', x), True, True)))
                return UNDEF
            return apply1('ctpop', f, av[0])
        if k in ('ctlz', 'cttz', 'bswap', 'fshl', 'fshr', 'bitreverse'):
            w = args[0][0][1]

            def f(*xs):
                if isundef(*xs):
                    return UNDEF
                cs = [cval(x) if isinstance(x, Poly) else int(x) if isinstance(x, bool) else None for x in xs]
                if all(c is not None for c in cs):
                    v = cs[0] & ((1 << w) - 1)
                    if k == 'ctlz':
                        return leaf(const(w - v.bit_length()))
                    if k == 'cttz':
                        return leaf(const(w if v == 0 else (v & -v).bit_length() - 1))
                return leaf(var(atom('app', (k,) + tuple(const(1) if x is True else const(0) if x is False else x for x in xs), True, True)))
            return applyn((k, w), f, av)
        if k == 'vector' and p[2] == 'reduce':
            raise Incomplete('vector reduce')
        raise Incomplete('intrinsic llvm.' + '.'.join(p[1:]))

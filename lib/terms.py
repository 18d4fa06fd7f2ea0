"""Abstract value domain of the analysis.

A value is a multi-terminal BDD over boolean atoms (normalised comparisons / bits) whose leaves are
  * polynomials (Laurent, rational coefficients) over numeric atoms (arguments, memory cells, uninterpreted applications), or
  * pointers (base, key, offset-polynomial), or booleans, or UNDEF.
Everything is interned, so equality of two abstract values is object identity.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)


class TooBig(Exception):
    pass


def norm_num(x):
    if type(x) is int:
        return x
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


def nice(f):
    """double constant -> rational; prefers the small-denominator rational that rounds to the same double"""
    if f != f or f in (float('inf'), float('-inf')):
        return None
    fr = Fraction(f)
    if fr.denominator <= 4096:
        return norm_num(fr)
    for lim in (1000, 100000, 10000000, 1000000000):
        g = fr.limit_denominator(lim)
        if float(g) == f:
            return norm_num(g)
    g = None
    # decimal literal (1e-12 ...)
    s = repr(f)
    if 'e' in s and len(s) < 9:
        return norm_num(Fraction(s))
    return norm_num(fr)


# ------------------------------------------------------------------------------------------------ atoms / polynomials
class Atom:
    __slots__ = ('kind', 'args', 'id', 'isint', 'nonneg')


_atoms = {}
ATOMS = []


def atom(kind, args, isint, nonneg=False):
    k = (kind, args, isint)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.isint = isint
        a.nonneg = nonneg
        a.id = len(ATOMS)
        ATOMS.append(a)
        _atoms[k] = a
    return a


class Poly:
    __slots__ = ('t', 'id', '_leaf', 'isint')

    def __repr__(self):
        return pstr(self)


_polys = {}
_pcount = [0]


def mk(t):
    """t: dict mono -> number (non zero)"""
    k = frozenset(t.items())
    p = _polys.get(k)
    if p is None:
        p = Poly()
        p.t = t
        p.id = _pcount[0]
        _pcount[0] += 1
        p._leaf = None
        _polys[k] = p
    return p


def const(c):
    c = norm_num(c)
    return mk({(): c}) if c != 0 else mk({})


ZERO = const(0)
ONE = const(1)


def var(a):
    return mk({((a.id, 1),): 1})


def is_const(p):
    return not p.t or (len(p.t) == 1 and () in p.t)


def cval(p):
    if not p.t:
        return 0
    if len(p.t) == 1 and () in p.t:
        return p.t[()]
    return None


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        s = t.get(m, 0) + c
        if s == 0:
            t.pop(m, None)
        else:
            t[m] = norm_num(s)
    return mk(t)


def pscale(a, c):
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return mk({m: norm_num(v * c) for m, v in a.t.items()})


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    if a is b:
        return ZERO
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        s = t.get(m, 0) - c
        if s == 0:
            t.pop(m, None)
        else:
            t[m] = norm_num(s)
    return mk(t)


_mm = {}


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    k = (m1, m2)
    r = _mm.get(k)
    if r is None:
        d = dict(m1)
        for a, e in m2:
            s = d.get(a, 0) + e
            if s == 0:
                d.pop(a)
            else:
                d[a] = s
        # idempotent 0/1 atoms
        for a in list(d):
            if ATOMS[a].kind == 'bit' and d[a] > 1:
                d[a] = 1
        r = tuple(sorted(d.items()))
        _mm[k] = r
    return r


MAXTERMS = 20000


def pmul(a, b):
    ca = cval(a)
    if ca is not None:
        return pscale(b, ca)
    cb = cval(b)
    if cb is not None:
        return pscale(a, cb)
    if len(a.t) * len(b.t) > MAXTERMS * 10:
        raise TooBig('polynomial product')
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            t[m] = t.get(m, 0) + c1 * c2
    t = {m: norm_num(c) for m, c in t.items() if c != 0}
    if len(t) > MAXTERMS:
        raise TooBig('polynomial size')
    return mk(t)


def ppow(a, n):
    r = ONE
    while n:
        if n & 1:
            r = pmul(r, a)
        a = pmul(a, a) if n > 1 else a
        n >>= 1
    return r


def lead(p):
    """canonical leading coefficient (of the largest non-constant monomial)"""
    m = max((k for k in p.t if k), default=None)
    return p.t[m] if m is not None else None


def pinv(p):
    c = cval(p)
    if c is not None:
        if c == 0:
            return var(atom('app', ('inf',), False))
        return const(Fraction(1) / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return mk({tuple((a, -e) for a, e in m): norm_num(Fraction(1) / c)})
    # factor the common monomial and the leading coefficient
    l = lead(p)
    q = pscale(p, Fraction(1) / l)
    monos = list(q.t)
    common = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for a in list(common):
            e = d.get(a, 0)
            if (common[a] > 0 and e > 0) or (common[a] < 0 and e < 0):
                common[a] = min(common[a], e) if e > 0 else max(common[a], e)
            else:
                del common[a]
    if common:
        cm = tuple(sorted(common.items()))
        inv = tuple((a, -e) for a, e in cm)
        q = mk({mono_mul(m, inv): c for m, c in q.t.items()})
        r = mk({inv: 1})
    else:
        r = ONE
    return pscale(pmul(r, var(atom('inv', (q,), False))), Fraction(1) / l)


def p_isint(p):
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            return False
        for a, e in m:
            if not ATOMS[a].isint or e < 0:
                return False
    return True


def p_nonneg(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if not (ATOMS[a].nonneg or e % 2 == 0):
                return False
    return True


def floordiv(p, d):
    """mathematical floor(p/d), d positive integer, p integer valued"""
    if d == 1:
        return p
    c = cval(p)
    if c is not None:
        return const(c // d)
    q = {}
    r = {}
    for m, c in p.t.items():
        if isinstance(c, Fraction):
            r[m] = c
            continue
        k = c // d
        if k:
            q[m] = k
        if c - k * d:
            r[m] = c - k * d
    r = mk(r)
    qq = mk(q)
    if not r.t:
        return qq
    c = cval(r)
    if c is not None:
        return padd(qq, const(c // d))
    # nested floordiv: floor((floor(x/a) )/d) = floor(x/(a d))
    if len(r.t) == 1:
        (m, c), = r.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'fdiv':
                return padd(qq, floordiv(a.args[0], a.args[1] * d))
    # gcd reduction: floor((g x + c0)/ (g e)) = floor((x + floor(c0/g)) / e)
    import math
    g = d
    for m, c in r.t.items():
        if m:
            if isinstance(c, Fraction):
                g = 1
                break
            g = math.gcd(g, c)
    if g > 1:
        t = {m: c // g for m, c in r.t.items() if c // g}
        return padd(qq, floordiv(mk(t), d // g))
    return padd(qq, var(atom('fdiv', (r, d), True, p_nonneg(r))))


def pow2(p):
    """2**p for an integer polynomial p"""
    r = {}
    k = 0
    mono = []
    for m, c in p.t.items():
        if not m:
            k = c
            continue
        if isinstance(c, Fraction):
            return var(atom('pow2', (p,), True, True))
        mono.append((atom('pow2', (mk({m: 1}),), True, True).id, c))
    if isinstance(k, Fraction):
        return var(atom('pow2', (p,), True, True))
    return mk({tuple(sorted(mono)): norm_num(Fraction(2) ** k)})


def pstr(p, depth=0):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: (len(kv[0]), kv[0])):
        s = '*'.join(astr(ATOMS[a], depth + 1) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if not m:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c, s))
    r = ' + '.join(out).replace('+ -', '- ')
    return r if len(r) < 2000 else r[:2000] + '...'


def astr(a, depth=0):
    if depth > 8:
        return '..'
    if a.kind == 'arg':
        return a.args[0]
    if a.kind == 'load':
        b, key, off, ty = a.args
        return '%s[%s]' % (bstr(b), ','.join(xstr(k, depth) for k in key) + ('' if off is ZERO else ('+' + pstr(off, depth))))
    if a.kind == 'fdiv':
        return 'floor((%s)/%d)' % (pstr(a.args[0], depth), a.args[1])
    if a.kind == 'pow2':
        return '2^(%s)' % pstr(a.args[0], depth)
    if a.kind == 'app':
        return '%s(%s)' % (a.args[0], ','.join(xstr(x, depth) for x in a.args[1:]))
    return '%s(%s)' % (a.kind, ','.join(xstr(x, depth) for x in a.args))


def bstr(b):
    if b[0] in ('call', 'arg', 'glob'):
        return str(b[1])
    return '.'.join(str(x) for x in b[:3])


def xstr(x, depth=0):
    if isinstance(x, D):
        return dstr(x)[:300] if depth < 3 else '..'
    if isinstance(x, Poly):
        return pstr(x, depth)
    if isinstance(x, Ptr):
        return '&%s[%s]+%s' % (bstr(x.base), ','.join(xstr(k, depth) for k in x.key), pstr(x.off, depth))
    return str(x)


# ------------------------------------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ('base', 'key', 'off', '_leaf')

    def __repr__(self):
        return xstr(self)


_ptrs = {}


def ptr(base, key, off):
    k = (base, key, off)
    p = _ptrs.get(k)
    if p is None:
        p = Ptr()
        p.base = base
        p.key = key
        p.off = off
        p._leaf = None
        _ptrs[k] = p
    return p


NULL = ptr(('null',), (), ZERO)


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF_V = _Undef()


# ------------------------------------------------------------------------------------------------ MTBDD
INF = 1 << 60


class D:
    __slots__ = ('var', 'hi', 'lo', 'leaf', 'id')

    def __repr__(self):
        return dstr(self)


_leaves = {}
_nodes = {}
_dc = [0]


def leaf(v):
    if isinstance(v, (Poly, Ptr)):
        if v._leaf is not None:
            return v._leaf
        n = D()
        n.var = INF
        n.leaf = v
        n.hi = n.lo = None
        n.id = _dc[0]
        _dc[0] += 1
        v._leaf = n
        return n
    n = _leaves.get(id(v))
    if n is None:
        n = D()
        n.var = INF
        n.leaf = v
        n.hi = n.lo = None
        n.id = _dc[0]
        _dc[0] += 1
        _leaves[id(v)] = n
    return n


T = leaf(True)
F = leaf(False)
UNDEF = leaf(UNDEF_V)
MAXNODES = 6000000


def node(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, hi.id, lo.id)
    n = _nodes.get(k)
    if n is None:
        n = D()
        n.var = v
        n.hi = hi
        n.lo = lo
        n.leaf = None
        n.id = _dc[0]
        _dc[0] += 1
        if _dc[0] > MAXNODES:
            raise TooBig('decision diagram')
        _nodes[k] = n
    return n


_ite = {}


def ite(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None:
        return r
    v = min(c.var, a.var, b.var)
    ch, cl = (c.hi, c.lo) if c.var == v else (c, c)
    ah, al = (a.hi, a.lo) if a.var == v else (a, a)
    bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
    r = node(v, ite(ch, ah, bh), ite(cl, al, bl))
    _ite[k] = r
    return r


def b_and(a, b):
    return ite(a, b, F)


def b_or(a, b):
    return ite(a, T, b)


def b_not(a):
    return ite(a, F, T)


def b_xor(a, b):
    return ite(a, b_not(b), b)


_ap = {}


def apply1(fid, f, a):
    """lift a unary leaf operation (leaf value -> D)"""
    k = (fid, a.id)
    r = _ap.get(k)
    if r is None:
        if a.var == INF:
            r = f(a.leaf)
        else:
            r = _bnode(a.var, apply1(fid, f, a.hi), apply1(fid, f, a.lo))
        _ap[k] = r
    return r


def apply2(fid, f, a, b):
    k = (fid, a.id, b.id)
    r = _ap.get(k)
    if r is None:
        if a.var == INF and b.var == INF:
            r = f(a.leaf, b.leaf)
        else:
            v = min(a.var, b.var)
            ah, al = (a.hi, a.lo) if a.var == v else (a, a)
            bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
            r = _bnode(v, apply2(fid, f, ah, bh), apply2(fid, f, al, bl))
        _ap[k] = r
    return r


def _bnode(v, hi, lo):
    """node whose children may contain variables above v"""
    if hi is lo:
        return hi
    if hi.var > v and lo.var > v:
        return node(v, hi, lo)
    return ite(node(v, T, F), hi, lo)


def applyn(fid, f, args):
    """lift an n-ary leaf operation"""
    k = (fid,) + tuple(a.id for a in args)
    r = _ap.get(k)
    if r is None:
        v = min((a.var for a in args), default=INF)
        if v == INF:
            r = f(*[a.leaf for a in args])
        else:
            r = _bnode(v, applyn(fid, f, [a.hi if a.var == v else a for a in args]), applyn(fid, f, [a.lo if a.var == v else a for a in args]))
        _ap[k] = r
    return r


# boolean atoms
BV = []
_bv = {}


def bvar(kind, *args):
    k = (kind,) + args
    i = _bv.get(k)
    if i is None:
        i = len(BV)
        BV.append(k)
        _bv[k] = i
    return node(i, T, F)


def bvstr(i):
    k = BV[i]
    if k[0] == 'ge0':
        return '(%s >= 0)' % pstr(k[1])
    if k[0] == 'lt0':
        return '(%s < 0.)' % pstr(k[1])
    if k[0] == 'eq0':
        return '(%s == 0)' % pstr(k[1])
    return '%s(%s)' % (k[0], ','.join(xstr(x) for x in k[1:]))


def dstr(d, n=0):
    if d.var == INF:
        return xstr(d.leaf) if isinstance(d.leaf, (Poly, Ptr)) else str(d.leaf)
    if n > 6:
        return '...'
    return '(%s ? %s : %s)' % (bvstr(d.var), dstr(d.hi, n + 1), dstr(d.lo, n + 1))


# comparisons on polynomials ---------------------------------------------------------------------
def _content(p):
    import math
    den = 1
    for c in p.t.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // math.gcd(den, c.denominator)
    num = 0
    for m, c in p.t.items():
        if m:
            num = math.gcd(num, int(c * den))
    return Fraction(num, den)


CRD = 1 << 22


def coord_bounds(p):
    """(min, max) of a linear form in mesh coordinates; coordinates (crd_*) are below 2^22 in magnitude, gaps (gap_*) below 2^22"""
    lo = hi = 0
    for m, c in p.t.items():
        if m == ():
            lo += c
            hi += c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = ATOMS[m[0][0]]
        if a.kind != 'app':
            return None
        n = a.args[0]
        if n.startswith('crd_'):
            l, h = -CRD, CRD
        elif n.startswith('gap_'):
            l, h = 0, CRD
        else:
            return None
        lo += c * (l if c > 0 else h)
        hi += c * (h if c > 0 else l)
    return lo, hi


def c_ge0_int(p):
    """p >= 0, integer p"""
    c = cval(p)
    if c is not None:
        return T if c >= 0 else F
    if p_nonneg(p):
        return T
    if abs(p.t.get((), 0)) > 1 << 24:      # integer limits mark the end of an exhausted set
        b = coord_bounds(p)
        if b is not None and b[0] >= 0:
            return T
        if b is not None and b[1] < 0:
            return F
    if not p_isint(p):
        return c_lt0_real(pneg(p)) if False else b_not(c_lt0_real(p))
    g = _content(p)
    if g != 1:
        # (g*q + c >= 0) <=> q + floor(c/g) >= 0
        q = {m: norm_num(Fraction(cc) / g) for m, cc in p.t.items() if m}
        c0 = p.t.get((), 0)
        c1 = Fraction(c0) / g
        c1 = c1.numerator // c1.denominator
        if c1:
            q[()] = c1
        p = mk(q)
    if lead(p) < 0:
        # p>=0  <=> not (-p-1 >= 0)
        n = psub(pneg(p), ONE)
        if p_nonneg(n):
            return F
        return b_not(bvar('ge0', n))
    n = psub(pneg(p), ONE)
    if p_nonneg(n):
        return F
    return bvar('ge0', p)


HUGE = 10 ** 300


def c_lt0_real(p):
    c = cval(p)
    if c is not None:
        return T if c < 0 else F
    if p_nonneg(p):
        return F
    c = p.t.get((), 0)
    if abs(c) > HUGE:      # numeric_limits sentinel: data are assumed smaller in magnitude
        return T if c < 0 else F
    g = _content(p)
    if g != 1:
        p = pscale(p, 1 / g)
    if p_isint(p):
        return b_not(c_ge0_int(p))
    return bvar('lt0', p)


def c_eq0(p, integer):
    c = cval(p)
    if c is not None:
        return T if c == 0 else F
    g = _content(p)
    p = pscale(p, 1 / g)
    if lead(p) < 0:
        p = pneg(p)
    if integer and p_isint(pscale(psub(p, const(p.t.get((), 0))), 1)):
        c0 = p.t.get((), 0)
        if isinstance(c0, Fraction):
            return F
        if abs(c0) > 1 << 24:
            b = coord_bounds(p)
            if b is not None and (b[0] > 0 or b[1] < 0):
                return F
        # p = sum + c0, all nonneg and c0>0 -> never zero
        if c0 > 0 and p_nonneg(p):
            return F
    return bvar('eq0', p)


def support(d, seen=None):
    s = set()
    st = [d]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.var != INF:
            s.add(x.var)
            st.append(x.hi)
            st.append(x.lo)
    return s


def dleaves(d):
    out = []
    st = [d]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.var == INF:
            out.append(x.leaf)
        else:
            st.append(x.hi)
            st.append(x.lo)
    return out


def cases(d, g=T):
    """leaf -> guard"""
    memo = {}
    # top-down accumulation in topological order (by processing order of var)
    acc = {d.id: g}
    import heapq
    heap = [(d.var, d.id)]
    objs = {d.id: d}
    out = []
    done = set()
    while heap:
        v, i = heapq.heappop(heap)
        if i in done:
            continue
        done.add(i)
        x = objs[i]
        gg = acc[i]
        if x.var == INF:
            if gg is not F:
                out.append((gg, x.leaf))
            continue
        bv = node(x.var, T, F)
        for ch, c in ((x.hi, bv), (x.lo, b_not(bv))):
            ng = b_and(gg, c)
            if ch.id in acc:
                acc[ch.id] = b_or(acc[ch.id], ng)
            else:
                acc[ch.id] = ng
                objs[ch.id] = ch
                heapq.heappush(heap, (ch.var, ch.id))
    return out


def reset():
    """forget everything (between independent obligations)"""
    for t in (_atoms, _polys, _mm, _ptrs, _nodes, _ite, _ap, _bv):
        t.clear()
    ATOMS.clear()
    BV.clear()
    ZERO.id = 0
    _polys[frozenset()] = ZERO
    _polys[frozenset([((), 1)])] = ONE
    ZERO._leaf = None
    ONE._leaf = None
    NULL._leaf = None
    _ptrs[(('null',), (), ZERO)] = NULL
    _dc[0] = 10
    _pcount[0] = 2
    ONE.id = 1
    for i, d in enumerate((T, F, UNDEF)):
        d.id = i

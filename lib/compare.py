"""Decide whether two summaries (implementation / specification) denote the same behaviour.

1. normal forms are compared node by node (identical interned decision diagram, leaf polynomials equal up to 1e-11 relative): proved;
2. otherwise the two closed forms are evaluated at deterministic pseudo-random points of their atoms (polynomial identity test);
   a point where they differ is a witness of the violation, no such point leaves the obligation 'undecided' (never an alarm).
"""
from fractions import Fraction
import random
import hashlib
import math
import time
from terms import *
import summ
from summ import Cat, Agg, BVec, bv_num, bv_of

TOL = Fraction(1, 10 ** 11)


def poly_close(a, b):
    if a is b:
        return True
    d = psub(a, b)
    if not d.t:
        return True
    scale = max([abs(c) for c in a.t.values()] + [abs(c) for c in b.t.values()] + [0])
    if scale == 0:
        return True
    # only tolerate float noise (non-exact rationals)
    return all(abs(c) <= TOL * scale for c in d.t.values()) and any(isinstance(c, Fraction) for c in d.t.values())


def leaf_close(x, y):
    if x is y:
        return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        return poly_close(x, y)
    if isinstance(x, bool) and isinstance(y, Poly):
        return poly_close(const(int(x)), y)
    if isinstance(y, bool) and isinstance(x, Poly):
        return poly_close(const(int(y)), x)
    return False


def deep_subst(p, a, by):
    """p with atom a replaced by the polynomial `by`, also inside the arguments of uninterpreted applications; None: not possible"""
    r = ZERO
    for m, co in p.t.items():
        t = const(co)
        for q, e in m:
            if q == a:
                f = by
            else:
                A = ATOMS[q]
                f = var(A)
                if A.kind == 'app':
                    args = []
                    for x in A.args:
                        if isinstance(x, Poly):
                            y = deep_subst(x, a, by)
                            x = x if y is None else y
                        args.append(x)
                    args = tuple(args)
                    if args != A.args:
                        f = var(atom('app', args, A.isint, A.nonneg))
            if e < 0:
                if f is not var(ATOMS[q]):
                    return None
                t = pmul(t, mk({((q, e),): 1}))
            else:
                for _ in range(e):
                    t = pmul(t, f)
        r = padd(r, t)
    return r


def equations(c):
    """(atom, polynomial) pairs implied by the path condition c"""
    out = []
    for v in support(c):
        k = BV[v]
        if k[0] == 'eq0':
            if b_and(c, b_not(node(v, T, F))) is F:
                out.append(k[1])
        elif k[0] == 'ge0':
            p = k[1]
            if b_and(c, b_not(node(v, T, F))) is F:
                pass
            elif b_and(c, node(v, T, F)) is F:
                p = psub(const(-1), p)          # p <= -1
            else:
                continue
            # p >= 0 with -p a sum of nonnegative terms: every term is zero
            n = pneg(p)
            if n.t and () not in n.t and p_nonneg(n):
                for m in n.t:
                    if len(m) == 1 and m[0][1] == 1:
                        out.append(mk({m: 1}))
    return out


def equal_modulo(x, y, c):
    """x and y agree once the equations implied by the path condition c are substituted"""
    if not (isinstance(x, Poly) and isinstance(y, Poly)):
        return False
    d = psub(x, y)
    for p in equations(c):
        for m, co in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if any(a == q for mm in p.t if mm != m for q, _ in mm):
                    continue
                rest = pscale(psub(p, mk({m: co})), -Fraction(1) / co)
                r = deep_subst(d, a, rest)
                if r is None:
                    continue
                if not r.t:
                    return True
                d = r
                break
    return not d.t


def infeasible(path):
    """the order literals of a path contradict each other (bounds on one and the same linear form)"""
    lo, hi = {}, {}
    for v, val in path:
        k = BV[v]
        if k[0] not in ('ge0', 'eq0') or (k[0] == 'eq0' and not val):
            continue
        p = k[1]
        c = p.t.get((), 0)
        q = psub(p, const(c))
        neg = bool(q.t) and lead(q) < 0
        if neg:
            q = pneg(q)
        bs = []                      # (q >= b) / (q <= b)
        if k[0] == 'eq0':
            bs = [(True, c if neg else -c), (False, c if neg else -c)]
        elif val:                    # +-q + c >= 0
            bs = [(False, c)] if neg else [(True, -c)]
        else:                        # +-q + c <= -1
            bs = [(True, c + 1)] if neg else [(False, -c - 1)]
        for islo, b in bs:
            if islo:
                lo[q.id] = max(lo.get(q.id, b), b)
            else:
                hi[q.id] = min(hi.get(q.id, b), b)
        if p_nonneg(q):
            lo[q.id] = max(lo.get(q.id, 0), 0)
        if q.id in lo and q.id in hi and lo[q.id] > hi[q.id]:
            return True
    return False


def d_equal(a, b, cond=T):
    """equal under cond"""
    if a is b:
        return True
    memo = set()
    path0 = ()
    if cond is not T:
        for v in support(cond):
            bv = node(v, T, F)
            if b_and(cond, b_not(bv)) is F:
                path0 += ((v, True),)
            elif b_and(cond, bv) is F:
                path0 += ((v, False),)
    st = [(a, b, cond, path0)]
    n = 0
    while st:
        x, y, c, path = st.pop()
        if c is F or x is y:
            continue
        k = (x.id, y.id, c.id)
        if k in memo:
            continue
        memo.add(k)
        n += 1
        if n > 200000:
            return False
        if x.var == INF and y.var == INF:
            if not leaf_close(x.leaf, y.leaf) and not equal_modulo(x.leaf, y.leaf, c):
                if infeasible(path):
                    memo.discard(k)
                    continue
                return False
            continue
        v = min(x.var, y.var)
        xh, xl = (x.hi, x.lo) if x.var == v else (x, x)
        yh, yl = (y.hi, y.lo) if y.var == v else (y, y)
        bv = node(v, T, F)
        st.append((xh, yh, b_and(c, bv), path + ((v, True),)))
        st.append((xl, yl, b_and(c, b_not(bv)), path + ((v, False),)))
    return True


def flat(v):
    if v is None:
        return []
    if isinstance(v, Agg):
        r = []
        for e in v.el:
            r += flat(e)
        return r
    if isinstance(v, BVec):
        return list(v.b)
    if isinstance(v, Cat):
        return [d for _, d in v.parts]
    return [v]


def pair(a, b, ex):
    """align two values into lists of scalar D pairs"""
    if isinstance(a, BVec) or isinstance(b, BVec):
        if a is UNDEF or b is UNDEF:
            return [(bv_num(a), bv_num(b))]
        try:
            return list(zip(bv_of(a), bv_of(b)))
        except summ.Incomplete:
            return [(bv_num(a), bv_num(b))]
    if isinstance(a, Cat) != isinstance(b, Cat) or (isinstance(a, Cat) and [s for s, _ in a.parts] != [s for s, _ in b.parts]):
        n = sum(s for s, _ in (a if isinstance(a, Cat) else b).parts)
        cuts = {0, n}
        for v in (a, b):
            if isinstance(v, Cat):
                o = 0
                for s, _ in v.parts:
                    cuts.add(o)
                    o += s
        cuts = sorted(cuts)
        out = []
        for lo, hi in zip(cuts, cuts[1:]):
            t = ('i', 8 * (hi - lo))
            out.append((ex.extract(a, n, lo, hi - lo, t), ex.extract(b, n, lo, hi - lo, t)))
        return out
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return None
    return list(zip(fa, fb))


# ------------------------------------------------------------------------------------------- evaluation at a point
class Reject(Exception):
    pass


class Point:
    def __init__(self, seed, mode, ov=None, bov=None):
        self.ov = ov or {}       # values imposed on base quantities, by concrete key
        self.bov = bov or {}
        self.keyof = {}
        self.seed = seed
        self.mode = mode
        self.am = {}
        self.dm = {}
        self.pm = {}
        self.bm = {}
        self.trace = {}

    def rnd(self, key):
        h = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=8).digest()
        return random.Random(int.from_bytes(h, 'little'))

    def coin(self, r):
        if self.mode % 5 == 3:
            return int(r.randrange(8) == 0)
        if self.mode % 5 == 4:
            return int(r.randrange(8) != 0)
        return r.getrandbits(1)

    def sample(self, name, isint, ty, key):
        if key in self.ov:
            return self.ov[key]
        r = self.rnd(key)
        if isint:
            if name.startswith('lev'):
                return r.randint(2, 6)
            if name.startswith('flag'):
                if self.mode % 5 == 3:       # few bits set
                    return r.getrandbits(3) & r.getrandbits(3) & r.getrandbits(3)
                if self.mode % 5 == 4:       # most bits set
                    return r.getrandbits(3) | r.getrandbits(3) | r.getrandbits(3)
                return r.getrandbits(3) | (r.getrandbits(3) << 3 if self.mode % 3 == 2 else 0)
            if name.startswith('b_') or ty == ('i', 8):
                return self.coin(r)
            if name.startswith(('n_', 'u_', 'gap_')):
                return r.randint(0, 7)
            if name.startswith('p_'):
                return r.randint(1, 9)
            if self.mode % 3 == 0:
                return r.randint(-2, 2)
            return r.randint(-9, 9)
        if name.startswith(('pos_', 'eps', 'dx', 'h_')):
            return Fraction(r.randint(1, 24), r.choice([1, 2, 3, 5, 7]))
        if self.mode % 4 == 0:
            return Fraction(r.randint(-1, 1))
        return Fraction(r.randint(-30, 30), r.choice([1, 2, 3, 5, 7]))

    def base(self, b):
        out = []
        for x in b:
            if isinstance(x, Poly):
                out.append(self.poly(x))
            elif isinstance(x, Ptr):
                out.append(self.ptr(x))
            elif isinstance(x, tuple):
                out.append(self.base(x))
            else:
                out.append(x)
        return tuple(out)

    def ptr(self, p):
        return ('ptr', self.base(p.base), tuple(self.any(k) for k in p.key), self.poly(p.off))

    def any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Ptr):
            return self.ptr(x)
        if x is UNDEF_V:
            return 'undef'
        return x

    def poly(self, p):
        v = self.pm.get(p.id)
        if v is None:
            v = 0
            for m, c in p.t.items():
                t = c
                for a, e in m:
                    x = self.atom(ATOMS[a])
                    if e >= 0:
                        t = t * x ** e
                    else:
                        if x == 0:
                            raise Reject
                        t = t * Fraction(1) / (Fraction(x) ** (-e))
                v = v + t
            v = norm_num(v)
            self.pm[p.id] = v
        return v

    def atom(self, a):
        v = self.am.get(a.id)
        if v is None:
            v = self._atom(a)
            self.am[a.id] = v
        return v

    def base_atom(self, a, name, ty, key):
        self.keyof[a.id] = (key, name, ty)
        return self.sample(name, a.isint, ty, key)

    def _atom(self, a):
        k = a.kind
        if k == 'arg':
            v = self.base_atom(a, a.args[0], a.args[1], ('arg', a.args[0]))
            self.trace[a.args[0]] = v
            return v
        if k == 'load':
            b, key, off, ty = a.args
            cb = self.base(b)
            ck = tuple(self.any(x) for x in key)
            co = self.poly(off)
            nm = b[1] if len(b) > 1 and isinstance(b[1], str) else ''
            v = self.base_atom(a, nm, ty, ('load', cb, ck, co, a.isint))
            self.trace['%s[%s]%s' % (nm, ','.join(map(str, ck)), '+%s' % co if co else '')] = v
            return v
        if k == 'box':
            v = self.D(a.args[0])
            if isinstance(v, str):
                raise Reject
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, tuple):
                raise Reject
            return v
        if k == 'app':
            f = a.args[0]
            args = tuple(self.any(x) for x in a.args[1:])
            if f == 'sqrt':
                if args[0] < 0:
                    raise Reject
                n = Fraction(args[0])
                return Fraction(math.sqrt(n))
            if f == 'fmod':
                if args[1] == 0:
                    raise Reject
                return Fraction(math.fmod(args[0], args[1]))
            v = self.base_atom(a, f, None, ('app', f, args))
            self.trace['%s(%s)' % (f, ','.join(map(str, args)))] = v
            return v
        if k == 'fdiv':
            v = self.poly(a.args[0])
            return math.floor(Fraction(v) / a.args[1])
        if k == 'fdivs':
            d = self.poly(a.args[1])
            if d == 0:
                raise Reject
            return math.floor(Fraction(self.poly(a.args[0])) / d)
        if k == 'pow2':
            e = self.poly(a.args[0])
            if isinstance(e, Fraction) or abs(e) > 200:
                raise Reject
            return norm_num(Fraction(2) ** e)
        if k == 'inv':
            v = self.poly(a.args[0])
            if v == 0:
                raise Reject
            return Fraction(1) / v
        if k == 'fabs':
            return abs(self.poly(a.args[0]))
        if k == 'ftrunc':
            return int(self.poly(a.args[0]))
        if k == 'ffloor':
            return math.floor(self.poly(a.args[0]))
        if k == 'bitop':
            o, x, y = a.args
            x, y = self.poly(x), self.poly(y)
            if isinstance(x, Fraction) or isinstance(y, Fraction):
                raise Reject
            return x & y if o == 'and' else x | y if o == 'or' else x ^ y
        if k == 'extract':
            x, off, size = a.args
            v = self.poly(x)
            if isinstance(v, Fraction):
                return self.sample('extract', True, None, ('extract', v, off, size))
            w = (v >> (8 * off)) & ((1 << (8 * size)) - 1)
            if w >> (8 * size - 1):
                w -= 1 << (8 * size)
            return w
        raise Reject

    def bvar(self, i):
        v = self.bm.get(i)
        if v is None:
            v = self._bvar(BV[i])
            self.bm[i] = v
        return v

    def _bvar(self, k):
        if k[0] == 'ge0':
            return self.poly(k[1]) >= 0
        if k[0] == 'lt0':
            return self.poly(k[1]) < 0
        if k[0] == 'eq0':
            return self.poly(k[1]) == 0
        if k[0] == 'boxb':
            return bool(self.D(k[1]))
        if k[0] == 'bit':
            v = self.poly(k[1])
            if isinstance(v, Fraction):
                raise Reject
            return bool((v >> k[2]) & 1)
        key = tuple(self.any(x) if not isinstance(x, tuple) else self.base(x) for x in k)
        v = self.bov[key] if key in self.bov else bool(self.coin(self.rnd(key)))
        self.trace[str(key)] = v
        return v

    def D(self, d):
        r = self.dm.get(d.id)
        if r is None:
            x = d
            while x.var != INF:
                x = x.hi if self.bvar(x.var) else x.lo
            r = self.any(x.leaf)
            self.dm[d.id] = r
        return r


def admissible(name, ty, isint, v):
    """could sample() have returned v for a quantity of this name?"""
    if isint:
        if isinstance(v, Fraction):
            return False
        if name.startswith('lev'):
            return 2 <= v <= 6
        if name.startswith('flag'):
            return 0 <= v < 64
        if name.startswith('b_') or ty == ('i', 8):
            return v in (0, 1)
        if name.startswith(('n_', 'u_', 'gap_')):
            return 0 <= v < 100
        if name.startswith('p_'):
            return 1 <= v < 100
        return abs(v) < 1000
    if name.startswith(('pos_', 'eps', 'dx', 'h_')):
        return v > 0
    return True


class Steer:
    """adjust base quantities until the given literals hold (a search for a counterexample on a given path)"""

    def __init__(self, seed, mode):
        self.seed, self.mode, self.ov, self.bov = seed, mode, {}, {}
        self.r = random.Random(seed)

    def point(self):
        return Point(self.seed, self.mode, self.ov, self.bov)

    def push(self, pt, a, new, depth=0):
        """give atom a the value new"""
        if depth > 6:
            return False
        new = norm_num(new) if isinstance(new, Fraction) else new
        if a.kind in ('arg', 'load', 'app') and a.id in pt.keyof:
            key, name, ty = pt.keyof[a.id]
            if not admissible(name, ty, a.isint, new):
                return False
            self.ov[key] = new
            return True
        if a.kind == 'fabs':
            return new >= 0 and self.push_poly(pt, a.args[0], new if self.r.getrandbits(1) else -new, depth + 1)
        if a.kind == 'inv':
            return new != 0 and self.push_poly(pt, a.args[0], Fraction(1) / new, depth + 1)
        if a.kind == 'fdiv':
            return self.push_poly(pt, a.args[0], new * a.args[1] + self.r.randrange(max(1, int(a.args[1]))), depth + 1)
        if a.kind == 'box':
            x = a.args[0]
            while x.var != INF:
                x = x.hi if pt.bvar(x.var) else x.lo
            return isinstance(x.leaf, Poly) and self.push_poly(pt, x.leaf, new, depth + 1)
        return False

    def push_poly(self, pt, p, tgt, depth=0):
        ms = [(m[0][0], c) for m, c in p.t.items() if len(m) == 1 and m[0][1] == 1]
        self.r.shuffle(ms)
        v = pt.poly(p)
        for aid, c in ms:
            a = ATOMS[aid]
            d = Fraction(tgt - v) / c
            if a.isint and d.denominator != 1:
                d = Fraction(math.ceil(d) if self.r.getrandbits(1) else math.floor(d))
            if self.push(pt, a, pt.atom(a) + d, depth):
                return True
        return False

    def fix(self, pt, v, want):
        k = BV[v]
        if k[0] == 'bit':
            x = pt.poly(k[1])
            if isinstance(x, Fraction):
                return False
            return self.push_poly(pt, k[1], x ^ (1 << k[2]))
        if k[0] in ('ge0', 'lt0', 'eq0'):
            isint = all(ATOMS[q].isint for m in k[1].t for q, _ in m)
            j = Fraction(self.r.randint(1, 6), 1 if isint else self.r.choice([1, 3, 7]))
            if k[0] == 'eq0':
                t = 0 if want else j * self.r.choice([1, -1])
            else:
                t = self.r.choice([0, j, j]) if (k[0] == 'ge0') == want else -j
            return self.push_poly(pt, k[1], t)
        if k[0] == 'boxb':
            x = k[1]
            while x.var != INF:
                x = x.hi if pt.bvar(x.var) else x.lo
            return False
        key = tuple(pt.any(x) if not isinstance(x, tuple) else pt.base(x) for x in k)
        self.bov[key] = want
        return True

    def go(self, lits, tries=12):
        for _ in range(tries):
            pt = self.point()
            bad = [(v, w) for v, w in lits if pt.bvar(v) is not w]
            if not bad:
                return pt
            if not any(self.fix(pt, v, w) for v, w in bad):
                return None
        return None


def diff_paths(a, b, cond, limit=12):
    """paths on which the two diagrams reach leaves that are not the same"""
    memo, st, out, n = set(), [(a, b, cond, ())], [], 0
    while st and n < 20000 and len(out) < limit:
        x, y, c, path = st.pop()
        if c is F or x is y or (x.id, y.id, c.id) in memo:
            continue
        memo.add((x.id, y.id, c.id))
        n += 1
        if x.var == INF and y.var == INF:
            if not leaf_close(x.leaf, y.leaf) and not infeasible(path):
                out.append(path)
            continue
        v = min(x.var, y.var)
        xh, xl = (x.hi, x.lo) if x.var == v else (x, x)
        yh, yl = (y.hi, y.lo) if y.var == v else (y, y)
        bv = node(v, T, F)
        st.append((xh, yh, b_and(c, bv), path + ((v, True),)))
        st.append((xl, yl, b_and(c, b_not(bv)), path + ((v, False),)))
    return out


def directed(open_, events, cond, seed, budget=6.0):
    """points on paths where the summaries may differ"""
    t0 = time.time()
    jobs = []
    for lab, x, y, w in open_[:40]:
        try:
            jobs += diff_paths(x, y, cond if lab[0] != 'a' else T, 12 if len(open_) < 8 else 3)
        except TooBig:
            pass
        if time.time() - t0 > budget / 2:
            break
    for S in events:
        for g, n, args, dbg in S.events[:60]:
            jobs += diff_paths(g, F, T, 2)
            if time.time() - t0 > budget / 2:
                break
    for rnd in range(3):
        for k, path in enumerate(jobs):
            if time.time() - t0 > budget:
                return
            try:
                pt = Steer(seed * 7919 + 101 * k + rnd, k + rnd).go(path)
            except (Reject, OverflowError, ZeroDivisionError):
                continue
            if pt is not None:
                yield pt


def close(x, y):
    if x is y or x == y:
        return True
    if isinstance(x, bool) or isinstance(y, bool):
        try:
            return int(x) == int(y)
        except (TypeError, ValueError):
            return False
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
        if isinstance(x, int) and isinstance(y, int):
            return False
        s = max(abs(x), abs(y), 1)
        return abs(x - y) <= s * Fraction(1, 10 ** 9)
    return False


class Result:
    def __init__(self):
        self.status = None       # proved | refuted | undecided
        self.detail = ''
        self.cex = None
        self.where = []
        self.outputs = 0
        self.samples = 0


def written_keys(*exs):
    keys = {}
    for ex in exs:
        for b, l in ex.S.logs.items():
            if ex.is_local(b):
                continue
            for e in l:
                if e.g is F:
                    continue
                if e.kind == 'store':
                    keys.setdefault((b, e.key, e.off, e.size), e.ty)
                else:
                    n = e.size
                    g = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
                    for o in range(0, n, g):
                        keys.setdefault((b, e.key, padd(e.off, const(o)), g), ('i', 8 * g))
    return keys


def compare(exI, exS, nsamples=400, seed=1, ignore_traps=False):
    R = Result()
    SI, SS = exI.S, exS.S
    assume = b_and(SI.assume, SS.assume)
    outs = []      # (label, dI, dS, where)
    p = pair(SI.ret, SS.ret, exI) if SI.ret is not None and SS.ret is not None else []
    if SI.ret is None and SS.ret is not None and SI.trap is T:
        p = []
    elif SS.ret is None and SI.ret is not None and SS.trap is T:
        p = []
    elif p is None or (SI.ret is None) != (SS.ret is None):
        R.status = 'undecided'
        R.detail = 'return shape differs'
        return R
    live = b_not(b_or(SI.trap, SS.trap)) if ignore_traps else b_not(SS.trap)
    cond0 = b_and(assume, live)
    for i, (x, y) in enumerate(p):
        outs.append(('return value' + ('[%d]' % i if len(p) > 1 else ''), x, y, None))
    keys = written_keys(exI, exS)
    for (b, key, off, size), ty in keys.items():
        pt = ptr(b, key, off)
        if 'vp_cur' in str(b):      # scratch variable of the witness itself
            continue
        vi = exI.read(pt, size, ty)
        vs = exS.read(pt, size, ty)
        pp = pair(vi, vs, exI)
        if pp is None:
            R.status = 'undecided'
            R.detail = 'memory shape differs at %s' % xstr(pt)
            return R
        w = None
        for e in exI.S.logs.get(b, []):
            if e.key == key and e.off is off:
                w = e.dbg
        for x, y in pp:
            outs.append(('memory %s' % xstr(pt), x, y, w))
    if not ignore_traps:
        outs.append(('abort/throw condition', b_and(assume, SI.trap), b_and(assume, SS.trap), SI.traps[0][1] if SI.traps else None))
    R.outputs = len(outs) + len(SI.events)
    open_ = [o for o in outs if not d_equal(o[1], o[2], cond0 if o[0][0] != 'a' else T)]
    ev_ok = events_match(SI.events, SS.events, cond0)
    if not open_ and ev_ok:
        R.status = 'proved'
        return R
    tried = 0
    acc = 0

    def points():
        yield from directed(open_, () if ev_ok else (SI, SS), cond0, seed)
        for k in range(1, nsamples * 20 + 1):
            yield Point(seed * 1000003 + k, k)
    for pt in points():
        if acc >= nsamples:
            break
        tried += 1
        try:
            if pt.D(assume) is not True:
                continue
            if pt.D(SS.trap) is True and (ignore_traps or pt.D(SI.trap) is True):
                continue
            if ignore_traps and pt.D(SI.trap) is True:
                continue
            acc += 1
            for lab, x, y, w in open_:
                a, b = pt.D(x), pt.D(y)
                if not close(a, b):
                    R.status = 'refuted'
                    R.detail = '%s: implementation %s, specification %s' % (lab, show(a), show(b))
                    R.cex = dict((k, str(v)) for k, v in pt.trace.items())
                    R.where = [w] if w else []
                    R.impl = dstr(x)[:1500]
                    R.spec = dstr(y)[:1500]
                    return R
            if not ev_ok:
                def evs(S):
                    o, u, st = [], [], {}
                    for g, n, args, dbg in S.events:
                        if pt.D(g) is True:
                            r = (n, tuple(pt.D(a) for a in args), dbg)
                            if n.startswith('emits'):
                                st[(n, str(r[1]))] = r
                            else:
                                (u if n.startswith('emitu') else o).append(r)
                    u.sort(key=lambda r: (r[0], str(r[1])))
                    return o, u, [st[k] for k in sorted(st)]
                for ei, es in zip(evs(SI), evs(SS)):
                    for k in range(max(len(ei), len(es))):
                        x = ei[k] if k < len(ei) else None
                        y = es[k] if k < len(es) else None
                        if x is None or y is None or x[0] != y[0] or len(x[1]) != len(y[1]) or not all(close(a, b) for a, b in zip(x[1], y[1])):
                            R.status = 'refuted'
                            R.detail = 'effect #%d: implementation %s, specification %s' % (
                                k, '%s(%s)' % (x[0], ','.join(map(show, x[1]))) if x else 'none', '%s(%s)' % (y[0], ','.join(map(show, y[1]))) if y else 'none')
                            R.cex = dict((k2, str(v)) for k2, v in pt.trace.items())
                            R.where = [x[2]] if x else []
                            return R
        except Reject:
            continue
    R.samples = acc
    R.status = 'undecided' if acc < nsamples // 4 else 'agree'
    R.detail = '%d outputs not in identical normal form, no difference at %d points' % (len(open_) + (0 if ev_ok else 1), acc)
    R.open = open_
    return R


def events_match(A, B, cond):
    """ordered effects in order; emitu*: as multisets; emits*: as sets (same arguments: guards united)"""
    def parts(E):
        o, u, st = [], [], {}
        for g, n, args, dbg in E:
            if n.startswith('emits'):
                k = (n, tuple(id(a) for a in args))
                st[k] = (b_or(st[k][0], g), n, args) if k in st else (g, n, args)
            elif n.startswith('emitu'):
                u.append((g, n, args))
            else:
                o.append((g, n, args))
        return o, u, list(st.values())

    def same(a, b):
        return a[1] == b[1] and len(a[2]) == len(b[2]) and d_equal(a[0], b[0], cond) and all(d_equal(x, y, b_and(cond, a[0])) for x, y in zip(a[2], b[2]))
    oa, ua, sa = parts(A)
    ob, ub, sb = parts(B)
    if len(oa) != len(ob) or not all(same(a, b) for a, b in zip(oa, ob)):
        return False
    for x, y in ((ua, ub), (sa, sb)):
        if len(x) != len(y):
            return False
        rest = list(y)
        for a in x:
            for k, b in enumerate(rest):
                if a[1] == b[1] and same(a, b):
                    rest.pop(k)
                    break
            else:
                return False
    return True


def show(x):
    if isinstance(x, Fraction):
        return '%s (%.6g)' % (x, float(x)) if x.denominator != 1 else str(x)
    if isinstance(x, tuple):
        return str(x)
    return str(x)

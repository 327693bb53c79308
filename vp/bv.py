"""Hash-consed bit-vector terms with local simplification.

Every term carries a wrapped interval (lo,len) and known-bit masks, so most
branch conditions on exponents, categories and lengths fold without a solver.
Booleans are 1-bit vectors.  Semantics of the operators are SMT-LIB's
(shift by >= width gives 0 / sign; x udiv 0 = all ones; x urem 0 = x).
"""
import sys
sys.setrecursionlimit(100000)

_tab = {}
_cnt = [0]


class N:
    __slots__ = ('op', 'w', 'a', 'k', 'id', 'lo', 'ln', 'z', 'o')

    def __repr__(self):
        return show(self, 3)


def show(n, d=4):
    if n.op == 'c':
        return '%d:%d' % (n.k, n.w)
    if n.op == 'v':
        return '%s:%d' % (n.k, n.w)
    if d == 0:
        return '#%d' % n.id
    ks = '' if n.k is None else '[%s]' % (n.k,)
    return '(%s%s/%d %s)' % (n.op, ks, n.w, ' '.join(show(x, d - 1) for x in n.a))


def _mk(op, w, a, k=None, iv=None, kb=None):
    key = (op, w, k) + tuple([x.id for x in a])
    n = _tab.get(key)
    if n is not None:
        return n
    M = (1 << w) - 1
    z, o = kb if kb is not None else (0, 0)
    lo, ln = iv if iv is not None else (0, M)
    if ln > M:
        lo, ln = 0, M
    lo &= M
    # refine interval with known bits
    if z or o:
        klo = o
        khi = M & ~z
        if lo + ln > M:            # wraps: replace if kb tighter
            if khi - klo < ln:
                lo, ln = klo, khi - klo
        else:
            nlo = max(lo, klo)
            nhi = min(lo + ln, khi)
            if nlo <= nhi:
                lo, ln = nlo, nhi - nlo
    # refine known bits with interval
    if lo + ln <= M:
        hi = lo + ln
        x = lo ^ hi
        b = x.bit_length()
        mask = M & ~((1 << b) - 1)
        o |= lo & mask
        z |= ~lo & mask
    if ln == 0 and op != 'c':
        return const(lo, w)
    if (z | o) == M and op != 'c':
        return const(o, w)
    n = N()
    n.op = op
    n.w = w
    n.a = a
    n.k = k
    n.lo = lo
    n.ln = ln
    n.z = z
    n.o = o
    _cnt[0] += 1
    n.id = _cnt[0]
    _tab[key] = n
    return n


def const(v, w):
    M = (1 << w) - 1
    v &= M
    key = ('c', w, v)
    n = _tab.get(key)
    if n is not None:
        return n
    n = N()
    n.op = 'c'
    n.w = w
    n.a = ()
    n.k = v
    n.lo = v
    n.ln = 0
    n.z = M & ~v
    n.o = v
    _cnt[0] += 1
    n.id = _cnt[0]
    _tab[key] = n
    return n


T = const(1, 1)
F = const(0, 1)
_fresh = [0]


def var(name, w, lo=None, hi=None):
    """A variable.  A range (lo,hi) is an *assumption* on the variable: the
    solver layer adds it to every query that mentions the variable."""
    if lo is None:
        return _mk('v', w, (), name)
    return _mk('v', w, (), (name, lo, hi), iv=(lo, hi - lo))


def fresh(w, pfx='u'):
    _fresh[0] += 1
    return var('%s!%d' % (pfx, _fresh[0]), w)


def isc(n):
    return n.op == 'c'


def ubounds(n):
    if n.lo + n.ln < (1 << n.w):
        return n.lo, n.lo + n.ln
    return 0, (1 << n.w) - 1


def sbounds(n):
    h = 1 << (n.w - 1)
    M = 1 << n.w
    l = (n.lo + h) % M
    if l + n.ln < M:
        return l - h, l + n.ln - h
    return -h, h - 1


def sval(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- bool / bitwise
def not_(a):
    if a.op == 'c':
        return const(~a.k, a.w)
    if a.op == 'not':
        return a.a[0]
    if a.w == 1:
        if a.op == 'ult':
            return _mk('ule', 1, (a.a[1], a.a[0]))
        if a.op == 'ule':
            return _mk('ult', 1, (a.a[1], a.a[0]))
        if a.op == 'slt':
            return _mk('sle', 1, (a.a[1], a.a[0]))
        if a.op == 'sle':
            return _mk('slt', 1, (a.a[1], a.a[0]))
    M = (1 << a.w) - 1
    return _mk('not', a.w, (a,), iv=(M - a.lo - a.ln, a.ln), kb=(a.o, a.z))


def and_(a, b):
    if a is b:
        return a
    if a.op == 'c':
        a, b = b, a
    w = a.w
    M = (1 << w) - 1
    if b.op == 'c':
        c = b.k
        if a.op == 'c':
            return const(a.k & c, w)
        if c == 0:
            return b
        if c == M or (M & ~c & ~a.z) == 0:
            return a
        if a.op == 'and' and a.a[1].op == 'c':
            return and_(a.a[0], const(a.a[1].k & c, w))
        # contiguous masks -> extract
        t = c & -c
        l = t.bit_length() - 1
        h = c.bit_length()
        if c == (1 << h) - (1 << l):
            e = extract(a, l, h - l)
            r = concat(e, const(0, l)) if l else e
            return zext(r, w)
        if a.op in ('zext',) and h <= a.a[0].w:
            return zext(and_(a.a[0], const(c, a.a[0].w)), w)
    else:
        if w == 1:
            if not_(a) is b:
                return F
            # absorption
            if a.op == 'and' and (a.a[0] is b or a.a[1] is b):
                return a
            if b.op == 'and' and (b.a[0] is a or b.a[1] is a):
                return b
            if a.op == 'or' and (a.a[0] is b or a.a[1] is b):
                return b
            if b.op == 'or' and (b.a[0] is a or b.a[1] is a):
                return a
            na, nb = not_(a), not_(b)
            if a.op == 'and' and (a.a[0] is nb or a.a[1] is nb):
                return F
            if b.op == 'and' and (b.a[0] is na or b.a[1] is na):
                return F
            if a.op == 'or':
                if a.a[0] is nb:
                    return and_(a.a[1], b)
                if a.a[1] is nb:
                    return and_(a.a[0], b)
            if b.op == 'or':
                if b.a[0] is na:
                    return and_(b.a[1], a)
                if b.a[1] is na:
                    return and_(b.a[0], a)
            # or(x,y) & or(x,!y)
        # narrow by known-zero high bits
        za = (a.w - (M & ~a.z).bit_length())
        zb = (b.w - (M & ~b.z).bit_length())
        zz = max(za, zb)
        if zz and (a.op == 'zext' or b.op == 'zext' or a.op == 'concat' or b.op == 'concat'):
            return zext(and_(extract(a, 0, w - zz), extract(b, 0, w - zz)), w)
        if a.id > b.id:
            a, b = b, a
    _, ah = ubounds(a)
    _, bh = ubounds(b)
    return _mk('and', w, (a, b), iv=(0, min(ah, bh)), kb=(a.z | b.z, a.o & b.o))


def or_(a, b):
    if a is b:
        return a
    if a.op == 'c':
        a, b = b, a
    w = a.w
    M = (1 << w) - 1
    if b.op == 'c':
        if a.op == 'c':
            return const(a.k | b.k, w)
        if b.k == 0:
            return a
        if b.k == M:
            return b
        if (b.k & ~a.o) == 0:
            return a
        if a.op == 'or' and a.a[1].op == 'c':
            return or_(a.a[0], const(a.a[1].k | b.k, w))
    if w == 1:
        return not_(and_(not_(a), not_(b)))
    # disjoint or -> concat
    if (a.z | b.z) == M:
        r = _disj(a, b, w, M)
        if r is not None:
            return r
        r = _disj(b, a, w, M)
        if r is not None:
            return r
    if a.op != 'c' and b.op != 'c' and a.id > b.id:
        a, b = b, a
    al, ah = ubounds(a)
    bl, bh = ubounds(b)
    hb = max(ah.bit_length(), bh.bit_length())
    lo = max(al, bl)
    return _mk('or', w, (a, b), iv=(lo, (1 << hb) - 1 - lo), kb=(a.z & b.z, a.o | b.o))


def _disj(a, b, w, M):
    # a occupies high part, b occupies low part, split point s
    nb = (M & ~b.z).bit_length()
    na = M & ~a.z
    if na == 0:
        return b
    la = (na & -na).bit_length() - 1
    if la >= nb and nb > 0:
        s = nb
        return concat(extract(a, s, w - s), extract(b, 0, s))
    return None


def xor_(a, b):
    if a is b:
        return const(0, a.w)
    if a.op == 'c':
        a, b = b, a
    w = a.w
    M = (1 << w) - 1
    if b.op == 'c':
        if a.op == 'c':
            return const(a.k ^ b.k, w)
        if b.k == 0:
            return a
        if b.k == M:
            return not_(a)
        if a.op == 'xor' and a.a[1].op == 'c':
            return xor_(a.a[0], const(a.a[1].k ^ b.k, w))
        if a.op == 'zext' and b.k >> a.a[0].w == 0:
            return zext(xor_(a.a[0], const(b.k, a.a[0].w)), w)
    else:
        if a.op == 'not' and b.op == 'not':
            return xor_(a.a[0], b.a[0])
        if a.op == 'not':
            return not_(xor_(a.a[0], b))
        if b.op == 'not':
            return not_(xor_(a, b.a[0]))
        if w == 1:
            na = not_(a)
            if na is b:
                return T
        if a.id > b.id:
            a, b = b, a
    return _mk('xor', w, (a, b), kb=((a.z & b.z) | (a.o & b.o), (a.z & b.o) | (a.o & b.z)))


def implies(a, b):
    return or_(not_(a), b)


def ands(xs):
    r = T
    for x in xs:
        r = and_(r, x)
    return r


def ors(xs):
    r = F
    for x in xs:
        r = or_(r, x)
    return r


# ---------------------------------------------------------------- structure
def concat(a, b):
    """a = high part, b = low part"""
    if b is None or b.w == 0:
        return a
    if a is None or a.w == 0:
        return b
    w = a.w + b.w
    if a.op == 'c' and b.op == 'c':
        return const((a.k << b.w) | b.k, w)
    if a.op == 'c' and a.k == 0:
        return zext(b, w)
    if a.op == 'ex' and b.op == 'ex' and a.a[0] is b.a[0] and a.k == b.k + b.w:
        return extract(a.a[0], b.k, w)
    if a.op == 'ex' and a.a[0] is b and a.k == b.w:
        return extract(b, 0, w) if False else _cc(a, b, w)
    if b.op == 'concat':
        # merge a ++ (c ++ d)
        c, d = b.a
        m = concat(a, c)
        if m.op != 'concat' or (m.op == 'concat' and not (m.a[0] is a and m.a[1] is c)):
            return concat(m, d)
    if a.op == 'zext' and True:
        return zext(concat(a.a[0], b), w)
    if a.op == 'concat':
        # right-associate: (c ++ d) ++ b -> c ++ (d ++ b)
        c, d = a.a
        return concat(c, concat(d, b))
    return _cc(a, b, w)


def _cc(a, b, w):
    al, ah = ubounds(a)
    bl, bh = ubounds(b)
    if al == ah:
        iv = ((al << b.w) + bl, bh - bl)
    else:
        lo = (al << b.w) + bl
        iv = (lo, (ah << b.w) + bh - lo)
    return _mk('concat', w, (a, b), iv=iv, kb=((a.z << b.w) | b.z, (a.o << b.w) | b.o))


def zext(a, w):
    if a.w == w:
        return a
    assert w > a.w, (a.w, w)
    if a.op == 'c':
        return const(a.k, w)
    if a.op == 'zext':
        return zext(a.a[0], w)
    M = (1 << a.w) - 1
    H = ((1 << w) - 1) ^ M
    # drop known-zero high bits so that zext is canonical
    nb = (M & ~a.z).bit_length()
    if nb < a.w:
        e = extract(a, 0, nb)
        if e.w < a.w and e.op != 'ex':
            return zext(e, w)
    if a.op == 'add' and a.a[1].op == 'c':
        # x + c without unsigned wrap distributes over zext
        x, c = a.a[0], a.a[1].k
        xl, xh = ubounds(x)
        if xh + c <= M:
            return add(zext(x, w), const(c, w))
        sc = c - (1 << a.w)
        if xl + sc >= 0:
            return add(zext(x, w), const(sc, w))
    l, h = ubounds(a)
    return _mk('zext', w, (a,), iv=(l, h - l), kb=(a.z | H, a.o))


def sext(a, w):
    if a.w == w:
        return a
    if a.op == 'c':
        return const(sval(a.k, a.w), w)
    s = 1 << (a.w - 1)
    if a.z & s:
        return zext(a, w)
    if a.op == 'sext':
        return sext(a.a[0], w)
    if a.op == 'add' and a.a[1].op == 'c':
        x, c = a.a[0], sval(a.a[1].k, a.w)
        xl, xh = sbounds(x)
        if -s <= xl + c and xh + c < s:
            return add(sext(x, w), const(c, w))
    l, h = sbounds(a)
    H = ((1 << w) - 1) ^ ((1 << a.w) - 1)
    z, o = a.z, a.o
    if a.o & s:
        o |= H
    return _mk('sext', w, (a,), iv=(l, h - l), kb=(z, o))


_xc = {}


def extract(a, lo, w):
    if lo == 0 and w == a.w:
        return a
    if a.op == 'c':
        return const(a.k >> lo, w)
    k = (a.id, lo, w)
    r = _xc.get(k)
    if r is None:
        r = _xc[k] = _extract(a, lo, w)
    return r


def _extract(a, lo, w):
    assert w > 0 and lo + w <= a.w, (lo, w, a.w)
    op = a.op
    if op == 'c':
        return const(a.k >> lo, w)
    if op == 'ex':
        return extract(a.a[0], a.k + lo, w)
    if op == 'concat':
        h, l = a.a
        if lo >= l.w:
            return extract(h, lo - l.w, w)
        if lo + w <= l.w:
            return extract(l, lo, w)
        return concat(extract(h, 0, lo + w - l.w), extract(l, lo, l.w - lo))
    if op == 'zext':
        x = a.a[0]
        if lo >= x.w:
            return const(0, w)
        if lo + w <= x.w:
            return extract(x, lo, w)
        return zext(extract(x, lo, x.w - lo), w)
    if op == 'sext':
        x = a.a[0]
        if lo + w <= x.w:
            return extract(x, lo, w)
        if lo == 0:
            return sext(x, w)
    if op == 'not':
        return not_(extract(a.a[0], lo, w))
    if op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor_}[op]
        return f(extract(a.a[0], lo, w), extract(a.a[1], lo, w))
    if op == 'ite':
        x, y = a.a[1], a.a[2]
        if x.op == 'c' or y.op == 'c' or x.op in ('zext', 'concat', 'ite', 'ex') and y.op in ('zext', 'concat', 'ite', 'ex'):
            return ite(a.a[0], extract(x, lo, w), extract(y, lo, w))
    if lo == 0 and (op in ('add', 'sub') or op == 'mul' and (a.a[0].op == 'c' or a.a[1].op == 'c')):
        f = {'add': add, 'sub': sub, 'mul': mul}[op]
        return f(extract(a.a[0], 0, w), extract(a.a[1], 0, w))
    m = (1 << w) - 1
    z, o = (a.z >> lo) & m, (a.o >> lo) & m
    l, h = ubounds(a)
    l2, h2 = l >> lo, h >> lo
    if h2 - l2 <= m and (l2 & m) + (h2 - l2) <= m or h2 - l2 <= m and lo == 0:
        iv = (l2 & m, h2 - l2)
    elif lo == 0 and a.ln <= m:
        iv = (a.lo & m, a.ln)
    else:
        iv = None
    return _mk('ex', w, (a,), lo, iv=iv, kb=(z, o))


def ite(c, a, b):
    if c.op == 'c':
        return a if c.k else b
    if a is b:
        return a
    assert a.w == b.w, (a.w, b.w)
    if c.op == 'not':
        return ite(c.a[0], b, a)
    w = a.w
    if w == 1:
        if a is T:
            return or_(c, b)
        if a is F:
            return and_(not_(c), b)
        if b is T:
            return or_(not_(c), a)
        if b is F:
            return and_(c, a)
        if a is c:
            return or_(c, b)
        if b is c:
            return and_(c, a)
        if a is not_(b):
            return xor_(c, b)
    if a.op == 'ite':
        if a.a[0] is c:
            return ite(c, a.a[1], b)
        if a.a[2] is b:
            return ite(and_(c, a.a[0]), a.a[1], b)
        if a.a[1] is b:
            return ite(and_(c, not_(a.a[0])), a.a[2], b)
    if b.op == 'ite':
        if b.a[0] is c:
            return ite(c, a, b.a[2])
        if b.a[1] is a:
            return ite(or_(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return ite(or_(c, not_(b.a[0])), a, b.a[1])
    M = (1 << w) - 1
    if w > 1:
        # push ite under zext/concat with common structure
        za = (M & ~a.z).bit_length()
        zb = (M & ~b.z).bit_length()
        nb = max(za, zb)
        if nb < w and nb > 0:
            return zext(ite(c, extract(a, 0, nb), extract(b, 0, nb)), w)
        if a.op == 'concat' and b.op == 'concat' and a.a[1].w == b.a[1].w:
            if a.a[1] is b.a[1] or a.a[0] is b.a[0]:
                return concat(ite(c, a.a[0], b.a[0]), ite(c, a.a[1], b.a[1]))
    # hull of wrapped intervals
    lo1, h1 = a.lo, a.lo + a.ln
    lo2, h2 = b.lo, b.lo + b.ln
    best = None
    MM = M + 1
    for s, (l, h) in ((lo1, (lo2, h2)), (lo2, (lo1, h1))):
        own = (a.ln if s == lo1 else b.ln)
        d = (l - s) % MM
        e = max(own, d + (h - l))
        if best is None or e < best[1]:
            best = (s, e)
    if lo1 == lo2:
        best = (lo1, max(a.ln, b.ln))
    return _mk('ite', w, (c, a, b), iv=best, kb=(a.z & b.z, a.o & b.o))


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if a.op == 'c':
        a, b = b, a
    w = a.w
    if b.op == 'c':
        if a.op == 'c':
            return const(a.k + b.k, w)
        if b.k == 0:
            return a
        if a.op == 'add' and a.a[1].op == 'c':
            return add(a.a[0], const(a.a[1].k + b.k, w))
        if a.op == 'sub' and a.a[0].op == 'c':
            return sub(const(a.a[0].k + b.k, w), a.a[1])
        if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c':
            return ite(a.a[0], const(a.a[1].k + b.k, w), const(a.a[2].k + b.k, w))
        if w == 1:
            return not_(a)
    else:
        # pull constants out
        if a.op == 'add' and a.a[1].op == 'c':
            return add(add(a.a[0], b), a.a[1])
        if b.op == 'add' and b.a[1].op == 'c':
            return add(add(a, b.a[0]), b.a[1])
        if a.op == 'sub' and a.a[1] is b:
            return a.a[0]
        if b.op == 'sub' and b.a[1] is a:
            return b.a[0]
        if b.op == 'sub' and b.a[0].op == 'c':
            # a + (c - x) = (a - x) + c
            return add(sub(a, b.a[1]), b.a[0])
        if a.op == 'sub' and a.a[0].op == 'c':
            return add(sub(b, a.a[1]), a.a[0])
        if a.id > b.id:
            a, b = b, a
        M = (1 << w) - 1
        if (a.z | b.z) == M:
            return or_(a, b)
    # low zero bits stay
    tz = _ctz(a.z & b.z)
    kb = ((1 << tz) - 1, 0) if tz else None
    return _mk('add', w, (a, b), iv=(a.lo + b.lo, a.ln + b.ln), kb=kb)


def _ctz(z):
    t = 0
    while z & 1:
        t += 1
        z >>= 1
    return t


def sub(a, b):
    if a is b:
        return const(0, a.w)
    w = a.w
    if b.op == 'c':
        return add(a, const(-b.k, w))
    if a.op == 'add' and a.a[1].op == 'c':
        return add(sub(a.a[0], b), a.a[1])
    if b.op == 'add' and b.a[1].op == 'c':
        return add(sub(a, b.a[0]), const(-b.a[1].k, w))
    if b.op == 'sub':
        # a - (x - y)
        x, y = b.a
        if x.op == 'c':
            return add(add(a, y), const(-x.k, w))
        if x is a:
            return y
    if a.op == 'sub':
        x, y = a.a
        if x is b:
            return sub(const(0, w), y)
        if x.op == 'c' and x.k:
            return add(sub(const(0, w), add(y, b)), x)
    if a.op == 'add':
        x, y = a.a
        if x is b:
            return y
        if y is b:
            return x
    if b.op == 'add':
        x, y = b.a
        if x is a:
            return sub(const(0, w), y)
        if y is a:
            return sub(const(0, w), x)
    tz = _ctz(a.z & b.z)
    kb = ((1 << tz) - 1, 0) if tz else None
    return _mk('sub', w, (a, b), iv=(a.lo - b.lo - b.ln, a.ln + b.ln), kb=kb)


def neg(a):
    return sub(const(0, a.w), a)


def mul(a, b):
    if a.op == 'c':
        a, b = b, a
    w = a.w
    M = (1 << w) - 1
    if b.op == 'c':
        if a.op == 'c':
            return const(a.k * b.k, w)
        if b.k == 0:
            return b
        if b.k == 1:
            return a
        if b.k & (b.k - 1) == 0:
            return shlc(a, b.k.bit_length() - 1)
    al, ah = ubounds(a)
    bl, bh = ubounds(b)
    na, nb = max(1, ah.bit_length()), max(1, bh.bit_length())
    if na + nb < w:
        # canonical: full product at the minimal width
        x, y = extract(a, 0, na), extract(b, 0, nb)
        return zext(mul(zext(x, na + nb), zext(y, na + nb)), w)
    if b.op != 'c' and a.id > b.id:
        a, b = b, a
    al, ah = ubounds(a)
    bl, bh = ubounds(b)
    iv = None
    if ah * bh <= M:
        iv = (al * bl, ah * bh - al * bl)
    tz = min(w, _ctz(a.z) + _ctz(b.z))
    return _mk('mul', w, (a, b), iv=iv, kb=((1 << tz) - 1, 0) if tz else None)


def udiv(a, b):
    w = a.w
    if b.op == 'c':
        if b.k == 1:
            return a
        if a.op == 'c':
            return const(a.k // b.k if b.k else -1, w)
        if b.k and b.k & (b.k - 1) == 0:
            return lshrc(a, b.k.bit_length() - 1)
    al, ah = ubounds(a)
    bl, bh = ubounds(b)
    if ah < bl:
        return const(0, w)
    n = max(ah.bit_length(), bh.bit_length(), 1)
    if n < w and bl > 0:
        return zext(udiv(extract(a, 0, n), extract(b, 0, n)), w)
    iv = None
    if bl > 0:
        lo, hi = al // bh, ah // bl
        iv = (lo, hi - lo)
    return _mk('udiv', w, (a, b), iv=iv)


def urem(a, b):
    w = a.w
    if b.op == 'c':
        if b.k == 1:
            return const(0, w)
        if a.op == 'c':
            return const(a.k % b.k if b.k else a.k, w)
        if b.k and b.k & (b.k - 1) == 0:
            s = b.k.bit_length() - 1
            return zext(extract(a, 0, s), w)
    al, ah = ubounds(a)
    bl, bh = ubounds(b)
    if ah < bl:
        return a
    n = max(ah.bit_length(), bh.bit_length(), 1)
    if n < w and bl > 0:
        return zext(urem(extract(a, 0, n), extract(b, 0, n)), w)
    iv = (0, min(ah, bh - 1)) if bl > 0 else None
    return _mk('urem', w, (a, b), iv=iv)


def sdiv(a, b):
    w = a.w
    if sbounds(a)[0] >= 0 and sbounds(b)[0] >= 0:
        return udiv(a, b)
    na, nb = slt(a, const(0, w)), slt(b, const(0, w))
    q = udiv(ite(na, neg(a), a), ite(nb, neg(b), b))
    return ite(xor_(na, nb), neg(q), q)


def srem(a, b):
    w = a.w
    if sbounds(a)[0] >= 0 and sbounds(b)[0] >= 0:
        return urem(a, b)
    na, nb = slt(a, const(0, w)), slt(b, const(0, w))
    q = urem(ite(na, neg(a), a), ite(nb, neg(b), b))
    return ite(na, neg(q), q)


def shlc(a, s):
    if s == 0:
        return a
    if s >= a.w:
        return const(0, a.w)
    return concat(extract(a, 0, a.w - s), const(0, s))


def lshrc(a, s):
    if s == 0:
        return a
    if s >= a.w:
        return const(0, a.w)
    return zext(extract(a, s, a.w - s), a.w)


def ashrc(a, s):
    if s == 0:
        return a
    if s >= a.w:
        s = a.w - 1
    return sext(extract(a, s, a.w - s), a.w)


def shl(a, b):
    w = a.w
    if b.op == 'c':
        return shlc(a, b.k)
    if a.op == 'c' and a.k == 0:
        return a
    bl, bh = ubounds(b)
    if bl >= w:
        return const(0, w)
    if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c':
        return ite(b.a[0], shlc(a, b.a[1].k), shlc(a, b.a[2].k))
    al, ah = ubounds(a)
    M = (1 << w) - 1
    iv = None
    if bh < 2 * w + 64 and (ah << bh) <= M:
        iv = (al << bl, (ah << bh) - (al << bl))
    tz = min(w, _ctz(a.z) + bl)
    return _mk('shl', w, (a, b), iv=iv, kb=((1 << tz) - 1, 0) if tz else None)


def lshr(a, b):
    w = a.w
    if b.op == 'c':
        return lshrc(a, b.k)
    if a.op == 'c' and a.k == 0:
        return a
    bl, bh = ubounds(b)
    if bl >= w:
        return const(0, w)
    if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c':
        return ite(b.a[0], lshrc(a, b.a[1].k), lshrc(a, b.a[2].k))
    al, ah = ubounds(a)
    n = max(1, ah.bit_length())
    if n < w and bh < (1 << n.bit_length() + 1) and False:
        pass
    lo = al >> min(bh, w)
    hi = ah >> min(bl, w)
    return _mk('lshr', w, (a, b), iv=(lo, hi - lo))


def ashr(a, b):
    w = a.w
    if b.op == 'c':
        return ashrc(a, b.k)
    if a.z >> (w - 1):
        return lshr(a, b)
    return _mk('ashr', w, (a, b))


def clz(a):
    w = a.w
    if a.op == 'c':
        return const(w - a.k.bit_length(), w)
    al, ah = ubounds(a)
    n = max(1, ah.bit_length())
    if n < w:
        if a.op == 'zext' or a.op == 'c' or True:
            x = extract(a, 0, n)
            if (1 << n) > n:
                return add(_zx_or_tr(clz(x), w), const(w - n, w))
    lo, hi = w - ah.bit_length(), w - al.bit_length()
    return _mk('clz', w, (a,), iv=(lo, hi - lo))


def _zx_or_tr(x, w):
    return zext(x, w) if x.w <= w else extract(x, 0, w)


def bitrev(a):
    r = None
    for i in range(a.w):
        b = extract(a, i, 1)
        r = b if r is None else concat(r, b)
    return r


def ctz(a):
    w = a.w
    if a.op == 'c':
        return const(((a.k & -a.k).bit_length() - 1) if a.k else w, w)
    lo = min(w, _ctz(a.z))
    hi = (a.o & -a.o).bit_length() - 1 if a.o else w
    if lo == hi:
        return const(lo, w)
    return _mk('ctz', w, (a,), iv=(lo, hi - lo))


def popcnt(a):
    w = a.w
    if a.op == 'c':
        return const(bin(a.k).count('1'), w)
    r = const(0, w)
    for i in range(w):
        r = add(r, zext(extract(a, i, 1), w))
    return r


# ---------------------------------------------------------------- comparisons
def eq(a, b):
    if a.op == 'ite' or b.op == 'ite':
        k = ('eq', a.id, b.id)
        r = _xc.get(k)
        if r is None:
            r = _xc[k] = _eq(a, b)
        return r
    return _eq(a, b)


def _eq(a, b):
    if a is b:
        return T
    assert a.w == b.w, (a.w, b.w)
    if a.op == 'c':
        a, b = b, a
    w = a.w
    if (a.z & b.o) or (a.o & b.z):
        return F
    M = (1 << w) - 1
    # disjoint intervals
    d = (b.lo - a.lo) & M
    if d > a.ln and d + b.ln <= M:
        return F
    if b.op == 'c':
        c = b.k
        if a.op == 'c':
            return T if a.k == c else F
        if w == 1:
            return a if c else not_(a)
        op = a.op
        if op == 'zext':
            return eq(a.a[0], const(c, a.a[0].w))
        if op == 'add' and a.a[1].op == 'c':
            return eq(a.a[0], const(c - a.a[1].k, w))
        if op == 'sub' and a.a[0].op == 'c':
            return eq(a.a[1], const(a.a[0].k - c, w))
        if op == 'sub' and c == 0:
            return eq(a.a[0], a.a[1])
        if op == 'not':
            return eq(a.a[0], const(~c, w))
        if op == 'xor' and a.a[1].op == 'c':
            return eq(a.a[0], const(a.a[1].k ^ c, w))
        if op == 'xor' and c == 0:
            return eq(a.a[0], a.a[1])
        if op == 'concat':
            h, l = a.a
            return and_(eq(h, const(c >> l.w, h.w)), eq(l, const(c, l.w)))
        if op == 'or' and c == 0:
            return and_(eq(a.a[0], b), eq(a.a[1], b))
        if op == 'ite':
            x, y = a.a[1], a.a[2]
            ex = eq(x, b) if (x.op == 'c' or x.op == 'ite') else None
            ey = eq(y, b) if (y.op == 'c' or y.op == 'ite') else None
            if ex is None and _neq(x, c):
                ex = F
            if ey is None and _neq(y, c):
                ey = F
            if ex is not None or ey is not None:
                if ex is None:
                    ex = eq(x, b)
                if ey is None:
                    ey = eq(y, b)
                return ite(a.a[0], ex, ey)
        if op == 'sext':
            x = a.a[0]
            cc = c & ((1 << x.w) - 1)
            if (sval(cc, x.w) & M) != c:
                return F
            return eq(x, const(cc, x.w))
    else:
        if a.op == 'zext' and b.op == 'zext':
            n = max(a.a[0].w, b.a[0].w)
            return eq(zext(a.a[0], n), zext(b.a[0], n))
        if a.op == 'add' and b.op == 'add' and a.a[1].op == 'c' and b.a[1].op == 'c':
            if a.a[0] is b.a[0]:
                return F
            return eq(a.a[0], add(b.a[0], const(b.a[1].k - a.a[1].k, w)))
        if a.op == 'add' and a.a[1].op == 'c' and a.a[0] is b:
            return F
        if b.op == 'add' and b.a[1].op == 'c' and b.a[0] is a:
            return F
        if w == 1:
            return not_(xor_(a, b))
        if a.op == 'not' and b.op == 'not':
            return eq(a.a[0], b.a[0])
        if a.op == 'concat' and b.op == 'concat' and a.a[1].w == b.a[1].w:
            return and_(eq(a.a[0], b.a[0]), eq(a.a[1], b.a[1]))
        if a.id > b.id:
            a, b = b, a
    return _mk('eq', 1, (a, b))


def _neq(x, c):
    if (x.z & c) or (x.o & ~c):
        return True
    M = (1 << x.w) - 1
    d = (c - x.lo) & M
    return d > x.ln


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a.op == 'ite' or b.op == 'ite':
        k = ('ult', a.id, b.id)
        r = _xc.get(k)
        if r is None:
            r = _xc[k] = _ult(a, b)
        return r
    return _ult(a, b)


def _ult(a, b):
    if a is b:
        return F
    assert a.w == b.w
    al, ah = ubounds(a)
    bl, bh = ubounds(b)
    if ah < bl:
        return T
    if al >= bh:
        return F
    w = a.w
    n = max(ah, bh).bit_length()
    if n < w:
        return ult(extract(a, 0, n), extract(b, 0, n))
    if b.op == 'c' and b.k == 1:
        return eq(a, const(0, w))
    if a.op == 'c' and a.k == 0:
        return ne(b, a)
    if b.op == 'c' and b.k & (b.k - 1) == 0:
        s = b.k.bit_length() - 1
        return eq(extract(a, s, w - s), const(0, w - s))
    if a.op == 'c' and (a.k + 1) & a.k == 0:
        s = a.k.bit_length()
        return ne(extract(b, s, w - s), const(0, w - s))
    if b.op == 'c':
        if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
            return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
        if a.op == 'add' and a.a[1].op == 'c':
            x, c = a.a[0], a.a[1].k
            xl, xh = ubounds(x)
            if xh + c < (1 << w) and b.k >= c:
                return ult(x, const(b.k - c, w))
            sc = c - (1 << w)
            if xl + sc >= 0 and b.k - sc < (1 << w):
                return ult(x, const(b.k - sc, w))
        if a.op == 'concat' and (b.k & ((1 << a.a[1].w) - 1)) == 0:
            s = a.a[1].w
            return ult(a.a[0], const(b.k >> s, w - s))
    if a.op == 'c':
        if b.op == 'ite' and (b.a[1].op == 'c' or b.a[2].op == 'c'):
            return ite(b.a[0], ult(a, b.a[1]), ult(a, b.a[2]))
        if b.op == 'add' and b.a[1].op == 'c':
            x, c = b.a[0], b.a[1].k
            xl, xh = ubounds(x)
            if xh + c < (1 << w) and a.k >= c:
                return ult(const(a.k - c, w), x)
            sc = c - (1 << w)
            if xl + sc >= 0 and a.k - sc < (1 << w):
                return ult(const(a.k - sc, w), x)
        if b.op == 'concat' and ((a.k + 1) & ((1 << b.a[1].w) - 1)) == 0:
            s = b.a[1].w
            return ult(const(a.k >> s, w - s), b.a[0])
    if a.op == 'add' and b.op == 'add' and a.a[1].op == 'c' and b.a[1] is a.a[1]:
        c = a.a[1].k
        x, y = a.a[0], b.a[0]
        if ubounds(x)[1] + c < (1 << w) and ubounds(y)[1] + c < (1 << w):
            return ult(x, y)
    for x in (a, b):
        if x.op == 'concat':
            s = x.a[1].w
            if extract(a, s, w - s) is extract(b, s, w - s):
                return ult(extract(a, 0, s), extract(b, 0, s))
            if extract(a, 0, s) is extract(b, 0, s):
                return ult(extract(a, s, w - s), extract(b, s, w - s))
    return _mk('ult', 1, (a, b))


def ule(a, b):
    return not_(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return not_(ult(a, b))


def slt(a, b):
    if a.op == 'ite' or b.op == 'ite':
        k = ('slt', a.id, b.id)
        r = _xc.get(k)
        if r is None:
            r = _xc[k] = _slt(a, b)
        return r
    return _slt(a, b)


def _slt(a, b):
    if a is b:
        return F
    assert a.w == b.w
    al, ah = sbounds(a)
    bl, bh = sbounds(b)
    if ah < bl:
        return T
    if al >= bh:
        return F
    w = a.w
    if al >= 0 and bl >= 0:
        return ult(a, b)
    if ah < 0 and bh < 0:
        return ult(a, b)
    if b.op == 'c' and b.k == 0:
        if a.op == 'add' and a.a[1].op == 'c':
            x, c = a.a[0], sval(a.a[1].k, w)
            xl, xh = sbounds(x)
            h = 1 << (w - 1)
            if -h <= xl + c and xh + c < h and -h < -c < h:
                return slt(x, const(-c, w))
        return extract(a, w - 1, 1)
    h = 1 << (w - 1)
    if b.op == 'c':
        if a.op == 'ite' and (a.a[1].op == 'c' or a.a[2].op == 'c'):
            return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
        if a.op == 'add' and a.a[1].op == 'c':
            x, c = a.a[0], sval(a.a[1].k, w)
            xl, xh = sbounds(x)
            k = sval(b.k, w)
            if -h <= xl + c and xh + c < h and -h <= k - c < h:
                return slt(x, const(k - c, w))
    if a.op == 'c':
        if b.op == 'ite' and (b.a[1].op == 'c' or b.a[2].op == 'c'):
            return ite(b.a[0], slt(a, b.a[1]), slt(a, b.a[2]))
        if b.op == 'add' and b.a[1].op == 'c':
            x, c = b.a[0], sval(b.a[1].k, w)
            xl, xh = sbounds(x)
            k = sval(a.k, w)
            if -h <= xl + c and xh + c < h and -h <= k - c < h:
                return slt(const(k - c, w), x)
    if a.op == 'add' and b.op == 'add' and a.a[1].op == 'c' and b.a[1].op == 'c':
        x, c = a.a[0], sval(a.a[1].k, w)
        y, d = b.a[0], sval(b.a[1].k, w)
        xl, xh = sbounds(x)
        yl, yh = sbounds(y)
        if -h <= xl + c and xh + c < h and -h <= yl + d and yh + d < h:
            if x is y:
                return T if c < d else F
            if c == d:
                return slt(x, y)
    elif a.op == 'add' and a.a[1].op == 'c' and a.a[0] is b:
        c = sval(a.a[1].k, w)
        if -h <= bl + c and bh + c < h:
            return T if c < 0 else F
    elif b.op == 'add' and b.a[1].op == 'c' and b.a[0] is a:
        c = sval(b.a[1].k, w)
        if -h <= al + c and ah + c < h:
            return T if c > 0 else F
    return _mk('slt', 1, (a, b))


def sle(a, b):
    return not_(slt(b, a))


def sgt(a, b):
    return slt(b, a)


def sge(a, b):
    return not_(slt(a, b))


def umin(a, b):
    return ite(ult(a, b), a, b)


def umax(a, b):
    return ite(ult(a, b), b, a)


def smin(a, b):
    return ite(slt(a, b), a, b)


def smax(a, b):
    return ite(slt(a, b), b, a)


# ---------------------------------------------------------------- traversal
def post(roots):
    """children-first list of distinct nodes reachable from roots"""
    seen = set()
    out = []
    st = [(r, 0) for r in roots]
    st.reverse()
    while st:
        n, i = st.pop()
        if i == 0:
            if n.id in seen:
                continue
        if i < len(n.a):
            st.append((n, i + 1))
            c = n.a[i]
            if c.id not in seen:
                st.append((c, 0))
        else:
            if n.id not in seen:
                seen.add(n.id)
                out.append(n)
    return out


def vars_of(roots):
    return [n for n in post(roots) if n.op == 'v']


def vname(n):
    return n.k if isinstance(n.k, str) else n.k[0]


def evaluate(roots, model, memo=None):
    """Concrete evaluation; model: var name -> int (missing = lowest allowed)."""
    m = {} if memo is None else memo
    for n in post([r for r in roots if r.id not in m]) if memo is None else _post_memo(roots, m):
        m[n.id] = _ev1(n, [m[x.id] for x in n.a], model)
    return [m[r.id] for r in roots]


def _post_memo(roots, m):
    out = []
    seen = set()
    st = [(r, 0) for r in roots]
    while st:
        n, i = st.pop()
        if n.id in m or (i == 0 and n.id in seen):
            continue
        if i < len(n.a):
            st.append((n, i + 1))
            c = n.a[i]
            if c.id not in m and c.id not in seen:
                st.append((c, 0))
        elif n.id not in seen:
            seen.add(n.id)
            out.append(n)
    return out


def _ev1(n, a, model):
    op, w = n.op, n.w
    M = (1 << w) - 1
    if op == 'c':
        return n.k
    if op == 'v':
        if isinstance(n.k, str):
            return model.get(n.k, 0) & M
        return model.get(n.k[0], n.k[1]) & M
    if op == 'not':
        return ~a[0] & M
    if op == 'and':
        return a[0] & a[1]
    if op == 'or':
        return a[0] | a[1]
    if op == 'xor':
        return a[0] ^ a[1]
    if op == 'concat':
        return (a[0] << n.a[1].w) | a[1]
    if op == 'zext':
        return a[0]
    if op == 'sext':
        return sval(a[0], n.a[0].w) & M
    if op == 'ex':
        return (a[0] >> n.k) & M
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op == 'add':
        return (a[0] + a[1]) & M
    if op == 'sub':
        return (a[0] - a[1]) & M
    if op == 'mul':
        return (a[0] * a[1]) & M
    if op == 'udiv':
        return a[0] // a[1] if a[1] else M
    if op == 'urem':
        return a[0] % a[1] if a[1] else a[0]
    if op == 'shl':
        return (a[0] << a[1]) & M if a[1] < w else 0
    if op == 'lshr':
        return a[0] >> a[1] if a[1] < w else 0
    if op == 'ashr':
        return (sval(a[0], w) >> min(a[1], w)) & M
    if op == 'clz':
        return w - a[0].bit_length()
    if op == 'ctz':
        return ((a[0] & -a[0]).bit_length() - 1) if a[0] else w
    if op == 'eq':
        return int(a[0] == a[1])
    if op == 'ult':
        return int(a[0] < a[1])
    if op == 'ule':
        return int(a[0] <= a[1])
    if op == 'slt':
        x = n.a[0].w
        return int(sval(a[0], x) < sval(a[1], x))
    if op == 'sle':
        x = n.a[0].w
        return int(sval(a[0], x) <= sval(a[1], x))
    raise Exception(op)


def substitute(roots, sub):
    """sub: node id -> node.  Rebuilds (re-simplifies) the terms."""
    m = dict(sub)
    for n in _post_memo(roots, m):
        m[n.id] = rebuild(n, [m[x.id] for x in n.a])
    return [m[r.id] for r in roots]


_RB = {}


def rebuild(n, a):
    op = n.op
    if op in ('c', 'v'):
        return n
    if all(x is y for x, y in zip(n.a, a)):
        return n
    if op == 'ex':
        return extract(a[0], n.k, n.w)
    if op in ('zext', 'sext'):
        return (zext if op == 'zext' else sext)(a[0], n.w)
    return _RB[op](*a)


_RB.update({'not': not_, 'and': and_, 'or': or_, 'xor': xor_, 'concat': concat, 'ite': ite, 'add': add,
            'sub': sub, 'mul': mul, 'udiv': udiv, 'urem': urem, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
            'clz': clz, 'ctz': ctz, 'eq': eq, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle})

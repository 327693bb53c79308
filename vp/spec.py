"""What the operations have to compute, written over bv terms from the IEEE 754
definition (exact integer result, then one rounding), independent of the code's
own algorithms.  Status follows the library's documented LLVM convention."""
from . import bv
from .bv import T, F, const, and_, or_, not_, xor_, ite, eq, ult, ule, zext, sext, extract, concat, ands, ors

RNE, RTP, RTN, RTZ, RNA = range(5)
INVALID, DIVZERO, OVERFLOW, UNDERFLOW, INEXACT = 1, 2, 4, 8, 16


class Fmt:
    def __init__(self, key, bits, ebits, prec=None, nanonly=False, x87=False):
        self.key = key
        self.bits = bits
        self.eb = ebits
        self.p = prec if prec is not None else bits - ebits
        self.nanonly = nanonly
        self.x87 = x87
        self.bias = (1 << (ebits - 1)) - 1
        self.emin = 1 - self.bias
        self.emax = self.bias + (1 if nanonly else 0)
        self.mb = self.eb + self.p - 1         # magnitude bits of the (implicit-bit) encoding
        top = (1 << ebits) - 1
        self.infmag = top << (self.p - 1)      # first magnitude that is not finite (IEEE)
        self.nanmag = (1 << self.mb) - 1
        self.maxmag = self.nanmag - 1 if nanonly else self.infmag - 1
        self.qbit = 0 if nanonly else 1 << (self.p - 2)
        self.quantum = self.emin - (self.p - 1)      # exponent of the lsb of denormals

    def __repr__(self):
        return self.key


FM = {f.key: f for f in [
    Fmt('h', 16, 5), Fmt('s', 32, 8), Fmt('d', 64, 11), Fmt('q', 128, 15), Fmt('b', 16, 8), Fmt('e5', 8, 5),
    Fmt('e4', 8, 4, nanonly=True), Fmt('x', 80, 15, prec=64, x87=True),
    Fmt('t6', 6, 3), Fmt('t7', 7, 3), Fmt('n6', 6, 3, nanonly=True)]}


class D:
    """decoded operand: value = (-1)^sign * sig * 2^(exp - 1 + quantum), exp >= 1"""
    __slots__ = ('f', 'bits', 'sign', 'nan', 'inf', 'zero', 'snan', 'exp', 'sig', 'fin', 'qnanbits')


def decode(f, x):
    assert x.w == f.bits, (x.w, f.bits)
    d = D()
    d.f = f
    d.bits = x
    d.sign = extract(x, f.bits - 1, 1)
    if f.x87:
        e = extract(x, 64, 15)
        m = extract(x, 0, 64)
        i = extract(m, 63, 1)
        e0 = eq(e, const(0, 15))
        e1 = eq(e, const(0x7fff, 15))
        d.inf = and_(e1, eq(m, const(1 << 63, 64)))
        d.zero = and_(e0, eq(m, const(0, 64)))
        d.nan = ors([and_(e1, ite(i, bv.ne(extract(m, 0, 63), const(0, 63)), T)),
                     ands([not_(e0), not_(e1), not_(i)])])
        d.snan = and_(d.nan, bv.ne(extract(m, 62, 2), const(3, 2)))
        d.exp = ite(e0, const(1, 15), e)
        d.sig = m
        # delivered NaN encoding (all-ones exponent), with the quiet bit set
        d.qnanbits = concat(d.sign, concat(const(0x7fff, 15), or_(m, const(1 << 62, 64))))
    else:
        p = f.p
        e = extract(x, p - 1, f.eb)
        m = extract(x, 0, p - 1)
        e0 = eq(e, const(0, f.eb))
        m0 = eq(m, const(0, p - 1))
        d.zero = and_(e0, m0)
        if f.nanonly:
            d.inf = F
            d.nan = eq(extract(x, 0, f.bits - 1), const(f.nanmag, f.bits - 1))
            d.snan = F
            d.qnanbits = x
        else:
            e1 = eq(e, const((1 << f.eb) - 1, f.eb))
            d.inf = and_(e1, m0)
            d.nan = and_(e1, not_(m0))
            d.snan = and_(d.nan, not_(extract(x, p - 2, 1)))
            d.qnanbits = or_(x, const(f.qbit, f.bits))
        d.exp = ite(e0, const(1, f.eb), e)
        d.sig = concat(not_(e0), m)
    d.fin = ands([not_(d.nan), not_(d.inf), not_(d.zero)])
    return d


def pack(f, sign, mag):
    """mag: magnitude in the implicit-bit encoding (eb + p-1 bits)"""
    assert mag.w == f.mb
    if f.x87:
        e = extract(mag, 63, 15)
        return concat(sign, concat(e, concat(bv.ne(e, const(0, 15)), extract(mag, 0, 63))))
    return concat(sign, mag)


def packc(f, mag, sign=None):
    return pack(f, F if sign is None else sign, const(mag, f.mb))


def inf(f, sign):
    return packc(f, f.nanmag if f.nanonly else f.infmag, sign)


def zero(f, sign):
    return packc(f, 0, sign)


def nan(f):
    """the canonical NaN"""
    if f.x87:
        return const((0x7fff << 64) | (3 << 62), 80)
    return const(f.nanmag if f.nanonly else f.infmag | f.qbit, f.bits)


def st(v):
    return const(v, 8)


def clzx(x):
    return bv.clz(x)


EW = 20


def norm(X, ew=EW):
    """-> (normalized X with msb set, number of leading zeros as ew bits)"""
    W = X.w
    L = bv.clz(X)
    n = max(1, W.bit_length())
    Ls = extract(L, 0, min(L.w, n))
    return bv.shl(X, zext(Ls, W) if Ls.w <= W else extract(Ls, 0, W)), (zext(Ls, ew) if Ls.w <= ew else extract(Ls, 0, ew))


def rmis(rm, v):
    """rounding modes are numbers, or 8-bit terms ranging over 0..4"""
    return (T if rm == v else F) if isinstance(rm, int) else eq(rm, const(v, 8))


def incr(rm, sign, g, s, lsb):
    if not isinstance(rm, int):
        gs = or_(g, s)
        return ors([ands([rmis(rm, RNE), g, or_(s, lsb)]), ands([rmis(rm, RTP), not_(sign), gs]),
                    ands([rmis(rm, RTN), sign, gs]), and_(rmis(rm, RNA), g)])
    if rm == RNE:
        return and_(g, or_(s, lsb))
    if rm == RTP:
        return and_(not_(sign), or_(g, s))
    if rm == RTN:
        return and_(sign, or_(g, s))
    if rm == RTZ:
        return F
    return g


def to_inf(rm, sign):
    if not isinstance(rm, int):
        return ors([rmis(rm, RNE), rmis(rm, RNA), and_(rmis(rm, RTP), not_(sign)), and_(rmis(rm, RTN), sign)])
    return [T, not_(sign), sign, F, T][rm]


def round_(f, rm, sign, X, k, sticky=F, ew=EW):
    """correct rounding of (-1)^sign * (X + (0 < sticky < 1)) * 2^k, X != 0 when sticky is
    possible X must have its leading bit well above the lsb.  -> (bits, status)"""
    p = f.p
    k = k if not isinstance(k, int) else const(k, ew)
    if X.w < p + 2:
        n = p + 2 - X.w
        X = concat(X, const(0, n))
        k = bv.sub(k, const(n, ew))
    W = X.w
    Xn, L = norm(X, ew)
    E = bv.sub(bv.add(k, const(W - 1, ew)), L)
    hi = extract(Xn, W - p - 1, p + 1)
    rest = extract(Xn, 0, W - p - 1)
    s0 = or_(bv.ne(rest, const(0, rest.w)), sticky)
    Y = concat(hi, s0)                       # p+2 bits
    # denormal shift
    d = bv.sub(const(f.emin, ew), E)
    isden = bv.slt(E, const(f.emin, ew))
    big = bv.slt(const(p + 1, ew), d)
    sh = ite(isden, ite(big, const(p + 2, ew), d), const(0, ew))
    nb = (p + 2).bit_length()
    sh = extract(sh, 0, nb)
    YY = concat(Y, const(0, p + 2))
    YS = bv.lshr(YY, zext(sh, YY.w))
    keep = extract(YS, p + 4, p)
    g = extract(YS, p + 3, 1)
    low = extract(YS, 0, p + 3)
    s = bv.ne(low, const(0, p + 3))
    inc = incr(rm, sign, g, s, extract(keep, 0, 1))
    ef = bv.sub(E, const(f.emin, ew))
    ef = ite(isden, const(0, ew), ef)
    over_e = bv.slt(const(f.emax, ew), E)
    mw = f.mb + 2
    efm = zext(extract(ef, 0, f.eb), mw)
    mag = bv.add(bv.add(bv.shlc(efm, p - 1), zext(keep, mw)), zext(inc, mw))
    over = or_(over_e, ult(const(f.maxmag, mw), mag))
    inex = or_(g, s)
    ti = to_inf(rm, sign)
    mag_o = ite(ti, const(f.nanmag if f.nanonly else f.infmag, f.mb), const(f.maxmag, f.mb))
    mag_f = ite(over, mag_o, extract(mag, 0, f.mb))
    tiny = ult(mag, const(1 << (p - 1), mw))
    status = ite(over, ite(ti, st(OVERFLOW | INEXACT), st(INEXACT)),
                 ite(inex, ite(tiny, st(UNDERFLOW | INEXACT), st(INEXACT)), st(0)))
    return pack(f, sign, mag_f), status


def nan2(a, b):
    """two-operand NaN rule -> (cond, bits, status)"""
    c = or_(a.nan, b.nan)
    bits = ite(a.nan, ite(a.snan, a.qnanbits, canon(a)), ite(b.snan, b.qnanbits, canon(b)))
    return c, bits, ite(or_(a.snan, b.snan), st(INVALID), st(0))


def canon(d):
    """the delivered encoding of a NaN operand (x87 unnormals get an all-ones exponent)"""
    if d.f.x87:
        return concat(d.sign, concat(const(0x7fff, 15), d.sig))
    return d.bits


def canon_any(d):
    """to_bits(from_bits(x))"""
    if not d.f.x87:
        return d.bits
    e = ite(d.nan, const(0x7fff, 15),
            # pseudo-denormals are normals with the smallest exponent
            ite(and_(eq(extract(d.bits, 64, 15), const(0, 15)), extract(d.sig, 63, 1)), const(1, 15),
                extract(d.bits, 64, 15)))
    return concat(d.sign, concat(e, d.sig))


def sel(cases, default):
    """first matching case wins; each value is a tuple of terms"""
    r = default
    for c, v in reversed(cases):
        r = tuple(ite(c, x, y) for x, y in zip(v, r))
    return r


# ------------------------------------------------------------------ add / sub
def add(f, rm, xa, xb, subtract=False):
    a, b = decode(f, xa), decode(f, xb)
    sb = not_(b.sign) if subtract else b.sign
    nc, nb, ns = nan2(a, b)
    bb = concat(sb, extract(canon_any(b), 0, f.bits - 1)) if subtract else canon_any(b)
    bad = ands([a.inf, b.inf, xor_(a.sign, sb)])
    exact_sign = rmis(rm, RTN)
    bothz = and_(a.zero, b.zero)
    zz = zero(f, ite(eq(a.sign, sb), a.sign, exact_sign))
    fin = add_finite(f, rm, a.sign, a.exp, a.sig, sb, b.exp, b.sig)
    cases = [(nc, (nb, ns)), (bad, (nan(f), st(INVALID))), (a.inf, (canon_any(a), st(0))),
             (b.inf, (bb, st(0))), (bothz, (zz, st(0))), (a.zero, (bb, st(0))), (b.zero, (canon_any(a), st(0)))]
    return sel(cases, fin)


def add_finite(f, rm, sa, ea, ma, sb, eb_, mb):
    p = f.p
    lt = ult(ea, eb_)
    eL, eS = ite(lt, eb_, ea), ite(lt, ea, eb_)
    mL, mS = ite(lt, mb, ma), ite(lt, ma, mb)
    sL, sS = ite(lt, sb, sa), ite(lt, sa, sb)
    d = bv.sub(eL, eS)
    G = p + 3
    W = p + G + 2
    A = zext(concat(mL, const(0, G)), W)
    B0 = concat(mS, const(0, G))
    far = ult(const(G, 32), zext(d, 32))
    nb = G.bit_length()
    dd = zext(extract(d, 0, min(nb, d.w)), B0.w)
    B = ite(far, const(1, W), zext(bv.lshr(B0, dd), W))
    same = eq(sL, sS)
    lt2 = ult(A, B)
    S = bv.add(A, B)
    Dm = ite(lt2, bv.sub(B, A), bv.sub(A, B))
    X = ite(same, S, Dm)
    sign = ite(same, sL, ite(lt2, sS, sL))
    k = bv.add(zext(eL, EW), const(f.quantum - 1 - G, EW))
    bits, status = round_(f, rm, sign, X, k)
    z = eq(X, const(0, W))
    return (ite(z, zero(f, rmis(rm, RTN)), bits), ite(z, st(0), status))


# ------------------------------------------------------------------ mul
def exact_mul(ma, mb):
    """exact product; operands above 64 bits go through the schoolbook identity on 64-bit
    halves so that the partial products are the same terms the code forms"""
    W = ma.w + mb.w
    if ma.w <= 64 and mb.w <= 64:
        return bv.mul(zext(ma, W), zext(mb, W))
    al, ah = extract(ma, 0, 64), extract(ma, 64, ma.w - 64)
    bl, bh = extract(mb, 0, 64), extract(mb, 64, mb.w - 64)

    def pp(x, y):
        w = x.w + y.w
        return bv.mul(zext(x, w), zext(y, w))
    W2 = max(W, 256)
    s = zext(pp(al, bl), W2)
    s = bv.add(s, bv.shlc(zext(pp(al, bh), W2), 64))
    s = bv.add(s, bv.shlc(zext(pp(ah, bl), W2), 64))
    s = bv.add(s, bv.shlc(zext(pp(ah, bh), W2), 128))
    return extract(s, 0, W)


def mul(f, rm, xa, xb):
    a, b = decode(f, xa), decode(f, xb)
    s = xor_(a.sign, b.sign)
    nc, nb, ns = nan2(a, b)
    bad = or_(and_(a.inf, b.zero), and_(a.zero, b.inf))
    X = exact_mul(a.sig, b.sig)
    k = bv.add(bv.add(zext(a.exp, EW), zext(b.exp, EW)), const(2 * (f.quantum - 1), EW))
    fin = round_(f, rm, s, X, k)
    return sel([(nc, (nb, ns)), (bad, (nan(f), st(INVALID))), (or_(a.inf, b.inf), (inf(f, s), st(0))),
                (or_(a.zero, b.zero), (zero(f, s), st(0)))], fin)


# ------------------------------------------------------------------ div
def div(f, rm, xa, xb, lt=None):
    """lt: which significand is the smaller, where the precondition says so"""
    a, b = decode(f, xa), decode(f, xb)
    s = xor_(a.sign, b.sign)
    nc, nb, ns = nan2(a, b)
    bad = or_(and_(a.inf, b.inf), and_(a.zero, b.zero))
    p = f.p
    # normalized significands; the dividend doubled when it is the smaller, so that the quotient is in [1, 2)
    An, La = norm(a.sig)
    Bn, Lb = norm(b.sig)
    if lt is None:
        lt = ult(An, Bn)
    W = 2 * p
    D = zext(ite(lt, concat(An, F), zext(An, p + 1)), p + 1)
    num = concat(D, const(0, p - 1))
    den = zext(Bn, W)
    q = bv.udiv(num, den)
    r = extract(bv.urem(num, den), 0, p)
    r2 = concat(r, F)
    d2 = zext(Bn, p + 1)
    X = concat(concat(extract(q, 0, p), ule(d2, r2)), and_(bv.ne(r2, d2), bv.ne(r, const(0, p))))
    k = bv.sub(bv.add(bv.sub(zext(a.exp, EW), zext(b.exp, EW)), Lb), bv.add(La, const(p + 1, EW)))
    k = bv.sub(k, zext(lt, EW))
    fin = round_(f, rm, s, X, k)
    dz = (inf(f, s), st(DIVZERO))
    return sel([(nc, (nb, ns)), (bad, (nan(f), st(INVALID))), (a.inf, (inf(f, s), st(0))),
                (or_(a.zero, b.inf), (zero(f, s), st(0))), (b.zero, dz)], fin)


# ------------------------------------------------------------------ fma
def fma(f, rm, xa, xb, xc):
    a, b, c = decode(f, xa), decode(f, xb), decode(f, xc)
    sp = xor_(a.sign, b.sign)
    p = f.p
    ncase, nbits, nst = nan2(a, b)
    nst_ab = ite(or_(a.snan, b.snan), st(INVALID), ite(c.snan, st(INVALID), st(0)))
    bad_mul = or_(and_(a.inf, b.zero), and_(a.zero, b.inf))
    pinf = or_(a.inf, b.inf)
    pzero = or_(a.zero, b.zero)
    cnan = (ite(c.snan, c.qnanbits, canon(c)), ite(c.snan, st(INVALID), st(0)))
    bad_add = ands([pinf, c.inf, xor_(sp, c.sign)])
    rn = rmis(rm, RTN)
    zz = zero(f, ite(eq(sp, c.sign), sp, rn))
    P = exact_mul(a.sig, b.sig)
    kp = bv.add(bv.add(zext(a.exp, EW), zext(b.exp, EW)), const(2 * (f.quantum - 1), EW))
    prod_only = round_(f, rm, sp, P, kp)
    fin = fma_finite(f, rm, sp, P, kp, c)
    return sel([(ncase, (nbits, nst_ab)), (bad_mul, (nan(f), st(INVALID))), (c.nan, cnan),
                (bad_add, (nan(f), st(INVALID))), (pinf, (inf(f, sp), st(0))), (c.inf, (canon_any(c), st(0))),
                (and_(pzero, c.zero), (zz, st(0))), (pzero, (canon_any(c), st(0))), (c.zero, prod_only)], fin)


def fma_finite(f, rm, sp, P, kp, c):
    """both addends nonzero: align the two normalized operands"""
    p = f.p
    W0 = 2 * p
    Pn, Lp = norm(P)
    Cn, Lc = norm(concat(c.sig, const(0, p)))
    # exponent of the msb
    Ep = bv.sub(bv.add(kp, const(W0 - 1, EW)), Lp)
    Ec = bv.sub(bv.add(zext(c.exp, EW), const(f.quantum - 1 + p - 1, EW)), Lc)
    lt = bv.slt(Ep, Ec)
    EL, ES = ite(lt, Ec, Ep), ite(lt, Ep, Ec)
    mL, mS = ite(lt, Cn, Pn), ite(lt, Pn, Cn)
    sL, sS = ite(lt, c.sign, sp), ite(lt, sp, c.sign)
    d = bv.sub(EL, ES)
    G = W0 + 3
    W = W0 + G + 2
    A = zext(concat(mL, const(0, G)), W)
    B0 = concat(mS, const(0, G))
    far = ult(const(G, EW), d)
    nb = G.bit_length()
    B = ite(far, const(1, W), zext(bv.lshr(B0, zext(extract(d, 0, nb), B0.w)), W))
    same = eq(sL, sS)
    lt2 = ult(A, B)
    X = ite(same, bv.add(A, B), ite(lt2, bv.sub(B, A), bv.sub(A, B)))
    sign = ite(same, sL, ite(lt2, sS, sL))
    k = bv.add(EL, const(-(W0 - 1) - G, EW))
    bits, status = round_(f, rm, sign, X, k)
    z = eq(X, const(0, W))
    return (ite(z, zero(f, rmis(rm, RTN)), bits), ite(z, st(0), status))


# ------------------------------------------------------------------ helpers over magnitudes
def magof(d):
    """magnitude of a canonical value in the implicit-bit encoding, monotone in |value|"""
    b = canon_any(d)
    f = d.f
    if f.x87:
        return concat(extract(b, 64, 15), extract(b, 0, 63))
    return extract(b, 0, f.bits - 1)


def quiet(d):
    """result of a one-operand operation on a NaN"""
    return ite(d.snan, d.qnanbits, canon(d)), ite(d.snan, st(INVALID), st(0))


def sub(f, rm, xa, xb):
    return add(f, rm, xa, xb, True)


# ------------------------------------------------------------------ encoding, predicates, constants
def rtrip(f, xa):
    return canon_any(decode(f, xa))


def classbits(f, xa):
    """21 predicate bits, in the order of the harness's `class`"""
    a = decode(f, xa)
    m = magof(a)
    low = f.p - 1
    den = and_(a.fin, ult(m, const(1 << low, f.mb)))
    num = and_(not_(a.nan), not_(a.inf))
    pos = not_(a.sign)

    def mag_is(v):
        return and_(a.fin, eq(m, const(v, f.mb)))
    bits = [a.sign, and_(a.fin, not_(den)), num, a.zero, den, a.inf, a.nan, a.snan, not_(a.zero), a.fin,
            and_(a.zero, pos), and_(a.zero, a.sign), and_(a.inf, pos), and_(a.inf, a.sign),
            mag_is(1), mag_is(1 << low), mag_is(f.maxmag),
            a.inf, a.nan, a.fin, a.zero]
    r = bits[0]
    for b in bits[1:]:
        r = concat(b, r)
    return r


def qnan(f, payload):
    if f.nanonly:
        return nan(f)
    n = 62 if f.x87 else f.p - 2
    return or_(nan(f), zext(extract(payload, 0, n), f.bits))


def snan(f, payload):
    if f.nanonly:
        return nan(f)
    n = 62 if f.x87 else f.p - 2
    pl = extract(payload, 0, n)
    pl = ite(eq(pl, const(0, n)), const(1 << (n - 1), n), pl)
    base = const((0x7fff << 64) | (1 << 63), 80) if f.x87 else const(f.infmag, f.bits)
    return or_(base, zext(pl, f.bits))


def konst(f, k, xa):
    return {0: lambda: zero(f, F), 1: lambda: inf(f, F), 2: lambda: nan(f), 3: lambda: packc(f, f.maxmag),
            4: lambda: packc(f, 1), 5: lambda: packc(f, 1 << (f.p - 1)), 6: lambda: zero(f, F),
            7: lambda: nan(f), 8: lambda: snan(f, const(0, 128)), 9: lambda: qnan(f, xa), 10: lambda: snan(f, xa),
            11: lambda: const(f.bits, 32), 12: lambda: const(f.p, 32), 13: lambda: const(f.emax, 128),
            14: lambda: const(f.emin, 128)}[k]()


# ------------------------------------------------------------------ comparisons
def cmp_(f, xa, xb):
    """-> 1 less, 2 equal, 4 greater, 8 unordered"""
    a, b = decode(f, xa), decode(f, xb)
    ma, mb = magof(a), magof(b)
    n = f.mb + 1
    ka = ite(a.sign, bv.neg(zext(ma, n + 1)), zext(ma, n + 1))
    kb = ite(b.sign, bv.neg(zext(mb, n + 1)), zext(mb, n + 1))
    return ite(or_(a.nan, b.nan), st(8), ite(eq(ka, kb), st(2), ite(bv.slt(ka, kb), st(1), st(4))))


def relops(o):
    """eq ne lt le gt ge, from the ordering"""
    e, l, g, u = [eq(o, st(v)) for v in (2, 1, 4, 8)]
    r = e
    for b in (not_(e), l, or_(l, e), g, or_(g, e)):
        r = concat(b, r)
    return r


def biteq(f, xa, xb):
    a, b = decode(f, xa), decode(f, xb)
    return eq(canon_any(a), canon_any(b))


def cmpabs(f, xa, xb):
    ma, mb = magof(decode(f, xa)), magof(decode(f, xb))
    return ite(eq(ma, mb), st(2), ite(ult(ma, mb), st(1), st(4)))


def minmax(f, op, xa, xb):
    a, b = decode(f, xa), decode(f, xb)
    ca, cb = canon_any(a), canon_any(b)
    o = cmp_(f, xa, xb)
    lt, gt = eq(o, st(1)), eq(o, st(4))
    if op == 'min':
        return ite(a.nan, cb, ite(b.nan, ca, ite(gt, cb, ca)))
    if op == 'max':
        return ite(a.nan, cb, ite(b.nan, ca, ite(lt, cb, ca)))
    zz = ands([a.zero, b.zero, xor_(a.sign, b.sign)])
    if op == 'minimum':
        return ite(a.nan, ca, ite(b.nan, cb, ite(zz, zero(f, T), ite(gt, cb, ca))))
    return ite(a.nan, ca, ite(b.nan, cb, ite(zz, zero(f, F), ite(lt, cb, ca))))


# ------------------------------------------------------------------ signs
def neg(f, xa):
    return xor_(canon_any(decode(f, xa)), const(1 << (f.bits - 1), f.bits))


def abs_(f, xa):
    return zext(extract(canon_any(decode(f, xa)), 0, f.bits - 1), f.bits)


def copysign(f, xa, xb):
    return concat(extract(xb, f.bits - 1, 1), extract(canon_any(decode(f, xa)), 0, f.bits - 1))


# ------------------------------------------------------------------ integral values
def _intfrac(f, a, n):
    """integer part on n bits (valid when |a| < 2^n), guard, sticky, whether |a| >= 2^n"""
    p = f.p
    e = bv.add(zext(a.exp, EW), const(f.quantum - 1, EW))          # exponent of the lsb
    g = p + 2
    W = n + g + 1
    W = max(W, p + g)
    base = concat(a.sig, const(0, g))
    neg_ = bv.slt(e, const(0, EW))
    r = bv.sub(const(0, EW), e)
    r = ite(bv.slt(const(p + 1, EW), r), const(p + 1, EW), r)
    big = bv.slt(const(n, EW), e)
    l = ite(big, const(0, EW), e)
    nb = max(n, p + 1).bit_length()
    full = bv.shl(zext(base, W + n), zext(extract(l, 0, nb), W + n))
    sh = ite(neg_, bv.lshr(zext(base, W), zext(extract(r, 0, nb), W)), extract(full, 0, W))
    topbits = extract(full, n + g, W + n - n - g)
    over = and_(not_(neg_), or_(big, bv.ne(topbits, const(0, topbits.w))))
    over = or_(over, and_(neg_, bv.ne(extract(sh, n + g, W - n - g), const(0, W - n - g))) if W > n + g else F)
    return extract(sh, g, n), extract(sh, g - 1, 1), bv.ne(extract(sh, 0, g - 1), const(0, g - 1)), over


def rint(f, rm, xa):
    a = decode(f, xa)
    n = f.p + 1
    i, g, s, over = _intfrac(f, a, n)
    inc = incr(rm, a.sign, g, s, extract(i, 0, 1))
    I = bv.add(zext(i, n + 1), zext(inc, n + 1))
    v, _ = round_(f, rm, a.sign, I, 0)
    e = bv.add(zext(a.exp, EW), const(f.quantum - 1, EW))
    isint = or_(over, not_(bv.slt(e, const(0, EW))))
    inexact = ite(or_(g, s), st(INEXACT), st(0))
    fin = (ite(isint, canon_any(a), ite(eq(I, const(0, n + 1)), zero(f, a.sign), v)), ite(isint, st(0), inexact))
    q = quiet(a)
    return sel([(a.nan, q), (or_(a.inf, a.zero), (canon_any(a), st(0)))], fin)


def isint(f, xa):
    a = decode(f, xa)
    n = f.p + 1
    i, g, s, over = _intfrac(f, a, n)
    return or_(a.zero, and_(a.fin, or_(over, not_(or_(g, s)))))


def toint(f, rm, xa, k, signed):
    """k: width term (32 bits), 0..128 unsigned, 1..128 signed. -> (value 128, status, exact)"""
    a = decode(f, xa)
    i, g, s, over = _intfrac(f, a, 128)
    inc = incr(rm, a.sign, g, s, extract(i, 0, 1))
    R = bv.add(zext(i, 129), zext(inc, 129))
    one = const(1, 129)
    kk = zext(k, 129)
    if not signed:
        lim = bv.shl(one, kk)                                  # fits iff R < 2^k
        maxv = extract(bv.sub(lim, one), 0, 128)
        over_n = bv.ne(R, const(0, 129))
        minv = const(0, 128)
    else:
        lim = bv.shl(one, bv.sub(kk, one))
        maxv = extract(bv.sub(lim, one), 0, 128)
        over_n = ult(lim, R)
        minv = extract(bv.neg(lim), 0, 128)
    bad = and_(not_(a.zero), or_(a.inf, or_(over, ite(a.sign, over_n, ule(lim, R)))))
    sat = ite(a.sign, minv, maxv)
    inex = or_(g, s)
    R128 = extract(R, 0, 128)
    val = ite(a.sign, bv.neg(R128), R128)
    z = const(0, 128)
    return sel([(a.nan, (z, st(INVALID), F)), (bad, (sat, st(INVALID), F)), (a.zero, (z, st(0), not_(a.sign))),
                (inex, (val, st(INEXACT), F))], (val, st(0), T))


def fromint(f, rm, x, signed):
    """x: 128-bit term"""
    sign = extract(x, 127, 1) if signed else F
    m = ite(sign, bv.neg(x), x)
    v, s = round_(f, rm, sign, m, 0)
    z = eq(x, const(0, 128))
    return ite(z, zero(f, F), v), ite(z, st(0), s)


# ------------------------------------------------------------------ neighbours
def nextup(f, xa, down=False):
    a = decode(f, xa)
    s = not_(a.sign) if down else a.sign          # nextDown(x) = -nextUp(-x)
    m = magof(a)
    one = const(1, f.mb)
    top = f.nanmag if f.nanonly else f.infmag

    def mk(sg, mag):
        return pack(f, not_(sg) if down else sg, mag)
    up = ite(eq(m, const(top, f.mb)), m, bv.add(m, one))       # +inf stays
    v = ite(a.zero, mk(F, one), ite(s, mk(T, bv.sub(m, one)), mk(F, up)))
    nv = ite(a.snan, concat(a.sign, extract(nan(f), 0, f.bits - 1)), canon(a))
    ns = ite(a.snan, st(INVALID), st(0))
    return ite(a.nan, nv, v), ite(a.nan, ns, st(0))


# ------------------------------------------------------------------ conversion
def cvt(f, g, rm, xa):
    """f -> g.  (value, status, loses_info, mask of value bits that are specified for NaN)"""
    a = decode(f, xa)
    k = bv.add(zext(a.exp, EW), const(f.quantum - 1, EW))
    v, s = round_(g, rm, a.sign, a.sig, k)
    li = bv.ne(s, st(0))
    if g.nanonly:
        # no infinity to deliver: an infinite input becomes the NaN, inexactly
        iv, is_ = inf(g, a.sign), st(INEXACT)
    else:
        iv, is_ = inf(g, a.sign), st(0)
    zv = zero(g, a.sign)
    # NaN: payload aligned at the top
    if f.nanonly:
        nv = None
        nst = st(0)
        nl = F
        nvv = concat(a.sign, extract(nan(g), 0, g.bits - 1))
    else:
        q = quiet(a)
        nst = q[1]
        src = extract(q[0], 0, 63) if f.x87 else extract(q[0], 0, f.p - 1)     # fraction incl. quiet bit
        srcw = src.w
        dw = 63 if g.x87 else g.p - 1
        if g.nanonly:
            nvv = concat(a.sign, extract(nan(g), 0, g.bits - 1))
            nl = T
        else:
            if dw >= srcw:
                fr = concat(src, const(0, dw - srcw)) if dw > srcw else src
                nl = F
            else:
                fr = extract(src, srcw - dw, dw)
                nl = bv.ne(extract(src, 0, srcw - dw), const(0, srcw - dw))
            if f.x87:
                pseudo = bv.ne(extract(a.sig, 62, 2), const(3, 2))   # before quieting
                if not g.x87:
                    nl = or_(nl, pseudo)
            fr = or_(fr, const(1 << (dw - 1), dw))
            if g.x87:
                nvv = concat(a.sign, concat(const(0x7fff, 15), concat(T, fr)))
            else:
                nvv = concat(a.sign, concat(const((1 << g.eb) - 1, g.eb), fr))
    return sel([(a.nan, (nvv, nst, nl)), (a.inf, (iv, is_, bv.ne(is_, st(0)))), (a.zero, (zv, st(0), F))], (v, s, li))


# ------------------------------------------------------------------ scaling
def scalbn(f, rm, xa, k):
    a = decode(f, xa)
    ew = 34
    e = bv.add(bv.add(zext(a.exp, ew), const(f.quantum - 1, ew)), sext(k, ew))
    v, _ = round_(f, rm, a.sign, a.sig, e, ew=ew)
    return ite(a.nan, quiet(a)[0], ite(or_(a.inf, a.zero), canon_any(a), v))


def ilogb(f, xa):
    a = decode(f, xa)
    _, L = norm(a.sig)
    e = bv.sub(bv.add(zext(a.exp, EW), const(f.quantum - 1 + f.p - 1, EW)), L)
    e = sext(e, 32)
    return ite(a.nan, const(1 << 31, 32), ite(a.zero, const((1 << 31) + 1, 32), ite(a.inf, const((1 << 31) - 1, 32), e)))


def frexp(f, xa):
    """-> (value, exponent)"""
    a = decode(f, xa)
    Xn, _ = norm(a.sig)
    e = ilogb(f, xa)
    # significand in [1/2, 1): biased exponent of 2^-1
    if f.emin <= -1:
        mag = concat(const(f.bias - 1, f.eb), extract(Xn, 0, f.p - 1))
    else:
        raise ValueError('format has no normal 0.5')
    v = pack(f, a.sign, mag)
    one = const(1, 32)
    return (ite(a.nan, quiet(a)[0], ite(or_(a.inf, a.zero), canon_any(a), v)),
            ite(a.zero, const(0, 32), ite(or_(a.nan, a.inf), e, bv.add(e, one))))


def inv(f, xa):
    """-> (present, value)"""
    a = decode(f, xa)
    m = magof(a)
    E = extract(m, f.p - 1, f.eb)
    pw = eq(extract(m, 0, f.p - 1), const(0, f.p - 1))
    re = bv.sub(const(2 * f.bias, f.eb + 2), zext(E, f.eb + 2))
    maxe = (1 << f.eb) - 1 if f.nanonly else (1 << f.eb) - 2
    ok = ands([a.fin, pw, bv.ne(E, const(0, f.eb)), bv.slt(const(0, f.eb + 2), re),
               ule(re, const(maxe, f.eb + 2))])
    return ok, pack(f, a.sign, concat(extract(re, 0, f.eb), const(0, f.p - 1)))


# ------------------------------------------------------------------ remainders
def _align(f, x, y):
    """normalized significands and exponents (of the leading bit) of two finite values"""
    Xn, Lx = norm(x.sig)
    Yn, Ly = norm(y.sig)
    return Xn, bv.sub(zext(x.exp, EW), Lx), Yn, bv.sub(zext(y.exp, EW), Ly)


def _exact(f, sign, mag, e):
    """encode sign * mag * 2^(e of the lsb), known to be representable; zero is +0"""
    p = f.p
    bits, _ = round_(f, RNE, sign, mag, e)
    return ite(eq(mag, const(0, mag.w)), zero(f, F), bits)


def remstep(f, xx, xb, dbl=False):
    """x less the largest v = 2^k * |b| (k >= 0) not above |x|, for finite |x| >= |b| (b doubled when dbl)"""
    x, b = decode(f, xx), decode(f, xb)
    p = f.p
    Xn, ex, Bn, eb = _align(f, x, b)
    lt = ult(Xn, Bn)
    A = ite(lt, concat(Xn, F), zext(Xn, p + 1))
    D = bv.sub(A, zext(Bn, p + 1))
    k = bv.add(bv.sub(ex, zext(lt, EW)), const(f.quantum - 1, EW))
    return _exact(f, x.sign, D, k)


def abslt(f, xx, xb):
    return ult(magof(decode(f, xx)), magof(decode(f, xb)))


def double_(f, xb):
    """2b for finite b, and whether that is finite"""
    return mulpow(f, xb, 1)


def mulpow(f, xb, n):
    b = decode(f, xb)
    bits, stt = round_(f, RNE, b.sign, b.sig, bv.add(zext(b.exp, EW), const(f.quantum - 1 + n, EW)))
    return bits, eq(stt, st(0))


def irem_small(f, xx, xb, sign=None):
    """IEEE remainder for finite |x| < 2|b|; a zero gets the sign `sign` (default: that of x)"""
    x, b = decode(f, xx), decode(f, xb)
    p = f.p
    if sign is None:
        sign = x.sign
    Xn, ex, Bn, eb = _align(f, x, b)
    d = bv.sub(ex, eb)
    far = bv.slt(d, const(-1, EW))
    W = p + 4
    # units of half the lsb of the normalized b
    X = zext(Xn, W)
    X = ite(eq(d, const(0, EW)), bv.shlc(X, 1), ite(eq(d, const(1, EW)), bv.shlc(X, 2), X))
    B = bv.shlc(zext(Bn, W), 1)
    X2 = bv.shlc(X, 1)
    n0 = or_(far, ule(X2, B))
    n2 = and_(not_(far), ule(bv.add(B, bv.shlc(B, 1)), X2))
    NB = ite(n2, bv.shlc(B, 1), B)
    neg_ = ult(X, NB)
    M = ite(neg_, bv.sub(NB, X), bv.sub(X, NB))
    k = bv.add(eb, const(f.quantum - 2, EW))
    bits, _ = round_(f, RNE, xor_(x.sign, neg_), M, k)
    r = ite(eq(M, const(0, W)), zero(f, sign), bits)
    return ite(x.zero, zero(f, sign), ite(n0, rtrip(f, xx), r))


# exact reference on numbers, for replays
def pyval(f, x):
    """(sign, significand, exponent of its lsb) of a finite or zero value"""
    s = x >> (f.bits - 1)
    if f.x87:
        e, m = (x >> 64) & 0x7fff, x & ((1 << 64) - 1)
        return s, m, max(e, 1) - 1 + f.quantum
    e, m = (x >> (f.p - 1)) & ((1 << f.eb) - 1), x & ((1 << (f.p - 1)) - 1)
    return s, m | ((1 << (f.p - 1)) if e else 0), max(e, 1) - 1 + f.quantum


def pyenc(f, s, m, e):
    """encode an exactly representable value"""
    if m:
        while m & 1 == 0:
            m >>= 1
            e += 1
        sh = min(f.p - m.bit_length(), e - f.quantum)
        m <<= sh
        e -= sh
        assert sh >= 0 and m.bit_length() <= f.p
    else:
        e = f.quantum
    ex = e - f.quantum + 1 if m >> (f.p - 1) else 0
    if f.x87:
        return s << 79 | ex << 64 | m
    return s << (f.bits - 1) | ex << (f.p - 1) | (m & ((1 << (f.p - 1)) - 1))


def pyrem(f, xa, xb, ieee):
    """the exact remainder of two finite non-zero values"""
    sa, ma, ea = pyval(f, xa)
    sb, mb, eb = pyval(f, xb)
    u = min(ea, eb)
    A, B = ma << (ea - u), mb << (eb - u)
    q, r = divmod(A, B)
    s = sa
    if ieee and (2 * r > B or (2 * r == B and q & 1)):
        r = B - r
        s ^= 1
    if r == 0:
        s = sa
    return pyenc(f, s, r, u)


# ------------------------------------------------------------------ decimal and hexadecimal text
def dec(f, rm, sign, N, K, nmax):
    """N * 10**K rounded, N <= nmax a term that is not zero, K a number -> bits, status, condition to check"""
    if K >= 0 and 5 ** K >> (f.p + 2):
        # too many bits to be exact or half-way
        n = f.p + 70 + N.w
        e = max(0, (5 ** K).bit_length() - n)
        c = 5 ** K >> e
        w = N.w + n + 1
        lo = round_(f, rm, sign, bv.mul(zext(N, w), const(c, w)), K + e, T if e else F)
        hi = round_(f, rm, sign, bv.sub(bv.mul(zext(N, w), const(c + 1, w)), const(1, w)), K + e, T) if e else lo
        return lo[0], lo[1], and_(eq(lo[0], hi[0]), eq(lo[1], hi[1]))
    if K >= 0:
        w = N.w + (5 ** K).bit_length()
        X = bv.mul(zext(N, w), const(5 ** K, w))
        return round_(f, rm, sign, X, K) + (T,)
    D = 5 ** -K
    if D >> 30 > nmax * nmax:
        # never exact and never half-way: bounds of 5**K are enough (the caller checks that they round alike)
        n = f.p + 70 + N.w
        e = n + D.bit_length()
        c = (1 << e) // D
        w = N.w + n + 1
        lo = round_(f, rm, sign, bv.mul(zext(N, w), const(c, w)), K - e, T)
        hi = round_(f, rm, sign, bv.sub(bv.mul(zext(N, w), const(c + 1, w)), const(1, w)), K - e, T)
        return lo[0], lo[1], and_(eq(lo[0], hi[0]), eq(lo[1], hi[1]))
    s = D.bit_length() + f.p + 3
    w = N.w + s
    Z = bv.shlc(zext(N, w), s)
    q = bv.udiv(Z, const(D, w))
    r = bv.urem(Z, const(D, w))
    # the quotient is less than N * 2^s / D < 2^(N.w + f.p + 4)
    q = extract(q, 0, min(w, N.w + f.p + 5))
    return round_(f, rm, sign, q, K - s, bv.ne(r, const(0, w))) + (T,)


def digits(ds, base=10):
    """the integer written with the digit terms ds (4 bits each)"""
    w = max(1, (base ** len(ds) - 1).bit_length())
    n = const(0, w)
    for d in ds:
        d = zext(d, w) if d.w <= w else extract(d, 0, w)
        n = bv.add(bv.mul(n, const(base, w)), d)
    return n

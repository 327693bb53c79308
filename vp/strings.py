"""Parsing and printing (C20 to C23): strings of a fixed shape with symbolic characters."""
import re
import sys
from fractions import Fraction
from . import bv, spec
from .bv import T, F, const, zext, extract, concat, and_, or_, not_, ite, eq, ult, ule

from .checks import E, FM, NAMES, IEEE, USER, Prop, task


sys.set_int_max_str_digits(0)


def shape(c, tpl, hexa=False):
    """N: digit 1..9, D: digit, M/H: the same in hexadecimal; everything else stands for itself
    -> (characters, 4-bit value of every digit position or None)"""
    chars, vals = [], []
    n = 0
    for i, ch in enumerate(tpl):
        if ch in 'ND':
            v = c.int('d%d' % n, 8, 49 if ch == 'N' else 48, 57)
            n += 1
            chars.append(v)
            vals.append(extract(v, 0, 4))
        elif ch in 'MH':
            v = c.int('d%d' % n, 8, 49 if ch == 'M' else 48, 102)
            n += 1
            up, lo = ule(const(65, 8), v), ule(const(97, 8), v)
            c.assume(or_(ule(v, const(57, 8)), or_(and_(up, ule(v, const(70, 8))), lo)))
            chars.append(v)
            vals.append(ite(up, bv.add(extract(v, 0, 4), const(9, 4)), extract(v, 0, 4)))
        else:
            chars.append(const(ord(ch), 8))
            vals.append(const(int(ch, 16), 4) if ch in '0123456789abcdefABCDEF' else None)
    return chars, vals


DEC = re.compile(r'^([+-]?)([0-9ND]*)(?:(\.)([0-9ND]*))?(?:[eE]([+-]?[0-9]*))?$')


def decimal(f, tpl, timeout=200, note=''):
    fm = FM[f]
    en = E('parse', f)

    def script(c):
        chars, vals = shape(c, tpl)
        r = c.rm()
        m = DEC.match(tpl)
        o0 = len(m.group(1))
        ds = [vals[i] for i in range(m.start(2), m.end(2))]
        k = 0
        if m.group(3):
            ds += [vals[i] for i in range(m.start(4), m.end(4))]
            k -= m.end(4) - m.start(4)
        k += int(m.group(5) or 0) if m.group(5) not in ('+', '-') else 0
        while ds and ds[0].op == 'c' and ds[0].k == 0:
            ds = ds[1:]
        while ds and ds[-1].op == 'c' and ds[-1].k == 0:
            ds = ds[:-1]
            k += 1
        sign = const(1 if tpl[0] == '-' else 0, 1)
        o = c.parse(en, chars, r, prune=c.pruner())
        c.expect(o, 'f', const(0, 8))
        k = max(-7000, min(7000, k))        # beyond every format, with the digits of these templates
        if ds:
            nmax = int(''.join('9' if x.op != 'c' else str(x.k) for x in ds))
            v, s, ok = spec.dec(fm, r, sign, spec.digits(ds), k, nmax)
            if ok is not T and c.solver.sat(c.pre + [not_(ok)])[0] != 'unsat':
                raise Exception('the bounds of the power of five are too coarse for the reference')
        else:
            v, s = spec.zero(fm, sign), spec.st(0)
        c.expect(o, 'v', v)
        c.expect(o, 'st', s)
    return task('%s parse %s%s' % (NAMES[f], tpl, ' [%s]' % note if note else ''), [en], script, timeout=timeout,
                bound='every value of the digits D (0-9) and N (1-9), all five rounding modes')


HEX = re.compile(r'^([+-]?)0[xX]([0-9a-fA-FMH]*)(?:(\.)([0-9a-fA-FMH]*))?[pP]([+-]?[0-9]+)$')


def hexadecimal(f, tpl, timeout=200, note=''):
    fm = FM[f]
    en = E('parse', f)

    def script(c):
        chars, vals = shape(c, tpl)
        r = c.rm()
        m = HEX.match(tpl)
        ds = [vals[i] for i in range(m.start(2), m.end(2))]
        k = int(m.group(5))
        if m.group(3):
            ds += [vals[i] for i in range(m.start(4), m.end(4))]
            k -= 4 * (m.end(4) - m.start(4))
        sign = const(1 if tpl[0] == '-' else 0, 1)
        o = c.parse(en, chars, r, prune=c.pruner())
        c.expect(o, 'f', const(0, 8))
        N = ds[0]
        for d in ds[1:]:
            N = concat(N, d)
        z = eq(N, const(0, N.w))
        v, s = spec.round_(fm, r, sign, N, k)
        c.expect(o, 'v', ite(z, spec.zero(fm, sign), v))
        c.expect(o, 'st', ite(z, spec.st(0), s))
    return task('%s parse %s%s' % (NAMES[f], tpl, ' [%s]' % note if note else ''), [en], script, timeout=timeout,
                bound='every value of the hexadecimal digits H (0-f, either case) and M (1-f), all five rounding modes')


def sci(x, n, rnd=0):
    """the positive rational x as n digits and a decimal exponent, cut off"""
    e = 0
    while x >= 10 ** (e + 1):
        e += 1
    while x < Fraction(10) ** e:
        e -= 1
    d = int(x / Fraction(10) ** (e - n + 1))
    return str(d), e


def exact(x):
    """all digits of the dyadic rational x -> digits, decimal exponent of the first one"""
    k = x.denominator.bit_length() - 1
    s = str(x.numerator * 5 ** k)
    e = len(s) - 1 - k
    return s.rstrip('0'), e


def near(ds, e, nsym, extra=0):
    """scientific text of the digits with the last nsym symbolic, `extra` zeros before the last one"""
    ds = ds if len(ds) >= nsym else ds.ljust(nsym, '0')
    k = len(ds) - nsym
    t = ds[:k] + 'D' * (nsym - 1) + '0' * extra + 'N'
    if t[0] == 'D':
        t = 'N' + t[1:]
    return t[0] + ('.' + t[1:] if len(t) > 1 else '') + ('e%d' % e if e else '')


def points(fm):
    """values where the rounding changes its character"""
    p, emin, emax = fm.p, fm.emin, fm.emax
    u = Fraction(2)
    top = (u ** p - 1 - (1 if fm.nanonly else 0)) * u ** (emax - p + 1)
    return {
        'half the least denormal': u ** (emin - p),
        'three halves of the least denormal': 3 * u ** (emin - p),
        'least normal': u ** emin - u ** (emin - p),
        'one and half an ulp': 1 + u ** -p,
        'one less a quarter ulp': 1 - u ** (-p - 1),
        'largest and half an ulp': top + u ** (emax - p),
    }


def c20(tier):
    ts = []
    th = tier == 'thorough'
    for f in ['q', 'x', 'd', 's', 'h', 'b', 'e5', 'e4', 't6', 'n6']:
        fm = FM[f]
        for t in ['N', '-NDN', 'N.DN', 'NDNe+5', '-0.00NDN', 'NDDDN', 'NDE-8', '00N.N0', 'N.NDe3', 'NDNe-20', 'NDNe20',
                  '.N', 'N.', '-0.0e7', 'NN00e0', '+Ne', 'NDe9999', '-N.De-9999',
                  'NDNe99999999999', '-0.00Ne-99999999999', '0.e99999999999', '.000e-1']:
            ts.append(decimal(f, t))
        for nm, x in points(fm).items():
            ds, e = exact(x)
            if len(ds) <= (800 if th else 60):
                ts.append(decimal(f, near(ds, e, 2), note=nm))
                if len(ds) <= 30 or th:
                    ts.append(decimal(f, '-' + near(ds, e, 2, 20), note=nm, timeout=500 if th else 200))
            if len(ds) > 6:
                for n in ([4, 17, 22, 40] if th else [17] if f in 'qxd' and nm == 'least normal' else [4, 17]):
                    ds, e = sci(x, n)
                    ts.append(decimal(f, near(ds, e, 3 if n == 4 else 2), note=nm))
    return ts


Prop('C20', c20, full=True, budget=(420, 5000))


# ------------------------------------------------------------------ C21 hexadecimal strings
def c21(tier):
    ts = []
    th = tier == 'thorough'
    for f in ['q', 'x', 'd', 's', 'h', 'b', 'e5', 'e4', 't6', 'n6']:
        fm = FM[f]
        n = (fm.p + 3) // 4            # digits of the significand, plus one
        M = 'M' + 'H' * (n + 1)
        e0 = fm.emin - 4 * n
        tpl = ['0xMp0', '-0xHHp+3', '+0XM.HHHp-1', '0x.MHHp2', '0x.00MHp5', '0x00M.P7', '0x%sp0' % M, '-0x1.%sp0' % M,
               '0x%s00000000H0Hp1' % M, '-0x.%sHHHHHHHHp4' % M, '0xM.HHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHHp0',
               '0xMHp99999999999', '-0xM.Hp-99999999999', '0x0.0p5']
        # around the smallest and the largest values
        for d in (-6, -3, -2, -1, 0, 1, 2) + ((-5, -4, 3, 4) if th else ()):
            tpl.append('0x%s.HHp%d' % (M, fm.emin + d - 4 * n))
            tpl.append('-0x0.M%sp%d' % ('H' * (n + 1), fm.emin - fm.p + d))
            tpl.append('0xM.%sp%d' % ('H' * (n + 1), fm.emax - 1 + d))
        for t in tpl:
            ts.append(hexadecimal(f, t))
    return ts


Prop('C21', c21, full=True, budget=(420, 3000))


# ------------------------------------------------------------------ C22 grammar
def grammar(cs):
    """does the grammar accept the characters cs -> (accepted, special name or None parts)
    number  := sign? (digits with at most one point, one digit at least) ([eE] sign? digit*)?
             | sign? 0[xX] (hexadecimal digits with at most one point, one digit at least) [pP] sign? digit+
    special := [+-]Inf | -?inf | -?INFINITY | -?[sS]?(nan|NaN) payload
    payload := nothing | p | (p)      p := +? decimal | 0 +? octal | 0[xX] +? hexadecimal"""
    n = len(cs)

    def is_(i, chs):
        return bv.ors([eq(cs[i], const(ord(x), 8)) for x in chs])

    def rng(i, a, b):
        return and_(ule(const(ord(a), 8), cs[i]), ule(cs[i], const(ord(b), 8)))

    def dig(i, base=10):
        if base == 16:
            return bv.ors([rng(i, '0', '9'), rng(i, 'a', 'f'), rng(i, 'A', 'F')])
        return rng(i, '0', '7' if base == 8 else '9')

    def lit(i, w):
        return bv.ands([eq(cs[i + j], const(ord(x), 8)) for j, x in enumerate(w)]) if i + len(w) <= n else F

    def number(i, base):
        """from position i on"""
        st = {'0': T}       # 0: nothing yet, .: point only, d: digits, D: digits and point, e: exponent letter, s: sign, x: exponent
        for j in range(i, n):
            d, pt = dig(j, base), is_(j, '.')
            ex = is_(j, 'eE' if base == 10 else 'pP')
            if base == 10:
                d = dig(j)
            sg, ed = is_(j, '+-'), dig(j)
            g = lambda k: st.get(k, F)
            st = {
                '.': and_(g('0'), pt),
                'd': and_(or_(g('0'), g('d')), d),
                'D': or_(and_(bv.ors([g('.'), g('D')]), d), and_(g('d'), pt)),
                'e': and_(or_(g('d'), g('D')), ex),
                's': and_(g('e'), sg),
                'x': and_(bv.ors([g('e'), g('s'), g('x')]), ed),
            }
        g = lambda k: st.get(k, F)
        return bv.ors([g('d'), g('D'), g('e'), g('s'), g('x')]) if base == 10 else g('x')

    def run(i, j, base):
        """digits in i..j with an optional plus sign"""
        if i >= j:
            return F
        a = bv.ands([dig(k, base) for k in range(i, j)])
        if j - i > 1:
            a = or_(a, bv.ands([is_(i, '+')] + [dig(k, base) for k in range(i + 1, j)]))
        return a

    def payload(i, j):
        if i >= j:
            return F
        z = F
        if j - i > 1:
            z = eq(cs[i], const(48, 8))
        x = is_(i + 1, 'xX') if j - i > 1 else F
        return ite(z, ite(x, run(i + 2, j, 16), run(i + 1, j, 8)), run(i, j, 10))

    def special(i, plus, minus):
        r = F
        if n - i == 3:
            if plus or minus:
                r = or_(r, lit(i, 'Inf'))
            if not plus:
                r = or_(r, lit(i, 'inf'))
        if n - i == 8 and not plus:
            r = or_(r, lit(i, 'INFINITY'))
        nan = F
        if not plus:
            for k, pre in ((i, T), (i + 1, is_(i, 'sS') if i < n else F)):
                if k + 3 <= n:
                    h = and_(pre, or_(lit(k, 'nan'), lit(k, 'NaN')))
                    j = k + 3
                    p = T if j == n else payload(j, n)
                    if n - j >= 3:
                        p = or_(p, bv.ands([is_(j, '('), is_(n - 1, ')'), payload(j + 1, n - 1)]))
                    nan = or_(nan, and_(h, p))
        return r, nan
    if n == 0:
        return F, F, F

    def rest(i, plus, minus):
        a, b = special(i, plus, minus)
        hx = F
        if i + 2 < n:
            hx = and_(eq(cs[i], const(48, 8)), is_(i + 1, 'xX'))
        num = F
        if i < n:
            num = ite(hx, number(i + 2, 16) if i + 2 < n else F, number(i, 10))
        return a, b, num
    m, pl = is_(0, '-'), is_(0, '+')
    A, B, C = rest(0, False, False), rest(1, False, True), rest(1, True, False)
    return tuple(ite(m, y, ite(pl, z, x)) for x, y, z in zip(A, B, C))


def accepts(f, tpl, timeout=200):
    """? any ASCII character; other letters as in shape()"""
    fm = FM[f]
    en = E('parse', f)

    def script(c):
        cs, k = [], 0
        for ch in tpl.encode():
            if ch == 63:
                cs.append(c.int('c%d' % k, 8, 0, 127))
                k += 1
            else:
                cs.append(const(ch, 8))
        r = c.rm()
        inf, nan, num = grammar(cs)
        o = c.parse(en, cs, r, prune=c.pruner())
        c.expect(o, 'f', zext(not_(bv.ors([inf, nan, num])), 8), label='accepted or not')
        sign = eq(cs[0], const(45, 8)) if cs else F
        c.expect(o, 'v', spec.inf(fm, sign), inf, label='infinity')
        c.check(o, 'v', lambda v: spec.decode(fm, extract(v, 0, fm.bits)).nan, nan, label='a NaN')
        c.expect(o, 'st', spec.st(0), or_(inf, nan))
    return task('%s accepts %r' % (NAMES[f], tpl), [en], script, timeout=timeout,
                bound='every ASCII character for each ?, all five rounding modes')


def c22(tier):
    ts = []
    th = tier == 'thorough'
    for f in ['h', 'q', 'e4', 'n6', 'd', 'x'] if not th else IEEE + USER:
        for t in ['', '?', '??', '???', 'nan?', 'na??', '?nan', 'NaN(?)', 'nan(??', 's?aN??', '-nan0???', '?Inf', '??nf', 'INFINIT?',
                  '?INFINITY', '-INFINIT?', '0?1p?', '0x???', '0x?.?p1', '0x1p??', '-0X1.?p?', '1?5', '1e?', '1.?e?', '?.?', '??.1', '1e+?',
                  '1?+?', '\u00e9', '1\u00e9', '1e\u0663', '0x\uff11p1', 'nan\u0661']:
            ts.append(accepts(f, t))
        if th:
            for t in ['????', 'nan(0x??)', '0x????', '-0x??p?', '+??.?', '1e???']:
                ts.append(accepts(f, t, 900))
    return ts


Prop('C22', c22, full=True, budget=(420, 5000))


# ------------------------------------------------------------------ C23 printing
TXT = re.compile(r'^(-?)([0-9]+)(?:\.([0-9]+))?(?:[eE]([+-])([0-9]+))?$')


def reads_back(fm, text, sign, M, e, few=None):
    """does the text denote a value that rounds to nearest to (-1)^sign * M * 2^e (M: significand, p bits)"""
    m = TXT.match(text)
    if not m or (m.group(1) == '-') != bool(sign):
        return False
    fr = m.group(3) or ''
    k = int((m.group(4) or '') + (m.group(5) or '0')) - len(fr)
    v = Fraction(int(m.group(2) + fr)) * Fraction(10) ** k / Fraction(2) ** e
    if few:
        return abs(v - M) * 10 ** (few - 1) <= M
    lo = Fraction(1, 4 if M == 1 << (fm.p - 1) and e > fm.emin - fm.p + 1 else 2)
    up = v - M
    if up >= 0:
        return up < Fraction(1, 2) or up == Fraction(1, 2) and M % 2 == 0
    return -up < lo or -up == lo and M % 2 == 0


def scan(bs, L):
    """the characters bs[0..L) as text -> (well formed, minus, N, k): the value is N * 10**k"""
    from .sym import bv_leaves
    ls = bv_leaves(L, 400)
    n = min(len(bs), bv.ubounds(L)[1] if ls is None else max(x for _, x in ls))
    bs = bs[:n]
    W = 4 * n if n < 40 else (10 ** n - 1).bit_length()
    st = {'b': T}           # b: start, m: sign, i: integer digits, p: point, f: fraction, e: E, s: exponent sign, x: exponent
    N, fr, X, xs = const(0, W), const(0, 16), const(0, 16), F
    minus = F
    for j in range(n):
        c = bs[j]
        on = ult(const(j, 32), L)
        if on is F:
            break
        g = lambda k: st.get(k, F)
        d = and_(ule(const(48, 8), c), ule(c, const(57, 8)))
        ch = lambda x: eq(c, const(ord(x), 8))
        dv = extract(c, 0, 4)
        ns = {
            'm': and_(g('b'), ch('-')),
            'i': and_(bv.ors([g('b'), g('m'), g('i')]), d),
            'p': and_(g('i'), ch('.')),
            'f': and_(or_(g('p'), g('f')), d),
            'e': and_(or_(g('i'), g('f')), or_(ch('E'), ch('e'))),
            's': and_(g('e'), or_(ch('+'), ch('-'))),
            'x': and_(or_(g('s'), g('x')), d),
        }
        val = and_(on, or_(ns['i'], ns['f']))
        N = ite(val, bv.add(bv.mul(N, const(10, W)), zext(dv, W)), N)
        fr = ite(and_(on, ns['f']), bv.add(fr, const(1, 16)), fr)
        X = ite(and_(on, ns['x']), bv.add(bv.mul(X, const(10, 16)), zext(dv, 16)), X)
        xs = ite(and_(on, ns['s']), ch('-'), xs)
        minus = or_(minus, bv.ands([on, ns['m']]))
        st = {k: ite(on, ns.get(k, F), g(k)) for k in 'bmipfesx'}
    ok = bv.ors([st[k] for k in 'ifx'])
    k = bv.sub(ite(xs, bv.neg(X), X), fr)
    return ok, minus, N, k


def shows(f, ex, tz, sign=0, timeout=200, size=64, how=''):
    """exponent field ex; the significand (with its hidden bit) has exactly tz trailing zeros"""
    fm = FM[f]
    en = E('show' + how, f)
    p = fm.p
    few = {'p1': 1, 'p3': 3}.get(how)

    def script(c):
        hidden = ex != 0
        if tz is None:
            lowm = c.int('m', p - 1)
        elif tz < p - 1:
            lowm = const(1 << tz, tz + 1)
            if tz < p - 2:
                lowm = concat(c.int('m', p - 2 - tz), lowm)
        else:
            lowm = const(0, p - 1)
        sg = concat(const(int(hidden), 1), lowm)
        if fm.x87:
            a = concat(const(sign, 1), concat(const(ex, fm.eb), sg))
        else:
            a = concat(const(sign, 1), concat(const(ex, fm.eb), lowm))
        e = (ex if hidden else 1) + fm.emin - 1 - (p - 1)
        if fm.nanonly and ex == (1 << fm.eb) - 1:
            c.assume(bv.ne(lowm, const((1 << p - 1) - 1, p - 1)))
        if not hidden:
            c.assume(bv.ne(lowm, const(0, p - 1)))
        o = c.show(en, a, size, prune=c.pruner())
        out = o[1]
        c.expect(o, 'f', const(0, 8))
        even = not_(extract(sg, 0, 1))
        lows = not hidden or ex == 1
        bad = []
        for path, po in out.paths:
            ok, minus, N, k = scan(po.bytes, po.e)
            good = F
            # 4 V against (4 M + 2) 2^e and (4 M - 2 or 1) 2^e
            for kk in sym_leaves(k):
                # V = N 10^kk, x = M 2^e; both sides times 10^-kk 2^-e where that is needed
                t, u = 10 ** max(kk, 0), 10 ** max(-kk, 0)
                tt, uu = 2 ** max(e, 0), 2 ** max(-e, 0)
                A, B = 4 * t * uu, tt * u
                z = min(A & -A, B & -B)
                A, B = A // z, B // z
                w = max(N.w + A.bit_length(), p + 4 + B.bit_length()) + 1
                V = bv.mul(zext(N, w), const(A, w))
                M4 = bv.shlc(zext(sg, w), 2)
                if few:
                    X = bv.mul(M4, const(B, w))
                    df = ite(ult(V, X), bv.sub(X, V), bv.sub(V, X))
                    r = ule(bv.mul(zext(df, w + 12), const(10 ** (few - 1), w + 12)), zext(X, w + 12))
                    good = or_(good, and_(eq(k, const(kk & 0xffff, 16)), r))
                    continue
                up = bv.mul(bv.add(M4, const(2, w)), const(B, w))
                pow2 = F if lows else eq(sg, const(1 << (p - 1), p))
                dn = bv.mul(bv.sub(M4, ite(pow2, const(1, w), const(2, w))), const(B, w))
                r = and_(or_(ult(V, up), and_(even, eq(V, up))), or_(ult(dn, V), and_(even, eq(V, dn))))
                good = or_(good, and_(eq(k, const(kk & 0xffff, 16)), r))
            good = bv.ands([ok, eq(minus, const(sign, 1)), good])
            bad.append(and_(path, not_(good)))

        def wrong(res, model, memo):
            r = res[o[0]]
            if r is None:
                return None
            txt = bytes(r['bytes'])[:r['e']].decode('latin1')
            M = bv.evaluate([sg], model)[0]
            return None if reads_back(fm, txt, sign, M, e, few) else 'text %r does not read back as %d * 2^%d' % (txt, M, e)
        c.reqs.append(('reads back', bv.ors(bad), ('n', wrong, T)))
    return task('%s show%s exponent field %d%s%s' % (NAMES[f], how and ' ' + FORMATS[how], ex, '' if tz is None else ', %d trailing zeros' % tz,
                                                    ', negative' if sign else ''), [en], script, timeout=timeout,
                bound='every such value')


FORMATS = {'0': '{:0 wide}', 'a': '{:#0 wide}', 'w': '{:40}', 'p0': '{:.0}', 'p1': '{:.1}', 'p3': '{:.3}', 'p20': '{:#.20}'}


def sym_leaves(k):
    from .sym import bv_leaves
    ls = bv_leaves(k, 400)
    if ls is None:
        raise Exception('too many exponents')
    return sorted({x - (1 << k.w) if x >> (k.w - 1) else x for c, x in ls if c is not F})


def specials(f, kind, how=''):
    """zeros, infinities and NaNs of a format"""
    fm = FM[f]
    en = E('show' + how, f)
    SPECIAL = {'inf': (['+Inf', 'inf', 'INFINITY'], ['-Inf', '-inf', '-INFINITY'])}

    def script(c):
        a = c.int('a', fm.bits)
        k = spec.decode(fm, a)
        c.assume(getattr(k, kind))
        o = c.show(en, a, 64, prune=c.pruner())
        c.expect(o, 'f', const(0, 8))
        sg = extract(a, fm.bits - 1, 1)
        bad = []

        def texts(neg):
            if kind == 'nan':
                return [x + y for x in ['', '-'] for y in ['NaN', 'nan']]
            return SPECIAL['inf'][neg]
        for path, po in o[1].paths:
            if kind == 'zero':
                ok, minus, N, _ = scan(po.bytes, po.e)
                g = bv.ands([ok, eq(minus, sg), eq(N, const(0, N.w))])
            else:
                g = F
                for neg in (0, 1):
                    for t in texts(neg):
                        m = bv.ands([eq(po.e, const(len(t), 32))] + [eq(x, const(ord(y), 8)) for x, y in zip(po.bytes, t)])
                        g = or_(g, m if kind == 'nan' else and_(m, eq(sg, const(neg, 1))))
            bad.append(and_(path, not_(g)))

        def wrong(res, model, memo):
            r = res[o[0]]
            if r is None:
                return None
            txt = bytes(r['bytes'])[:r['e']].decode('latin1')
            neg = bv.evaluate([sg], model)[0]
            if kind == 'zero':
                m = TXT.match(txt)
                ok = m and (m.group(1) == '-') == bool(neg) and not int(m.group(2) + (m.group(3) or ''))
            else:
                ok = txt in texts(neg)
            return None if ok else 'text %r' % txt
        c.reqs.append(('reads back', bv.ors(bad), ('n', wrong, T)))
    return task('%s show%s %s' % (NAMES[f], how and ' ' + FORMATS[how], {'zero': 'zeros', 'inf': 'infinities', 'nan': 'NaNs'}[kind]),
                [en], script, timeout=100, bound='every bit pattern of that category')


def c23(tier):
    ts = []
    th = tier == 'thorough'

    def exps(fm, lo, hi):
        return range(max(lo, 0), min(hi, (1 << fm.eb) - (0 if fm.nanonly else 1)))
    for f in USER + ['t6', 'n6']:
        fm = FM[f]
        for kind in ['zero', 'nan'] + ([] if fm.nanonly else ['inf']):
            for how in ['', '0', 'a', 'p20'] if f in 'hde4' or th else ['']:
                if kind == 'zero' or how == '':
                    ts.append(specials(f, kind, how))
    for f in ['e4', 'e5', 't6', 'n6']:
        fm = FM[f]
        for ex in exps(fm, 0, 1 << fm.eb):
            for tz in range(fm.p - (ex == 0)):
                for how in ['', '0', 'a', 'w', 'p0', 'p1'] if f in ('e4', 't6') or th else ['']:
                    ts.append(shows(f, ex, tz, (ex + tz) % 2, how=how))
    fm = FM['h']
    for ex in range(31):
        for tz in range(fm.p - (ex == 0)):
            if ex > 2 or th or ex + tz > 5:
                ts.append(shows('h', ex, tz, (ex + tz) % 2, timeout=300 if th else 60))
    if th:
        for how in ['0', 'a', 'w', 'p0', 'p1', 'p3', 'p20']:
            for ex in range(3, 31):
                for tz in range(fm.p):
                    ts.append(shows('h', ex, tz, (ex + tz) % 2, timeout=300, how=how))
    # larger formats: significands of few bits near one, more of them in the thorough tier
    for f, n, es in [('b', 8, (120, 127, 130, 160)), ('s', 9, (124, 127, 133, 155)), ('d', 7, (1018, 1023, 1040, 1080)),
                     ('x', 8, (16379, 16383, 16390, 16440)), ('q', 8, (16379, 16383, 16390, 16440))]:
        fm = FM[f]
        if th:
            n, es = n + 3, range(es[0] - 10, es[3] + 10)
        for ex in es:
            for tz in range(max(0, fm.p - n), fm.p):
                ts.append(shows(f, ex, tz, (ex + tz) % 2, timeout=300 if th else 60))
    return ts


Prop('C23', c23, full=True, budget=(600, 5000))

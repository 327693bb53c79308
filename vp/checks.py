"""The properties and their tasks."""
from . import bv, build, cut, spec
from .bv import T, F, const, zext, sext, extract, concat, and_, or_, not_, xor_, ite, eq, ands, ors, ult, ule, slt, sle
from .spec import FM, decode
from .task import Task

E = build.entry
IEEE = ['h', 's', 'd', 'q', 'b', 'e5', 'e4', 'x']
USER = ['t6', 'n6']
NAMES = build.TYPES
ALLRM = 'every bit pattern of every operand, all five rounding modes'
ALLBITS = 'every bit pattern of every operand'
COMMON = [
    'the IR is what rustc (nightly, -O pipeline of build.py) makes of /repo with debug assertions and overflow checks on',
    'the IR interpreter vp/sym.py and the bit-blaster vp/solve.py are trusted; every task compares the encoding with the '
    'compiled code on sample inputs, and every counterexample is replayed on the compiled code',
    'kissat is trusted for its unsat answers',
]

PROPS = {}


class Prop:
    def __init__(self, pid, mk, budget=(240, 1800), full=False, bounds='', assumptions=(), inline=200):
        self.pid = pid
        self.mk = mk
        self.budget = {'quick': budget[0], 'thorough': budget[1]}
        self.full = full
        self.inline = inline
        self._bounds = bounds
        self.assumptions = COMMON + list(assumptions)
        self._t = {}
        PROPS[pid] = self

    def tasks(self, tier):
        if tier not in self._t:
            self._t[tier] = self.mk(tier)
        return self._t[tier]

    def entries(self, tier):
        r = []
        for t in self.tasks(tier):
            for e in t.entries:
                if e not in r:
                    r.append(e)
        return r

    def bounds(self, tier):
        return self._bounds


def task(name, entries, script, **kw):
    t = Task(name, script, **kw)
    t.entries = entries
    return t


def same_finding(k, r):
    """does counterexample r match the listed finding k (its input values)"""
    want = dict(x.split(':') for x in k.get('input', '').split(',') if x)
    return all(hex(r['model'].get(n, -1)) == v for n, v in want.items()) and bool(want)


# ------------------------------------------------------------------ generic builders
def binop(op, f, entry=None, extra=None, rm=True, pre=None, name=None, bound=ALLRM, specfn=None, n=2, split=None, **kw):
    fm = FM[f]
    en = E(entry or op, f)
    sp = specfn or getattr(spec, op)

    def script(c):
        xs = [c.fl(v, fm) for v in 'abc'[:n]]
        r = c.rm() if rm else 0
        if pre:
            for p in pre(fm, *xs):
                c.assume(p)
        o = c.run(en, *xs, r=r)
        v, s = sp(fm, r, *xs) if rm else sp(fm, *xs)
        c.expect(o, 'v', v)
        c.expect(o, 'st', s)
    return task('%s %s%s' % (NAMES[f], op, ' ' + name if name else ''), [en], script, bound=bound, split=split, **kw)


def unop(op, f, fields, bound=ALLBITS, rm=False, entry=None, n=1, k=0, **kw):
    """fields(fm, xs..., r) -> list of (field, term)"""
    fm = FM[f]
    en = E(entry or op, f)

    def script(c):
        xs = [c.fl(v, fm) for v in 'abc'[:n]]
        r = c.rm() if rm else 0
        o = c.run(en, *xs, k=k, r=r)
        for fld, t in (fields(fm, r, *xs) if rm else fields(fm, *xs)):
            c.expect(o, fld, t)
    return task('%s %s' % (NAMES[f], op), [en], script, bound=bound, **kw)


def isnan(fm, x):
    return decode(fm, x).nan


# ------------------------------------------------------------------ C01 encodings
def c01(tier):
    ts = []
    for f in IEEE + USER:
        ts.append(unop('rtrip', f, lambda fm, a: [('v', spec.rtrip(fm, a))]))
        ts.append(unop('class', f, lambda fm, a: [('v', spec.classbits(fm, a))]))
        ts.append(unop('biteq', f, lambda fm, a, b: [('f', spec.biteq(fm, a, b))], n=2))
    return ts


Prop('C01', c01, bounds='every bit pattern of each of the 8 built-in IEEE-style formats and two user formats')


# ------------------------------------------------------------------ C02..C05 arithmetic
EW = spec.EW


def K(v):
    return const(v, EW)


def between(d, lo, hi):
    c = T
    if lo is not None:
        c = and_(c, bv.sle(K(lo), d))
    if hi is not None:
        c = and_(c, bv.sle(d, K(hi)))
    return c


def cased(mk, cases, fm, n):
    """tasks mk(case name, pre) for every case, plus one for whatever no case covers"""
    xs = [bv.var(v, fm.bits) for v in 'abc'[:n]]
    ts = [mk(nm, lambda f_, *x, fn=fn: [fn(*[decode(f_, y) for y in x])]) for nm, fn in cases]

    def rest(f_, *x):
        d = [decode(f_, y) for y in x]
        return [not_(bv.ors([fn(*d) for _, fn in cases]))]
    ts.append(mk('(no case)', rest))
    return ts


def add_cases(p):
    """by relative sign and exponent difference"""
    cs = [('not both finite', lambda a, b: not_(and_(a.fin, b.fin)))]

    def mk(sg, lo, hi):
        def f(a, b):
            d = bv.sub(zext(a.exp, EW), zext(b.exp, EW))
            return bv.ands([a.fin, b.fin, between(d, lo, hi), eq(xor_(a.sign, b.sign), const(sg, 1))])
        return f
    for sg in (0, 1):
        for lo, hi in [(-1, -1), (0, 0), (1, 1), (2, p // 2), (p // 2 + 1, p + 3), (p + 4, None), (-(p // 2), -2),
                       (-(p + 3), -(p // 2) - 1), (None, -(p + 4))]:
            cs.append(('signs %s, exponents differ by %s..%s' % ('differ' if sg else 'equal', lo, hi), mk(sg, lo, hi)))
    return cs


def isnorm(d):
    return and_(d.fin, extract(d.sig, d.f.p - 1, 1))


def isden(d):
    return and_(d.fin, not_(extract(d.sig, d.f.p - 1, 1)))


def chunks(lo, hi, n):
    """split the range lo..hi into at most n parts"""
    n = min(n, hi - lo + 1)
    e = [lo + (hi - lo + 1) * i // n for i in range(n + 1)]
    return [(e[i], e[i + 1] - 1) for i in range(n)]


def lead(d, lo, hi):
    """the leading one of the significand is at a position lo..hi"""
    p = d.f.p
    c = T
    if hi + 1 < p:
        c = and_(c, eq(extract(d.sig, hi + 1, p - hi - 1), const(0, p - hi - 1)))
    if lo > 0:
        c = and_(c, bv.ne(extract(d.sig, lo, p - lo), const(0, p - lo)))
    return c


def mul_cases(fm, n=1):
    """by normality, position of a denormal's leading bit and product exponent"""
    cs = [('not both finite', lambda a, b: not_(and_(a.fin, b.fin)))]
    p, top = fm.p, (1 << fm.eb)

    def pe(a, b):
        return bv.sub(bv.add(zext(a.exp, EW), zext(b.exp, EW)), K(fm.bias))

    def nn(lo, hi):
        return lambda a, b: ands([isnorm(a), isnorm(b), between(pe(a, b), lo, hi)])

    def dn(l, h, lo, hi):
        return lambda a, b: ands([isden(a), b.fin, lead(a, l, h), between(pe(a, b), lo, hi)])
    for lo, hi in [(None, -p - 3), (-p - 2, 0), (1, top - 3), (top - 2, None)]:
        cs.append(('normals, product exponent %s..%s' % (lo, hi), nn(lo, hi)))
    for l, h in chunks(0, p - 2, n):
        for lo, hi in [(None, 0), (1, None)]:
            cs.append(('a denormal with leading bit %d..%d, product exponent %s..%s' % (l, h, lo, hi), dn(l, h, lo, hi)))
    cs.append(('swap', lambda a, b: and_(isnorm(a), isden(b))))
    return cs


def fma_cases(fm, nd=1, nl=1, den=True):
    """by normality, leading bits of denormals, relative sign and exponent difference of product and addend;
    den=False leaves denormal operands out"""
    p = fm.p

    def pe(a, b):
        return bv.sub(bv.add(zext(a.exp, EW), zext(b.exp, EW)), K(fm.bias))
    def odd(d):
        return or_(d.nan, d.inf)
    cs = [('a NaN or infinity', lambda a, b, c: ors([odd(a), odd(b), odd(c)])),
          ('a zero factor', lambda a, b, c: ands([or_(a.zero, b.zero), not_(odd(a)), not_(odd(b)), not_(odd(c))]))]
    for nm, fn in mul_cases(fm, nl):
        if nm not in ('swap', 'not both finite'):
            cs.append(('zero addend, ' + nm, lambda a, b, c, fn=fn: and_(c.zero, fn(a, b))))
    def mk(fac, ad, sg, lo, hi):
        def f(a, b, c):
            x = and_(isnorm(a), isnorm(b)) if fac is None else ands([isden(a), b.fin, lead(a, *fac)])
            y = isnorm(c) if ad is None else and_(isden(c), lead(c, *ad))
            return ands([x, y, eq(xor_(xor_(a.sign, b.sign), c.sign), const(sg, 1)),
                         between(bv.sub(pe(a, b), zext(c.exp, EW)), lo, hi)])
        return f
    L = chunks(0, p - 2, nl)
    facs = [None] + (L if den else [])
    ads = [None] + (L if den else [])
    for fac in facs:
        for ad in ads:
            for sg in (0, 1):
                rs = [(None, -2 * p - 4)] + [(-2 * p - 3, -p - 1)] + chunks(-p, -3, nd) + [(-2, 1)] + chunks(2, p, nd) + \
                    [(p + 1, 2 * p + 3), (2 * p + 4, None)]
                for lo, hi in rs:
                    nm = 'normal factors' if fac is None else 'a denormal with leading bit %d..%d' % fac
                    nm += ', addend ' + ('normal' if ad is None else 'denormal with leading bit %d..%d' % ad)
                    cs.append(('%s, signs %s, exponents differ by %s..%s' % (nm, 'differ' if sg else 'equal', lo, hi),
                               mk(fac, ad, sg, lo, hi)))
    cs.append(('swap', lambda a, b, c: ands([isnorm(a), isden(b), or_(c.fin, c.zero)])))
    return cs


def swapped(op, f, pre, n, **kw):
    """the first two operands may be exchanged"""
    fm, en = FM[f], E(op, f)

    def script(c):
        xs = [c.fl(v, fm) for v in 'abc'[:n]]
        r = c.rm()
        for p in pre(fm, *xs):
            c.assume(p)
        o1 = c.run(en, *xs, r=r)
        o2 = c.run(en, xs[1], xs[0], *xs[2:], r=r)
        c.same(o1, o2, [('v', 'v'), ('st', 'st')], label='the factors commute')
    return task('%s %s [b denormal: as with the factors exchanged]' % (NAMES[f], op), [en], script, bound=ALLRM, **kw)


def binop_cased(op, f, cases, n=2, **kw):
    def mk(nm, pre):
        if nm == 'swap':
            return swapped(op, f, pre, n, **kw)
        return binop(op, f, name='[%s]' % nm, pre=pre, n=n, **kw)
    return cased(mk, cases, FM[f], n)


def sub_by_add(f):
    """a - b is a + (-b) for every b that is not a NaN (NaN: against the reference)"""
    fm = FM[f]

    def script(c):
        a, b = c.fl('a', fm), c.fl('b', fm)
        r = c.rm()
        c.assume(not_(decode(fm, b).nan))
        x = c.run(E('sub', f), a, b, r=r)
        y = c.run(E('add', f), a, spec.neg(fm, b), r=r)
        c.same(x, y, [('v', 'v'), ('st', 'st')], label='a - b is a + (-b)')
    return [task('%s sub as add' % NAMES[f], [E('sub', f), E('add', f)], script, bound=ALLRM, timeout=300),
            binop('sub', f, name='[b is a NaN]', pre=lambda fm, a, b: [decode(fm, b).nan])]


SMALL = ['t6', 'n6', 'e4', 'e5', 'b', 'h']


def c02(tier):
    ts = [binop(op, f, timeout=400) for f in SMALL for op in ('add', 'sub')]
    for f in ['q', 'x', 'd', 's']:
        for op in ('add', 'sub'):
            ts += binop_cased(op, f, add_cases(FM[f].p), timeout=400)
    return ts


Prop('C02', c02, budget=(600, 3000))


def c03(tier):
    ts = [binop('mul', f, timeout=400) for f in SMALL + ['s']]
    for f, n in [('q', 10), ('x', 4), ('d', 4)]:
        ts += binop_cased('mul', f, mul_cases(FM[f], n), timeout=600, abstract=True)
    return ts


Prop('C03', c03, budget=(600, 3000))


def c04(tier):
    return [binop('div', f, timeout=400) for f in ['h', 'b', 'e5', 'e4', 't6', 'n6']]


Prop('C04', c04, budget=(420, 3000))


def c05(tier):
    ts = [binop('fma', f, n=3, timeout=400) for f in SMALL[:-2]]
    ts += binop_cased('fma', 'b', fma_cases(FM['b']), n=3, timeout=600, abstract=True)
    ts += binop_cased('fma', 'h', fma_cases(FM['h']), n=3, timeout=600, abstract=True)
    ts += binop_cased('fma', 's', fma_cases(FM['s']), n=3, timeout=600, abstract=True)
    if tier == 'thorough':
        for f, nd, nl in [('d', 3, 3), ('x', 3, 4), ('q', 4, 6)]:
            ts += binop_cased('fma', f, fma_cases(FM[f], nd, nl), n=3, timeout=1200, abstract=True)
    return ts


Prop('C05', c05, budget=(420, 7200))


# ------------------------------------------------------------------ C08 integral values
def c08(tier):
    ts = []
    for f in IEEE + USER:
        ts.append(binop('rint', f, n=1, timeout=200))
        ts.append(unop('isint', f, lambda fm, a: [('f', spec.isint(fm, a))], timeout=200))
    return ts


Prop('C08', c08)


# ------------------------------------------------------------------ C09 neighbours
def c09(tier):
    ts = []
    for f in IEEE + USER:
        ts.append(binop('nextup', f, n=1, rm=False, specfn=spec.nextup, bound=ALLBITS))
        ts.append(binop('nextdown', f, n=1, rm=False, specfn=lambda fm, a: spec.nextup(fm, a, True), bound=ALLBITS))
    return ts


Prop('C09', c09)


# ------------------------------------------------------------------ C10 conversions
def cvt(f, g, pre=None, suffix=''):
    fm, gm = FM[f], FM[g]
    en = E('cvt', f, g)

    def script(c):
        a = c.fl('a', fm)
        r = c.rm()
        if pre:
            c.assume(pre(a))
        o = c.run(en, a, r=r)
        v, s, li = spec.cvt(fm, gm, r, a)
        # the sign is all that is claimed about a NaN that comes from a format without payload
        if fm.nanonly:
            d = decode(fm, a)
            c.expect(o, 'v', v, when=not_(d.nan))
            c.check(o, 'v', lambda got: nan_sign(gm, got, d_sign(got, gm), None), when=F)
            c.check(o, 'v', lambda got: decode(gm, extract(got, 0, gm.bits)).nan, when=d.nan, label='NaN stays NaN')
            c.check(o, 'v', lambda got: not_(decode(gm, extract(got, 0, gm.bits)).snan), when=d.nan, label='NaN is quiet')
            c.expect(o, 'st', s)
            c.expect(o, 'f', li, when=not_(d.nan))
        else:
            c.expect(o, 'v', v)
            c.expect(o, 'st', s)
            c.expect(o, 'f', li)
    return task('%s to %s%s' % (NAMES[f], NAMES[g], suffix), [en], script, bound=ALLRM, timeout=200)


def d_sign(got, gm):
    return extract(got, gm.bits - 1, 1)


def nan_sign(gm, got, s, want):
    return T


def c10(tier):
    fs = IEEE + USER
    return [cvt(f, g) for f in fs for g in fs if not (f in USER and g in USER) and (f in IEEE or g in ('h', 's', 'e4'))
            and (g in IEEE or f in ('h', 's', 'e4'))]


Prop('C10', c10)


# ------------------------------------------------------------------ C11, C12 integers
def fromint(f, signed):
    fm = FM[f]
    en = E('fromi' if signed else 'fromu', f)

    def script(c):
        a = c.int('a', 128)
        r = c.rm()
        o = c.run(en, a, r=r)
        v, s = spec.fromint(fm, r, a, signed)
        c.expect(o, 'v', v)
        c.expect(o, 'st', s)
    return task('%s from %s128' % (NAMES[f], 'i' if signed else 'u'), [en], script, timeout=200,
                bound='every 128-bit integer, all rounding modes')


def c11(tier):
    return [fromint(f, s) for f in IEEE + USER for s in (False, True)]


Prop('C11', c11)


def toint(f, signed):
    fm = FM[f]
    en = E('toi' if signed else 'tou', f)

    def script(c):
        a = c.fl('a', fm)
        w = c.int('w', 32, 1 if signed else 0, 128)
        ex = c.int('x', 1)
        r = c.rm()
        # bit 12 of k is what the caller's is_exact held before
        k = or_(w, bv.shlc(zext(ex, 32), 12))
        o = c.run(en, a, k=k, r=r)
        v, s, x = spec.toint(fm, r, a, w, signed)
        c.expect(o, 'v', v)
        c.expect(o, 'st', s)
        c.expect(o, 'f', x)
    return task('%s to %s128' % (NAMES[f], 'i' if signed else 'u'), [en], script, timeout=200,
                bound='every bit pattern, every width %d..128, all rounding modes' % (1 if signed else 0))


def c12(tier):
    return [toint(f, s) for f in IEEE + USER for s in (False, True)]


Prop('C12', c12)


# ------------------------------------------------------------------ C13, C14 comparisons
def c13(tier):
    ts = []
    for f in IEEE + USER:
        def fields(fm, a, b):
            o = spec.cmp_(fm, a, b)
            return [('st', o), ('f', spec.relops(o))]
        ts.append(unop('cmp', f, fields, n=2))
        fm = FM[f]

        def script(c, fm=fm, f=f):
            a, b = c.fl('a', fm), c.fl('b', fm)
            c.assume(decode(fm, a).fin)
            c.assume(decode(fm, b).fin)
            o = c.run(E('cmpabs', f), a, b)
            c.expect(o, 'st', spec.cmpabs(fm, a, b))
        ts.append(task('%s cmp_abs' % NAMES[f], [E('cmpabs', f)], script, bound='every pair of finite non-zero values'))
    return ts


Prop('C13', c13)


def c14(tier):
    return [unop(op, f, lambda fm, a, b, op=op: [('v', spec.minmax(fm, op, a, b))], n=2)
            for f in IEEE + USER for op in ('min', 'max', 'minimum', 'maximum')]


Prop('C14', c14)


# ------------------------------------------------------------------ C16 signs
def c16(tier):
    ts = []
    for f in IEEE + USER:
        ts.append(unop('neg', f, lambda fm, a: [('v', spec.neg(fm, a))]))
        ts.append(unop('abs', f, lambda fm, a: [('v', spec.abs_(fm, a))]))
        ts.append(unop('copysign', f, lambda fm, a, b: [('v', spec.copysign(fm, a, b))], n=2))
    return ts


Prop('C16', c16)


# ------------------------------------------------------------------ C17 constants
def c17(tier):
    ts = []
    for f in IEEE + USER:
        fm = FM[f]

        def script(c, fm=fm, f=f):
            a = c.int('a', 128)
            for k in range(15):
                o = c.run(E('konst', f), a, k=k)
                c.expect(o, 'v', bv.sext(spec.konst(fm, k, a), 128) if k in (13, 14) else spec.konst(fm, k, a),
                         label='constant %d' % k)
        ts.append(task('%s constants' % NAMES[f], [E('konst', f)], script, bound='every 128-bit NaN payload'))
    return ts


Prop('C17', c17)


# ------------------------------------------------------------------ C18, C19
def c18(tier):
    ts = []
    for f in IEEE + USER:
        fm = FM[f]

        def script(c, fm=fm, f=f):
            a = c.fl('a', fm)
            k = c.int('k', 32)
            r = c.rm()
            o = c.run(E('scalbn', f), a, k=k, r=r)
            c.expect(o, 'v', spec.scalbn(fm, r, a, k))
        ts.append(task('%s scalbn' % NAMES[f], [E('scalbn', f)], script, timeout=200,
                       bound='every bit pattern, every 32-bit exponent, all rounding modes'))
        ts.append(unop('ilogb', f, lambda fm, a: [('e', spec.ilogb(fm, a))]))

        def script(c, fm=fm, f=f):
            a = c.fl('a', fm)
            k = c.int('k', 32)
            r = c.rm()
            o = c.run(E('frexp', f), a, k=k, r=r)
            v, e = spec.frexp(fm, a)
            c.expect(o, 'v', v)
            c.expect(o, 'e', e)
        ts.append(task('%s frexp' % NAMES[f], [E('frexp', f)], script, timeout=200, bound=ALLRM))
    return ts


Prop('C18', c18)


def c19(tier):
    def fields(fm, a):
        p, v = spec.inv(fm, a)
        return [('f', p), ('v', ite(p, v, const(0, fm.bits)))]
    return [unop('inv', f, fields, timeout=200) for f in IEEE + USER]


Prop('C19', c19)


# ------------------------------------------------------------------ C15, C26 special operands
def kinds(d):
    return [('NaN', d.nan), ('infinity', d.inf), ('zero', d.zero), ('finite', d.fin)]


def rem_special(f, rm, xa, xb):
    """c_fmod and ieee_rem when an operand is special"""
    a, b = decode(f, xa), decode(f, xb)
    nc, nb, ns = spec.nan2(a, b)
    return spec.sel([(nc, (nb, ns)), (or_(a.inf, b.zero), (spec.nan(f), spec.st(spec.INVALID)))],
                    (spec.canon_any(a), spec.st(0)))


def special(op, f, which, n=2):
    """one task per combination of operand kinds that contains a special operand; which: 'nan' keeps the
    combinations in which a NaN comes in or is created"""
    fm = FM[f]
    en = E(op, f)
    ks = ['NaN', 'infinity', 'zero', 'finite']

    def combos(i):
        if i == n:
            return [()]
        return [(k,) + r for k in ks for r in combos(i + 1)]
    ts = []
    for co in combos(0):
        if all(k == 'finite' for k in co) or co == ('finite', 'finite', 'zero'):     # plain arithmetic: C02..C07
            continue
        if fm.nanonly and 'infinity' in co:
            continue
        if which == 'nan' and 'NaN' not in co and 'finite' in co and not (op in ('fmod', 'irem')):
            continue

        def script(c, co=co):
            xs = [c.fl(v, fm) for v in 'abc'[:n]]
            r = 0 if op in ('fmod', 'irem') else c.rm()
            for x, k in zip(xs, co):
                c.assume(dict(kinds(decode(fm, x)))[k])
            o = c.run(en, *xs, r=r, **(dict(feas=c.feas(5), feas_from=1) if op in ('fmod', 'irem') else {}))
            v, s = rem_special(fm, r, *xs) if op in ('fmod', 'irem') else getattr(spec, op)(fm, r, *xs)
            c.expect(o, 'v', v)
            c.expect(o, 'st', s)
        ts.append(task('%s %s [%s]' % (NAMES[f], op, ', '.join(co)), [en], script, bound=ALLRM, timeout=120, abstract=True,
                       vectors=8))
    return ts


def special1(f, nanonly):
    """one-operand operations"""
    fm = FM[f]

    def script(c):
        a = c.fl('a', fm)
        r = c.rm()
        k = c.int('k', 32)
        d = decode(fm, a)
        c.assume(d.nan if nanonly else not_(d.fin))
        for op, sp in [('rint', lambda: spec.rint(fm, r, a)), ('nextup', lambda: spec.nextup(fm, a)),
                       ('nextdown', lambda: spec.nextup(fm, a, True))]:
            o = c.run(E(op, f), a, r=r)
            v, s = sp()
            c.expect(o, 'v', v, label=op)
            c.expect(o, 'st', s, label=op)
        c.expect(c.run(E('scalbn', f), a, k=k, r=r), 'v', spec.scalbn(fm, r, a, k), label='scalbn')
        o = c.run(E('frexp', f), a, k=k, r=r)
        v, e = spec.frexp(fm, a)
        c.expect(o, 'v', v, label='frexp')
        c.expect(o, 'e', e, label='frexp')
        c.expect(c.run(E('ilogb', f), a), 'e', spec.ilogb(fm, a), label='ilogb')
        c.expect(c.run(E('neg', f), a), 'v', spec.neg(fm, a), label='neg')
        c.expect(c.run(E('abs', f), a), 'v', spec.abs_(fm, a), label='abs')
        p, v = spec.inv(fm, a)
        c.expect(c.run(E('inv', f), a), 'f', p, label='inverse')
    ts = [task('%s one-operand operations [%s]' % (NAMES[f], 'NaN' if nanonly else 'NaN, infinity or zero'),
               [E(o, f) for o in ('rint', 'nextup', 'nextdown', 'scalbn', 'frexp', 'ilogb', 'neg', 'abs', 'inv')], script,
               bound=ALLRM, timeout=120)]
    return ts


def cvt_special(f, g, nanonly):
    fm = FM[f]
    return cvt(f, g, lambda a: decode(fm, a).nan if nanonly else not_(decode(fm, a).fin),
               ' [%s]' % ('NaN' if nanonly else 'NaN, infinity or zero'))


CVTS = [(f, g) for f in IEEE + USER for g in IEEE + USER if not (f in USER and g in USER) and
        (f in IEEE or g in ('h', 's', 'e4')) and (g in IEEE or f in ('h', 's', 'e4'))]


def specials(which):
    ts = []
    for f in ['q', 'x', 'd', 's', 'h', 'b', 'e5', 'e4', 't6', 'n6']:
        for op in ('add', 'sub', 'mul', 'div', 'fmod', 'irem'):
            ts += special(op, f, which)
        ts += special('fma', f, which, 3)
        ts += special1(f, which == 'nan')
    for f, g in CVTS:
        ts.append(cvt_special(f, g, which == 'nan'))
    return ts


Prop('C15', lambda tier: specials('nan'))
Prop('C26', lambda tier: specials('all'))


# ------------------------------------------------------------------ C25 operators and default forms
def default_form(f, op, base, n, k=False, fields=(('v', 'v'), ('st', 'st')), fsuf=(), assign=False, kmask=None, pre=None, r=0, bound='every operand'):
    fm = FM[f]
    e1, e2 = E(op, f, *fsuf), E(base, f, *fsuf)

    def script(c):
        xs = [c.int('a', 128)] if n == 0 else [c.fl(v, fm) for v in 'abc'[:n]]
        kk = 0
        if k == 'w':
            kk = c.int('k', 32, kmask[0], kmask[1])
        elif k:
            kk = c.int('k', 32)
        if pre:
            for p in pre(*xs):
                c.assume(p)
        kw = dict(feas=c.feas(5), feas_from=1) if base == 'fmod' else {}
        x = c.run(e1, *xs, k=kk, **kw)
        y = c.run(e2, *xs, k=kk, r=r, **kw)
        c.same(x, y, fields, label='%s is %s with the default rounding' % (op, base))
        if assign:
            c.same(x, y, [('w', 'v')], label='the assigning form stores the same value')
    return task('%s %s%s' % (NAMES[f], op, ' to ' + NAMES[fsuf[0]] if fsuf else ''), [e1, e2], script, timeout=120,
                abstract=True, bound=bound)


def c25(tier):
    ts = []
    for f in IEEE + USER:
        for op, base in [('opadd', 'add'), ('opsub', 'sub'), ('opmul', 'mul'), ('opdiv', 'div')]:
            ts.append(default_form(f, op, base, 2, assign=True))
        ts.append(default_form(f, 'oprem', 'fmod', 2, assign=True, bound='every pair of operands unless both are finite and |a| >= |b|',
                               pre=lambda x, y, fm=FM[f]: [or_(spec.abslt(fm, x, y), not_(and_(decode(fm, x).fin, decode(fm, y).fin)))]))
        ts.append(default_form(f, 'opfma', 'fma', 3))
        ts.append(default_form(f, 'opfromu', 'fromu', 0))
        ts.append(default_form(f, 'opfromi', 'fromi', 0))
        ts.append(default_form(f, 'optou', 'tou', 1, k='w', kmask=(0, 128), r=3))
        ts.append(default_form(f, 'optoi', 'toi', 1, k='w', kmask=(1, 128), r=3))
        ts.append(default_form(f, 'opscalbn', 'scalbn', 1, k=True, fields=[('v', 'v')]))
        ts.append(default_form(f, 'opfrexp', 'frexp', 1, k=True, fields=[('v', 'v'), ('e', 'e')]))
    for f, g in CVTS:
        ts.append(default_form(f, 'opcvt', 'cvt', 1, fsuf=(g,), fields=[('v', 'v'), ('st', 'st'), ('f', 'f')]))

    def sets(c):
        a, b = c.int('a', 8, 0, 31), c.int('b', 8, 0, 31)
        o = c.run(E('stops'), a, b)
        c.expect(o, 'st', or_(a, b))
        c.expect(o, 'f', and_(a, not_(b)))
        c.expect(o, 'v', concat(a, not_(b)))
    ts.append(task('status sets', [E('stops')], sets, bound='every pair of status sets'))

    def negr(c):
        r = c.rm()
        o = c.run(E('negr'), r=r)
        c.expect(o, 'st', ite(eq(r, const(1, 8)), const(2, 8), ite(eq(r, const(2, 8)), const(1, 8), r)))
    ts.append(task('negated rounding mode', [E('negr')], negr, bound='every rounding mode'))
    return ts


Prop('C25', c25, inline=0)


# ------------------------------------------------------------------ C06, C07 remainders
def rem_cases(f, nl):
    """by normality, exponent difference and which significand is the smaller"""
    p = FM[f].p

    def nn(lo, hi, lt):
        def g(x, b):
            d = bv.sub(zext(x.exp, EW), zext(b.exp, EW))
            c = [isnorm(x), isnorm(b), between(d, lo, hi)]
            if lt is not None:
                o = ult(extract(x.sig, 0, p - 1), extract(b.sig, 0, p - 1))
                c.append(o if lt else not_(o))
            return ands(c)
        return g
    cs = []
    for lo, hi in [(None, -2), (-1, -1), (0, 0), (1, 1), (2, None)]:
        for lt in ([None] if hi is not None and hi <= -2 else [True, False]):
            cs.append(('normals, exponents differ by %s..%s%s' % (lo, hi, '' if lt is None else
                                                                 ', significand %s' % ('<' if lt else '>=')), nn(lo, hi, lt)))
    for l, h in (nl if isinstance(nl, list) else chunks(0, p - 2, nl)):
        cs.append(('divisor denormal with leading bit %d..%d' % (l, h), lambda x, b, l=l, h=h: and_(isden(b), lead(b, l, h))))
    cs.append(('divisor normal, the other denormal', lambda x, b: and_(isden(x), isnorm(b))))
    return cs


def rem_near(op, f, nm, fn):
    """few iterations: the value is exact whenever |a| < |b| (fmod), |a| < 2|b| (ieee_rem)"""
    fm = FM[f]
    en = E(op, f)

    def script(c):
        a, b = c.fl('a', fm), c.fl('b', fm)
        A, B = decode(fm, a), decode(fm, b)
        c.assume(A.fin)
        c.assume(B.fin)
        if fn:
            c.assume(fn(A, B))
        if op == 'fmod':
            c.assume(spec.abslt(fm, a, b))
            want = spec.rtrip(fm, a)
        else:
            b2, ok = spec.double_(fm, b)
            c.assume(or_(not_(ok), spec.abslt(fm, a, b2)))
            want = spec.irem_small(fm, a, b)
        o = c.run(en, a, b, feas=c.feas(30), feas_from=1)
        c.expect(o, 'v', want)
        c.expect(o, 'st', spec.st(0))
    return task('%s %s [|a| < %s|b|%s]' % (NAMES[f], op, '' if op == 'fmod' else '2', ', ' + nm if nm else ''), [en], script,
                timeout=300, bound='every such pair of finite values')


def rem_step(op, f, nm, fn, timeout=400):
    fm = FM[f]
    en = E(op, f)

    def script(c):
        a, b, x = c.fl('a', fm), c.fl('b', fm), c.fl('x', fm)
        A, B, X = decode(fm, a), decode(fm, b), decode(fm, x)
        pre = [A.fin, B.fin]
        m = b
        if op == 'irem':
            m, ok = spec.double_(fm, b)
            pre.append(ok)
        xpre = [X.fin, B.fin, eq(A.sign, X.sign)]
        if fm.x87:
            xpre.append(eq(spec.rtrip(fm, x), x))
        if op == 'irem':
            xpre.append(ok)
        if fn:
            xpre.append(fn(X, B))
        t = spec.remstep(fm, x, m)
        lt = spec.abslt(fm, x, m)
        z = eq(extract(t, 0, fm.bits - 1), const(0, fm.bits - 1))
        out = x if op == 'fmod' else spec.irem_small(fm, x, b, A.sign)
        out = ite(lt, out, spec.zero(fm, A.sign))
        cut.induct(c, en, a, b, x, pre, xpre, t, and_(z, not_(lt)), (out, spec.st(0)),
                   [B.fin] + ([ok] if op == 'irem' else []),
                   lambda mod: (spec.pyrem(fm, mod['x'], mod['b'], op == 'irem'), 0))
    return task('%s %s [induction over the iterations%s]' % (NAMES[f], op, ', ' + nm if nm else ''), [en], script,
                timeout=timeout, bound='every pair of finite values and every such intermediate value, any number of iterations')


def rem_tasks(op, tier):
    thorough = tier == 'thorough'
    ts = []
    for f in ['t6', 'n6', 'e4', 'e5', 'b', 'h']:
        ts.append(rem_near(op, f, '', None))
        ts.append(rem_step(op, f, '', None))
    for f, nl in [('s', 1), ('d', 13), ('x', 21), ('q', 37)]:
        p = FM[f].p
        if not thorough and f != 's':
            nl = [(0, 0), (p // 2, p // 2), (p - 2, p - 2)]
        if op == 'fmod':
            ts.append(rem_near(op, f, '', None))
        for nm, fn in rem_cases(f, nl):
            near = op == 'irem' and 'exponents differ by 2..' not in nm
            step = True
            if f == 'q' and not thorough:
                # the slow ones stay for the thorough run
                if op == 'fmod':
                    step = 'leading bit %d' % (p // 2) not in nm
                else:
                    near = near and ('None..' in nm or 'leading' in nm)
                    step = 'None..' in nm or '1..1, significand >=' in nm or '2..None, significand >=' in nm
            elif f == 'x' and not thorough and op == 'irem':
                near = near and '0..0, significand >=' not in nm and '1..1, significand <' not in nm
                step = near or '2..' in nm and 'leading' not in nm
                if 'leading' in nm:
                    step = 'bit 0..' in nm
            if near:
                ts.append(rem_near(op, f, nm, fn))
            if step:
                ts.append(rem_step(op, f, nm, fn))
    return ts


Prop('C06', lambda tier: rem_tasks('fmod', tier), budget=(420, 3000))
Prop('C07', lambda tier: rem_tasks('irem', tier), budget=(420, 3000))


from . import strings  # noqa: E402,F401  (more properties)

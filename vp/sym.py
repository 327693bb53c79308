"""Symbolic executor for LLVM IR (state merging, bounded loop unrolling).

Every path condition, memory byte and SSA value is a bv term over the
harness's symbolic inputs.  Blocks run in a loop-contiguous topological order,
so each block of each loop iteration is executed once, on the merge of all
states that reach it.  Edges into trap/unreachable-only blocks (Rust panics)
become obligations instead of states.
"""
from . import bv, llir
from .bv import T, F, const

SH = 24
OFFM = (1 << SH) - 1


class Bound(Exception):
    """a loop or size bound of this run was exceeded"""


class Unsupported(Exception):
    pass


class Dead(Exception):
    """every way this access can go is out of bounds (already an obligation)"""


class PC:
    __slots__ = ('parent', 'lit', 'depth', 'facts', 'iv', '_full')

    def __init__(self, parent, lit):
        self.parent = parent
        self.lit = lit
        self.depth = 0 if parent is None else parent.depth + 1
        self.facts = {}
        self.iv = {}
        self._full = None

    def _learn(self, c, val):
        if c.op == 'c':
            return
        f = self.facts
        if c.id in f:
            return
        f[c.id] = val
        if c.op == 'not':
            self._learn(c.a[0], not val)
            return
        if c.op == 'and' and c.w == 1 and val:
            self._learn(c.a[0], True)
            self._learn(c.a[1], True)
            return
        n = bv.not_(c)
        if n.op != 'c':
            f[n.id] = not val
        op = c.op
        if op == 'eq' and c.a[1].op == 'c':
            x, k = c.a[0], c.a[1].k
            if val:
                self._iv(x, k, k)
            else:
                lo, hi = self.range(x)
                if k == lo:
                    self._iv(x, lo + 1, hi)
                elif k == hi:
                    self._iv(x, lo, hi - 1)
        elif op in ('ult', 'ule'):
            x, y = c.a
            d = 1 if op == 'ult' else 0
            if y.op == 'c':
                if val:
                    self._iv(x, 0, y.k - d)
                else:
                    self._iv(x, y.k + 1 - d, (1 << x.w) - 1)
            elif x.op == 'c':
                if val:
                    self._iv(y, x.k + d, (1 << y.w) - 1)
                else:
                    self._iv(y, 0, x.k - 1 + d)
            elif op == 'ult' and val:
                self._learn(bv.eq(x, y), False)
                self._learn(bv.ult(y, x), False)

    def _iv(self, x, lo, hi):
        l, h = self.range(x)
        l, h = max(l, lo), min(h, hi)
        self.iv[x.id] = (l, h)

    def _stored(self, x):
        p = self
        i = x.id
        while p is not None:
            r = p.iv.get(i)
            if r is not None:
                return r
            p = p.parent
        return None

    def range(self, x, d=3):
        l, h = bv.ubounds(x)
        if x.op == 'c':
            return l, h
        r = self._stored(x)
        if r is not None:
            l, h = max(l, r[0]), min(h, r[1])
        if d:
            op = x.op
            if op == 'zext':
                r = self.range(x.a[0], d - 1)
            elif op == 'ex':
                y = x.a[0]
                a, b = self.range(y, d - 1)
                if x.k + x.w == y.w or b >> (x.k + x.w) == 0:
                    r = (a >> x.k, b >> x.k)
                else:
                    r = None
            elif op == 'add' and x.a[1].op == 'c':
                a, b = self.range(x.a[0], d - 1)
                c = x.a[1].k
                M = (1 << x.w) - 1
                if b + c <= M:
                    r = (a + c, b + c)
                elif a + c > M:
                    r = (a + c - M - 1, b + c - M - 1)
                else:
                    r = None
            elif op == 'ite':
                k = self.known(x.a[0])
                if k is None:
                    r = None
                else:
                    r = self.range(x.a[1] if k else x.a[2], d - 1)
            else:
                r = None
            if r is not None:
                l, h = max(l, r[0]), min(h, r[1])
        return l, h

    def narrow(self, x):
        """a term equal to x under this path condition, with the range it implies built in"""
        if x is None or isinstance(x, tuple) or x.op == 'c' or x.w == 1:
            return x
        l, h = self.range(x)
        if l > h:
            return x
        if l == h:
            return const(l, x.w)
        n = max(1, h.bit_length())
        if n < x.w and bv.ubounds(x)[1] >= (1 << n):
            return bv.zext(bv.extract(x, 0, n), x.w)
        return x

    def known(self, c):
        p = self
        i = c.id
        while p is not None:
            r = p.facts.get(i)
            if r is not None:
                return r
            p = p.parent
        return None

    def simp(self, c):
        """simplify a condition under this path condition"""
        if c.op == 'c':
            return c
        k = self.known(c)
        if k is not None:
            return T if k else F
        op = c.op
        if op == 'not':
            return bv.not_(self.simp(c.a[0]))
        if op == 'and' and c.w == 1:
            a = self.simp(c.a[0])
            if a is F:
                return F
            b = self.simp(c.a[1])
            if a is c.a[0] and b is c.a[1]:
                return c
            return bv.and_(a, b)
        if op in ('eq', 'ult', 'ule'):
            x, y = c.a
            xl, xh = self.range(x)
            yl, yh = self.range(y)
            if xl > xh or yl > yh:
                return c
            if op == 'eq':
                if xh < yl or yh < xl:
                    return F
                if xl == xh == yl == yh:
                    return T
            elif op == 'ult':
                if xh < yl:
                    return T
                if xl >= yh:
                    return F
            else:
                if xh <= yl:
                    return T
                if xl > yh:
                    return F
        return c

    def extend(self, lit):
        lit = self.simp(lit)
        if lit is F:
            return None
        if lit is T:
            return self
        p = PC(self, lit)
        p._learn(lit, True)
        return p

    def fact(self, lit):
        """assume lit for simplification only (its negation is a separate obligation)"""
        if lit.op == 'c':
            return self
        p = PC(self, None)
        p._learn(lit, True)
        return p

    def full(self):
        chain = []
        p = self
        while p is not None and p._full is None:
            chain.append(p)
            p = p.parent
        acc = T if p is None else p._full
        for q in reversed(chain):
            if q.lit is not None:
                acc = bv.and_(acc, q.lit)
            q._full = acc
        return acc


def lca(ps):
    a = ps[0]
    for b in ps[1:]:
        while a is not b:
            if a.depth >= b.depth and a.depth > 0:
                if a.depth == b.depth:
                    b = b.parent
                a = a.parent
            elif b.depth > a.depth:
                b = b.parent
            else:
                raise Exception('lca')
    return a


def lits(p, anc):
    r = []
    while p is not anc:
        if p.lit is not None:
            r.append(p.lit)
        p = p.parent
    r.reverse()
    return tuple(r)


class Plan:
    """decision tree over the relative path conditions of merged edges"""

    def __init__(self, rels):
        self.tree = self._build([(r, i) for i, r in enumerate(rels)])

    def _build(self, es):
        if len(es) == 1:
            return es[0][1]
        for r, i in es:
            if not r:
                return i            # others must be infeasible together with it
        l = es[0][0][0]
        nl = bv.not_(l)
        g = [(r[1:], i) for r, i in es if r[0] is l]
        h = [(r[1:], i) for r, i in es if r[0] is nl]
        if len(g) + len(h) == len(es) and h:
            return (l, self._build(g), self._build(h))
        r, i = es[0]
        return (bv.ands(r), i, self._build(es[1:]))

    def apply(self, vals):
        return self._ap(self.tree, vals)

    def _ap(self, t, vals):
        if isinstance(t, int):
            return vals[t]
        c, a, b = t
        x = self._ap(a, vals)
        y = self._ap(b, vals)
        return merge2(c, x, y)


def merge2(c, x, y):
    if x is y:
        return x
    if x is None:
        return y
    if y is None:
        return x
    if isinstance(x, tuple):
        return tuple(merge2(c, p, q) for p, q in zip(x, y))
    return bv.ite(c, x, y)


class Mem:
    """object id -> tuple of byte entries; entry = None | (term, byte index)"""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def copy(self):
        return Mem(dict(self.o))


def ent_slice(es):
    """list of byte entries -> term (LE) or None when all undef"""
    n = len(es)
    e0 = es[0]
    if e0 is not None:
        t, k = e0
        ok = True
        for j in range(1, n):
            e = es[j]
            if e is None or e[0] is not t or e[1] != k + j:
                ok = False
                break
        if ok:
            return bv.extract(t, 8 * k, 8 * n)
    if all(e is None for e in es):
        return None
    r = None
    i = 0
    while i < n:
        e = es[i]
        if e is None:
            p = bv.var('undef!8', 8)
            j = i + 1
        else:
            t, k = e
            j = i + 1
            while j < n and es[j] is not None and es[j][0] is t and es[j][1] == k + j - i:
                j += 1
            p = bv.extract(t, 8 * k, 8 * (j - i))
        r = p if r is None else bv.concat(p, r)
        i = j
    return r


def term_ents(t):
    return [(t, i) for i in range(t.w // 8)]


class Obl:
    __slots__ = ('cond', 'kind', 'where')

    def __init__(self, cond, kind, where):
        self.cond = cond
        self.kind = kind
        self.where = where


class Exec:
    def __init__(self, mod, max_iter=400, feas=None, feas_from=3, max_alloc=1 << 16, trace=False, feas_all=False, cut=None,
                 prune=None, fork=None):
        self.m = mod
        self.next_obj = 16
        self.sizes = {}
        self.gaddr = {}
        self.faddr = {}
        self.ginit = {}
        self.obls = []
        self.max_iter = max_iter
        self.feas = feas
        self.feas_from = feas_from
        self.feas_all = feas_all
        self.prune = prune
        self.fork = fork
        self.cut = cut
        self.max_alloc = max_alloc
        self.funcs_used = set()
        self.stats = {'blocks': 0, 'instrs': 0, 'merges': 0, 'maxiter': 0, 'feas': 0}
        self.stop = {}     # function name substring -> python handler
        self.trace = trace

    # ------------------------------------------------------------ objects
    def new_obj(self, size, mem, ents=None):
        o = self.next_obj
        self.next_obj += 1
        self.sizes[o] = size
        mem.o[o] = tuple(ents) if ents is not None else (None,) * size
        return o

    def addr(self, o):
        return const(o << SH, 64)

    def gaddr_of(self, name):
        a = self.gaddr.get(name)
        if a is None:
            if name in self.m.ftext or name in self.m.decl:
                o = self.next_obj
                self.next_obj += 1
                self.faddr[o] = name
                a = const(o << SH, 64)
                self.gaddr[name] = a
            else:
                t, v, cst = self.m.global_init(name)
                o = self.next_obj
                self.next_obj += 1
                self.sizes[o] = t.size
                a = const(o << SH, 64)
                self.gaddr[name] = a
                es = [None] * t.size
                if v is not None:
                    self.init_bytes(t, v, es, 0)
                self.ginit[o] = tuple(es)
        return a

    def init_bytes(self, t, v, es, off):
        k = v[0]
        if k == 'u':
            return
        if k == 'z':
            z = const(0, 8)
            for i in range(t.size):
                es[off + i] = (z, 0)
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                es[off + i] = (const(b, 8), 0)
            return
        if k == 'agg':
            if t.k == 'a':
                for i, (tt, x) in enumerate(v[1]):
                    self.init_bytes(tt, x, es, off + i * tt.size)
            else:
                for i, (tt, x) in enumerate(v[1]):
                    self.init_bytes(tt, x, es, off + t.offs[i])
            return
        x = self.cval(t, v)
        x = bv.zext(x, t.size * 8)
        for i in range(t.size):
            es[off + i] = (x, i)

    def cval(self, t, v):
        k = v[0]
        if k == 'k':
            return const(v[1], t.w)
        if k == 'g':
            return self.gaddr_of(v[1])
        if k == 'u':
            return self.undef(t)
        if k == 'z':
            return self.zero(t)
        if k == 'gep':
            return self.gep(v[1], [(tt, self.cval(tt, x)) for tt, x in v[2]])
        if k == 'cast':
            x = self.cval(v[2], v[3])
            w = v[4].w
            return bv.zext(x, w) if w >= x.w else bv.extract(x, 0, w)
        if k == 'bin':
            a, b = self.cval(v[2], v[3]), self.cval(v[2], v[4])
            return (bv.add if v[1] == 'add' else bv.sub)(a, b)
        if k == 'agg':
            return tuple(self.cval(tt, x) for tt, x in v[1])
        if k == 'str':
            return tuple(const(b, 8) for b in v[1])
        raise Unsupported('const ' + repr(v))

    def undef(self, t):
        if t.k == 's':
            return tuple(self.undef(e) for e in t.elems)
        if t.k == 'a':
            return tuple(self.undef(t.elems[0]) for _ in range(t.n))
        return None

    def zero(self, t):
        if t.k == 's':
            return tuple(self.zero(e) for e in t.elems)
        if t.k == 'a':
            return tuple(self.zero(t.elems[0]) for _ in range(t.n))
        return const(0, t.w)

    def gep(self, bt, ops):
        a = ops[0][1]
        if a is None:
            return None
        t = bt
        first = True
        for tt, x in ops[1:]:
            if x is None:
                return None
            if first:
                sz = t.size
                first = False
            else:
                if t.k == 's':
                    i = x.k
                    a = bv.add(a, const(t.offs[i], 64))
                    t = t.elems[i]
                    continue
                t = t.elems[0]
                sz = t.size
            x = bv.sext(x, 64) if x.w < 64 else x
            a = bv.add(a, bv.mul(x, const(sz, 64)))
        return a

    # ------------------------------------------------------------ address resolution
    def resolve(self, a, pc):
        """-> list of (cond, obj, offset term)"""
        out = []

        def isobj(k):
            o = k >> SH
            return o in self.sizes

        def rec(n, c, off):
            # address = n + off   (off: 64-bit term)
            if c is F:
                return
            if n.op == 'c':
                if isobj(n.k):
                    o = n.k >> SH
                    out.append((c, o, bv.add(off, const(n.k & OFFM, 64))))
                else:
                    # may be a negative/relative constant: combine with off
                    out.append((c, None, bv.add(off, n)))
                return
            if n.op == 'ite':
                cc = n.a[0]
                s = pc.simp(cc)
                if s is T:
                    return rec(n.a[1], c, off)
                if s is F:
                    return rec(n.a[2], c, off)
                rec(n.a[1], bv.and_(c, cc), off)
                rec(n.a[2], bv.and_(c, bv.not_(cc)), off)
                return
            if n.op == 'add':
                x, y = n.a
                if y.op == 'c':
                    if isobj(y.k):
                        o = y.k >> SH
                        out.append((c, o, bv.add(bv.add(off, x), const(y.k & OFFM, 64))))
                        return
                    return rec(x, c, bv.add(off, y))
                if self.has_ptr(x):
                    return rec(x, c, bv.add(off, y))
                if self.has_ptr(y):
                    return rec(y, c, bv.add(off, x))
            if n.op in ('ex', 'zext') and n.a[0].op == 'ite':
                # bytes that hold a pointer in one state and data in another
                i = n.a[0]
                cc = i.a[0]
                s = pc.simp(cc)
                for arm, dead, g in ((i.a[1], F, cc), (i.a[2], T, bv.not_(cc))):
                    if s is not dead:
                        x = bv.extract(arm, n.k, n.w) if n.op == 'ex' else bv.zext(arm, n.w)
                        rec(x, c if s.op == 'c' else bv.and_(c, g), off)
                return
            # fall back: enumerate leaves through known bounds
            lo, hi = bv.ubounds(n)
            if lo >> SH == hi >> SH and isobj(lo):
                o = lo >> SH
                out.append((c, o, bv.add(off, bv.sub(n, const(o << SH, 64)))))
                return
            ls = bv_leaves(bv.extract(n, SH, n.w - SH), 64) if n.w > SH else None
            if ls is not None and any(k in self.sizes for _, k in ls):
                low = bv.zext(bv.extract(n, 0, SH), 64)
                for cc, k in ls:
                    cc = pc.simp(cc)
                    if cc is not F:
                        out.append((bv.and_(c, cc), k if k in self.sizes else None, bv.add(off, low)))
                return
            if not self.has_ptr(n):
                # data in the place of a pointer: has to be unreachable
                out.append((c, None, off))
                return
            ls = bv_leaves(n, 4000)
            if ls is not None:
                for cc, k in ls:
                    rec(const(k, n.w), bv.and_(c, cc), off)
                return
            raise Unsupported('address %s' % bv.show(n, 4))

        rec(a, T, const(0, 64))
        return out

    def has_ptr(self, n):
        k = n.op
        if k == 'c':
            return (n.k >> SH) in self.sizes
        if k == 'ite':
            return self.has_ptr(n.a[1]) or self.has_ptr(n.a[2])
        if k in ('add', 'zext', 'concat'):
            return any(self.has_ptr(x) for x in n.a)
        lo, hi = bv.ubounds(n)
        return lo >> SH == hi >> SH and (lo >> SH) in self.sizes

    def bytes_of(self, mem, o):
        b = mem.o.get(o)
        if b is None:
            b = self.ginit.get(o)
            if b is None:
                raise Unsupported('dead object %s' % o)
        return b

    def cands(self, off, n, size, pc):
        """possible constant offsets"""
        if off.op == 'c':
            return [off.k]
        ls = bv_leaves(off, 64)
        if ls is not None:
            return [k for _, k in ls if k + n <= size]
        lo, hi = bv.ubounds(off)
        l2, h2 = pc.range(off)
        lo, hi = max(lo, l2), min(hi, h2)
        hi = min(hi, size - n)
        r = [k for k in range(lo, hi + 1) if not (k & off.z) and not (off.o & ~k)]
        if len(r) > 2048:
            raise Unsupported('symbolic offset with %d candidates' % len(r))
        return r

    def load_bytes(self, mem, a, n, pc, where):
        """-> term of 8n bits or None"""
        if a is None:
            raise Unsupported('load from undef ' + where)
        if a.op == 'c':
            o = a.k >> SH
            b = mem.o.get(o)
            if b is None:
                b = self.ginit.get(o)
            off = a.k & OFFM
            if b is None or off + n > len(b):
                self.obls.append(Obl(pc.full(), 'oob', where))
                raise Dead()
            return ent_slice(b[off:off + n])
        rs = self.resolve(a, pc)
        res = None
        first = True
        for c, o, off in reversed(rs):
            if o is None:
                self.obls.append(Obl(bv.and_(pc.full(), c), 'oob', where))
                continue
            b = self.bytes_of(mem, o)
            v = None
            if off.op == 'c':
                if off.k + n > len(b):
                    self.obls.append(Obl(bv.and_(pc.full(), c), 'oob', where))
                    continue
                v = ent_slice(b[off.k:off.k + n])
            else:
                cs = self.cands(off, n, len(b), pc)
                inb = bv.ule(off, const(len(b) - n, 64)) if len(b) >= n else F
                bad = bv.not_(pc.simp(inb))
                if bad is not F:
                    self.obls.append(Obl(bv.and_(pc.full(), bv.and_(c, bad)), 'oob', where))
                vs = [(k, ent_slice(b[k:k + n])) for k in cs]
                v = mux(off, vs)
            if first:
                res = v
                first = False
            else:
                res = merge2(c, v, res)
        if first:
            raise Dead()
        return res

    def store_ents(self, mem, a, ents, pc, where, cond=T):
        n = len(ents)
        if n == 0:
            return
        if a.op == 'c' and cond is T:
            o = a.k >> SH
            off = a.k & OFFM
            b = mem.o.get(o)
            if b is None or off + n > len(b):
                self.obls.append(Obl(pc.full(), 'oob', where))
                raise Dead()
            mem.o[o] = b[:off] + tuple(ents) + b[off + n:]
            return
        rs = self.resolve(a, pc)
        for c, o, off in rs:
            c = bv.and_(c, cond)
            if o is None or o not in mem.o:
                self.obls.append(Obl(bv.and_(pc.full(), c), 'oob', where))
                continue
            b = mem.o[o]
            cs = self.cands(off, n, len(b), pc)
            if off.op == 'c' and off.k + n > len(b):
                self.obls.append(Obl(bv.and_(pc.full(), c), 'oob', where))
                continue
            if off.op != 'c':
                inb = bv.ule(off, const(len(b) - n, 64)) if len(b) >= n else F
                bad = bv.not_(pc.simp(inb))
                if bad is not F:
                    self.obls.append(Obl(bv.and_(pc.full(), bv.and_(c, bad)), 'oob', where))
            for k in cs:
                cc = c if off.op == 'c' else bv.and_(c, bv.eq(off, const(k, 64)))
                cc = pc.simp(cc)
                if cc is F:
                    continue
                old = b[k:k + n]
                b = b[:k] + tuple(merge_ents(cc, ents, old)) + b[k + n:]
            mem.o[o] = b

    def store(self, mem, a, v, ty, pc, where):
        if a is None:
            raise Unsupported('store to undef ' + where)
        if isinstance(v, tuple):
            # aggregate store
            if ty.k == 's':
                for i, x in enumerate(v):
                    self.store(mem, bv.add(a, const(ty.offs[i], 64)), x, ty.elems[i], pc, where)
            else:
                e = ty.elems[0]
                for i, x in enumerate(v):
                    self.store(mem, bv.add(a, const(i * e.size, 64)), x, e, pc, where)
            return
        nb = (ty.w + 7) // 8
        if v is None:
            ents = [None] * nb
        else:
            ents = term_ents(bv.zext(v, nb * 8))
        self.store_ents(mem, a, ents, pc, where)

    def load(self, mem, a, ty, pc, where):
        if ty.k == 's':
            return tuple(self.load(mem, bv.add(a, const(ty.offs[i], 64)), e, pc, where)
                         for i, e in enumerate(ty.elems))
        if ty.k == 'a':
            e = ty.elems[0]
            return tuple(self.load(mem, bv.add(a, const(i * e.size, 64)), e, pc, where) for i in range(ty.n))
        nb = (ty.w + 7) // 8
        v = self.load_bytes(mem, a, nb, pc, where)
        if v is None:
            return None
        return bv.extract(v, 0, ty.w)

    def read_ents(self, mem, a, n, pc, where):
        if a.op == 'c':
            o = a.k >> SH
            b = self.bytes_of(mem, o)
            off = a.k & OFFM
            if off + n <= len(b):
                return list(b[off:off + n])
        v = self.load_bytes(mem, a, n, pc, where)
        if v is None:
            return [None] * n
        return term_ents(v)

    def memcpy(self, mem, d, s, n, pc, where):
        if n.op == 'c':
            if n.k == 0:
                return
            ents = self.read_ents(mem, s, n.k, pc, where)
            self.store_ents(mem, d, ents, pc, where)
            return
        lo, hi = pc.range(n)
        l2, h2 = bv.ubounds(n)
        hi = min(hi, h2)
        ls = bv_leaves(n, 64)
        if ls is not None:
            hi = min(hi, max(k for _, k in ls))
        if hi > 1024:
            # clamp to object sizes
            hi = min(hi, max(self.sizes.get(o, 0) for _, o, _ in self.resolve(s, pc)))
            hi = min(hi, max(self.sizes.get(o, 0) for _, o, _ in self.resolve(d, pc)))
            if hi > 1024:
                raise Unsupported('memcpy of symbolic length up to %d' % hi)
            self.obls.append(Obl(bv.and_(pc.full(), bv.ult(const(hi, 64), n)), 'oob', where))
        z = const(0, 64)
        bs = []
        for i in range(hi):
            c = pc.simp(bv.ult(const(i, 64), n))
            if c is F:
                break
            p = pc.extend(c)
            if p is None:
                break
            try:
                bs.append((c, self.read_ents(mem, bv.add(s, const(i, 64)), 1, p, where), p))
            except Dead:
                break
        for i, (c, e, p) in enumerate(bs):
            try:
                self.store_ents(mem, bv.add(d, const(i, 64)), e, p, where, c)
            except Dead:
                break

    def memset(self, mem, d, v, n, pc, where):
        if n.op == 'c':
            if n.k:
                self.store_ents(mem, d, [(v, 0)] * n.k, pc, where)
            return
        lo, hi = pc.range(n)
        ls = bv_leaves(n, 64)
        if ls is not None:
            hi = min(hi, max(k for _, k in ls))
        if hi > 1024:
            hi = min(hi, max(self.sizes.get(o, 0) for _, o, _ in self.resolve(d, pc)))
            if hi > 1024:
                raise Unsupported('memset symbolic length')
            self.obls.append(Obl(bv.and_(pc.full(), bv.ult(const(hi, 64), n)), 'oob', where))
        for i in range(hi):
            c = pc.simp(bv.ult(const(i, 64), n))
            if c is F:
                break
            self.store_ents(mem, bv.add(d, const(i, 64)), [(v, 0)], pc, where, c)

    # ------------------------------------------------------------ calls
    def call(self, name, args, pc, mem):
        for k, h in self.stop.items():
            if k in name:
                return h(self, name, args, pc, mem)
        f = self.m.func(name)
        self.funcs_used.add(name)
        if not hasattr(f, 'cfg'):
            f.cfg = llir.CFG(f)
        return self.run(f, args, pc, mem)

    def big_loop(self, f, cfg, h):
        """does the loop contain a call to a function of some size (feasibility is asked only there)"""
        c = cfg.__dict__.setdefault('big', {})
        if h not in c:
            c[h] = self.feas_all or any(
                ins.op == 'call' and ins.x[0] == 'g' and ins.x[1] in self.m.ftext and len(self.m.func(ins.x[1]).blocks) >= 6
                for b in cfg.loops[h] for ins in f.bmap[b].ins)
        return c[h]

    def run(self, f, args, pc, mem):
        cfg = f.cfg
        env = {}
        for (n, t), a in zip(f.params, args):
            env[n] = a
        entry = f.blocks[0].name
        pend = {entry: [(pc, mem, None)]}
        pos = cfg.pos
        loops = cfg.loops
        iters = {}
        rets = []
        allocas = []
        while pend:
            best = None
            bp = None
            for b, es in pend.items():
                p = pos[b]
                if b in loops and es[0][2] is not None and es[0][3]:
                    p = cfg.end[b] + 0.5 - pos[b] * 1e-7
                    # inner loops (larger start) first when ends coincide
                if bp is None or p < bp:
                    bp = p
                    best = b
            b = best
            inc = pend.pop(b)
            blk = f.bmap[b]
            if len(inc) == 1:
                pc, mem = inc[0][0], inc[0][1]
                vals = inc[0][2]
            else:
                pc, mem, vals = self.merge(cfg, b, inc, len(blk.phis))
                if pc is None:
                    continue
            back = len(inc[0]) > 3 and inc[0][3]
            if b in loops:
                if back:
                    iters[b] = iters.get(b, 0) + 1
                    it = iters[b]
                    if it > self.stats['maxiter']:
                        self.stats['maxiter'] = it
                    if it > self.max_iter:
                        raise Bound('loop %s in %s exceeds %d iterations' % (b, f.name, self.max_iter))
                    if self.prune is not None and it % 4 == 0 and pc.full() is not T and not self.prune(pc.full(), T):
                        continue
                    if self.feas is not None and it >= self.feas_from and self.big_loop(f, cfg, b):
                        full = pc.full()
                        if full is not T:
                            self.stats['feas'] += 1
                            if not self.feas(full):
                                continue
                else:
                    iters[b] = 0
                if self.cut is not None and self.big_loop(f, cfg, b):
                    r = self.cut(self, f, b, back, pc, mem, vals)
                    if r is None:
                        continue
                    pc, mem, vals = r
            if blk.phis:
                for ph, v in zip(blk.phis, vals):
                    env[ph.dst] = v
            self.stats['blocks'] += 1
            try:
                pc = self.exec_block(f, blk, env, pc, mem, allocas)
            except Dead:
                pc = None
            if pc is None:
                continue
            t = blk.term
            if t.op == 'ret':
                v = self.val(env, t.ty, t.a[0]) if t.a else None
                rets.append((pc, mem, [v]))
            elif t.op == 'br':
                if len(t.x) == 1:
                    self.edge(f, cfg, blk, t.x[0], pc, mem, env, pend, False)
                else:
                    c = self.val(env, llir.ity(1), t.a[0])
                    if c is None:
                        c = bv.fresh(1, 'undefbr')
                    self.branch(f, cfg, blk, [(c, t.x[0]), (bv.not_(c), t.x[1])], pc, mem, env, pend)
            elif t.op == 'switch':
                v = self.val(env, t.ty, t.a[0])
                if v is None:
                    v = bv.fresh(t.ty.w, 'undefsw')
                d, cs = t.x
                by = {}
                anyc = F
                for k, lab in cs:
                    e = pc.simp(bv.eq(v, const(k, t.ty.w)))
                    by[lab] = bv.or_(by.get(lab, F), e)
                    anyc = bv.or_(anyc, e)
                by[d] = bv.or_(by.get(d, F), bv.not_(anyc))
                self.branch(f, cfg, blk, [(c, lab) for lab, c in by.items()], pc, mem, env, pend)
            elif t.op == 'unreachable':
                self.obls.append(Obl(pc.full(), 'trap', f.name + ' ' + b))
        if not rets:
            return None, None, None
        if len(rets) == 1:
            pc, mem, (v,) = rets[0]
        else:
            pc, mem, (v,) = self.merge(cfg, None, rets, 1)
        if mem is not None:
            for o in allocas:
                mem.o.pop(o, None)
        return v, pc, mem

    def branch(self, f, cfg, blk, outs, pc, mem, env, pend):
        live = []
        for c, lab in outs:
            c = pc.simp(c)
            if c is F:
                continue
            if lab not in cfg.alive:
                self.obls.append(Obl(bv.and_(pc.full(), c), 'trap', f.name + ' ' + lab))
                if c is T:
                    return
                pc = pc.fact(bv.not_(c))
                continue
            live.append((c, lab))
        if len(live) > 1:
            # facts from traps may have decided more
            live = [(pc.simp(c), lab) for c, lab in live]
            live = [x for x in live if x[0] is not F]
        if len(live) > 1 and self.prune is not None:
            full = pc.full()
            keep = []
            for i, (c, lab) in enumerate(live):
                if not keep and i == len(live) - 1 or self.prune(full, c):
                    keep.append((c, lab))
                else:
                    pc = pc.fact(bv.not_(c))
            live = keep
            if len(live) > 1 and self.fork is not None:
                c, lab = live[self.fork.choose(len(live))]
                p = pc.extend(c)
                if p is not None:
                    self.edge(f, cfg, blk, lab, p, mem, env, pend, False)
                return
        n = len(live)
        if n == 1:
            self.edge(f, cfg, blk, live[0][1], pc, mem, env, pend, False)
            return
        for i, (c, lab) in enumerate(live):
            p = pc.extend(c)
            if p is None:
                continue
            self.edge(f, cfg, blk, lab, p, mem if i == n - 1 else mem.copy(), env, pend, False)

    def edge(self, f, cfg, blk, dst, pc, mem, env, pend, _):
        d = f.bmap[dst]
        back = dst in cfg.loops and blk.name in cfg.loops[dst]
        vals = [pc.narrow(self.val(env, ph.ty, ph.x[blk.name])) for ph in d.phis]
        pend.setdefault(dst, []).append((pc, mem, vals, back))

    def merge(self, cfg, b, inc, nv):
        self.stats['merges'] += 1
        pcs = [x[0] for x in inc]
        anc = lca(pcs)
        rels = [lits(p, anc) for p in pcs]
        plan = Plan(rels)
        back = b is not None and len(inc[0]) > 3 and inc[0][3]
        if b is None:
            full_cover = True
        elif back:
            full_cover = False
        else:
            full_cover = cfg.postdominates(b, cfg.idom[b])
        if full_cover:
            pc = anc
        else:
            pc = anc.extend(ors_plan(rels))
            if pc is None:
                return None, None, None
        vals = [plan.apply([x[2][i] for x in inc]) for i in range(nv)]
        mem = self.merge_mem([x[1] for x in inc], plan)
        return pc, mem, vals

    def merge_mem(self, ms, plan):
        base = ms[0].o
        out = dict(base)
        keys = set(base)
        for m in ms[1:]:
            keys.update(m.o)
        for o in keys:
            vs = [m.o.get(o) for m in ms]
            v0 = vs[0]
            if all(v is v0 for v in vs):
                continue
            have = [v for v in vs if v is not None]
            h0 = have[0]
            if all(v is h0 for v in have):
                out[o] = h0
                continue
            n = len(h0)
            vs = [v if v is not None else (None,) * n for v in vs]
            out[o] = merge_bytes(vs, plan)
        return Mem(out)

    # ------------------------------------------------------------ instructions
    def val(self, env, ty, v):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        if k == 'k':
            return const(v[1], ty.w)
        return self.cval(ty, v)

    def exec_block(self, f, blk, env, pc, mem, allocas):
        st = self.stats
        for ins in blk.ins:
            st['instrs'] += 1
            op = ins.op
            h = BINOPS.get(op)
            if h is not None:
                a = self.val(env, ins.ty, ins.a[0])
                b = self.val(env, ins.ty, ins.a[1])
                if (a is None) != (b is None) and op in ('and', 'or'):
                    # and/or with a decided operand does not depend on the undefined one
                    u = bv.fresh((a or b).w, 'undefop')
                    a, b = a or u, b or u
                env[ins.dst] = None if a is None or b is None else h(a, b)
            elif op == 'icmp':
                a = self.val(env, ins.ty, ins.a[0])
                b = self.val(env, ins.ty, ins.a[1])
                if a is None or b is None:
                    env[ins.dst] = None
                else:
                    r = CMP[ins.x](a, b)
                    env[ins.dst] = r
            elif op == 'load':
                env[ins.dst] = self.load(mem, self.val(env, llir.PTR, ins.a[0]), ins.ty, pc, f.name)
            elif op == 'store':
                self.store(mem, self.val(env, llir.PTR, ins.a[1]), self.val(env, ins.ty, ins.a[0]), ins.ty, pc, f.name)
            elif op == 'getelementptr':
                env[ins.dst] = self.gep(ins.x, [(t, self.val(env, t, v)) for t, v in ins.a])
            elif op == 'select':
                c = self.val(env, llir.ity(1), ins.a[0])
                a = self.val(env, ins.ty, ins.a[1])
                b = self.val(env, ins.ty, ins.a[2])
                if c is None:
                    env[ins.dst] = a if b is None else b
                else:
                    c = pc.simp(c) if c.op != 'c' else c
                    env[ins.dst] = a if c is T else b if c is F else merge2(c, a, b)
            elif op == 'zext':
                a = self.val(env, ins.x, ins.a[0])
                env[ins.dst] = None if a is None else bv.zext(a, ins.ty.w)
            elif op == 'sext':
                a = self.val(env, ins.x, ins.a[0])
                env[ins.dst] = None if a is None else bv.sext(a, ins.ty.w)
            elif op == 'trunc':
                a = self.val(env, ins.x, ins.a[0])
                env[ins.dst] = None if a is None else bv.extract(a, 0, ins.ty.w)
            elif op in ('inttoptr', 'ptrtoint', 'bitcast', 'freeze'):
                a = self.val(env, ins.x or ins.ty, ins.a[0])
                if op == 'freeze' and a is None:
                    a = bv.var('frz!%d' % ins.ty.w, ins.ty.w)
                if op in ('inttoptr', 'ptrtoint') and a is not None and a.w != ins.ty.w:
                    a = bv.zext(a, ins.ty.w) if a.w < ins.ty.w else bv.extract(a, 0, ins.ty.w)
                env[ins.dst] = a
            elif op == 'extractvalue':
                a = self.val(env, ins.ty, ins.a[0])
                for i in ins.x:
                    a = a[i]
                env[ins.dst] = a
            elif op == 'insertvalue':
                a = self.val(env, ins.ty, ins.a[0])
                idx, t2 = ins.x
                v = self.val(env, t2, ins.a[1])
                env[ins.dst] = _ins_val(a, idx, v)
            elif op == 'alloca':
                o = self.new_obj(ins.ty.size * ins.x, mem)
                allocas.append(o)
                env[ins.dst] = self.addr(o)
            elif op == 'call':
                pc = self.do_call(f, ins, env, pc, mem)
                if pc is None:
                    return None
            else:
                raise Unsupported(ins.text)
        return pc

    def do_call(self, f, ins, env, pc, mem):
        cal = ins.x
        if cal[0] == 'g':
            name = cal[1]
        else:
            p = self.val(env, llir.PTR, cal)
            if p.op != 'c' or (p.k >> SH) not in self.faddr:
                raise Unsupported('indirect call %s' % bv.show(p))
            name = self.faddr[p.k >> SH]
        if name.startswith('@llvm.'):
            r = self.intrinsic(f, name[6:], ins, env, pc, mem)
            if r is TRAP:
                self.obls.append(Obl(pc.full(), 'trap', f.name))
                return None
            if isinstance(r, PC):
                return r
            if ins.dst:
                env[ins.dst] = r
            return pc
        if name not in self.m.ftext:
            r = self.extern(f, name, ins, env, pc, mem)
            if ins.dst:
                env[ins.dst] = r
            return pc
        args = [self.val(env, t, v) for t, v in ins.a]
        v, pc2, mem2 = self.call(name, args, pc, mem)
        if pc2 is None:
            return None
        if mem2 is not mem:
            mem.o = mem2.o
        if ins.dst:
            env[ins.dst] = v
        return pc2

    def intrinsic(self, f, n, ins, env, pc, mem):
        base = n.split('.')[0]
        if base in ('lifetime', 'experimental', 'assume', 'dbg', 'donothing', 'prefetch'):
            return None
        if base == 'trap' or base == 'debugtrap' or base == 'ubsantrap':
            return TRAP
        A = [self.val(env, t, v) if t.k != 'm' else None for t, v in ins.a]
        if base == 'expect':
            return A[0]
        if base in ('memcpy', 'memmove'):
            self.memcpy(mem, A[0], A[1], A[2], pc, f.name)
            return None
        if base == 'memset':
            self.memset(mem, A[0], A[1], A[2], pc, f.name)
            return None
        if any(a is None for a in A):
            return self.undef(ins.ty) if ins.ty.k != 'v' else None
        w = ins.ty.w
        if base == 'ctlz':
            return bv.clz(A[0])
        if base == 'cttz':
            return bv.ctz(A[0])
        if base == 'ctpop':
            return bv.popcnt(A[0])
        if base == 'umin':
            return bv.umin(*A)
        if base == 'umax':
            return bv.umax(*A)
        if base == 'smin':
            return bv.smin(*A)
        if base == 'smax':
            return bv.smax(*A)
        if base == 'abs':
            return bv.ite(bv.slt(A[0], const(0, w)), bv.neg(A[0]), A[0])
        if base in ('fshl', 'fshr'):
            x, y, s = A
            if s.op == 'c':
                k = s.k % w
                xy = bv.concat(x, y)
                if base == 'fshl':
                    return bv.extract(xy, w - k, w) if k else x
                return bv.extract(xy, k, w)
            xy = bv.concat(x, y)
            s = bv.urem(s, const(w, w))
            sz = bv.zext(s, 2 * w)
            if base == 'fshl':
                return bv.extract(bv.shl(xy, sz), w, w)
            return bv.extract(bv.lshr(xy, sz), 0, w)
        if base == 'bswap':
            r = None
            for i in range(w // 8):
                b = bv.extract(A[0], 8 * i, 8)
                r = b if r is None else bv.concat(r, b)
            return r
        if base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            kind = n.split('.')[1]
            a, b = A[0], A[1]
            w = a.w
            if base == 'uadd':
                r = bv.add(a, b)
                al, ah = pc.range(a)
                bl, bh = pc.range(b)
                o = F if ah + bh < (1 << w) else T if al + bl >= (1 << w) else bv.ult(r, a)
            elif base == 'usub':
                r = bv.sub(a, b)
                o = bv.ult(a, b)
            elif base == 'umul':
                al, ah = bv.ubounds(a)
                bl, bh = bv.ubounds(b)
                r = bv.mul(a, b)
                if ah * bh < (1 << w):
                    o = F
                else:
                    o = bv.ne(bv.extract(bv.mul(bv.zext(a, 2 * w), bv.zext(b, 2 * w)), w, w), const(0, w))
            else:
                al, ah = bv.sbounds(a)
                bl, bh = bv.sbounds(b)
                h = 1 << (w - 1)
                if base == 'sadd':
                    r = bv.add(a, b)
                    lo, hi = al + bl, ah + bh
                    wide = lambda: bv.add(bv.sext(a, w + 1), bv.sext(b, w + 1))
                elif base == 'ssub':
                    r = bv.sub(a, b)
                    lo, hi = al - bh, ah - bl
                    wide = lambda: bv.sub(bv.sext(a, w + 1), bv.sext(b, w + 1))
                else:
                    r = bv.mul(a, b)
                    ps = [al * bl, al * bh, ah * bl, ah * bh]
                    lo, hi = min(ps), max(ps)
                    wide = lambda: bv.mul(bv.sext(a, 2 * w), bv.sext(b, 2 * w))
                if -h <= lo and hi < h:
                    o = F
                else:
                    x = wide()
                    o = bv.ne(x, bv.sext(bv.extract(x, 0, w), x.w))
                    # a cheaper form for +-constant
                    if base == 'sadd' and b.op == 'c':
                        k = bv.sval(b.k, w)
                        o = bv.slt(const(h - 1 - k, w), a) if k >= 0 else bv.slt(a, const(-h - k, w))
            if kind == 'with':
                return (r, o)
            # saturating
            if base == 'uadd':
                return bv.ite(o, const(-1, w), r)
            if base == 'usub':
                return bv.ite(o, const(0, w), r)
            return bv.ite(o, bv.ite(bv.slt(a, const(0, w)), const(1 << (w - 1), w), const((1 << (w - 1)) - 1, w)), r)
        if base in ('ucmp', 'scmp'):
            lt = (bv.ult if base == 'ucmp' else bv.slt)
            a, b = A
            return bv.ite(lt(a, b), const(-1, w), bv.ite(bv.eq(a, b), const(0, w), const(1, w)))
        raise Unsupported('intrinsic ' + n)

    def extern(self, f, name, ins, env, pc, mem):
        A = [self.val(env, t, v) for t, v in ins.a]
        if '___rust_no_alloc_shim' in name:
            return None
        if name.endswith('___rust_dealloc'):
            return None
        if name.endswith('___rust_alloc') or name.endswith('___rust_alloc_zeroed'):
            sz = self.alloc_size(A[0], pc)
            o = self.new_obj(sz, mem, [(const(0, 8), 0)] * sz if name.endswith('zeroed') else None)
            return self.addr(o)
        if name.endswith('___rust_realloc'):
            p, old, al, new = A
            sz = self.alloc_size(new, pc)
            o = self.new_obj(sz, mem)
            n = min(sz, self.alloc_size(old, pc))
            rs = self.resolve(p, pc)
            n = min([n] + [self.sizes[x] for _, x, _ in rs if x is not None])
            self.store_ents(mem, self.addr(o), self.read_ents(mem, p, n, pc, f.name), pc, f.name)
            return self.addr(o)
        if name in ('@memcmp', '@bcmp'):
            n = A[2]
            if n.op != 'c' and name == '@bcmp':
                ls = bv_leaves(n, 256)
                hi = max(k for _, k in ls) if ls is not None else min(bv.ubounds(n)[1], pc.range(n)[1])
                if hi > 256:
                    raise Unsupported('bcmp of up to %d bytes' % hi)
                df = F
                for i in range(hi):
                    c = pc.simp(bv.ult(const(i, 64), n))
                    p = pc.extend(c) if c is not F else None
                    if p is None:
                        break
                    z = const(i, 64)
                    try:
                        x = self.load_bytes(mem, bv.add(A[0], z), 1, p, f.name)
                        y = self.load_bytes(mem, bv.add(A[1], z), 1, p, f.name)
                    except Dead:
                        continue
                    df = bv.or_(df, bv.and_(c, bv.ne(x, y)))
                return bv.zext(df, 32)
            if n.op != 'c':
                raise Unsupported('memcmp with symbolic length')
            if n.k == 0:
                return const(0, 32)
            a = self.load_bytes(mem, A[0], n.k, pc, f.name)
            b = self.load_bytes(mem, A[1], n.k, pc, f.name)
            if name == '@bcmp':
                return bv.zext(bv.ne(a, b), 32)
            r = const(0, 32)
            for i in reversed(range(n.k)):
                x, y = bv.extract(a, 8 * i, 8), bv.extract(b, 8 * i, 8)
                r = bv.ite(bv.eq(x, y), r, bv.sub(bv.zext(x, 32), bv.zext(y, 32)))
            return r
        if name == '@memcpy':
            self.memcpy(mem, A[0], A[1], A[2], pc, f.name)
            return A[0]
        raise Unsupported('external function ' + name)

    def alloc_size(self, n, pc):
        if n.op == 'c':
            s = n.k
        else:
            ls = bv_leaves(n, 256)
            s = max(k for _, k in ls) if ls is not None else min(bv.ubounds(n)[1], pc.range(n)[1])
        if s > 4096 and n.op != 'c' and self.prune is not None and not self.prune(pc.full(), bv.ult(const(4096, 64), n)):
            ls = bv_leaves(n, 256)
            return max(k for _, k in ls if k <= 4096) if ls is not None else 4096
        if s > self.max_alloc:
            raise Bound('allocation of %d bytes' % s)
        return s


class Decider:
    """takes one branch after the other, depth first, over repeated executions"""

    def __init__(self):
        self.tr = []          # [choice, alternatives]
        self.i = 0

    def choose(self, n):
        if self.i == len(self.tr):
            self.tr.append([0, n])
        e = self.tr[self.i]
        assert e[1] == n
        self.i += 1
        return e[0]

    def next(self):
        self.i = 0
        while self.tr and self.tr[-1][0] + 1 == self.tr[-1][1]:
            self.tr.pop()
        if not self.tr:
            return False
        self.tr[-1][0] += 1
        return True


class _Trap:
    pass


TRAP = _Trap()


def _ins_val(a, idx, v):
    i = idx[0]
    l = list(a)
    l[i] = v if len(idx) == 1 else _ins_val(l[i], idx[1:], v)
    return tuple(l)


def ors_plan(rels):
    """disjunction of conjunctions, factored"""
    def rec(es):
        if any(not r for r in es):
            return T
        if len(es) == 1:
            return bv.ands(es[0])
        l = es[0][0]
        nl = bv.not_(l)
        g = [r[1:] for r in es if r[0] is l]
        h = [r[1:] for r in es if r[0] is nl]
        if len(g) + len(h) == len(es):
            if not h:
                return bv.and_(l, rec(g))
            return bv.ite(l, rec(g), rec(h))
        return bv.or_(bv.ands(es[0]), rec(es[1:]))
    return rec(list(rels))


def merge_bytes(vs, plan):
    n = len(vs[0])
    out = []
    i = 0
    k = len(vs)
    while i < n:
        es = [v[i] for v in vs]
        e0 = es[0]
        if all(e is e0 or (e is not None and e0 is not None and e[0] is e0[0] and e[1] == e0[1]) for e in es):
            out.append(e0)
            i += 1
            continue
        j = i + 1
        while j < n:
            nx = [v[j] for v in vs]
            ok = True
            for e, x in zip(es, nx):
                if e is None:
                    if x is not None:
                        ok = False
                        break
                elif x is None or x[0] is not e[0] or x[1] != e[1] + j - i:
                    ok = False
                    break
            if not ok:
                break
            j += 1
        ts = [None if e is None else bv.extract(e[0], 8 * e[1], 8 * (j - i)) for e in es]
        r = plan.apply(ts)
        out.extend((r, x) for x in range(j - i))
        i = j
    return tuple(out)


class _One:
    def __init__(self, c):
        self.c = c

    def apply(self, vals):
        return merge2(self.c, vals[0], vals[1])


def merge_ents(c, a, b):
    if c is T:
        return a
    return merge_bytes([tuple(a), tuple(b)], _One(c))


def bv_leaves(n, lim):
    """if n is an ite-tree (through +const/zext/concat/shift) of constants: [(cond,value)]"""
    memo = {}

    def rec(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        r = rec1(x)
        if r is None or len(r) > lim:
            raise OverflowError
        memo[x.id] = r
        return r

    def comb(d):
        return d

    def rec1(x):
        if x.op == 'c':
            return {x.k: T}
        if x.op == 'ite':
            c = x.a[0]
            d = {}
            for k, cc in rec(x.a[1]).items():
                d[k] = bv.and_(c, cc)
            nc = bv.not_(c)
            for k, cc in rec(x.a[2]).items():
                t = bv.and_(nc, cc)
                d[k] = bv.or_(d[k], t) if k in d else t
            return d
        if x.op == 'add' and x.a[1].op == 'c':
            M = (1 << x.w) - 1
            return {(k + x.a[1].k) & M: c for k, c in rec(x.a[0]).items()}
        if x.op == 'zext':
            return dict(rec(x.a[0]))
        if x.op == 'concat':
            h, l = x.a
            if l.op == 'c':
                return {(k << l.w) | l.k: c for k, c in rec(h).items()}
            if h.op == 'c':
                return {(h.k << l.w) | k: c for k, c in rec(l).items()}
        if x.w == 1 and x.op != 'v':
            return {1: x, 0: bv.not_(x)}
        if x.op in ('add', 'sub', 'mul'):
            M = (1 << x.w) - 1
            A, B = rec(x.a[0]), rec(x.a[1])
            if len(A) * len(B) > lim:
                raise OverflowError
            d = {}
            for ka, ca in A.items():
                for kb, cb in B.items():
                    c = bv.and_(ca, cb)
                    if c is F:
                        continue
                    k = (ka + kb if x.op == 'add' else ka - kb if x.op == 'sub' else ka * kb) & M
                    d[k] = bv.or_(d[k], c) if k in d else c
            return d
        raise OverflowError

    try:
        return [(c, k) for k, c in rec(n).items() if c is not F]
    except OverflowError:
        return None


def mux(off, vs):
    """vs: [(k, term)] -> term selecting by off (offsets outside are unconstrained)"""
    if not vs:
        return None
    # split on bits, high to low
    def rec(es, bit):
        if len(es) == 1:
            return es[0][1]
        t0 = es[0][1]
        if all(e[1] is t0 for e in es):
            return t0
        while bit >= 0:
            z = [e for e in es if not (e[0] >> bit) & 1]
            o = [e for e in es if (e[0] >> bit) & 1]
            if z and o:
                c = bv.extract(off, bit, 1)
                return merge2(c, rec(o, bit - 1), rec(z, bit - 1))
            bit -= 1
        return t0
    return rec(vs, max(k for k, _ in vs).bit_length() - 1)


BINOPS = {'add': bv.add, 'sub': bv.sub, 'mul': bv.mul, 'udiv': bv.udiv, 'urem': bv.urem, 'sdiv': bv.sdiv,
          'srem': bv.srem, 'shl': bv.shl, 'lshr': bv.lshr, 'ashr': bv.ashr, 'and': bv.and_, 'or': bv.or_,
          'xor': bv.xor_}
CMP = {'eq': bv.eq, 'ne': bv.ne, 'ult': bv.ult, 'ule': bv.ule, 'ugt': bv.ugt, 'uge': bv.uge, 'slt': bv.slt,
       'sle': bv.sle, 'sgt': bv.sgt, 'sge': bv.sge}

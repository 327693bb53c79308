"""Bit-blasting of bv terms and the SAT queries that decide obligations."""
import os
import subprocess
import time
from . import bv

KISSAT = os.environ.get('VP_KISSAT') or '/usr/local/bin/kissat'
ALT = ['/root/.kani/kani-0.68.0/bin/kissat', '/app/lean4-4.33.0/build/release/stage1/bin/cadical']
if not os.path.exists(KISSAT):
    for k in ALT:
        if os.path.exists(k):
            KISSAT = k
            break
    else:
        import shutil
        KISSAT = shutil.which('kissat') or shutil.which('cadical')


class Blaster:
    def __init__(self, abstract=False):
        self.abstract = abstract    # products become unknowns constrained by lemmas
        self.lemmas = []            # literals that hold for every product
        self.nmul = 0
        self.rems = {}              # divisor -> remainders
        self.prods = []
        self.assumed = []           # literals every query of this blaster assumes
        self.side = 0
        self.nv = 1                 # variable 1 is TRUE
        self.defs = {}              # var -> (kind, inputs)
        self.h = {}
        self.bits = {}              # node id -> list of literals, LSB first
        self.vars = {}              # name -> literals
        self.ranged = {}            # name -> (node)
        self.fits = {}              # id of an ite -> node: its value is known to be below that node's

    def new(self):
        self.nv += 1
        return self.nv

    # ---- gates
    def AND(self, a, b):
        if a == 1:
            return b
        if b == 1:
            return a
        if a == -1 or b == -1 or a == -b:
            return -1
        if a == b:
            return a
        d = self.defs
        for _ in range(2):
            g = d.get(a)
            if g is not None and g[0] == 0:
                x, y = g[1], g[2]
                if b == x or b == y:
                    return a
                if b == -x or b == -y:
                    return -1
            else:
                g = d.get(-a)
                if g is not None and g[0] == 0:
                    x, y = g[1], g[2]
                    if b == -x or b == -y:
                        return b
                    if b == x:
                        return self.AND(b, -y)
                    if b == y:
                        return self.AND(b, -x)
            a, b = b, a
        if a > b:
            a, b = b, a
        k = (0, a, b)
        r = self.h.get(k)
        if r is None:
            r = self.new()
            self.h[k] = r
            d[r] = k
        return r

    def OR(self, a, b):
        return -self.AND(-a, -b)

    def XOR(self, a, b):
        if a == 1:
            return -b
        if a == -1:
            return b
        if b == 1:
            return -a
        if b == -1:
            return a
        if a == b:
            return -1
        if a == -b:
            return 1
        s = 1
        if a < 0:
            a, s = -a, -s
        if b < 0:
            b, s = -b, -s
        if a > b:
            a, b = b, a
        # x ^ (x ^ y) = y
        g = self.defs.get(b)
        if g is not None and g[0] == 1 and len(g) == 3:
            if g[1] == a:
                return s * g[2]
            if g[2] == a:
                return s * g[1]
        g = self.defs.get(a)
        if g is not None and g[0] == 1 and len(g) == 3:
            if g[1] == b:
                return s * g[2]
            if g[2] == b:
                return s * g[1]
        k = (1, a, b)
        r = self.h.get(k)
        if r is None:
            r = self.new()
            self.h[k] = r
            self.defs[r] = k
        return s * r

    def XOR3(self, a, b, c):
        s = 1
        l = []
        for x in (a, b, c):
            if x == 1:
                s = -s
            elif x != -1:
                if x < 0:
                    x, s = -x, -s
                if x in l:
                    l.remove(x)
                else:
                    l.append(x)
        if not l:
            return -s
        if len(l) == 1:
            return s * l[0]
        if len(l) == 2:
            return s * self.XOR(l[0], l[1])
        l.sort()
        k = (2, l[0], l[1], l[2])
        r = self.h.get(k)
        if r is None:
            r = self.new()
            self.h[k] = r
            self.defs[r] = k
        return s * r

    def MAJ(self, a, b, c):
        if a == b or a == c:
            return a
        if b == c:
            return b
        if a == -b:
            return c
        if a == -c:
            return b
        if b == -c:
            return a
        if a == 1:
            return self.OR(b, c)
        if a == -1:
            return self.AND(b, c)
        if b == 1:
            return self.OR(a, c)
        if b == -1:
            return self.AND(a, c)
        if c == 1:
            return self.OR(a, b)
        if c == -1:
            return self.AND(a, b)
        l = sorted((a, b, c), key=abs)
        s = 1
        if l[0] < 0:
            l = [-x for x in l]
            s = -1
        k = (3, l[0], l[1], l[2])
        r = self.h.get(k)
        if r is None:
            r = self.new()
            self.h[k] = r
            self.defs[r] = k
        return s * r

    def MUX(self, c, a, b):
        if c == 1:
            return a
        if c == -1:
            return b
        if a == b:
            return a
        if c < 0:
            c, a, b = -c, b, a
        if a == 1 or a == c:
            return self.OR(c, b)
        if a == -1 or a == -c:
            return self.AND(-c, b)
        if b == 1 or b == -c:
            return self.OR(-c, a)
        if b == -1 or b == c:
            return self.AND(c, a)
        if a == -b:
            return -self.XOR(c, a)
        s = 1
        if a < 0:
            a, b, s = -a, -b, -1
        k = (4, c, a, b)
        r = self.h.get(k)
        if r is None:
            r = self.new()
            self.h[k] = r
            self.defs[r] = k
        return s * r

    # ---- words
    def addw(self, A, B, c):
        out = []
        for a, b in zip(A, B):
            out.append(self.XOR3(a, b, c))
            c = self.MAJ(a, b, c)
        return out, c

    def ultw(self, A, B):
        # a < b  <=> no carry out of a + ~b + 1
        c = 1
        for a, b in zip(A, B):
            c = self.MAJ(a, -b, c)
        return -c

    def eqw(self, A, B):
        r = 1
        for a, b in zip(A, B):
            x = -self.XOR(a, b)
            r = self.AND(r, x)
            if r == -1:
                return -1
        return r

    def muxw(self, c, A, B):
        return [self.MUX(c, a, b) for a, b in zip(A, B)]

    def mulw(self, A, B, w):
        A, B = list(A), list(B)
        # rows from the operand with fewer live bits
        la = sum(1 for x in A if x != -1)
        lb = sum(1 for x in B if x != -1)
        if la < lb:
            A, B = B, A
        acc = [-1] * w
        for i, b in enumerate(B):
            if b == -1:
                continue
            row = [self.AND(b, a) for a in A[:w - i]]
            n = w - i
            row += [-1] * (n - len(row))
            s, _ = self.addw(acc[i:], row, -1)
            acc[i:] = s
        return acc

    def divw(self, A, B):
        """restoring division, from the top bit down"""
        w = len(A)
        bl = list(B)
        while bl and bl[-1] == -1:
            bl.pop()
        if not bl:
            return self.divw0(A, B)
        key = tuple(bl)
        la = len(A)
        while la and A[la - 1] == -1:
            la -= 1
        n = len(bl)
        # the top bits may be the remainder of an earlier division by the same divisor: go on from there
        R, start = [-1] * n, la
        for P, raw in self.rems.get(key, ()):
            lp = len(P)
            if la >= lp and tuple(A[la - lp:la]) == P:
                R, start = list(raw), la - lp
                break
        Q = [-1] * w
        for i in range(start - 1, -1, -1):
            # R < B here, so 2 R + a fits one more bit than B
            X = [A[i]] + R
            c = 1
            S = []
            for r, b in zip(X, bl + [-1]):
                S.append(self.XOR3(r, -b, c))
                c = self.MAJ(r, -b, c)
            Q[i] = c
            R = self.muxw(c, S, X)[:n]
        raw = R
        R = R + [-1] * (w - n)
        z = 1
        for x in bl:
            z = self.AND(z, -x)
        if z != -1:
            Q = self.muxw(z, [1] * w, Q)
            R = self.muxw(z, A, R)
        P = list(R)
        while P and P[-1] == -1:
            P.pop()
        if P:
            self.rems.setdefault(key, []).append((tuple(P), raw))
        return Q, R

    def divw0(self, A, B):
        w = len(A)
        return [1] * w, list(A)

    def shiftw(self, A, B, kind):
        w = len(A)
        fill = A[w - 1] if kind == 'ashr' else -1
        cur = list(A)
        over = -1
        for i, s in enumerate(B):
            if s == -1:
                continue
            k = 1 << i
            if k >= w:
                over = self.OR(over, s)
                continue
            if kind == 'shl':
                sh = [-1] * k + cur[:w - k]
            else:
                sh = cur[k:] + [fill] * k
            cur = self.muxw(s, sh, cur)
        if over != -1:
            cur = self.muxw(over, [fill] * w, cur)
        return cur

    def clzw(self, A, w):
        # A LSB first.  recursive on power-of-two halves
        n = 1
        while n < len(A):
            n *= 2
        pad = n - len(A)
        X = [1] * pad + list(A)       # low padding with ones makes zero -> len(A)

        def rec(X):
            # returns (count bits (log2 n), allzero)
            if len(X) == 1:
                return [], -X[0]
            h = len(X) // 2
            lo, hi = X[:h], X[h:]
            cl, zl = rec(lo)
            ch, zh = rec(hi)
            c = self.muxw(zh, cl, ch)
            return c + [zh], self.AND(zh, zl)
        c, z = rec(X)
        if pad == 0:
            # all zero -> n
            c = [self.AND(-z, x) for x in c] + [z]
        c = c + [-1] * (w - len(c))
        return c[:w]

    def absmul(self, n, A, B):
        """an unknown P with: P = 0 iff an operand is 0; P within the node's interval; and, when the
        operands' top live bits are set, one of P's two top live bits is set"""
        w = n.w
        while A and A[-1] == -1:
            A = A[:-1]
        while B and B[-1] == -1:
            B = B[:-1]
        if not A or not B:
            return [-1] * w
        la, lb = len(A), len(B)
        if la + lb > w:
            return self.mulw(A + [-1] * (w - la), B + [-1] * (w - lb), w)
        m = la + lb
        key = ('mul',) + min((tuple(A), tuple(B)), (tuple(B), tuple(A)))
        if key in self.h:
            return self.h[key] + [-1] * (w - m)
        for A2, B2, P in self.prods:
            if self.sameops(A, B, A2, B2) or self.sameops(A, B, B2, A2):
                P = P[:m]
                P = P + [-1] * (m - len(P))
                self.h[key] = P
                return P + [-1] * (w - m)
        self.nmul += 1
        P = [self.new() for _ in range(m)]

        def nz(X):
            r = -1
            for x in X:
                r = self.OR(r, x)
            return r
        both = self.AND(nz(A), nz(B))
        self.lemmas.append(-self.XOR(both, nz(P)))
        self.lemmas.append(self.OR(-self.AND(A[-1], B[-1]), self.OR(P[-1], P[-2]) if m > 1 else 1))
        # low bit and the trailing zeros of the product
        self.lemmas.append(-self.XOR(P[0], self.AND(A[0], B[0])))
        lo, hi = n.lo, n.lo + n.ln
        lim = ((1 << la) - 1) * ((1 << lb) - 1)
        lo, hi = (lo, min(hi, lim)) if hi < (1 << w) else (0, lim)
        c = lambda v: [1 if (v >> i) & 1 else -1 for i in range(m)]
        self.lemmas.append(-self.ultw(P, c(lo)))
        self.lemmas.append(-self.ultw(c(hi), P))
        # 2^i <= A and 2^j <= B give 2^(i+j) <= P; A < 2^i and B < 2^j give P < 2^(i+j)
        def thermo(X):
            # t[i]: X >= 2^i, i = 0..len
            t = [-1] * (len(X) + 1)
            for i in range(len(X) - 1, -1, -1):
                t[i] = self.OR(t[i + 1], X[i])
            return t
        if la <= 64 and lb <= 64 and m <= 128:
            ta, tb, tp = thermo(A), thermo(B), thermo(P)
            for i in range(la):
                for j in range(lb):
                    self.lemmas.append(self.OR(-self.AND(ta[i], tb[j]), tp[i + j]))
                    self.lemmas.append(self.OR(self.OR(ta[i + 1], tb[j + 1]), -tp[i + j + 2]) if i + j + 2 <= m else 1)
        self.h[key] = P
        self.prods.append((A, B, P))
        return P + [-1] * (w - m)

    def sameops(self, A, B, C, D):
        """are A, C and B, D equal wherever the assumptions hold?"""
        def pad(X, Y):
            n = max(len(X), len(Y))
            return X + [-1] * (n - len(X)), Y + [-1] * (n - len(Y))
        if abs(len(A) - len(C)) > 8 or abs(len(B) - len(D)) > 8:
            return False
        diff = -self.AND(self.eqw(*pad(A, C)), self.eqw(*pad(B, D)))
        if diff == -1:
            return True
        if diff == 1:
            return False
        lits = [l for l in self.assumed if l != 1] + [diff]
        num, out, nc, L = self.cnf(lits)
        for l in lits:
            out.append('%d 0\n' % L(l))
        txt = 'p cnf %d %d\n' % (len(num), nc + len(lits)) + ''.join(out)
        r, _ = run_sat(txt, 10)
        self.side += 1
        return r == 'unsat'

    # ---- terms
    def blast(self, roots):
        bits = self.bits
        for n in bv.post([r for r in roots if r.id not in bits]):
            if n.id in bits:
                continue
            bits[n.id] = self.blast1(n)
        return [bits[r.id] for r in roots]

    def blast1(self, n):
        op, w = n.op, n.w
        if op == 'c':
            return [1 if (n.k >> i) & 1 else -1 for i in range(w)]
        if op == 'v':
            name = bv.vname(n)
            ls = self.vars.get(name)
            if ls is None:
                ls = [self.new() for _ in range(w)]
                self.vars[name] = ls
                if not isinstance(n.k, str):
                    self.ranged[name] = n
            # known-bit constants of ranged variables
            return ls
        a = [self.bits[x.id] for x in n.a]
        if op == 'not':
            return [-x for x in a[0]]
        if op == 'and':
            return [self.AND(x, y) for x, y in zip(*a)]
        if op == 'or':
            return [self.OR(x, y) for x, y in zip(*a)]
        if op == 'xor':
            return [self.XOR(x, y) for x, y in zip(*a)]
        if op == 'concat':
            return a[1] + a[0]
        if op == 'zext':
            return a[0] + [-1] * (w - len(a[0]))
        if op == 'sext':
            return a[0] + [a[0][-1]] * (w - len(a[0]))
        if op == 'ex':
            return a[0][n.k:n.k + w]
        if op == 'ite':
            r = self.muxw(a[0][0], a[1], a[2])
            B = self.fits.get(n.id)
            if B is not None:
                k = len(self.bits[B.id])
                while k and self.bits[B.id][k - 1] == -1:
                    k -= 1
                r = r[:k] + [-1] * (w - k)
            return r
        if op == 'add':
            return self.addw(a[0], a[1], -1)[0]
        if op == 'sub':
            return self.addw(a[0], [-x for x in a[1]], 1)[0]
        if op == 'mul':
            if self.abstract and not any(x.op == 'c' for x in n.a):
                return self.absmul(n, a[0], a[1])
            return self.mulw(a[0], a[1], w)
        if op in ('udiv', 'urem'):
            k = ('div', n.a[0].id, n.a[1].id)
            qr = self.bits.get(k)
            if qr is None:
                qr = self.divw(a[0], a[1])
                self.bits[k] = qr
            return qr[0] if op == 'udiv' else qr[1]
        if op in ('shl', 'lshr', 'ashr'):
            return self.shiftw(a[0], a[1], op)
        if op == 'clz':
            return self.clzw(a[0], w)
        if op == 'ctz':
            return self.clzw(list(reversed(a[0])), w)
        if op == 'eq':
            return [self.eqw(a[0], a[1])]
        if op == 'ult':
            return [self.ultw(a[0], a[1])]
        if op == 'ule':
            return [-self.ultw(a[1], a[0])]
        if op in ('slt', 'sle'):
            x, y = a
            x = x[:-1] + [-x[-1]]
            y = y[:-1] + [-y[-1]]
            return [self.ultw(x, y)] if op == 'slt' else [-self.ultw(y, x)]
        raise Exception('blast ' + op)

    def cnf(self, lits):
        """clauses of the cone of lits, with compact numbering"""
        num = {1: 1}
        out = ['1 0\n']
        nc = 1
        st = [abs(l) for l in lits]
        order = []
        while st:
            v = st.pop()
            if v in num:
                continue
            num[v] = len(num) + 1
            g = self.defs.get(v)
            if g is not None:
                order.append(v)
                for x in g[1:]:
                    x = abs(x)
                    if x not in num:
                        st.append(x)

        def L(l):
            return num[l] if l > 0 else -num[-l]
        for v in order:
            g = self.defs[v]
            r = num[v]
            k = g[0]
            if k == 0:
                a, b = L(g[1]), L(g[2])
                out.append('%d %d 0\n%d %d 0\n%d %d %d 0\n' % (-r, a, -r, b, r, -a, -b))
                nc += 3
            elif k == 1:
                a, b = L(g[1]), L(g[2])
                out.append('%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n' %
                           (-r, a, b, -r, -a, -b, r, -a, b, r, a, -b))
                nc += 4
            elif k == 2:
                a, b, c = L(g[1]), L(g[2]), L(g[3])
                out.append(('%d %d %d %d 0\n' * 8) % (
                    -r, a, b, c, -r, -a, -b, c, -r, -a, b, -c, -r, a, -b, -c,
                    r, -a, b, c, r, a, -b, c, r, a, b, -c, r, -a, -b, -c))
                nc += 8
            elif k == 3:
                a, b, c = L(g[1]), L(g[2]), L(g[3])
                out.append(('%d %d %d 0\n' * 6) % (
                    -r, a, b, -r, a, c, -r, b, c, r, -a, -b, r, -a, -c, r, -b, -c))
                nc += 6
            else:
                c, a, b = L(g[1]), L(g[2]), L(g[3])
                out.append(('%d %d %d 0\n' * 6) % (
                    -r, -c, a, r, -c, -a, -r, c, b, r, c, -b, -r, a, b, r, -a, -b))
                nc += 6
        return num, out, nc, L


class Stats:
    def __init__(self):
        self.queries = 0
        self.trivial = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.abstract = 0
        self.clauses = 0


class Solver:
    def __init__(self, timeout=60):
        self.b = Blaster()
        self.ab = None
        self.timeout = timeout
        self.st = Stats()
        self.last = None

    def sat(self, conds, timeout=None, abstract=False, assume=None):
        """satisfiability of the conjunction of 1-bit terms -> ('sat',model)|('unsat',None)|('unknown',None).
        First with products abstracted (an unsat answer then carries over), otherwise exactly."""
        to = timeout if timeout is not None else self.timeout
        if assume is not None:
            self.divchains(assume, conds)
        if abstract and any(n.op == 'mul' and n.a[0].op != 'c' and n.a[1].op != 'c' for n in bv.post(conds)):
            self.ab = Blaster(True)
            t0 = time.time()
            r, m = self.sat1(self.ab, conds, to * 0.6)
            if r == 'unsat':
                self.st.abstract += 1
                return r, None
            if r == 'sat':
                # a model of the abstraction may happen to be a real one
                memo = {}
                if all(bv.evaluate([c], m, memo)[0] for c in conds):
                    return r, m
            to = max(1, to - (time.time() - t0))
        return self.sat1(self.b, conds, to)

    def divchains(self, assume, conds):
        """find the steps r' = (x < B ? x : x - B), x = 2 r + bit, of a long division.  r < B carries over from one
        step to the next; where a query shows it for the first r (under the assumptions), every step's result
        is known to fit B's width"""
        below = {}

        def base(r, B):
            k = (r.id, B.id)
            if k not in below:
                s = Solver(10)
                below[k] = s.sat1(s.b, list(assume) + [bv.not_(bv.ult(r, B))], 10)[0] == 'unsat'
                self.st.queries += s.st.queries
                self.st.time += s.st.time
            return below[k]

        for n in bv.post(conds):
            if n.op != 'ite' or n.id in self.b.fits:
                continue
            c, x, d = n.a
            if c.op != 'ult' or c.a[0] is not x or d.op != 'sub' or d.a[0] is not x or d.a[1] is not c.a[1]:
                continue
            B = c.a[1]
            if x.op != 'concat' or x.a[1].w != 1:
                continue
            r = x.a[0]
            if r.op != 'ex' or r.k != 0 or r.a[0].w != r.w + 1:
                continue
            r = r.a[0]
            if base(r, B):
                below[(n.id, B.id)] = True
                self.b.fits[n.id] = B

    def sat1(self, b, conds, timeout):
        st = self.st
        st.queries += 1
        cs = []
        for c in conds:
            if c is bv.F:
                st.trivial += 1
                st.unsat += 1
                return 'unsat', None
            if c is not bv.T:
                cs.append(c)
        t0 = time.time()
        # range assumptions of variables
        rg = []
        for v in bv.vars_of(cs):
            if not isinstance(v.k, str):
                nm, lo, hi = v.k
                rg.append((v, lo, hi))
        lits = []
        for v, lo, hi in rg:
            ls = b.blast([v])[0]
            lits.append(-b.ultw(ls, [1 if (lo >> i) & 1 else -1 for i in range(v.w)]))
            lits.append(-b.ultw([1 if (hi >> i) & 1 else -1 for i in range(v.w)], ls))
        for c in cs:
            if b.abstract:
                b.assumed = list(lits)
            lits.append(b.blast([c])[0][0])
        lits += b.lemmas
        if any(l == -1 for l in lits):
            st.trivial += 1
            st.unsat += 1
            st.time += time.time() - t0
            return 'unsat', None
        lits = [l for l in lits if l != 1]
        if not lits:
            st.trivial += 1
            st.sat += 1
            return 'sat', {v.k[0]: v.k[1] for v, lo, hi in rg}
        num, out, nc, L = b.cnf(lits)
        for l in lits:
            out.append('%d 0\n' % L(l))
            nc += 1
        st.clauses += nc
        txt = 'p cnf %d %d\n' % (len(num), nc) + ''.join(out)
        self.last = txt
        r, vals = run_sat(txt, timeout)
        st.time += time.time() - t0
        if r == 'unsat':
            st.unsat += 1
            return 'unsat', None
        if r != 'sat':
            st.unknown += 1
            return 'unknown', None
        st.sat += 1
        m = {}
        for name, ls in b.vars.items():
            x = 0
            for i, l in enumerate(ls):
                k = num.get(l)
                if k is not None and k in vals:
                    x |= 1 << i
            m[name] = x
        inv = {v.k[0]: v for v, lo, hi in rg}
        for nm, v in b.ranged.items():
            if nm not in inv:
                m[nm] = v.k[1]
        return 'sat', m


def run_sat(txt, timeout):
    try:
        args = [KISSAT]
        if 'kissat' in os.path.realpath(KISSAT) or 'kissat' in KISSAT:
            args += ['-q', '--time=%d' % max(1, int(timeout))]
        else:
            args += ['-q', '-t', '%d' % max(1, int(timeout))]
        p = subprocess.run(args, input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=timeout + 20)
    except subprocess.TimeoutExpired:
        return 'unknown', None
    if p.returncode == 20:
        return 'unsat', None
    if p.returncode != 10:
        return 'unknown', None
    vals = set()
    for line in p.stdout.split(b'\n'):
        if line.startswith(b'v'):
            for x in line[1:].split():
                if x[0] != 45:
                    vals.add(int(x))
    return 'sat', vals

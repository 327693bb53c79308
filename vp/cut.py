"""Loops that run too often to unroll: induction over the loop's state, each step decided by the solver.

For an entry f(a, b) whose outermost loop (the first one entered that contains calls) transforms a value x, starting
from x = a, the solver is asked, for arbitrary a, b and an arbitrary value x of the state,

  exit  when the loop is left in state x, the entry's result is out(a, b, x)
  step  otherwise the state at the loop's next iteration is the one that value step(x, b) gives rise to
  zero  when step(x, b) is zero, the loop is left and the result is out(a, b, 0)

The representation of x in the loop's state (memory objects and phi values) is not written down anywhere: it is read
off a second symbolic run f(x, b) stopped at the loop head.  What f(a, b) must be in the end follows from step/exit by
arithmetic on the reference (x - step(x, b) is a multiple of b), and |step(x, b)| < |x| bounds the iterations.
A counterexample (x, b) is itself an input of f and is replayed as such."""
from . import bv, engine, sym
from .bv import T, F, const, and_, or_, not_, eq


class NoLoop(Exception):
    pass


class Cut:
    """called by the executor at the head of the first big loop"""

    def __init__(self, inject=None, ctx=None, zero=None, pre=(), stop_first=True):
        self.key = None
        self.entry = None
        self.inject = inject
        self.stop_first = stop_first
        self.back = None
        self.dropped = []
        self.n = 0
        self.zero = zero
        self.solver = ctx
        self.pre = list(pre)

    def __call__(self, ex, f, b, back, pc, mem, vals):
        if self.key is None:
            self.key = (f.name, b)
        if (f.name, b) != self.key:
            return pc, mem, vals
        if not back:
            if self.entry is not None:
                raise NoLoop('loop entered twice')
            self.entry = (dict(mem.o), list(vals))
            if self.stop_first:
                return None
            if self.inject:
                o, v = self.inject(self.entry)
                m2 = mem.copy()
                m2.o.update(o)
                return pc, m2, [v.get(i, x) for i, x in enumerate(vals)]
            return pc, mem, vals
        self.n += 1
        if self.n == 1:
            self.back = (dict(mem.o), list(vals), pc.full(), len(ex.obls))
            if self.zero is None:
                self.dropped.append((pc.full(), len(ex.obls)))
                return None
            self.dropped.append((and_(pc.full(), not_(self.zero)), len(ex.obls)))
            pz = pc.extend(self.zero)
            if pz is None:
                return None
            return self.settle(pz, mem, vals)
        self.dropped.append((pc.full(), len(ex.obls)))
        return None

    def settle(self, pc, mem, vals):
        """replace the bytes of the state that are constant under pc by those constants"""
        m2 = mem.copy()
        items = []
        for o, es in mem.o.items():
            if self.entry[0].get(o) is not es:
                for i, e in enumerate(es):
                    if e is not None:
                        t = byte(e)
                        if t.op != 'c':
                            items.append((('m', o, i), t))
        for i, v in enumerate(vals):
            if v is not None and not isinstance(v, tuple) and v.op != 'c':
                items.append((('v', i), v))
        full = pc.full()
        cand = items
        known = None
        while cand:
            if known is None:
                r, model = self.solver.sat(self.pre + [full], 60)
                if r == 'unsat':
                    return None
                if r != 'sat':
                    return pc, mem, vals
                m = dict(model)
                known = bv.evaluate([t for _, t in cand], Defaults(m), {})
            ne = [bv.ne(t, const(k, t.w)) for (_, t), k in zip(cand, known)]
            r, model = self.solver.sat(self.pre + [full, bv.ors(ne)], 60)
            if r == 'unsat':
                break
            if r != 'sat':
                return pc, mem, vals
            v2 = bv.evaluate([t for _, t in cand], Defaults(dict(model)), {})
            keep = [i for i in range(len(cand)) if v2[i] == known[i]]
            if len(keep) == len(cand):
                return pc, mem, vals
            cand = [cand[i] for i in keep]
            known = [known[i] for i in keep]
        vals = list(vals)
        ed = {}
        for (k, t), c in zip(cand, known or []):
            if k[0] == 'm':
                ed.setdefault(k[1], {})[k[2]] = c
            else:
                vals[k[1]] = const(c, t.w)
        for o, d in ed.items():
            es = list(mem.o[o])
            # neighbouring constant bytes form one constant, so that wider loads see it whole
            i = 0
            while i < len(es):
                if i in d:
                    j = i
                    while j < len(es) and j in d:
                        j += 1
                    w = const(sum(d[n] << (8 * (n - i)) for n in range(i, j)), 8 * (j - i))
                    for n in range(i, j):
                        es[n] = (w, n - i)
                    i = j
                else:
                    i += 1
            m2.o[o] = tuple(es)
        return pc, m2, vals


class Defaults(dict):
    def __missing__(self, k):
        return 0


def byte(e):
    t, k = e
    return bv.extract(t, 8 * k, 8)


def state_of(c, entry, x, b, pre):
    """the loop state that f(x, b) has when it first reaches the loop"""
    k = Cut(stop_first=True)
    o = engine.call(c.mod, entry, x, b, pre=pre, cut=k)
    if k.entry is None:
        raise NoLoop('no loop with calls in ' + entry)
    return k, o


def induct(c, entry, a, b, x, pre, xpre, step, tzero, out, tpre, ref):
    """see the module's text.  pre: on a and b; xpre: on x (and the two others); step: term of the same width as x;
    tzero: step is zero; out(z): (value, status) when the loop is left, z telling whether the state is zero;
    tpre: what is known of step as an operand; ref(model, a, b): what the real code has to answer on (a, b)"""
    # which parts of the state does an iteration change, and what are they for a given x?
    k0 = Cut(stop_first=False)
    engine.call(c.mod, entry, a, b, pre=pre, cut=k0)
    if k0.entry is None or k0.back is None:
        raise NoLoop('no loop with calls in ' + entry)
    objs = [o for o, es in k0.entry[0].items() if k0.back[0].get(o) is not es and any(e is not None for e in es)]
    phis = [i for i, v in enumerate(k0.entry[1]) if k0.back[1][i] is not v and v is not None]
    kx, ox = state_of(c, entry, x, b, xpre)
    kt, _ = state_of(c, entry, step, b, tpre)
    if kx.key != k0.key or kt.key != k0.key:
        raise NoLoop('different loops')

    def inject(e):
        return {o: kx.entry[0][o] for o in objs}, {i: kx.entry[1][i] for i in phis}
    al = list(pre) + list(xpre)
    c.pre = al
    ki = Cut(inject=inject, ctx=c.solver, zero=tzero, pre=al, stop_first=False)
    o = engine.call(c.mod, entry, a, b, pre=al, cut=ki)
    drop = []
    obls = []
    n0 = 0
    for i, ob in enumerate(o.ex.obls):
        cond = ob.cond
        for pcd, n in ki.dropped:
            if i >= n:
                cond = and_(cond, not_(pcd))
        obls.append(sym.Obl(cond, ob.kind, ob.where))
    o.obls = [x for x in obls if x.cond is not F]
    gone = bv.ors([p for p, _ in ki.dropped])
    bm, bvals, bpc, _ = ki.back if ki.back else ({}, [], F, 0)
    diff = []
    if bpc is not F:
        for ob in objs:
            want, got = kt.entry[0][ob], bm[ob]
            for e, g in zip(want, got):
                if e is None:
                    continue
                diff.append(T if g is None else bv.ne(byte(e), byte(g)))
        for i in phis:
            diff.append(bv.ne(kt.entry[1][i], bvals[i]))
    c.calls.append(('N', entry, dict(a=x, b=b, c=None, k=0, r=0), o))
    idx = len(c.calls) - 1

    def wrong(res, model, memo):
        want = ref(model)
        r = res[idx]
        if r is None:
            return None
        if (r['v'], r['st']) != want:
            return 'got v=%#x st=%d, expected v=%#x st=%d' % (r['v'], r['st'], want[0], want[1])
        return None
    stay = and_(bpc, not_(tzero))
    c.reqs.append(('state after an iteration', and_(stay, bv.ors(diff)), ('n', wrong, T)))
    v, s = out
    left = not_(gone)
    c.reqs.append(('result when the loop ends', and_(left, or_(bv.ne(o.v, bv.zext(v, 128)), bv.ne(o.st, s))), ('n', wrong, T)))
    c.lemma = True
    return o

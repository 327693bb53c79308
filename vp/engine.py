"""Runs one harness entry symbolically and gives its outputs as terms."""
from . import bv, llir, sym
from .bv import const, T, F

RM = ['NearestTiesToEven', 'TowardPositive', 'TowardNegative', 'TowardZero', 'NearestTiesToAway']
OFF = {'v': (0, 16), 'w': (16, 16), 'e': (32, 4), 'st': (36, 1), 'f': (37, 1)}


class Out:
    __slots__ = ('v', 'w', 'e', 'st', 'f', 'pc', 'obls', 'ex', 'bytes', 'paths')


def call(mod, name, a=None, b=None, c=None, k=0, r=0, pre=(), **kw):
    """a,b,c: terms (any width <=128); k: int or 32-bit term; r: concrete rounding mode or 8-bit term.
    pre: 1-bit terms assumed."""
    ex = sym.Exec(mod, **kw)
    mem = sym.Mem({})
    o = ex.new_obj(48, mem, [(const(0, 8), 0)] * 48)

    def z(x):
        return const(0, 128) if x is None else bv.zext(x, 128)
    kk = const(k, 32) if isinstance(k, int) else k
    rr = const(r, 8) if isinstance(r, int) else r
    pc = sym.PC(None, None)
    for p in pre:
        pc = pc.extend(p)
    v, pc2, mem2 = ex.call('@' + name, [z(a), z(b), z(c), kk, rr, ex.addr(o)], pc, mem)
    return _out(ex, o, pc2, mem2)


def _out(ex, o, pc2, mem2):
    res = Out()
    res.ex = ex
    res.pc = pc2
    res.obls = [x for x in ex.obls if x.cond is not F]
    if mem2 is None:
        # no path returns: the obligations say why
        for n, (off, ln) in OFF.items():
            setattr(res, n, const(0, 8 * ln))
        return res
    by = mem2.o[o]
    for n, (off, ln) in OFF.items():
        setattr(res, n, sym.ent_slice(list(by[off:off + ln])))
    return res


def call_parse(mod, name, chars, r=0, pre=(), **kw):
    """chars: list of 8-bit terms"""
    ex = sym.Exec(mod, **kw)
    mem = sym.Mem({})
    o = ex.new_obj(48, mem, [(const(0, 8), 0)] * 48)
    s = ex.new_obj(max(1, len(chars)), mem, [(c, 0) for c in chars] or [None])
    pc = sym.PC(None, None)
    for p in pre:
        pc = pc.extend(p)
    v, pc2, mem2 = ex.call('@' + name, [ex.addr(s), const(len(chars), 64), const(r, 8) if isinstance(r, int) else r, ex.addr(o)], pc, mem)
    return _out(ex, o, pc2, mem2)


def call_show(mod, name, a, n, pre=(), **kw):
    ex = sym.Exec(mod, **kw)
    mem = sym.Mem({})
    o = ex.new_obj(48, mem, [(const(0, 8), 0)] * 48)
    s = ex.new_obj(n, mem, [(const(0, 8), 0)] * n)
    pc = sym.PC(None, None)
    for p in pre:
        pc = pc.extend(p)
    v, pc2, mem2 = ex.call('@' + name, [bv.zext(a, 128), ex.addr(s), const(n, 64), ex.addr(o)], pc, mem)
    res = _out(ex, o, pc2, mem2)
    res.bytes = [const(0, 8)] * n
    if mem2 is not None:
        res.bytes = [sym.ent_slice([e]) for e in mem2.o[s]]
    return res


def forked(run, limit=2000):
    """run(fork) for every path -> one Out with everything merged, and .paths: [(condition, Out)]"""
    d = sym.Decider()
    outs = []
    while True:
        o = run(d)
        outs.append(o)
        if len(outs) > limit:
            raise sym.Bound('more than %d paths' % limit)
        if not d.next():
            break
    res = Out()
    first = outs[0]
    res.ex, res.pc = first.ex, sym.PC(None, None)
    seen = set()
    res.obls = []
    for o in outs:
        for x in o.obls:
            if x.cond.id not in seen:
                seen.add(x.cond.id)
                res.obls.append(x)
    live = [(o.pc.full(), o) for o in outs if o.pc is not None]
    res.paths = live
    for n in list(OFF) + ['bytes']:
        if not hasattr(first, n):
            continue
        r = None
        for c, o in live:
            x = getattr(o, n)
            if r is None:
                r = x
            elif n == 'bytes':
                r = [bv.ite(c, a, b) for a, b in zip(x, r)]
            else:
                r = bv.ite(c, x, r)
        if r is None:
            r = getattr(first, n)
        setattr(res, n, r)
    for k in ('blocks', 'instrs', 'merges'):
        first.ex.stats[k] = sum(o.ex.stats[k] for o in outs)
    first.ex.funcs_used = set().union(*[o.ex.funcs_used for o in outs])
    return res

"""One verification task: symbolic run(s) of harness entries plus what their outputs must be.

A task's script gets a Ctx.  It creates inputs, runs entries, and states
requirements; the driver then asks the SAT solver for inputs that violate one
of them (or reach a panic), and replays any answer natively."""
import os
import random
import signal
import time
import traceback
from . import bv, engine, native, solve
from .bv import T, F, const, zext, eq, and_, not_, ors


class Timeout(Exception):
    pass


class Task:
    def __init__(self, name, script, timeout=120, cost=1.0, vectors=24, exec_timeout=None, bound='', split=None, abstract=False):
        self.name = name
        self.script = script
        self.timeout = timeout
        self.cost = cost
        self.vectors = vectors
        self.exec_timeout = exec_timeout
        self.bound = bound
        self.split = split
        self.abstract = abstract


class Ctx:
    def __init__(self, mod, timeout):
        self.mod = mod
        self.inputs = {}         # name -> (node, kind)
        self.calls = []          # (kind, entry, args dict of terms/consts, Out)
        self.pre = []
        self.reqs = []           # (label, cond violated, replay info)
        self.kw = {}
        self.timeout = timeout
        self.solver = solve.Solver(timeout)
        self.cases = None
        self.lemma = False        # a counterexample need not be an observable one

    # ---- inputs
    def fl(self, name, fm):
        """an arbitrary bit pattern of a format (any width-`bits` value)"""
        v = bv.var(name, fm.bits)
        self.inputs[name] = (v, fm)
        return v

    def int(self, name, w, lo=None, hi=None):
        v = bv.var(name, w) if lo is None else bv.var(name, w, lo, hi)
        self.inputs[name] = (v, (lo, hi))
        return v

    def rm(self, name='r'):
        return self.int(name, 8, 0, 4)

    def assume(self, c):
        self.pre.append(c)

    # ---- runs
    def run(self, entry, a=None, b=None, c=None, k=0, r=0, pre=(), **kw):
        kws = dict(self.kw)
        kws.update(kw)
        o = engine.call(self.mod, entry, a, b, c, k, r, pre=list(self.pre) + list(pre), **kws)
        self.calls.append(('C', entry, dict(a=a, b=b, c=c, k=k, r=r), o))
        return len(self.calls) - 1, o

    def parse(self, entry, chars, r=0, pre=(), **kw):
        kws = dict(self.kw)
        kws.update(kw)
        o = engine.call_parse(self.mod, entry, chars, r, pre=list(self.pre) + list(pre), **kws)
        self.calls.append(('P', entry, dict(s=chars, r=r), o))
        return len(self.calls) - 1, o

    def show(self, entry, a, n, pre=(), **kw):
        kws = dict(self.kw)
        kws.update(kw)
        o = engine.forked(lambda d: engine.call_show(self.mod, entry, a, n, pre=list(self.pre) + list(pre), fork=d, **kws))
        self.calls.append(('S', entry, dict(a=a, n=n), o))
        return len(self.calls) - 1, o

    # ---- requirements
    def expect(self, call, field, want, when=T, label=None):
        """output `field` of run `call` is the term `want` (over the inputs) whenever `when`"""
        i, o = call
        got = getattr(o, field)
        if got is None:
            return
        w = zext(want, got.w) if want.w < got.w else want
        self.reqs.append((label or field, ands_(when, bv.ne(got, w)), ('x', i, field, want, when)))

    def check(self, call, field, fn, when=T, label=None):
        """fn(got term) must be true; fn works on terms and is replayed on constants"""
        i, o = call
        got = getattr(o, field)
        self.reqs.append((label or field, ands_(when, not_(fn(got))), ('f', i, field, fn, when)))

    def rel(self, calls, fn, when=T, label=None):
        """fn(dict of terms per call) -> 1-bit term; replayed on the native outputs as constants"""
        outs = []
        for i, o in calls:
            outs.append({f: getattr(o, f) for f in ('v', 'w', 'e', 'st', 'f')})
        self.reqs.append((label or 'relation', ands_(when, not_(fn(*outs))), ('r', [i for i, _ in calls], fn, when)))

    def same(self, c1, c2, fields, when=T, label=None):
        self.rel([c1, c2], lambda x, y: bv.ands([eq(x[f], y[g]) for f, g in fields]), when, label or 'same result')

    # ---- feasibility oracle for loops
    def feas(self, timeout=20):
        s = solve.Solver(timeout)

        def f(pc):
            r, _ = s.sat(pc if isinstance(pc, list) else [pc], timeout)
            return r != 'unsat'
        return f


    def pruner(self, timeout=20, n=24, seed=1):
        """feasibility of branches: sample inputs settle most, the solver the others"""
        import random
        rng = random.Random(seed)
        s = solve.Solver(timeout)
        models = []
        for _ in range(n):
            m = {}
            for nm, (v, info) in self.inputs.items():
                if isinstance(v.k, str):
                    m[nm] = rng.getrandbits(v.w)
                else:
                    m[nm] = rng.randint(v.k[1], v.k[2])
            memo = {}
            if all(bv.evaluate([c], m, memo)[0] for c in self.pre):
                models.append((m, memo))

        def f(full, c):
            if full is F or c is F:
                return False
            for m, memo in models:
                a, b = bv.evaluate([full, c], m, memo)
                if a and b:
                    return True
            r, m = s.sat([full, c], timeout)
            if r == 'sat':
                models.append((m, {}))
            return r != 'unsat'
        f.solver = s
        return f


def ands_(a, b):
    return and_(a, b)


# ------------------------------------------------------------------ sample inputs
def rnd_float(rng, f):
    w, e = f.bits, f.eb
    m = w - 1 - e
    k = rng.random()
    top = (1 << e) - 1
    ex = rng.getrandbits(e) if k < .4 else rng.choice([0, 1, 2, top, top - 1, (1 << (e - 1)) + rng.randint(-3, 3)])
    if m > 1:
        mm = rng.choice([0, rng.getrandbits(m), (1 << m) - 1, 1 << rng.randint(0, m - 1),
                         rng.getrandbits(m) & ~((1 << rng.randint(0, m)) - 1)])
    else:
        mm = rng.getrandbits(m)
    return (rng.getrandbits(1) << (w - 1)) | ((ex & top) << m) | mm


def rnd(rng, node, kind):
    if kind is not None and hasattr(kind, 'eb'):
        return rnd_float(rng, kind)
    lo, hi = kind if kind else (None, None)
    if callable(lo):
        return lo(rng)
    if lo is not None:
        return rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)])
    w = node.w
    return rng.choice([0, (1 << w) - 1, 1 << (w - 1), rng.getrandbits(w), rng.getrandbits(rng.randint(1, w)),
                       1 << rng.randint(0, w - 1)])


def conc(t, model, memo):
    if t is None:
        return 0
    if isinstance(t, int):
        return t
    return bv.evaluate([t], model, memo)[0]


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def native_call(nat, kind, entry, args, model, memo):
    """-> (request text, result dict or None on panic)"""
    if kind in 'CN':
        a, b, c = [conc(args[x], model, memo) for x in 'abc']
        k = args['k'] if isinstance(args['k'], int) else sgn(conc(args['k'], model, memo), 32)
        r = conc(args['r'], model, memo)
        return native.Native.line(entry, a, b, c, k, r), nat.call(entry, a, b, c, k, r)
    if kind == 'P':
        s = bytes(conc(x, model, memo) for x in args['s'])
        r = conc(args['r'], model, memo)
        return 'P %s %s %d   (string %r)' % (entry, s.hex(), r, s), nat.parse(entry, s, r)
    a = conc(args['a'], model, memo)
    return 'S %s %x %d' % (entry, a, args['n']), nat.show(entry, a, args['n'])


W = {'v': 128, 'w': 128, 'e': 32, 'st': 8, 'f': 8}


def res_term(r, f):
    if f == 'bytes':
        return list(r['bytes'])
    return const(r[f] & ((1 << W[f]) - 1), W[f])


def replay(ctx, model, nat):
    """-> list of (what, detail) that the real code gets wrong on this input"""
    memo = {}
    bad, log, res = [], [], []
    for kind, entry, args, o in ctx.calls:
        txt, r = native_call(nat, kind, entry, args, model, memo)
        log.append('%s -> %s' % (txt, 'PANIC' if r is None else
                                 ' '.join('%s=%s' % (k, hex(v) if isinstance(v, int) else v) for k, v in r.items())))
        res.append(r)
        if r is None:
            bad.append(('panic', txt))
        elif r.get('hang'):
            bad.append(('no answer', txt + ' within %d s' % native.LIMIT))
            return bad, log
    for label, cond, info in ctx.reqs:
        if info[0] in 'xf':
            _, i, field, want, when = info
            if res[i] is None or not conc(when, model, memo):
                continue
            if info[0] == 'x':
                w = conc(want, model, memo)
                g = res[i][field] & ((1 << W[field]) - 1)
                if w != g:
                    bad.append((label, 'got %s=%#x, expected %#x' % (field, g, w)))
            else:
                if want(res_term(res[i], field)) is not T:
                    bad.append((label, 'condition on %s fails' % field))
        elif info[0] == 'r':
            _, idx, fn, when = info
            if any(res[i] is None for i in idx) or not conc(when, model, memo):
                continue
            v = fn(*[{f: res_term(res[i], f) for f in W} for i in idx])
            if v is not T:
                bad.append((label, 'relation fails'))
        elif info[0] == 'n':
            _, fn, when = info
            if not conc(when, model, memo):
                continue
            m = fn(res, model, memo)
            if m:
                bad.append((label, m))
    return bad, log


def run_task(task, mod, natpath, seed):
    """in a worker process -> picklable result"""
    t0 = time.time()
    res = dict(name=task.name, status='undecided', why='', bound=task.bound, funcs=[], blocks=0, instrs=0, merges=0,
               queries=0, solver_s=0.0, exec_s=0.0, clauses=0, vectors=0, reach=0, obls=0, reqs=0, trivial=0)
    rng = random.Random('%s/%s' % (seed, task.name))

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(task.timeout + 30))
    ctx = Ctx(mod, task.timeout)
    nat = None
    try:
        task.script(ctx)
        t1 = time.time()
        res['exec_s'] = t1 - t0
        obls = []
        funcs = set()
        for kind, entry, args, o in ctx.calls:
            obls += o.obls
            funcs |= set(o.ex.funcs_used)
            for k in ('blocks', 'instrs', 'merges'):
                res[k] += o.ex.stats[k]
        res['funcs'] = sorted(funcs)
        res['obls'] = len(obls)
        res['reqs'] = len(ctx.reqs)
        # ---- the encoding against the real code, on sample inputs (not part of the verdict)
        nat = native.Native(natpath)
        res['vectors'], res['reach'], mism, sample = validate(ctx, nat, rng, task.vectors)
        res['sample'] = sample
        if mism:
            res['status'] = 'encoding-mismatch'
            res['why'] = mism
            return res
        # ---- the verdict
        bad = [o.cond for o in obls] + [c for _, c, _ in ctx.reqs]
        left = max(1, task.timeout - (time.time() - t0))
        goal = ors(bad)
        if task.split:
            cases = task.split(ctx)
        else:
            cases = [T]
        unknown = 0
        for cs in cases:
            left = max(1, task.timeout - (time.time() - t0))
            r, model = ctx.solver.sat(list(ctx.pre) + [cs, goal], left, abstract=task.abstract, assume=list(ctx.pre))
            if r == 'sat':
                break
            if r != 'unsat':
                unknown += 1
        st = ctx.solver.st
        if r == 'sat':
            for n, (v, kind) in ctx.inputs.items():
                model.setdefault(n, v.k[1] if not isinstance(v.k, str) else 0)
            memo = {}
            what = [(o.kind, o.where) for o in obls if conc(o.cond, model, memo)]
            what += [('requirement', l) for l, c, _ in ctx.reqs if conc(c, model, memo)]
            res['model'] = {n: model[n] for n in ctx.inputs}
            res['what'] = what[:6]
            b, log = replay(ctx, model, nat)
            res['bad'], res['log'] = b, log
            res['status'] = 'violated' if b else 'undecided' if ctx.lemma else 'not-reproduced'
            if ctx.lemma and not b:
                res['why'] = 'the step lemma fails, but its counterexample is not observable: %s' % (what[:2],)
            res['fullmodel'] = {k: v for k, v in model.items()}
        elif unknown:
            res['why'] = 'solver limit %ds' % task.timeout
        else:
            res['status'] = 'proved'
            if not res['reach']:
                # reachability witness for the assertion
                wit = bv.ors([o.pc.term() if hasattr(o.pc, 'term') else T for _, _, _, o in ctx.calls])
                r2, _ = ctx.solver.sat(list(ctx.pre) + [T], 20)
                res['reach'] = 1 if r2 == 'sat' else 0
    except Timeout:
        res['why'] = 'time limit'
    except MemoryError:
        res['why'] = 'memory'
    except Exception as e:
        res['why'] = 'not encodable: %s: %s' % (type(e).__name__, str(e)[:300])
        res['trace'] = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        st = ctx.solver.st
        res['queries'], res['solver_s'], res['clauses'], res['trivial'] = st.queries, st.time, st.clauses, st.trivial
        res['wall'] = time.time() - t0
        if nat:
            nat.close()
    return res


def validate(ctx, nat, rng, n):
    done = reach = 0
    sample = None
    tries = 0
    while done < n and tries < 40 * n:
        tries += 1
        model = {k: rnd(rng, v, kind) for k, (v, kind) in ctx.inputs.items()}
        memo = {}
        if not all(conc(p, model, memo) for p in ctx.pre):
            continue
        done += 1
        for kind, entry, args, o in ctx.calls:
            if kind == 'N':
                continue
            txt, r = native_call(nat, kind, entry, args, model, memo)
            fired = [x for x in o.obls if conc(x.cond, model, memo)]
            if (r is None) != bool(fired):
                return done, reach, '%s: real code %s, encoding %s' % (
                    txt, 'panics' if r is None else 'returns', fired[0].where if fired else 'returns'), sample
            if r is None:
                continue
            reach += 1
            if kind == 'S':
                fs = ('e', 'f')
                got = bytes(bv.evaluate([b], model, memo)[0] for b in o.bytes) if o.bytes else b''
                if got != r['bytes']:
                    return done, reach, '%s: bytes differ: %r / %r' % (txt, r['bytes'], got), sample
            else:
                fs = ('v', 'w', 'e', 'st', 'f')
            for f in fs:
                g = bv.evaluate([getattr(o, f)], model, memo)[0]
                if g != r[f] & ((1 << W[f]) - 1):
                    return done, reach, '%s: field %s real %#x, encoding %#x' % (txt, f, r[f], g), sample
            if sample is None or rng.random() < .2:
                sample = '%s -> v=%#x st=%d' % (txt, r['v'], r['st'])
    return done, reach, None, sample

"""Parser for textual LLVM IR (the subset rustc emits for integer code)."""
import re

TOK = re.compile(r'''\s*(
    c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"
  | "(?:[^"\\]|\\.)*"
  | [%@](?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9$._]+)
  | ![A-Za-z0-9_.]*
  | \#\d+
  | -?\d+(?:\.\d+(?:e[+-]?\d+)?)?
  | [A-Za-z_][-A-Za-z0-9_.$]*:?
  | \.\.\.
  | [][(){}<>,=*|:]
)''', re.X)

_tokcache = {}


def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            if s[i:].lstrip().startswith(';'):
                break
            raise Exception('lex: ' + s[i:i + 60] + ' in ' + s[:200])
        out.append(m.group(1))
        i = m.end()
    return out


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'w', 'elems', 'n', 'size', 'align', 'offs')


def _ity(w):
    t = Ty()
    t.k = 'i'
    t.w = w
    t.size = (w + 7) // 8
    a = 1
    while a < t.size and a < 16:
        a *= 2
    t.align = a
    t.size = (t.size + a - 1) // a * a if w > 8 else t.size
    return t


_ints = {}


def ity(w):
    if w not in _ints:
        _ints[w] = _ity(w)
    return _ints[w]


PTR = Ty()
PTR.k = 'p'
PTR.w = 64
PTR.size = 8
PTR.align = 8
VOID = Ty()
VOID.k = 'v'
VOID.w = 0
VOID.size = 0
VOID.align = 1
META = Ty()
META.k = 'm'
META.w = 0
META.size = 0
META.align = 1


def arr(n, e):
    t = Ty()
    t.k = 'a'
    t.n = n
    t.elems = [e]
    t.size = n * e.size
    t.align = e.align
    t.w = None
    return t


def struct(es, packed):
    t = Ty()
    t.k = 's'
    t.elems = es
    o = 0
    al = 1
    t.offs = []
    for e in es:
        a = 1 if packed else e.align
        o = (o + a - 1) // a * a
        t.offs.append(o)
        o += e.size
        al = max(al, a)
    t.size = (o + al - 1) // al * al
    t.align = al
    t.w = None
    return t


ATTR = set('''noundef nonnull zeroext signext noalias nofree nocapture readonly writeonly readnone inreg returned
 dead_on_unwind writable immarg nest swiftself allocptr allocalign nuw nsw exact disjoint nneg samesign inbounds tail
 musttail notail fastcc ccc coldcc nusw unnamed_addr local_unnamed_addr volatile dso_local hidden internal private
 external constant global immarg noreturn nounwind nuw fast'''.split())


class P:
    """token-stream parser"""

    def __init__(self, ts, mod):
        self.t = ts
        self.i = 0
        self.m = mod

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if x != y:
            raise Exception('expected %r got %r in %s' % (x, y, ' '.join(self.t)))

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x in ATTR or x is None:
                if x is None:
                    return
                self.i += 1
            elif x in ('align', 'range', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'sret', 'byval',
                       'initializes', 'addrspace', 'alignstack', 'memory', 'nofpclass', 'elementtype', 'dead_on_return'):
                self.i += 1
                if x == 'align' and self.peek() != '(':
                    self.i += 1
                elif self.peek() == '(':
                    self.skip_paren()
            elif x[0] == '#' or (x[0] == '"'):
                self.i += 1
                if self.eat('='):
                    self.i += 1
            else:
                return

    def skip_paren(self):
        d = 0
        while True:
            x = self.next()
            if x in ('(', '[', '{', '<'):
                d += 1
            elif x in (')', ']', '}', '>'):
                d -= 1
                if d == 0:
                    return

    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_paren()
            return PTR
        if x == 'void':
            return VOID
        if x == 'metadata':
            return META
        if x[0] == 'i' and x[1:].isdigit():
            return ity(int(x[1:]))
        if x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return arr(n, e)
        if x == '{':
            es = []
            while not self.eat('}'):
                es.append(self.type())
                self.eat(',')
            return struct(es, False)
        if x == '<':
            if self.eat('{'):
                es = []
                while not self.eat('}'):
                    es.append(self.type())
                    self.eat(',')
                self.expect('>')
                return struct(es, True)
            raise Exception('vector type: ' + ' '.join(self.t))
        if x[0] == '%':
            return self.m.named_type(x)
        raise Exception('type? %r in %s' % (x, ' '.join(self.t)))

    def value(self, ty):
        """-> ('l',name) | ('k',int) | ('g',name) | ('u',) | ('z',) | ('agg',[..]) | ('str',bytes) | ('gep'..)"""
        x = self.next()
        c = x[0]
        if c == '%':
            return ('l', x)
        if c == '@':
            return ('g', x)
        if c == '-' or c.isdigit():
            return ('k', int(x) & ((1 << ty.w) - 1))
        if x == 'true':
            return ('k', 1)
        if x == 'false':
            return ('k', 0)
        if x in ('undef', 'poison'):
            return ('u',)
        if x == 'null':
            return ('k', 0)
        if x == 'zeroinitializer':
            return ('z',)
        if c == 'c' and x[1:2] == '"':
            return ('str', _unesc(x[2:-1]))
        if x in ('[', '{', '<'):
            if x == '<':
                self.expect('{')
            close = {'[': ']', '{': '}', '<': '}'}[x]
            vs = []
            while not self.eat(close):
                t = self.type()
                vs.append((t, self.value(t)))
                self.eat(',')
            if x == '<':
                self.expect('>')
            return ('agg', vs)
        if x == 'getelementptr':
            self.skip_gep_flags()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                t = self.type()
                ops.append((t, self.value(t)))
                if not self.eat(','):
                    break
            self.expect(')')
            return ('gep', bt, ops)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext'):
            self.skip_attrs()
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', x, t, v, t2)
        if x in ('add', 'sub'):
            self.skip_attrs()
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(',')
            t2 = self.type()
            v2 = self.value(t2)
            self.expect(')')
            return ('bin', x, t, v, v2)
        raise Exception('value? %r in %s' % (x, ' '.join(self.t)))

    def skip_gep_flags(self):
        while True:
            x = self.peek()
            if x in ('inbounds', 'nuw', 'nusw', 'nsw'):
                self.i += 1
            elif x == 'inrange':
                self.i += 1
                self.skip_paren()
            else:
                return

    def tv(self):
        t = self.type()
        self.skip_attrs()
        if t is META:
            while self.peek() not in (',', ')', None):
                self.next()
            return t, ('u',)
        return t, self.value(t)


def _unesc(s):
    b = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                b.append(92)
                i += 2
            else:
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            b.append(ord(s[i]))
            i += 1
    return bytes(b)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'text')

    def __repr__(self):
        return '<%s %s %s>' % (self.dst, self.op, self.text[:100])


class Block:
    __slots__ = ('name', 'phis', 'ins', 'term', 'succs', 'idx', 'preds')


class Func:
    pass


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
CAST = set('zext sext trunc inttoptr ptrtoint bitcast'.split())


class Module:
    def __init__(self, text):
        self.globals = {}
        self.gtext = {}
        self.ftext = {}
        self.decl = set()
        self.types = {}
        self.ttext = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                m = re.search(r'@("(?:[^"])*"|[-A-Za-z0-9$._]+)\(', l)
                name = '@' + m.group(1)
                j = i
                while lines[j] != '}':
                    j += 1
                self.ftext[name] = (l, lines[i + 1:j])
                i = j
            elif l.startswith('@'):
                name, rest = l.split(' = ', 1)
                self.gtext[name] = rest
            elif l.startswith('declare '):
                m = re.search(r'@("(?:[^"])*"|[-A-Za-z0-9$._]+)\(', l)
                self.decl.add('@' + m.group(1))
            elif l.startswith('%') and ' = type ' in l:
                n, r = l.split(' = type ', 1)
                self.ttext[n] = r
            i += 1
        self.funcs = {}

    def named_type(self, n):
        if n not in self.types:
            self.types[n] = P(toks(self.ttext[n]), self).type()
        return self.types[n]

    def global_init(self, name):
        """-> (type, init value, constant?)"""
        if name in self.globals:
            return self.globals[name]
        r = self.gtext[name]
        p = P(toks(_strip_md(r)), self)
        cst = False
        while True:
            x = p.peek()
            if x in ('global', 'constant'):
                cst = x == 'constant'
                p.next()
                break
            p.next()
        t = p.type()
        if p.peek() in (None, ','):
            v = None
        else:
            v = p.value(t)
        self.globals[name] = (t, v, cst)
        return self.globals[name]

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self._parse_func(name)
            self.funcs[name] = f
        return f

    def _parse_func(self, name):
        head, body = self.ftext[name]
        f = Func()
        f.name = name
        # params
        s = head[head.index(name + '(') + len(name):]
        p = P(toks(_strip_md(s)), self)
        p.expect('(')
        f.params = []
        while not p.eat(')'):
            if p.eat('...'):
                continue
            t = p.type()
            p.skip_attrs()
            n = p.next()
            f.params.append((n, t))
            p.eat(',')
        blocks = []
        cur = None
        j = 0
        nl = len(body)
        while j < nl:
            l = body[j]
            j += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if l[0] != ' ':
                lab = l.split(':')[0] if l[0] != '"' else l[:l.index('"', 1) + 1]
                cur = Block()
                cur.name = '%' + lab
                cur.phis = []
                cur.ins = []
                cur.term = None
                blocks.append(cur)
                continue
            if cur is None:
                cur = Block()
                cur.name = '%0'
                cur.phis = []
                cur.ins = []
                cur.term = None
                blocks.append(cur)
            st = l.strip()
            if st.startswith('#dbg'):
                continue
            if st.startswith('switch ') and not st.rstrip().endswith(']'):
                while True:
                    st += ' ' + body[j].strip()
                    j += 1
                    if body[j - 1].strip().startswith(']'):
                        break
            ins = self._ins(st)
            if ins.op == 'phi':
                cur.phis.append(ins)
            elif ins.op in ('br', 'switch', 'ret', 'unreachable'):
                cur.term = ins
            else:
                cur.ins.append(ins)
        f.blocks = blocks
        f.bmap = {b.name: b for b in blocks}
        for i, b in enumerate(blocks):
            b.idx = i
            t = b.term
            if t.op == 'br':
                b.succs = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                b.succs = list(dict.fromkeys([t.x[0]] + [y for _, y in t.x[1]]))
            else:
                b.succs = []
            b.preds = []
        for b in blocks:
            for s in b.succs:
                f.bmap[s].preds.append(b.name)
        return f

    def _ins(self, s):
        s = _strip_md(s)
        p = P(toks(s), self)
        ins = Ins()
        ins.text = s
        ins.dst = None
        ins.x = None
        ins.ty = None
        ins.a = ()
        if p.peek()[0] == '%' and p.peek(1) == '=':
            ins.dst = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins.op = op
        if op in BIN:
            p.skip_attrs()
            t = p.type()
            ins.ty = t
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            ins.a = (a, b)
        elif op == 'icmp':
            p.skip_attrs()
            ins.x = p.next()
            t = p.type()
            ins.ty = t
            a = p.value(t)
            p.expect(',')
            ins.a = (a, p.value(t))
        elif op in CAST:
            p.skip_attrs()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            t2 = p.type()
            ins.ty = t2
            ins.x = t
            ins.a = (v,)
        elif op == 'freeze':
            t = p.type()
            ins.ty = t
            ins.a = (p.value(t),)
        elif op == 'select':
            t = p.type()
            c = p.value(t)
            p.expect(',')
            t1 = p.type()
            a = p.value(t1)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            ins.ty = t1
            ins.a = (c, a, b)
        elif op == 'phi':
            t = p.type()
            ins.ty = t
            inc = {}
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc[p.next()] = v
                p.expect(']')
                if not p.eat(','):
                    break
            ins.x = inc
        elif op == 'load':
            p.skip_attrs()
            t = p.type()
            p.expect(',')
            pt, v = p.tv()
            ins.ty = t
            ins.a = (v,)
        elif op == 'store':
            p.skip_attrs()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt, q = p.tv()
            ins.ty = t
            ins.a = (v, q)
        elif op == 'alloca':
            t = p.type()
            ins.ty = t
            n = 1
            if p.eat(','):
                if p.peek() != 'align':
                    tt = p.type()
                    vv = p.value(tt)
                    n = vv[1]
            ins.x = n
        elif op == 'getelementptr':
            p.skip_gep_flags()
            bt = p.type()
            p.expect(',')
            ops = []
            while True:
                t = p.type()
                ops.append((t, p.value(t)))
                if not p.eat(','):
                    break
            ins.x = bt
            ins.a = ops
        elif op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            ins.ty = t
            ins.a = (v,)
            ins.x = idx
        elif op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            v2 = p.value(t2)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            ins.ty = t
            ins.a = (v, v2)
            ins.x = (idx, t2)
        elif op == 'call':
            p.skip_attrs()
            t = p.type()
            ins.ty = t
            if p.peek() == '(':     # function type
                p.skip_paren()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.eat(')'):
                args.append(p.tv())
                p.eat(',')
            ins.x = callee
            ins.a = args
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                ins.x = [p.next()]
            else:
                t = p.type()
                c = p.value(t)
                p.expect(',')
                p.expect('label')
                a = p.next()
                p.expect(',')
                p.expect('label')
                b = p.next()
                ins.x = [a, b]
                ins.a = (c,)
        elif op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.eat(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cs.append((cv[1], p.next()))
            ins.ty = t
            ins.a = (v,)
            ins.x = (d, cs)
        elif op == 'ret':
            t = p.type()
            ins.ty = t
            if t is not VOID:
                ins.a = (p.value(t),)
        elif op == 'unreachable':
            pass
        else:
            raise Exception('instruction? ' + s)
        return ins


def _strip_md(s):
    # drop trailing metadata attachments
    i = 0
    n = len(s)
    q = False
    while i < n:
        c = s[i]
        if c == '"':
            q = not q
        elif not q and c == '!' and i >= 2 and s[i - 1] == ' ' and s[i - 2] in ',)':
            j = i - 1
            if s[i - 2] == ',':
                return s[:i - 2]
            return s[:j]
        i += 1
    return s


# ------------------------------------------------------------------ CFG analyses
class CFG:
    """Loop-contiguous topological order, (post)dominators over non-trap blocks."""

    def __init__(self, f):
        bm = f.bmap
        names = [b.name for b in f.blocks]
        entry = names[0]
        # dead (trap-only) blocks: every path reaches unreachable
        alive = set()
        work = [n for n in names if bm[n].term.op == 'ret']
        while work:
            n = work.pop()
            if n in alive:
                continue
            alive.add(n)
            work.extend(bm[n].preds)
        self.alive = alive
        # reachable
        reach = set()
        work = [entry]
        while work:
            n = work.pop()
            if n in reach:
                continue
            reach.add(n)
            work.extend(bm[n].succs)
        # dfs postorder
        order = []
        seen = {entry}
        st = [(entry, iter(bm[entry].succs))]
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(bm[s].succs)))
                    break
            else:
                order.append(n)
                st.pop()
        rpo = order[::-1]
        self.idom = idoms(rpo, {n: bm[n].succs for n in rpo}, {n: [p for p in bm[n].preds if p in reach] for n in rpo})
        # natural loops
        num = {n: i for i, n in enumerate(rpo)}
        loops = {}
        for n in rpo:
            for s in bm[n].succs:
                if self.dominates(s, n):
                    body = loops.setdefault(s, {s})
                    work = [n]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in bm[x].preds if p in reach)
                elif num[s] <= num[n]:
                    raise Exception('irreducible CFG in ' + f.name)
        self.loops = loops
        # innermost loop header for each block
        self.inner = {}
        for n in rpo:
            best = None
            for h, b in loops.items():
                if n in b and (best is None or len(b) < len(loops[best])):
                    best = h
            self.inner[n] = best
        self.parent = {}
        for h in loops:
            best = None
            for h2, b in loops.items():
                if h2 != h and h in b and (best is None or len(b) < len(loops[best])):
                    best = h2
            self.parent[h] = best
        # contiguous order
        pos = []

        def emit(region_header, members):
            # members: set of blocks of this region (loop body or whole function)
            # collapse inner loops whose parent is region_header
            rep = {}
            for n in members:
                h = self.inner[n]
                if h == region_header:
                    rep[n] = n
                else:
                    while self.parent[h] != region_header:
                        h = self.parent[h]
                    rep[n] = h
            nodes = set(rep.values())
            succ = {n: set() for n in nodes}
            indeg = {n: 0 for n in nodes}
            for n in members:
                for s in bm[n].succs:
                    if s in members and s != region_header and rep[s] != rep[n]:
                        if rep[s] not in succ[rep[n]]:
                            succ[rep[n]].add(rep[s])
                            indeg[rep[s]] += 1
            import heapq
            hp = [(num[n], n) for n in nodes if indeg[n] == 0]
            heapq.heapify(hp)
            cnt = 0
            while hp:
                _, n = heapq.heappop(hp)
                cnt += 1
                if n in loops and n != region_header:
                    emit(n, loops[n])
                else:
                    pos.append(n)
                for s in succ[n]:
                    indeg[s] -= 1
                    if indeg[s] == 0:
                        heapq.heappush(hp, (num[s], s))
            if cnt != len(nodes):
                raise Exception('topo failure in ' + f.name)
        emit(None, set(rpo))
        self.pos = {n: i for i, n in enumerate(pos)}
        self.end = {}
        for h, b in loops.items():
            self.end[h] = max(self.pos[x] for x in b)
            assert self.end[h] - self.pos[h] + 1 == len(b)
        # postdominators on alive part
        al = [n for n in rpo if n in alive]
        EX = '!exit'
        succs = {n: [s for s in bm[n].succs if s in alive] for n in al}
        for n in al:
            if bm[n].term.op == 'ret':
                succs[n] = [EX]
        preds = {n: [] for n in al}
        preds[EX] = []
        for n in al:
            for s in succs[n]:
                preds[s].append(n)
        succs[EX] = []
        # reverse postorder on reversed graph
        order = []
        seen = {EX}
        st = [(EX, iter(preds[EX]))]
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(preds[s])))
                    break
            else:
                order.append(n)
                st.pop()
        rr = order[::-1]
        self.ipdom = idoms(rr, preds, succs)

    def dominates(self, a, b):
        while b is not None:
            if a == b:
                return True
            b = self.idom[b]
        return False

    def postdominates(self, a, b):
        if b not in self.ipdom:
            return False
        while b is not None:
            if a == b:
                return True
            b = self.ipdom[b]
        return False


def idoms(rpo, succs, preds):
    num = {n: i for i, n in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in preds[n]:
                if p in idom and p in num:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new
                ch = True
    idom[rpo[0]] = None
    return idom

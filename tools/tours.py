"""Histories that walk through the transition graph of a structural specification.

TLC prints every transition of AvlCow, BtCow or StackCow (Emit = TRUE).  From
that graph this builds scripts for the driver: walks from the initial state
that take every transition (or a sample of them), and that stop at every state
they see for the first time to look at it (hooks).  What the walks must show is
judged by Trace.tla alone; the graph only says where to go."""
import random, re, sys
from collections import deque

LINE = re.compile(r'^"<<\\"([IT])\\", (.*)>>"$', re.M)


def value(s):
    """a TLA+ value printed by ToString: tuples, sets, integers, strings"""
    s = re.sub(r'(\d+)\.\.(\d+)', lambda m: '{' + ', '.join(str(i) for i in range(int(m[1]), int(m[2]) + 1)) + '}', s)
    s = s.replace('\\"', '"').replace('<<', '(').replace('>>', ',)').replace('{', '(').replace('}', ',)')
    return eval(s.replace('(,)', '()'), {'__builtins__': {}})


class Graph:
    def __init__(self, text):
        self.num, self.adj, self.init, self.transitions = {}, [], None, 0
        for k, body in LINE.findall(text):
            if k == 'I':
                self.init = self.state(value('(' + body + ',)')[0])
                continue
            a, op, b, cp = value('(' + body + ',)')
            a, b = self.state(a), self.state(b)
            self.adj[a].append((op, b, cp))
            self.transitions += 1
        for a in range(len(self.adj)):  # a fixed order, whatever the number of workers
            self.adj[a].sort(key=repr)

    @property
    def iterates(self):
        return any(op[0] in ITER for l in self.adj for op, _, _ in l)

    def under(self, begin):
        """the states in which an iterator is under way that a `begin` operation started"""
        todo, seen = [t for l in self.adj for op, t, _ in l if op[0] in ITER[:2] and begin(op)], set()
        while todo:
            s = todo.pop()
            if s not in seen:
                seen.add(s)
                todo += [t for op, t, _ in self.adj[s] if op[0] != 'iend']
        return seen

    def without(self, bad):
        """leave out operations that a type does not have; the iterator came from a range and only that?"""
        r, p = self.under(lambda op: op[0] == 'irange'), self.under(lambda op: op[0] != 'irange')
        h = Graph('')
        h.num, h.init, h.transitions = self.num, self.init, self.transitions
        h.adj = [[x for x in l if not bad(x[0], s in r and s not in p)] for s, l in enumerate(self.adj)]
        return h

    def state(self, c):
        if c not in self.num:
            self.num[c] = len(self.adj)
            self.adj.append([])
        return self.num[c]

    def reorder(self):
        """number the states by breadth first search, so that numbers do not depend on TLC's schedule"""
        names = {v: k for k, v in self.num.items()}
        order, seen, q = [], {self.init}, deque([self.init])
        while q:
            s = q.popleft()
            order.append(s)
            for _, t, _ in sorted(self.adj[s], key=lambda x: repr(x[0])):
                if t not in seen:
                    seen.add(t)
                    q.append(t)
        new = {s: i for i, s in enumerate(order)}
        self.adj = [sorted(((op, new[t], cp) for op, t, cp in self.adj[s]), key=lambda x: repr(x[0])) for s in order]
        self.num = {names[s]: i for s, i in new.items()}
        self.init = 0
        return self


def walks(g, rng, targets, maxlen):
    """Yield walks [(source, op, target, copies)] from the initial state that take
    every transition of `targets` (a set of (state, index))."""
    todo = {}
    for s, i in targets:
        todo.setdefault(s, []).append(i)
    for l in todo.values():
        rng.shuffle(l)
    rev = {}
    for s, l in enumerate(g.adj):
        for i, (_, t, _) in enumerate(l):
            if t != s:
                rev.setdefault(t, {}).setdefault(s, []).append(i)
    field = {}

    def refresh():
        field.clear()
        q = deque(s for s in todo)
        for s in q:
            field[s] = None
        while q:
            t = q.popleft()
            for s, il in rev.get(t, {}).items():
                if s not in field:
                    field[s] = rng.choice(il)
                    q.append(s)
    def near(s, limit=400):
        """the way to the nearest state with something to do, if it is not far"""
        back, q = {s: None}, deque([s])
        while q and len(back) < limit:
            a = q.popleft()
            for i, (_, t, _) in enumerate(g.adj[a]):
                if t not in back:
                    back[t] = (a, i)
                    if t in todo:
                        path = []
                        while back[t] is not None:
                            t, i = back[t]
                            path.append((t, i))
                        return path
                    q.append(t)
        return []

    refresh()
    path = []
    while todo:
        w, s, path = [], g.init, []
        if s not in field:
            refresh()
            if s not in field:
                return
        while len(w) < maxlen and todo:
            l = todo.get(s)
            if l:
                i = l.pop()
                if not l:
                    del todo[s]
            else:
                i = path.pop()[1] if path else field.get(s)
                if i is None:
                    path = near(s)
                    if path:
                        i = path.pop()[1]
                if i is None:
                    refresh()
                    i = field.get(s)
                    if i is None:
                        break
            op, t, cp = g.adj[s][i]
            w.append((s, op, t, cp))
            s = t
        yield w


# ---------------------------------------------------------------- scripts
class Key:
    __slots__ = ('pos',)

    def __init__(self, pos=0):
        self.pos = pos


class O:  # the ord of a key, or a place next to it
    __slots__ = ('k', 'd')

    def __init__(self, k, d=0):
        self.k, self.d = k, d

    def __str__(self):
        return str(self.k.pos + self.d)


class KK(O):  # a key instance
    __slots__ = ()

    def __str__(self):
        return str(self.k.pos * 100 + self.d)


ITER = ('ibeg', 'irange', 'inext', 'iback', 'iend')
# which iterators a property is about
BEGINS = {
    'C05': lambda op: op[0] == 'irange', 'C18': lambda op: 'mut' in op,
    'C09': lambda op: op[-1] in ('own', 'arc', 'uni'), 'C02': lambda op: op[-1] in ('own', 'arc', 'uni', 'mut'),
}
SCHED_ONE = [0, 0, 0, 0, 1, 1, 1, 1, 10, 11, 12, 20, 21, 22, 40, 41, 50, 51]
SCHED_END = [30, 31, 32, 33, 34]


class Writer:
    """One history: keeps the contents the specification gives each handle."""

    def __init__(self, rng, ty, kind, shape, pid, hook_rate):
        self.rng, self.ty, self.kind, self.shape, self.pid = rng, ty, kind, shape, pid
        self.lines, self.c, self.order, self.v = [], {1: []}, [], 0
        self.fam = 'avl' if kind.startswith('avl') else 'fx' if kind.startswith('fx') else 'stack' if kind == 'stack' else 'bt'
        self.keys = {}
        self.hook_rate = hook_rate
        self.it = None  # an iterator under way: mode, its line so far, steps, copies foretold, as a cursor?
        self.lines.append(['R', ty, kind])
        self.put('new', 1)

    def put(self, *t, cp=None):
        l = list(t)
        if cp is not None:
            l.append('@%d' % cp)
        self.lines.append(l)

    def text(self):
        self.flush()
        for i, k in enumerate(self.order):
            k.pos = 10 * (i + 1)
        return '\n'.join(' '.join(map(str, l)) for l in self.lines) + '\n'

    def val(self):
        self.v = self.v % 99990 + 1
        return self.v

    def tag(self):
        return self.rng.randrange(4)

    def key(self, h, k):
        """the key the specification calls k: itself, or by rank in a shape graph"""
        if self.shape:
            return self.c[h][k - 1]
        if k not in self.keys:
            self.keys[k] = Key(10 * k)
        return self.keys[k]

    def place(self, h, k):
        """-> (index, present)"""
        l = self.c[h]
        for i, x in enumerate(l):
            if x is k:
                return i, True
            if x.pos > k.pos:
                return i, False
        return len(l), False

    def gap_key(self, h, i):
        l = self.c[h]
        a = self.order.index(l[i - 1]) + 1 if i > 0 else 0
        b = self.order.index(l[i]) if i < len(l) else len(self.order)
        if a < b and self.rng.random() < 0.5:
            return self.order[self.rng.randrange(a, b)]
        k = Key()
        self.order.insert(self.rng.randrange(a, b + 1), k)
        return k

    # ------------------------------------------------------- iterators
    def do_ibeg(self, cp, h, mode):
        n = len(self.c[h])
        if mode in ('ref', 'mut'):
            self.it = dict(h=h, steps=[], cp=cp, shadow=None)
            if self.ty == 'set':
                self.it['line'] = ['it', h, self.rng.randrange(2)]
            elif self.ty == 'stack':
                self.it['line'] = ['it', h, 1000 if mode == 'mut' else 0]
            elif mode == 'ref':
                self.it['line'] = ['it', h, 'iter' if self.fam == 'fx' else self.rng.choice(['iter', 'refiter', 'keys', 'values'])]
            else:
                self.it['line'] = ['itm', h, 'itermut' if self.fam == 'fx' else self.rng.choice(['itermut', 'mutiter', 'valuesmut']), 1000]
            return
        g = h
        if mode in ('arc', 'uni'):  # over a clone
            g = self.free()[0]
            self.put('clone', h, g)
            if mode == 'uni':
                if self.ty == 'map':
                    self.put('itm', h, 'itermut', 1000, *([0] * n))
                else:  # nothing writes every entry of a set: as it comes
                    cp = None
        else:
            del self.c[h]
        w = [self.into_kind()] if self.ty == 'map' else []
        if w and w[0] != 'intoiter':
            cp = None
        self.it = dict(h=g, steps=[], cp=cp, w=w, cursor=False)
        if self.rng.random() < 0.5:
            self.as_cursor()

    def as_cursor(self):
        """a consuming iterator that other operations go on beside"""
        t = self.it
        t['cursor'] = True
        self.put('cnew', t['h'], 1, *t['w'])
        for c in t['steps']:
            self.put('cstep', 1, c)

    def do_irange(self, cp, h, mode, lo, hi):
        a, b = self.place_of(h, lo), self.place_of(h, hi)
        self.it = dict(h=h, steps=[], cp=cp, line=['range', h, *a, *b] + ([] if self.ty == 'set' else [1000 if mode == 'mut' else 0]))

    def place_of(self, h, b):
        """a bound of the specification: place 2k is key k, odd places are between keys"""
        t, p = b
        if t == 0:
            return 0, 0
        if self.shape and not self.c[h]:
            return t, 5
        if p == 1:
            return t, O(self.key(h, 1), -3)
        return t, O(self.key(h, p // 2), 3 * (p % 2))

    def step(self, code, cp):
        t = self.it
        t['steps'].append(code)
        if t.get('cursor'):
            self.put('cstep', 1, code, cp=cp if t['cp'] is not None else None)
        elif cp is None:
            t['cp'] = None
        elif t['cp'] is not None:
            t['cp'] += cp

    def do_inext(self, cp):
        self.step(0, cp)

    def do_iback(self, cp):
        self.step(1, cp)

    def do_iend(self, cp):
        if cp is None:
            self.it['cp'] = None
        self.flush()

    def flush(self):
        t, self.it = self.it, None
        if t is None:
            return
        if 'w' not in t:
            self.put(*t['line'], *t['steps'], cp=None if t['line'][0] == 'it' or self.ty == 'set' else t['cp'])
        elif t['cursor']:
            self.put('cdrop', 1)
        else:
            self.put('into', t['h'], *t['w'], *t['steps'])

    # ------------------------------------------------------- operations
    def op(self, op, cp):
        if self.it is not None and op[0] not in ITER and not self.it.get('cursor'):
            self.as_cursor()
        getattr(self, 'stack_' + op[0] if self.ty == 'stack' and op[0] not in ITER else 'do_' + op[0])(cp, *op[1:])

    def kk(self, k):
        return KK(k, self.tag())

    def ins(self, h, k, cp):
        r, v = self.rng, self.val()
        i, there = (None, None) if self.shape else self.place(h, k)
        x = r.random()
        if self.ty == 'set':
            if x < 0.5:
                self.put('ins' if not there else 'repl', h, self.kk(k), cp=cp if not there else None)
            elif x < 0.65:
                self.put('ext', h, self.rng.randrange(2) if self.fam == 'avl' else 0, self.kk(k))
            elif x < 0.8:
                self.put('repl', h, self.kk(k))
            else:
                self.put('seq', h, 0, self.kk(k), 0)
        elif x < 0.6:
            self.put('ins', h, self.kk(k), v, cp=cp)
        elif x < 0.7:
            self.put('seq', h, 0, self.kk(k), v)
        elif x < 0.85 and self.fam != 'fx' and not there:
            self.put('entry', h, self.kk(k), 0, 0, r.choice([2, 3, 4, 5]), v)
        else:
            self.put('ext', h, r.randrange(2) if self.fam == 'avl' else 0, self.kk(k), v)

    def do_ins(self, cp, h, k, _v):
        k = self.key(h, k)
        self.ins(h, k, cp)
        i, there = self.place(h, k)
        if not there:
            self.c[h].insert(i, k)

    def do_insg(self, cp, h, i):
        k = self.gap_key(h, i)
        self.ins(h, k, cp)
        self.c[h].insert(i, k)

    def do_rem(self, cp, h, k):
        k = self.key(h, k)
        x = self.rng.random()
        if x < 0.6:
            self.put('rem', h, O(k), cp=cp)
        elif x < 0.8 and (self.fam == 'avl' or self.ty == 'set'):
            self.put('take' if self.ty == 'set' else 'reme', h, O(k), cp=cp)
        else:
            self.put('seq', h, 1, O(k), 0)
        if k in self.c[h]:
            self.c[h].remove(k)

    def pop(self, cp, h, last):
        l = self.c[h]
        if self.fam == 'fx':
            if l:
                self.put('rem', h, O(l[-1 if last else 0]))
        elif self.rng.random() < 0.8:
            self.put('popl' if last else 'popf', h, cp=cp)
        else:
            self.put('seq', h, 4 if last else 3, 0, 0)
        if l:
            l.pop(-1 if last else 0)

    def do_popf(self, cp, h):
        self.pop(cp, h, False)

    def do_popl(self, cp, h):
        self.pop(cp, h, True)

    def do_getm(self, cp, h, k):
        k = self.key(h, k)
        there = k in self.c[h]
        if self.ty == 'set':
            if there:
                self.put('repl', h, self.kk(k))
            else:
                self.put('rem', h, O(k))
        elif self.rng.random() < 0.2 and self.fam != 'fx' and there:
            self.put('entry', h, self.kk(k), 1, 7, 0, 0)
        else:
            self.put('getm', h, O(k), 1000, cp=cp)

    def do_itm(self, cp, h):
        l = self.c[h]
        if self.ty == 'set':
            if l:
                self.put('seq', h, *[t for k in l for t in (5, self.kk(k), 0)])
            return
        r = self.rng.random()
        w = 'itermut' if self.fam == 'fx' else self.rng.choice(['itermut', 'mutiter', 'valuesmut'])
        if self.fam != 'fx' and r < 0.15:
            self.put('range', h, 0, 0, 0, 0, 1000, *([0] * len(l)), 0)
        elif self.fam == 'avl' and r < 0.3:
            self.put('fe', h, 1000)
        else:
            self.put('itm', h, w, 1000, *self.schedule(len(l), True))

    def do_clear(self, cp, h):
        self.put('clear', h, cp=cp)
        self.c[h] = []

    def do_clone(self, cp, h, g):
        self.put('clone', h, g, cp=cp)
        self.c[g] = list(self.c[h])

    def do_assign(self, cp, h, g):
        self.put('assign', h, g, cp=cp)
        self.c[g] = list(self.c[h])

    def do_drop(self, cp, h):
        if self.rng.random() < 0.7 or self.ty == 'stack':
            self.put('drop', h)
        else:
            self.into(h, len(self.c[h]))
        del self.c[h]

    def into_kind(self):
        return 'intoiter' if self.fam == 'fx' else self.rng.choice(['intoiter', 'intoiter', 'intokeys', 'intovalues'])

    def do_new(self, cp, h):
        self.put('new', h)
        self.c[h] = []

    def do_split(self, cp, h, k, g):
        k = self.key(h, k)
        i, there = self.place(h, k)
        d = -5 if self.rng.random() < 0.3 else 0
        self.put('split', h, O(k, d), g)
        self.c[g] = self.c[h][i:]
        self.c[h] = self.c[h][:i]

    def cut(self, h, k, low):
        k = self.key(h, k)
        i = k and self.c[h].index(k)
        self.put('split', h, O(k, self.rng.choice([0, 0, -3])), 2)
        if low:
            self.put('drop', 2)
            self.c[h] = self.c[h][:i]
        else:
            self.put('drop', h)
            self.put('clone', 2, h)
            self.put('drop', 2)
            self.c[h] = self.c[h][i:]

    def do_splitlo(self, cp, h, k):
        self.cut(h, k, True)

    def do_splithi(self, cp, h, k):
        self.cut(h, k, False)

    def do_merge(self, cp, h, g, w):
        self.put('merge', h, g, w)
        a, b = self.c[h], self.c.pop(g)
        s = [set(a) | set(b), set(a) & set(b), set(a) - set(b), set(a) ^ set(b)][w]
        self.c[h] = sorted(s, key=lambda k: k.pos)

    def do_append(self, cp, h, g):
        self.put('app', h, g)
        self.c[h] = sorted(set(self.c[h]) | set(self.c[g]), key=lambda k: k.pos)
        self.c[g] = []

    def do_join(self, cp, h, k, _v, g):
        k = self.key(h, k)
        if self.ty == 'set':
            self.put('ins', h, self.kk(k))
            self.put('app', h, g)
            self.put('drop', g)
        else:
            self.put('join', h, self.kk(k), self.val(), g)
        self.c[h] = self.c[h] + [k] + self.c.pop(g)

    def do_ret(self, cp, h, ranks):
        l = self.c[h]
        kept = [l[i - 1] for i in sorted(ranks)]
        if self.ty == 'set':
            self.put('retk', h, *map(O, kept))
        else:
            self.put('retk', h, self.rng.choice([0, 3]), *map(O, kept))
        self.c[h] = kept

    # stacks: contents are bottom first, elements are only counted
    def stack_push(self, cp, h):
        self.put('push', h, self.val(), cp=cp)
        self.c[h].append(0)

    def stack_pop(self, cp, h):
        self.put('pop', h, cp=cp)
        self.c[h][-1:] = []

    def stack_topm(self, cp, h):
        self.put('topm', h, 1000, cp=cp)

    def stack_remi(self, cp, h, i):
        self.put('remi', h, i, cp=cp)
        self.c[h].pop()

    def stack_split(self, cp, h, i, g):
        self.put('split', h, i, g, cp=cp)
        self.c[g] = self.c[h][i:]
        self.c[h] = self.c[h][:i]

    def stack_itm(self, cp, h, j):
        self.put('it', h, 1000, *([0] * j), cp=cp)

    stack_clear, stack_clone, stack_assign, stack_drop, stack_new = do_clear, do_clone, do_assign, do_drop, do_new

    # ------------------------------------------------------------ hooks
    def schedule(self, n, ref, end=True): # ref: double-ended
        """a random interleaving of front and back steps"""
        r, out, left = self.rng, [], n + 2
        one = [0, 1] if r.random() < 0.6 else SCHED_ONE
        mode = r.random()
        if mode < 0.2:
            one = [0]
        elif mode < 0.4:
            one = [1]
        while left > 0 and len(out) < n + 6:
            if n > 2 and r.random() < 0.03:
                break
            c = r.choice(one)
            out.append(c)
            left -= 1 + (c % 10 if 10 <= c < 30 else 0)
        if end and r.random() < 0.3:
            out.insert(r.randrange(len(out) + 1), r.choice(SCHED_END))
            out = out[:out.index(next(c for c in out if 30 <= c < 40)) + 1]
        if not ref:
            out = [0 if c == 1 else c - 10 if 20 <= c < 30 or 50 <= c else 32 if c == 33 else c for c in out]
        return out

    def double_ended(self):
        return self.ty != 'stack' and self.kind != 'avls'

    def gaps(self, l):
        """ords: every key and every gap"""
        if not l:
            return ['5']
        return [O(l[0], -3)] + [x for k in l for x in (O(k), O(k, 3))]

    def bound(self, l):
        r = self.rng
        if r.random() < 0.15:
            return (0, 0)
        return (r.choice([1, 2]), r.choice(self.gaps(l)))

    def free(self):
        return [h for h in (5, 4, 3, 2) if h not in self.c]

    def look(self):
        """called in every state the walks see for the first time"""
        f = HOOKS_STACK if self.ty == 'stack' else HOOKS_SET if self.ty == 'set' else HOOKS_FX if self.fam == 'fx' else HOOKS_MAP
        hooks = f.get(self.pid, f['*'])
        for name in hooks:
            for h in sorted(self.c):
                if self.rng.random() < self.hook_rate * hooks[name]:
                    getattr(self, 'see_' + name)(h)

    def see_probe(self, h):
        self.put('probe', h, *self.gaps(self.c[h]))

    def see_it(self, h):
        if self.ty == 'set':
            self.put('it', h, self.rng.randrange(2), *self.schedule(len(self.c[h]), self.double_ended()))
        elif self.ty == 'stack':
            self.put('it', h, 0, *self.schedule(len(self.c[h]), False))
        else:
            self.put('it', h, 'iter' if self.fam == 'fx' else self.rng.choice(['iter', 'refiter', 'keys', 'values']), *self.schedule(len(self.c[h]), True))

    def see_itm(self, h):
        w = 'itermut' if self.fam == 'fx' else self.rng.choice(['itermut', 'mutiter', 'valuesmut'])
        g = self.free()[0]
        self.put('clone', h, g)
        self.put('itm', g, w, 1000, *self.schedule(len(self.c[h]), True))
        self.put('drop', g)

    def into(self, g, n):
        sc = self.schedule(n, self.double_ended())
        if self.ty == 'map':
            self.put('into', g, self.into_kind(), *sc)
        else:
            self.put('into', g, *sc)

    def see_into(self, h): # consuming a clone: everything shared
        g = self.free()[0]
        self.put('clone', h, g)
        self.into(g, len(self.c[h]))

    def see_cursor(self, h): # consuming a clone step by step while the original changes
        g = self.free()[0]
        n = len(self.c[h])
        self.put('clone', h, g)
        if self.ty == 'map':
            self.put('cnew', g, 1, self.into_kind())
        else:
            self.put('cnew', g, 1)
        for i in range(self.rng.randrange(n + 2)):
            back = self.rng.random() < 0.5 and self.ty != 'stack' and self.kind != 'avls'
            self.put('cstep', 1, 1 if back else 0)
        self.put('cdrop', 1)

    def see_range(self, h):
        l = self.c[h]
        for _ in range(2):
            for _ in range(8):
                a, b = self.bound(l), self.bound(l)
                if not l or a[0] == 0 or b[0] == 0 or self.rank(l, a[1]) <= self.rank(l, b[1]):
                    break
            else:
                continue
            sc = self.schedule(len(l), True)
            if self.ty == 'set':
                self.put('range', h, *a, *b, *sc)
            elif self.rng.random() < 0.4:
                g = self.free()[0]
                self.put('clone', h, g)
                self.put('range', g, *a, *b, 1000, *sc)
                self.put('drop', g)
            else:
                self.put('range', h, *a, *b, 0, *sc)

    def rank(self, l, o):
        return 2 * l.index(o.k) + (o.d > 0) - (o.d < 0) if isinstance(o, O) else 0

    def see_split(self, h):
        f = self.free()
        if len(f) < 2:
            return
        a, b = f[:2]
        self.put('clone', h, a)
        self.put('split', a, self.rng.choice(self.gaps(self.c[h])), b)
        if self.rng.random() < 0.3:
            self.put('app', a, b)
        elif self.rng.random() < 0.5 and self.fam == 'avl':
            self.put('merge', b, a, self.rng.randrange(4))
            self.put('drop', b)
            return
        self.put('drop', a)
        self.put('drop', b)

    def see_entry(self, h):
        if self.fam == 'fx':
            return
        g = self.free()[0]
        self.put('clone', h, g)
        for _ in range(2):
            a = self.rng.choice([(0, 0), (0, 0), (1, 7)])
            b = self.rng.choice([(1, 11), (2, self.val()), (3, self.val()), (4, 0), (5, 0), (6, 0), (0, 0)])
            if self.rng.random() < 0.3:
                self.put('ee', g, self.rng.randrange(2), *a, *b)
            else:
                o = self.rng.choice(self.gaps(self.c[h]))
                k = KK2(o, self.tag())
                self.put('entry', g, k, *a, *b)
        self.put('drop', g)

    def see_rel(self, h):
        """against the same entries put together in another way, or another handle"""
        f = self.free()
        o = [x for x in self.c if x != h]
        if o and self.rng.random() < 0.5:
            self.put('rel', h, self.rng.choice(o))
            return
        g = f[0]
        l = list(self.c[h])
        self.rng.shuffle(l)
        if self.ty == 'stack':
            self.put('clone', h, g)
        elif self.ty == 'set':
            self.put('from', g, 0, *[KK(k, 0) for k in l])
        else:
            self.put('from', g, 0, *[t for k in l for t in (KK(k, 0), 1)])
        self.put('rel', h, g)
        self.put('rel', g, h)
        self.put('drop', g)

    def see_serde(self, h):
        self.put('ser', h)
        g = self.free()[0]
        l = list(self.c[h])
        if self.rng.random() < 0.4:
            self.rng.shuffle(l)
        hint = self.rng.choice([-1, len(l), len(l), 0, len(l) + 1, max(len(l) - 1, 0), 2 * len(l) + 3])
        ents = [KK(k, self.tag()) for k in l]
        if l and self.rng.random() < 0.2:
            ents.append(KK(self.rng.choice(l), self.tag()))
        self.put('de', g, hint, -1, *[t for k in ents for t in (k, 0 if self.ty == 'set' else self.val())])
        self.put('drop', g)

    def see_setops(self, h):
        for g in self.c:
            if g != h or self.rng.random() < 0.1:
                x = self.rng.random()
                n = self.free()[0]
                if x < 0.35:
                    self.put('oper', h, g, self.rng.randrange(4), n)
                    self.put('drop', n)
                elif x < 0.65:
                    self.put('lazy', h, g, self.rng.randrange(4), *([0] * self.rng.randrange(len(self.c[h]) + len(self.c[g]) + 2)))
                else:
                    self.put('relns', h, g)

    def see_foreach(self, h):
        if self.fam != 'avl' or self.ty != 'map':
            return
        g = self.free()[0]
        self.put('clone', h, g)
        self.put('fe', g, 1000 if self.rng.random() < 0.7 else 0)
        self.put('drop', g)

    def see_inject(self, h):
        if h == 1:
            self.put('inject', self.rng.randrange(1 << 30), len(self.c[h]) * 10 + 10)


class KK2:
    def __init__(self, o, tag):
        self.o, self.tag = o, tag

    def __str__(self):
        return str(int(str(self.o)) * 100 + self.tag)


HOOKS_MAP = {
    'C01': dict(probe=1, it=0.3), 'C02': dict(cursor=0.6, into=0.4, it=0.2, itm=0.4), 'C03': dict(split=1, it=0.2),
    'C04': dict(it=1, itm=1, into=1, cursor=0.6), 'C05': dict(range=1), 'C07': dict(probe=1), 'C08': dict(probe=0.2, into=0.2, range=0.2),
    'C09': dict(into=1, cursor=1), 'C12': dict(rel=1), 'C13': dict(serde=1), 'C14': dict(inject=1), 'C17': dict(entry=1), 'C18': dict(itm=1, range=0.6, foreach=1),
    '*': dict(probe=0.5, it=0.5, into=0.5, itm=0.5),
}
HOOKS_SET = {
    'C06': dict(setops=1), 'C04': dict(it=1, into=1, cursor=0.6), 'C05': dict(range=1), 'C09': dict(into=1, cursor=1), 'C12': dict(rel=1), 'C13': dict(serde=1),
    'C14': dict(inject=1), 'C19': dict(probe=1), 'C02': dict(cursor=0.6, into=0.4, it=0.2, setops=0.5), '*': dict(probe=0.5, it=0.5, into=0.5),
}
HOOKS_FX = {'*': dict(probe=1, it=0.5, itm=0.5, into=0.7, cursor=0.5), 'C14': dict(inject=1)}
HOOKS_STACK = {'C12': dict(rel=1), '*': dict(it=0.6, into=0.6, cursor=0.6, rel=0.3)}


def script(g, ty, kind, shape, pid, seed, shard, shards, sample, maxlen=100, hook_rate=1.0):
    """-> (text, transitions aimed at, transitions taken, states looked at)"""
    rng = random.Random(f'{seed}/{pid}/{kind}')
    one_ended = ty == 'stack' or kind == 'avls'
    if one_ended or kind.startswith('fx'):
        g = g.without(lambda op, ranged: op[0] == 'iback' and one_ended and not ranged or op[0] == 'irange' and kind.startswith('fx'))
    alltr = [(s, i) for s in range(len(g.adj)) for i in range(len(g.adj[s]))]
    if g.iterates:  # the building has graphs of its own
        begin = BEGINS.get(pid, lambda op: True)
        under = g.under(begin)
        alltr = [(s, i) for s, i in alltr if s in under or g.adj[s][i][0][0] in ITER[:2] and begin(g.adj[s][i][0])]
    if sample and sample < len(alltr):
        alltr = rng.sample(alltr, sample)
    mine = {x for x in alltr if x[0] % shards == shard}
    rng = random.Random(f'{seed}/{pid}/{kind}/{shard}')
    seen, taken, out = set(), set(), []
    for w in walks(g, rng, mine, maxlen):
        wr = Writer(rng, ty, kind, shape, pid, hook_rate)
        # half of the walks through a shape graph share their storage with a clone
        shadow = shape and pid != 'C14' and rng.random() < 0.5
        for s, op, t, cp in w:
            if shadow:
                x = rng.random()
                if x < 0.2 and 3 in wr.c:
                    wr.put('drop', 3)
                    del wr.c[3]
                if x < 0.15 and 1 in wr.c:
                    wr.do_clone(None, 1, 3)
            wr.op(op, None if 3 in wr.c and shape else cp)
            taken.add((s, op))
            if t not in seen and t % shards == shard:
                seen.add(t)
                if wr.it is None:
                    wr.look()
        out.append(wr.text())
    return ''.join(out), len(mine), len(taken), len(seen)

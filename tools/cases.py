"""Scripts that play the cases TLC prints for Cases.tla on the driver."""
import random, re
from tours import value

LINE = re.compile(r'^"<<\\"C\\", (.*)>>"$', re.M)


def parse(text):
    return sorted((value('(' + b + ',)')[0] for b in LINE.findall(text)), key=repr)


class Play:
    def __init__(self, rng, ty, kind):
        self.rng, self.ty, self.kind = rng, ty, kind
        self.avl = kind.startswith('avl')
        self.one_ended = kind == 'avls' or ty == 'stack'
        self.lines = []

    def put(self, *t):
        self.lines.append(' '.join(map(str, t)))

    def kk(self, o):
        return o * 100 + self.rng.randrange(4)

    def blow(self, a, m):
        """every key becomes m adjacent keys"""
        return [(10 * (e[0] // 100) + j, e[1]) for e in a for j in range(m)]

    def make(self, h, ents):
        """a collection with these entries, put together in some way"""
        r = self.rng
        l = list(ents)
        r.shuffle(l)
        flat = [self.kk(o) for o, _ in l] if self.ty == 'set' else [x for o, v in l for x in (self.kk(o), v)]
        w = r.random()
        if w < 0.3:
            self.put('from', h, int(len(l) in (0, 1, 2, 3, 5) and r.random() < 0.5), *flat)
        else:
            self.put('new', h)
            if w < 0.6:
                self.put('ext', h, r.randrange(2) if self.avl else 0, *flat)
            else:
                extra = [o + 5 for o, _ in l if r.random() < 0.4]
                for o in extra:
                    self.put('ins', h, self.kk(o), *([] if self.ty == 'set' else [9]))
                n = 1 if self.ty == 'set' else 2
                for i in range(0, len(flat), n):
                    self.put('ins', h, *flat[i:i + n])
                for o in extra:
                    self.put('rem', h, o)
        if r.random() < 0.25:  # shared storage
            self.put('clone', h, 5)
            self.put('drop', 5)

    def steps(self, n):
        r = self.rng
        if r.random() < 0.6:
            return [0] * (n + 2)
        return [r.choice([0, 0, 10, 11, 40, 41]) for _ in range(n)] + [r.choice([30, 31, 32, 34])]

    def sets(self, c):
        m = self.rng.choice([1, 1, 2, 3])
        a, b = self.blow(c[0], m), self.blow(c[1], m)
        self.make(1, a)
        self.make(2, b)
        self.put('relns', 1, 2)
        for w in range(4):
            self.put('lazy', 1, 2, w, *self.steps(len(a) + len(b)))
            self.put('oper', 1, 2, w, 3)
            self.put('drop', 3)
        self.put('rel', 1, 2)
        if self.avl:
            self.put('merge', 1, 2, self.rng.randrange(4))
        elif self.rng.random() < 0.5:
            self.put('app', 1, 2)
            self.put('drop', 2)
        else:
            self.put('drop', 2)
        self.put('drop', 1)

    def maps(self, c):
        m = self.rng.choice([1, 1, 2, 4])
        a, b = self.blow(c[0], m), self.blow(c[1], m)
        self.make(1, a)
        self.make(2, b)
        self.put('rel', 1, 2)
        if self.kind.startswith('fx'):
            pass
        elif self.avl:
            for w in range(4):
                self.put('clone', 1, 3)
                self.put('clone', 2, 4)
                self.put('merge', 3, 4, w)
                self.put('drop', 3)
        if not self.kind.startswith('fx'):
            self.put('app', 1, 2)
        self.put('drop', 2)
        self.put('drop', 1)

    def stacks(self, c):
        for h in (1, 2):
            l = c[h - 1]
            self.put('from', h, 0, *l)
            if self.rng.random() < 0.5:
                self.put('push', h, 3)
                self.put('pop', h)
        self.put('rel', 1, 2)
        self.put('rel', 2, 1)
        self.put('drop', 1)
        self.put('drop', 2)

    def de(self, c):
        s, hint, fail = c
        m = self.rng.choice([1, 1, 1, 4])  # longer streams: every entry becomes a run
        off = self.rng.randrange(2)
        l = [10 * k + (j if off else -j) for k in s for j in range(m)]
        if hint > 0:
            hint *= m
        if fail > 0:
            fail = min(fail * m, len(l))
        self.put('de', 1, hint, fail if fail <= len(l) else -1, *[x for i, o in enumerate(l) for x in (self.kk(o + 5), 0 if self.ty == 'set' else i + 1)])
        self.put('drop', 1) if fail < 0 or fail > len(l) else None

    def entry(self, c):
        m = self.rng.choice([1, 1, 3])
        self.make(1, self.blow(c[0], m))
        two = self.rng.random() < 0.4
        if two:
            self.put('clone', 1, 2)
        self.put('entry', 1, self.kk(10 * c[1] + self.rng.randrange(m)), c[2], 7, c[3], 500)
        self.put('drop', 1)
        if two:
            self.put('drop', 2)

    def ends(self, c):
        m = self.rng.choice([1, 1, 3])
        self.make(1, self.blow(c[0], m))
        two = self.rng.random() < 0.4
        if two:
            self.put('clone', 1, 2)
        self.put('ee', 1, c[1], c[2], 7, c[3], 500)
        self.put('drop', 1)
        if two:
            self.put('drop', 2)


def script(cases, ty, kind, what, seed, shard, shards, sample):
    rng = random.Random(f'{seed}/{what}/{kind}')
    if sample and sample < len(cases):
        cases = rng.sample(cases, sample)
    mine = cases[shard::shards]
    rng = random.Random(f'{seed}/{what}/{kind}/{shard}')
    out = []
    for i in range(0, len(mine), 12):
        p = Play(rng, ty, kind)
        for c in mine[i:i + 12]:
            getattr(p, what)(c)
        out.append(f'R {ty} {kind}\n' + '\n'.join(p.lines) + '\n')
    return ''.join(out), len(mine)

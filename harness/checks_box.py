"""C16: histories of container operations."""
import random

LISTS = ['plain', 'sub', 'two', 'bag', 'bagint', 'values', 'rules', 'policies', 'results', 'subjects', 'resources', 'attributes',
         'expressions', 'targets']
NOEQ = {'bag', 'bagint', 'values', 'expressions'}
VIAS = ['list', 'tuple', 'gen', 'iter', 'map', 'deque', 'typed', 'uniq']


class Ops(object):
    def __init__(self, r):
        self.r = r

    def item(self, bad=.15):
        r = self.r
        if r.random() < bad:
            i = r.choice([51, 52, 53, 54, 55])
            return {'i': i, 'e': i, 'ok': False}
        i = r.randrange(1, 13)
        return {'i': i, 'e': (i - 1) % 8 + 1 if self.dups else i, 'ok': True}

    def q(self, bad):
        r = self.r
        if r.random() < .03:      # many items, one of them or the last perhaps wrong
            q = [self.item(0) for _ in range(r.choice([9, 17, 20, 33, 40]))]
            if r.random() < .6 and bad:
                q[r.choice([-1, -1, r.randrange(len(q))])] = self.item(1)
            return q
        return [self.item(bad) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]

    def via(self):
        r = self.r
        x = r.random()
        return 'broken' if x < .06 else 'none' if x < .09 else 'self' if x < .15 else r.choice(VIAS)

    def read(self):
        r = self.r
        o = r.choice(['get', 'len', 'count', 'index', 'has'] if self.eq else ['get', 'len'])
        if o == 'get':
            return {'o': o, 'i': r.randrange(-7, 7)}
        return {'o': o} if o == 'len' else {'o': o, 'x': self.item(0)}

    def shrink(self):
        r = self.r
        o = r.choice(['del', 'pop', 'pop', 'delslice', 'reverse', 'clear'] + (['remove'] if self.eq else []))
        if o in ('del', 'pop'):
            return {'o': o, 'i': r.randrange(-4, 4)}
        if o == 'delslice':
            return dict({'o': o}, **self.sl())
        return {'o': o, 'x': self.item(0)} if o == 'remove' else {'o': o}

    def sl(self):
        r = self.r
        k = r.choice([1, 1, 1, 2, 3, -1])
        return {'i': r.randrange(-6, 7), 'j': r.randrange(-6, 7), 'k': k} if k > 0 else {'i': 0, 'j': 0, 'k': -1}

    def typed(self, world, n):
        r = self.r
        self.eq, self.dups = world not in NOEQ, world in ('plain', 'sub', 'two')
        tr = [{'o': 'new', 'q': self.q(.05), 'via': r.choice(VIAS)}]
        while len(tr) <= n:
            x = r.random()
            if x < .2:
                tr.append({'o': 'append', 'x': self.item()})
            elif x < .45:
                tr.append({'o': r.choice(['extend', 'iadd']), 'q': self.q(.08), 'via': self.via()})
            elif x < .55:
                tr.append({'o': 'insert', 'i': r.randrange(-6, 8), 'x': self.item()})
            elif x < .65:
                tr.append({'o': 'set', 'i': r.randrange(-5, 5), 'x': self.item()})
            elif x < .76:
                tr.append(dict({'o': 'setslice', 'q': self.q(.08), 'via': self.via()}, **self.sl()))
            elif x < .78:
                tr.append({'o': 'imul', 'i': r.choice([0, 1, 2, 2, -1])})
            else:
                tr.append(self.shrink() if r.random() < .6 else self.read())
            if sum(len(o.get('q', 'a')) * (2 if o.get('via') == 'self' else 1) for o in tr) > 90:
                tr.append({'o': 'clear'})
        return {'kind': 'box.list', 'k': 'typed', 'world': world, 'pick': r.randrange(1, 97), 'tr': tr}

    def uniq(self, n):
        r = self.r
        self.eq = self.dups = True
        tr = [{'o': 'new', 'q': self.q(0), 'via': r.choice(VIAS)}]
        while len(tr) <= n:
            x = r.random()
            if x < .3:
                tr.append({'o': 'append', 'x': self.item(.1)})
            elif x < .65:
                tr.append({'o': r.choice(['extend', 'iadd']), 'q': self.q(.1), 'via': self.via()})
            else:
                tr.append(self.shrink() if r.random() < .5 else self.read())
        return {'kind': 'box.list', 'k': 'uniq', 'world': '', 'pick': r.randrange(1, 97), 'tr': tr}

    def map(self, kind, n):
        r = self.r
        keys = ['a', 'b', 'c', 'a', 'b', 'z'] + (['boom'] if kind == 'vetted' else [])
        v = lambda: r.choice([0, 1, 2, 3, 4] + ([10, 99] if kind == 'vetted' and r.random() < .5 else []))
        ps = lambda: [{'k': k, 'v': v()} for k in r.sample(sorted(set(keys)) if r.random() < .4 else ['a', 'b', 'c'], r.choice([0, 1, 2, 3]))]
        new = [{'k': k, 'v': r.randrange(5)} for k in r.sample('abc', r.choice([0, 1, 2, 3]))] if kind == 'restricted' else []
        tr = [{'o': 'new', 'q': new, 'via': 'dict'}]
        vias = ['dict', 'restricted', 'mapping', 'kw', 'both', 'pairs', 'gen'] if kind == 'restricted' else ['dict', 'mapping', 'kw', 'both', 'pairs', 'gen']
        while len(tr) <= n:
            x = r.random()
            k = r.choice(keys)
            if x < .3:
                tr.append({'o': 'set', 'k': k, 'v': v()})
            elif x < .4:
                tr.append({'o': 'setdefault', 'k': k, 'v': v()})
            elif x < .6:
                tr.append({'o': 'update', 'q': ps(), 'via': r.choice(vias)})
            elif x < .64 and kind == 'restricted':
                tr.append({'o': 'ior', 'q': ps(), 'via': 'dict'})
            elif x < .9:
                tr.append({'o': r.choice(['get', 'getd', 'item', 'has', 'del', 'pop', 'popd']), 'k': k, 'v': r.randrange(5)})
            else:
                tr.append({'o': r.choice(['len', 'len', 'clear'])})
        return {'kind': 'box.map', 'k': kind, 'world': '', 'pick': r.randrange(1, 97), 'tr': tr}


def c16(c):
    r = random.Random('c16/%d' % c.seed)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Kinds={"%s"} Depth=%d Emit=TRUE\nINVARIANTS Vetted Unchanged EmitH\n'
    fs = [c.pool.submit(c.tlc, 'ContainerMachine', cfg % (k, 2 if k == 'typed' else c.pick(2, 3)), heap='4g') for k in ('typed', 'uniq', 'restricted', 'vetted')]
    lines, per = [], {}
    for f in fs:
        hs = f.result().tagged('@@HIST')
        hs.sort(key=str)
        r.shuffle(hs)
        per[hs[0]['k']] = len(hs)
        for h in hs[:c.pick(5000, 60000)]:
            ls = h['k'] in ('typed', 'uniq')
            needeq = any(o['o'] == 'remove' for o in h['tr'])
            lines.append(dict(h, kind='box.list' if ls else 'box.map', pick=r.randrange(1, 97),
                              world=r.choice([w for w in LISTS if not needeq or w not in NOEQ]) if h['k'] == 'typed' else ''))
    c.notes['histories_enumerated'] = per
    g = Ops(r)
    for i in range(c.pick(3000, 40000)):
        lines.append(g.typed(LISTS[i % len(LISTS)], r.choice([3, 6, 12, 20])))
    for i in range(c.pick(900, 12000)):
        lines.append(g.uniq(r.choice([3, 6, 12, 20])))
        lines.append(g.map(('restricted', 'vetted')[i % 2], r.choice([4, 8, 16])))
    r.shuffle(lines)
    res = c.run_both(lines, shards=4)
    for x in lines[-3:]:
        c.sample({k: x[k] for k in ('k', 'world', 'tr')})
    c.validate('ContainerTrace', res['lxml'] + res['std'], what='containers')


CHECKS = {'C16': c16}

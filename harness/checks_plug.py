"""C22: factories, function maps and readers plugged in."""
import random

import gen
import realize as R

SLOTS = ['p1', 'p2', 's1', 'a1', 'a2', 'm1']
READERS = ['Rule', 'Condition', 'SubjectMatch', 'AttributeValue', 'ActionAttributeDesignator', 'AttributeSelector',
           'Apply', 'Policy', 'PolicySet', 'Expression', 'MatchBase', 'AttributeDesignator', 'XacmlCoreBase']
EMPTY = {'k': 'P', 'id': 'p', 'alg': 'deny-overrides', 'tgt': [], 'rules': []}


def op(r):
    if r.random() < .1:
        if r.random() < .7:
            return {'o': 'read', 't': r.choice(READERS), 'v': r.choice(['K1', 'K2'])}
        return {'o': 'badread', 't': r.choice(READERS), 'v': r.choice(['none', 'str', 'class', 'type', 'inst'])}
    on = r.choice(SLOTS)
    comb = on[0] in 'ps'
    k = r.choice(['plug', 'plug', 'id', 'id', 'id', 'id', 'id', 'new', 'newbad', 'badplug', 'badid'] if comb else
                 ['plug', 'plug', 'id', 'id', 'id', 'id', 'new', 'badplug', 'badid', 'load', 'load', 'badload', 'fetch', 'fetch'])
    v = {'plug': ['std', 'A', 'B'], 'id': ['DO', 'PO', 'FA', 'OO', 'c1', 'c1', 'c2', 'c3', 'c4', 'c5', 'c6'] if comb else ['eq', 'eq', 'gt', 'c1', 'c1', 'c2', 'c3', 'xx'],
         'new': ['std', 'A', 'B'] if comb else ['std'], 'newbad': ['str', 'class', 'other'], 'badplug': ['none', 'str', 'class', 'other'],
         'badid': ['none', 'int'], 'load': [True, False], 'badload': ['none', 'int', 'str'], 'fetch': ['std', 'A', 'B', 'D']}[k]
    return {'o': k, 'on': on, 'v': r.choice(v)}


def c22(c):
    r = random.Random('c22/%d' % c.seed)
    g = gen.Gen('c22/%d' % c.seed)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth=%d On={%s} Emit=%s\nINVARIANTS Sound InStep EmitH\nPROPERTY Frame\n'
    runs = [('p1', 's1'), ('p1', 'p2'), ('a1', 'm1'), ('a1', 'a2'), ('rd', 'p1'), ('rd', 'm1')]
    fs = [c.pool.submit(c.tlc, 'PluginMachine', cfg % (2, ', '.join('"%s"' % k for k in ks), 'TRUE')) for ks in runs]
    deep = [c.pool.submit(c.tlc, 'PluginMachine', cfg % (c.pick(3, 4), '"%s"' % k, 'FALSE'), workers=2, heap='6g') for k in ('p1', 's1', 'a1', 'm1')]
    lines, hs = [], []
    for f in fs:
        hs += f.result().tagged('@@HIST')
    for f in deep:
        f.result()
    hs.sort(key=str)
    r.shuffle(hs)
    c.notes['histories_enumerated'] = len(hs)
    hs = hs[:c.pick(4000, 40000)]
    for i in range(c.pick(1500, 20000)):
        hs.append([op(r) for _ in range(r.choice([4, 8, 16]))])
    for h in hs:
        reads = any(x['o'] in ('read', 'badread') for x in h)
        p = EMPTY
        while reads and (p is EMPTY or not R.xml_ok(p)):
            p = g.tree(g.request(), r.choice([0, 1, 2]), 2, r.random() < .4)
        lines.append({'kind': 'plug.hist', 'ops': h, 'reads': reads, 'p': p, 'seed': r.randrange(10 ** 6)})
    res = c.run_both(lines, shards=4)
    for x in lines[-2:]:
        c.sample(x['ops'])
    c.validate('PluginTrace', res['lxml'] + res['std'], what='plugged in')


CHECKS = {'C22': c22}

"""C19: the same inputs under every XML configuration."""
import json

import gen
from checks_ctx import Ctx, TAGS as CTAGS, VALS as CVALS
from checks_doc import Docs, bases, tlaset, TAGS, VALS

PLACES = ['value', 'xpathversion', 'context-value', 'env-value', 'description', 'rule-description', 'selected',
          'rules', 'args', 'attribute', 'request', 'response', 'subjects', 'policies']
# configurations: (name, interpreter, worker options, in reverse order)
CONFIGS = [('lxml', 'lxml', (), False), ('std', 'std', (), False), ('off', 'lxml', ('--xml=off',), True)]


def run(c, lines, shards=3):
    """every line under every configuration; results merged into one trace line"""
    def cut(n):
        k = max(1, min(shards, (n + 19) // 20))
        return [(n * i // k, n * (i + 1) // k) for i in range(k)]
    futs = []
    for name, venv, opts, rev in CONFIGS:
        for a, b in cut(len(lines)):
            q = lines[a:b]
            futs.append((name, a, rev, c.pool.submit(c.run_worker, venv, q[::-1] if rev else q, opts)))
    out = [{'kind': x['kind'], 'fail': '', 'obs': []} for x in lines]
    for y, x in zip(out, lines):
        if x['kind'] == 'back.surface':
            y.update(place=x['place'], items=x['items'])
        y['in'] = json.dumps(x, sort_keys=True)
    for name, a, rev, f in futs:
        q = f.result()
        for i, x in enumerate(q[::-1] if rev else q):
            y = out[a + i]
            if x['fail'] and not y['fail']:
                y['fail'] = '%s: %s' % (name, x['fail'])
            y['obs'].append({'b': name, 'o': x.get('o', ['failed'])})
    return out


def request_doc(g, rq):
    """the request as a document (raw tree)"""
    from checks_doc import el
    import realize as R

    def attr(a):
        return el('Attribute', [('AttributeId', a['id']), ('DataType', R.TYPE_URI[a['t']])] + ([('Issuer', R.issuer(a))] if a['iss'] else []),
                  [el('AttributeValue', text=v) for v in a['vals']])

    q = lambda at: [attr(a) for a in at if a['vals']]
    res = rq['R'] or [[]]
    return el('Request', [], [el('Subject', [], q(s)) for s in rq['S']] + [el('Resource', [], q(s)) for s in res]
              + [el('Action', [], q(rq['A'][0] if rq['A'] else [])), el('Environment', [], q(rq['E'][0] if rq['E'] else []))])


def c19(c):
    g = gen.Gen('c19/%d' % c.seed)
    dg, cg = Docs('c19d/%d' % c.seed), Ctx('c19c/%d' % c.seed)
    r = g.r
    g.custom = False
    mx = c.pick(4, 5)
    t = c.pool.submit(c.tlc, 'BackendsMachine', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Max=%d Items={"a", " ", "c", "p", "d", "r", "e"} Emit=TRUE\n'
                      'INVARIANTS SameText SameElements Complete EmitD\nPROPERTY Settled\n' % mx)
    path = c.scratch + '/bases.ndjson'
    with open(path, 'w') as f:
        for b in bases(dg):
            f.write(json.dumps(b) + '\n')
    tags, vals = (TAGS, VALS) if c.thorough else (TAGS[::3], VALS[::3])
    d = c.pool.submit(c.tlc, 'DocMachine', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Edits=1 Emit=TRUE NewTags=%s NewVals=%s\n'
                      'INVARIANTS BaseLoads Lossless Required EmitD\n' % (tlaset(tags), tlaset(vals)), env={'BASES': path}, workers=4, heap='6g')
    items = t.result().tagged('@@ITEMS')
    c.notes['contents_enumerated'] = len(items)
    items.sort(key=lambda x: (len(x), x))
    short = [x for x in items if len(x) <= 2]
    lines = [{'kind': 'back.surface', 'place': p, 'items': x} for x in short for p in PLACES]
    n = c.pick(5000, 60000)
    rest = [(x, p) for x in items if len(x) > 2 for p in PLACES]
    lines += [{'kind': 'back.surface', 'place': p, 'items': x} for x, p in (rest if len(rest) <= n else r.sample(rest, n))]
    docs = d.result().tagged('@@DOC')
    c.notes['edited_documents_enumerated'] = len(docs)
    docs.sort(key=lambda x: json.dumps(x, sort_keys=True))
    rqs = lambda k=1, **kw: [g.request(**kw) for _ in range(k)]
    for x in r.sample(docs, min(len(docs), c.pick(1500, 30000))):
        lines.append({'kind': 'back.policy', 't': x['t'], 'rqs': rqs()})
    for _ in range(c.pick(1000, 15000)):
        t = dg.doc1()
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            t = dg.edit(t)
        x = {'kind': 'back.policy', 't': t, 'rqs': rqs()}
        if r.random() < .15:
            x['damage'] = r.choice(['cut', 'drop', 'insert', 'tail', 'other'])
        lines.append(x)
    for _ in range(c.pick(700, 10000)):
        rq = g.request(doc=.5)
        lines.append({'kind': 'back.policy', 'p': xml_tree(g, rq), 'rqs': [rq] + rqs(2, doc=.5)})
    for _ in range(c.pick(700, 10000)):
        rq = g.request(doc=.7)
        q = [rq] + rqs(2, doc=.7)
        lines.append({'kind': 'back.decide', 'p': xml_tree(g, rq), 'rqs': [request_doc(g, x) for x in q], 'docs': [x['doc'] for x in q]})
    for _ in range(c.pick(1200, 15000)):
        o = cg.req() if r.random() < .6 else cg.resp()
        t = cg.x_doc(o)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            t = cg.edit(t)
        lines.append({'kind': 'back.context', 'k': o['k'], 't': t})
    for _ in range(c.pick(500, 8000)):
        o = cg.req(small=True) if r.random() < .6 else cg.resp()
        lines.append({'kind': 'back.context', 'k': o['k'], 'c': o})
    r.shuffle(lines)
    for i, x in enumerate(lines):
        x.update(seed='%d/%d' % (c.seed, i), how=r.randrange(12))
    out = run(c, lines)
    c.notes['inputs'] = len(lines)
    c.notes['configurations'] = [k[0] for k in CONFIGS]
    c.notes['rejected'] = sum(x['obs'][0]['o'] == ['rejected'] for x in out)
    for x in out[-2:]:
        c.sample(x['in'][:1500])
    c.validate('BackendsTrace', out, what='back ends')


def xml_tree(g, rq):
    import realize as R
    for _ in range(200):
        p = g.tree(rq, doc=bool(rq['doc']))
        if R.xml_ok(p):
            return p
    raise AssertionError('no tree')


CHECKS = {'C19': c19}

"""C11: policy references and document loading."""
import gen

H = 'http://H0/'


def url_forms(r, base):
    n = r.choice(['a', 'b', 'c', 'd.xml', 'e.xml', 'urn:x:1', 'sub/f.xml', 'sub/a'])
    if r.random() < .15:
        n = r.choice([n + '#1', n + '#2', n.replace('a', '%61').replace('b', '%62'), n + ' x', n + '%20x', n + '%23', n + '%252', n.replace('/', '%2F')])
    return r.choice([n, n, n, './' + n, 'file://' + n, 'file://./' + n, 'file:///B0/z/' + n, '/B0/' + n, '../' + n, 'sub/../' + n,
                     H + n.replace(' ', '')])


def where(ref, base):
    """independent of the specification: only to lay out files, the judge resolves for itself"""
    import posixpath
    from urllib.parse import unquote
    ref = ref.split('#')[0]
    if ref.startswith(H):
        return ref
    p = unquote(ref[7:] if ref.startswith('file://') else ref)
    if not p.startswith('/'):
        p = base + '/' + p
    p = posixpath.normpath(p)
    return p if p.startswith('/B0/') else None


def random_set(g, finder):
    r = g.r
    mark = [0]

    def m():
        mark[0] += 1
        return 'm%d' % mark[0]
    base = r.choice(['/B0', '/B0', '/B0', '/B0/p', '/B0/p', '/B0/p/q', '/B0/p/q', '/B0/p#q', '/B0/%61', '/B0/p q%'])
    refs = [r.choice(['a', 'b', 'urn:x', 'http://x/y', 'c d', 'e']) if finder != 'url' else url_forms(r, base) for _ in range(r.choice([1, 2, 3, 4]))]
    if finder == 'url' and r.random() < .2:     # another way to write where a reference points, which is another id
        f = r.choice(refs)
        v = r.choice([f.split('#')[0], f.split('#')[0] + '#1', f.split('#')[0] + '#2', f.split('#')[0] + '#'])
        if v[:1] != '/' and '://' not in v:
            v = r.choice([v, v, './' + v, 'file://' + v, 'sub/../' + v])
        refs = list(dict.fromkeys(refs + [v]))
    ids = refs + ['top', 'x', 'y']

    def node(depth, kind=None, i=None, w=(4, 3, 3, 1, 1)):
        k = kind or r.choices(['P', 'PS', 'rP', 'rPS'], w[:4])[0]
        i = i or (r.choice(refs) if k[0] == 'r' and r.random() < .85 else r.choice(ids) if r.random() < .3 else 'n%d' % r.randrange(40))
        if k == 'PS':
            return {'k': k, 'id': i, 'm': m(), 'kids': [node(depth - 1) if depth else node(0, 'P') for _ in range(r.choice([0, 1, 2, 2, 3]))]}
        return {'k': k, 'id': i, 'm': m() if k == 'P' else '', 'kids': []}
    # consistent kinds make loads succeed; chance breaks them
    kinds = {f: r.choice(['P', 'PS']) for f in refs}

    def fix(n):
        if n['k'] in ('rP', 'rPS') and n['id'] in kinds and r.random() < .9:
            n['k'] = 'r' + kinds[n['id']]
        for k in n['kids']:
            fix(k)
        return n
    top = fix({'k': 'PS', 'id': 'top', 'm': 'top', 'kids': [node(2) for _ in range(r.choice([1, 2, 2, 3, 4]))]})
    topu = base + '/top.xml' if finder != 'dict' else 'T'
    docs = [{'u': topu, 'node': top}]
    for j, f in enumerate(refs):
        if r.random() < .1:
            continue
        u = f if finder == 'dict' else where(f, base)
        if u is None or any(d['u'] == u for d in docs) or any(d['u'].startswith(u + '/') or u.startswith(d['u'] + '/') for d in docs):
            continue
        x = r.random()
        if x < .85:
            n = fix(node(1, kinds[f], f))
            if r.random() < .75:        # acyclic: only references to later documents
                def acyc(q):
                    q['kids'] = [acyc(k) for k in q['kids'] if not (k['k'][0] == 'r' and k['id'] in refs[:j + 1])]
                    return q
                n = acyc(n)
        elif x < .93:
            n = fix(node(1, 'PS'))
            n['kids'].append({'k': kinds[f], 'id': f, 'm': m(), 'kids': []})
        elif x < .97:
            n = node(1, r.choice(['P', 'PS']))
        else:
            n = {'k': 'Request', 'id': '', 'm': '', 'kids': []}
        docs.append({'u': u, 'node': n})
    return {'docs': docs, 'top': topu, 'finder': finder, 'base': base if finder == 'url' else ''}


def large_set(g, finder):
    """a long chain, a wide star or a tree of documents, now and then with one flaw"""
    r = g.r
    base = r.choice(['/B0', '/B0/p'])
    n = r.choice([6, 9, 10, 12, 17, 20, 33])
    shape = r.choice(['chain', 'star', 'tree', 'diamond'])
    name = lambda i: 'd%d%s' % (i, '.xml' if finder == 'url' else '')
    up = {'chain': lambda i: i - 1, 'star': lambda i: 0, 'tree': lambda i: (i - 1) // 2, 'diamond': lambda i: i - 1}[shape]
    kids = [[j for j in range(1, n) if up(j) == i] for i in range(n)]
    if shape == 'diamond':       # each referenced twice
        kids = [k + k for k in kids] if n < 11 else [k + k if i % 5 == 0 else k for i, k in enumerate(kids)]
    flaw, at = r.choice(['', '', '', 'missing', 'cycle', 'kind', 'other']), r.choice([n - 1, n - 1, r.randrange(1, n)])
    leaf = lambda i: not kids[i] and i % 3 != 2
    docs = []
    for i in range(n):
        if i == at and flaw == 'missing':
            continue
        ks = [{'k': 'rP' if leaf(j) else 'rPS', 'id': name(j), 'm': '', 'kids': []} for j in kids[i]]
        if i == at and flaw == 'cycle':
            ks.append({'k': 'rPS', 'id': name(r.randrange(1, i + 1)), 'm': '', 'kids': []})
        if r.random() < .3:
            ks.insert(r.randrange(len(ks) + 1), {'k': 'P', 'id': 'in%d' % i, 'm': 'in', 'kids': []})
        k = 'P' if leaf(i) and not ks else 'PS'
        if i == at and flaw == 'kind':
            k = 'P' if k == 'PS' else 'PS'
        docs.append({'u': (base + '/' if finder == 'url' else '') + name(i),
                     'node': {'k': k, 'id': 'z' if i == at and flaw == 'other' else name(i) if i else 'top', 'm': 'm%d' % i, 'kids': ks if k == 'PS' else []}})
    return {'docs': docs, 'top': docs[0]['u'], 'finder': finder, 'base': base if finder == 'url' else ''}


def mutate(g, ld):
    """the same documents, one changed"""
    import copy
    ld = copy.deepcopy(ld)
    r = g.r
    d = r.choice(ld['docs'])
    x = r.random()

    def each(n):
        yield n
        for k in n['kids']:
            yield from each(k)
    ns = list(each(d['node']))
    n = r.choice(ns)
    if x < .35:
        n['m'] = n['m'] and 'changed'
    elif x < .55 and n['k'] in ('rP', 'rPS'):
        n['k'] = 'rPS' if n['k'] == 'rP' else 'rP'
    elif x < .75 and d['u'] != ld['top']:
        ld['docs'].remove(d)
    else:
        n['id'] = r.choice([k['id'] for k in ns])
    return ld


def finish_load(g, ld, default=None):
    r = g.r
    ld = dict(ld, pdp=r.choice(['new', 'set', 'set']), src='bytes', default=False)
    if ld['finder'] == 'url':
        ld['src'] = r.choice(['path', 'rel', 'file', 'bytes'])
        ld['slash'] = '/' if r.random() < .2 else ''
        if r.random() < .35:
            ld['default'], ld['pdp'] = True, 'new'
            ld['base'] = '' if ld['src'] == 'bytes' else ld['top'].rsplit('/', 1)[0]
        elif r.random() < .05:
            ld['base'] = ''
    elif ld['finder'] == 'local':
        ld['src'] = r.choice(['path', 'file', 'bytes'])
    return ld


def overlapping(g, mode, n):
    """two or three loads at once, often of documents with the same names and other contents"""
    r = g.r
    t = r.choice([2, 2, 2, 3])
    loads = []
    while len(loads) < t:
        f = 'dict' if mode == 'nest' else r.choice(['url', 'dict', 'dict'])
        ld = mutate(g, loads[-1]) if loads and r.random() < .6 else random_set(g, f)
        if any(d['u'].startswith('http') for d in ld['docs']):
            continue
        loads.append(dict(ld, pdp='new', src='bytes', default=False))
    x = {'kind': 'load.par', 'loads': loads, 'mode': mode}
    if mode == 'nest':
        x['at'], x['thread'] = [1, 2, 3], r.random() < .5
    elif mode == 'free':
        x['reps'] = n
    else:
        x['plans'] = []
        for k in range(n):
            a = r.randrange(t)
            b = r.choice([y for y in range(t) if y != a])
            p = [(a, (k + r.random()) / n, b), (b, -1, a)] if r.random() < .6 else \
                [(y, r.random(), r.choice([z for z in range(t) if z != y])) for y in [r.randrange(t) for _ in range(4)]]
            x['plans'].append(p + ([(0, 0, a)] if a and p[0][0] == a else []))
    return x


def c11(c):
    g = gen.Gen('c11/%d' % c.seed)
    r = c.tlc('LoaderMachine', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Emit=TRUE MaxKids=%d Shape="a"\nINVARIANTS Faithful Agrees Bounded EmitC\n%s'
              % (c.pick(2, 3), c.pick('PROPERTY Ends\n', '')), workers=8, heap='6g')
    graphs = r.tagged('@@GRAPH')
    c.notes['document_graphs_enumerated'] = len(graphs)
    lines = []
    oks = [x['ld'] for x in graphs if x['ok']]
    rest = [x['ld'] for x in graphs if not x['ok']]
    c.notes['graphs_that_load'] = len(oks)
    if len(oks) > 6000:
        oks = g.r.sample(oks, 6000)
    if len(rest) > c.pick(1500, 9000):
        rest = g.r.sample(rest, c.pick(1500, 9000))
    for ld in oks + rest:
        ld = dict(ld)
        if g.r.random() < .5:        # the same graph as files
            ld['finder'], ld['base'] = 'url', '/B0'
            ld['docs'] = [dict(d, u='/B0/' + d['u']) for d in ld['docs']]
            ld['top'] = '/B0/' + ld['top']
        lines.append(dict(kind='load.seq', loads=[finish_load(g, ld)]))
    n = 0
    for i in range(c.pick(1500, 12000)):
        seq = []
        f = g.r.choice(['url', 'url', 'url', 'dict', 'local'])
        ld = random_set(g, f)
        for k in range(g.r.choice([1, 1, 2, 3, 4])):
            seq.append(finish_load(g, ld))
            x = g.r.random()
            ld = ld if x < .25 else mutate(g, ld) if x < .7 else random_set(g, g.r.choice(['url', 'dict', 'local']))
        n += len(seq)
        lines.append(dict(kind='load.seq', loads=seq, debug=g.r.random() < .05))
    for i in range(c.pick(150, 1500)):
        ld = large_set(g, g.r.choice(['url', 'dict']))
        seq = [finish_load(g, ld)]
        if g.r.random() < .4:
            seq += [finish_load(g, mutate(g, ld)), finish_load(g, ld)]
        n += len(seq)
        lines.append(dict(kind='load.seq', loads=seq))
    c.notes['random_loads'] = n
    for mode, n, k in (('nest', c.pick(500, 4000), 0), ('lines', c.pick(80, 700), c.pick(12, 40)), ('free', c.pick(40, 300), 4)):
        lines += [overlapping(g, mode, k) for i in range(n)]
    g.r.shuffle(lines)
    res = c.run_both(lines, shards=4)
    c.notes['loaded'] = sum(o['ok'] for x in res['lxml'] for o in x.get('obs', []))
    c.notes['refused'] = sum(not o['ok'] for x in res['lxml'] for o in x.get('obs', []))
    for x in lines[-2:]:
        c.sample(x)
    c.validate('LoadTrace', res['lxml'] + res['std'], what='policy loading')


CHECKS = {'C11': c11}

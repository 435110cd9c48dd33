"""C13: histories of evaluations and edits, overlapping evaluations."""
import copy

import gen
import realize as R


def evals(g, n, np, nr):
    return [{'d': g.r.randrange(np) + 1, 'r': g.r.randrange(nr) + 1} for _ in range(n)]


class Sess(gen.Gen):
    def some_policy(self, rq, doc):
        r = self.r
        p = self.tree(rq, doc)
        return p

    def gated(self, e):
        return {'k': 'app', 'fam': 'custom-echo', 'ft': '', 'args': [e]}

    def rule1(self, i, rq, doc):
        r = self.r
        c = [self.ebool(2, doc)] if r.random() < .8 else []
        if c and r.random() < .5:
            c = [self.gated(c[0])]
        return {'id': 'r%d' % i, 'eff': r.choice(['Permit', 'Deny']), 'tgt': self.opt_target(rq, .4, doc), 'cond': c}

    def tree(self, rq, doc, d=2):
        r = self.r
        if d and r.random() < .4:
            return {'k': 'PS', 'id': self.nid('set'), 'alg': r.choice(gen.ALGS), 'tgt': self.opt_target(rq, .3, doc),
                    'kids': [self.tree(rq, doc, d - 1) for _ in range(r.choice([1, 2, 2, 3]))]}
        return {'k': 'P', 'id': self.nid('policy'), 'alg': r.choice(gen.ALGS), 'tgt': self.opt_target(rq, .3, doc),
                'rules': [self.rule1(i, rq, doc) for i in range(r.choice([1, 2, 3]))]}

    def edit_op(self, rqs):
        """an edit that the current contents allow; rqs is brought up to date"""
        r = self.r
        ri = r.randrange(len(rqs))
        rq = rqs[ri]
        x = r.random()
        spots = [(c, i, j) for c in 'SRAE' for i, h in enumerate(rq[c]) for j in range(len(h))]
        holders = [(c, i) for c in 'SRAE' for i in range(len(rq[c]))]
        if x < .4 and spots:
            c, i, j = r.choice(spots)
            a = rq[c][i][j]
            a['vals'] = [self.val(a['t']) for _ in range(r.choice([0, 1, 1, 2]) if r.random() < .6 else len(a['vals']))]
            return {'o': 'vals', 'r': ri + 1, 'cat': c, 'i': i + 1, 'j': j + 1, 'vals': list(a['vals']), 'how': r.choice(['inplace', 'new'])}
        if x < .5 and spots:
            c, i, j = r.choice(spots)
            rq[c][i][j]['iss'] = r.choice(['iss1', 'iss2', '~'])
            return {'o': 'iss', 'r': ri + 1, 'cat': c, 'i': i + 1, 'j': j + 1, 'iss': rq[c][i][j]['iss']}
        if x < .65 and holders:
            c, i = r.choice(holders)
            rq[c][i] = self.attrs()
            return {'o': 'attrs', 'r': ri + 1, 'cat': c, 'i': i + 1, 'attrs': copy.deepcopy(rq[c][i])}
        if x < .78 and rq['pip']:
            rq['pip'] = [self.pip()]
            return {'o': 'pip', 'r': ri + 1, 'tab': copy.deepcopy(rq['pip'][0]['tab'])}
        if x < .88 and rq['doc']:
            rq['doc'] = [self.doc()]
            return {'o': 'doc', 'r': ri + 1, 'doc': copy.deepcopy(rq['doc'][0]), 'how': r.choice(['inplace', 'new'])}
        c = r.choice('SSRRAE')
        rq[c] = [self.attrs() for _ in range(r.choice([0, 1, 2, 2]) if c in 'SR' else 1)]
        return {'o': 'cat', 'r': ri + 1, 'cat': c, 'q': copy.deepcopy(rq[c])}

    def resp_op(self, resps):
        r = self.r
        k = r.randrange(len(resps))
        d = r.choice(['Permit', 'Deny', 'NotApplicable', 'Indeterminate'])
        if resps[k] == 0 or r.random() < .12:
            resps[k] += 1
            return {'o': 'radd', 'k': k + 1, 'dec': d}
        x = r.random()
        if x < .3:
            return {'o': 'rdec', 'k': k + 1, 'dec': d, 'how': r.choice(['fresh', 'const'])}
        if x < .6:
            return {'o': 'rval', 'k': k + 1, 'dec': d}
        if x < .75:
            return {'o': 'rmsg', 'k': k + 1, 'msg': 'edited %d' % r.randrange(99)}
        if x < .88:
            return {'o': 'rcode', 'k': k + 1, 'code': 'urn:oasis:names:tc:xacml:1.0:status:' + r.choice(['ok', 'syntax-error', 'missing-attribute'])}
        resps[k] = 0
        return {'o': 'rdrop', 'k': k + 1}

    def world(self):
        r = self.r
        doc = r.random() < .4
        rqs = [self.request(pip=.4, doc=1 if doc else 0) for _ in range(r.choice([1, 2, 2, 3]))]
        pols = [self.tree(r.choice(rqs), doc) for _ in range(r.choice([1, 2, 2]))]
        pdps = [r.randrange(len(pols)) + 1 for _ in range(r.choice([1, 2, 3]))]
        return {'rqs': rqs, 'pols': pols, 'pdps': pdps, 'load': [r.choice(['api', 'xml']) if R.xml_ok(p) else 'api' for p in pols]}

    def history(self, n):
        r = self.r
        w = self.world()
        rqs, resps, ops = copy.deepcopy(w['rqs']), [], []
        np = len(w['pdps'])
        while len(ops) < n:
            x = r.random()
            if x < .5:
                ops.append(dict(o='eval', **evals(self, 1, np, len(rqs))[0]))
                resps.append(1)
            elif x < .75:
                ops.append(self.edit_op(rqs))
            elif x < .9 and resps:
                ops.append(self.resp_op(resps))
            elif x < .95:
                ops.append({'o': 'pol', 'd': r.randrange(np) + 1, 'p': r.randrange(len(w['pols'])) + 1, 'how': r.choice(['set', 'source'])})
            else:
                ops.append({'o': 'par', 'es': evals(self, 2, np, len(rqs)), 'mode': 'free', 'reps': 2})
        ops.append(dict(o='eval', **evals(self, 1, np, len(rqs))[0]))
        return dict(w, kind='session.hist', ops=ops)

    def overlapping(self, mode, n):
        """one world, evaluations that overlap, then the same ones one after another"""
        r = self.r
        w = self.world()
        t = r.choice([2, 2, 2, 3])
        es = evals(self, t, len(w['pdps']), len(w['rqs']))
        op = {'o': 'par', 'es': es, 'mode': mode}
        if mode == 'free':
            op['reps'] = n
        elif mode == 'gates':
            op['scheds'] = [[r.randrange(t) + 1 for _ in range(r.choice([4, 8, 16, 30]))] for _ in range(n)]
        else:
            op['plans'] = []
            for k in range(n):
                if r.random() < .7 or t == 2 and r.random() < .5:       # one switch
                    a = r.randrange(t)
                    b = r.choice([x for x in range(t) if x != a])
                    p = [(a, (k + r.random()) / n, b), (b, -1, a)]
                    if a:
                        p.append((0, 0, a))
                else:
                    p = []
                    for _ in range(r.choice([2, 3, 4, 6])):
                        a = r.randrange(t)
                        p.append((a, r.random(), r.choice([x for x in range(t) if x != a])))
                op['plans'].append(p)
        return dict(w, kind='session.hist', ops=[op] + [dict(o='eval', **e) for e in es])


def c13(c):
    g = Sess('c13/%d' % c.seed)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode="%s" MaxOps=%d MaxEdits=%d Threads=%d Emit=TRUE\n' \
          'INVARIANTS Isolated EmitH EmitP EmitI\nPROPERTY Frame\n'
    f1 = c.pool.submit(c.tlc, 'SessionMachine', cfg % ('hist', 4, 2, 1), workers=4, heap='6g')
    f2 = c.pool.submit(c.tlc, 'SessionMachine', cfg % ('par', 1, 1, c.pick(3, 4)), workers=2)
    lines = []
    r = f1.result()
    init = r.tagged('@@INIT')[0]
    hs = [h['ops'] for h in r.tagged('@@HIST')]
    c.notes['histories_enumerated'] = len(hs)
    hs = sorted(hs, key=str)
    hs = [h for h in hs if h[-1]['o'] == 'eval']
    g.r.shuffle(hs)
    for h in hs[:c.pick(2500, 40000)]:
        lines.append(dict(init, pdps=[1, 2], load=[g.r.choice(['api', 'xml']) for _ in init['pols']], kind='session.hist', ops=h))
    ss = f2.result().tagged('@@SCHED')
    c.notes['interleavings_enumerated'] = len(ss)
    g.r.shuffle(ss)
    nt = len(ss[0]['rqs'])
    ss = ss[:c.pick(400, 6000)]
    for i in range(0, len(ss), 20):
        q = ss[i:i + 20]
        lines.append({'kind': 'session.hist', 'pols': [q[0]['p']], 'rqs': q[0]['rqs'], 'pdps': [1] * nt, 'load': [g.r.choice(['api', 'xml'])],
                      'ops': [{'o': 'par', 'es': [{'d': t + 1, 'r': t + 1} for t in range(nt)], 'mode': 'gates', 'scheds': [x['sched'] for x in q]},
                              {'o': 'eval', 'd': 1, 'r': 1}]})
    for i in range(c.pick(900, 14000)):
        lines.append(g.history(g.r.choice([3, 6, 10, 16])))
    npar = 0
    for mode, n, k in (('lines', c.pick(100, 900), c.pick(14, 60)), ('gates', c.pick(80, 900), c.pick(8, 30)), ('free', c.pick(60, 500), c.pick(4, 10))):
        for i in range(n):
            x = g.overlapping(mode, k)
            if mode == 'lines' and i % 7 == 0:
                x['ops'][0]['opcodes'] = True
            lines.append(x)
            npar += k
    c.notes['overlapping_runs'] = npar
    for x in lines:
        x['debug'] = g.r.random() < .05
    g.r.shuffle(lines)
    res = c.run_both(lines, shards=4)
    for x in lines[-2:]:
        c.sample({k: x[k] for k in ('pdps', 'ops')})
    c.validate('SessionTrace', res['lxml'] + res['std'], what='session')


CHECKS = {'C13': c13}

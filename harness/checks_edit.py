"""C20: policy objects edited in place."""
import copy

import gen
import realize as R


def places(p):
    """(path, kind, category) of every object and list of a policy tree"""
    out = []

    def tgt(q, at):
        for i, t in enumerate(q):
            for c in 'SRAE':
                out.append((at + ['tgt', 1, c], 'sect', c, t[c]))
                for j, alt in enumerate(t[c]):
                    b = at + ['tgt', 1, c, j + 1]
                    out.append((b, 'alt', c, alt))
                    for k, m in enumerate(alt):
                        out.append((b + [k + 1], 'match', c, m))
                        out.append((b + [k + 1, 'src'], m['src']['k'], c, m['src']))

    def expr(e, at):
        out.append((at, e['k'], '', e))
        if e['k'] == 'app':
            out.append((at + ['args'], 'args', '', e['args']))
            for i, x in enumerate(e['args']):
                expr(x, at + ['args', i + 1])

    def pol(p, at):
        out.append((at, p['k'], '', p))
        tgt(p['tgt'], at)
        if p['k'] == 'P':
            out.append((at + ['rules'], 'rules', '', p['rules']))
            for i, r in enumerate(p['rules']):
                b = at + ['rules', i + 1]
                out.append((b, 'rule', '', r))
                tgt(r['tgt'], b)
                for e in r['cond']:
                    expr(e, b + ['cond', 1])
        else:
            out.append((at + ['kids'], 'kids', '', p['kids']))
            for i, q in enumerate(p['kids']):
                pol(q, at + ['kids', i + 1])
    pol(p, [])
    return out


def apply(p, op):
    """keeps the generator's own copy of the tree up to date"""
    if op['o'] in ('bad', 'badl', 'copy'):
        return
    o = p
    for s in op['at']:
        o = o[s - 1] if isinstance(s, int) else o[s]
    k = op['o']
    if k == 'set':
        f, v = op['f'], copy.deepcopy(op['v'])
        if f == 'fn':
            o['fam'], o['ft'] = v['fam'], v['ft']
        elif f == 'lit':
            o['t'], o['v'] = v['t'], v['v']
        elif f == 'value':
            o['v'] = v
        elif f in ('tgt', 'cond'):
            o[f] = [v]
        else:
            o[f] = v
    elif k == 'app':
        o.append(copy.deepcopy(op['x']))
    elif k == 'ext':
        o += copy.deepcopy(op['xs'])
    elif k == 'ins':
        o.insert(op['i'] - 1, copy.deepcopy(op['x']))
    elif k == 'put':
        o[op['i'] - 1] = copy.deepcopy(op['x'])
    elif k == 'del':
        del o[op['i'] - 1]
    elif k == 'rev':
        o.reverse()
    elif k == 'mov':
        o.insert(op['j'] - 1, o.pop(op['i'] - 1))
    else:
        del o[:]


def taken(p, op):
    """what an edit takes out of the tree: its kind and value, as a list"""
    o = p
    for s in op['at']:
        o = o[s - 1] if isinstance(s, int) else o[s]
    if op['o'] in ('del', 'put'):
        return [o[op['i'] - 1]]
    if op['f'] in ('tgt', 'cond'):
        return o[op['f']][:1]
    return [{'t': o['t'], 'v': o['v']} if op['f'] == 'lit' else o[op['f']]]


BAD = {'P': {'id': ['none', 'int'], 'desc': ['none', 'int'], 'version': ['none', 'int'], 'tgt': ['none', 'str', 'rule'],
             'alg': ['none', 'int', 'unknown', 'unimpl', 'other', 'str']},
       'rule': {'id': ['none', 'int'], 'desc': ['none', 'int'], 'tgt': ['none', 'str', 'rule'], 'eff': ['none', 'str', 'dec'],
                'cond': ['none', 'app', 'target', 'str']},
       'match': {'fn': ['none', 'int', 'unknown', 'unimpl', 'str'], 'lit': ['none', 'str', 'des'], 'srcd': ['none', 'str', 'sel', 'lit'],
                 'srcs': ['none', 'str', 'des']},
       'des': {'id': ['none', 'int'], 'iss': ['none', 'int'], 'mbp': ['none', 'int', 'str'], 't': ['none', 'int']},
       'sel': {'path': ['none', 'int'], 'mbp': ['none', 'str'], 't': ['none', 'int']},
       'app': {'fn': ['none', 'int', 'unknown', 'unimpl', 'str']},
       'rules': ['none', 'policy', 'str'], 'kids': ['none', 'rule', 'str'], 'args': ['none', 'rule', 'str'],
       'sect': ['none', 'otheralt', 'str'], 'alt': ['none', 'othermatch', 'rule']}
BAD['PS'] = BAD['P']


class Edit(gen.Gen):
    def full(self, p):
        r = self.r
        p.update(desc=r.choice(['', 'about this']), version=r.choice(['1.0', '2.1']))
        for x in p.get('rules', ()):
            x['desc'] = r.choice(['', 'a rule'])
        for x in p.get('kids', ()):
            self.full(x)
        return p

    def new(self, kind, cat, rq, doc):
        r = self.r
        if kind == 'rules':
            return dict(self.rule(rq, 1, doc), desc='')
        if kind == 'kids':
            return self.full(self.policy(rq, 2, 1, doc))
        if kind == 'args':
            return r.choice([self.lit('string'), self.des('string'), self.ebool(1, doc), self.ebag('string', 1, doc)])
        if kind == 'sect':
            return [self.match(cat, rq, doc) for _ in range(r.choice([1, 1, 2]))]
        return self.match(cat, rq, doc)

    def edit(self, p, rqs, doc):
        r = self.r
        rq = r.choice(rqs)
        if r.random() < .06:
            return {'o': 'copy', 'at': []}
        ps = places(p)
        if self.shelf and r.random() < .25:
            op = self.back(ps)
            if op:
                return op
        kinds = sorted(set(k for _, k, _, _ in ps))
        kind = r.choice(kinds)
        at, kind, cat, node = r.choice([x for x in ps if x[1] == kind])
        if kind == 'lit':
            if r.random() < .2:
                return {'o': 'bad', 'at': at, 'f': 'value', 'w': 'none' if node['t'] in R.STR_TYPES else 'str'}
            return {'o': 'set', 'at': at, 'f': 'value', 'v': self.val(node['t'])}
        if isinstance(node, list):
            x = r.random()
            if x < .25:
                return {'o': 'badl', 'at': at, 'how': r.choice(['app', 'ins', 'ext', 'put']), 'w': r.choice(BAD[kind])}
            if x < .29 and node:
                return {'o': 'rev', 'at': at}
            if x < .33 and node:
                return {'o': 'mov', 'at': at, 'i': r.randrange(len(node)) + 1, 'j': r.randrange(len(node)) + 1}
            if x < .45 and node:
                return {'o': 'del', 'at': at, 'i': r.randrange(len(node)) + 1}
            if x < .48:
                return {'o': 'clear', 'at': at}
            if x < .6:
                return {'o': 'ext', 'at': at, 'xs': [self.new(kind, cat, rq, doc) for _ in range(r.choice([0, 1, 2]))]}
            e = self.new(kind, cat, rq, doc)
            if x < .75:
                return {'o': 'app', 'at': at, 'x': e}
            if x < .88:
                return {'o': 'ins', 'at': at, 'i': r.randrange(len(node) + 1) + 1, 'x': e}
            if node:
                return {'o': 'put', 'at': at, 'i': r.randrange(len(node)) + 1, 'x': e}
            return {'o': 'app', 'at': at, 'x': e}
        if r.random() < .3:
            f = r.choice(sorted(BAD[kind]))
            return {'o': 'bad', 'at': at, 'f': f, 'w': r.choice(BAD[kind][f])}
        v, f = None, ''
        if kind in ('P', 'PS'):
            f = r.choice(['alg', 'alg', 'alg', 'tgt', 'tgt', 'id', 'desc', 'version'])
        elif kind == 'rule':
            f = r.choice(['eff', 'eff', 'tgt', 'cond', 'cond', 'id', 'desc'])
        elif kind == 'match':
            f = r.choice(['fn', 'lit', 'value', 'src', 'src'])
        elif kind == 'des':
            f = r.choice(['id', 'iss', 'mbp', 't'])
        elif kind == 'sel':
            f = r.choice(['path', 'mbp', 't'])
        else:
            f = 'fn'
        if f == 'alg':
            v = r.choice(gen.ALGS)
        elif f == 'tgt':
            v = self.target(rq, doc, sects=(0, 0, 1, 1))
        elif f == 'cond':
            v = self.ebool(2, doc)
        elif f == 'eff':
            v = r.choice(['Permit', 'Deny'])
        elif f == 'fn':
            m = self.match(cat or 'S', rq, doc)
            e = self.ebool(1, doc)
            src = m if kind == 'match' else e if e['k'] == 'app' else m
            v = {'fam': src['fam'], 'ft': src['ft']}
            if kind == 'app' and v['fam'] in ('and', 'not') and any(x['k'] != 'app' for x in node['args']):
                v = {'fam': 'equal', 'ft': 'string'}
        elif f == 'lit':
            m = self.match(cat, rq, doc)
            v = {'t': m['t'], 'v': m['v']}
        elif f == 'value':
            v = self.val(node['t'])
        elif f == 'src':
            v = self.sel('string') if doc and r.random() < .5 else self.des('string', cat)
        elif f == 'id':
            v = self.des('string')['id'] if kind == 'des' else self.nid('new')
        elif f == 'iss':
            v = r.choice(['iss1', 'iss2', '~'])
        elif f == 'mbp':
            v = r.random() < .5
        elif f == 't':
            v = r.choice(['string', 'anyURI'])
        elif f == 'path':
            v = self.sel('string')['path']
        else:
            v = r.choice(['a text', 'another', '4.2'])
        return {'o': 'set', 'at': at, 'f': f, 'v': v}

    def back(self, ps):
        """a part taken out earlier, put where a part like it can be"""
        r = self.r
        n = r.choice([i for i in range(len(self.shelf))])
        kind, cat, v = self.shelf[n]
        v, frm = copy.deepcopy(v), {'from': n + 1}
        fit = []
        for at, k, c, node in ps:
            if kind == k and isinstance(node, list) and c == cat:
                fit.append(dict(frm, o='ins', at=at, i=r.randrange(len(node) + 1) + 1, x=v))
                fit += [dict(frm, o='put', at=at, i=i + 1, x=v) for i in range(len(node))][:1]
            elif (kind == 'tgt' and k in ('P', 'PS', 'rule') or kind in ('cond', 'eff') and k == 'rule' or
                  kind in ('src', 'lit') and k == 'match' and c == cat):
                fit.append(dict(frm, o='set', at=at, f=kind, v=v))
        if not fit:
            return None
        del self.shelf[n]
        return r.choice(fit)

    def note(self, p, op):
        """sometimes what an edit takes out is kept, to be put back"""
        r = self.r
        if not (op['o'] in ('del', 'put') or op['o'] == 'set' and op['f'] in ('tgt', 'cond', 'eff', 'src', 'lit')) or r.random() < .4:
            return
        x = taken(p, op)
        if x:
            at = op['at']
            if op['o'] != 'set':
                kind = at[-1] if at[-1] in ('rules', 'kids', 'args') else 'alt' if isinstance(at[-1], int) else 'sect'
                cat = at[-1] if kind == 'sect' else at[-2] if kind == 'alt' else ''
            else:
                kind, cat = op['f'], at[-3] if op['f'] in ('src', 'lit') else ''
            op['keep'] = True
            self.shelf.append((kind, cat, copy.deepcopy(x[0])))

    def history(self, n):
        r = self.r
        doc = r.random() < .4
        rqs = [self.request(pip=.15, doc=1 if doc else 0) for _ in range(r.choice([1, 2, 3]))]
        p = self.full(self.tree(r.choice(rqs), r.choice([0, 1, 1, 2]), 2, doc))
        cur, ops = copy.deepcopy(p), []
        self.shelf = []
        while len(ops) < n:
            op = self.edit(cur, rqs, doc)
            self.note(cur, op)
            ops.append(op)
            apply(cur, op)
        return {'kind': 'edit.hist', 'p': p, 'rqs': rqs, 'ops': ops}


def one_term_per_path(x, seen):
    """several terms can stand for the same path text: use one"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == 'path' and isinstance(v, list) or k == 'v' and x.get('f') == 'path' and isinstance(v, list):
                x[k] = seen.setdefault(R.xpath(v), v)
            else:
                one_term_per_path(v, seen)
    elif isinstance(x, list):
        for v in x:
            one_term_per_path(v, seen)


def c20(c):
    g = Edit('c20/%d' % c.seed)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps=%d Every=%d Emit=TRUE\nINVARIANTS Decides EmitH EmitI\nPROPERTY Steps PutBack\n'
    f1 = c.pool.submit(c.tlc, 'EditMachine', cfg % (1, 1), workers=1)
    f2 = c.pool.submit(c.tlc, 'EditMachine', cfg % (2, c.pick(97, 11)), workers=6, heap='6g')
    lines = []
    for i in range(c.pick(1500, 20000)):
        lines.append(g.history(g.r.choice([2, 5, 8, 12])))
    init = f1.result().tagged('@@INIT')[0]
    hs = f1.result().tagged('@@HIST') + f2.result().tagged('@@HIST')
    c.notes['histories_enumerated'] = c.states
    for h in hs:
        lines.append(dict(copy.deepcopy(init), kind='edit.hist', ops=h['ops']))
    for x in lines:
        one_term_per_path(x, {})
        x['load'] = 'xml' if R.xml_ok(x['p']) and g.r.random() < .6 else 'api'
        x['seed'] = g.r.randrange(10 ** 6)
    g.r.shuffle(lines)
    res = c.run_both(lines, shards=4)
    for x in lines[-2:]:
        c.sample(x['ops'])
    c.validate('EditTrace', res['lxml'] + res['std'], what='edits')


CHECKS = {'C20': c20}

"""C12: policy documents and what the readers make of them."""
import itertools
import json
import os

import gen
import realize as R

SCHEMES = ['bytes', 'elem', 'set', 'base', 'path', 'file', 'bytes-local', 'base-local']


def el(tag, at=(), kids=(), text=''):
    return {'tag': tag, 'ns': '', 'at': [{'n': n, 'v': v} for n, v in at if v is not None], 'text': text, 'kids': list(kids)}


class Docs(gen.Gen):
    """random raw documents, valid ones mostly"""
    TEXTS = ['x', 'some text', ' padded ', 'line\nbreak', 'a<b&c>d', 'quote"\'', ']]', 'tab\there', '  ']

    def id(self, p):
        r = self.r
        return r.choice(['%s-%d', 'urn:x:%s:%d', 'http://h/%s?a=1&b=%d', '%s <%d>', '%s "q" %d']) % (p, self.r.randrange(10 ** 6))

    def boolean(self, b):
        return self.r.choice(['true', '1', 'True'] if b else ['false', '0', None, None])

    def value(self):
        return el('AttributeValue', [('DataType', R.TYPE_URI[self.r.choice(gen.STR)])], text=self.r.choice(self.TEXTS))

    def anytype(self):
        return R.TYPE_URI[self.r.choice(gen.TYPES)]

    def designator(self, c):
        r = self.r
        return el(R.CAT[c] + 'AttributeDesignator', [('AttributeId', self.id('attr')), ('DataType', self.anytype()),
                                                     ('Issuer', r.choice([None, None, None, 'iss', 'a & b', ''])),
                                                     ('MustBePresent', self.boolean(r.random() < .4))])

    def selector(self):
        r = self.r
        return el('AttributeSelector', [('RequestContextPath', r.choice(['//a', '/a/b', "//a[@k='1']", './/x'])),
                                        ('DataType', self.anytype()), ('MustBePresent', self.boolean(r.random() < .4))])

    def source(self, c=None):
        return self.selector() if self.r.random() < .3 else self.designator(c or self.r.choice('SRAE'))

    FUNS = [R.urn(f, t) for f, t in [('equal', 'string'), ('equal', 'anyURI'), ('and', ''), ('not', ''), ('bag', 'string'),
                                     ('one-and-only', 'string'), ('at-least-one-member-of', 'string'), ('equal', 'integer'),
                                     ('regexp-match', 'string'), ('regexp-match', 'anyURI'), ('concatenate', 'string'),
                                     ('bag', 'boolean'), ('equal', 'x500Name'), ('one-and-only', 'rfc822Name')]]

    def apply(self, d):
        r = self.r
        kids = []
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            x = r.random()
            kids.append(self.apply(d - 1) if d and x < .4 else self.value() if x < .65 else self.source())
        return el('Apply', [('FunctionId', r.choice(self.FUNS))], kids)

    def match1(self, c):
        return el(R.CAT[c] + 'Match', [('MatchId', self.r.choice(self.FUNS))], [self.value(), self.source(c)])

    def target1(self):
        r = self.r
        kids = []
        for c in 'SRAE':
            if r.random() < .55:
                kids.append(el(R.CAT[c] + 's', [], [el(R.CAT[c], [], [self.match1(c) for _ in range(r.choice([1, 1, 2, 3]))])
                                                    for _ in range(r.choice([1, 1, 2, 3]))]))
        return el('Target', [], kids)

    def desc(self):
        return [el('Description', text=self.r.choice(self.TEXTS + ['']))] if self.r.random() < .5 else []

    def rule1(self, n):
        r = self.r
        kids = self.desc()
        if r.random() < .5:
            kids.append(self.target1())
        if r.random() < .6:
            kids.append(el('Condition', [], [self.apply(r.choice([0, 1, 2, 3]))]))
        return el('Rule', [('RuleId', '%s.%d' % (self.id('rule'), n)), ('Effect', r.choice(['Permit', 'Deny']))], kids)

    def head(self, which):
        kids = self.desc()
        if self.r.random() < .3:
            kids.append(el(which + 'Defaults', [], [el('XPathVersion', text=self.r.choice([R.XPATH_VERSION, 'other']))]))
        kids.append(self.target1() if self.r.random() < .7 else el('Target'))
        return kids

    def policy1(self):
        r = self.r
        return el('Policy', [('PolicyId', self.id('pol')), ('RuleCombiningAlgId', R.RULE_ALG + r.choice(gen.ALGS)),
                             ('Version', r.choice([None, None, '1.0', '2.0', '7']))],
                  self.head('Policy') + [self.rule1(i) for i in range(r.choice([0, 1, 1, 2, 3, 5, 9]))])

    def set1(self, d):
        r = self.r
        return el('PolicySet', [('PolicySetId', self.id('set')), ('PolicyCombiningAlgId', R.POL_ALG + r.choice(gen.ALGS)),
                                ('Version', r.choice([None, '1.0', '3.1']))],
                  self.head('PolicySet') + [self.set1(d - 1) if d and r.random() < .4 else self.policy1()
                                            for _ in range(r.choice([0, 1, 2, 2, 3]))])

    def doc1(self):
        return self.policy1() if self.r.random() < .6 else self.set1(2)

    # --------------------------------------------------------------- one edit
    def edit(self, nd):
        r = self.r
        nodes = []

        def walk(n, up):
            nodes.append((n, up))
            for k in n['kids']:
                walk(k, n)
        walk(nd, None)
        if r.random() < .35:
            tag = r.choice(sorted(set(x[0]['tag'] for x in nodes)))
            nodes = [x for x in nodes if x[0]['tag'] == tag]
        n, up = r.choice(nodes)
        x = r.choice(['drop', 'drop', 'rename-attr', 'value', 'value', 'add-attr', 'text', 'tag', 'ns', 'kids', 'remove', 'dup',
                      'swap', 'insert', 'insert', 'lift', 'move', 'again', 'again', 'mess', 'mess'])
        if x in ('drop', 'rename-attr', 'value') and n['at']:
            i = r.randrange(len(n['at']))
            if x == 'drop':
                del n['at'][i]
            elif x == 'value':
                n['at'][i]['v'] = r.choice(VALS)
            else:
                n['at'][i]['n'] = r.choice(['X%s', '%ss', 'x-%s']) % n['at'][i]['n']
        elif x == 'add-attr':
            n['at'].append({'n': 'Extra%d' % r.randrange(10 ** 6), 'v': 'x'})
        elif x == 'text':
            n['text'] = r.choice(self.TEXTS + [''])
        elif x == 'tag':
            n['tag'] = r.choice(TAGS)
        elif x == 'ns':
            n['ns'] = 'urn:other'
        elif x == 'kids':
            n['kids'] = []
        elif x == 'insert':
            t = r.choice(TAGS)
            k = r.choice([el(t), self.value(), self.source(), self.apply(1), self.rule1(0), self.target1(), self.policy1(),
                          el('Condition', [], [self.apply(0)])])
            n['kids'].insert(r.randrange(len(n['kids']) + 1), k)
        elif x == 'again' and n['kids']:        # a child, or its identifiers, once more further on
            q = n['kids']
            k = json.loads(json.dumps(r.choice(q)))
            if k['tag'] in ('Rule', 'Policy') and r.random() < .6:
                k['kids'] = []
            q.insert(r.randrange(len(q) + 1), k)
        elif x == 'mess':                       # children in any order, with something odd at some place
            r.shuffle(n['kids'])
            if r.random() < .8:
                n['kids'].insert(r.choice([len(n['kids']), r.randrange(len(n['kids']) + 1)]),
                                 r.choice([el(r.choice(TAGS)), self.value(), self.rule1(0), self.target1(), el('Junk')]))
        elif x == 'move' and up is not None:
            up['kids'].remove(n)
            r.choice(nodes)[0]['kids'].append(json.loads(json.dumps(n)))
        elif up is not None:
            i = [k is n for k in up['kids']].index(True)
            if x == 'remove':
                del up['kids'][i]
            elif x == 'dup':
                up['kids'].insert(i, json.loads(json.dumps(n)))
            elif x == 'swap':
                j = r.randrange(len(up['kids']))
                up['kids'][i], up['kids'][j] = up['kids'][j], up['kids'][i]
            elif x == 'lift':
                up['kids'][i:i + 1] = n['kids']
        return nd


TAGS = ['Policy', 'PolicySet', 'Rule', 'Target', 'Subjects', 'Resources', 'Actions', 'Environments', 'Subject', 'Resource', 'Action',
        'Environment', 'SubjectMatch', 'ResourceMatch', 'ActionMatch', 'EnvironmentMatch', 'AttributeValue',
        'SubjectAttributeDesignator', 'ResourceAttributeDesignator', 'ActionAttributeDesignator', 'EnvironmentAttributeDesignator',
        'AttributeSelector', 'Apply', 'Condition', 'Description', 'Obligations', 'VariableDefinition', 'CombinerParameters',
        'RuleCombinerParameters', 'PolicyCombinerParameters', 'PolicySetCombinerParameters', 'PolicyDefaults', 'PolicySetDefaults',
        'XPathVersion', 'Function', 'VariableReference', 'Junk', 'Request', 'rule', 'Rules', 'Match']
VALS = ['', 'urn:none', 'Permit', 'Deny', 'permit', 'Indeterminate', 'NotApplicable', 'true', '0', R.X + 'string', R.X + 'anyURI',
        R.X + 'integer', R.X + 'strin', 'string', R.RULE_ALG + 'deny-overrides', R.POL_ALG + 'permit-overrides',
        R.POL_ALG + 'only-one-applicable', 'urn:oasis:names:tc:xacml:1.1:rule-combining-algorithm:ordered-deny-overrides',
        'urn:oasis:names:tc:xacml:1.1:policy-combining-algorithm:ordered-deny-overrides', 'deny-overrides',
        R.F1 + 'string-equal', R.F1 + 'string-equals', R.F1 + 'or', R.F1 + 'string-greater-than', R.F1 + 'not']


def bases(g):
    """documents that between them have every kind of element"""
    S, A = R.TYPE_URI['string'], R.TYPE_URI['anyURI']

    def val(t=S, v='v'):
        return el('AttributeValue', [('DataType', t)], text=v)

    def des(c, **kw):
        return el(R.CAT[c] + 'AttributeDesignator', [('AttributeId', 'urn:a'), ('DataType', kw.get('t', S)), ('Issuer', kw.get('iss')),
                                                     ('MustBePresent', kw.get('mbp'))])

    def mt(c, src):
        return el(R.CAT[c] + 'Match', [('MatchId', R.F1 + 'string-equal')], [val(), src])
    sel = el('AttributeSelector', [('RequestContextPath', '//a'), ('DataType', S), ('MustBePresent', 'true')])
    t1 = el('Target', [], [el('Subjects', [], [el('Subject', [], [mt('S', des('S', iss='i', mbp='true'))]), el('Subject', [], [mt('S', sel)])]),
                           el('Resources', [], [el('Resource', [], [mt('R', des('R', t=A))])])])
    t2 = el('Target', [], [el('Actions', [], [el('Action', [], [mt('A', des('A')), mt('A', des('A'))])]),
                           el('Environments', [], [el('Environment', [], [mt('E', des('E'))])])])
    cond = el('Condition', [], [el('Apply', [('FunctionId', R.F1 + 'and')], [
        el('Apply', [('FunctionId', R.F1 + 'string-equal')], [val(), val(A, ' w ')]), des('S'), des('A', mbp='1'), sel])])
    p1 = el('Policy', [('PolicyId', 'p1'), ('RuleCombiningAlgId', R.RULE_ALG + 'deny-overrides'), ('Version', '2.0')], [
        el('Description', text=' about p1\n'), el('PolicyDefaults', [], [el('XPathVersion', text=R.XPATH_VERSION)]), t1,
        el('Rule', [('RuleId', 'r1'), ('Effect', 'Permit')], [el('Description', text='r1'), t2]),
        el('Rule', [('RuleId', 'r2'), ('Effect', 'Deny')])])
    p2 = el('Policy', [('PolicyId', 'p2'), ('RuleCombiningAlgId', R.RULE_ALG + 'first-applicable')], [
        el('Target'), el('Rule', [('RuleId', 'r1'), ('Effect', 'Permit')], [cond])])
    p3 = el('Policy', [('PolicyId', 'p3'), ('RuleCombiningAlgId', R.RULE_ALG + 'permit-overrides')], [el('Target')])
    s1 = el('PolicySet', [('PolicySetId', 's1'), ('PolicyCombiningAlgId', R.POL_ALG + 'deny-overrides'), ('Version', '1')], [
        el('Description', text='set'), el('PolicySetDefaults', [], [el('XPathVersion', text='x')]), t2, p3,
        el('PolicySet', [('PolicySetId', 's2'), ('PolicyCombiningAlgId', R.POL_ALG + 'permit-overrides')], [
            el('Target'), dict(p3, at=[{'n': 'PolicyId', 'v': 'p4'}] + p3['at'][1:])])])
    return [p1, p2, s1]


def clone(t):
    return json.loads(json.dumps(t))


def repeated(g):
    """documents of many rules, or policies, with one identifier twice, at every distance"""
    out = []
    for n in range(2, 10):
        for i in range(n):
            for j in range(i + 1, n):
                rules = [el('Rule', [('RuleId', 'r%d' % k), ('Effect', g.r.choice(['Permit', 'Deny']))]) for k in range(n)]
                rules[j]['at'][0]['v'] = 'r%d' % i
                out.append(el('Policy', [('PolicyId', 'p'), ('RuleCombiningAlgId', R.RULE_ALG + g.r.choice(gen.ALGS))],
                              [el('Target')] + rules))
    for n in range(2, 7):
        for i in range(n):
            for j in range(i + 1, n):
                kids = [el('Policy', [('PolicyId', 'p%d' % k), ('RuleCombiningAlgId', R.RULE_ALG + g.r.choice(gen.ALGS))], [el('Target')])
                        for k in range(n)]
                kids[j]['at'][0]['v'] = 'p%d' % i
                out.append(el('PolicySet', [('PolicySetId', 's'), ('PolicyCombiningAlgId', R.POL_ALG + g.r.choice(gen.ALGS))],
                              [el('Target')] + kids))
    return out


def disorder(g, base):
    """a document with the children of one element in other orders, alone and with something odd after them"""
    out = []
    for path in paths(base):
        kids = follow(base, path)['kids']
        if len(kids) > 1:
            orders = list(itertools.permutations(range(len(kids)))) if len(kids) < 5 else [
                g.r.sample(range(len(kids)), len(kids)) for _ in range(24)]
        else:
            orders = [range(len(kids))]
        for o in orders:
            for extra in (None, el('Junk'), g.r.choice(kids) if kids else el('Description', text='x'), el(g.r.choice(TAGS))):
                d = clone(base)
                n = follow(d, path)
                n['kids'] = [clone(kids[i]) for i in o] + ([clone(extra)] if extra else [])
                out.append(d)
    return out


def paths(n):
    return [[]] + [[i] + p for i, k in enumerate(n['kids']) for p in paths(k)]


def follow(n, path):
    for i in path:
        n = n['kids'][i]
    return n


def full_rule():
    """a policy with rules that have all their parts"""
    S = R.TYPE_URI['string']
    src = el('SubjectAttributeDesignator', [('AttributeId', 'urn:a'), ('DataType', S)])
    val = el('AttributeValue', [('DataType', S)], text='v')
    tgt = el('Target', [], [el('Subjects', [], [el('Subject', [], [el('SubjectMatch', [('MatchId', R.F1 + 'string-equal')], [val, src])])])])
    cond = el('Condition', [], [el('Apply', [('FunctionId', R.F1 + 'string-is-in')], [val, src])])
    cond['kids'][0]['at'][0]['v'] = R.F1 + 'string-equal'
    return el('Policy', [('PolicyId', 'p'), ('RuleCombiningAlgId', R.RULE_ALG + 'deny-overrides'), ('Version', '1.5')], [
        el('Description', text='of\nsome lines'), el('PolicyDefaults', [], [el('XPathVersion', text=R.XPATH_VERSION)]), tgt,
        el('Rule', [('RuleId', 'r1'), ('Effect', 'Permit')], [el('Description', text='r1'), tgt, cond])])


def tlaset(q):
    return '{%s}' % ', '.join('"%s"' % x for x in q)


def c12(c):
    g = Docs('c12/%d' % c.seed)
    path = os.path.join(c.scratch, 'bases.ndjson')
    with open(path, 'w') as f:
        for b in bases(g):
            f.write(json.dumps(b) + '\n')
    tags, vals = (TAGS, VALS) if c.thorough else (TAGS[::2] + ['Obligations', 'Junk'], VALS[::2])
    r = c.tlc('DocMachine', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Edits=1 Emit=TRUE NewTags=%s NewVals=%s\n'
              'INVARIANTS BaseLoads Lossless Required EmitD\n' % (tlaset(tags), tlaset(vals)), env={'BASES': path}, workers=8, heap='6g')
    docs = r.tagged('@@DOC')
    c.notes['edited_documents_enumerated'] = len(docs)
    by = {s: [d['t'] for d in docs if d['s'] == s] for s in range(4)}
    c.notes['by_status'] = {'refuse': len(by[0]), 'open': len(by[1]), 'may_load': len(by[2]), 'must_load': len(by[3])}
    lines = []
    n = c.pick(1700, 40000)
    for s in range(4):
        q = by[s] if len(by[s]) <= n else g.r.sample(by[s], n)
        for t in q[:None if s != 1 else n // 8]:
            lines.append({'t': t, 'wf': True, 'plain': g.r.random() < .3})
    rep, dis = repeated(g), [d for b in bases(g) + [full_rule()] for d in disorder(g, b)]
    c.notes['identifiers_repeated'], c.notes['children_reordered'] = len(rep), len(dis)
    for t in rep + (dis if c.thorough else g.r.sample(dis, min(len(dis), 900))):
        lines.append({'t': t, 'wf': True})
    for i in range(c.pick(1600, 30000)):
        lines.append({'t': g.doc1(), 'wf': True})
    for i in range(c.pick(1500, 40000)):
        t = g.doc1()
        for _ in range(g.r.choice([1, 1, 1, 2, 3])):
            t = g.edit(t)
        lines.append({'t': t, 'wf': True})
    for i in range(c.pick(250, 4000)):
        lines.append({'t': g.doc1(), 'wf': False, 'how': g.r.choice(['cut', 'drop', 'insert', 'tail', 'other'])})
    for i, x in enumerate(lines):
        tag = x['t']['tag']
        extra = {'Policy': ['policy', 'reader'], 'PolicySet': ['policyset', 'policyset-local']}.get(tag, [])
        x.update(kind='doc.one', seed='%d/%d' % (c.seed, i), via=g.r.sample(SCHEMES + extra, 2), debug=g.r.random() < .05)
    res = c.run_both(lines, shards=4)
    c.notes['documents_read'] = len(lines)
    c.notes['accepted'] = sum(o['ok'] for x in res['lxml'] for o in x.get('obs', []))
    for x in lines[-2:]:
        c.sample(x)
    c.validate('DocTrace', res['lxml'] + res['std'], what='document reading')


CHECKS = {'C12': c12}

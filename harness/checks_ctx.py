"""C14: request and response documents."""
import json
import os

import gen
import realize as R
from checks_doc import el, tlaset

ST = 'urn:oasis:names:tc:xacml:1.0:status:'
CODES = [ST + x for x in ('ok', 'missing-attribute', 'processing-error', 'syntax-error')]
DECS = ['Permit', 'Deny', 'NotApplicable', 'Indeterminate']
TEXTS = ['x', 'v', '', ' padded ', 'line\nbreak', 'a<b&c>d', 'quote"\'', ']]>', 'tab\there', '  ', '{x}y', '&amp;', 'null', '0', '\n', '\nafter  a break', '\tx', ' \n x \n ', 'a  b', 'ends\n', '\u00a0x']
NAMES = ['urn:a', 'urn:b', 'http://h/x?a=1&b=2', 'a "q" b', 'a<b>', ' sp ', '{urn:x}y', '']
STRS = [R.TYPE_URI[t] for t in ('string', 'anyURI', 'x500Name', 'rfc822Name')] + [
    'urn:oasis:names:tc:xacml:2.0:data-type:ipAddress', 'urn:oasis:names:tc:xacml:2.0:data-type:dnsName']
PARTS = ['Subject', 'Resource', 'Action', 'Environment', 'Attribute', 'Result', 'Decision']
TAGS = ['Request', 'Response', 'Subject', 'Resource', 'Action', 'Environment', 'Attribute', 'AttributeValue', 'ResourceContent',
        'Result', 'Decision', 'Status', 'StatusCode', 'StatusMessage', 'Obligations', 'Obligation', 'Junk', 'Policy', 'attribute']
VALS = ['', 'urn:none', 'Permit', 'Deny', 'permit', 'NotApplicable', 'Indeterminate', R.X + 'string', R.X + 'anyURI', R.X + 'strin',
        R.X + 'integer', 'string', ST + 'ok', ST + 'other', 'x y']


class Ctx(gen.Gen):
    def attr(self, vals=True):
        r = self.r
        return {'id': r.choice(NAMES[:-1]), 'dt': r.choice(STRS), 'iss': r.choice([[], [], ['me'], ['a & b'], ['']]),
                'vals': [r.choice(TEXTS) for _ in range(r.choice([1, 1, 1, 2, 3, 6] if vals or r.random() < .8 else [0]))]}

    def attrs(self, vals=True):
        return [self.attr(vals) for _ in range(self.r.choice([0, 1, 1, 2, 3, 5]))]

    def content(self, d=2, top=True):
        r = self.r
        n = el('ResourceContent' if top else r.choice(['a', 'b', 'Attribute', 'AttributeValue', 'Resource', 'ResourceContent', 'Subject']),
               r.sample([('k', r.choice(TEXTS)), ('AttributeId', 'urn:a'), ('DataType', STRS[0])], r.choice([0, 0, 1, 2])))
        if not top and r.random() < .5:
            n['ns'] = 'urn:other'
        if d:
            n['kids'] = [self.content(d - 1, False) for _ in range(r.choice([0, 1, 2, 3]))]
        n['text'] = r.choice(['', 'x', 'a<b&c', 'two words'])
        if n['kids'] and r.random() < .3:
            n['kids'].append({'tag': '#text', 'ns': '', 'at': [], 'text': 'tail', 'kids': []})
        return n

    def req(self, vals=True, small=False):
        r = self.r
        n = lambda: r.choice([0, 1, 1, 1, 2, 3])
        return {'k': 'RQ', 'S': [{'cat': r.choice([[], ['urn:oasis:names:tc:xacml:1.0:subject-category:access-subject'], ['x & y']]),
                                  'at': self.attrs(vals)} for _ in range(n())],
                'R': [{'content': [self.content()] if r.random() < .3 else [], 'at': self.attrs(vals)} for _ in range(n())],
                'A': [self.attrs(vals)] if small or r.random() < .95 else [], 'E': [self.attrs(vals)] if small or r.random() < .95 else []}

    def result1(self, extra=False):
        r = self.r
        return {'rid': r.choice([[], [], ['urn:r'], ['a<b&c'], ['http://x/y z']]), 'dec': r.choice(DECS),
                'st': [{'code': r.choice(CODES), 'msg': r.choice(['', 'fine', 'a < b', 'two\nlines'])}] if extra == 'status' else [],
                'ob': [{'id': r.choice(NAMES[:-1]), 'on': r.choice(['Permit', 'Deny'])}] if extra == 'obligations' else []}

    def resp(self, extra=False):
        r = self.r
        return {'k': 'RS', 'rs': [self.result1(extra) for _ in range(r.choice([1, 1, 2, 3] if extra else [0, 1, 1, 2, 3, 4]))]}

    # ---------------------------------------------------------------- documents
    def x_attr(self, a):
        return el('Attribute', [('AttributeId', a['id']), ('DataType', a['dt'])] + [('Issuer', v) for v in a['iss']],
                  [el('AttributeValue', text=v) for v in a['vals']])

    def x_doc(self, c):
        if c['k'] == 'RQ':
            q = lambda at: [self.x_attr(a) for a in at]
            return el('Request', [], [el('Subject', [('SubjectCategory', v) for v in s['cat']], q(s['at'])) for s in c['S']]
                      + [el('Resource', [], s['content'] + q(s['at'])) for s in c['R']]
                      + [el('Action', [], q(s)) for s in c['A']] + [el('Environment', [], q(s)) for s in c['E']])
        return el('Response', [], [el('Result', [('ResourceId', v) for v in x['rid']], [el('Decision', text=x['dec'])]
                  + [el('Status', [], [el('StatusCode', [('Value', s['code'])])] + ([el('StatusMessage', text=s['msg'])] if s['msg'] else []))
                     for s in x['st']]
                  + [el('Obligations', [], [el('Obligation', [('ObligationId', b['id']), ('FulfillOn', b['on'])])]) for b in x['ob']])
            for x in c['rs']])

    def edit(self, nd):
        r = self.r
        nodes = []

        def walk(n, up):
            nodes.append((n, up))
            for k in n['kids']:
                walk(k, n)
        walk(nd, None)
        n, up = r.choice(nodes)
        if n['tag'] == '#text':
            return nd
        x = r.choice(['drop', 'drop', 'value', 'rename', 'text', 'tag', 'ns', 'kids', 'remove', 'dup', 'swap', 'insert', 'lift'])
        if x in ('drop', 'value', 'rename') and n['at']:
            i = r.randrange(len(n['at']))
            if x == 'drop':
                del n['at'][i]
            elif x == 'value':
                n['at'][i]['v'] = r.choice(VALS)
            else:
                n['at'][i]['n'] += 's'
        elif x == 'text':
            n['text'] = r.choice(TEXTS)
        elif x == 'tag':
            n['tag'] = r.choice(TAGS)
        elif x == 'ns':
            n['ns'] = 'urn:other'
        elif x == 'kids':
            n['kids'] = []
        elif x == 'insert':
            k = r.choice([el(r.choice(TAGS)), self.x_attr(self.attr()), el('AttributeValue', text='x'), el('Decision', text='Permit')])
            n['kids'].insert(0 if n['kids'] and n['kids'][-1]['tag'] == '#text' else r.randrange(len(n['kids']) + 1), k)
        elif up is not None and not any(k['tag'] == '#text' for k in up['kids'] + n['kids']):
            i = [k is n for k in up['kids']].index(True)
            if x == 'remove':
                del up['kids'][i]
            elif x == 'dup':
                up['kids'].insert(i, json.loads(json.dumps(n)))
            elif x == 'swap':
                j = r.randrange(len(up['kids']))
                up['kids'][i], up['kids'][j] = up['kids'][j], up['kids'][i]
            elif x == 'lift':
                up['kids'][i:i + 1] = n['kids']
        return nd

    # ---------------------------------------------------------------- histories
    def history(self, c, n):
        """edits that are possible, tracked on a copy of the content"""
        r = self.r
        tr = [{'o': 'start', 'c': json.loads(json.dumps(c))}]
        for _ in range(n):
            if c['k'] == 'RS':
                rs, op = c['rs'], r.choice(['addresult', 'delresult', 'setdec', 'setrid', 'reload'])
                if op == 'reload':
                    tr.append({'o': op})
                elif op == 'addresult':
                    x = self.result1()
                    rs.append(x)
                    tr.append({'o': op, 'd': x['dec'], 'v': x['rid']})
                elif rs:
                    i = r.randrange(len(rs))
                    if op == 'delresult':
                        del rs[i]
                        tr.append({'o': op, 'i': i + 1})
                    elif op == 'setdec':
                        tr.append({'o': op, 'i': i + 1, 'd': r.choice(DECS)})
                    else:
                        tr.append({'o': op, 'i': i + 1, 'v': r.choice(['urn:r2', 'c < d'])})
                continue
            op = r.choice(['addattr', 'addattr', 'delattr', 'setid', 'setiss', 'addval', 'addval', 'delval', 'setval', 'addsub', 'delsub',
                           'setcat', 'addres', 'delres', 'setcont', 'setact', 'setenv', 'reload', 'reload'])
            hs = [({'c': 'S', 'i': i + 1}, s['at']) for i, s in enumerate(c['S'])] + \
                 [({'c': 'R', 'i': i + 1}, s['at']) for i, s in enumerate(c['R'])] + \
                 [({'c': 'A', 'i': 1}, c['A'][0]), ({'c': 'E', 'i': 1}, c['E'][0])]
            h, at = r.choice(hs)
            if op == 'reload':
                tr.append({'o': op})
            elif op == 'addattr':
                a = self.attr(r.random() < .95)
                at.append(a)
                tr.append({'o': op, 'h': h, 'a': json.loads(json.dumps(a))})
            elif op in ('delattr', 'setid', 'setiss', 'addval', 'delval', 'setval'):
                if not at:
                    continue
                i = r.randrange(len(at))
                s = {'o': op, 'h': h, 'i': i + 1}
                if op == 'delattr':
                    del at[i]
                elif op == 'setid':
                    s['v'] = r.choice(NAMES[:-1])
                elif op == 'setiss':
                    s['v'] = r.choice(['me', 'you & me', ''])
                elif op == 'addval':
                    s['v'] = r.choice(TEXTS)
                    at[i]['vals'].append(s['v'])
                else:
                    if not at[i]['vals']:
                        continue
                    j = r.randrange(len(at[i]['vals']))
                    s['j'] = j + 1
                    if op == 'setval':
                        s['v'] = r.choice(TEXTS)
                    else:
                        del at[i]['vals'][j]
                tr.append(s)
            elif op == 'addsub':
                c['S'].append({'cat': [], 'at': []})
                tr.append({'o': op, 'v': r.choice([[], ['urn:cat']])})
            elif op == 'addres':
                c['R'].append({'content': [], 'at': []})
                tr.append({'o': op, 'n': r.choice([[], [self.content()]])})
            elif op in ('delsub', 'setcat', 'delres', 'setcont'):
                q = c['S' if op in ('delsub', 'setcat') else 'R']
                if not q:
                    continue
                i = r.randrange(len(q))
                s = {'o': op, 'i': i + 1}
                if op == 'setcat':
                    s['v'] = r.choice(['urn:cat', 'a<b'])
                elif op == 'setcont':
                    s['n'] = [self.content()]
                else:
                    del q[i]
                tr.append(s)
            else:
                q = self.attrs()
                c['A' if op == 'setact' else 'E'][0] = q
                tr.append({'o': op, 'q': json.loads(json.dumps(q))})
        return tr


def bases(g):
    a = lambda i, **kw: dict({'id': 'urn:%d' % i, 'dt': STRS[i % 2], 'iss': [], 'vals': ['v', ' w']}, **kw)
    cont = el('ResourceContent', [('k', 'v')], [el('a', [], [el('b', text='t')]), dict(el('c'), ns='urn:other')])
    rq = {'k': 'RQ', 'S': [{'cat': ['urn:cat'], 'at': [a(1, iss=['me']), a(2, vals=[''])]}, {'cat': [], 'at': []}],
          'R': [{'content': [cont], 'at': [a(3)]}], 'A': [[a(4, vals=['x'])]], 'E': [[]]}
    rs = {'k': 'RS', 'rs': [{'rid': ['urn:r'], 'dec': 'Permit', 'st': [], 'ob': []}, {'rid': [], 'dec': 'NotApplicable', 'st': [], 'ob': []}]}
    rt = {'k': 'RS', 'rs': [{'rid': [], 'dec': 'Deny', 'st': [{'code': CODES[2], 'msg': 'm'}], 'ob': [{'id': 'urn:o', 'on': 'Deny'}]}]}
    return [g.x_doc(c) for c in (rq, rs, rt)]


def starts():
    a = {'id': 'urn:1', 'dt': STRS[0], 'iss': [], 'vals': ['v']}
    return [{'k': 'RQ', 'S': [{'cat': [], 'at': [a]}], 'R': [{'content': [], 'at': []}], 'A': [[]], 'E': [[]]},
            {'k': 'RS', 'rs': [{'rid': [], 'dec': 'Permit', 'st': [], 'ob': []}]}]


def tag_of(t):
    """which part the library leaves out a document or content has"""
    s = json.dumps(t)
    return 'status' if '"Status"' in s or '"code"' in s else 'obligations' if '"Obligations"' in s or '"on"' in s else ''


def c14(c):
    g, pg = Ctx('c14/%d' % c.seed), gen.Gen('c14p/%d' % c.seed)
    files = {}
    for name, q in (('BASES', bases(g)), ('STARTS', starts())):
        files[name] = os.path.join(c.scratch, name)
        with open(files[name], 'w') as f:
            f.writelines(json.dumps(b) + '\n' for b in q)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Docs=%s Depth=%d NewTags=%s NewVals=%s\n' \
          'INVARIANTS RoundTrip BaseLoads Lossless NothingInvented EmitD\n'
    tags, vals = tlaset(TAGS), tlaset(VALS)
    f1 = c.pool.submit(c.tlc, 'ContextMachine', cfg % ('TRUE', 0, tags, vals), env=files, workers=4, heap='4g')
    f2 = c.pool.submit(c.tlc, 'ContextMachine', cfg % ('FALSE', c.pick(2, 3), '{}', '{}'), env=files, workers=4, heap='6g')
    docs, hists = f1.result().tagged('@@DOC'), f2.result().tagged('@@HIST')
    c.notes['documents_enumerated'], c.notes['histories_enumerated'] = len(docs), len(hists)
    lines = []
    n = c.pick(4000, 10 ** 6)
    for d in docs if len(docs) <= n else g.r.sample(docs, n):
        lines.append({'kind': 'ctx.doc', 't': d['t'], 'plain': g.r.random() < .3})
    n = c.pick(3000, 40000)
    for h in hists if len(hists) <= n else g.r.sample(hists, n):
        lines.append({'kind': 'ctx.hist', 'tr': h})
    for i in range(c.pick(700, 15000)):
        q = g.req(g.r.random() < .9) if g.r.random() < .75 else g.resp()
        lines.append({'kind': 'ctx.obj', 'c': q, 'how': g.r.randrange(3)})
    for i in range(c.pick(150, 2000)):
        lines.append({'kind': 'ctx.obj', 'c': g.resp(g.r.choice(['status', 'obligations'])), 'how': g.r.randrange(3)})
    for i in range(c.pick(1000, 25000)):
        t = g.x_doc(g.req() if g.r.random() < .7 else g.resp())
        for _ in range(g.r.choice([0, 1, 1, 1, 2, 3])):
            t = g.edit(t)
        lines.append({'kind': 'ctx.doc', 't': t})
    for i in range(c.pick(250, 6000)):
        q = g.req(small=True) if g.r.random() < .7 else g.resp()
        lines.append({'kind': 'ctx.hist', 'tr': g.history(q, g.r.choice([3, 6, 12]))})
    for i in range(c.pick(500, 10000)):
        k = g.r.choice(PARTS)
        t = g.x_doc(g.resp(g.r.choice([False, False, 'status', 'obligations'])) if k in ('Result', 'Decision') else g.req())
        if g.r.random() < .6:
            t = g.edit(t)
        q = [t]
        for n in q:
            q += n['kids']
        q = [n for n in q if n['tag'] == k] or q
        lines.append({'kind': 'ctx.part', 'k': k if g.r.random() < .93 else g.r.choice(PARTS), 't': g.r.choice(q)})
    for i in range(c.pick(20, 300)):
        rqs = [pg.request() for _ in range(3)]
        lines.append({'kind': 'ctx.pdp', 'p': pg.policy(rqs[0], 2, 1), 'rqs': rqs, 'tag': 'status'})
    for i, x in enumerate(lines):
        x.setdefault('tag', tag_of(x.get('t', x.get('c', ''))) if x['kind'] != 'ctx.hist' else '')
        if x['kind'] == 'ctx.doc':
            x['k'] = {'Request': 'RQ', 'Response': 'RS'}.get(x['t']['tag']) or g.r.choice(['RQ', 'RS'])
            if g.r.random() < .02:
                x['k'] = g.r.choice(['RQ', 'RS'])
            x['wf'] = True
        x.update(seed='%d/%d' % (c.seed, i), debug=g.r.random() < .05)
    res = c.run_both(lines, shards=4)
    for x in lines[-2:] + lines[:2]:
        c.sample(x)
    c.validate('ContextTrace', res['lxml'] + res['std'], what='contexts')


CHECKS = {'C14': c14}

"""C21: request and response objects and their parts."""
import copy
import random

LISTS = {'Request': {'subjects': 'Subject', 'resources': 'Resource'}, 'Subject': {'attributes': 'Attribute'},
         'Resource': {'attributes': 'Attribute'}, 'Action': {'attributes': 'Attribute'}, 'Environment': {'attributes': 'Attribute'},
         'Attribute': {'attributeValues': 'Value'}, 'Response': {'results': 'Result'}}
ONES = {'Request': {'action': 'Action', 'environment': 'Environment', 'ctxHandler': 'Handler', 'attributeSelector': 'Selector'},
        'Result': {'decision': 'Decision', 'status': 'Status', 'obligations': 'Obligation'}, 'Status': {'statusCode': 'StatusCode'},
        'Handler': {'pip': 'Pip', 'pdp': 'Pdp'}, 'Pdp': {'policy': 'Policy'}}
TEXTS = {'Subject': ['subjectCategory'], 'Attribute': ['attributeId', 'dataType', 'issuer'], 'Value': ['value'], 'Result': ['resourceId'],
         'Status': ['statusMessage'], 'Obligation': ['obligationId', 'fulfillOn']}
ANYS = {'Resource': ['resourceContent'], 'Status': ['statusDetail']}
DEC = ['Permit', 'Deny', 'Indeterminate', 'NotApplicable']
ST = 'urn:oasis:names:tc:xacml:1.0:status:'
CODES = [ST + x for x in ('ok', 'missing-attribute', 'processing-error', 'syntax-error')]
CLASSES = ['Request', 'Subject', 'Resource', 'Action', 'Environment', 'Attribute', 'Attribute', 'Value', 'Value', 'Response', 'Result',
           'Status', 'StatusCode', 'Decision', 'Obligation', 'Handler', 'Pdp', 'Selector', 'Pip', 'Policy']
TYPES = ['string', 'anyURI', 'integer', 'boolean', 'double', 'date', 'dateTime', 'time', 'dayTimeDuration', 'yearMonthDuration', 'x500Name',
         'rfc822Name', 'hexBinary', 'ipAddress', 'dnsName']
ODDS = ['none', 'int', 'true', 'float', 'datetime', 'timedelta', 'list', 'bytes']
WORDS = ['', ' ', 'a', 'urn:a', 'Permit', 'deny', 'text with <&>', 'été', ST + 'ok', 'http://www.w3.org/2001/XMLSchema#string']


class Sim(object):
    """keeps track of the objects while a history is made up"""

    def __init__(self, h):
        self.h = [dict(copy.deepcopy(o), s=copy.deepcopy(o['s'] or {})) for o in h]

    def reach(self, i, seen):
        if i in seen:
            return seen
        seen.append(i)
        o = self.h[i - 1]
        for f in LISTS.get(o['c'], {}):
            for j in o['s'][f]:
                self.reach(j, seen)
        for f in ONES.get(o['c'], {}):
            if o['s'][f]:
                self.reach(o['s'][f], seen)
        return seen


def history(r, h, n):
    S = Sim(h)
    tr = []

    def pick(c):
        q = [i + 1 for i, o in enumerate(S.h) if o['c'] == c]
        return r.choice(q) if q else None

    def arg(c):
        """mostly an object of class c"""
        j = pick(c)
        x = r.random()
        if j and x < .7:
            return {'t': 'obj', 'i': j}
        if x < .85:
            return {'t': 'obj', 'i': r.randrange(len(S.h)) + 1}
        return {'t': 'odd', 's': r.choice(ODDS)} if x < .95 else {'t': 'str', 's': r.choice(WORDS)}

    def is_(a, c):
        return a['t'] == 'obj' and S.h[a['i'] - 1]['c'] == c
    while len(tr) < n:
        x = r.random()
        if x < .12 and len(S.h) < 45:
            c = r.choice(CLASSES)
            if c == 'Decision' and r.random() < .5:
                v = r.choice(DEC)
                op = {'o': 'dec', 'v': v}
                if not any(o['fix'] and o['s']['value'] == v for o in S.h):
                    tr.append(op)
                    S.h.append({'c': c, 'fix': True, 's': {'value': v}})
                continue
            tr.append({'o': 'val', 'ty': r.choice(TYPES)} if c == 'Value' else {'o': 'new', 'c': c})
            s = {f: [] for f in LISTS.get(c, {})}
            s.update({f: 0 for f in ONES.get(c, {})})
            S.h.append({'c': c, 'fix': False, 's': s})
            continue
        if x < .15 and len(S.h) < 45:
            ob = pick('Obligation')
            op = {'o': 'made', 'd': {'t': 'str', 's': r.choice(DEC)} if r.random() < .5 else arg('Decision'), 'rid': {'t': 'str', 's': r.choice(WORDS)},
                  'ob': {'t': 'obj', 'i': ob} if ob and r.random() < .5 else {'t': 'odd', 's': 'none'},
                  'code': {'t': 'str', 's': r.choice(CODES + WORDS[-2:])}, 'msg': {'t': 'str', 's': r.choice(WORDS)}}
            for m in op:
                if m != 'o' and r.random() < .2:
                    op[m] = {'t': 'def'}
            tr.append(op)
            d = op['d']
            if (d['t'] == 'def' or d['t'] == 'str' and d['s'] in DEC or is_(d, 'Decision')) and op['code'].get('s', CODES[0]) in CODES:
                n0 = len(S.h)
                S.h += [{'c': 'Result', 'fix': False, 's': {'decision': n0 + 2, 'status': n0 + 3, 'obligations': op['ob'].get('i', 0)}},
                        {'c': 'Decision', 'fix': False, 's': {}}, {'c': 'Status', 'fix': False, 's': {'statusCode': n0 + 4}},
                        {'c': 'StatusCode', 'fix': False, 's': {}}]
            continue
        i = r.randrange(len(S.h)) + 1
        o = S.h[i - 1]
        c = o['c']
        if x < .23:
            q = S.reach(i, [])
            if len(S.h) + len(q) > 60:
                continue
            cs = set(S.h[j - 1]['c'] for j in q)
            how = r.choice(['deep', '2', '4', '5']) if not cs & {'Selector', 'Policy', 'Pdp', 'Handler'} else 'deep'
            tr.append({'o': 'copy', 'i': i, 'how': how})
            at = {j: len(S.h) + k + 1 for k, j in enumerate(q)}
            for j in q:
                p = S.h[j - 1]
                S.h.append({'c': p['c'], 'fix': p['fix'], 's': {f: [at[y] for y in v] if isinstance(v, list) else at.get(v, 0) if isinstance(v, int)
                                                               else v for f, v in p['s'].items()}})
            continue
        ls, os, ts, ans = LISTS.get(c, {}), ONES.get(c, {}), TEXTS.get(c, []), ANYS.get(c, [])
        fs = [('L', f) for f in ls] * 2 + [('O', f) for f in os] + [('T', f) for f in ts] + [('A', f) for f in ans] + \
            ([('V', 'value')] if c in ('StatusCode', 'Decision') else [])
        if not fs:
            continue
        k, f = r.choice(fs)
        if k == 'T':
            a = {'t': 'str', 's': r.choice(WORDS)} if r.random() < .7 else arg('Subject')
            if c == 'Value' and r.random() < .5:
                a = {'t': 'odd', 's': r.choice(ODDS)}
            tr.append({'o': 'set', 'i': i, 'f': f, 'a': a})
        elif k == 'A':
            a = {'t': 'str', 's': r.choice(WORDS)} if r.random() < .5 else {'t': 'odd', 's': r.choice(ODDS + (['elem'] * 5 if c == 'Resource' else []))}
            tr.append({'o': 'set', 'i': i, 'f': f, 'a': a})
        elif k == 'V':
            x = r.random()
            a = {'t': 'str', 's': r.choice(DEC if c == 'Decision' else CODES)} if x < .5 else {'t': 'str', 's': r.choice(WORDS)} if x < .7 else arg('Decision')
            tr.append({'o': 'set', 'i': i, 'f': f, 'a': a})
        elif k == 'O':
            a = arg(os[f])
            tr.append({'o': 'set', 'i': i, 'f': f, 'a': a})
            if is_(a, os[f]):
                o['s'][f] = a['i']
        else:
            q, of = o['s'][f], ls[f]
            y = r.random()
            if y < .05:
                tr.append({'o': 'set', 'i': i, 'f': f, 'a': arg(of)})
            elif y < .12:
                et = r.choice(['Value', 'Value', 'str', 'Attribute'])
                xs = [pick('Value') for _ in range(r.choice([0, 1, 2]))] if et == 'Value' and pick('Value') else []
                tr.append({'o': 'setl', 'i': i, 'f': f, 'et': et, 'xs': xs})
                if f == 'attributeValues' and et == 'Value':
                    o['s'][f] = xs
            elif y < .22 and q:
                m = r.randrange(len(q)) + 1
                tr.append({'o': 'del', 'i': i, 'f': f, 'n': m})
                del q[m - 1]
            elif y < .25:
                tr.append({'o': 'clear', 'i': i, 'f': f})
                del q[:]
            elif y < .4:
                as_ = [arg(of) for _ in range(r.choice([0, 1, 2, 3]))]
                tr.append({'o': 'ext', 'i': i, 'f': f, 'as': as_})
                if all(is_(a, of) for a in as_):
                    q += [a['i'] for a in as_]
            else:
                a = arg(of)
                ok = is_(a, of)
                if y < .75 or not q:
                    tr.append({'o': 'app', 'i': i, 'f': f, 'a': a})
                    if ok:
                        q.append(a['i'])
                elif y < .88:
                    m = r.randrange(len(q) + 1) + 1
                    tr.append({'o': 'ins', 'i': i, 'f': f, 'n': m, 'a': a})
                    if ok:
                        q.insert(m - 1, a['i'])
                else:
                    m = r.randrange(len(q)) + 1
                    tr.append({'o': 'put', 'i': i, 'f': f, 'n': m, 'a': a})
                    if ok:
                        q[m - 1] = a['i']
    return tr


def c21(c):
    r = random.Random('c21/%d' % c.seed)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth=%d Emit=TRUE\nINVARIANTS Typed Constant EmitH EmitI\nPROPERTY Frame\n%s'
    f1 = c.pool.submit(c.tlc, 'ContextObjectsMachine', cfg % (1, ''), workers=1)
    f2 = c.pool.submit(c.tlc, 'ContextObjectsMachine', cfg % (c.pick(2, 3), 'VIEW Heap\n'), workers=1 if not c.thorough else 6, heap='6g')
    h = f1.result().tagged('@@INIT')[0]['h']
    hs = f1.result().tagged('@@HIST')
    deep = sorted(f2.result().tagged('@@HIST'), key=str)
    c.notes['histories_enumerated'] = len(hs) + len(deep)
    r.shuffle(deep)
    hs += deep[:c.pick(3000, 30000)]
    lines = [{'kind': 'ctxobj.hist', 'h': h, 'tr': x['tr']} for x in hs]
    for i in range(c.pick(1200, 12000)):
        lines.append({'kind': 'ctxobj.hist', 'h': h, 'tr': history(r, h, r.choice([5, 10, 20, 30]))})
    r.shuffle(lines)
    res = c.run_both(lines, shards=4)
    for x in lines[-3:]:
        c.sample(x['tr'])
    c.validate('ContextObjectsTrace', res['lxml'] + res['std'], what='context objects')


CHECKS = {'C21': c21}

"""The same inputs under every XML configuration (spec/Backends.tla)."""
import io
import json
import os
import random
import tempfile

import realize as R
import w_ctx
import w_doc

CTX = w_ctx.NS
POL = R.POLICY_NS
S = R.TYPE_URI['string']
ITEM = {'a': 'a', ' ': ' ', 'd': '<![CDATA[<b]]>', 'r': '&amp;', 'c': '<!-- x -->', 'p': '<?x y?>'}
ATTR = '<Attribute AttributeId="urn:a" DataType="%s">%%s</Attribute>' % S
FA = R.RULE_ALG + 'first-applicable'


def D(x):
    return json.dumps(x, sort_keys=True)


def ET():
    from ndg.xacml import importElementTree
    return importElementTree()


def element(text, how, env):
    data = text.encode('utf-8') if isinstance(text, str) else text
    et = ET()
    how %= 4
    if how == 0:
        return et.fromstring(data)
    if how == 1:
        return et.parse(io.BytesIO(data)).getroot()
    path = os.path.join(env['tmp'], 'e.xml')
    with open(path, 'wb') as f:
        f.write(data)
    if how == 2:
        return et.parse(path).getroot()
    with open(path, 'rb') as f:
        return et.parse(f).getroot()


def load(text, how, env):
    """a policy document, through any of the ways in"""
    via = ['bytes', 'elem', 'path', 'file', 'set', 'base'][how % 6]
    return w_doc.read(via, text.encode('utf-8') if isinstance(text, str) else text, env)


# ------------------------------------------------------------------ contents of BackendsMachine
VAL = '<AttributeValue DataType="%s">%%s</AttributeValue>' % S


def rule(i, cond=''):
    return '<Rule RuleId="r%d" Effect="Permit">%s</Rule>' % (i, cond)


def apply_(f, args):
    return '<Apply FunctionId="%s%s">%s</Apply>' % (R.F1, f, args)


def pol(inner, i='p'):
    return '<Policy xmlns="%s" PolicyId="%s" RuleCombiningAlgId="%s">%s</Policy>' % (POL, i, FA, inner)


def policy_with(place, x):
    if place == 'value':
        return pol('<Target/>' + rule(1, '<Condition>%s</Condition>' % apply_('string-equal', VAL % x + VAL % 'z')))
    if place == 'args':
        return pol('<Target/>' + rule(1, '<Condition>%s</Condition>' % apply_('and', x)))
    if place == 'description':
        return pol('<Description>%s</Description><Target/>' % x)
    if place == 'rule-description':
        return pol('<Target/>' + rule(1, '<Description>%s</Description>' % x))
    if place == 'xpathversion':
        return pol('<PolicyDefaults><XPathVersion>%s</XPathVersion></PolicyDefaults><Target/>' % x)
    if place == 'rules':
        return pol('<Target/>' + x)
    if place == 'subjects':
        return pol('<Target><Subjects>%s</Subjects></Target>' % x)
    if place == 'policies':
        return ('<PolicySet xmlns="%s" PolicySetId="s" PolicyCombiningAlgId="%sdeny-overrides"><Target/>%s</PolicySet>' % (POL, R.POL_ALG, x))


CHILD = {'rules': lambda i: rule(i), 'args': lambda i: apply_('not', VAL % i), 'policies': lambda i: pol('<Target/>', 'p%d' % i),
         'subjects': lambda i: '<Subject><SubjectMatch MatchId="%sstring-equal">%s<SubjectAttributeDesignator AttributeId="urn:a" DataType="%s"/>'
                               '</SubjectMatch></Subject>' % (R.F1, VAL % i, S),
         'attribute': lambda i: '<AttributeValue>v%d</AttributeValue>' % i, 'request': lambda i: '<Subject/>',
         'response': lambda i: '<Result><Decision>Permit</Decision></Result>'}


def request_with(place, x):
    if place == 'request':
        return '<Request xmlns="%s">%s<Resource/><Action/><Environment/></Request>' % (CTX, x)
    if place == 'response':
        return '<Response xmlns="%s">%s</Response>' % (CTX, x)
    v = x if place == 'attribute' else '<AttributeValue>%s</AttributeValue>' % x
    if place == 'selected':
        return ('<Request xmlns="%s"><Subject/><Resource><ResourceContent><m xmlns="">%s</m></ResourceContent></Resource><Action/><Environment/></Request>'
                % (CTX, x))
    env = place == 'env-value'
    return ('<Request xmlns="%s"><Subject>%s</Subject><Resource/><Action/><Environment>%s</Environment></Request>'
            % (CTX, '' if env else ATTR % v, ATTR % v if env else ''))


def surface(c, env):
    place, x, n = c['place'], '', 0
    for i in c['items']:
        if i == 'e':
            n += 1
            x += CHILD.get(place, lambda i: '<k>v</k>')(n)
        else:
            x += ITEM[i]
    try:
        if place in ('attribute', 'request', 'context-value', 'env-value', 'selected', 'response'):
            e = element(request_with(place, x), c['how'], env)
            o = w_ctx.codec('RS' if place == 'response' else 'RQ').fromXML(e)
            if place == 'response':
                return {'o': ['kids', str(len(o.results))]}
            if place == 'selected':
                from ndg.xacml.core.attributeselector import AttributeSelector
                from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
                o.attributeSelector = EtreeXPathSelector(e)
                s = AttributeSelector()
                s.requestContextPath, s.dataType = '//m', S
                return {'o': ['bag'] + [v.value for v in s.evaluate(o)]}
            if place == 'request':
                return {'o': ['kids', str(len(o.subjects))]}
            a = (o.environment if place == 'env-value' else o.subjects[0]).attributes[0]
            return {'o': ['kids', str(len(a.attributeValues))] if place == 'attribute' else ['text', a.attributeValues[0].value]}
        p = load(policy_with(place, x), c['how'], env)
        if place == 'policies':
            return {'o': ['kids', str(len(p.policies))]}
        if place == 'rules':
            return {'o': ['kids', str(len(p.rules))]}
        if place == 'subjects':
            return {'o': ['kids', str(len(p.target.subjects))]}
        if place == 'args':
            return {'o': ['kids', str(len(p.rules[0].condition.expression.expressions))]}
        v = {'value': lambda: p.rules[0].condition.expression.expressions[0].value, 'description': lambda: p.description,
             'rule-description': lambda: p.rules[0].description, 'xpathversion': lambda: p.policyDefaults.xpathVersion}[place]()
        return {'o': ['text', '' if v is None else v]}
    except Exception as e:
        return {'o': ['rejected'], 'd': '%s: %s' % (type(e).__name__, str(e)[:100])}


# ------------------------------------------------------------------ documents of any kind
def policy(c, env):
    """a policy document (a raw tree written in some way, or bytes), and what its policy decides"""
    if 't' in c:
        data = w_doc.Writer(c['seed']).doc(c['t'])
        if c.get('damage'):
            data = w_doc.damage(data, c['damage'], random.Random(c['seed']))
    else:
        data = R.x_policy(c['p'], R.Style(random.Random(c['seed']))).encode('utf-8')
    try:
        p = load(data, c['how'], env)
    except Exception as e:
        return {'o': ['rejected'], 'd': '%s: %s' % (type(e).__name__, str(e)[:100])}
    o = [D(w_doc.d_policy(p))]
    from ndg.xacml.core.context.pdp import PDP
    for rq in c['rqs']:
        o.append(D(w_ctx_response(PDP(p).evaluate(R.mkrequest(rq)))))
    return {'o': o}


def w_ctx_response(resp):
    e = w_ctx.codec('RS').toXML(resp)
    return [w_ctx.d_context(resp), order(w_ctx.raw(e)), order(w_ctx.raw(ET().fromstring(ET().tostring(e))))]


def order(t):
    """attributes have no order"""
    return dict(t, at=sorted(t['at'], key=lambda a: a['n']), kids=[order(k) for k in t['kids']])


def context(c, env):
    """a request or response document: its content, what is written for it, and that read back"""
    if 't' in c:
        data = w_doc.Writer(c['seed'], ns=CTX).doc(c['t'])
        try:
            e = element(data, c['how'], env)
            obj = w_ctx.codec(c['k']).fromXML(e)
        except Exception as x:
            return {'o': ['rejected'], 'd': '%s: %s' % (type(x).__name__, str(x)[:100])}
    else:
        obj = w_ctx.a_context(c['c'])
    o = [D(plain(w_ctx.d_context(obj)))]
    for i in range(2):
        try:
            e = w_ctx.codec(c['k']).toXML(obj)
        except Exception as x:
            return {'o': o + ['cannot be written'], 'd': '%s: %s' % (type(x).__name__, str(x)[:100])}
        o.append(D(order(w_ctx.raw(e))))
        text = ET().tostring(e)
        e = ET().fromstring(text)
        o.append(D(order(w_ctx.raw(e))))
        try:
            obj = w_ctx.codec(c['k']).fromXML(e)
            o.append(D(plain(w_ctx.d_context(obj))))
        except Exception as x:
            return {'o': o + ['cannot be read back'], 'd': '%s: %s' % (type(x).__name__, str(x)[:100])}
    return {'o': o}


def plain(d):
    for r in d.get('R', ()):
        r['content'] = [order(n) for n in r['content']]
    return d


def noted(x, r):
    """the document with comments and instructions in it, which say nothing"""
    out, i = '', x.index('>') + 1
    for k, ch in enumerate(x):
        inside = x.rfind('<', 0, k) > x.rfind('>', 0, k)
        if k >= i and not inside and x.rfind('</', 0, k) < x.rfind('</') and r.random() < .2:
            out += r.choice(['<!-- a -->', '<?b c?>', '<!-- <a>x</a> -->'])
        out += ch
    return out


def decide(c, env):
    """a request document against a policy document"""
    pdp = R.load_policy(c['p'], 'xml', random.Random(c['seed']))
    o = []
    for i, rq in enumerate(c['rqs']):
        data = w_doc.Writer('%s/%d' % (c['seed'], i), ns=CTX).doc(rq)
        try:
            req = w_ctx.codec('RQ').fromXML(element(data, c['how'] + i, env))
        except Exception as x:
            o.append('rejected')
            continue
        for d in c['docs'][i]:
            from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
            req.attributeSelector = EtreeXPathSelector(element(noted(R.xmldoc(d), random.Random('%s/doc' % c['seed'])), c['how'], env))
        o.append(D(w_ctx_response(pdp.evaluate(req))))
    return {'o': o}


KINDS = {'back.surface': surface, 'back.policy': policy, 'back.context': context, 'back.decide': decide}

"""Request and response contexts on the real code (spec/ContextDoc.tla)."""
import io
import random

import realize as R
from w_doc import Writer

NS = 'urn:oasis:names:tc:xacml:2.0:context:schema:os'


def ET():
    from ndg.xacml import importElementTree
    return importElementTree()


# ------------------------------------------------------------- raw trees and elements
def split(tag):
    if tag[:1] == '{':
        ns, t = tag[1:].split('}', 1)
        return ('' if ns == NS else ns), t
    return 'none', tag


def raw(e):
    """raw tree of an element; comments and processing instructions dropped"""
    text, kids, tail = e.text or '', [], ''

    def flush():
        if tail.strip():
            kids.append({'tag': '#text', 'ns': '', 'at': [], 'text': tail.strip(), 'kids': []})
    for k in e:
        if isinstance(k.tag, str):
            flush()
            kids.append(raw(k))
            tail = k.tail or ''
        elif kids:
            tail += k.tail or ''
        else:
            text += k.tail or ''
    flush()
    ns, tag = split(e.tag)
    return {'tag': tag, 'ns': ns, 'at': [{'n': n, 'v': v} for n, v in e.attrib.items()],
            'text': text.strip() if kids else text, 'kids': kids}


def build(nd):
    et = ET()
    e = et.Element('{%s}%s' % (nd['ns'] or NS, nd['tag']))
    for a in nd['at']:
        e.set(a['n'], a['v'])
    if nd['text']:
        e.text = nd['text']
    last = None
    for k in nd['kids']:
        if k['tag'] == '#text':
            last.tail = k['text']
        else:
            last = build(k)
            e.append(last)
    return e


# ------------------------------------------------------------------ objects from contents
def a_attr(a):
    from ndg.xacml.core.attribute import Attribute
    o = Attribute()
    o.attributeId = a['id']
    o.dataType = a['dt']
    for v in a['iss']:
        o.issuer = v
    for v in a['vals']:
        o.attributeValues.append(a_value(a['dt'], v))
    return o


def a_value(dt, v):
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory
    return AttributeValueClassFactory()(dt)(value=v)


def fill(o, attrs):
    for a in attrs:
        o.attributes.append(a_attr(a))
    return o


def a_subject(s):
    from ndg.xacml.core.context.subject import Subject
    o = fill(Subject(), s['at'])
    for v in s['cat']:
        o.subjectCategory = v
    return o


def a_resource(s):
    from ndg.xacml.core.context.resource import Resource
    o = fill(Resource(), s['at'])
    for n in s['content']:
        o.resourceContent = build(n)
    return o


def a_result(r, how=0):
    from ndg.xacml.core.context.result import Result, Decision, Status, StatusCode
    from ndg.xacml.core.obligation import Obligation
    if how == 2 and r['st'] and len(r['st']) == 1 and not r['ob']:
        return Result.createInitialised(decision=r['dec'], resourceId=''.join(r['rid']), code=r['st'][0]['code'],
                                        message=r['st'][0]['msg'])
    o = Result()
    o.decision = Decision(r['dec']) if how else {'Permit': Decision.PERMIT, 'Deny': Decision.DENY,
                                                 'Indeterminate': Decision.INDETERMINATE}.get(r['dec'], Decision.NOT_APPLICABLE)
    for v in r['rid']:
        o.resourceId = v
    for s in r['st']:
        o.status = Status()
        o.status.statusCode = StatusCode()
        o.status.statusCode.value = s['code']
        if s['msg']:
            o.status.statusMessage = s['msg']
    for b in r['ob']:
        x = Obligation()
        x.obligationId = b['id']
        x.fulfillOn = b['on']
        o.obligations = x
    return o


def a_context(c, how=0):
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.context.response import Response
    from ndg.xacml.core.context.action import Action
    from ndg.xacml.core.context.environment import Environment
    if c['k'] == 'RS':
        o = Response()
        for r in c['rs']:
            o.results.append(a_result(r, how))
        return o
    o = Request()
    for s in c['S']:
        o.subjects.append(a_subject(s))
    for s in c['R']:
        o.resources.append(a_resource(s))
    for q in c['A']:
        o.action = fill(Action(), q)
    for q in c['E']:
        o.environment = fill(Environment(), q)
    return o


# ------------------------------------------------------------------ contents of objects
def opt(x):
    return [] if x is None else [x if isinstance(x, str) else 'odd %r' % (x,)]


def d_attrs(o):
    return [{'id': R_txt(a.attributeId), 'dt': R_txt(a.dataType), 'iss': opt(a.issuer), 'vals': [d_val(a, v) for v in a.attributeValues]}
            for a in o.attributes]


def d_val(a, v):
    if v.dataType != a.dataType:
        return 'odd: a value of type %s' % v.dataType
    return v.value if isinstance(v.value, str) else 'odd %r' % (v.value,)


def R_txt(x):
    return x if isinstance(x, str) else 'odd %r' % (x,)


def d_result(r):
    st = []
    if r.status is not None:
        s = r.status
        code = s.statusCode.value if s.statusCode is not None else 'odd: none'
        st = [{'code': R_txt(code), 'msg': '' if s.statusMessage is None else R_txt(s.statusMessage)}]
    b = r.obligations
    ob = [] if b is None else [{'id': R_txt(b.obligationId), 'on': R_txt(b.fulfillOn)}]
    return {'rid': opt(r.resourceId), 'dec': 'none' if r.decision is None else R_txt(r.decision.value), 'st': st, 'ob': ob}


def d_context(o):
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.context.response import Response
    if isinstance(o, Response):
        return {'k': 'RS', 'rs': [d_result(r) for r in o.results]}
    if not isinstance(o, Request):
        return {'k': 'odd ' + type(o).__name__}
    cont = lambda e: [] if e is None else [raw(e)] if ET().iselement(e) else ['odd %r' % (e,)]
    return {'k': 'RQ', 'S': [{'cat': opt(s.subjectCategory), 'at': d_attrs(s)} for s in o.subjects],
            'R': [{'content': cont(s.resourceContent), 'at': d_attrs(s)} for s in o.resources],
            'A': [] if o.action is None else [d_attrs(o.action)], 'E': [] if o.environment is None else [d_attrs(o.environment)]}


# ------------------------------------------------------------------ reading and writing
def codec(k):
    from ndg.xacml.parsers.etree import context as x
    return x.RequestElementTree if k == 'RQ' else x.ResponseElementTree


def wr(k, o):
    try:
        return codec(k).toXML(o), ''
    except Exception as e:
        return None, '%s: %s' % (type(e).__name__, str(e)[:150])


def show(e, d):
    return {'ok': False, 't': [], 'd': d} if e is None else {'ok': True, 't': raw(e), 'd': ''}


def rd(k, e):
    try:
        o = codec(k).fromXML(e)
        return o, {'ok': True, 'c': d_context(o), 'd': ''}
    except Exception as x:
        return None, {'ok': False, 'c': [], 'd': '%s: %s' % (type(x).__name__, str(x)[:150])}


def observe(k, o):
    ob = {'ok': True, 'd': '', 'c': d_context(o), 'backs': []}
    e, d = wr(k, o)
    ob['ws'] = [show(e, d)]
    if e is not None:
        text = ET().tostring(e)
        ob['ws'].append(show(ET().fromstring(text), ''))
        ob['backs'] = [rd(k, e)[1], rd(k, ET().fromstring(text))[1]]
        ob['ws'].append(show(*wr(k, o)))
    ob['after'] = d_context(o)
    return ob


def doc(c, env):
    obs = []
    for i in range(2):
        data = Writer(None if c.get('plain') else '%s/%d' % (c['seed'], i), ns=NS).doc(c['t'])
        e = ET().fromstring(data) if i else ET().parse(io.BytesIO(data)).getroot()
        o, ob = rd(c['k'], e)
        ob['via'] = ['parse', 'string'][i]
        ob['w'] = show(*wr(c['k'], o)) if ob['ok'] else show(None, '')
        obs.append(ob)
    return {'obs': obs}


def around(k, p):
    """the least context that has the part"""
    from ndg.xacml.core.context.request import Request, Subject
    from ndg.xacml.core.context.response import Response
    from ndg.xacml.core.context.result import Result
    if k in ('Result', 'Decision'):
        o = Response()
        if k == 'Decision':
            p, d = Result(), p
            p.decision = d
        o.results.append(p)
        return o
    o = Request()
    if k == 'Attribute':
        p, a = Subject(), p
        p.attributes.append(a)
    if k in ('Subject', 'Attribute'):
        o.subjects.append(p)
    elif k == 'Resource':
        o.resources.append(p)
    else:
        setattr(o, k.lower(), p)
    return o


def part(c, env):
    """a part of a document, read and written on its own"""
    from ndg.xacml.parsers.etree import context as x
    codec = getattr(x, c['k'] + 'ElementTree')
    obs = []
    for i in range(2):
        data = Writer('%s/%d' % (c['seed'], i), ns=NS).doc(c['t'])
        e = ET().fromstring(data) if i else ET().parse(io.BytesIO(data)).getroot()
        ob = {'ok': False, 'c': [], 'd': '', 'via': ['parse', 'string'][i], 'w': show(None, '')}
        try:
            o = codec.fromXML(e)
            ob['ok'] = True
        except Exception as z:
            ob['d'] = '%s: %s' % (type(z).__name__, str(z)[:150])
        if ob['ok']:
            ob['c'] = d_context(around(c['k'], o))
            try:
                ob['w'] = show(codec.toXML(o), '')
            except Exception as z:
                ob['w'] = show(None, '%s: %s' % (type(z).__name__, str(z)[:150]))
        obs.append(ob)
    return {'obs': obs}


def obj(c, env):
    return {'ob': observe(c['c']['k'], a_context(c['c'], c.get('how', 0)))}


def pdp(c, env):
    obs = []
    p = R.load_policy(c['p'], 'api')
    for rq in c['rqs']:
        obs.append(observe('RS', p.evaluate(R.mkrequest(rq))))
    return {'obs': obs}


def holder(o, h):
    return {'S': o.subjects, 'R': o.resources}[h['c']][h['i'] - 1] if h['c'] in 'SR' else o.action if h['c'] == 'A' else o.environment


def step(o, s):
    """one edit of the objects; returns the object to go on with"""
    from ndg.xacml.core.context.action import Action
    from ndg.xacml.core.context.environment import Environment
    from ndg.xacml.core.context.result import Decision
    op = s['o']
    i = s.get('i', 0) - 1
    if 'h' in s:
        at = holder(o, s['h']).attributes
        if op == 'addattr':
            at.append(a_attr(s['a']))
        elif op == 'delattr':
            del at[i]
        elif op == 'setid':
            at[i].attributeId = s['v']
        elif op == 'setiss':
            at[i].issuer = s['v']
        elif op == 'addval':
            at[i].attributeValues.append(a_value(at[i].dataType, s['v']))
        elif op == 'delval':
            at[i].attributeValues.pop(s['j'] - 1)
        elif op == 'setval':
            at[i].attributeValues[s['j'] - 1].value = s['v']
    elif op == 'addsub':
        o.subjects.append(a_subject({'cat': s['v'], 'at': []}))
    elif op == 'delsub':
        del o.subjects[i]
    elif op == 'setcat':
        o.subjects[i].subjectCategory = s['v']
    elif op == 'addres':
        o.resources.append(a_resource({'content': s['n'], 'at': []}))
    elif op == 'delres':
        del o.resources[i]
    elif op == 'setcont':
        o.resources[i].resourceContent = build(s['n'][0])
    elif op == 'setact':
        o.action = fill(Action(), s['q'])
    elif op == 'setenv':
        o.environment = fill(Environment(), s['q'])
    elif op == 'addresult':
        o.results.append(a_result({'rid': s['v'], 'dec': s['d'], 'st': [], 'ob': []}))
    elif op == 'delresult':
        del o.results[i]
    elif op == 'setdec':
        o.results[i].decision = Decision(s['d'])
    elif op == 'setrid':
        o.results[i].resourceId = s['v']
    else:
        raise AssertionError(op)


def hist(c, env):
    r = random.Random(c['seed'])
    o, k, obs = None, None, []
    for s in c['tr']:
        ok, d = True, ''
        if s['o'] == 'start':
            k = s['c']['k']
            o = a_context(s['c'])
        elif s['o'] == 'reload':
            e, d = wr(k, o)
            ok = e is not None
            if ok:
                n, b = rd(k, ET().fromstring(ET().tostring(e)) if r.random() < .5 else e)
                ok, d = b['ok'], b['d']
                if ok:
                    o = n
        else:
            try:
                step(o, s)
            except Exception as x:
                ok, d = False, '%s: %s' % (type(x).__name__, str(x)[:150])
        ob = observe(k, o)
        ob.update(ok=ok, d=d)
        obs.append(ob)
    return {'obs': obs}


KINDS = {'ctx.doc': doc, 'ctx.part': part, 'ctx.obj': obj, 'ctx.hist': hist, 'ctx.pdp': pdp}

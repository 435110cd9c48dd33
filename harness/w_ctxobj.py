"""Histories of operations on real request and response objects (spec/ContextObjects.tla)."""
import copy
import datetime
import pickle

from ndg.xacml.core.context.handler import CtxHandlerBase
from ndg.xacml.core.context.pipinterface import PIPInterface

import realize as R


class Handler(CtxHandlerBase):
    __slots__ = ()

    def handlePEPRequest(self, pepRequest):
        return None


class Pip(PIPInterface):
    __slots__ = ()

    def attributeQuery(self, context, attributeDesignator):
        return []


LISTS = {'Request': ['subjects', 'resources'], 'Subject': ['attributes'], 'Resource': ['attributes'], 'Action': ['attributes'],
         'Environment': ['attributes'], 'Attribute': ['attributeValues'], 'Response': ['results']}
ONES = {'Request': ['action', 'environment', 'ctxHandler', 'attributeSelector'], 'Result': ['decision', 'status', 'obligations'],
        'Status': ['statusCode'], 'Handler': ['pip', 'pdp'], 'Pdp': ['policy']}
TEXTS = {'Subject': ['subjectCategory'], 'Resource': ['resourceContent'], 'Attribute': ['attributeId', 'dataType', 'issuer'],
         'Value': ['value'], 'Result': ['resourceId'], 'Status': ['statusMessage', 'statusDetail'], 'StatusCode': ['value'],
         'Decision': ['value'], 'Obligation': ['obligationId', 'fulfillOn']}


def make(c):
    if c == 'Value':
        return R.value_class('string')('x')
    if c == 'Selector':
        from ndg.xacml import importElementTree
        from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
        return EtreeXPathSelector(importElementTree().fromstring('<a><b>x</b></a>'))
    if c == 'Handler':
        return Handler()
    if c == 'Pip':
        return Pip()
    if c == 'Policy':
        from ndg.xacml.core.policy import Policy
        return Policy()
    from ndg.xacml.core.attribute import Attribute
    from ndg.xacml.core.obligation import Obligation
    from ndg.xacml.core.context.pdp import PDP
    from ndg.xacml.core.context.request import Request, Subject, Resource, Action, Environment
    from ndg.xacml.core.context.response import Response
    from ndg.xacml.core.context.result import Result, Status, StatusCode, Decision
    return {'Attribute': Attribute, 'Obligation': Obligation, 'Pdp': PDP, 'Request': Request, 'Subject': Subject, 'Resource': Resource,
            'Action': Action, 'Environment': Environment, 'Response': Response, 'Result': Result, 'Status': Status,
            'StatusCode': StatusCode, 'Decision': Decision}[c]()


def constant(v):
    from ndg.xacml.core.context.result import Decision
    return {'Permit': Decision.PERMIT, 'Deny': Decision.DENY, 'Indeterminate': Decision.INDETERMINATE,
            'NotApplicable': Decision.NOT_APPLICABLE}[v]


ODD = {'none': None, 'int': 7, 'true': True, 'float': -2.5, 'datetime': datetime.datetime(2010, 2, 3, 4, 5, 6), 'list': ['x'],
       'timedelta': datetime.timedelta(3, 4), 'bytes': b'Permit'}
XML = '<a k="v">x<b>y</b>z</a>'


def element():
    from ndg.xacml import importElementTree
    return importElementTree().fromstring(XML)


FIRST = {'integer': 'int', 'hexBinary': 'int', 'boolean': 'true', 'double': 'float', 'date': 'datetime', 'dateTime': 'datetime',
         'time': 'datetime', 'dayTimeDuration': 'timedelta', 'yearMonthDuration': 'timedelta'}


def value(ty):
    return R.value_class(ty)(ODD[FIRST[ty]] if ty in FIRST else 'x')


class Heap(object):
    def __init__(self):
        self.objs, self.cls = [], []
        self.types = {R.value_class(t).IDENTIFIER: t for t in list(R.STR_TYPES) + list(FIRST)}

    def add(self, c, o):
        self.objs.append(o)
        self.cls.append(c)

    def index(self, o):
        for i, x in enumerate(self.objs):
            if x is o:
                return i + 1
        return -1

    def text(self, v):
        if v is None:
            return '-'
        if isinstance(v, str):
            return v
        if hasattr(v, 'tag'):
            from ndg.xacml import importElementTree
            t = importElementTree().tostring(v).decode()
            return '#elem' if t == XML else '?' + t
        for k, x in ODD.items():
            if type(x) is type(v) and x == v:
                return '#' + k
        return '?' + type(v).__name__

    def one(self, o, f):
        v = getattr(o, f)
        return 0 if v is None else self.index(v)

    def show(self):
        out = []
        for c, o in zip(self.cls, self.objs):
            s = {}
            for f in LISTS.get(c, ()):
                s[f] = [self.index(x) for x in getattr(o, f)]
            for f in ONES.get(c, ()):
                s[f] = self.one(o, f)
            for f in TEXTS.get(c, ()):
                s[f] = self.text(getattr(o, f))
            if c == 'Value':
                s['type'] = self.types.get(o.dataType, '?')
            out.append({'c': c, 's': s or []})
        return out

    def leads(self, c, o):
        """the parts of an object, in the order of the specification's table"""
        for f in LISTS.get(c, ()):
            for x in getattr(o, f):
                yield x
        for f in ONES.get(c, ()):
            if getattr(o, f) is not None:
                yield getattr(o, f)

    def copy(self, i, how):
        o = self.objs[i - 1]
        q = copy.deepcopy(o) if how == 'deep' else pickle.loads(pickle.dumps(o, int(how)))
        pairs = []

        def walk(a, b):
            if any(x is a for x, y in pairs):
                return
            if type(a) is not type(b):
                raise RuntimeError('the copy of a %s is a %s' % (type(a).__name__, type(b).__name__))
            pairs.append((a, b))
            c = self.cls[self.index(a) - 1]
            p, q = list(self.leads(c, a)), list(self.leads(c, b))
            if len(p) != len(q):
                raise RuntimeError('the copy of a %s has other parts' % c)
            for x, y in zip(p, q):
                walk(x, y)
        walk(o, q)
        n = len(self.objs)
        for a, b in pairs:
            self.add(self.cls[self.index(a) - 1], b)
        if len(set(map(id, self.objs[n:]))) != len(pairs) or any(self.index(b) <= n for a, b in pairs):
            raise RuntimeError('the copy shares parts')
        if any(hasattr(a, 'resourceContent') and hasattr(a.resourceContent, 'tag') and a.resourceContent is b.resourceContent for a, b in pairs):
            raise RuntimeError('the copy shares the resource content')

    def arg(self, a):
        return self.objs[a['i'] - 1] if a['t'] == 'obj' else a['s'] if a['t'] == 'str' else element() if a['s'] == 'elem' else ODD[a['s']]

    def do(self, op):
        k = op['o']
        if k == 'new':
            self.add(op['c'], make(op['c']))
        elif k == 'val':
            self.add('Value', value(op['ty']))
        elif k == 'dec':
            self.add('Decision', constant(op['v']))
        elif k == 'made':
            from ndg.xacml.core.context.result import Result
            names = {'d': 'decision', 'rid': 'resourceId', 'ob': 'obligations', 'code': 'code', 'msg': 'message'}
            q = Result.createInitialised(**{names[n]: self.arg(op[n]) for n in names if op[n]['t'] != 'def'})
            for c, o in (('Result', q), ('Decision', q.decision), ('Status', q.status), ('StatusCode', q.status.statusCode)):
                self.add(c, o)
        elif k == 'copy':
            self.copy(op['i'], op['how'])
        elif k == 'set':
            setattr(self.objs[op['i'] - 1], op['f'], self.arg(op['a']))
        elif k == 'setl':
            from ndg.xacml.utils import TypedList
            from ndg.xacml.core.attribute import Attribute
            from ndg.xacml.core.attributevalue import AttributeValue
            et = {'Value': AttributeValue, 'Attribute': Attribute, 'str': str, 'object': object}[op['et']]
            q = TypedList(et)
            for i in op['xs']:
                q.append(self.objs[i - 1])
            setattr(self.objs[op['i'] - 1], op['f'], q)
        else:
            q = getattr(self.objs[op['i'] - 1], op['f'])
            if k == 'app':
                q.append(self.arg(op['a']))
            elif k == 'ins':
                q.insert(op['n'] - 1, self.arg(op['a']))
            elif k == 'put':
                q[op['n'] - 1] = self.arg(op['a'])
            elif k == 'ext':
                q.extend([self.arg(a) for a in op['as']])
            elif k == 'del':
                del q[op['n'] - 1]
            elif k == 'clear':
                del q[:]
            else:
                raise ValueError(k)


def build(h):
    """the objects of the first heap, by way of their properties"""
    H = Heap()
    for o in h:
        H.add(o['c'], constant(o['s']['value']) if o['fix'] else value(o['s']['type']) if o['c'] == 'Value' else make(o['c']))
    for i, o in enumerate(h):
        if o['fix']:
            continue
        for f, v in (o['s'] or {}).items():
            x = H.objs[i]
            if f in LISTS.get(o['c'], ()):
                for j in v:
                    getattr(x, f).append(H.objs[j - 1])
            elif f in ONES.get(o['c'], ()):
                if v:
                    setattr(x, f, H.objs[v - 1])
            elif v != '-' and o['c'] != 'Value':
                setattr(x, f, v)
    return H


def hist(c, env):
    H = build(c['h'])
    first, obs = H.show(), []
    for op in c['tr']:
        ob = {'ok': True, 'd': ''}
        try:
            H.do(op)
        except Exception as e:
            ob['ok'], ob['d'] = False, '%s: %s' % (type(e).__name__, str(e)[:150])
        ob['h'] = H.show()
        obs.append(ob)
    return {'first': first, 'obs': obs}


KINDS = {'ctxobj.hist': hist}

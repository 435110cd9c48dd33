"""Histories of data type registrations and uses on the real code (spec/DataTypes.tla)."""
import datetime

import forked
import w_doc     # noqa: F401  (imported before forking)

CTX = 'urn:oasis:names:tc:xacml:2.0:context:schema:os'
POL = 'urn:oasis:names:tc:xacml:2.0:policy:schema:os'
NAMES = ['String', 'AnyURI', 'Integer', 'Boolean', 'Double', 'Date', 'DateTime', 'Time', 'DayTimeDuration', 'YearMonthDuration', 'X500Name',
         'Rfc822Name', 'HexBinary', 'Base64Binary', 'IpAddress', 'DnsName']
XS = 'http://www.w3.org/2001/XMLSchema#'
XQ = 'http://www.w3.org/TR/2002/WD-xquery-operators-20020816#'
X1, X2 = 'urn:oasis:names:tc:xacml:1.0:data-type:', 'urn:oasis:names:tc:xacml:2.0:data-type:'
STD = [XS + 'string', XS + 'anyURI', XS + 'integer', XS + 'boolean', XS + 'double', XS + 'date', XS + 'dateTime', XS + 'time', XQ + 'dayTimeDuration',
       XQ + 'yearMonthDuration', X1 + 'x500Name', X1 + 'rfc822Name', XS + 'hexBinary', XS + 'base64Binary', X2 + 'ipAddress', X2 + 'dnsName']
FREE = ['urn:k1', 'urn:k2', 'urn:k3', 'urn:ks', 'urn:free', 'urn:K1', 'urn:k', XS + 'String', 'string']
CATS = ['Subject', 'Resource', 'Action', 'Environment']


class Text(str):
    pass


def native(a, k=0):
    ty, s = a['ty'], a['s']
    return {'str': lambda: Text(s) if k % 7 == 3 else ''.join(list(s)), 'int': lambda: int(s), 'bool': lambda: s == 'true', 'float': lambda: float(s),
            'datetime': lambda: datetime.datetime(2020, 1, 1) + datetime.timedelta(days=int(s)), 'timedelta': lambda: datetime.timedelta(hours=int(s)),
            'tuple': lambda: tuple(s.split(',')), 'bytes': lambda: s.encode(), 'none': lambda: None, 'list': lambda: [s],
            'date': lambda: datetime.date(2020, 1, 1), 'time': lambda: datetime.time(1, 2), 'object': lambda: object()}[ty]()


def written(v):
    if v is None:
        return ''
    for ty, t, f in (('str', str, str), ('bool', bool, lambda v: 'true' if v else 'false'), ('int', int, str), ('float', float, lambda v: '%g' % v),
                     ('datetime', datetime.datetime, lambda v: str((v - datetime.datetime(2020, 1, 1)).days)),
                     ('timedelta', datetime.timedelta, lambda v: str(int(v.total_seconds() // 3600))), ('tuple', tuple, ','.join)):
        if isinstance(v, t):
            return ty + ':' + f(v)
    return '?:%r' % (v,)


def k_hist(c, env=None):
    return forked.run(_hist, c)


def _hist(c):
    from ndg.xacml import importElementTree
    from ndg.xacml.core.attribute import Attribute
    from ndg.xacml.core.attributevalue import AttributeValue, AttributeValueClassFactory, AttributeValueClassMap
    from ndg.xacml.core.functions import functionMap, AbstractFunction
    from ndg.xacml.core.functions.v1.bag import BagBase
    from ndg.xacml.core.functions.v1.at_least_one_member_of import AtLeastOneMemberOfBase
    from ndg.xacml.core.context.request import Request, Subject, Resource, Action, Environment
    from ndg.xacml.parsers.etree.attributevaluereader import DataTypeReaderClassFactory, ETreeDataTypeReaderBase
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    from ndg.xacml.parsers.etree.context import RequestElementTree
    from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
    from ndg.xacml.core.context.pdp import PDP
    old = AttributeValueClassFactory()
    classes = {n: old(i) for n, i in zip(NAMES, STD)}

    class K1(AttributeValue):
        TYPE, IDENTIFIER = str, 'urn:k1'

    class K2(AttributeValue):
        TYPE, IDENTIFIER = int, 'urn:k2'

    class K3(AttributeValue):
        TYPE, IDENTIFIER = tuple, 'urn:k3'

    class KS(classes['String']):
        IDENTIFIER = 'urn:ks'

    class K4(AttributeValue):
        TYPE, IDENTIFIER = str, STD[1]

    class K5(AttributeValue):
        TYPE, IDENTIFIER = str, 'urn:k1'

    class Kx(AttributeValue):
        pass
    classes.update(K1=K1, K2=K2, K3=K3, K4=K4, K5=K5, KS=KS, Kx=Kx)
    name = {v: k for k, v in classes.items()}

    class Upper(ETreeDataTypeReaderBase):
        @classmethod
        def parse(cls, elem, attributeValue):
            attributeValue.value = elem.text.upper()

    class Int(ETreeDataTypeReaderBase):
        @classmethod
        def parse(cls, elem, attributeValue):
            attributeValue.value = int(elem.text)

    class Pair(ETreeDataTypeReaderBase):
        @classmethod
        def parse(cls, elem, attributeValue):
            attributeValue.value = tuple(elem.text.split(','))

    class Skip(ETreeDataTypeReaderBase):
        @classmethod
        def parse(cls, elem, attributeValue):
            pass
    readers = {'base': ETreeDataTypeReaderBase, 'upper': Upper, 'int': Int, 'pair': Pair, 'skip': Skip}
    odd = {'!dict': dict, '!none': None, '!text': 'K1', '!instance': classes['String']('a'), '!reader': Int, '!value': K1, '!readerobject': Int(),
           '!int': 5, '!bytes': b'urn:k1', '!tuple': ('urn:k1',)}
    odd_id = {'!none': None, '!int': 5, '!bytes': b'urn:k1', '!tuple': ('urn:k1',), '!class': K1}
    own_map = AttributeValueClassMap()
    own_map[STD[0]] = K1
    own = AttributeValueClassFactory(own_map)
    slots = []

    def given(f):
        return [[i, name.get(f(i), repr(f(i)))] for i in STD + FREE + ['urn:other'] if f(i) is not None]

    class IsIn(AbstractFunction):
        FUNCTION_NS = 'urn:c18:in'

        def evaluate(self, a, bag):
            return any(a == b for b in bag)
    functionMap['urn:c18:in'] = IsIn
    for n, cl in classes.items():
        functionMap['urn:c18:%s-bag' % n] = type(n + 'Bag', (BagBase,), {'TYPE': cl, 'FUNCTION_NS': 'urn:c18:%s-bag' % n})
        functionMap['urn:c18:%s-member' % n] = type(n + 'Member', (AtLeastOneMemberOfBase,), {'TYPE': cl, 'FUNCTION_NS': 'urn:c18:%s-member' % n})
    fromstring = importElementTree().fromstring

    def lit(i, x):
        return '<AttributeValue DataType="%s">%s</AttributeValue>' % (i, x['s'])

    def read(i, x):
        # a literal of a loaded policy
        p = ReaderFactory.getReader(__import__('ndg.xacml.core.policy', fromlist=['Policy']).Policy)
        pol = p.parse(fromstring(policy(i, x, 0, 'in')), LocalPolicyFinder())
        return pol.rules[0].condition.expression.expressions[0]

    def policy(i, x, cat, fn):
        des = '<%sAttributeDesignator AttributeId="at" DataType="%s"/>' % (CATS[cat], i)
        if fn == 'in':
            app = '<Apply FunctionId="urn:c18:in">%s%s</Apply>' % (lit(i, x), des)
        else:
            n = name.get(AttributeValueClassFactory()(i), 'String')
            app = '<Apply FunctionId="urn:c18:%s-member"><Apply FunctionId="urn:c18:%s-bag">%s</Apply>%s</Apply>' % (n, n, lit(i, x), des)
        return ('<Policy xmlns="%s" PolicyId="p" RuleCombiningAlgId="urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:first-applicable">'
                '<Target/><Rule RuleId="r" Effect="Permit"><Condition>%s</Condition></Rule></Policy>' % (POL, app))

    def decide(o, k):
        cat = k % 4
        try:
            pdp = PDP.fromPolicySource(fromstring(policy(o['id'], o['x'], cat, 'in' if k % 3 else 'member')), ReaderFactory, LocalPolicyFinder())
        except Exception as e:
            return 'rejected'
        vs = [native(v, k) for v in o['vs']]
        holders = [Subject(), Resource(), Action(), Environment()]
        try:
            if o['how'] == 'document':
                def attrs(j):
                    return '' if j != cat else (
                        '<Attribute AttributeId="at" DataType="%s">%s</Attribute>' % (o['id'], ''.join('<AttributeValue>%s</AttributeValue>' % v for v in vs))
                        if vs else '')
                req = RequestElementTree.fromXML(fromstring('<Request xmlns="%s">%s</Request>' % (
                    CTX, ''.join('<%s>%s</%s>' % (n, attrs(j), n) for j, n in enumerate(CATS)))))
            else:
                f = old if k % 2 else AttributeValueClassFactory()
                noise = ('AnyURI', STD[1]) if o['id'] == STD[0] else ('String', STD[0])
                for i, cl, values in ((o['id'], f(o['id']), vs), (noise[1], classes[noise[0]], [o['x']['s']])):
                    a = Attribute()
                    a.attributeId, a.dataType = 'at', i
                    for v in values:
                        w = cl()
                        w.value = v
                        w.dataType = i
                        a.attributeValues.append(w)
                    holders[cat].attributes.append(a)
                req = Request()
                req.subjects.append(holders[0])
                req.resources.append(holders[1])
                req.action, req.environment = holders[2], holders[3]
        except Exception as e:
            return 'norequest'
        return str(pdp.evaluate(req).results[0].decision)

    def step(o, k):
        n = o['o']
        if n == 'add':
            i = odd_id[o['id']] if o['id'] in odd_id else o['id']
            cl = odd[o['c']] if o['c'] in odd else classes[o['c']]
            if o['ow']:
                AttributeValueClassFactory.addClass(i, cl, overwrite=True) if k % 2 else old.addClass(i, cl, True)
            elif k % 2:
                AttributeValueClassFactory.addClass(i, cl)
            else:
                AttributeValueClassFactory.addClass(i, attributeValueClass=cl, overwrite=False)
        elif n == 'reader':
            DataTypeReaderClassFactory.addReader(odd_id[o['id']] if o['id'] in odd_id else o['id'], odd[o['r']] if o['r'] in odd else readers[o['r']])
        elif n == 'make':
            cl = (old if k % 2 else AttributeValueClassFactory())(o['id'])
            return None if cl is None else cl()
        elif n == 'new':
            v = native(o['a'], k)
            if v is None or k % 2:
                w = classes[o['c']]()
                w.value = v
                return w
            return classes[o['c']](v) if k % 4 else classes[o['c']](value=v)
        elif n == 'set':
            slots[o['i'] - 1].value = native(o['a'], k)
        elif n == 'type':
            slots[o['i'] - 1].dataType = 5 if o['s'] == '!' else o['s']
        elif n == 'cmp':
            x, y = slots[o['i'] - 1], slots[o['j'] - 1]
            r = x != y if o['how'] == 'ne' else x == y
            return 'a %s' % type(r).__name__ if type(r) is not bool else 'true' if r else 'false'
        elif n == 'cmpx':
            x, y = slots[o['i'] - 1], native(o['a'], k)
            r = [lambda: x == y, lambda: x != y, lambda: y == x, lambda: y != x][k % 4]()
            return repr(r)
        elif n == 'lit':
            return read(o['id'], o['x'])
        elif n == 'decide':
            return decide(o, k)

    start = given(AttributeValueClassFactory())
    obs = []
    for k, o in enumerate(c['tr']):
        ok, d, ret = True, '', ''
        try:
            r = step(o, k + c['pick'])
            if isinstance(r, str):
                ret = r
            elif r is not None:
                slots.append(r)
        except Exception as e:
            ok, d = False, '%s: %s' % (type(e).__name__, str(e)[:80])
        obs.append({'ok': ok, 'd': d, 'ret': ret, 'm': given(AttributeValueClassFactory()), 'old': given(old), 'own': given(own),
                    'hs': [[name.get(type(s), repr(type(s))), s.dataType, written(s.value)] for s in slots]})
    return {'start': start, 'tr': c['tr'], 'obs': obs}


KINDS = {'types.hist': k_hist}

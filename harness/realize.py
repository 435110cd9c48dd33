"""Turn abstract specification terms (see spec/Xacml.tla) into real ndg_xacml
objects and XML documents.  Runs inside the two project interpreters; uses only the
public API of the package."""
import datetime
import json
from xml.sax.saxutils import escape, quoteattr

X = 'http://www.w3.org/2001/XMLSchema#'
TYPE_URI = {
    'string': X + 'string', 'anyURI': X + 'anyURI', 'integer': X + 'integer',
    'boolean': X + 'boolean', 'double': X + 'double', 'date': X + 'date',
    'dateTime': X + 'dateTime', 'time': X + 'time',
    'dayTimeDuration': 'http://www.w3.org/TR/2002/WD-xquery-operators-20020816#dayTimeDuration',
    'yearMonthDuration': 'http://www.w3.org/TR/2002/WD-xquery-operators-20020816#yearMonthDuration',
    'x500Name': 'urn:oasis:names:tc:xacml:1.0:data-type:x500Name',
    'rfc822Name': 'urn:oasis:names:tc:xacml:1.0:data-type:rfc822Name',
    'hexBinary': X + 'hexBinary', 'base64Binary': X + 'base64Binary',
    'ipAddress': 'urn:oasis:names:tc:xacml:2.0:data-type:ipAddress',
    'dnsName': 'urn:oasis:names:tc:xacml:2.0:data-type:dnsName',
}
URI_TYPE = {v: k for k, v in TYPE_URI.items()}
STR_TYPES = ('string', 'anyURI', 'x500Name', 'rfc822Name', 'ipAddress', 'dnsName')
F1 = 'urn:oasis:names:tc:xacml:1.0:function:'
F2 = 'urn:oasis:names:tc:xacml:2.0:function:'
RULE_ALG = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:'
POL_ALG = 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:'
POLICY_NS = 'urn:oasis:names:tc:xacml:2.0:policy:schema:os'
CTX_NS = 'urn:oasis:names:tc:xacml:2.0:context:schema:os'
CAT = {'S': 'Subject', 'R': 'Resource', 'A': 'Action', 'E': 'Environment'}
XPATH_VERSION = 'http://www.w3.org/TR/1999/Rec-xpath-19991116'


def urn(fam, ft):
    if fam in ('and', 'not'):
        return F1 + fam
    if fam.startswith('custom-'):
        return 'urn:verif:function:' + fam
    if fam == 'urn':
        return ft
    if fam == 'concatenate' or (fam == 'regexp-match' and ft != 'string'):
        return F2 + ft + '-' + fam
    return F1 + ft + '-' + fam


def native(t, v):
    """Python value for the canonical text v of type t."""
    if t == 'integer' or t == 'hexBinary':
        return int(v)
    if t == 'boolean':
        return v == 'true'
    if t == 'double':
        return float(v)
    if t in ('date', 'dateTime', 'time'):
        return datetime.datetime.fromisoformat(v)
    if t in ('dayTimeDuration', 'yearMonthDuration'):
        return datetime.timedelta(seconds=int(v))
    return v


def text(t, v):
    """Inverse of native."""
    if v is None:
        return ''
    if t == 'boolean':
        return 'true' if v else 'false'
    if t in ('date', 'dateTime', 'time'):
        return v.isoformat()
    if t in ('dayTimeDuration', 'yearMonthDuration'):
        return str(int(v.total_seconds()))
    return v if isinstance(v, str) else repr(v)


_factory = None


def value_class(t):
    global _factory
    if _factory is None:
        from ndg.xacml.core.attributevalue import AttributeValueClassFactory
        _factory = AttributeValueClassFactory()
    return _factory(TYPE_URI.get(t, t))


def mkvalue(t, v):
    return value_class(t)(native(t, v))


# ---------------------------------------------------------------- XML policies
class Style:
    """How a document is written; none of it changes its meaning."""
    def __init__(self, rnd=None):
        self.rnd = rnd
        self.prefix = '' if rnd is None or rnd.random() < .5 else rnd.choice(['xacml:', 'p:'])
        self.space = rnd is not None and rnd.random() < .5
        self.comments = rnd is not None and rnd.random() < .3
        self.pi = rnd is not None and rnd.random() < .2
        self.decl = rnd is not None and rnd.random() < .5

    def boolean(self, b):
        if self.rnd is None:
            return 'true' if b else 'false'
        return self.rnd.choice(['true', '1', 'True'] if b else ['false', '0', 'False'])

    def attrs(self, pairs):
        pairs = [(k, v) for k, v in pairs if v is not None]
        if self.rnd is not None:
            self.rnd.shuffle(pairs)
        return ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in pairs)

    def el(self, name, attrs=(), kids=(), text=None, root=False):
        a = self.attrs(list(attrs))
        if root:
            a += ' xmlns%s="%s"' % (':' + self.prefix[:-1] if self.prefix else '', POLICY_NS)
        t = self.prefix + name
        if text is not None:
            return '<%s%s>%s</%s>' % (t, a, escape(text), t)
        kids = list(kids)
        if not kids:
            return '<%s%s/>' % (t, a)
        sep = '\n  ' if self.space else ''
        if self.comments and self.rnd.random() < .5:
            kids.insert(self.rnd.randrange(len(kids) + 1), '<!-- note <Rule/> -->')
        if self.pi and self.rnd.random() < .3:
            kids.insert(self.rnd.randrange(len(kids) + 1), '<?verif note?>')
        return '<%s%s>%s%s%s</%s>' % (t, a, sep, sep.join(kids), sep, t)


def issuer(e):
    """'' is no issuer, '~' the empty string"""
    return '' if e['iss'] == '~' else e['iss'] or None


def d_issuer(o):
    return '' if o.issuer is None else o.issuer or '~'


def x_expr(e, st):
    k = e['k']
    if k == 'lit':
        return st.el('AttributeValue', [('DataType', TYPE_URI.get(e['t'], e['t']))], text=e['v'])
    if k == 'des':
        return st.el(CAT[e['cat']] + 'AttributeDesignator',
                     [('AttributeId', e['id']), ('DataType', TYPE_URI.get(e['t'], e['t'])),
                      ('Issuer', issuer(e)),
                      ('MustBePresent', st.boolean(e['mbp']) if e['mbp'] or st.rnd is None
                       or st.rnd.random() < .5 else None)])
    if k == 'sel':
        return st.el('AttributeSelector',
                     [('RequestContextPath', xpath(e['path'])), ('DataType', TYPE_URI.get(e['t'], e['t'])),
                      ('MustBePresent', st.boolean(e['mbp']) if e['mbp'] or st.rnd is None
                       or st.rnd.random() < .5 else None)])
    return st.el('Apply', [('FunctionId', urn(e['fam'], e['ft']))], [x_expr(a, st) for a in e['args']])


def xpath(path):
    """The path as XPath text, in one of its equivalent spellings."""
    if isinstance(path, str):
        return path
    out = ''
    form = path[0].get('form', 'abs')
    for i, s in enumerate(path):
        if i == 0 and form == 'rel' and s['ax'] == 'child':
            out += ''
        elif i == 0 and form == 'dot':
            out += './' if s['ax'] == 'child' else './/'
        else:
            out += '/' if s['ax'] == 'child' else '//'
        out += s['n']
        if s['pa']:
            out += "[@%s='%s']" % (s['pa'], s['pv'])
    return out


def x_match(cat, m, st):
    return st.el(CAT[cat] + 'Match', [('MatchId', urn(m['fam'], m['ft']))],
                 [st.el('AttributeValue', [('DataType', TYPE_URI.get(m['t'], m['t']))], text=m['v']),
                  x_expr(m['src'], st)])


def x_target(t, st):
    kids = []
    for cat in 'SRAE':
        sect = t[cat]
        if sect or (st.rnd is not None and st.rnd.random() < .15):
            kids.append(st.el(CAT[cat] + 's', [], [
                st.el(CAT[cat], [], [x_match(cat, m, st) for m in alt]) for alt in sect]))
    return st.el('Target', [], kids)


def x_rule(r, st):
    kids = []
    if r.get('desc'):
        kids.append(st.el('Description', text=r['desc']))
    if r['tgt']:
        kids.append(x_target(r['tgt'][0], st))
    if r['cond']:
        kids.append(st.el('Condition', [], [x_expr(r['cond'][0], st)]))
    return st.el('Rule', [('RuleId', r['id']), ('Effect', r['eff'])], kids)


def x_policy(p, st, root=True):
    kids = []
    if p.get('desc'):
        kids.append(st.el('Description', text=p['desc']))
    if p.get('defaults'):
        kids.append(st.el('PolicyDefaults' if p['k'] == 'P' else 'PolicySetDefaults', [],
                          [st.el('XPathVersion', text=p['defaults'])]))
    if p['tgt']:
        kids.append(x_target(p['tgt'][0], st))
    if p['k'] == 'P':
        kids += [x_rule(r, st) for r in p['rules']]
        a = [('PolicyId', p['id']), ('RuleCombiningAlgId', RULE_ALG + p['alg'])]
        name = 'Policy'
    else:
        for c in p['kids']:
            if c['k'] == 'ref':
                kids.append(st.el('Policy%sIdReference' % ('Set' if c['set'] else ''), text=c['id']))
            else:
                kids.append(x_policy(c, st, False))
        a = [('PolicySetId', p['id']), ('PolicyCombiningAlgId', POL_ALG + p['alg'])]
        name = 'PolicySet'
    if p.get('version'):
        a.append(('Version', p['version']))
    s = st.el(name, a, kids, root=root)
    if root and st.decl:
        s = '<?xml version="1.0" encoding="UTF-8"?>\n' + s
    return s


# ------------------------------------------------------------ API-built policies
def a_expr(e):
    from ndg.xacml.core import attributedesignator as ad
    from ndg.xacml.core.attributeselector import AttributeSelector
    from ndg.xacml.core.apply import Apply
    if e['k'] == 'lit':
        return mkvalue(e['t'], e['v'])
    if e['k'] == 'des':
        d = getattr(ad, CAT[e['cat']] + 'AttributeDesignator')()
        d.attributeId = e['id']
        d.dataType = TYPE_URI.get(e['t'], e['t'])
        if e['iss']:
            d.issuer = issuer(e)
        d.mustBePresent = e['mbp']
        return d
    if e['k'] == 'sel':
        s = AttributeSelector()
        s.requestContextPath = xpath(e['path'])
        s.dataType = TYPE_URI.get(e['t'], e['t'])
        s.mustBePresent = e['mbp']
        return s
    a = Apply()
    a.functionId = urn(e['fam'], e['ft'])
    for x in e['args']:
        a.expressions.append(a_expr(x))
    return a


def a_match(cat, m):
    from ndg.xacml.core import match as mm
    o = getattr(mm, CAT[cat] + 'Match')()
    o.matchId = urn(m['fam'], m['ft'])
    o.attributeValue = mkvalue(m['t'], m['v'])
    src = a_expr(m['src'])
    if m['src']['k'] == 'des':
        o.attributeDesignator = src
    else:
        o.attributeSelector = src
    return o


def a_target(t):
    from ndg.xacml.core.target import Target
    from ndg.xacml.core.subject import Subject
    from ndg.xacml.core.resource import Resource
    from ndg.xacml.core.action import Action
    from ndg.xacml.core.environment import Environment
    cls = {'S': Subject, 'R': Resource, 'A': Action, 'E': Environment}
    o = Target()
    for cat, attr in zip('SRAE', ('subjects', 'resources', 'actions', 'environments')):
        for alt in t[cat]:
            c = cls[cat]()
            for m in alt:
                c.matches.append(a_match(cat, m))
            getattr(o, attr).append(c)
    return o


def a_rule(r):
    from ndg.xacml.core.rule import Rule, Effect
    from ndg.xacml.core.condition import Condition
    o = Rule()
    o.id = r['id']
    e = Effect()
    e.value = r['eff']
    o.effect = e
    if r['tgt']:
        o.target = a_target(r['tgt'][0])
    if r['cond']:
        c = Condition()
        c.expression = a_expr(r['cond'][0])
        o.condition = c
    return o


def a_policy(p):
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    if p['k'] == 'P':
        o = Policy()
        o.policyId = p['id']
        o.ruleCombiningAlgId = RULE_ALG + p['alg']
        for r in p['rules']:
            o.rules.append(a_rule(r))
    else:
        o = PolicySet()
        o.policySetId = p['id']
        o.policyCombiningAlgId = POL_ALG + p['alg']
        for c in p['kids']:
            o.policies.append(a_policy(c))
    if p['tgt']:
        o.target = a_target(p['tgt'][0])
    return o


def xml_ok(p):
    """Can the policy be written as a document the readers support: literals of
    string-valued types, not empty, and conditions that apply a function."""
    def ex(e, top=False):
        if top and e['k'] != 'app':
            return False
        if e['k'] == 'lit':
            return e['t'] in STR_TYPES and e['v'] != ''
        return all(ex(a) for a in e['args']) if e['k'] == 'app' else True

    def tg(q):
        return all(m['t'] in STR_TYPES and m['v'] != '' for t in q for c in 'SRAE' for alt in t[c] for m in alt)
    if not tg(p['tgt']):
        return False
    if p['k'] == 'P':
        return all(tg(r['tgt']) and all(ex(c, True) for c in r['cond']) for r in p['rules'])
    return all(c['k'] == 'ref' or xml_ok(c) for c in p['kids'])


# ------------------------------------------------------------------- requests
class PipFailure(Exception):
    pass


def mkhandler(tab, log=None, gate=None):
    from ndg.xacml.core.context.handlerinterface import CtxHandlerInterface

    class Handler(CtxHandlerInterface):
        def handlePEPRequest(self, pepRequest):
            raise NotImplementedError()

        def pipQuery(self, request, designator):
            if log is not None:
                log.append((id(request), designator.attributeId, type(designator).__name__))
            if gate is not None:
                gate(designator.attributeId)
            for row in tab:
                if row['id'] == designator.attributeId:
                    if row['out'] == 'raise':
                        raise EXCEPTIONS[row['how']]() if row.get('how') in EXCEPTIONS else PipFailure('scripted')
                    if row['out'] == 'none':
                        return None
                    how = row.get('how', 'list')
                    if how in ('kept', 'typed'):        # one list, given whenever it is asked for
                        if json.dumps(row) not in held:
                            held[json.dumps(row)] = answer(how, row)
                        return held[json.dumps(row)]
                    return answer(how, row)
            return None
    held = {}
    return Handler()


HELD = []       # the lists handlers hold, with what they held at first


def answer(how, row):
    vals = [mkvalue(t, v) for t, v in typed(row)]
    if how == 'tuple':
        return tuple(vals)
    if how == 'typed':
        from ndg.xacml.core.attributevalue import AttributeValue
        from ndg.xacml.utils import TypedList
        vals = TypedList(AttributeValue, vals)
    if how != 'list':
        HELD.append((vals, list(vals), [v.value for v in vals]))
    return vals


def altered():
    """what is no longer as a handler made it, and forgets all of it"""
    bad = [len(old) for now, old, vs in HELD
           if [id(x) for x in now] != [id(x) for x in old] or [x.value for x in now] != vs]
    del HELD[:]
    return 'a list of %d values' % bad[0] if bad else ''


def typed(a):
    return zip(a.get('vt') or [a['t']] * len(a['vals']), a['vals'])


def mkattr(a):
    from ndg.xacml.core.attribute import Attribute
    o = Attribute()
    o.attributeId = a['id']
    o.dataType = TYPE_URI.get(a['t'], a['t'])
    if a['iss']:
        o.issuer = issuer(a)
    for t, v in typed(a):
        o.attributeValues.append(mkvalue(t, v))
    return o


def fill(c, attrs):
    for a in attrs:
        c.attributes.append(mkattr(a))
    return c


class NotARequest(object):
    pass


def mkrequest(rq, log=None, gate=None):
    from ndg.xacml.core.context.request import Request
    if 'bad' in rq:
        return {'none': None, 'str': 'request', 'obj': NotARequest()}[rq['bad']]
    o = Request()
    fill_request(o, rq)
    for p in rq['pip']:
        o.ctxHandler = mkhandler(p['tab'], log, gate)
    for d in rq['doc']:
        from ndg.xacml import importElementTree
        from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
        ET = importElementTree()
        o.attributeSelector = EtreeXPathSelector(ET.fromstring(xmldoc(d)))
    return o


def redoc(elem, d):
    """edits a document in place until it is d"""
    from ndg.xacml import importElementTree
    new = importElementTree().fromstring(xmldoc(d))
    for q in list(elem):
        elem.remove(q)
    for q in list(elem.attrib):
        del elem.attrib[q]
    elem.tag, elem.text = new.tag, new.text
    for a, v in new.attrib.items():
        elem.set(a, v)
    for q in list(new):
        elem.append(q)


class Requests(object):
    """the requests of a case: an object for each or, with one set, a single object that
    becomes each of them in turn"""

    def __init__(self, rqs, one=False, log=None):
        self.rqs, self.log = rqs, log
        self.one = one and not any('bad' in q or q['pip'] for q in rqs) and \
            len({(len(q['A']), len(q['E']), len(q['doc'])) for q in rqs}) == 1
        self.made = None if self.one else [mkrequest(q, log=log) for q in rqs]

    def __iter__(self):
        if not self.one:
            return iter(self.made)
        return self.become()

    def become(self):
        for q in self.rqs:
            if self.made is None:
                self.made = mkrequest(dict(q, doc=[]), log=self.log)
                self.elem = None
            else:
                o = self.made
                del o.subjects[:]
                del o.resources[:]
                fill_request(o, q)
            if q['doc']:
                if self.elem is None:
                    from ndg.xacml import importElementTree
                    from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
                    self.elem = importElementTree().fromstring(xmldoc(q['doc'][0]))
                    self.made.attributeSelector = EtreeXPathSelector(self.elem)
                else:
                    redoc(self.elem, q['doc'][0])
            yield self.made


def fill_request(o, rq):
    from ndg.xacml.core.context.subject import Subject
    from ndg.xacml.core.context.resource import Resource
    from ndg.xacml.core.context.action import Action
    from ndg.xacml.core.context.environment import Environment
    for s in rq['S']:
        o.subjects.append(fill(Subject(), s))
    for s in rq['R']:
        o.resources.append(fill(Resource(), s))
    for s in rq['A']:
        o.action = fill(Action(), s)
    for s in rq['E']:
        o.environment = fill(Environment(), s)


def xmldoc(d):
    tag, ns = d['tag'], ''
    if tag.startswith('{'):
        uri, tag = tag[1:].split('}')
        ns, tag = ' xmlns:q=%s' % quoteattr(uri), 'q:' + tag
    return '<%s%s%s>%s%s</%s>' % (tag, ns, ''.join(' %s=%s' % (a['n'], quoteattr(a['v'])) for a in d['at']),
                                  escape(d['text']), ''.join(xmldoc(k) for k in d['kids']), tag)


# ---------------------------------------------------------- custom functions
gate = None         # called, when set, wherever a custom-echo function or a gated handler is reached


def at_gate():
    g = gate
    if g is not None:
        g()


def register_custom():
    from ndg.xacml.core.functions import functionMap, AbstractFunction

    def mk(ns, fn):
        cls = type('V' + ns.rsplit('-', 1)[1].title(), (AbstractFunction,),
                   {'FUNCTION_NS': ns, 'evaluate': lambda self, *a: fn(*a)})
        functionMap.load_custom_function(ns, function_factory=lambda identifier: cls)

    def boom(*a):
        raise RuntimeError('scripted custom function failure')

    def echo(a):
        at_gate()
        return a

    def script(a, b):
        x = b.value[:1]
        if x not in 'tf':
            raise ValueError('scripted comparison failure')
        return x == 't'
    mk('urn:verif:function:custom-true', lambda *a: True)
    mk('urn:verif:function:custom-false', lambda *a: False)
    mk('urn:verif:function:custom-raise', boom)
    mk('urn:verif:function:custom-echo', echo)
    mk('urn:verif:function:custom-script', script)
    for name, v in (('none', None), ('zero', 0), ('one', 1), ('str', 'false'), ('empty', ''), ('list', [True]),
                    ('nolist', []), ('obj', object())):
        mk('urn:verif:function:custom-ret-' + name, lambda *a, v=v: v)
    for name, mkexc in EXCEPTIONS.items():
        mk('urn:verif:function:custom-raise-' + name, lambda *a, m=mkexc: throw(m))


def throw(mkexc):
    raise mkexc()


class UnprintableError(Exception):
    def __str__(self):
        raise RuntimeError('no text')
    __repr__ = __str__


def _context_error():
    from ndg.xacml.core.context.exceptions import XacmlContextError
    return XacmlContextError('scripted')


def _parse_error():
    from ndg.xacml.parsers import XMLParseError
    return XMLParseError('scripted')


EXCEPTIONS = {
    'runtime': lambda: RuntimeError('x'), 'key': lambda: KeyError('x'), 'stop': lambda: StopIteration(),
    'assertion': lambda: AssertionError(), 'type': lambda: TypeError('x'), 'attribute': lambda: AttributeError('x'),
    'notimpl': lambda: NotImplementedError(), 'unicode': lambda: UnicodeDecodeError('ascii', b'x', 0, 1, 'x'),
    'os': lambda: OSError(5, 'x'), 'memory': lambda: MemoryError(), 'recursion': lambda: RecursionError('x'),
    'zero': lambda: ZeroDivisionError(), 'import': lambda: ImportError('x'), 'index': lambda: IndexError(),
    'unprintable': lambda: UnprintableError(), 'context': _context_error, 'parse': _parse_error,
    'timeout': lambda: TimeoutError(), 'group': lambda: ExceptionGroup('g', [ValueError('x')]),
    'value': lambda: ValueError('permit'), 'lookup': lambda: LookupError(), 'eof': lambda: EOFError(),
}


def load_policy(p, via, rnd=None, style=None):
    """PDP for abstract policy p: via 'xml' (parsed document), 'api' (built with the
    constructors and setters) or 'ref' (children of the top policy set referenced)."""
    from ndg.xacml.core.context.pdp import PDP
    if via == 'api':
        pdp = PDP()
        pdp.policy = a_policy(p)
        return pdp
    if via == 'apinew':
        return PDP(a_policy(p))
    import io
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    if via == 'ref':
        import tempfile
        import os
        import shutil
        d = tempfile.mkdtemp()
        try:
            top = dict(p, kids=[])
            for i, c in enumerate(p['kids']):
                name = 'kid%d.xml' % i
                top['kids'].append({'k': 'ref', 'set': c['k'] == 'PS', 'id': name})
                with open(os.path.join(d, name), 'w') as f:
                    f.write(x_policy(dict(c, id=name), style or Style(rnd)))
            src = os.path.join(d, 'top.xml')
            with open(src, 'w') as f:
                f.write(x_policy(top, style or Style(rnd)))
            return PDP.fromPolicySource(src, ReaderFactory, UrlPolicyFinder(d))
        finally:
            shutil.rmtree(d)
    xml = x_policy(p, style or Style(rnd))
    return PDP.fromPolicySource(io.BytesIO(xml.encode('utf-8')), ReaderFactory, UrlPolicyFinder('/nonexistent'))


def response_obs(resp):
    """What a caller sees of a response."""
    from ndg.xacml.core.context.result import Decision, Result
    rs = list(resp.results)
    if not rs:
        return {'n': 0, 'dec': ''}
    d = rs[0].decision
    if not isinstance(rs[0], Result) or not isinstance(d, Decision):
        return {'n': len(rs), 'dec': 'odd ' + type(d).__name__}
    v = d.value
    same = [k.value for k in (Decision.PERMIT, Decision.DENY, Decision.NOT_APPLICABLE, Decision.INDETERMINATE)
            if d == k]
    if same != [v] or str(v) not in ('Permit', 'Deny', 'NotApplicable', 'Indeterminate'):
        return {'n': len(rs), 'dec': 'odd %s equal to %s' % (v, same)}
    return {'n': len(rs), 'dec': str(v)}

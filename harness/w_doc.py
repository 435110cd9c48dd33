"""Policy documents given to the real readers (spec/PolicyDoc.tla)."""
import io
import os
import random
import tempfile
import xml.parsers.expat
from xml.sax.saxutils import escape, quoteattr

import realize as R

OTHER = 'urn:other'


class Writer(object):
    """One of the equivalent ways of writing a raw element tree as XML text."""
    def __init__(self, seed, ns=R.POLICY_NS):
        self.ns = ns
        self.r = r = random.Random(seed)
        self.plain = seed is None
        self.prefix = '' if self.plain or r.random() < .5 else r.choice(['xacml:', 'p:'])
        self.space = not self.plain and r.random() < .5
        self.notes = not self.plain and r.random() < .4
        self.enc = 'utf-8' if self.plain else r.choice(['utf-8', 'utf-8', 'utf-8', 'utf-8-sig', 'utf-16'])
        self.decl = not self.plain and (self.enc == 'utf-16' or r.random() < .5)

    def note(self):
        if self.notes and self.r.random() < .3:
            return self.r.choice(['<!-- note -->', '<!-- <Rule/> -->', '<?verif note?>', '<!---->'])
        return ''

    def chars(self, x):
        if self.plain or not x:
            return escape(x)
        k = self.r.random()
        if k < .15 and ']]>' not in x and '\r' not in x:
            return '<![CDATA[%s]]>' % x
        if k < .3:
            i = self.r.randrange(len(x))
            return escape(x[:i]) + '&#%d;' % ord(x[i]) + escape(x[i + 1:])
        if k < .45 and self.notes:
            i = self.r.randrange(len(x) + 1)
            return escape(x[:i]) + self.note() + escape(x[i:])
        return escape(x)

    def el(self, nd, root=True):
        if nd['tag'] == '#text':
            return escape(nd['text'])
        pre = 'o:' if nd['ns'] else self.prefix
        t = pre + nd['tag']
        at = [(a['n'], a['v']) for a in nd['at']]
        if not self.plain:
            self.r.shuffle(at)
        a = ''.join(' %s=%s' % (n, quoteattr(v)) for n, v in at)
        if root:
            a += ' xmlns%s="%s"' % (':' + self.prefix[:-1] if self.prefix else '', self.ns)
        if nd['ns']:
            a += ' xmlns:o="%s"' % OTHER
        if not nd['kids']:
            if nd['text'] == '' and (self.plain or self.r.random() < .7):
                return '<%s%s/>' % (t, a)
            return '<%s%s>%s</%s>' % (t, a, self.chars(nd['text']), t)
        sep = self.r.choice(['\n', '\n  ', ' ']) if self.space else ''
        out = self.chars(nd['text'])
        for k in nd['kids']:
            out += sep + self.note() + sep + self.el(k, False)
        return '<%s%s>%s%s%s</%s>' % (t, a, out, sep, self.note(), t)

    def doc(self, nd):
        s = self.el(nd)
        if self.notes:
            s = self.note() + s + self.note()
        if self.decl:
            s = '<?xml version="1.0" encoding="%s"?>\n' % {'utf-8-sig': 'UTF-8'}.get(self.enc, self.enc.upper()) + s
        elif self.enc == 'utf-16':
            self.enc = 'utf-8'
        return s.encode(self.enc)


# ---------------------------------------------------------------- real content
def txt(x):
    return '' if x is None else str(x)


def flag(b):
    return b if isinstance(b, bool) else False if b is None else 'odd %r' % (b,)


def d_expr(e):
    from ndg.xacml.core.attributevalue import AttributeValue
    from ndg.xacml.core.attributeselector import AttributeSelector
    from ndg.xacml.core import attributedesignator as ad
    from ndg.xacml.core.apply import Apply
    if isinstance(e, AttributeValue):
        return {'k': 'lit', 't': txt(e.dataType), 'v': txt(e.value)}
    if isinstance(e, AttributeSelector):
        return {'k': 'sel', 'path': txt(e.requestContextPath), 't': txt(e.dataType), 'mbp': flag(e.mustBePresent)}
    for c, n in R.CAT.items():
        if isinstance(e, getattr(ad, n + 'AttributeDesignator')):
            return {'k': 'des', 'cat': c, 'id': txt(e.attributeId), 't': txt(e.dataType), 'iss': R.d_issuer(e),
                    'mbp': flag(e.mustBePresent)}
    if isinstance(e, Apply):
        return {'k': 'app', 'f': txt(e.functionId), 'args': [d_expr(a) for a in e.expressions]}
    return {'k': 'odd ' + type(e).__name__}


def d_match(m, c):
    from ndg.xacml.core import match as mm
    d, s = m.attributeDesignator, m.attributeSelector
    if type(m) is not getattr(mm, R.CAT[c] + 'Match'):
        return {'k': 'odd ' + type(m).__name__}
    if (d is None) == (s is None):
        src = {'k': 'odd: designator %r selector %r' % (d, s)}
    else:
        src = d_expr(d if d is not None else s)
    return {'f': txt(m.matchId), 'v': d_expr(m.attributeValue) if m.attributeValue is not None else {'k': 'none'}, 'src': src}


def d_target(t):
    from ndg.xacml.core.target import Target
    if t is None:
        return []
    if not isinstance(t, Target):
        return ['odd ' + type(t).__name__]
    out = {}
    for c, attr in zip('SRAE', ('subjects', 'resources', 'actions', 'environments')):
        out[c] = [[d_match(m, c) for m in alt.matches] for alt in getattr(t, attr)]
    return [out]


def d_rule(r):
    cond = [] if r.condition is None else [d_expr(r.condition.expression)]
    return {'id': txt(r.id), 'eff': str(r.effect.value), 'desc': txt(r.description), 'tgt': d_target(r.target), 'cond': cond}


def d_policy(p):
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    if isinstance(p, Policy):
        f = p.policyDefaults
        return {'k': 'P', 'id': txt(p.policyId), 'alg': txt(p.ruleCombiningAlgId), 'ver': txt(p.version),
                'desc': txt(p.description), 'dflt': '' if f is None else txt(f.xpathVersion), 'tgt': d_target(p.target),
                'rules': [d_rule(r) for r in p.rules]}
    if isinstance(p, PolicySet):
        f = p.policySetDefaults
        return {'k': 'PS', 'id': txt(p.policySetId), 'alg': txt(p.policyCombiningAlgId), 'ver': txt(p.version),
                'desc': txt(p.description), 'dflt': '' if f is None else txt(f.xpathVersion), 'tgt': d_target(p.target),
                'kids': [d_policy(k) for k in p.policies]}
    return {'k': 'odd ' + type(p).__name__}


# ------------------------------------------------------------------ entry points
def read(via, data, env):
    from ndg.xacml import importElementTree
    from ndg.xacml.core.context.pdp import PDP
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.core.policybase import PolicyBase
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
    finder = lambda: LocalPolicyFinder() if via.endswith('-local') else UrlPolicyFinder('/nonexistent')
    via = via.split('-')[0]
    if via == 'bytes':
        return PDP.fromPolicySource(io.BytesIO(data), ReaderFactory, finder()).policy
    if via == 'elem':
        return PDP.fromPolicySource(importElementTree().fromstring(data), ReaderFactory, finder()).policy
    if via == 'set':
        pdp = PDP()
        pdp.setPolicyFromSource(io.BytesIO(data), ReaderFactory, finder())
        return pdp.policy
    if via == 'base':
        return PolicyBase.fromSource(io.BytesIO(data), ReaderFactory, finder())
    if via == 'policy':
        return Policy.fromSource(io.BytesIO(data), ReaderFactory)
    if via == 'policyset':
        from ndg.xacml.parsers.common import Common
        return ReaderFactory.getReader(PolicySet).parse(io.BytesIO(data), Common(finder()))
    if via == 'reader':
        return ReaderFactory.getReader(Policy).parse(io.BytesIO(data), None)
    path = os.path.join(env['tmp'], 'doc.xml')
    with open(path, 'wb') as f:
        f.write(data)
    if via == 'path':
        return PDP.fromPolicySource(path, ReaderFactory).policy
    with open(path, 'rb') as f:         # file
        return PDP.fromPolicySource(f, ReaderFactory, finder()).policy


def well_formed(data):
    p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
    try:
        p.Parse(data, True)
        return True
    except xml.parsers.expat.ExpatError:
        return False


def damage(data, how, r):
    """bytes near a document that are not well-formed XML"""
    for _ in range(20):
        i = r.randrange(len(data))
        if how == 'cut':
            d = data[:i]
        elif how == 'drop':
            d = data[:i] + data[i + 1:]
        elif how == 'insert':
            d = data[:i] + r.choice([b'<', b'>', b'&', b'&nosuch;', b'</x>', b'\x00', b'<x>', b'"', b'=']) + data[i:]
        elif how == 'tail':
            d = data + r.choice([b'x', b'<a/>', b'<', data])
        else:
            d = r.choice([b'', b' ', b'not XML', b'{"Policy": 1}', b'\xff\xfe', b'<', b'<?xml version="1.0"?>', b'<!-- -->'])
        if not well_formed(d):
            return d
    return b'<'


def one(c, env):
    r = random.Random('%s/damage' % c['seed'])
    obs = []
    for i, via in enumerate(c['via']):
        data = Writer(None if c.get('plain') else '%s/%d' % (c['seed'], i)).doc(c['t'])
        assert well_formed(data), data
        if not c['wf']:
            if via.startswith('elem'):
                via = 'bytes'
            data = damage(data, c['how'], r)
        try:
            p = read(via, data, env)
            ob = {'via': via, 'ok': True, 'd': '', 'c': d_policy(p)}
        except Exception as e:
            ob = {'via': via, 'ok': False, 'd': '%s: %s' % (type(e).__name__, str(e)[:150]), 'c': []}
        obs.append(ob)
    return {'obs': obs}


KINDS = {'doc.one': one}

"""Histories of operations on real decisions, effects and status codes (spec/Vocabulary.tla)."""
import copy
import pickle

import forked
import w_doc     # noqa: F401  (imported before forking)


class Text(str):
    pass


def odd(s):
    return {'none': None, 'int': 1, 'bytes': b'Permit', 'true': True, 'list': ['Permit'], 'tuple': ('Deny',), 'class': dict,
            'object': object(), 'float': 0.5}[s]


def classes():
    from ndg.xacml.core.context.result import Decision, StatusCode
    from ndg.xacml.core.rule import Effect
    from ndg.xacml.core.obligation import Effect as OEffect
    return {'D': Decision, 'E': Effect, 'O': OEffect, 'S': StatusCode}


def xml(dec, how=''):
    """a policy that gives this decision"""
    P = 'urn:oasis:names:tc:xacml:1.0:'
    cond = ''
    if dec in ('NotApplicable', 'Indeterminate'):
        lit = '<AttributeValue DataType="http://www.w3.org/2001/XMLSchema#string">%s</AttributeValue>'
        des = '<SubjectAttributeDesignator AttributeId="absent" DataType="http://www.w3.org/2001/XMLSchema#string"/>'
        arg = lit % 'b' if dec == 'NotApplicable' else '<Apply FunctionId="%sfunction:string-one-and-only">%s</Apply>' % (P, des)
        cond = '<Condition><Apply FunctionId="%sfunction:string-equal">%s%s</Apply></Condition>' % (P, lit % 'a', arg)
    return ('<Policy xmlns="urn:oasis:names:tc:xacml:2.0:policy:schema:os" PolicyId="p" RuleCombiningAlgId="%srule-combining-algorithm:%s">'
            '<Target/><Rule RuleId="r" Effect="%s">%s</Rule></Policy>' % (P, how or 'first-applicable', 'Deny' if dec == 'Deny' else 'Permit', cond))


def load(text):
    from ndg.xacml import importElementTree
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
    from ndg.xacml.core.context.pdp import PDP
    return PDP.fromPolicySource(importElementTree().fromstring(text), ReaderFactory, LocalPolicyFinder())


def request():
    from ndg.xacml.core.context.request import Request, Subject, Resource, Action, Environment
    r = Request()
    r.subjects.append(Subject())
    r.resources.append(Resource())
    r.action, r.environment = Action(), Environment()
    return r


class Keep(object):
    """an object reached through what refers to it: read and set through that each time"""

    def __init__(self, get):
        self.get = get


def obtain(c, v, how):
    from ndg.xacml.core.context.result import Result, Decision
    from ndg.xacml.core.rule import Rule
    from ndg.xacml.core.rule import Effect
    if c == 'E':
        if how == 'policy':
            rule = load(xml(v)).policy.rules[0]
            return Keep(lambda: rule.effect)
        r = Rule()
        r.effect = {'Permit': Effect.PERMIT, 'Deny': Effect.DENY}[v]
        return Keep(lambda: r.effect)
    const = {'Permit': Decision.PERMIT, 'Deny': Decision.DENY, 'NotApplicable': Decision.NOT_APPLICABLE, 'Indeterminate': Decision.INDETERMINATE}[v]
    if how == 'created':
        r = Result.createInitialised(decision=const)
        return Keep(lambda: r.decision)
    if how == 'created-text':
        r = Result.createInitialised(decision=v)
        return Keep(lambda: r.decision)
    if how == 'assigned':
        r = Result()
        r.decision = const
        return Keep(lambda: r.decision)
    if how == 'document':
        from ndg.xacml import importElementTree
        from ndg.xacml.parsers.etree.context import ResponseElementTree
        e = importElementTree().fromstring('<Response xmlns="urn:oasis:names:tc:xacml:2.0:context:schema:os"><Result><Decision>%s</Decision>'
                                           '</Result></Response>' % v)
        r = ResponseElementTree.fromXML(e)
        return Keep(lambda: r.results[0].decision)
    pdp = load(xml(v, {'over': 'deny-overrides', 'permit': 'permit-overrides'}.get(how, '')))
    if how == 'rule':
        d = pdp.policy.rules[0].evaluate(request())
        return Keep(lambda: d)
    if how == 'evaluate':
        d = pdp.policy.evaluate(request())
        return Keep(lambda: d)
    resp = pdp.evaluate(request())
    return Keep(lambda: resp.results[0].decision)


def k_hist(c, env=None):
    return forked.run(_hist, c)


def _hist(c):
    cls = classes()
    D, E = cls['D'], cls['E']
    slots = [D.PERMIT, D.DENY, D.INDETERMINATE, D.NOT_APPLICABLE, E.PERMIT, E.DENY]
    kinds = ['D'] * 4 + ['E'] * 2

    def at(i):
        s = slots[i - 1]
        return s.get() if isinstance(s, Keep) else s

    def arg(a, k):
        if a['t'] == 'str':
            return Text(a['s']) if k % 5 == 0 else ''.join(list(a['s']))
        return at(a['j']) if a['t'] == 'obj' else odd(a['s'])

    def val(o, c):
        v = o.value
        return v if isinstance(v, str) else '' if v is None and c == 'S' else repr(v)

    def values():
        consts = [D.PERMIT, D.DENY, D.INDETERMINATE, D.NOT_APPLICABLE, E.PERMIT, E.DENY]
        return [val(o, k) for o, k in zip(consts, kinds)] + [val(at(i + 1), kinds[i]) for i in range(6, len(slots))]

    def odd_reading():
        for i, k in enumerate(kinds):
            o = at(i + 1)
            if not isinstance(o, cls[k]):
                return 'slot %d is a %s' % (i + 1, type(o).__name__)
            if k != 'S' and (str(o) != o.value or type(o.value) not in (str, Text)):
                return 'slot %d is %r as a string, its value %r' % (i + 1, str(o), o.value)
            if k == 'E' and bool(o) != (o.value == 'Permit'):
                return 'slot %d with value %r is %r as a truth value' % (i + 1, o.value, bool(o))
            repr(o)
        return ''

    def step(o, k):
        n = o['o']
        if n == 'new':
            if o['c'] == 'S':
                s = cls['S']()
                s.value = arg(o['a'], k)
                return s
            a = arg(o['a'], k)
            return cls[o['c']](a) if k % 2 or o['c'] == 'O' else cls[o['c']](**{'decision' if o['c'] == 'D' else 'effect': a})
        if n == 'make':
            return cls[o['c']]()
        if n == 'const':
            return type({('D', 'Permit'): D.PERMIT, ('D', 'Deny'): D.DENY, ('D', 'Indeterminate'): D.INDETERMINATE,
                         ('D', 'NotApplicable'): D.NOT_APPLICABLE, ('E', 'Permit'): E.PERMIT, ('E', 'Deny'): E.DENY}[o['c'], o['v']])()
        if n == 'copy':
            return {'shallow': copy.copy, 'deep': copy.deepcopy, 'pickle': lambda x: pickle.loads(pickle.dumps(x))}[o['how']](at(o['i']))
        if n == 'from':
            return obtain(o['c'], o['v'], o['how'])
        if n == 'made':
            from ndg.xacml.core.context.result import Result
            r = Result.createInitialised(decision=at(o['j']), **({} if k % 2 else {'resourceId': 'x'}))
            return Keep(lambda: r.decision)
        if n == 'set':
            at(o['i']).value = arg(o['a'], k)
        elif n == 'unset':
            del at(o['i']).value
        elif n == 'cmp':
            x, a, w = at(o['i']), arg(o['a'], k), o['how']
            r = x == a if w == 'eq' else a == x if w == 'req' else x != a if w == 'ne' else a != x
            if type(r) is not bool:
                return 'a %s' % type(r).__name__
            return 'true' if r else 'false'
        elif n == 'give':
            from ndg.xacml.core.context.result import Result, Status
            from ndg.xacml.core.rule import Rule
            h, name = {'D': (Result, 'decision'), 'E': (Rule, 'effect'), 'S': (Status, 'statusCode')}[o['c']]
            h = h()
            try:
                setattr(h, name, arg(o['a'], k))
            finally:
                now = getattr(h, name)
            return val(now, o['c'])
        return ''
    start = values()
    obs = []
    for k, o in enumerate(c['tr']):
        ok, d, ret = True, '', ''
        try:
            r = step(o, k + c['pick'])
            if isinstance(r, str):
                ret = r
            else:
                slots.append(r)
                kinds.append(o['c'] if 'c' in o else kinds[o['i'] - 1])
        except Exception as e:
            ok, d = False, '%s: %s' % (type(e).__name__, str(e)[:80])
        obs.append({'ok': ok, 'd': d, 'ret': ret, 'odd': odd_reading(), 'vs': values()})
    return {'start': start, 'tr': c['tr'], 'obs': obs}


KINDS = {'vocab.hist': k_hist}

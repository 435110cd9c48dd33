"""Edits of real policy objects in place (spec/Editing.tla)."""
import copy
import hashlib
import json
import random

import realize as R

INT = 'urn:oasis:names:tc:xacml:1.0:function:integer-greater-than'
SECT = {'S': 'subjects', 'R': 'resources', 'A': 'actions', 'E': 'environments'}


class Names(object):
    """The texts the terms of a case stand for, to read objects back as terms."""
    def __init__(self, c):
        self.fn, self.path = {}, {}
        self.scan([c['p'], c['ops']])

    def scan(self, x):
        if isinstance(x, dict):
            if 'fam' in x and 'ft' in x:
                self.fn[R.urn(x['fam'], x['ft'])] = (x['fam'], x['ft'])
            if 'path' in x and isinstance(x['path'], list):
                self.path[R.xpath(x['path'])] = x['path']
            for v in x.values():
                self.scan(v)
            if x.get('f') == 'path' and 'v' in x:
                self.path[R.xpath(x['v'])] = x['v']
        elif isinstance(x, list):
            for v in x:
                self.scan(v)

    def fun(self, u):
        return self.fn.get(u, ('?', str(u)))


def typ(u):
    return R.URI_TYPE.get(u, str(u))


def txt(x):
    return '' if x is None else str(x)


def cat_of(o):
    n = type(o).__name__
    return [k for k, v in R.CAT.items() if n.startswith(v)][0]


def d_expr(e, N):
    n = type(e).__name__
    if hasattr(e, 'expressions'):
        fam, ft = N.fun(e.functionId)
        return {'k': 'app', 'fam': fam, 'ft': ft, 'args': [d_expr(x, N) for x in e.expressions]}
    if n.endswith('Designator'):
        return {'k': 'des', 'cat': cat_of(e), 'id': txt(e.attributeId), 't': typ(e.dataType), 'iss': R.d_issuer(e), 'mbp': bool(e.mustBePresent)}
    if n.endswith('Selector'):
        p = N.path.get(e.requestContextPath)
        return {'k': 'sel', 'path': p if p is not None else [{'n': '?' + txt(e.requestContextPath), 'ax': '', 'pa': '', 'pv': ''}],
                't': typ(e.dataType), 'mbp': bool(e.mustBePresent)}
    t = typ(e.dataType)
    return {'k': 'lit', 't': t, 'v': R.text(t, e.value)}


def d_match(m, N):
    fam, ft = N.fun(m.matchId)
    lit = d_expr(m.attributeValue, N)
    both = [x for x in (m.attributeDesignator, m.attributeSelector) if x is not None]
    src = d_expr(both[0], N) if len(both) == 1 else {'k': '%d sources' % len(both)}
    return {'fam': fam, 'ft': ft, 't': lit['t'], 'v': lit['v'], 'src': src}


def d_target(t, N):
    if t is None:
        return []
    return [{c: [[d_match(m, N) for m in alt.matches] for alt in getattr(t, SECT[c])] for c in 'SRAE'}]


def d_rule(r, N):
    return {'id': txt(r.id), 'eff': str(r.effect.value), 'desc': txt(r.description), 'tgt': d_target(r.target, N),
            'cond': [] if r.condition is None else [d_expr(r.condition.expression, N)]}


def d_policy(p, N):
    d = {'desc': txt(p.description), 'version': txt(p.version), 'tgt': d_target(p.target, N), 'id': txt(p.ident)}
    if hasattr(p, 'rules'):
        a = txt(p.ruleCombiningAlgId)
        d.update(k='P', alg=a[len(R.RULE_ALG):] if a.startswith(R.RULE_ALG) else '?' + a, rules=[d_rule(r, N) for r in p.rules])
    else:
        a = txt(p.policyCombiningAlgId)
        d.update(k='PS', alg=a[len(R.POL_ALG):] if a.startswith(R.POL_ALG) else '?' + a, kids=[d_policy(q, N) for q in p.policies])
    return d


def build(p, how, rnd):
    if how == 'xml':
        return R.load_policy(p, 'xml', rnd=rnd).policy
    return texts(R.a_policy(p), p)


def texts(o, p):
    """descriptions and versions, which the plain builder leaves out"""
    if p['desc']:
        o.description = p['desc']
    if p['version']:
        o.version = p['version']
    for x, t in zip(o.rules, p['rules']) if p['k'] == 'P' else ():
        if t['desc']:
            x.description = t['desc']
    for x, t in zip(o.policies, p['kids']) if p['k'] == 'PS' else ():
        texts(x, t)
    return o


def rule(t):
    o = R.a_rule(t)
    if t['desc']:
        o.description = t['desc']
    return o


class Opt(object):
    """the place of an optional part of an object"""
    def __init__(self, v):
        self.v = v


def step(o, s):
    if isinstance(s, int):
        if isinstance(o, Opt):
            return o.v
        return (o.matches if hasattr(o, 'matches') else o)[s - 1]
    if s == 'tgt':
        return Opt(o.target)
    if s == 'cond':
        return Opt(o.condition.expression)
    if s == 'src':
        return o.attributeDesignator if o.attributeDesignator is not None else o.attributeSelector
    if s in SECT:
        return getattr(o, SECT[s])
    return getattr(o, {'rules': 'rules', 'kids': 'policies', 'args': 'expressions'}[s])


def alternative(cat, alt):
    return R.a_target(dict({c: [] for c in 'SRAE'}, **{cat: [alt]})).__getattribute__(SECT[cat])[0]


def mk(at, x):
    """the object for an element x of the list at the path"""
    last = at[-1]
    if last == 'rules':
        return rule(x)
    if last == 'kids':
        return texts(R.a_policy(x), x)
    if last == 'args':
        return R.a_expr(x)
    if last in SECT:
        return alternative(last, x)
    return R.a_match(at[-2], x)


def condition(e):
    from ndg.xacml.core.condition import Condition
    c = Condition()
    c.expression = R.a_expr(e)
    return c


def effect(v):
    from ndg.xacml.core.rule import Effect, PermitEffect, DenyEffect
    return Effect(v)


def bad(o, op):
    """a value of a wrong kind"""
    w, f = op['w'], op.get('f')
    at = op['at']
    if w == 'none':
        return None
    if w == 'int':
        return 5
    if w == 'str':
        return 'Permit'
    if w == 'unknown':
        return 'urn:verif:no:such:thing'
    if w == 'unimpl':
        if f == 'fn':
            return INT
        return R.RULE_ALG + 'ordered-deny-overrides' if hasattr(o, 'rules') else R.POL_ALG + 'only-one-applicable'
    if w == 'other':
        return (R.POL_ALG if hasattr(o, 'rules') else R.RULE_ALG) + 'deny-overrides'
    if w == 'rule':
        from ndg.xacml.core.rule import Rule
        return Rule()
    if w == 'policy':
        from ndg.xacml.core.policy import Policy
        return Policy()
    if w == 'target':
        from ndg.xacml.core.target import Target
        return Target()
    if w == 'dec':
        from ndg.xacml.core.context.result import Decision
        return Decision.PERMIT
    if w == 'app':
        from ndg.xacml.core.apply import Apply
        return Apply()
    if w == 'lit':
        return R.mkvalue('string', 'x')
    if w == 'des':
        from ndg.xacml.core.attributedesignator import ResourceAttributeDesignator
        return ResourceAttributeDesignator()
    if w == 'sel':
        from ndg.xacml.core.attributeselector import AttributeSelector
        return AttributeSelector()
    if w == 'othermatch':
        return R.a_match('A' if at[-2] != 'A' else 'E', MATCH)
    if w == 'otheralt':
        return alternative('A' if at[-1] != 'A' else 'E', [MATCH])
    raise ValueError(w)


MATCH = {'fam': 'equal', 'ft': 'string', 't': 'string', 'v': 'x',
         'src': {'k': 'des', 'cat': 'A', 'id': 'urn:a:one', 't': 'string', 'iss': '', 'mbp': False}}


def fields(o, f):
    """the object and property a field is kept in"""
    policy = hasattr(o, 'rules')
    pset = hasattr(o, 'policies')
    match = hasattr(o, 'matchId')
    if f == 'alg':
        return o, 'ruleCombiningAlgId' if policy else 'policyCombiningAlgId'
    if f == 'id':
        return o, 'policyId' if policy else 'policySetId' if pset else 'attributeId' if hasattr(o, 'attributeId') else 'id'
    if f == 'fn':
        return o, 'matchId' if match else 'functionId'
    if f == 'value':
        return (o.attributeValue, 'value') if match else (o, 'value')
    if f == 'expr':
        return o.condition, 'expression'
    return o, {'desc': 'description', 'version': 'version', 'tgt': 'target', 'cond': 'condition', 'eff': 'effect', 'iss': 'issuer',
               'mbp': 'mustBePresent', 't': 'dataType', 'lit': 'attributeValue', 'path': 'requestContextPath',
               'srcd': 'attributeDesignator', 'srcs': 'attributeSelector'}[f]


def good(o, f, v):
    if f == 'alg':
        return (R.RULE_ALG if hasattr(o, 'rules') else R.POL_ALG) + v
    if f == 'fn':
        return R.urn(v['fam'], v['ft'])
    if f == 'value':
        t = typ((o.attributeValue if hasattr(o, 'matchId') else o).dataType)
        return R.native(t, v)
    if f == 'tgt':
        return R.a_target(v)
    if f == 'cond':
        return condition(v)
    if f == 'eff':
        return effect(v)
    if f == 't':
        return R.TYPE_URI.get(v, v)
    if f == 'lit':
        return R.mkvalue(v['t'], v['v'])
    if f == 'path':
        return R.xpath(v)
    if f == 'iss':
        return R.issuer({'iss': v})
    return v


def follow(o, at):
    for s in at:
        o = step(o, s)
    return o


def hold(o, op):
    """the object an edit is about to take out"""
    if op['o'] != 'set':
        return (o.matches if hasattr(o, 'matches') else o)[op['i'] - 1]
    if op['f'] == 'src':
        return step(o, 'src')
    h, name = fields(o, op['f'])
    return getattr(h, name)


def do(root, op, alt, shelf):
    o = follow(root, op['at'])
    k = op['o']
    old = shelf.pop(op['from'] - 1) if op.get('from') else None
    if op.get('keep'):
        x = hold(o, op)
        if op['o'] == 'set' and op['f'] == 'cond' and alt:
            x = x.expression
        shelf.append(x)
    if old is not None:
        if k == 'ins':
            (o.matches if hasattr(o, 'matches') else o).insert(op['i'] - 1, old)
        elif k == 'put':
            (o.matches if hasattr(o, 'matches') else o)[op['i'] - 1] = old
        elif op['f'] == 'src':
            setattr(o, 'attributeDesignator' if op['v']['k'] == 'des' else 'attributeSelector', old)
        elif op['f'] == 'cond' and not hasattr(old, 'expression'):
            if o.condition is not None and op.get('keep') is None:
                o.condition.expression = old
            else:
                from ndg.xacml.core.condition import Condition
                o.condition, e = Condition(), old
                o.condition.expression = e
        else:
            h, name = fields(o, op['f'])
            setattr(h, name, old)
        return
    if k == 'set':
        f, v = op['f'], op['v']
        if f == 'src':
            setattr(o, 'attributeDesignator' if v['k'] == 'des' else 'attributeSelector', R.a_expr(v))
        elif f == 'cond' and o.condition is not None and alt:
            o.condition.expression = R.a_expr(v)
        else:
            h, name = fields(o, f)
            setattr(h, name, good(o, f, v))
        return
    if k == 'bad':
        h, name = fields(o, op['f'])
        setattr(h, name, bad(o, op))
        return
    q = o.matches if hasattr(o, 'matches') else o
    if k == 'badl':
        x = bad(o, op)
        if op['how'] == 'app':
            q.append(x)
        elif op['how'] == 'ins':
            q.insert(0, x)
        elif op['how'] == 'ext':
            if alt:
                q += [x]
            else:
                q.extend([x])
        elif len(q):
            q[0] = x
        else:
            q[0:0] = [x]
    elif k == 'app':
        q.append(mk(op['at'], op['x']))
    elif k == 'ext':
        xs = [mk(op['at'], x) for x in op['xs']]
        if alt:
            q += xs
        else:
            q.extend(xs)
    elif k == 'ins':
        q.insert(op['i'] - 1, mk(op['at'], op['x']))
    elif k == 'put':
        q[op['i'] - 1] = mk(op['at'], op['x'])
    elif k == 'del':
        if alt:
            q.pop(op['i'] - 1)
        else:
            del q[op['i'] - 1]
    elif k == 'rev':
        if alt:
            q.reverse()
        else:
            q[:] = q[::-1]
    elif k == 'mov':
        if alt:
            q.insert(op['j'] - 1, q.pop(op['i'] - 1))
        else:
            x = q[op['i'] - 1]
            del q[op['i'] - 1]
            q[op['j'] - 1:op['j'] - 1] = [x]
    elif k == 'clear':
        if alt:
            del q[:]
        else:
            while len(q):
                q.pop()
    else:
        raise ValueError(k)


def digest(p, N):
    return hashlib.md5(json.dumps(d_policy(p, N), sort_keys=True).encode()).hexdigest()


def hist(c, env):
    from ndg.xacml.core.context.pdp import PDP
    rnd = random.Random(str(c.get('seed', 0)))
    N = Names(c)
    root = build(c['p'], c['load'], rnd)
    ctl = build(c['p'], c['load'], None)
    pdp = PDP(root)
    rqs = [R.mkrequest(rq) for rq in c['rqs']]

    def decision(rq):
        try:
            o = R.response_obs(pdp.evaluate(rq))
            return o['dec'] if o['n'] == 1 else '%d results' % o['n']
        except Exception as e:
            return 'raised ' + type(e).__name__

    def rests(o):
        """what the tree that is not edited says and decides"""
        d = digest(o, N)
        try:
            return d, str(PDP(o).evaluate(rqs[0]).results[0].decision)
        except Exception as e:
            return d, type(e).__name__
    ctl = [ctl, rests(ctl)]

    def look(ob):
        try:
            ob['tree'] = d_policy(root, N)
        except Exception as e:
            ob['tree'] = {'k': 'unreadable', 'd': '%s: %s' % (type(e).__name__, str(e)[:100])}
        ob['ctl'] = rests(ctl[0]) == ctl[1]
        ob['decs'] = [decision(rq) for rq in rqs]
        return ob
    first = look({})
    obs, shelf = [], []
    for op in c['ops']:
        ob = {'raised': False, 'd': ''}
        if op['o'] == 'copy':
            now = rests(root)
            if rnd.random() < .5:
                new = copy.deepcopy(root)
                pdp = PDP(new)
            else:
                new = copy.deepcopy(pdp)
                pdp, new = new, new.policy
            if rnd.random() < .5:
                pdp, new, root = PDP(root), root, new
            ctl[:] = [root, now]
            root = new
            obs.append(look(ob))
            continue
        try:
            do(root, op, rnd.random() < .5, shelf)
        except Exception as e:
            ob['raised'], ob['d'] = True, '%s: %s' % (type(e).__name__, str(e)[:150])
        obs.append(look(ob))
        if ob['raised'] and op['o'] not in ('bad', 'badl'):
            while len(obs) < len(c['ops']):
                obs.append(obs[-1])
            break
    return {'obs': obs, 'first': first}


KINDS = {'edit.hist': hist}

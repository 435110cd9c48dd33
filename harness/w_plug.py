"""Histories of plugging factories, function maps and readers into real objects (spec/Plugins.tla)."""
import random

import checks_plug
import forked
import realize as R
import w_doc     # noqa: F401  (imported before forking)

STR = 'string'
ALG = {'DO': 'deny-overrides', 'PO': 'permit-overrides', 'FA': 'first-applicable', 'OO': 'ordered-deny-overrides'}
DES = {'k': 'des', 'cat': 'S', 'id': 'urn:a', 't': STR, 'iss': '', 'mbp': False}


def has(v):
    return {'k': 'app', 'fam': 'at-least-one-member-of', 'ft': STR,
            'args': [{'k': 'app', 'fam': 'bag', 'ft': STR, 'args': [{'k': 'lit', 't': STR, 'v': v}]}, DES]}


RULES = [{'id': 'r1', 'eff': 'Permit', 'tgt': [], 'cond': [has('x')]}, {'id': 'r2', 'eff': 'Deny', 'tgt': [], 'cond': []},
         {'id': 'r3', 'eff': 'Permit', 'tgt': [], 'cond': [has('y')]}]
KIDS = [{'k': 'P', 'id': 'k%d' % i, 'alg': 'first-applicable', 'tgt': [], 'rules': [x]} for i, x in enumerate(RULES)]
CTL = {'k': 'P', 'id': 'ctl', 'alg': 'deny-overrides', 'tgt': [], 'rules': RULES}


def rq(v):
    return {'S': [[{'id': 'urn:a', 't': STR, 'iss': '', 'vals': [v]}]], 'R': [[]], 'A': [[]], 'E': [[]], 'pip': [], 'doc': []}


class World(object):
    def __init__(self):
        from ndg.xacml.core import rule_combining_alg as RC, policy_combining_alg as PC
        from ndg.xacml.core.functions import FunctionMap, functionMap, AbstractFunction
        from ndg.xacml.core.context.result import Decision
        self.std, self.fac, self.uses = {}, {}, {}
        for k, M, I, F, pre in (('P', RC, RC.RuleCombiningAlgInterface, RC.RuleCombiningAlgClassFactory, R.RULE_ALG),
                                ('S', PC, PC.PolicyCombiningAlgInterface, PC.PolicyCombiningAlgClassFactory, R.POL_ALG)):
            self.make(k, I, F, pre, Decision)

        def fun(name, res):
            def evaluate(self, *a):
                if res is None:
                    raise ValueError('custom function')
                return res
            c = type(name, (AbstractFunction,), {'FUNCTION_NS': 'urn:verif:function:c', 'evaluate': evaluate})
            self.uses[c] = name
            return c
        ft, ff, fx = fun('FT', True), fun('FF', False), fun('FX', None)
        a, b = FunctionMap(), FunctionMap()
        a.load_custom_function(self.fid('A', 'c1'), lambda i: ft)
        b.load_custom_function(self.fid('A', 'c1'), lambda i: ff)
        b[self.fid('A', 'c2')] = fx
        b[self.fid('A', 'eq')] = ft
        b[self.fid('M', 'eq')] = ft
        self.maps = {'std': functionMap, 'A': a, 'B': b, 'D': {self.fid('A', 'c1'): ff, self.fid('A', 'c3'): NotImplemented}}
        self.slots = {o: self.fresh(o, 'std') for o in ('p1', 'p2', 's1', 'a1', 'a2', 'm1')}
        self.rqs = [R.mkrequest(rq('x')), R.mkrequest(rq('y'))]
        self.notes, self.outs = {}, {}

    def make(self, k, I, F, pre, D):
        uses, ids = self.uses, {v: pre + t for v, t in ALG.items()}
        default = F()
        for v in ('DO', 'PO', 'FA'):
            uses[default(ids[v])] = v

        def alg(name, f):
            c = type(name, (I,), {'evaluate': f})
            uses[c] = name
            return c

        def boom(self, *a):
            raise RuntimeError('custom algorithm')
        cd = alg('CD', lambda self, q, context: D.DENY)
        cp = alg('CP', lambda self, q, context: D.PERMIT)
        cx = alg('CX', boom)
        unborn = type('Unborn', (I,), {'__init__': boom, 'evaluate': boom})

        class Own(F):
            def __call__(self, identifier):
                i = str(identifier)
                if i == 'urn:verif:alg:c5':
                    raise RuntimeError('custom factory')
                own = {'urn:verif:alg:c1': cp, 'urn:verif:alg:c2': cx, 'urn:verif:alg:c3': 'text', 'urn:verif:alg:c4': dict,
                       'urn:verif:alg:c6': unborn}
                return own[i] if i in own else super(Own, self).__call__(identifier)
        self.std[k] = F
        self.fac[k] = {'A': F(map={'urn:verif:alg:c1': cd, ids['DO']: cp}), 'B': Own()}

    def kind(self, o):
        return o[0].upper()

    def fid(self, k, v):
        return {'eq': R.urn('at-least-one-member-of', STR) if k == 'A' else R.urn('equal', STR),
                'gt': 'urn:oasis:names:tc:xacml:1.0:function:integer-greater-than'}.get(v, 'urn:verif:function:' + v)

    def ident(self, o, v):
        k = self.kind(o)
        if k in 'AM':
            return self.fid(k, v)
        return (R.RULE_ALG if k == 'P' else R.POL_ALG) + ALG[v] if v in ALG else 'urn:verif:alg:' + v

    def plug(self, o, v):
        k = self.kind(o)
        if k in 'AM':
            return self.maps[v]
        return self.std[k]() if v == 'std' else self.fac[k][v]

    def bad(self, o, w):
        from ndg.xacml.core.functions import FunctionMap
        k = self.kind(o)
        return {'none': None, 'str': 'text', 'int': 5, 'class': FunctionMap if k in 'AM' else self.std[k],
                'other': {} if k in 'AM' else self.std['S' if k == 'P' else 'P']()}[w]

    def fresh(self, o, v, arg=None):
        from ndg.xacml.core.policy import Policy
        from ndg.xacml.core.policyset import PolicySet
        k = self.kind(o)
        if k == 'P':
            x = Policy() if v == 'std' else Policy(ruleCombiningAlgFactory=arg if arg is not None else self.fac[k][v])
            x.policyId = o
            x.rules.extend([R.a_rule(t) for t in RULES])
        elif k == 'S':
            x = PolicySet() if v == 'std' else PolicySet(policyCombiningAlgFactory=arg if arg is not None else self.fac[k][v])
            x.policySetId = o
            x.policies.extend([R.a_policy(t) for t in KIDS])
        elif k == 'A':
            from ndg.xacml.core.apply import Apply
            x = Apply()
            x.expressions.extend([R.a_expr(e) for e in has('x')['args']])
        else:
            from ndg.xacml.core.match import SubjectMatch
            x = SubjectMatch()
            x.attributeValue = R.mkvalue(STR, 'x')
            x.attributeDesignator = R.a_expr(DES)
        return x

    def do(self, op):
        k = op['o']
        if k in ('read', 'badread'):
            return self.read(op)
        o = op['on']
        x, v, kind = self.slots[o], op['v'], self.kind(o)
        if k == 'new':
            self.slots[o] = self.fresh(o, v)
        elif k == 'newbad':
            self.slots[o] = self.fresh(o, '', self.bad(o, v))
        elif k in ('plug', 'badplug'):
            p = self.plug(o, v) if k == 'plug' else self.bad(o, v)
            if kind in 'AM':
                x.functionMap = p
            elif kind == 'P':
                x.ruleCombiningAlgFactory = p
            else:
                x.policyCombiningAlgFactory = p
        elif k in ('id', 'badid'):
            i = self.ident(o, v) if k == 'id' else self.bad(o, v)
            setattr(x, {'P': 'ruleCombiningAlgId', 'S': 'policyCombiningAlgId', 'A': 'functionId', 'M': 'matchId'}[kind], i)
        elif k in ('load', 'badload'):
            x.loadFunctionFromId = v if k == 'load' else self.bad(o, v)
        elif k == 'fetch':
            x.setFunctionFromMap(self.maps[v])
        else:
            raise ValueError(k)

    def read(self, op):
        import importlib
        from ndg.xacml.parsers.etree.factory import ReaderFactory
        t = op['t']
        cls = getattr(importlib.import_module('ndg.xacml.core' + {
            'SubjectMatch': '.match', 'MatchBase': '.match', 'ActionAttributeDesignator': '.attributedesignator',
            'XacmlCoreBase': ''}.get(t, '.' + t.lower())), t)
        b = {'MatchBase': 'SubjectMatch', 'AttributeDesignator': 'SubjectAttributeDesignator', 'Expression': 'Apply',
             'XacmlCoreBase': 'Rule'}.get(t, t)
        base = getattr(importlib.import_module('ndg.xacml.parsers.etree.%sreader' % b.lower()), b + 'Reader')
        tag, notes = op['v'], self.notes

        class K(base):
            def __call__(self, *a, **kw):
                notes.setdefault(t, []).append(tag)
                return base.__call__(self, *a, **kw)
        if op['o'] == 'read':
            ReaderFactory.addReader(cls, K)
        elif tag == 'type':
            ReaderFactory.addReader(dict, K)
        else:
            ReaderFactory.addReader(cls, {'none': None, 'str': 'text', 'class': dict}[tag] if tag != 'inst' else K())

    # ------------------------------------------------------------ observation
    def show(self, o):
        x, k = self.slots[o], self.kind(o)
        if k in 'AM':
            m = x.functionMap
            plug = [v for v in ('std', 'A', 'B') if self.maps[v] is m]
            i, u, load = x.functionId if k == 'A' else x.matchId, x.function, x.loadFunctionFromId
        else:
            f = x.ruleCombiningAlgFactory if k == 'P' else x.policyCombiningAlgFactory
            plug = [v for v in ('A', 'B') if self.fac[k][v] is f] or (['std'] if type(f) is self.std[k] else [])
            i, u, load = (x.ruleCombiningAlgId, x.ruleCombiningAlg, True) if k == 'P' else (x.policyCombiningAlgId, x.policyCombiningAlg, True)
        return {'plug': plug[0] if plug else '?', 'id': self.short(o, i), 'use': self.use(o, u), 'load': load, 'out': self.outs[o]}

    def short(self, o, i):
        if i is None:
            return ''
        for v in ('DO', 'PO', 'FA', 'OO', 'c1', 'c2', 'c3', 'c4', 'c5', 'c6') if self.kind(o) in 'PS' else ('eq', 'gt', 'c1', 'c2', 'c3', 'xx'):
            if self.ident(o, v) == i:
                return v
        return '?' + str(i)

    def use(self, o, u):
        if u is None:
            return ''
        if type(u) in self.uses:
            return self.uses[type(u)]
        return 'EQ' if getattr(u, 'FUNCTION_NS', None) == self.ident(o, 'eq') else '?' + type(u).__name__

    def out(self, k, x, q):
        try:
            r = x.evaluate(q)
        except Exception:
            return 'error'
        if k in 'PS':
            return str(r)
        return {True: 'true', False: 'false'}[r] if isinstance(r, bool) else '?' + type(r).__name__

    def elsewhere(self):
        """what is plugged in anywhere changes nothing elsewhere"""
        from ndg.xacml.core.policy import Policy
        from ndg.xacml.core.apply import Apply
        p, a = Policy(), Apply()
        if type(p.ruleCombiningAlgFactory) is not self.std['P'] or p.ruleCombiningAlg is not None or a.functionMap is not self.maps['std']:
            return 'a new object has something plugged in'
        for x, f, v in ((p, 'ruleCombiningAlgId', self.ident('p1', 'c1')), (a, 'functionId', self.ident('a1', 'c1'))):
            try:
                setattr(x, f, v)
            except Exception:
                continue
            return 'a new object knows a custom identifier'
        p.ruleCombiningAlgId = self.ident('p1', 'DO')
        if self.use('p1', p.ruleCombiningAlg) != 'DO':
            return 'a new policy has another algorithm: ' + self.use('p1', p.ruleCombiningAlg)
        pdp = R.load_policy(CTL, 'xml')
        got = [str(pdp.evaluate(q).results[0].decision) for q in self.rqs]
        return '' if got == ['Deny', 'Deny'] else 'a loaded policy decides ' + str(got)

    def look(self, c, ob, last, on=None):
        # to decide takes long: the slot that was touched, and all in the end
        for o in self.slots if last or not self.outs else [on] if on else []:
            self.outs[o] = [self.out(self.kind(o), self.slots[o], q) for q in self.rqs]
        ob['slots'] = {o: self.show(o) for o in self.slots}
        ob['ctl'] = self.elsewhere() if last else ''
        self.notes.clear()
        ob['reads'] = {t: [] for t in checks_plug.READERS}
        if c['reads']:
            try:
                R.load_policy(c['p'], 'xml', rnd=random.Random(c['seed']))
            except Exception as e:
                self.notes['Policy'] = ['%s: %s' % (type(e).__name__, str(e)[:150])]
            for t, q in self.notes.items():
                ob['reads'][t] = [{'tag': v, 'n': q.count(v)} for v in sorted(set(q))]
        return ob


def history(c):
    w = World()
    first, obs = w.look(c, {}, False), []
    for n, op in enumerate(c['ops']):
        ob = {'raised': False, 'd': ''}
        try:
            w.do(op)
        except Exception as e:
            ob['raised'], ob['d'] = True, '%s: %s' % (type(e).__name__, str(e)[:150])
        obs.append(w.look(c, ob, n == len(c['ops']) - 1, op.get('on')))
    return {'first': first, 'obs': obs}


KINDS = {'plug.hist': lambda c, env: forked.run(history, c)}

"""Histories of function registry operations on the real code (spec/FunctionRegistry.tla)."""
import io
import os

import forked
import realize as R

MAKE = {}


def mkclass(tag, ns):
    from ndg.xacml.core.functions import AbstractFunction

    def evaluate(self, *a):
        if len(a) == 1 and type(a[0]) is str:
            return tag
        return tag[:1] == 't'
    return type('Custom_' + tag, (AbstractFunction,), {'FUNCTION_NS': ns, 'evaluate': evaluate})


class PathFactory(object):
    """what a function_factory_path names"""
    TAG = None

    def __call__(self, identifier):
        return mkclass(PathFactory.TAG, identifier)


def factory(how, tag):
    def good(identifier):
        return mkclass(tag, identifier)

    def none(identifier):
        return None

    def notfn(identifier):
        return dict

    def inst(identifier):
        return mkclass(tag, identifier)()

    def boom(identifier):
        raise RuntimeError('factory failure')
    return {'factory': good, 'none': none, 'notfn': notfn, 'inst': inst, 'raise': boom}[how]


def register(m, op):
    how, tag, name = op['how'], op['tag'], op['id']['n']
    if how == 'set':
        m[name] = mkclass(tag, name)
    elif how == 'setbad':
        m[name] = dict
    elif how == 'setinst':
        m[name] = mkclass(tag, name)()
    elif how == 'setnum':
        m[name] = 5
    elif how == 'path':
        PathFactory.TAG = tag
        m.load_custom_function(name, function_factory_path=__name__ + '.PathFactory')
    elif how == 'badpath':
        m.load_custom_function(name, function_factory_path='ndg.xacml.nosuchmodule.Factory')
    elif how == 'badattr':
        m.load_custom_function(name, function_factory_path=__name__ + '.NoSuchFactory')
    elif how == 'nothing':
        m.load_custom_function(name)
    elif op.get('kw'):
        m.load_custom_function(name, function_factory=factory(how, tag))
    else:
        m.load_custom_function(name, factory(how, tag))


def probe(cls, args):
    import worker as W
    out = []
    for q in args:
        try:
            out.append(W.val_obs(cls().evaluate(*[W.mkarg(a) for a in q])))
        except Exception:
            out.append({'s': 'err'})
    return out


def look(m, op):
    try:
        f = m[op['id']['n']] if not op.get('get') else m.get(op['id']['n'])
    except Exception as e:
        return {'r': 'no', 'd': type(e).__name__}
    if f is NotImplemented:
        return {'r': 'no', 'd': 'NotImplemented'}
    if f is None:
        return {'r': 'no', 'd': 'None'}
    if op['id']['c'] == 'std':
        return {'r': 'fn', 'd': '', 'out': probe(f, op['args'])}
    try:
        return {'r': 'fn', 'd': '', 'tag': str(f().evaluate('who'))}
    except Exception as e:
        return {'r': 'fn', 'd': '', 'tag': 'raised %s' % type(e).__name__}


def use(op):
    try:
        pdp = R.load_policy(op['p'], op['via'])
    except Exception as e:
        return {'r': 'no', 'd': type(e).__name__ + ': ' + str(e)[:100]}
    import worker as W
    o = W.dec_obs(pdp, R.mkrequest(op['rq']))
    return {'r': 'dec', 'd': '', 'dec': o['dec'] if o['n'] == 1 else 'results: %d' % o['n']}


def history(c):
    from ndg.xacml.core.functions import FunctionMap, functionMap
    maps = {'g': functionMap, 'f': FunctionMap()}
    obs = []
    for op in c['ops']:
        m = maps[op['m']]
        if op['o'] == 'look':
            obs.append(look(m, op))
        elif op['o'] == 'load':
            try:
                m.loadFunction(op['id']['n'])
            except Exception:
                pass
            obs.append({'r': 'ok'})
        elif op['o'] == 'loadall':
            m.loadAllCore()
            obs.append({'r': 'ok'})
        elif op['o'] == 'reg':
            try:
                register(m, op)
                obs.append({'r': 'ok', 'd': ''})
            except Exception as e:
                obs.append({'r': 'refused', 'd': type(e).__name__ + ': ' + str(e)[:100]})
        else:
            obs.append(use(op))
    return {'obs': obs}


KINDS = {'reg.hist': lambda c, env: forked.run(history, c)}

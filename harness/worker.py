"""Runs recorded cases against the real ndg_xacml and writes what it observed.
usage: worker.py IN OUT   (JSON lines; runs inside a project interpreter)"""
import json
import logging
import os
import random
import signal
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import realize as R  # noqa: E402

CASE_TIMEOUT = 60


class CaseTimeout(BaseException):
    pass


def on_alarm(*a):
    raise CaseTimeout()


def cheap_ssl():
    """urllib makes a TLS context per opener, 20 ms each; nothing here uses TLS, so share one."""
    import ssl
    make, one = ssl._create_default_https_context, []

    def shared(*a, **kw):
        if not one:
            one.append(make(*a, **kw))
        return one[0]
    ssl._create_default_https_context = shared


def set_debug(on):
    root = logging.getLogger('ndg')
    if on:
        root.setLevel(logging.DEBUG)
    else:
        root.setLevel(logging.CRITICAL + 10)


def exc(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


# ------------------------------------------------------------------ evaluation
def val_obs(v):
    from ndg.xacml.core.attributevalue import AttributeValue
    if isinstance(v, bool):
        return {'s': 'bool', 'b': v}
    if isinstance(v, AttributeValue):
        t = R.URI_TYPE.get(v.dataType, v.dataType)
        return {'s': 'av', 't': t, 'v': R.text(t, v.value)}
    if isinstance(v, (list, tuple)):
        out = [val_obs(x) for x in v]
        et = getattr(v, 'elementType', None)
        t = getattr(et, 'IDENTIFIER', None)
        t = R.URI_TYPE.get(t, t)
        if t is None and out:
            t = out[0].get('t', '?')
        if any(o.get('t') != t for o in out):
            return {'s': 'odd', 'd': 'bag of mixed types'}
        return {'s': 'bag', 't': t or '?', 'vs': [o['v'] for o in out]}
    return {'s': 'odd', 'd': type(v).__name__}


def dec_obs(pdp, request):
    from ndg.xacml.core.context.response import Response
    try:
        resp = pdp.evaluate(request)
    except Exception as e:
        return {'n': -1, 'dec': 'raised ' + type(e).__name__}
    if not isinstance(resp, Response):
        return {'n': -1, 'dec': 'returned ' + type(resp).__name__}
    return R.response_obs(resp)


def uniq(q):
    out = []
    for x in q:
        if x not in out:
            out.append(x)
    return out


def k_pol(c, env):
    rqs = R.Requests(c['rqs'], c.get('one'))
    obs = [[] for _ in c['rqs']]
    loads = []
    for via in c['via']:
        for i in range(c.get('styles', 1) if via == 'xml' else 1):
            rnd = random.Random('%s/%s' % (c.get('seed', 0), i)) if via == 'xml' and c.get('styled') else None
            try:
                pdp = R.load_policy(c['p'], via, rnd=rnd)
            except Exception as e:
                loads.append(via + ' ' + exc(e))
                continue
            for rep in range(c.get('rep', 1)):
                for j, rq in enumerate(rqs):
                    obs[j].append(dec_obs(pdp, rq))
    return {'loads': uniq(loads), 'obs': [uniq(o) for o in obs]}


def k_piphist(c, env):
    """one PDP, one request object and one handler whose answers change between evaluations"""
    rqs = c['rqs']
    tab = list(rqs[0]['pip'][0]['tab'])
    request = R.mkrequest(dict(rqs[0], pip=[]))
    request.ctxHandler = R.mkhandler(tab)
    pdp = R.load_policy(c['p'], 'api')
    obs = []
    for rq in rqs:
        tab[:] = rq['pip'][0]['tab']
        obs.append(uniq([dec_obs(pdp, request) for _ in range(2)]))
    return {'loads': [], 'obs': obs}


def k_tgt(c, env):
    t = R.a_target(c['t'])
    out = []
    for rq in c['rqs']:
        try:
            v = t.match(R.mkrequest(rq))
            out.append('T' if v is True else 'F' if v is False else 'odd ' + type(v).__name__)
        except Exception:
            out.append('E')
    return {'obs': out}


def k_match(c, env):
    m = R.a_match(c['cat'], c['m'])
    out = []
    for rq in c['rqs']:
        try:
            v = m.evaluate(R.mkrequest(rq))
            out.append('T' if v is True else 'F' if v is False else 'odd ' + type(v).__name__)
        except Exception:
            out.append('E')
    return {'obs': out}


def k_rule(c, env):
    r = R.a_rule(c['r'])
    out = []
    for rq in c['rqs']:
        try:
            v = r.evaluate(R.mkrequest(rq))
            out.append(str(v.value))
        except Exception as e:
            out.append('raised ' + type(e).__name__)
    return {'obs': out}


def k_expr(c, env):
    log = []
    requests = R.Requests(c['rqs'], c.get('one'), log)
    obs, calls = [], []
    for e in c['es']:
        x = R.a_expr(e)
        o, k = [], []
        for request in requests:
            del log[:]
            try:
                o.append(val_obs(x.evaluate(request)))
            except Exception:
                o.append({'s': 'err'})
            k.append([{'id': i, 'same': r == id(request), 'cls': n} for r, i, n in log])
        obs.append(o)
        calls.append(k)
    return {'obs': obs, 'calls': calls}


def mkarg(a):
    if a['s'] == 'bool':
        return a['b']
    if a['s'] == 'av':
        return R.mkvalue(a['t'], a['v'])
    from ndg.xacml.utils import TypedList
    b = TypedList(R.value_class(a['t']))
    for v in a['vs']:
        b.append(R.mkvalue(a['t'], v))
    return b


def k_fun(c, env):
    from ndg.xacml.core.functions import functionMap
    out = []
    f = functionMap[R.urn(c['fam'], c['ft'])]()
    for q in c['argss']:
        try:
            out.append(val_obs(f.evaluate(*[mkarg(a) for a in q])))
        except Exception:
            out.append({'s': 'err'})
    return {'obs': out}


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('k_')}


def main():
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger('ndg').addHandler(logging.NullHandler())
    logging.getLogger('ndg').propagate = False
    import ndg.xacml
    if '--xml=off' in sys.argv:     # lxml is there and switched off
        ndg.xacml.Config.use_lxml = False
    assert os.path.abspath(ndg.xacml.__file__).startswith('/repo/'), ndg.xacml.__file__
    signal.signal(signal.SIGALRM, on_alarm)
    cheap_ssl()
    sys.setrecursionlimit(3000)
    env = {'tmp': tempfile.mkdtemp()}
    registered, hung = False, 0
    with open(sys.argv[1]) as f, open(sys.argv[2], 'w') as g:
        for line in f:
            c = json.loads(line)
            kind = c['kind']
            if not registered and not c.get('raw'):
                R.register_custom()
                registered = True
            fn = KINDS.get(kind)
            if fn is None:
                import importlib
                mod = importlib.import_module('w_' + kind.split('.')[0])
                KINDS.update(mod.KINDS)
                fn = KINDS[kind]
            set_debug(bool(c.get('debug')))
            del R.HELD[:]
            if hung > 2:
                c['fail'] = 'not run after other cases did not end'
                g.write(json.dumps(c) + '\n')
                continue
            signal.alarm(20 if hung else CASE_TIMEOUT)
            try:
                c.update(fn(c, env))
                c['kept'] = R.altered()
                c['fail'] = ''
            except CaseTimeout:
                hung += 1
                c['fail'] = 'no result within %d s' % CASE_TIMEOUT
            except Exception as e:
                import traceback
                tb = traceback.format_exc().splitlines()
                c['fail'] = exc(e) + ' | ' + ' '.join(x.strip() for x in tb[-6:-1])[:600]
            finally:
                signal.alarm(0)
            g.write(json.dumps(c) + '\n')
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()

"""Histories of operations on the real containers (spec/Containers.tla)."""
import collections


LEFT = [0]      # comparisons until an operation counts as one without end


def count():
    LEFT[0] -= 1
    if LEFT[0] < 0:
        raise RuntimeError('no end')


class A(object):
    def __init__(self, i, e):
        self.i, self.e = i, e

    def __eq__(self, o):
        count()
        return isinstance(o, A) and o.e == self.e

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        count()
        return hash(self.e)

    def __repr__(self):
        return 'A%d' % self.i


class B(A):
    pass


class C(A):
    pass


class X(object):
    def __init__(self, i):
        self.i = i


# ---------------------------------------------------------------- typed lists
def _typed(t):
    def new():
        from ndg.xacml.utils import TypedList
        return lambda *a: TypedList(t(), *a)
    return new


def _exposed(get):
    def new():
        def f(*a):
            c = get()
            if a:
                c.extend(a[0])
            return c
        return f
    return new


def _cls(path):
    mod, _, name = path.rpartition('.')
    return getattr(__import__('ndg.xacml.' + mod, fromlist=[name]), name)


def value(kind, e):
    from ndg.xacml.core.attributevalue import AttributeValueClassFactory
    cls = AttributeValueClassFactory()('http://www.w3.org/2001/XMLSchema#' + kind)
    v = cls()
    v.value = 'v%d' % e if kind != 'integer' else e
    return v


def rule(i):
    r = _cls('core.rule.Rule')()
    r.id = 'rule%d' % i
    return r


def fresh(path):
    return lambda x: _cls(path)()


WRONG = [lambda i: X(i), lambda i: None, lambda i: i, lambda i: 'text', lambda i: A, lambda i: [A(1, 1)], lambda i: type('Q', (), {})]
# element makers, wrong element makers, constructor; identity: by object unless 'eq'
TYPED = {
    'plain': (lambda x: (A, B)[x['i'] % 2](x['i'], x['e']), WRONG, _typed(lambda: A)),
    'sub': (lambda x: B(x['i'], x['e']), WRONG + [lambda i: A(i, i), lambda i: C(i, i)], _typed(lambda: B)),
    'two': (lambda x: (B, C)[x['i'] % 2](x['i'], x['e']), WRONG + [lambda i: A(i, i)], _typed(lambda: (B, C))),
    'bag': (lambda x: value('string', x['e']), WRONG + [lambda i: value('integer', i), lambda i: value('anyURI', i)],
            _typed(lambda: type(value('string', 1)))),
    'bagint': (lambda x: value('integer', x['e']), WRONG + [lambda i: value('string', i), lambda i: 7], _typed(lambda: type(value('integer', 1)))),
    'values': (lambda x: value(('string', 'integer', 'anyURI')[x['e'] % 3], x['e']), WRONG, _exposed(lambda: _cls('core.attribute.Attribute')().attributeValues)),
    'rules': (lambda x: rule(x['i']), WRONG + [lambda i: _cls('core.policy.Policy')()], _exposed(lambda: _cls('core.policy.Policy')().rules)),
    'policies': (lambda x: _cls(('core.policy.Policy', 'core.policyset.PolicySet')[x['i'] % 2])(), WRONG + [rule],
                 _exposed(lambda: _cls('core.policyset.PolicySet')().policies)),
    'results': (fresh('core.context.result.Result'), WRONG + [rule], _exposed(lambda: _cls('core.context.response.Response')().results)),
    'subjects': (fresh('core.context.request.Subject'), WRONG + [fresh('core.target.Subject'), fresh('core.context.request.Resource')],
                 _exposed(lambda: _cls('core.context.request.Request')().subjects)),
    'resources': (fresh('core.context.request.Resource'), WRONG + [fresh('core.context.request.Subject')],
                  _exposed(lambda: _cls('core.context.request.Request')().resources)),
    'attributes': (fresh('core.attribute.Attribute'), WRONG + [lambda i: value('string', i)],
                   _exposed(lambda: _cls('core.context.request.Subject')().attributes)),
    'expressions': (lambda x: (fresh('core.apply.Apply')(x), value('string', x['e']))[x['i'] % 2], WRONG + [rule],
                    _exposed(lambda: _cls('core.apply.Apply')().expressions)),
    'targets': (fresh('core.target.Subject'), WRONG + [fresh('core.context.request.Subject'), fresh('core.target.Resource')],
                _exposed(lambda: _cls('core.target.Target')().subjects)),
}
NOEQ = {'bag', 'bagint', 'values', 'expressions'}    # equality of these raises for other types


class Items(object):
    """the items of one history: one object for each identity"""

    def __init__(self, world, w):
        self.make, self.wrong = TYPED[world][:2] if world in TYPED else (lambda x: (A, B)[x['i'] % 2](x['i'], x['e']), WRONG)
        self.w = w
        self.objs = {}

    def __call__(self, x):
        if x['i'] not in self.objs:
            self.objs[x['i']] = self.make(x) if x['ok'] else self.wrong[(x['i'] + self.w) % len(self.wrong)](x['i'])
        return self.objs[x['i']]

    def name(self, o):
        for i, v in self.objs.items():
            if v is o:
                return i
        return 9999


class Broken(Exception):
    pass


def operand(c, o, items, pick):
    from ndg.xacml.utils import TypedList, UniqList
    via, q = o['via'], [items(x) for x in o['q']]
    if via == 'self':
        return c
    if via == 'none':
        return (None, 7)[pick % 2]
    if via == 'broken':
        def f():
            for x in q:
                yield x
            raise Broken()
        return f()
    if via == 'typed':
        return TypedList(object, q)
    if via == 'list':
        return list(q)
    if via == 'tuple':
        return tuple(q)
    if via == 'gen':
        return (x for x in q)
    if via == 'iter':
        return iter(q)
    if via == 'map':
        return map(lambda x: x, q)
    if via == 'deque':
        return collections.deque(q)
    if via == 'uniq':
        u = UniqList()
        for x in q:
            list.append(u, x)
        return u
    raise KeyError(via)


def list_op(c, o, items, new, pick):
    """-> container, value"""
    n = o['o']
    if n == 'new':
        return new(operand(c, o, items, pick)) if o['q'] or pick % 2 else new(), ''
    if n == 'append':
        c.append(items(o['x']))
    elif n == 'extend':
        c.extend(operand(c, o, items, pick))
    elif n == 'iadd':
        c += operand(c, o, items, pick)
    elif n == 'insert':
        c.insert(o['i'], items(o['x']))
    elif n == 'set':
        c[o['i']] = items(o['x'])
    elif n == 'setslice':
        c[slice(o['i'], o['j'], None if o['k'] == 1 and pick % 2 else o['k']) if o['k'] > 0 else slice(None, None, -1)] = operand(c, o, items, pick)
    elif n == 'del':
        del c[o['i']]
    elif n == 'delslice':
        del c[slice(o['i'], o['j'], o['k']) if o['k'] > 0 else slice(None, None, -1)]
    elif n == 'pop':
        return c, str(items.name(c.pop(o['i']) if o['i'] != -1 or pick % 2 else c.pop()))
    elif n == 'remove':
        c.remove(items(o['x']))
    elif n == 'clear':
        c.clear()
    elif n == 'reverse':
        c.reverse()
    elif n == 'imul':
        c *= o['i']
    elif n == 'get':
        return c, str(items.name(c[o['i']]))
    elif n == 'len':
        return c, str(len(c))
    elif n == 'count':
        return c, str(c.count(items(o['x'])))
    elif n == 'index':
        return c, str(c.index(items(o['x'])))
    elif n == 'has':
        return c, str(int(items(o['x']) in c))
    else:
        raise KeyError(n)
    return c, ''


def list_odd(c, cls, etype, names):
    q = [x for x in c]
    same = lambda a: len(a) == len(q) and all(x is y for x, y in zip(a, q))
    if type(c) is not cls:
        return 'is a %s' % type(c).__name__
    if len(c) != len(q) or bool(c) != bool(q):
        return 'length %d with %d items' % (len(c), len(q))
    if not same([c[i] for i in range(len(q))]) or not same([c[i - len(q)] for i in range(len(q))]):
        return 'other items by index'
    if not same(list(c)) or not same(tuple(c)) or not same(c[:]) or not same([] + c) or not same([x for x in reversed(c)][::-1]):
        return 'other items in a copy'
    if etype and c.elementType != etype:
        return 'element type %r' % (c.elementType,)
    repr(c)
    return ''


def k_list(c, env=None):
    from ndg.xacml.utils import UniqList, TypedList
    world, pick = c['world'], c['pick']
    items = Items(world, pick)
    new = TYPED[world][2]() if c['k'] == 'typed' else UniqList
    cls = TypedList if c['k'] == 'typed' else UniqList
    etype = new().elementType if c['k'] == 'typed' else None
    box, obs = new(), []
    for o in c['tr']:
        pick = pick * 5 % 97 + 1
        was, ok, d, ret = box, True, '', ''
        LEFT[0] = 20000
        try:
            box, ret = list_op(box, o, items, new, pick)
        except Exception as e:
            ok, d = False, '%s: %s' % (type(e).__name__, str(e)[:80])
        if LEFT[0] < 0 or len(box) > 5000:
            box, ok, d = new(), False, 'no end'
        LEFT[0] = 10 ** 6
        odd = list_odd(box, cls, etype, items)
        if not odd and ok and o['o'] != 'new' and box is not was:
            odd = 'the operation gives another container'
        obs.append({'ok': ok, 'd': d, 'ret': ret, 'odd': odd, 'c': [items.name(x) for x in box]})
    return {'k': c['k'], 'tr': c['tr'], 'obs': obs}


# --------------------------------------------------------------- dictionaries
class Mapping(collections.abc.Mapping):
    def __init__(self, q):
        self.d = dict(q)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def vetted(pick):
    from ndg.xacml.utils import VettedDict

    def key(k):
        if k == 'boom':
            raise TypeError('key')
        ok = k in ('a', 'b', 'c')
        return ok if pick % 2 else (k if ok else '')

    def val(v):
        if v == 99:
            raise ValueError('value')
        return v < 10 if pick % 3 else ([v] if v < 10 else None)
    if pick % 5 == 0:
        class Sub(VettedDict):
            def __init__(self):
                VettedDict.__init__(self, key, val)
        return Sub()
    return VettedDict(key, val)


def pairs(o):
    return [(p['k'], p['v']) for p in o['q']]


def update(m, o):
    from ndg.xacml.utils import RestrictedKeyNamesDict
    q, via = pairs(o), o['via']
    if via == 'dict':
        m.update(dict(q))
    elif via == 'restricted':
        m.update(RestrictedKeyNamesDict(q))
    elif via == 'mapping':
        m.update(Mapping(q))
    elif via == 'pairs':
        m.update(q)
    elif via == 'gen':
        m.update(p for p in q)
    elif via == 'kw':
        m.update({}, **dict(q))
    elif via == 'both':
        m.update(dict(q[:len(q) // 2]), **dict(q[len(q) // 2:]))
    else:
        raise KeyError(via)


class Odd(Exception):
    pass


def lookup(f):
    try:
        return str(f())
    except KeyError:
        raise
    except Exception as e:
        raise Odd('a missing key raises %s' % type(e).__name__)


def map_op(m, o, kind, pick):
    n = o['o']
    if n == 'new':
        if kind == 'vetted':
            return vetted(pick), ''
        from ndg.xacml.utils import RestrictedKeyNamesDict as D
        q = pairs(o)
        return (D(q), D(dict(q)), D(**dict(q)), D(dict(q[:1]), **dict(q[1:])))[pick % 4], ''
    k = o.get('k')
    if n == 'set':
        m[k] = o['v']
    elif n == 'setdefault':
        return m, str(m.setdefault(k, o['v']))
    elif n == 'update':
        update(m, o)
    elif n == 'ior':
        m |= dict(pairs(o))
    elif n == 'get':
        v = m.get(k) if pick % 2 else m.get(k, None)
        return m, '-1' if v is None else str(v)
    elif n == 'getd':
        return m, str(m.get(k, o['v']))
    elif n == 'item':
        return m, lookup(lambda: m[k])
    elif n == 'has':
        return m, str(int(k in m))
    elif n == 'len':
        return m, str(len(m))
    elif n == 'del':
        def f():
            del m[k]
        lookup(f)
    elif n == 'pop':
        return m, lookup(lambda: m.pop(k))
    elif n == 'popd':
        return m, str(m.pop(k, o['v']))
    elif n == 'clear':
        m.clear()
    else:
        raise KeyError(n)
    return m, ''


def map_odd(m, cls):
    ks = [k for k in m]
    if not isinstance(m, cls):
        return 'is a %s' % type(m).__name__
    if len(ks) != len(set(ks)) or len(m) != len(ks) or bool(m) != bool(ks):
        return 'length %d with %d keys' % (len(m), len(ks))
    if sorted(m.keys()) != sorted(ks) or sorted(m.values()) != sorted(m[k] for k in ks) or sorted(m.items()) != sorted((k, m[k]) for k in ks):
        return 'keys, values and items disagree'
    if not all(k in m and m.get(k) == m[k] for k in ks) or dict(m) != {k: m[k] for k in ks}:
        return 'lookups disagree'
    for k in ('a', 'b', 'c', 'z', 'boom'):
        if (k in m) != (k in ks):
            return 'membership disagrees'
    repr(m)
    return ''


def k_map(c, env=None):
    from ndg.xacml.utils import RestrictedKeyNamesDict, VettedDict
    cls = VettedDict if c['k'] == 'vetted' else RestrictedKeyNamesDict
    pick, m, obs = c['pick'], {}, []
    for o in c['tr']:
        pick = pick * 5 % 97 + 1
        was, ok, d, ret, odd = m, True, '', '', ''
        try:
            m, ret = map_op(m, o, c['k'], pick)
        except Odd as e:
            ok, odd = False, str(e)
        except Exception as e:
            ok, d = False, '%s: %s' % (type(e).__name__, str(e)[:80])
        odd = odd or map_odd(m, cls)
        if not odd and o['o'] != 'new' and m is not was:
            odd = 'the operation gives another container'
        obs.append({'ok': ok, 'd': d, 'ret': ret, 'odd': odd, 'c': [{'k': k, 'v': m[k]} for k in m]})
    return {'k': c['k'], 'tr': c['tr'], 'obs': obs}


KINDS = {'box.list': k_list, 'box.map': k_map}

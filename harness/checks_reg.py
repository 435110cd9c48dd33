"""C10: the function registry."""
import gen
import realize as R
from checks_eval import app, lit, arg_universe, functions, pol

V1 = 'urn:oasis:names:tc:xacml:1.0:function:'
V2 = 'urn:oasis:names:tc:xacml:2.0:function:'
T13 = ['string', 'boolean', 'integer', 'double', 'time', 'date', 'dateTime', 'anyURI', 'hexBinary', 'base64Binary',
       'dayTimeDuration', 'yearMonthDuration', 'x500Name', 'rfc822Name']
CMP = ['greater-than', 'greater-than-or-equal', 'less-than', 'less-than-or-equal']
NOTIMPL = ([V1 + t + '-' + o for t in ('integer', 'double') for o in ('add', 'subtract', 'multiply', 'divide', 'abs')]
           + [V1 + 'integer-mod', V1 + 'floor', V1 + 'string-normalize-space', V1 + 'string-normalize-to-lower-case',
              V1 + 'double-to-integer', V1 + 'integer-to-double', V1 + 'or', V1 + 'n-of', V2 + 'time-in-range']
           + [V1 + t + '-' + o for t in ('integer', 'double', 'string', 'time', 'dateTime', 'date') for o in CMP]
           + [V1 + t + '-' + o for t in T13 for o in ('bag-size', 'is-in', 'intersection', 'union', 'subset', 'set-equals')]
           + [V1 + o for o in ('any-of', 'all-of', 'any-of-any', 'all-of-any', 'any-of-all', 'all-of-all', 'map')]
           + [V1 + 'dateTime-add-dayTimeDuration', V1 + 'date-subtract-yearMonthDuration', V1 + 'xpath-node-count'])
ALIEN = ['urn:nobody:knows', 'string-equal', '', 'urn:oasis:names:tc:xacml:3.0:function:string-equal',
         V1 + 'foo-equal', V1 + 'nosuch', V1 + 'string-nosuch', V1, V2 + 'string-equal', V2 + 'string-bag',
         'URN:OASIS:NAMES:TC:XACML:1.0:FUNCTION:STRING-EQUAL', ' ' + V1 + 'string-equal', V1 + 'string-equal-']
CUST = ['urn:my:function:one', 'urn:my:function:two', 'http://example.org/f#x', V1 + 'mine', V2 + 'my-own-thing', V1 + 'my-equal', 'f']


def std(g, fam=None):
    fams = [f for f in functions() if fam is None or f[0] == fam]
    fam, ft = g.r.choice(fams)
    return {'c': 'std', 'n': R.urn(fam, ft), 'fam': fam, 'ft': ft}


def probes(g, i):
    fam, ft = i['fam'], i['ft']
    t = {'': 'string', 'xpath-node': 'string', 'url-string': 'anyURI'}.get(ft, ft)
    P = gen.POOL[t]
    av = lambda v, u=t: {'s': 'av', 't': u, 'v': v}
    bag = lambda *vs: {'s': 'bag', 't': t, 'vs': list(vs)}
    b = lambda x: {'s': 'bool', 'b': x}
    u = g.r.choice([x for x in gen.TYPES if x != t])
    out = [[av(P[0]), av(P[0])], [av(P[0]), av(P[1])], [av(P[0])], [], [b(True), b(False)], [b(True)], [b(False)],
           [bag(P[0])], [bag(P[0]), bag(P[1], P[0])], [bag(P[1]), bag(P[0])], [av(gen.POOL[u][0], u)],
           [av(gen.POOL[u][0], u)] * 2, [{'s': 'bag', 't': u, 'vs': [gen.POOL[u][0]]}],
           [av('a.*', t) if t in gen.STR else av(P[0]), av('abc') if t in gen.STR else av(P[1])],
           [av(P[0]), av('x', 'string')], [av('x', 'string'), av(P[0])]]
    if fam in ('and', 'not'):
        out = [q for q in out if not any(a['s'] == 'av' and a['t'] == 'boolean' for a in q)]
    return out


def use(g, i):
    rq = g.simple_request()
    op = {'o': 'use', 'm': 'g', 'id': i, 'via': g.r.choice(['xml', 'api']), 'rq': rq}
    match = g.r.random() < .5
    fam, ft = (i['fam'], i['ft']) if i['c'] == 'std' else ('urn', i['n'])
    t = {'': 'string', 'xpath-node': 'string', 'url-string': 'anyURI'}.get(ft, ft) if i['c'] == 'std' else 'string'
    if t not in gen.STR:
        t = 'string'
    v = [x for x in gen.POOL[t] if x]
    rule = {'id': 'urn:r', 'eff': 'Permit', 'tgt': [], 'cond': []}
    if match:
        a = [x for s in rq['S'] for x in s]
        a = g.r.choice(a)
        tg = {k: [] for k in 'SRAE'}
        tg['S'] = [[{'fam': fam, 'ft': ft, 't': 'string', 'v': g.r.choice(a['vals'] or ['x']) or 'x',
                     'src': {'k': 'des', 'cat': 'S', 'id': a['id'], 't': 'string', 'iss': '', 'mbp': False}}]]
        rule['tgt'] = [tg]
    else:
        n = g.r.choice([0, 1, 2, 2, 2])
        rule['cond'] = [app(fam, ft, *[lit(t, g.r.choice(v[:2])) for _ in range(n)])]
    p = {'k': 'P', 'id': 'urn:p', 'alg': 'first-applicable', 'tgt': [], 'rules': [rule]}
    if not R.xml_ok(p):
        op['via'] = 'api'
    op['p'] = p
    return op



def complete(g, ops, names):
    """fill in the details of the machine's operations"""
    out = []
    for op in ops:
        if op['o'] == 'loadall':
            out.append(op)
            continue
        i = names[op['id']['n']]
        if op['o'] == 'look':
            op = dict(op, id=i, get=g.r.random() < .5)
            if i['c'] == 'std':
                op['args'] = probes(g, i)
        elif op['o'] == 'load':
            op = dict(op, id=i)
        elif op['o'] == 'reg':
            how = op['how']
            if how == 'factory':
                how = g.r.choice(['factory', 'path', 'set'] if i['c'] not in ('std', 'stdno') else ['factory', 'path'])
            else:
                how = g.r.choice(['none', 'notfn', 'inst', 'raise', 'nothing', 'badpath', 'badattr'] +
                                 (['setbad', 'setinst', 'setnum'] if i['c'] not in ('std', 'stdno') else []))
            op = dict(op, id=i, how=how, kw=g.r.random() < .5)
        elif op['o'] == 'use':
            op = use(g, i)
        out.append(op)
    return out


def names(g):
    a, b = std(g), std(g)
    if g.r.random() < .6:        # two of one family, or one name part of another
        b = std(g, a['fam'])
    al = g.r.choice(ALIEN)
    return {'S1': a, 'S2': b, 'U1': {'c': 'stdno', 'n': g.r.choice(NOTIMPL)}, 'X1': {'c': 'alien', 'n': al},
            'C1': {'c': 'cust', 'n': g.r.choice(CUST[:3])}, 'C2': {'c': 'cust', 'n': g.r.choice(CUST[3:])}}


def rand_ops(g, n):
    ops = []
    for _ in range(n):
        m = g.r.choice('ggf')
        i = {'n': g.r.choice(['S1', 'S2', 'U1', 'X1', 'C1', 'C1', 'C2'])}
        o = g.r.choice(['look', 'look', 'look', 'load', 'use', 'reg', 'reg'])
        if g.r.random() < .03:
            ops.append({'o': 'loadall', 'm': m})
        elif o == 'reg':
            ops.append({'o': 'reg', 'm': m, 'id': i, 'how': g.r.choice(['factory', 'factory', 'none']),
                        'tag': g.r.choice('tf') + str(g.r.randrange(9))})
        elif o == 'use':
            ops.append({'o': 'use', 'm': 'g', 'id': i})
        else:
            ops.append({'o': o, 'm': m, 'id': i})
    return ops


def c10(c):
    if c.thorough:
        c.proof('RegistryProof')
    g = gen.Gen('c10/%d' % c.seed)
    c.tlc('RegistryMachine', 'SPECIFICATION Spec\nCONSTANTS Depth=0 Emit=FALSE Tags=%s\nCHECK_DEADLOCK FALSE\nINVARIANTS CacheAgrees AnswerRight StdSafe\n' % c.pick('{"t1"}', '{"t1","f2"}'),
          workers=8)
    r = c.tlc('RegistryMachine', 'SPECIFICATION Spec\nCONSTANTS Depth=%d Emit=TRUE Tags={"t1","f2"}\nCHECK_DEADLOCK FALSE\nINVARIANTS CacheAgrees AnswerRight '
              'StdSafe EmitC\n' % c.pick(2, 3), workers=8)
    hs = r.tagged('@@HIST')
    c.notes['histories_enumerated'] = len(hs)
    lines = []
    for h in hs if not c.thorough else g.r.sample(hs, 20000):
        nm = names(g)
        look = [{'o': 'look', 'm': m, 'id': {'n': k}} for m in 'gf' for k in ('S1', 'U1', 'X1', 'C1')]
        lines.append(dict(kind='reg.hist', raw=True, ops=complete(g, h['ops'], nm) +
                          complete(g, g.r.sample(look, 4), nm)))
    for i in range(c.pick(400, 4000)):
        nm = names(g)
        lines.append(dict(kind='reg.hist', raw=True, ops=complete(g, rand_ops(g, g.r.choice([5, 8, 12, 20])), nm),
                          debug=g.r.random() < .1))
    # every identifier, before and after everything is loaded, and on a second look
    allids = [{'c': 'std', 'n': R.urn(*f), 'fam': f[0], 'ft': f[1]} for f in functions()] + \
        [{'c': 'stdno', 'n': n} for n in NOTIMPL] + [{'c': 'alien', 'n': n} for n in ALIEN]
    for k in range(c.pick(2, 8)):
        g.r.shuffle(allids)
        for a in range(0, len(allids), 20):
            part = allids[a:a + 20]
            ops = []
            for i in part:
                m = g.r.choice('gf')
                nm = {'N': i}
                seq = [{'o': 'look', 'm': m, 'id': {'n': 'N'}}]
                if i['c'] in ('std', 'stdno'):
                    seq.append({'o': 'reg', 'm': m, 'id': {'n': 'N'}, 'how': g.r.choice(['factory', 'factory', 'none']), 'tag': 't1'})
                seq += [{'o': 'look', 'm': m, 'id': {'n': 'N'}}, {'o': 'use', 'm': 'g', 'id': {'n': 'N'}}]
                ops += complete(g, seq if g.r.random() < .7 else seq[1:], nm)
            if k % 2:
                ops.insert(g.r.randrange(len(ops) // 2), {'o': 'loadall', 'm': g.r.choice('gf')})
            lines.append(dict(kind='reg.hist', raw=True, ops=ops))
    c.notes['operations'] = sum(len(x['ops']) for x in lines)
    res = c.run_both(lines, shards=4)
    for x in lines[:2]:
        c.sample([(o['o'], o.get('id', {}).get('n'), o.get('how')) for o in x['ops']])
    c.validate('RegistryTrace', res['lxml'] + res['std'], what='function registry')


CHECKS = {'C10': c10}

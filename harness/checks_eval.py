"""Checks of the evaluation semantics: C01-C09 and C15."""
import copy
import itertools
import random

import gen
import realize as R

ALGS = gen.ALGS


def vias(p, r=None, ref=False):
    v = ['api']
    if R.xml_ok(p):
        v.append('xml')
        if ref and p['k'] == 'PS' and p['kids']:
            v.append('ref')
    if r is not None and r.random() < .1:
        v.append('apinew')
    return v


def noise(rq, r):
    """a request with more in it that no policy asks for"""
    def more(h, k):
        h = list(h)
        for i in range(r.choice([0, 1, 2, 4])):
            h.insert(r.randrange(len(h) + 1), {'id': 'urn:noise:%d' % r.randrange(9), 't': r.choice(['string', 'anyURI']), 'iss': '', 'vals': ['n%d' % i]})
        return h
    if 'bad' in rq:
        return rq
    n = dict(rq, S=[more(h, k) for k, h in enumerate(rq['S'])], R=[more(h, k) for k, h in enumerate(rq['R'])])
    for k in 'AE':
        n[k] = [more(h, 0) for h in rq[k]]
    return n


def share_ids(p, same=False, r=None):
    """the tree with identifiers that occur again where they may: in policies, policy sets and rules of different policies"""
    n = {'P': 0, 'PS': 0}

    def go(q):
        n[q['k']] += 1
        q = dict(q, id='urn:verif:1' if same else 'urn:verif:%d' % n[q['k']])
        if q['k'] == 'P':
            ns = list(range(1, len(q['rules']) + 1))
            if r is not None:
                r.shuffle(ns)
            q['rules'] = [dict(x, id='urn:verif:%d' % (1 if same else i)) for i, x in zip(ns, q['rules'])]
        else:
            q['kids'] = [go(x) for x in q['kids']]
        return q
    return go(p)


def pol(p, rqs, r, **kw):
    via = vias(p, r, kw.pop('ref', False))
    if 'via' not in kw and 'ref' not in via and r.random() < .3:
        same = r.random() < .2
        p = share_ids(p, same, r if r.random() < .6 else None)
        if same:      # only objects can be put together like that
            via = ['api']
    if r.random() < .2:
        rqs = [noise(rq, r) for rq in rqs]
    d = dict(kind='pol', p=p, rqs=rqs, via=via, seed=r.randrange(10 ** 6), styled=True)
    if r.random() < .1:
        d['debug'] = True
    if r.random() < .1:
        d['rep'] = 2
    d.update(kw)
    return d


def judge(c, lines, what, shards=4, min_shard=250):
    r = gen.Gen('judge/%d' % c.seed).r
    for x in lines:         # a single request object that is edited to be each request in turn
        if x['kind'] in ('pol', 'expr') and r.random() < .3:
            x['one'] = True
    res = c.run_both(lines, shards=shards)
    for x in lines[:2] + lines[-1:]:
        c.sample(x)
    both = res['lxml'] + res['std']
    c.events += len(both)
    c.validate('EvalTrace', both, what=what, min_shard=min_shard)
    return res


def mix(c, res):
    n = {}
    for x in res['lxml']:
        if x['kind'] == 'pol' and 'obs' in x:
            for o in x['obs']:
                for d in o:
                    n[d['dec']] = n.get(d['dec'], 0) + 1
    c.notes['decisions_seen'] = n


def combining(c, kind, maxlen):
    r = c.tlc('Combining', 'SPECIFICATION Spec\nCONSTANTS Kind="%s" MaxLen=%d Emit=TRUE\n'
              'INVARIANTS Result Agrees Safe EmitC\n%s' % (kind, maxlen, 'PROPERTY Ends\n'), workers=4)
    return r.tagged('@@SEQ')


def c01(c):
    if c.thorough:
        c.proof('CombiningProof')
    g = gen.Gen('c01/%d' % c.seed)
    seqs = combining(c, 'rules', c.pick(4, 5))
    c.notes['sequences_enumerated'] = len(seqs)
    rq = g.simple_request()
    lines = []
    for s in seqs:
        rules = [g.rule_for(k['o'], k['e']) for k in s['seq']]
        lines.append(pol({'k': 'P', 'id': g.nid('policy'), 'alg': s['alg'],
                          'tgt': [g.simple_target('T')] if g.r.random() < .2 else [], 'rules': rules}, [rq], g.r))
    # long sequences, repeated rule ids, and rules placed in deep policy sets
    for i in range(c.pick(900, 6000)):
        n = g.r.choice([5, 6, 7, 8, 10, 12, 16, 24, 33, 64])
        bias = g.r.choice([('NotApplicable',) * 6, ('NotApplicable', 'Indeterminate'), ('NotApplicable', 'eff') * 2,
                           ('NotApplicable', 'eff', 'Indeterminate')])
        one = g.r.choice(['Permit', 'Deny', None])
        rules = []
        for _ in range(n):
            e = one if one and g.r.random() < .8 else g.r.choice(['Permit', 'Deny'])
            o = g.r.choice(bias)
            rules.append(g.rule_for(e if o == 'eff' else o, e))
        for _ in range(g.r.randrange(3)):
            e = g.r.choice(['Permit', 'Deny'])
            rules[g.r.randrange(n)] = g.rule_for(g.r.choice([e, 'Indeterminate']), e)
        if g.r.random() < .1:
            for x in rules:
                x['id'] = 'urn:verif:rule:same'
        x = pol({'k': 'P', 'id': g.nid('policy'), 'alg': g.r.choice(ALGS), 'tgt': [], 'rules': rules}, [rq], g.r)
        if rules[0]['id'] == rules[-1]['id']:
            x['via'] = ['api']     # documents may not repeat a rule id
        lines.append(x)
    # a long run of rules that agree, and one or two others anywhere in it, often last
    for i in range(c.pick(160, 1600)):
        n, at = bulk(g)
        e = g.r.choice(['Permit', 'Deny'])
        o = g.r.choice([e, 'NotApplicable', 'NotApplicable', 'Indeterminate'])
        rules = [g.rule_for(o, e) for _ in range(n)]
        for k in at:
            e = g.r.choice(['Permit', 'Deny'])
            rules[k] = g.rule_for(g.r.choice([e, e, 'Indeterminate', 'NotApplicable']), e)
        lines.append(pol({'k': 'P', 'id': g.nid('policy'), 'alg': ALGS[i % 3], 'tgt': [], 'rules': rules}, [rq], g.r))
    # the same policy on requests that change its rules' outcomes
    for i in range(c.pick(500, 3000)):
        rqs = [g.request() for _ in range(4)]
        lines.append(pol(g.policy(rqs[0], 6, 1, err=g.r.choice([0, .05, .2])), rqs, g.r))
    mix(c, judge(c, lines, 'rule combining'))


def bulk(g):
    """a large size, and the few places that differ from the rest"""
    n = g.r.choice([9, 17, 20, 30, 33, 50, 65, 101, 130])
    return n, [g.r.choice([n - 1, n - 1, g.r.randrange(n // 2, n), g.r.randrange(n)]) for _ in range(g.r.choice([1, 1, 2]))]


def c02(c):
    if c.thorough:
        c.proof('CombiningProof')
    g = gen.Gen('c02/%d' % c.seed)
    seqs = combining(c, 'policies', c.pick(4, 5))
    c.notes['sequences_enumerated'] = len(seqs)
    rq = g.simple_request()
    lines = []
    for s in seqs:
        kids = [g.child_for(k['o']) for k in s['seq']]
        p = {'k': 'PS', 'id': g.nid('set'), 'alg': s['alg'], 'tgt': [g.simple_target('T')] if g.r.random() < .2 else [],
             'kids': kids}
        lines.append(pol(p, [rq], g.r, ref=g.r.random() < .4))
    for i in range(c.pick(500, 4000)):
        n = g.r.choice([5, 6, 8, 12, 20, 40])
        bias = g.r.choice([['NotApplicable'] * 5, ['NotApplicable', 'Indeterminate'], ['NotApplicable', 'Permit'],
                           ['NotApplicable', 'Deny'], ['Permit', 'Deny', 'NotApplicable', 'Indeterminate']])
        kids = [g.child_for(g.r.choice(bias)) for _ in range(n)]
        for _ in range(g.r.randrange(3)):
            kids[g.r.randrange(n)] = g.child_for(g.r.choice(['Permit', 'Deny', 'Indeterminate']))
        p = {'k': 'PS', 'id': g.nid('set'), 'alg': g.r.choice(ALGS), 'tgt': [], 'kids': kids}
        lines.append(pol(p, [rq], g.r, ref=g.r.random() < .3))
    for i in range(c.pick(160, 1600)):
        n, at = bulk(g)
        kids = [g.child_for(o) for o in [g.r.choice(['Permit', 'Deny', 'NotApplicable', 'NotApplicable', 'Indeterminate'])] * n]
        for k in at:
            kids[k] = g.child_for(g.r.choice(['Permit', 'Deny', 'Deny', 'Indeterminate', 'NotApplicable']))
        p = {'k': 'PS', 'id': g.nid('set'), 'alg': ALGS[i % 3], 'tgt': [], 'kids': kids}
        lines.append(pol(p, [rq], g.r, ref=g.r.random() < .2))
    for i in range(c.pick(400, 3000)):
        rqs = [g.request() for _ in range(4)]
        e = g.r.choice([0, .02, .1])
        p = {'k': 'PS', 'id': g.nid('set'), 'alg': g.r.choice(ALGS), 'tgt': [],
             'kids': [g.tree(rqs[0], g.r.choice([0, 0, 1]), 3, err=e) for _ in range(g.r.choice([2, 3, 4, 5]))]}
        lines.append(pol(p, rqs, g.r, ref=g.r.random() < .3))
    mix(c, judge(c, lines, 'policy combining'))


def machine(c, mode):
    r = c.tlc('PdpMachine', 'SPECIFICATION Spec\nCONSTANTS Mode="%s" Emit=TRUE\nINVARIANTS TypeOK Compositional '
              'GrantHasReason ErrorsNeverGrant PolicyErrorIsIndeterminate EmitC\n%s'
              % (mode, 'PROPERTY Ends\n'), workers=4)
    return r.tagged('@@TREE')


def from_machine(g, n):
    """real policy for a tree of the machine, on simple_request()"""
    if n['t'] == 'T' and g.r.random() < .5:
        tgt = []
    else:
        tgt = [g.simple_target(n['t'])]
    if n['k'] == 'R':
        return {'id': g.nid('rule'), 'eff': n['eff'], 'tgt': tgt, 'cond': g.simple_cond(n['c'])}
    d = {'k': n['k'], 'id': g.nid('policy'), 'alg': n['alg'], 'tgt': tgt}
    d['rules' if n['k'] == 'P' else 'kids'] = [from_machine(g, x) for x in n['kids']]
    return d


def app(fam, ft, *args):
    return {'k': 'app', 'fam': fam, 'ft': ft, 'args': list(args)}


def lit(t, v):
    return {'k': 'lit', 't': t, 'v': v}


def odd_conditions(g):
    """condition expressions that do not yield a boolean, or yield one in an unusual way"""
    out = []
    for x in gen.NONBOOL:
        out.append(app('custom-ret-' + x, ''))
    for x in gen.EXCS:
        out.append(app('custom-raise-' + x, ''))
        out.append(app('and', '', app('custom-true', ''), app('custom-raise-' + x, '')))
    for t in gen.TYPES:
        out.append(lit(t, gen.POOL[t][0]))
        if t in gen.BAGT:
            out.append(app('bag', t))
            out.append(app('bag', t, lit(t, gen.POOL[t][0])))
            out.append(app('one-and-only', t, app('bag', t, lit(t, gen.POOL[t][0]))))
            out.append(app('one-and-only', t, app('bag', t)))
            out.append(app('one-and-only', t, app('bag', t, lit(t, gen.POOL[t][0]), lit(t, gen.POOL[t][1]))))
    out += [lit('boolean', 'true'), lit('boolean', 'false'), app('custom-echo', '', lit('boolean', 'false')),
            app('concatenate', 'string', lit('string', 'a'), lit('string', 'b')),
            app('custom-true', ''), app('custom-false', ''), app('not', '', app('custom-true', '')),
            app('not', '', app('custom-false', '')), app('and', ''), app('not', ''),
            app('not', '', app('custom-true', ''), app('custom-true', '')),
            app('equal', 'string', lit('string', 'a')), app('equal', 'string'),
            app('custom-echo', '', app('custom-false', '')), app('custom-echo', '', app('custom-true', ''))]
    for cat in 'SRAE':
        for mbp in (False, True):
            for i in ('urn:a:one', 'urn:a:absent'):
                out.append({'k': 'des', 'cat': cat, 'id': i, 't': 'string', 'iss': '', 'mbp': mbp})
    return out


def c03(c):
    g = gen.Gen('c03/%d' % c.seed)
    g.mixed = .03
    rq = g.simple_request()
    lines = []
    trees = machine(c, 'rule') + machine(c, 'policy')
    for m in trees:
        lines.append(pol(from_machine(g, m['tree']), [rq], g.r))
    # every kind of condition value, for both effects and every target outcome
    for cond in odd_conditions(g):
        for eff in ('Permit', 'Deny'):
            for t in ('', 'T', 'F', 'E'):
                r = {'id': g.nid('rule'), 'eff': eff, 'tgt': [g.simple_target(t)] if t else [], 'cond': [cond]}
                lines.append(dict(kind='rule', r=r, rqs=[rq]))
                p = {'k': 'P', 'id': g.nid('policy'), 'alg': g.r.choice(ALGS), 'tgt': [], 'rules': [r]}
                if t in ('', 'T'):
                    lines.append(pol(p, [rq], g.r))
    for i in range(c.pick(1200, 9000)):
        g.types = g.r.choice([['string', 'anyURI'], ['string'], g.r.sample(gen.BAGT, 3)])
        doc = g.r.random() < .15
        rqs = [g.request(.2, 1 if doc else 0) for _ in range(4)]
        r = g.rule(rqs[0], g.r.choice([1, 2, 3, 4]), doc, g.r.choice([0, .03, .1]))
        lines.append(dict(kind='rule', r=r, rqs=rqs, debug=g.r.random() < .1))
        if i % 4 == 0:
            lines.append(pol({'k': 'P', 'id': g.nid('policy'), 'alg': g.r.choice(ALGS), 'tgt': [], 'rules': [r]}, rqs, g.r))
    res = judge(c, lines, 'rule table')
    mix(c, res)
    n = {}
    for x in res['lxml']:
        if x['kind'] == 'rule':
            for o in x.get('obs', []):
                n[o] = n.get(o, 0) + 1
    c.notes['rule_decisions_seen'] = n


def c04(c):
    g = gen.Gen('c04/%d' % c.seed)
    g.mixed = .03
    rq = g.simple_request()
    lines = []
    trees = machine(c, 'set') + machine(c, 'deep')
    c.notes['trees_enumerated'] = len(trees)
    if not c.thorough:
        trees = g.r.sample(trees, 5000)
    for m in trees:
        lines.append(dict(pol(from_machine(g, m['tree']), [rq], g.r), via=['api']))
    for i in range(c.pick(900, 6000)):
        p = g.stree(g.r.choice([2, 3, 4, 6]), g.r.choice([1, 2, 3]))
        lines.append(pol(p, [rq], g.r, ref=g.r.random() < .1))
    for i in range(c.pick(700, 6000)):
        doc = g.r.random() < .1
        rqs = [g.request(.1, 1 if doc else 0) for _ in range(4)]
        p = g.tree(rqs[0], g.r.choice([1, 2, 3, 4]), g.r.choice([1, 2, 3]), doc, g.r.choice([0, .02, .1]))
        lines.append(pol(p, rqs, g.r, ref=g.r.random() < .1))
    # very deep and very wide trees
    for d in (8, 15, 30, 60, 9, 17, 35, 50, 66, 80):
        odd = d in (8, 15, 30, 60)
        for alg in ALGS:
            for o in ('Permit', 'Deny', 'NotApplicable', 'Indeterminate'):
                p = g.policy_for(o)
                for k in range(d):
                    t = [] if g.r.random() < .7 else [g.simple_target(g.r.choice('TTTTFE' if odd else 'T'))]
                    p = {'k': 'PS', 'id': g.nid('set'), 'alg': alg if k else g.r.choice(ALGS), 'tgt': t, 'kids': [p]}
                lines.append(pol(p, [rq], g.r))
    mix(c, judge(c, lines, 'policy tree'))


def real_target(g, spec):
    """target whose comparisons have the outcomes of the machine's target, and its request"""
    r = g.r
    rq = {'S': [[]], 'R': [[]], 'A': [[]], 'E': [[]], 'pip': [], 'doc': []}
    t = {}
    for cat, sect in zip('SRAE', spec):
        t[cat] = []
        for i, alt in enumerate(sect):
            ms = []
            for j, bag in enumerate(alt):
                aid = 'urn:m:%d:%d' % (i, j)
                plain = 'E' not in bag
                err = plain is False and all(o == 'E' for o in bag) and r.random() < .5
                if plain and r.random() < .7:
                    fam, ft, lv = 'equal', 'string', 'hit'
                    vals = ['hit' if o == 'T' else r.choice(['miss', 'hi', 'Hit', 'hitt', '']) for o in bag]
                elif plain and r.random() < .5:
                    fam, ft, lv = 'regexp-match', 'string', r.choice(['hit', '^hi.$', 'h'])
                    vals = [r.choice(['hit', 'hit']) if o == 'T' else r.choice(['miss', 'x', 'xhit']) for o in bag]
                elif err:
                    fam, ft, lv = g.boom(), '', 'hit'
                    vals = ['hit'] * len(bag)
                else:
                    fam, ft, lv = 'custom-script', '', 'hit'
                    vals = [o.lower() + str(k) for k, o in enumerate(bag)]
                a = {'id': aid, 't': 'string', 'iss': '', 'vals': vals}
                if len(vals) > 1 and r.random() < .4:      # split over two attributes
                    k = r.randrange(1, len(vals))
                    rq[cat][0] += [dict(a, vals=vals[:k]), dict(a, vals=vals[k:])]
                elif vals or r.random() < .5:
                    rq[cat][0].append(a)
                ms.append({'fam': fam, 'ft': ft, 't': 'string', 'v': lv,
                           'src': {'k': 'des', 'cat': cat, 'id': aid, 't': 'string', 'iss': '',
                                   'mbp': bool(vals) and r.random() < .3}})
            t[cat].append(ms)
    return t, rq


def near_match(g, m, cat):
    """the match with one thing about it changed"""
    r, s = g.r, m['src']
    x = r.choice(['v', 't', 'id', 'iss', 'iss', 'mbp', 'fam', 'same'])
    if x == 'v':
        return dict(m, v=r.choice(gen.PATS) if m['fam'] == 'regexp-match' else r.choice([g.near(m['t'], m['v']), g.val(m['t'])]))
    if x == 't' and m['t'] in ('string', 'anyURI') and m['ft'] == m['t']:
        t = 'anyURI' if m['t'] == 'string' else 'string'
        return dict(m, t=t, ft=t, src=dict(s, t=t))
    if x == 'fam' and m['ft'] == 'string' and m['v'].isalnum() and m['v'].isascii():
        return dict(m, fam='regexp-match' if m['fam'] == 'equal' else 'equal')
    y = {'id': r.choice(gen.IDS), 'iss': r.choice(['', 'iss1', 'iss2', '~']), 'mbp': not s['mbp']}
    return dict(m, src=dict(s, **{x: y[x]})) if x in y else dict(m)


def c05(c):
    if c.thorough:
        c.proof('TargetProof')
    g = gen.Gen('c05/%d' % c.seed)
    g.mixed = .03
    lines = []
    n = 0
    for mode in ('bag', 'alts', 'sects', 'two'):
        r = c.tlc('TargetMachine', 'SPECIFICATION Spec\nCONSTANTS Mode="%s" Emit=TRUE\nINVARIANTS Sound CleanExact '
                  'NoFalseMatch EmitC\n%s' % (mode, '' if mode == 'sects' else 'PROPERTY Ends\n'), workers=4)
        ts = r.tagged('@@TGT')
        n += len(ts)
        if mode in ('sects', 'two') and not c.thorough:
            ts = g.r.sample(ts, 1500)
        for s in ts:
            for _ in range(8 if mode == 'bag' else 3 if mode == 'alts' else 1):
                if mode in ('bag', 'alts', 'two'):     # any section can hold it
                    s = g.r.sample(s, 4)
                t, rq = real_target(g, s)
                lines.append(dict(kind='tgt', t=t, rqs=[rq], debug=g.r.random() < .1))
    c.notes['targets_enumerated'] = n
    for i in range(c.pick(1500, 12000)):
        doc = g.r.random() < .2
        g.types = g.r.choice([['string', 'anyURI'], ['string'], g.r.sample(gen.EQ, 3)])
        rqs = [g.request(.15, 1 if doc else 0) for _ in range(4)]
        t = g.target(rqs[0], doc, g.r.choice([0, 0, .05, .15]), g.r.choice([(0, 1), (0, 0, 1, 2), (1, 2, 3), (0, 4)]))
        lines.append(dict(kind='tgt', t=t, rqs=rqs, debug=g.r.random() < .1))
        if i % 5 == 0:
            cat = g.r.choice('SRAE')
            lines.append(dict(kind='match', cat=cat, m=g.match(cat, rqs[0], doc, .1), rqs=rqs))
        if i % 4 == 0:
            p = {'k': 'P', 'id': g.nid('policy'), 'alg': g.r.choice(ALGS), 'tgt': [t],
                 'rules': [{'id': g.nid('rule'), 'eff': g.r.choice(['Permit', 'Deny']), 'tgt': [], 'cond': []}]}
            lines.append(pol(p, rqs, g.r))
    # matches that differ from each other in one respect
    for i in range(c.pick(500, 4000)):
        g.types = g.r.choice([['string', 'anyURI'], ['string']])
        rqs = [g.request(.1) for _ in range(4)]
        t = {k: [] for k in 'SRAE'}
        for cat in g.r.sample('SRAE', g.r.choice([1, 1, 2])):
            ms = []
            for _ in range(g.r.choice([1, 1, 2])):
                m = g.match(cat, rqs[0], False, .02)
                ms += [m] + [near_match(g, m, cat) for _ in range(g.r.choice([1, 1, 2]))]
            g.r.shuffle(ms)
            k = g.r.randrange(len(ms) + 1) if g.r.random() < .4 else 0
            t[cat] = [x for x in (ms[:k], ms[k:]) if x]
        lines.append(dict(kind='tgt', t=t, rqs=rqs, debug=g.r.random() < .1))
    # sections of many alternatives, alternatives of many matches, bags of many values
    for i in range(c.pick(120, 1000)):
        n, at = bulk(g)
        cat, x = g.r.choice('SRAE'), g.r.random()
        o, q = g.r.choice(['TF', 'TE', 'FT', 'FT', 'ET', 'FE', 'EF'])
        pick = lambda k: q if k in at else o
        if x < .35:
            s = [[[pick(k)]] for k in range(n)]
        elif x < .7:
            s = [[[pick(k)] for k in range(n)]]
        else:
            s = [[[pick(k) for k in range(n)]]]
        t, rq = real_target(g, [s if k == cat else [] for k in 'SRAE'])
        lines.append(dict(kind='tgt', t=t, rqs=[rq]))
    # match functions that give something else than a boolean
    for fam, ft in [('custom-ret-' + x, '') for x in gen.NONBOOL] + [('bag', 'string'), ('concatenate', 'string')]:
        for cat in 'SRAE':
            for vals in ([], ['x'], ['x', 'y']):
                rq = {'S': [], 'R': [], 'A': [], 'E': [], 'pip': [], 'doc': []}
                rq[cat] = [[{'id': 'urn:a:one', 't': 'string', 'iss': '', 'vals': vals}]]
                m = {'fam': fam, 'ft': ft, 't': 'string', 'v': 'x',
                     'src': {'k': 'des', 'cat': cat, 'id': 'urn:a:one', 't': 'string', 'iss': '', 'mbp': False}}
                t = {k: [] for k in 'SRAE'}
                t[cat] = [[m]]
                lines.append(dict(kind='tgt', t=t, rqs=[rq]))
    res = judge(c, lines, 'target matching')
    k = {}
    for x in res['lxml']:
        if x['kind'] == 'tgt':
            for o in x.get('obs', []):
                k[o] = k.get(o, 0) + 1
    c.notes['target_results_seen'] = k


def retrieval(c, mode, big=False):
    r = c.tlc('Retrieval', 'SPECIFICATION Spec\nCONSTANTS Mode="%s" Emit=TRUE Big=%s\nINVARIANTS ExactBag NoLeak '
              'LookupAdds MbpIff FailsSafe Agrees EmitC\nPROPERTY Ends\n' % (mode, str(big).upper()), workers=4)
    return r.tagged('@@DES')


def expr_lines(g, cases, chunk=40):
    """group (designator, request) pairs into lines of one designator list x many requests"""
    by = {}
    for x in cases:
        by.setdefault(repr(x['des']), (x['des'], []))[1].append(x['rq'])
    out = []
    for d, rqs in by.values():
        g.r.shuffle(rqs)
        for i in range(0, len(rqs), chunk):
            out.append(dict(kind='expr', es=[d], rqs=rqs[i:i + chunk]))
    return out


def near(g, d):
    """designators close to d"""
    out = [dict(d)]
    for k, v in (('cat', g.r.choice('SRAE')), ('id', g.r.choice(gen.IDS + [d['id'].upper(), d['id'] + 'x', d['id'] + ' ', ' ' + d['id'], d['id'][:-1]])),
                 ('t', g.r.choice(gen.TYPES)), ('iss', g.r.choice(['', 'iss1', 'iss2', 'ISS1', 'iss', '~', 'iss1 ', ' iss1', ' ', 'iss1/', 'iss12'])), ('mbp', not d['mbp'])):
        out.append(dict(d, **{k: v}))
    return out


def c06(c):
    g = gen.Gen('c06/%d' % c.seed)
    g.mixed = .08
    cases = []
    for m in 'SRAE':
        q = retrieval(c, m, c.thorough)
        c.notes['cases_enumerated_' + m] = len(q)
        cases += q
    if not c.thorough:
        cases = g.r.sample(cases, 9000)
    lines = expr_lines(g, cases)
    for i in range(c.pick(900, 7000)):
        g.types = g.r.choice([['string', 'anyURI'], ['string', 'integer', 'boolean'], g.r.sample(gen.TYPES, 4)])
        rqs = [g.request() for _ in range(3)]
        if g.r.random() < .2:         # large holders
            for k in 'SR':
                rqs[0][k] = [g.attrs(6) for _ in range(4)]
        ds = near(g, g.des())
        for rq in rqs:
            for cat in 'SRAE':
                for a in [a for s in rq[cat] for a in s][:2]:
                    ds.append({'k': 'des', 'cat': cat, 'id': a['id'], 't': a['t'], 'iss': g.r.choice(['', a['iss']]),
                               'mbp': g.r.random() < .5})
        lines.append(dict(kind='expr', es=ds, rqs=rqs, debug=g.r.random() < .1))
    # through policies: a rule that permits iff the bag has the value
    for i in range(c.pick(500, 4000)):
        g.types = ['string', 'anyURI']
        rqs = [g.request() for _ in range(5)]
        d = g.des()
        v = g.val(d['t'])
        cond = g.r.choice([
            app('at-least-one-member-of', d['t'], app('bag', d['t'], lit(d['t'], v)), d),
            app('equal', d['t'], app('one-and-only', d['t'], d), lit(d['t'], v)),
            app('not', '', app('at-least-one-member-of', d['t'], d, app('bag', d['t'], lit(d['t'], v))))])
        p = {'k': 'P', 'id': g.nid('policy'), 'alg': g.r.choice(ALGS), 'tgt': [],
             'rules': [{'id': g.nid('rule'), 'eff': g.r.choice(['Permit', 'Deny']), 'tgt': [], 'cond': [cond]}]}
        lines.append(pol(p, rqs, g.r))
    judge(c, lines, 'attribute designators')


def c07(c):
    g = gen.Gen('c07/%d' % c.seed)
    g.mixed = .08
    cases = retrieval(c, 'pip')
    c.notes['cases_enumerated'] = len(cases)
    for x in cases:
        for p in x['rq']['pip']:
            for row in p['tab']:
                row['how'] = g.r.choice(gen.EXCS) if row['out'] == 'raise' else g.r.choice(gen.ANSWERS)
    lines = expr_lines(g, cases, 25)
    for i in range(c.pick(700, 6000)):
        g.types = g.r.choice([['string', 'anyURI'], ['string', 'integer']])
        rqs = [g.request(1) for _ in range(4)]
        ds = [g.des(cat='S'), g.des(cat='S'), g.des()]
        lines.append(dict(kind='expr', es=ds, rqs=rqs, debug=g.r.random() < .1))
    for i in range(c.pick(900, 7000)):
        g.types = ['string', 'anyURI']
        rqs = [g.request(.9) for _ in range(3)]
        # the same request under every answer of the handler
        base = g.request(0)
        for _ in range(3):
            rqs.append(dict(base, pip=[g.pip()]))
        rqs.append(base)
        x = g.r.random()
        if x < .3:
            d = g.des(cat='S')
            v = g.val(d['t'])
            cond = g.r.choice([
                app('at-least-one-member-of', d['t'], app('bag', d['t'], lit(d['t'], v)), d),
                app('equal', d['t'], app('one-and-only', d['t'], d), lit(d['t'], v)),
                app('not', '', app('at-least-one-member-of', d['t'], app('bag', d['t'], lit(d['t'], v)), d))])
            p = {'k': 'P', 'id': g.nid('policy'), 'alg': g.r.choice(ALGS), 'tgt': [],
                 'rules': [{'id': g.nid('rule'), 'eff': g.r.choice(['Permit', 'Deny']), 'tgt': [], 'cond': [cond]}]}
        elif x < .6:
            d = g.des(cat='S')
            t = {k: [] for k in 'SRAE'}
            t['S'] = [[{'fam': 'equal', 'ft': d['t'], 't': d['t'], 'v': g.val(d['t']), 'src': d}] for _ in range(g.r.choice([1, 1, 2]))]
            p = {'k': 'P', 'id': g.nid('policy'), 'alg': g.r.choice(ALGS), 'tgt': [t],
                 'rules': [{'id': g.nid('rule'), 'eff': g.r.choice(['Permit', 'Deny']), 'tgt': [], 'cond': []}]}
        else:
            p = g.tree(rqs[0], g.r.choice([0, 1, 2]), 3, False, g.r.choice([0, .03]))
        lines.append(pol(p, rqs, g.r))
        if i % 3 == 0:      # one request object, the handler's answers changing between evaluations
            lines.append(dict(kind='piphist', p=p, rqs=[dict(base, pip=[g.pip()]) for _ in range(5)]))
    res = judge(c, lines, 'external attribute lookup')
    mix(c, res)


def faults(g, p, r):
    """policies with one evaluation point made to fail, for every point"""
    sites = []

    def ex(e, put):
        if e['k'] == 'app':
            sites.append((put, e))
            for i, a in enumerate(e['args']):
                ex(a, lambda v, e=e, i=i: e['args'].__setitem__(i, v))
        elif e['k'] in ('des', 'lit'):
            sites.append((put, e))

    def tg(q):
        for t in q:
            for k in 'SRAE':
                for alt in t[k]:
                    for m in alt:
                        sites.append((lambda v, m=m: m.update(v), m))

    def walk(n):
        tg(n['tgt'])
        for x in n.get('rules', []):
            tg(x['tgt'])
            if x['cond']:
                ex(x['cond'][0], lambda v, x=x: x['cond'].__setitem__(0, v))
        for k in n.get('kids', []):
            walk(k)
    walk(p)
    n = len(sites)
    for i in range(n):
        q = copy.deepcopy(p)
        del sites[:]
        walk(q)
        put, old = sites[i]
        if 'src' in old:
            put(r.choice([{'fam': g.boom(), 'ft': ''}, {'src': dict(old['src'], id='urn:a:absent', mbp=True)
                                                        if old['src']['k'] == 'des' else old['src'], 'fam': g.boom(), 'ft': ''},
                          {'fam': 'custom-ret-' + r.choice(gen.NONBOOL), 'ft': ''}]))
        elif old['k'] == 'des':
            put(dict(old, id='urn:a:absent', mbp=True))
        elif old['k'] == 'lit':
            put(r.choice([app(g.boom(), ''), app('custom-ret-' + r.choice(gen.NONBOOL), '')]))
        else:
            put(r.choice([app(g.boom(), '', *old['args']), app('custom-ret-' + r.choice(gen.NONBOOL), '', *old['args']),
                          dict(old, args=old['args'] + [lit('string', 'x')] * 2) if old['fam'] not in ('and', 'bag') and not
                          old['fam'].startswith('custom') else app(g.boom(), '')]))
        yield q
        del sites[:]
        walk(p)


def c08(c):
    g = gen.Gen('c08/%d' % c.seed)
    g.mixed = .03
    rq = g.simple_request()
    lines = []
    trees = machine(c, 'policy') + machine(c, 'set')
    c.notes['trees_enumerated'] = len(trees)
    trees = [t for t in trees if '"E"' in repr(t).replace("'", '"')]
    if not c.thorough:
        trees = g.r.sample(trees, 2500)
    for m in trees:
        lines.append(pol(from_machine(g, m['tree']), [rq], g.r, via=['api']))
    npts = 0
    for i in range(c.pick(130, 900)):
        doc = g.r.random() < .1
        rqs = [g.request(.3, 1 if doc else 0), g.request(.3, 0), rq]
        p = g.tree(rqs[0], g.r.choice([0, 1, 1, 2]), 2, doc, 0) if g.r.random() < .7 else g.stree(2, 2)
        for q in faults(g, p, g.r):
            npts += 1
            lines.append(pol(q, rqs, g.r, via=['api']) if npts % 3 else pol(q, rqs, g.r))
    c.notes['fault_points'] = npts
    # failing context handlers, every exception
    for x in gen.EXCS:
        for i in range(2):
            bad = dict(rq, pip=[{'tab': [{'id': k, 'out': 'raise', 't': 'string', 'vals': [], 'how': x}
                                         for k in ('urn:a:one', 'urn:a:absent')]}])
            lines.append(pol(g.stree(2, 2), [bad, rq], g.r))
            lines.append(pol(g.policy_for(g.r.choice(['Permit', 'Deny'])), [bad, rq], g.r))
    # things that are not requests
    for i in range(60):
        for b in ('none', 'str', 'obj'):
            lines.append(pol(g.stree(g.r.choice([0, 1, 2]), 2), [{'bad': b}, rq], g.r))
    # requests with nothing in them
    empty = {'S': [], 'R': [], 'A': [], 'E': [], 'pip': [], 'doc': []}
    for i in range(c.pick(150, 900)):
        lines.append(pol(g.tree(rq, 1, 3, False, g.r.choice([0, .1])), [empty, dict(empty, pip=[g.pip()]),
                                                                      dict(empty, S=[[]], R=[[]], A=[[]], E=[[]])], g.r))
    res = judge(c, lines, 'one valid result')
    mix(c, res)


def arg_universe(g, t):
    P = gen.POOL
    av = lambda u, v: {'s': 'av', 't': u, 'v': v}
    out = [av(t, v) for v in P[t][:3]]
    others = [u for u in gen.TYPES if u != t]
    out += [av(u, P[u][0]) for u in g.r.sample(others, 3)]
    if t in gen.STR:
        u = g.r.choice([u for u in gen.STR if u != t])
        out += [av(u, P[t][0]), av(t, g.r.choice([' ', '\t', '  ', '\u00a0']))]
    bag = lambda u, vs: {'s': 'bag', 't': u, 'vs': vs}
    out += [bag(t, []), bag(t, [P[t][0]]), bag(t, [P[t][1]]), bag(t, [P[t][0], P[t][1]]), bag(t, [P[t][0], P[t][0]])]
    u = g.r.choice(others)
    out += [bag(u, []), bag(u, [P[u][0]])]
    out += [{'s': 'bool', 'b': True}, {'s': 'bool', 'b': False}]
    return out


def functions():
    fs = [('equal', t) for t in gen.EQ + ['xpath-node']] + [('match', t) for t in ('x500Name', 'rfc822Name')]
    fs += [('regexp-match', t) for t in ['string'] + gen.RE2]
    fs += [('and', ''), ('not', '')]
    for f in ('bag', 'one-and-only', 'at-least-one-member-of'):
        fs += [(f, t) for t in gen.BAGT]
    return fs + [('concatenate', 'string'), ('concatenate', 'url-string')]


def c09(c):
    g = gen.Gen('c09/%d' % c.seed)
    c.tlc('FunctionLaws', 'SPECIFICATION Spec\nCONSTANTS Big=%s\nINVARIANTS Laws\n' % str(c.thorough).upper(), workers=8)
    lines = []
    for fam, ft in functions():
        t = {'': 'string', 'xpath-node': 'string', 'url-string': 'anyURI'}.get(ft, ft)
        for rnd in range(c.pick(1, 4)):
            u = arg_universe(g, t)
            tuples = [[]] + [[a] for a in u] + [[a, b] for a in u for b in u]
            tuples += [[g.r.choice(u) for _ in range(3)] for _ in range(60)] + [[g.r.choice(u) for _ in range(4)] for _ in range(10)]
            if fam == 'and':
                for k in (8, 9, 13, 17, 20, 33, 40, 70):
                    for j in (None, k - 1, k // 2, g.r.randrange(k), 0):
                        q = [{'s': 'bool', 'b': i != j} for i in range(k)]
                        tuples += [q, q[:-1] + [{'s': 'av', 't': 'string', 'v': 'true'}]]
            if fam in ('and', 'not'):
                b = [{'s': 'bool', 'b': True}, {'s': 'bool', 'b': False}]
                tuples += [list(q) for k in range(7) for q in itertools.product(b, repeat=k)]
                tuples = [q for q in tuples if not any(a['s'] == 'av' and a['t'] == 'boolean' for a in q)]
            if fam == 'concatenate':
                s = [{'s': 'av', 't': 'string', 'v': v} for v in ('a', '', 'bc')]
                txt = lambda: ''.join(g.r.choice([' ', ' ', '\t', 'a', 'B', '0', '/', '%', '\u00e9', '\u00a0']) for _ in range(g.r.choice([0, 1, 1, 2, 3, 20])))
                tuples += [[{'s': 'av', 't': t if k == 0 else 'string', 'v': txt()} for k in range(g.r.choice([2, 2, 2, 3, 4, 9, 25]))] for _ in range(150)]
                f0 = [{'s': 'av', 't': t, 'v': v} for v in ('p', '', 'q/')]
                tuples += [[x] + list(q) for x in f0 for k in range(5) for q in itertools.product(s, repeat=k)][::c.pick(2, 1)]
            if fam == 'at-least-one-member-of':
                pool = gen.POOL[t] + g.r.sample(gen.RARE[t], 2)
                vals = gen.POOL[t] + gen.RARE[t]
                tuples += [[{'s': 'bag', 't': t, 'vs': [x]}, {'s': 'bag', 't': t, 'vs': [y]}] for x in vals for y in vals]
                bags = [[g.r.choice(pool) for _ in range(k)] for k in (0, 1, 2, 3, 5, 8) for _ in range(3)]
                tuples += [[{'s': 'bag', 't': t, 'vs': x}, {'s': 'bag', 't': t, 'vs': y}] for x in bags for y in bags]
                for k in (17, 33):
                    x = [g.val(t) for _ in range(k)]
                    tuples += [[{'s': 'bag', 't': t, 'vs': x}, {'s': 'bag', 't': t, 'vs': [y]}] for y in vals]
                    tuples += [[{'s': 'bag', 't': t, 'vs': [y]}, {'s': 'bag', 't': t, 'vs': x}] for y in vals]
            if fam == 'bag':
                for k in (3, 4, 6, 9, 17, 33):
                    tuples += [[{'s': 'av', 't': t, 'v': g.val(t)} for _ in range(k)] for _ in range(6)]
            if fam == 'one-and-only':
                tuples += [[{'s': 'bag', 't': t, 'vs': [g.val(t) for _ in range(k)]}] for k in (1, 1, 1, 2, 3, 4, 7, 20)]
            if fam == 'equal' or fam == 'match':
                vals = gen.POOL[t] + gen.RARE[t]
                tuples += [[{'s': 'av', 't': t, 'v': x}, {'s': 'av', 't': t, 'v': y}] for x in vals for y in vals]
                if t in gen.STR:
                    vals += [''.join(g.r.choice('abcXYZ 09-./@\u00e9\u00df') for _ in range(g.r.choice([2, 5, 12, 60]))) for _ in range(15)]
                    tuples += [[{'s': 'av', 't': t, 'v': x}, {'s': 'av', 't': t, 'v': g.near(t, x)}] for x in vals for _ in range(6)]
            if fam == 'regexp-match':
                pats = gen.PATS + gen.BADPATS
                vals = sorted(set(gen.SVALS + gen.POOL[t] + gen.RARE[t] + ['xab', 'aab', 'abb', 'a.c', 'zz', 'ac', 'zzz']))
                tuples += [[{'s': 'av', 't': t, 'v': x}, {'s': 'av', 't': t, 'v': y}] for x in pats for y in vals][::c.pick(1, 1)]
                for ps, xs in gen.patterns(g.r, c.pick(60, 400)):
                    tuples += [[{'s': 'av', 't': t, 'v': x}, {'s': 'av', 't': t, 'v': y}] for x in ps for y in xs]
            g.r.shuffle(tuples)
            for i in range(0, len(tuples), 200):
                lines.append(dict(kind='fun', fam=fam, ft=ft, argss=tuples[i:i + 200]))
    c.notes['calls'] = sum(len(x['argss']) for x in lines)
    # nested in conditions
    for i in range(c.pick(600, 6000)):
        g.types = g.r.choice([['string', 'anyURI'], ['string'], g.r.sample(gen.BAGT, 3)])
        rqs = [g.request() for _ in range(3)]
        lines.append(dict(kind='expr', es=[g.ebool(g.r.choice([1, 2, 3, 4]), err=g.r.choice([0, .05, .15])) for _ in range(4)],
                          rqs=rqs, debug=g.r.random() < .1))
        if i % 4 == 0:
            p = {'k': 'P', 'id': g.nid('policy'), 'alg': 'first-applicable', 'tgt': [], 'rules': [
                {'id': g.nid('rule'), 'eff': 'Permit', 'tgt': [], 'cond': [g.ebool(3, err=.03)]}]}
            lines.append(pol(p, rqs, g.r))
    judge(c, lines, 'functions', min_shard=60)


def form_paths(g, path):
    return [dict(path[0], form=g.r.choice(['abs', 'rel', 'dot']))] + path[1:]


def c15(c):
    g = gen.Gen('c15/%d' % c.seed)
    r = c.tlc('Selector', 'SPECIFICATION Spec\nCONSTANTS Tags={"a","b"} Emit=TRUE NPaths=2\n'
              'INVARIANTS Exact MbpIff Agrees EmitC\n', workers=8)
    docs, paths = r.tagged('@@DOC'), r.tagged('@@PATH')
    c.notes['documents_enumerated'], c.notes['paths_enumerated'] = len(docs), len(paths)
    empty = {'S': [], 'R': [], 'A': [], 'E': [], 'pip': []}
    rqs = [dict(empty, doc=[d]) for d in docs]
    lines = []
    for p in paths if c.thorough else g.r.sample(paths, 45):
        es = [{'k': 'sel', 'path': form_paths(g, p), 't': t, 'mbp': m}
              for t, m in ((g.r.choice(gen.STR), False), ('string', True))]
        for i in range(0, len(rqs), 40):
            lines.append(dict(kind='expr', es=es, rqs=rqs[i:i + 40]))
    for i in range(c.pick(900, 7000)):
        rqs = [g.request(.1, .93) for _ in range(4)]
        if g.r.random() < .25:
            for q in rqs:
                for d in q['doc']:
                    g.namespaced(d)
        es = []
        for _ in range(4):
            p = form_paths(g, g.path())
            if g.r.random() < .4:
                p = [dict(s, n='{urn:d}' + s['n'] if s['n'] != '*' and g.r.random() < .4 else s['n']) for s in p]
            es.append({'k': 'sel', 'path': p, 't': g.r.choice(gen.STR + ['string', 'string', 'integer', 'boolean', 'urn:unknown']),
                       'mbp': g.r.random() < .4})
        lines.append(dict(kind='expr', es=es, rqs=rqs, debug=g.r.random() < .1))
    for i in range(c.pick(700, 5000)):
        rqs = [g.request(.1, .95) for _ in range(4)]
        s = g.sel(g.r.choice(['string', 'anyURI']))
        v = g.val('string')
        if i % 2:
            cat = g.r.choice('SRAE')
            t = {k: [] for k in 'SRAE'}
            t[cat] = [[{'fam': g.r.choice(['equal', 'regexp-match']), 'ft': s['t'], 't': s['t'], 'v': v or 'x', 'src': s}]]
            p = {'k': 'P', 'id': g.nid('policy'), 'alg': g.r.choice(ALGS), 'tgt': [t],
                 'rules': [{'id': g.nid('rule'), 'eff': 'Permit', 'tgt': [], 'cond': []}]}
        else:
            cond = g.r.choice([app('at-least-one-member-of', s['t'], s, app('bag', s['t'], lit(s['t'], v or 'x'))),
                               app('equal', s['t'], app('one-and-only', s['t'], s), lit(s['t'], v or 'x'))])
            p = {'k': 'P', 'id': g.nid('policy'), 'alg': g.r.choice(ALGS), 'tgt': [],
                 'rules': [{'id': g.nid('rule'), 'eff': 'Permit', 'tgt': [], 'cond': [cond]}]}
        lines.append(pol(p, rqs, g.r))
    mix(c, judge(c, lines, 'attribute selectors'))


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09,
          'C15': c15}

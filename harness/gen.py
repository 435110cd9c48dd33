"""Seeded random generators of abstract specification terms (see spec/Xacml.tla)."""
import random

IDS = ['urn:a:one', 'urn:a:two', 'urn:a:three']
ISS = ['', '', '', '', 'iss1', 'iss1', 'iss2', 'iss2', '~']
SVALS = ['x', 'y', 'z', 'ab', 'abc', 'X', '']
POOL = {
    'string': SVALS, 'anyURI': ['http://h/a', 'http://h/ab', 'x', 'ab'],
    'integer': ['0', '1', '2', '-1', '10'], 'boolean': ['true', 'false'],
    'double': ['0.5', '1.0', '2.25'],
    'date': ['2010-01-02T00:00:00', '2011-01-02T00:00:00'],
    'dateTime': ['2010-01-02T03:04:05', '2010-01-02T03:04:06'],
    'time': ['1900-01-01T03:04:05', '1900-01-01T03:04:06'],
    'dayTimeDuration': ['60', '120'], 'yearMonthDuration': ['60', '120'],
    'x500Name': ['cn=a', 'cn=b', 'CN=a'], 'rfc822Name': ['a@b.c', 'A@b.c', 'x@y'],
    'hexBinary': ['0', '255'], 'ipAddress': ['10.0.0.1', '10.0.0.2'], 'dnsName': ['h.org', 'g.org'],
}
# values that differ from others, and from each other, in one respect only
RARE = {
    'string': ['x ', ' x', 'xx', 'AB', 'a b', 'ab ', '\u00e9', '\u00c9', 'e\u0301', '0', 'true', '<a>&"\'', 'x\u00a0', 'z' * 40, 'x\ty', ' ', 'x\n', 'a\nb', '\nab', 'ab\n', 'ab\n\n'],
    'anyURI': ['http://H/a', 'http://h/a/', 'http://h/a#f', 'http://h/a%20b', 'HTTP://h/a', 'http://h/a?b=c&d', 'X', 'http://h/%61'],
    'integer': ['7', '-10', '100', '4294967296', '9007199254740992', '9007199254740993', '-9007199254740993', '12345678901234567890'],
    'boolean': ['true', 'false'],
    'double': ['-0.5', '-0.0', '0.0', '1.5', '0.1', '0.3', '0.30000000000000004', '1000000.0', '1e-09', 'inf'],
    'date': ['2010-01-03T00:00:00', '2010-02-02T00:00:00'],
    'dateTime': ['2010-01-03T03:04:05', '2010-01-02T03:04:05.000001', '2010-01-02T04:04:05', '2010-01-02T03:04:05+00:00', '2010-01-02T04:04:05+01:00', '2010-01-02T03:04:05.000001+00:00'],
    'time': ['1900-01-01T03:05:05', '1900-01-01T04:04:05'],
    'dayTimeDuration': ['86460', '-60', '0', '86400'], 'yearMonthDuration': ['86460', '-60', '0', '31536000'],
    'x500Name': ['cn=a,o=b', 'o=b,cn=a', 'cn=\u00e9'], 'rfc822Name': ['b@b.c', 'a@b', 'a@b.cc'],
    'hexBinary': ['256', '65535'], 'ipAddress': ['10.0.0.10', '10.0.0.1/24'], 'dnsName': ['h.org:80', 'x.h.org'],
}
TYPES = list(POOL)
STR = ['string', 'anyURI', 'x500Name', 'rfc822Name', 'ipAddress', 'dnsName']
PATS = ['x', '^x', 'a', 'ab$', 'a.*', '.', '.*c$', 'a.c', 'ab*', 'ab?c', '[xy]', 'b', 'http://h/.*',
        '^http://h/a$', 'z+', 'a\\.', '^$', '[xy]*', 'cn=.', '10\\.0.*', '.@b']
PATS += ['a|x', '^(a|b)c', '(x|ab)+$', '[a-c]{2}', '[^a]', 'a{1,2}b', '(http|ftp)://h/[a-z]', '[0-9]+\\.', '(cn=a)?,?o', '^a$|^x']
PATALPHA = ['a', 'b', 'x', ' ', 'A', '.', '\\.', '[ab]', '[ xA]', '-', '0']


# never empty, so that a quantifier may follow
PATMORE = ['[a-c]', '[^a]', '[^ -A]', '[0-9a]', '\\d', '\\w', '\\s', '\\S', '(ab)', '(a|b)', '(x|ab)', '(a(b|x)?)', '([ab]|-0)', '(A|a|x)', '(a{2}|b)']


def patterns(r, n):
    """families of patterns close to each other, with texts that tell them apart"""
    out = []
    for _ in range(n):
        atoms = [r.choice(PATALPHA) + r.choice(['', '', '', '', '*', '?', '+']) for _ in range(r.choice([1, 2, 2, 3]))]
        if r.random() < .6:
            for k in range(r.choice([1, 1, 2, 3])):
                atoms.insert(r.randrange(len(atoms) + 1), r.choice(PATMORE) + r.choice(['', '', '', '*', '?', '+', '{2}', '{1,}', '{0,1}', '{1,2}', '{0,3}']))
            if r.random() < .3:
                atoms.insert(r.randrange(len(atoms) + 1), '|')
        p = ''.join(atoms)
        fam = [p, p + ' ', ' ' + p, '^' + p, p + '$', p.swapcase(), p + '.*', p + r.choice(PATALPHA), ''.join(atoms[::-1])]
        xs = [''.join(r.choice(['a', 'b', 'x', ' ', 'A', 'B', 'X', '.', '-', '0']) for _ in range(r.randrange(5))) for _ in range(6)]
        out.append(([q for q in dict.fromkeys(fam) if r.random() < .8] or [p], xs))
    return out


BADPATS = ['*', '(', '[a', 'a**']
EQ = ['string', 'anyURI', 'integer', 'boolean', 'double', 'date', 'time', 'dateTime', 'dayTimeDuration',
      'yearMonthDuration', 'x500Name', 'rfc822Name', 'hexBinary']
BAGT = ['string', 'boolean', 'integer', 'double', 'time', 'date', 'dateTime', 'anyURI', 'hexBinary',
        'dayTimeDuration', 'yearMonthDuration', 'x500Name', 'rfc822Name']
RE2 = ['anyURI', 'ipAddress', 'dnsName', 'rfc822Name', 'x500Name']
ANSWERS = ['list', 'list', 'tuple', 'kept', 'typed']
EXCS = ['runtime', 'key', 'stop', 'assertion', 'type', 'attribute', 'notimpl', 'unicode', 'os', 'memory',
        'recursion', 'zero', 'import', 'index', 'unprintable', 'context', 'parse', 'timeout', 'group', 'value',
        'lookup', 'eof']
NONBOOL = ['none', 'zero', 'one', 'str', 'empty', 'list', 'nolist', 'obj']
ALGS = ['deny-overrides', 'permit-overrides', 'first-applicable']


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.custom = True
        self.mixed = 0
        self.types = ['string', 'anyURI']

    def size(self, n, p=.012, lo=5, hi=20):
        """a size, now and then a large one"""
        return n if self.r.random() >= p else self.r.randrange(lo, hi)

    # ------------------------------------------------------------- requests
    def val(self, t):
        return self.r.choice(RARE[t] if self.r.random() < .08 else POOL[t])

    def attr(self, t=None):
        t = t or self.r.choice(self.types)
        n = self.size(self.r.choice([0, 1, 1, 1, 2, 3]), hi=40)
        return self.mix({'id': self.r.choice(IDS), 't': t, 'iss': self.r.choice(ISS),
                         'vals': [self.val(t) for _ in range(n)]})

    def mix(self, a):
        """now and then, values of another type among those of an attribute or an answer"""
        if self.mixed and a['vals'] and a['t'] in ('string', 'anyURI') and self.r.random() < self.mixed:
            u = 'anyURI' if a['t'] == 'string' else 'string'
            a['vt'] = [u if self.r.random() < .4 else a['t'] for _ in a['vals']]
        return a

    def attrs(self, k=3):
        return [self.attr() for _ in range(self.size(self.r.randrange(k + 1)))]

    def request(self, pip=0.0, doc=0.0):
        r = self.r
        rq = {'S': [self.attrs() for _ in range(self.size(r.choice([0, 1, 1, 1, 2, 3])))],
              'R': [self.attrs() for _ in range(self.size(r.choice([0, 1, 1, 1, 2])))],
              'A': [self.attrs() for _ in range(r.choice([0, 1, 1, 1, 1]))],
              'E': [self.attrs(2) for _ in range(r.choice([0, 1, 1]))],
              'pip': [], 'doc': []}
        if r.random() < pip:
            rq['pip'] = [self.pip()]
        if r.random() < doc:
            rq['doc'] = [self.doc()]
        return rq

    def pip(self):
        r = self.r
        tab = []
        for i in IDS:
            x = r.random()
            t = r.choice(self.types)
            if x < .2:
                continue
            if x < .32:
                tab.append({'id': i, 'out': 'raise', 't': t, 'vals': [], 'how': r.choice(EXCS)})
            elif x < .42:
                tab.append({'id': i, 'out': 'none', 't': t, 'vals': []})
            else:
                vals = [self.val(t) for _ in range(r.randrange(4))]
                tab.append(self.mix({'id': i, 'out': 'vals', 't': t, 'vals': vals,
                                     'how': r.choice(ANSWERS)}))
        return {'tab': tab}

    def doc(self, depth=3):
        r = self.r
        tag = 'root' if depth == 3 else r.choice(['a', 'b', 'c'])
        kids = [] if depth == 0 else [self.doc(depth - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]
        at = [] if r.random() < .5 else [{'n': 'k', 'v': r.choice(['1', '2'])}]
        if depth == 3 and not kids:
            kids = [self.doc(2)]
        return {'tag': tag, 'text': r.choice(['x', 'y', 'z', 'ab', 'x', 'y', 'z', 'ab', '']), 'at': at, 'kids': kids}

    def path(self):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3])
        desc = r.randrange(n) if r.random() < .4 else -1
        out = []
        for i in range(n):
            p = r.random() < .25
            out.append({'ax': 'desc' if i == desc else 'child', 'n': r.choice(['a', 'b', 'c', '*']),
                        'pa': 'k' if p else '', 'pv': r.choice(['1', '2']) if p else ''})
        return out

    # ---------------------------------------------------------- expressions
    def lit(self, t):
        return {'k': 'lit', 't': t, 'v': self.val(t)}

    def des(self, t=None, cat=None):
        r = self.r
        return {'k': 'des', 'cat': cat or r.choice('SSSRRAE'), 'id': r.choice(IDS),
                't': t or r.choice(self.types), 'iss': r.choice(ISS), 'mbp': r.random() < .25}

    def sel(self, t=None):
        return {'k': 'sel', 'path': self.path(), 't': t or 'string', 'mbp': self.r.random() < .25}

    def bag_src(self, t, doc):
        r = self.r
        if doc and t in STR and r.random() < .5:
            return self.sel(t)
        return self.des(t)

    def ev(self, t, d, doc=False):
        """expression meant to give one value of type t"""
        r = self.r
        if d > 0 and r.random() < .35 and t in BAGT:
            return {'k': 'app', 'fam': 'one-and-only', 'ft': t, 'args': [self.ebag(t, d - 1, doc)]}
        if d > 0 and t in ('string', 'anyURI') and r.random() < .2:
            ft = 'string' if t == 'string' else 'url-string'
            return {'k': 'app', 'fam': 'concatenate', 'ft': ft,
                    'args': [self.ev(t, d - 1, doc)] + [self.ev('string', d - 1, doc)
                                                        for _ in range(self.size(r.choice([0, 1, 1, 2])))]}
        return self.lit(t)

    def ebag(self, t, d, doc=False):
        r = self.r
        if d > 0 and r.random() < .4 and t in BAGT:
            return {'k': 'app', 'fam': 'bag', 'ft': t,
                    'args': [self.ev(t, d - 1, doc) for _ in range(self.size(r.randrange(4)))]}
        return self.bag_src(t, doc)

    def ebool(self, d, doc=False, err=.08):
        r = self.r
        if r.random() < err:
            return self.broken(d, doc)
        x = r.random()
        t = r.choice(self.types)
        if d <= 0 or x < .3:
            t = t if t in EQ else 'string'
            return {'k': 'app', 'fam': 'equal', 'ft': t, 'args': [self.ev(t, d, doc), self.ev(t, d, doc)]}
        if x < .45:
            return {'k': 'app', 'fam': 'and', 'ft': '', 'args': [self.ebool(d - 1, doc, err)
                                                                for _ in range(self.size(r.randrange(4), hi=12))]}
        if x < .58:
            return {'k': 'app', 'fam': 'not', 'ft': '', 'args': [self.ebool(d - 1, doc, err)]}
        if x < .78:
            t = t if t in BAGT else 'string'
            return {'k': 'app', 'fam': 'at-least-one-member-of', 'ft': t,
                    'args': [self.ebag(t, d - 1, doc), self.ebag(t, d - 1, doc)]}
        if x < .9:
            t = r.choice(['string'] + RE2[:1])
            return {'k': 'app', 'fam': 'regexp-match', 'ft': t,
                    'args': [{'k': 'lit', 't': t, 'v': r.choice(PATS)}, self.ev(t, d - 1, doc)]}
        if self.custom:
            return {'k': 'app', 'fam': r.choice(['custom-true', 'custom-false']), 'ft': '', 'args': []}
        return self.ebool(0, doc, err)

    def broken(self, d, doc=False):
        """expression that is likely an error or not a boolean"""
        r = self.r
        x = r.random()
        if x < .15 and self.custom:
            return {'k': 'app', 'fam': self.boom(), 'ft': '', 'args': []}
        if x < .3:
            return self.lit('string')
        if x < .4:
            return self.des()
        if x < .55:
            return {'k': 'app', 'fam': 'equal', 'ft': 'string', 'args': [self.lit('string'), self.lit('anyURI')]}
        if x < .65:
            return {'k': 'app', 'fam': 'equal', 'ft': 'string', 'args': [self.lit('string')] * r.choice([1, 3])}
        if x < .75:
            return {'k': 'app', 'fam': 'not', 'ft': '', 'args': [self.lit('string')]}
        if x < .85:
            return {'k': 'app', 'fam': 'regexp-match', 'ft': 'string',
                    'args': [{'k': 'lit', 't': 'string', 'v': r.choice(BADPATS)}, self.lit('string')]}
        if x < .95:
            return {'k': 'app', 'fam': 'one-and-only', 'ft': 'string',
                    'args': [{'k': 'app', 'fam': 'bag', 'ft': 'string',
                              'args': [self.lit('string')] * r.choice([0, 2])}]}
        return {'k': 'app', 'fam': 'bag', 'ft': 'string', 'args': [self.lit('string')]}

    # -------------------------------------------------------------- targets
    def match(self, cat, rq=None, doc=False, err=.05):
        r = self.r
        x = r.random()
        if rq is not None and x < .75:
            cands = [a for s in rq[cat] for a in s if a['vals']]
            if cands:
                a = r.choice(cands)
                t = a['t']
                v = r.choice(a['vals']) if r.random() < .75 else self.val(t)
                fam = 'equal' if t in EQ else None
                if fam:
                    src = {'k': 'des', 'cat': cat, 'id': a['id'], 't': t,
                           'iss': r.choice(['', '', a['iss']]), 'mbp': r.random() < .2}
                    if r.random() < err:
                        src['id'], src['mbp'] = 'urn:a:absent', True
                    return {'fam': fam, 'ft': t, 't': t, 'v': v, 'src': src}
        t = r.choice(['string', 'string', 'anyURI'])
        src = self.sel(t) if doc and r.random() < .5 else self.des(t, cat)
        fam, ft, lt, v = 'equal', t, t, self.val(t)
        if r.random() < .35:
            fam, v = 'regexp-match', r.choice(PATS)
        if r.random() < err:
            y = r.random()
            if y < .3:
                lt = 'anyURI' if t == 'string' else 'string'
                v = self.val(lt)
            elif y < .5:
                fam, v = 'regexp-match', r.choice(BADPATS)
            elif y < .7:
                fam, ft = (self.boom(), '') if self.custom else ('not', '')
            elif y < .85:
                fam, ft = 'bag', 'string'
            else:
                fam, ft = 'not', ''
        elif self.custom and r.random() < .05:
            fam, ft = r.choice([('custom-true', ''), ('custom-false', '')])
        return {'fam': fam, 'ft': ft, 't': lt, 'v': v, 'src': src}

    def target(self, rq=None, doc=False, err=.05, sects=None):
        r = self.r
        t = {}
        for cat in 'SRAE':
            n = self.size(r.choice([0, 0, 1, 1, 2]) if sects is None else r.choice(sects), .008, hi=12)
            t[cat] = [[self.match(cat, rq, doc, err) for _ in range(self.size(r.choice([1, 1, 1, 2, 3]), hi=12))] for _ in range(n)]
        return t

    def opt_target(self, rq, p=.4, doc=False, err=.05, sects=(0, 0, 0, 1, 2)):
        return [self.target(rq, doc, err, sects)] if self.r.random() < p else []

    # ------------------------------------------------- scripted small pieces
    def simple_cond(self, o):
        """condition of a rule with a given outcome T F E"""
        r = self.r
        eq = lambda a, b: {'k': 'app', 'fam': 'equal', 'ft': 'string',
                           'args': [{'k': 'lit', 't': 'string', 'v': a}, {'k': 'lit', 't': 'string', 'v': b}]}
        if o == 'T':
            return r.choice([[], [eq('x', 'x')], [{'k': 'app', 'fam': 'not', 'ft': '', 'args': [eq('x', 'y')]}]])
        if o == 'F':
            return [r.choice([eq('x', 'y'), {'k': 'app', 'fam': 'and', 'ft': '', 'args': [eq('x', 'x'), eq('x', 'z')]}])]
        return [r.choice([
            {'k': 'app', 'fam': 'one-and-only', 'ft': 'string', 'args': [
                {'k': 'app', 'fam': 'bag', 'ft': 'string', 'args': []}]},
            {'k': 'app', 'fam': self.boom(), 'ft': '', 'args': []},
            {'k': 'app', 'fam': 'equal', 'ft': 'string', 'args': [
                {'k': 'lit', 't': 'string', 'v': 'x'}, {'k': 'lit', 't': 'anyURI', 'v': 'x'}]},
            {'k': 'app', 'fam': 'at-least-one-member-of', 'ft': 'string', 'args': [
                {'k': 'des', 'cat': 'R', 'id': 'urn:a:absent', 't': 'string', 'iss': '', 'mbp': True},
                {'k': 'app', 'fam': 'bag', 'ft': 'string', 'args': []}]}])]

    def simple_target(self, o, cat=None):
        """target with a given outcome on simple_request()"""
        r = self.r
        cat = cat or r.choice('SRA')
        mk = lambda v, **kw: dict({'fam': 'equal', 'ft': 'string', 't': 'string', 'v': v, 'src': {
            'k': 'des', 'cat': cat, 'id': 'urn:a:one', 't': 'string', 'iss': '', 'mbp': False}}, **kw)
        t = {c: [] for c in 'SRAE'}
        if o == 'T':
            t[cat] = r.choice([[[mk('x')]], [[mk('y')], [mk('x')]], [[mk('x'), mk('x')]]])
        elif o == 'F':
            t[cat] = r.choice([[[mk('y')]], [[mk('x'), mk('y')]], [[mk('z')], [mk('y')]]])
        else:
            t[cat] = [[r.choice([mk('x', fam=self.boom(), ft=''), mk('x', t='anyURI'), {
                'fam': 'equal', 'ft': 'string', 't': 'string', 'v': 'x', 'src': {
                    'k': 'des', 'cat': cat, 'id': 'urn:a:absent', 't': 'string', 'iss': '', 'mbp': True}}])]]
        # said more than once, at any length
        if r.random() < .25:
            q = t[cat]
            q += [list(r.choice(q)) for _ in range(r.choice([1, 2, 3, 6]))]
            for a in q:
                if r.random() < .3:
                    a += [r.choice(a) for _ in range(r.choice([1, 2, 4]))]
        return t

    def simple_request(self):
        a = [[{'id': 'urn:a:one', 't': 'string', 'iss': '', 'vals': ['x']}]]
        return {'S': a, 'R': a, 'A': a, 'E': [], 'pip': [], 'doc': []}

    def boom(self):
        return 'custom-raise-' + self.r.choice(EXCS)

    def nid(self, p):
        self.n += 1
        return 'urn:verif:%s:%d' % (p, self.n)

    def rule_for(self, o, eff, tgt=True):
        """rule with effect eff and outcome o (one of Permit Deny NotApplicable Indeterminate)"""
        r = self.r
        if o == 'NotApplicable':
            t, c = r.choice(['', 'T', 'F']), r.choice('TFE')
            if t != 'F':
                c = 'F'
        elif o == 'Indeterminate':
            t, c = r.choice(['', 'T', 'E']), r.choice('TFE')
            if t != 'E':
                c = 'E'
        else:
            t, c = r.choice(['', 'T']), 'T'
        if not tgt and t == 'T':
            t = ''
        return {'id': self.nid('rule'), 'eff': eff, 'tgt': [self.simple_target(t)] if t else [],
                'cond': self.simple_cond(c)}

    def policy_for(self, o):
        """policy with decision o on simple_request()"""
        r = self.r
        alg = r.choice(ALGS)
        tgt = []
        if o in ('NotApplicable', 'Indeterminate') and r.random() < .3:
            tgt = [self.simple_target('F' if o == 'NotApplicable' else 'E')]
            rules = [self.rule_for(e, e) for e in r.choices(['Permit', 'Deny'], k=r.randrange(3))]
        else:
            if r.random() < .3:
                tgt = [self.simple_target('T')]
            if o in ('Permit', 'Deny'):
                rules = [self.rule_for(o, o)]
            elif o == 'NotApplicable':
                rules = [] if r.random() < .3 else [self.rule_for(o, r.choice(['Permit', 'Deny']))]
            else:
                rules = [self.rule_for(o, r.choice(['Permit', 'Deny']))]
        return {'k': 'P', 'id': self.nid('policy'), 'alg': alg, 'tgt': tgt, 'rules': rules}

    def child_for(self, o, depth=1):
        r = self.r
        if depth > 0 and r.random() < .35 and o != 'Indeterminate' or depth > 0 and r.random() < .1:
            if o == 'Indeterminate':
                kids, alg = [self.policy_for(o)], r.choice(['permit-overrides', 'first-applicable'])
                tgt = []
            else:
                kids, alg, tgt = [self.child_for(o, depth - 1)], r.choice(ALGS), []
            return {'k': 'PS', 'id': self.nid('set'), 'alg': alg, 'tgt': tgt, 'kids': kids}
        return self.policy_for(o)

    # ------------------------------------------------------------- full trees
    def rule(self, rq, d=2, doc=False, err=.08):
        r = self.r
        return {'id': self.nid('rule'), 'eff': r.choice(['Permit', 'Deny']),
                'tgt': self.opt_target(rq, .4, doc, err), 'cond': [self.ebool(d, doc, err)] if r.random() < .7 else []}

    def policy(self, rq, nrules=4, d=2, doc=False, err=.08):
        r = self.r
        return {'k': 'P', 'id': self.nid('policy'), 'alg': r.choice(ALGS), 'tgt': self.opt_target(rq, .4, doc, err),
                'rules': [self.rule(rq, d, doc, err) for _ in range(self.size(r.randrange(nrules + 1)))]}

    def tree(self, rq, depth=2, width=3, doc=False, err=.08):
        r = self.r
        if depth == 0 or r.random() < .25:
            return self.policy(rq, 3, 1, doc, err)
        return {'k': 'PS', 'id': self.nid('set'), 'alg': r.choice(ALGS), 'tgt': self.opt_target(rq, .35, doc, err),
                'kids': [self.tree(rq, depth - 1, width, doc, err) for _ in range(self.size(r.randrange(width + 1), .006, hi=10))]}

    def stree(self, depth=3, width=3):
        """tree whose leaves and targets have scripted outcomes on simple_request()"""
        r = self.r
        tgt = [] if r.random() < .5 else [self.simple_target(r.choice('TTTFE'))]
        if depth == 0 or r.random() < .3:
            rules = []
            for _ in range(self.size(r.randrange(4))):
                e = r.choice(['Permit', 'Deny'])
                rules.append(self.rule_for(r.choice([e, e, 'NotApplicable', 'Indeterminate']), e))
            return {'k': 'P', 'id': self.nid('policy'), 'alg': r.choice(ALGS), 'tgt': tgt, 'rules': rules}
        return {'k': 'PS', 'id': self.nid('set'), 'alg': r.choice(ALGS), 'tgt': tgt,
                'kids': [self.stree(depth - 1, width) for _ in range(self.size(r.randrange(width + 1), .006, hi=10))]}

    # --------------------------------------------------------------- functions
    def arg(self, t):
        """direct function argument: value record"""
        r = self.r
        x = r.random()
        if x < .75:
            return {'s': 'av', 't': t, 'v': self.val(t)}
        if x < .85:
            u = r.choice(TYPES)
            return {'s': 'av', 't': u, 'v': self.val(u)}
        if x < .93:
            return self.bagarg(t)
        return {'s': 'bool', 'b': r.random() < .5}

    def bagarg(self, t):
        r = self.r
        if r.random() < .12:
            t = r.choice(TYPES)
        return {'s': 'bag', 't': t, 'vs': [self.val(t) for _ in range(self.size(r.choice([0, 1, 1, 2, 3]), hi=40))]}

    def near(self, t, v):
        """a value that differs little from v, or not at all"""
        r = self.r
        if t not in STR:
            return self.val(t)
        return r.choice([v, v.upper(), v.lower(), v + ' ', ' ' + v, v[:-1], v + v, v.swapcase(), v[::-1], v + '\u00e9', v.replace('a', 'b'),
                         v + '/', v.title(), '0' + v])

    def call(self):
        r = self.r
        fam = r.choice(['equal', 'equal', 'match', 'regexp-match', 'and', 'not', 'bag', 'one-and-only',
                        'at-least-one-member-of', 'concatenate'])
        n2 = lambda n: n if r.random() < .92 else r.choice([0, 1, 2, 3])
        if fam == 'equal':
            ft = r.choice(EQ + ['xpath-node'])
            a = [self.arg('string' if ft == 'xpath-node' else ft) for _ in range(n2(2))]
            if len(a) == 2 and r.random() < .45:
                a[1] = dict(a[0])
                if a[0]['s'] == 'av' and r.random() < .3:
                    a[1]['v'] = self.near(a[0]['t'], a[0]['v'])
        elif fam == 'match':
            ft = r.choice(['x500Name', 'rfc822Name'])
            a = [self.arg(ft) for _ in range(n2(2))]
        elif fam == 'regexp-match':
            ft = r.choice(['string', 'string'] + RE2)
            a = [self.arg(ft) for _ in range(n2(2))]
            if a and r.random() < .8:
                a[0] = {'s': 'av', 't': ft, 'v': r.choice(PATS)}
                if r.random() < .05:
                    a[0]['v'] = r.choice(BADPATS)
        elif fam in ('and', 'not'):
            ft = ''
            n = self.size(r.randrange(4), .03) if fam == 'and' else n2(1)
            a = [{'s': 'bool', 'b': r.random() < .6} if r.random() < .9 else self.arg('string') for _ in range(n)]
        elif fam == 'bag':
            ft = r.choice(BAGT)
            a = [self.arg(ft) for _ in range(self.size(r.randrange(4), .03))]
        elif fam == 'one-and-only':
            ft = r.choice(BAGT)
            a = [self.bagarg(ft) if r.random() < .9 else self.arg(ft) for _ in range(n2(1))]
        elif fam == 'at-least-one-member-of':
            ft = r.choice(BAGT)
            a = [self.bagarg(ft) if r.random() < .93 else self.arg(ft) for _ in range(n2(2))]
            if len(a) == 2 and a[0]['s'] == a[1]['s'] == 'bag' and a[0]['vs'] and r.random() < .3:
                a[1] = {'s': 'bag', 't': a[0]['t'], 'vs': [self.near(a[0]['t'], r.choice(a[0]['vs'])) for _ in range(r.choice([1, 2, 3]))]}
        else:
            ft = r.choice(['string', 'url-string'])
            a = [self.arg('string' if i or ft == 'string' else 'anyURI') for i in range(self.size(r.choice([0, 1, 2, 2, 2, 3, 4]), .03))]
        # XACML booleans: a boolean attribute value given to and/not is left out (DESIGN)
        if fam in ('and', 'not'):
            a = [x for x in a if not (x['s'] == 'av' and x['t'] == 'boolean')]
        return {'fam': fam, 'ft': ft, 'args': a}

    def namespaced(self, d):
        if self.r.random() < .5:
            d['tag'] = '{urn:d}' + d['tag']
        for k in d['kids']:
            self.namespaced(k)

"""C18: histories of data type registrations and uses."""
import random

from w_types import STD, FREE, NAMES

CUSTOM = ['K1', 'K2', 'K3', 'K4', 'K5', 'KS', 'Kx']
NATIVE = {'String': 'str', 'AnyURI': 'str', 'X500Name': 'str', 'Rfc822Name': 'str', 'IpAddress': 'str', 'DnsName': 'str', 'K1': 'str', 'K4': 'str', 'K5': 'str', 'KS': 'str',
          'Integer': 'int', 'HexBinary': 'int', 'K2': 'int', 'Boolean': 'bool', 'Double': 'float', 'Date': 'datetime', 'DateTime': 'datetime',
          'Time': 'datetime', 'DayTimeDuration': 'timedelta', 'YearMonthDuration': 'timedelta', 'K3': 'tuple', 'Base64Binary': 'bytes', 'Kx': 'str'}
VALUES = {'str': ['a', 'b', '7', 'ab', 'AB'], 'int': ['0', '1', '7', '-3'], 'bool': ['true', 'false'], 'float': ['0', '1.5', '7'], 'datetime': ['0', '1', '400'],
          'timedelta': ['0', '1', '25'], 'tuple': ['a', 'a,b', '7'], 'bytes': ['a'], 'none': [''], 'list': ['a'], 'date': [''], 'time': [''], 'object': ['']}
TEXTS = [{'s': '7', 'up': '7', 'int': '7'}, {'s': 'ab', 'up': 'AB', 'int': ''}, {'s': 'a,b', 'up': 'A,B', 'int': ''}, {'s': 'AB', 'up': 'AB', 'int': ''},
         {'s': 'a', 'up': 'A', 'int': ''}, {'s': '-3', 'up': '-3', 'int': '-3'}]
BADID = ['!none', '!int', '!bytes', '!tuple', '!class']
BADC = ['!dict', '!none', '!text', '!instance', '!reader', '!int', '!readerobject']
BADR = ['!dict', '!none', '!text', '!instance', '!value', '!int', '!readerobject']


def history(r, n):
    """registrations and uses; what they lead to is tracked only as far as needed to refer to values"""
    m, rd, h, tr = dict(zip(STD, NAMES)), {i: 'base' for i in STD}, [], []
    ids = r.sample(STD, 3) + r.sample(FREE, 3)
    if r.random() < .3:         # ids that differ in little
        ids = ['urn:k1', 'urn:K1', 'urn:k', STD[0], STD[0].replace('#string', '#String'), 'string']

    def native(c, wrong=.25):
        ty = NATIVE[c] if r.random() > wrong else r.choice(sorted(VALUES))
        if ty == 'bool' and NATIVE[c] == 'int':
            ty = 'float'
        return {'ty': ty, 's': r.choice(VALUES[ty])}

    def read(i, x):
        if i not in m or i not in rd or m[i] == 'Kx':
            return False
        return {'base': 'str', 'upper': 'str', 'int': 'int' if x['int'] else '-', 'pair': 'tuple', 'skip': NATIVE[m[i]]}[rd[i]] == NATIVE[m[i]]
    while len(tr) < n:
        x = r.random()
        i = r.choice(ids)
        if x < .25:
            c = r.choice(CUSTOM * 3 + NAMES)
            o = {'o': 'add', 'id': i, 'c': c, 'ow': r.random() < .4}
            if r.random() < .15:
                o[r.choice(['id', 'c'])] = '!'
                o['id'] = r.choice(BADID) if o['id'] == '!' else o['id']
                o['c'] = r.choice(BADC) if o['c'] == '!' else o['c']
            elif o['ow'] or i not in m:
                m[i] = c
            tr.append(o)
        elif x < .4:
            o = {'o': 'reader', 'id': i, 'r': r.choice(['base', 'base', 'upper', 'int', 'int', 'pair', 'skip'])}
            if r.random() < .15:
                o[r.choice(['id', 'r'])] = '!'
                o['id'] = r.choice(BADID) if o['id'] == '!' else o['id']
                o['r'] = r.choice(BADR) if o['r'] == '!' else o['r']
            else:
                rd[i] = o['r']
            tr.append(o)
        elif x < .48:
            tr.append({'o': 'make', 'id': i})
            if i in m and m[i] != 'Kx':
                h.append(m[i])
        elif x < .56:
            c = r.choice(CUSTOM[:-1] + NAMES + [m[j] for j in ids if j in m])
            o = {'o': 'new', 'c': c, 'a': native(c)}
            tr.append(o)
            if o['a']['ty'] == NATIVE[c] and c not in ('Base64Binary', 'Kx'):
                h.append(c)
        elif x < .66:
            t = r.choice(TEXTS)
            tr.append({'o': 'lit', 'id': i, 'x': t})
            if read(i, t):
                h.append(m[i])
        elif x < .8:
            t = r.choice(TEXTS)
            c = m.get(i, 'K1')
            vs = [native(c, .03) for _ in range(r.randrange(3))]
            ty = NATIVE[c]
            if r.random() < .5 and ty in ('str', 'int', 'tuple') and (ty != 'int' or t['int']):
                vs.insert(r.randrange(len(vs) + 1), {'ty': ty, 's': t['up'] if rd.get(i) == 'upper' else t['s']})
            how = r.choice(['objects', 'objects', 'document'])
            if how == 'document':
                vs = [v for v in vs if v['ty'] == 'str']
            tr.append({'o': 'decide', 'id': i, 'x': t, 'vs': vs, 'how': how})
        elif h:
            j = r.randrange(len(h)) + 1
            y = r.random()
            if y < .4:
                tr.append({'o': 'set', 'i': j, 'a': native(h[j - 1], .4)})
            elif y < .5:
                tr.append({'o': 'type', 'i': j, 's': r.choice(ids + ['!'])})
            elif y < .9:
                tr.append({'o': 'cmp', 'i': j, 'j': r.randrange(len(h)) + 1, 'how': r.choice(['eq', 'ne'])})
            else:
                tr.append({'o': 'cmpx', 'i': j, 'a': native(h[j - 1])})
    return tr


def c18(c):
    r = random.Random('c18/%d' % c.seed)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth=%d UsedIds={%s} UsedClasses={%s} UsedReaders={%s} Emit=TRUE\n' \
          'INVARIANTS TypeSafe OnlyClasses EmitH\nPROPERTIES OthersStay ValuesStay\n'
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    S = STD[0]
    runs = [(3, ['urn:k1', S], ['K1', 'K2', '!dict'], ['int', '!dict']), (2, ['urn:k1', 'urn:K1', S, STD[2]], CUSTOM + ['Integer', '!none'], ['base', 'int', 'upper', '!none'])]
    if c.thorough:
        runs += [(4, ['urn:k1', S], ['K1', 'K2'], ['int'])]
    fs = [c.pool.submit(c.tlc, 'DataTypesMachine', cfg % (d, q(a), q(b), q(e)), heap='6g') for d, a, b, e in runs]
    lines, seen = [], set()
    for f in fs:
        hs = []
        for x in f.result().tagged('@@HIST'):
            if str(x) not in seen:
                seen.add(str(x))
                hs.append(x)
        hs.sort(key=str)
        r.shuffle(hs)
        c.notes['histories_enumerated'] = c.notes.get('histories_enumerated', 0) + len(hs)
        lines += [{'kind': 'types.hist', 'pick': r.randrange(90), 'tr': x} for x in hs[:c.pick(2500, 20000)]]
    # every data type with every kind of native value, set, made with, and compared
    for n in NAMES + CUSTOM:
        tr = []
        for ty in sorted(VALUES):
            if not (ty == 'bool' and NATIVE[n] == 'int'):
                tr.append({'o': 'new', 'c': n, 'a': {'ty': ty, 's': VALUES[ty][0]}})
        lines += [{'kind': 'types.hist', 'pick': k, 'tr': tr} for k in range(4)]
        tr, j = [{'o': 'new', 'c': n, 'a': {'ty': NATIVE[n], 's': VALUES[NATIVE[n]][0]}}], 1
        if n in ('Base64Binary', 'Kx'):
            continue
        for o in NAMES + CUSTOM:
            if o not in ('Base64Binary', 'Kx'):
                j += 1
                tr += [{'o': 'new', 'c': o, 'a': {'ty': NATIVE[o], 's': VALUES[NATIVE[o]][0]}}, {'o': 'cmp', 'i': 1, 'j': j, 'how': r.choice(['eq', 'ne'])},
                       {'o': 'cmp', 'i': j, 'j': 1, 'how': r.choice(['eq', 'ne'])}]
        lines.append({'kind': 'types.hist', 'pick': 0, 'tr': tr})
    for i in range(c.pick(2500, 25000)):
        lines.append({'kind': 'types.hist', 'pick': r.randrange(90), 'tr': history(r, r.choice([4, 8, 14]))})
    r.shuffle(lines)
    res = c.run_both(lines, shards=4)
    for x in lines[-3:]:
        c.sample(x['tr'])
    c.validate('DataTypesTrace', res['lxml'] + res['std'], what='data types')


CHECKS = {'C18': c18}

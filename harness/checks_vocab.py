"""C17: histories of operations on decisions, effects and status codes."""
import random

DEC = ['Permit', 'Deny', 'Indeterminate', 'NotApplicable']
ST = 'urn:oasis:names:tc:xacml:1.0:status:'
WRONG = ['permit', 'PERMIT', ' Permit', 'Deny ', 'Deny\n', '', 'None', 'Not Applicable', 'notApplicable', 'Allow', 'Permi', 'Permits', 'ok', 'True',
         ST, ST + 'OK', ST + 'ok2', 'urn:oasis:names:tc:xacml:2.0:status:ok']
ODD = ['none', 'int', 'bytes', 'true', 'list', 'tuple', 'class', 'object', 'float']
HOW = ['response', 'over', 'permit', 'rule', 'evaluate', 'created', 'created-text', 'assigned', 'document']


def history(r, n):
    kinds = ['D'] * 4 + ['E'] * 2
    tr = []

    def arg(c):
        x = r.random()
        if x < .45:
            return {'t': 'str', 's': ST + r.choice(['ok', 'missing-attribute', 'processing-error', 'syntax-error']) if c == 'S'
                    else r.choice(DEC if c == 'D' or r.random() < .3 else DEC[:2])}
        if x < .65:
            return {'t': 'str', 's': r.choice(WRONG)}
        if x < .75:
            return {'t': 'odd', 's': r.choice(ODD)}
        return {'t': 'obj', 'j': r.randrange(len(kinds)) + 1}

    def add(c, o, ok=True):
        tr.append(o)
        if ok:
            kinds.append(c)
    while len(tr) < n:
        x = r.random()
        c = r.choice('DDEEOS')
        i = r.randrange(len(kinds)) + 1
        if x < .12:
            # refused ones make no slot: only valid values, or invalid ones
            if r.random() < .7:
                v = ST + r.choice(['ok', 'syntax-error']) if c == 'S' else r.choice(DEC if c == 'D' else DEC[:2])
                add(c, {'o': 'new', 'c': c, 'a': {'t': 'str', 's': v}})
            else:
                a = {'t': 'str', 's': r.choice(WRONG)} if r.random() < .6 else {'t': 'odd', 's': r.choice(ODD)}
                add(c, {'o': 'new', 'c': c, 'a': a}, False)
        elif x < .18:
            add(c, {'o': 'make', 'c': c}, c != 'O')
        elif x < .2:
            c, v = r.choice([('D', d) for d in DEC] + [('E', 'Permit'), ('E', 'Deny')])
            add(c, {'o': 'const', 'c': c, 'v': v})
        elif x < .26:
            if kinds[i - 1] != 'S':
                add(kinds[i - 1], {'o': 'copy', 'i': i, 'how': r.choice(['shallow', 'deep', 'pickle'])})
        elif x < .38:
            if r.random() < .7:
                add('D', {'o': 'from', 'c': 'D', 'v': r.choice(DEC), 'how': r.choice(HOW)})
            else:
                add('E', {'o': 'from', 'c': 'E', 'v': r.choice(DEC[:2]), 'how': r.choice(['policy', 'assigned'])})
        elif x < .44:
            j = r.randrange(len(kinds)) + 1
            add('D', {'o': 'made', 'c': 'D', 'j': j}, kinds[j - 1] == 'D')
        elif x < .63:
            tr.append({'o': 'set', 'i': i, 'a': arg(kinds[i - 1])})
        elif x < .65:
            tr.append({'o': 'unset', 'i': i})
        elif x < .7:
            tr.append({'o': 'give', 'c': r.choice('DES'), 'a': arg('D')})
        elif kinds[i - 1] != 'S':
            tr.append({'o': 'cmp', 'i': i, 'a': arg(kinds[i - 1]), 'how': r.choice(['eq', 'eq', 'ne', 'req', 'rne'])})
    return tr


def c17(c):
    r = random.Random('c17/%d' % c.seed)
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth=%d Classes={%s} Emit=TRUE\nINVARIANTS InVocabulary ConstantsStay EmitH\n' \
          'PROPERTY OneAtATime\n'
    fs = [c.pool.submit(c.tlc, 'VocabularyMachine', cfg % (d, ', '.join('"%s"' % k for k in ks)), heap='6g')
          for d, ks in (((2, 'DEOS'),) if not c.thorough else ((2, 'DEOS'), (3, 'DS'), (3, 'EO')))]
    lines, seen = [], set()
    for f in fs:
        hs = [h for h in f.result().tagged('@@HIST') if str(h) not in seen]
        seen.update(map(str, hs))
        hs.sort(key=str)
        r.shuffle(hs)
        c.notes['histories_enumerated'] = c.notes.get('histories_enumerated', 0) + len(hs)
        lines += [{'kind': 'vocab.hist', 'pick': r.randrange(90), 'tr': h} for h in hs[:c.pick(6000, 30000)]]
    for i in range(c.pick(2500, 30000)):
        lines.append({'kind': 'vocab.hist', 'pick': r.randrange(90), 'tr': history(r, r.choice([3, 6, 12, 20]))})
    r.shuffle(lines)
    res = c.run_both(lines, shards=4)
    for x in lines[-3:]:
        c.sample(x['tr'])
    c.validate('VocabularyTrace', res['lxml'] + res['std'], what='vocabulary')


CHECKS = {'C17': c17}

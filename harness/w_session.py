"""Histories and overlapping evaluations on the real code (spec/Session.tla)."""
import hashlib
import io
import json
import sys
import threading

import realize as R
import w_doc


# ------------------------------------------------------------------- scheduling
class Baton(object):
    """Runs threads one at a time.  At every yield point of the running thread decide(i, n)
    names the thread to go on (n: how many yield points thread i has passed)."""
    PATIENCE = 1.0

    def __init__(self, n, decide):
        self.decide = decide
        self.cond = threading.Condition()
        self.turn = 0
        self.live = set(range(n))
        self.steps = [0] * n
        self.free = False       # a thread waits for something another holds: let all run

    def wait(self, i):
        while self.turn != i and not self.free:
            if not self.cond.wait(self.PATIENCE) and self.turn != i:
                self.free = True
                self.cond.notify_all()

    def begin(self, i):
        with self.cond:
            self.wait(i)

    def point(self, i):
        if self.free:
            return
        with self.cond:
            self.steps[i] += 1
            nxt = self.decide(i, self.steps[i])
            if nxt is not None and nxt != i and nxt in self.live:
                self.turn = nxt
                self.cond.notify_all()
                self.wait(i)

    def end(self, i):
        with self.cond:
            self.live.discard(i)
            if self.turn == i and self.live:
                nxt = self.decide(i, -1)
                self.turn = nxt if nxt in self.live else min(self.live)
            self.cond.notify_all()


MARK = '/ndg/xacml/'


def tracer(baton, i, opcodes):
    def local(frame, event, arg):
        if event == 'line' or event == 'opcode':
            baton.point(i)
        return local

    def top(frame, event, arg):
        if MARK in frame.f_code.co_filename:
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return None
    return top


def together(jobs, decide, how, opcodes=False):
    """Runs the jobs overlapped as decide says; returns their results."""
    n = len(jobs)
    baton = Baton(n, decide)
    out = [None] * n
    me = threading.local()

    def run(i):
        me.i = i
        if how == 'free':
            barrier.wait()
            out[i] = guard(jobs[i])
            return
        baton.begin(i)
        try:
            if how == 'lines':
                sys.settrace(tracer(baton, i, opcodes))
            out[i] = guard(jobs[i])
        finally:
            sys.settrace(None)
            baton.end(i)
    barrier = threading.Barrier(n)
    if how == 'gates':
        R.gate = lambda: baton.point(me.i) if hasattr(me, 'i') else None
    try:
        ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        R.gate = None
    return out, baton


def guard(job):
    try:
        return job()
    except Exception as e:
        return [{'dec': 'raised %s: %s' % (type(e).__name__, str(e)[:80]), 'msg': '', 'code': '', 'rid': ''}]


def by_sched(sched):
    """decide function following a sequence of thread numbers, one per yield point"""
    q = list(sched)
    pos = [0]

    def decide(i, n):
        pos[0] += 1
        return q[pos[0]] if pos[0] < len(q) else None
    return decide


def by_plan(plan):
    """decide function switching from thread a after its n-th point to thread b"""
    t = {(a, n): b for a, n, b in plan}
    ends = {a: b for a, n, b in plan if n == -1}

    def decide(i, n):
        return t.get((i, n)) if n != -1 else ends.get(i)
    return decide


# ------------------------------------------------------------------ observations
def txt(x):
    return '' if x is None else str(x)


def show_resp(resp):
    from ndg.xacml.core.context.response import Response
    if not isinstance(resp, Response):
        return [{'dec': 'no response but ' + type(resp).__name__, 'msg': '', 'code': '', 'rid': ''}]
    out = []
    for r in resp.results:
        s = r.status
        out.append({'dec': R.response_obs(one_result(r))['dec'], 'msg': txt(s and s.statusMessage),
                    'code': txt(s and s.statusCode and s.statusCode.value), 'rid': txt(r.resourceId)})
    return out


class one_result(object):
    def __init__(self, r):
        self.results = [r]


def show_attrs(h):
    out = []
    for a in h.attributes:
        t = R.URI_TYPE.get(a.dataType, a.dataType)
        out.append({'id': txt(a.attributeId), 't': t, 'iss': R.d_issuer(a), 'vals': [R.text(t, v.value) for v in a.attributeValues]})
    return out


def show_elem(e):
    return {'tag': e.tag, 'text': e.text or '', 'at': [{'n': k, 'v': v} for k, v in e.attrib.items()], 'kids': [show_elem(k) for k in e]}


def show_request(o, elem):
    one = lambda h: [] if h is None else [show_attrs(h)]
    return {'S': [show_attrs(h) for h in o.subjects], 'R': [show_attrs(h) for h in o.resources], 'A': one(o.action),
            'E': one(o.environment), 'doc': [] if elem is None else [show_elem(elem)]}


def digest(p):
    return hashlib.sha1(json.dumps(w_doc.d_policy(p), sort_keys=True).encode()).hexdigest()[:12]


# ---------------------------------------------------------------------- histories
class World(object):
    def __init__(self, c):
        from ndg.xacml.core.context.pdp import PDP
        self.c = c
        self.policies = [R.load_policy(p, v).policy for p, v in zip(c['pols'], c['load'])]
        self.terms = c['pols']
        self.pdps = []
        for d in c['pdps']:
            pdp = PDP(self.policies[d - 1])
            self.pdps.append(pdp)
        self.rqs, self.elems, self.tabs = [], [], []
        for rq in c['rqs']:
            o = R.mkrequest(dict(rq, doc=[], pip=[]))
            tab = None
            if rq['pip']:
                tab = list(rq['pip'][0]['tab'])
                o.ctxHandler = R.mkhandler(tab, gate=lambda *a: R.at_gate())
            elem = None
            if rq['doc']:
                elem = self.setdoc(o, rq['doc'][0])
            self.rqs.append(o)
            self.elems.append(elem)
            self.tabs.append(tab)
        self.resps = []

    def setdoc(self, o, d):
        from ndg.xacml import importElementTree
        from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
        elem = importElementTree().fromstring(R.xmldoc(d))
        o.attributeSelector = EtreeXPathSelector(elem)
        return elem

    def holder(self, op):
        o, cat = self.rqs[op['r'] - 1], op['cat']
        if cat in 'SR':
            return (o.subjects if cat == 'S' else o.resources)[op['i'] - 1]
        return o.action if cat == 'A' else o.environment

    def do(self, op, ob):
        k = op['o']
        if k == 'eval':
            resp = self.pdps[op['d'] - 1].evaluate(self.rqs[op['r'] - 1])
            self.resps.append(resp)
            ob['new'] = show_resp(resp)
            ob['new'] = [ob['new']]
        elif k == 'par':
            ob['vecs'] = self.overlap(op)
        elif k == 'vals':
            a = self.holder(op).attributes[op['j'] - 1]
            new = [R.mkvalue(R.URI_TYPE.get(a.dataType, a.dataType), v) for v in op['vals']]
            if op.get('how') == 'inplace' and len(new) == len(a.attributeValues):
                for v, x in zip(a.attributeValues, new):
                    v.value = x.value
            else:
                while len(a.attributeValues):
                    a.attributeValues.pop()
                for v in new:
                    a.attributeValues.append(v)
        elif k == 'iss':
            self.holder(op).attributes[op['j'] - 1].issuer = R.issuer(op)
        elif k == 'attrs':
            h = self.holder(op)
            del h.attributes[:]
            R.fill(h, op['attrs'])
        elif k == 'cat':
            o = self.rqs[op['r'] - 1]
            if op['cat'] == 'S':
                del o.subjects[:]
            elif op['cat'] == 'R':
                del o.resources[:]
            R.fill_request(o, dict({c: [] for c in 'SRAE'}, **{op['cat']: op['q']}))
        elif k == 'pip':
            self.tabs[op['r'] - 1][:] = op['tab']
        elif k == 'doc':
            self.edit_doc(op)
        elif k == 'pol':
            pdp, i = self.pdps[op['d'] - 1], op['p'] - 1
            if op.get('how') == 'source' and R.xml_ok(self.terms[i]):
                from ndg.xacml.parsers.etree.factory import ReaderFactory
                from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
                pdp.setPolicyFromSource(io.BytesIO(R.x_policy(self.terms[i], R.Style()).encode()), ReaderFactory,
                                        UrlPolicyFinder('/nonexistent'))
            else:
                pdp.policy = self.policies[i]
        else:
            self.edit_resp(k, op, ob)

    def edit_doc(self, op):
        i = op['r'] - 1
        if op.get('how') == 'inplace' and self.elems[i] is not None:
            R.redoc(self.elems[i], op['doc'])
        else:
            self.elems[i] = self.setdoc(self.rqs[i], op['doc'])

    def edit_resp(self, k, op, ob):
        from ndg.xacml.core.context.result import Decision, Result
        resp = self.resps[op['k'] - 1]
        const = {'Permit': Decision.PERMIT, 'Deny': Decision.DENY, 'NotApplicable': Decision.NOT_APPLICABLE,
                 'Indeterminate': Decision.INDETERMINATE}
        if k == 'rdec':
            if op.get('how') == 'fresh':
                d = Decision()
                d.value = op['dec']
                resp.results[0].decision = d
            else:
                resp.results[0].decision = const[op['dec']]
        elif k == 'rval':
            try:
                resp.results[0].decision.value = op['dec']
            except Exception as e:
                ob['raised'] = True
        elif k == 'rmsg':
            resp.results[0].status.statusMessage = op['msg']
        elif k == 'rcode':
            resp.results[0].status.statusCode.value = op['code']
        elif k == 'rdrop':
            del resp.results[:]
        elif k == 'radd':
            resp.results.append(Result.createInitialised(decision=const[op['dec']]))

    # -------------------------------------------------------------- overlapping
    def overlap(self, op):
        jobs = [lambda e=e: show_resp(self.pdps[e['d'] - 1].evaluate(self.rqs[e['r'] - 1])) for e in op['es']]
        vecs = []

        def take(v):
            if v not in vecs:
                vecs.append(v)
        if op['mode'] == 'gates':
            for s in op['scheds']:
                take(together(jobs, by_sched([t - 1 for t in s]), 'gates')[0])
        elif op['mode'] == 'free':
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            try:
                for _ in range(op['reps']):
                    take(together(jobs, None, 'free')[0])
            finally:
                sys.setswitchinterval(old)
        else:
            # how many yield points each job has when nothing overlaps with it
            v, b = together(jobs, lambda i, n: None, 'lines', op.get('opcodes', False))
            take(v)
            steps = b.steps
            for plan in op['plans']:
                p = [(a, -1 if f < 0 else 1 + int(f * max(0, steps[a] - 1)), t) for a, f, t in plan]
                take(together(jobs, by_plan(p), 'lines', op.get('opcodes', False))[0])
        return vecs

    def shown(self):
        return {'pols': [digest(p) for p in self.policies], 'rqs': [show_request(o, e) for o, e in zip(self.rqs, self.elems)],
                'resps': [show_resp(r) for r in self.resps]}


def hist(c, env):
    w = World(c)
    pols0 = w.shown()['pols']
    obs = []
    for op in c['ops']:
        ob = {'raised': False, 'd': '', 'new': [], 'vecs': []}
        try:
            w.do(op, ob)
        except Exception as e:
            ob['raised'], ob['d'] = True, '%s: %s' % (type(e).__name__, str(e)[:150])
        if op['o'] == 'eval' and ob['new']:
            ob['new'] = ob['new'][0]
        ob.update(w.shown())
        obs.append(ob)
        if ob['raised'] and op['o'] != 'rval':
            while len(obs) < len(c['ops']):
                obs.append(ob)
            break
    return {'obs': obs, 'pols0': pols0}


KINDS = {'session.hist': hist}

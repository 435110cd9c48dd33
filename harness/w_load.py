"""Loads of document sets on the real code (spec/PolicyLoad.tla)."""
import http.server
import io
import json
import os
import shutil
import sys
import tempfile
import threading
from xml.sax.saxutils import escape, quoteattr

import realize as R


class Server(object):
    one = None

    def __init__(self):
        self.docs = {}
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                d = outer.docs.get(self.path)
                if d is None:
                    self.send_error(404)
                    return
                self.send_response(200)
                self.end_headers()
                self.wfile.write(d)

            def log_message(self, *a):
                pass
        self.http = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
        t = threading.Thread(target=self.http.serve_forever)
        t.daemon = True
        t.start()
        self.host = 'http://127.0.0.1:%d' % self.http.server_address[1]


HOST = 'http://H0'


def xml(nd, sub, root=True):
    ns = ' xmlns="%s"' % R.POLICY_NS if root else ''
    if nd['k'] in ('rP', 'rPS'):
        t = 'PolicyIdReference' if nd['k'] == 'rP' else 'PolicySetIdReference'
        return '<%s%s>%s</%s>' % (t, ns, escape(sub(nd['id'])), t)
    d = '<Description>%s</Description><Target/>' % escape(nd['m'])
    if nd['k'] == 'P':
        return '<Policy%s PolicyId=%s RuleCombiningAlgId="%sdeny-overrides">%s<Rule RuleId="r" Effect="Permit"/></Policy>' % (
            ns, quoteattr(sub(nd['id'])), R.RULE_ALG, d)
    if nd['k'] == 'PS':
        return '<PolicySet%s PolicySetId=%s PolicyCombiningAlgId="%sdeny-overrides">%s%s</PolicySet>' % (
            ns, quoteattr(sub(nd['id'])), R.POL_ALG, d, ''.join(xml(k, sub, False) for k in nd['kids']))
    return '<%s%s/>' % (nd['k'], ns)       # not a policy document


def dump(p, back):
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    if isinstance(p, Policy):
        return {'k': 'P', 'id': back(p.policyId), 'm': str(p.description), 'kids': []}
    if isinstance(p, PolicySet):
        return {'k': 'PS', 'id': back(p.policySetId), 'm': str(p.description), 'kids': [dump(k, back) for k in p.policies]}
    return {'k': 'odd ' + type(p).__name__, 'id': '', 'm': '', 'kids': []}


def dict_finder(docs, before=None):
    from ndg.xacml.finder.policyfinderbase import PolicyFinderBase
    from ndg.xacml.core.policybase import PolicyBase
    from ndg.xacml.parsers import XMLParseError

    class DictFinder(PolicyFinderBase):
        def get(self, m, ref, common):
            if ref not in m:
                if ref not in docs:
                    raise XMLParseError('not found')
                if before:
                    before(ref)
                PolicyBase.fromNestedSource(io.BytesIO(docs[ref]), common)
            return m[ref]

        def findPolicy(self, ref, common):
            return self.get(self.policyMap, ref, common)

        def findPolicySet(self, ref, common):
            return self.get(self.policySetMap, ref, common)
    return DictFinder()


def lay(ld, base, srv, sub):
    """puts the documents where they are to be found; returns those kept in memory"""
    mem = {}
    for n in os.listdir(base):
        p = os.path.join(base, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    srv.docs.clear()
    for q in ('', '/p', '/p/q', '/z', '/p#q', '/%61', '/p q%'):
        os.makedirs(base + q + '/sub')
    for d in ld['docs']:
        data = xml(d['node'], sub).encode()
        if ld['finder'] == 'dict':
            mem[sub(d['u'])] = data
        elif d['u'].startswith(HOST):
            srv.docs[d['u'][len(HOST):]] = data
        else:
            p = sub(d['u'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)
    return mem


def decoys(ld, base, sub):
    """goes to a directory with other documents under the names of those of a load"""
    for d in ld['docs']:
        if not d['u'].startswith('/B0/'):
            continue
        q = sub(d['u'])[len(sub('/B0')) + 1:].split('/')
        for i in range(len(q)):
            p = os.path.join(base, *q[i:])
            if not os.path.exists(p) and not any(os.path.isfile(os.path.join(base, *q[i:k])) for k in range(i + 1, len(q))):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(xml(dict(d['node'], m='decoy'), sub).encode())
    os.chdir(base)


def arguments(ld, mem, sub, before=None):
    """the arguments of a load, and the file opened for it"""
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
    f = None
    if ld['finder'] == 'dict':
        src = io.BytesIO(mem[ld['top']])
    elif ld['src'] == 'path':
        src = sub(ld['top'])
    elif ld['src'] == 'rel':
        os.chdir(os.path.dirname(os.path.dirname(sub(ld['top']))))
        src = os.path.relpath(sub(ld['top']))
    elif ld['src'] == 'file':
        src = f = open(sub(ld['top']), 'rb')
    else:
        with open(sub(ld['top']), 'rb') as g:
            src = io.BytesIO(g.read())
    if ld['default']:
        args = (src, ReaderFactory)
    else:
        b = ld['base'] and sub(ld['base']) + ld.get('slash', '')
        finder = dict_finder(mem, before) if ld['finder'] == 'dict' else LocalPolicyFinder() if ld['finder'] == 'local' \
            else UrlPolicyFinder(b or None)
        args = (src, ReaderFactory, finder)
    return args, f


def loads(c, env):
    from ndg.xacml.core.context.pdp import PDP
    if Server.one is None:
        Server.one = Server()
    srv = Server.one
    base = os.path.realpath(tempfile.mkdtemp())
    srv.docs.clear()

    def sub(x):
        return x.replace('/B0', base).replace(HOST, srv.host)

    def back(x):
        return str(x).replace(base, '/B0').replace(srv.host, HOST)
    kept = PDP()
    obs = []
    cwd = os.getcwd()
    try:
        for ld in c['loads']:
            mem = lay(ld, base, srv, sub)
            f, there = None, tempfile.mkdtemp()
            try:
                if ld['finder'] != 'dict':
                    decoys(ld, there, sub)
                args, f = arguments(ld, mem, sub)
                if ld['pdp'] == 'set':
                    kept.setPolicyFromSource(*args)
                    t = dump(kept.policy, back)
                else:
                    t = dump(PDP.fromPolicySource(*args).policy, back)
                ob = {'ok': True, 'd': '', 'tree': t}
            except Exception as e:
                ob = {'ok': False, 'd': '%s: %s' % (type(e).__name__, str(e)[:150])}
            finally:
                os.chdir(cwd)
                shutil.rmtree(there)
                if f:
                    f.close()
            ob['after'] = [] if kept.policy is None else [dump(kept.policy, back)]
            obs.append(ob)
    finally:
        os.chdir(cwd)
        shutil.rmtree(base)
    return {'obs': obs}


def overlapping(c, env):
    """loads that overlap: each in a thread of its own, or each from within the one before"""
    import w_session
    from ndg.xacml.core.context.pdp import PDP
    if Server.one is None:
        Server.one = Server()
    bases = [os.path.realpath(tempfile.mkdtemp()) for _ in c['loads']]

    def job(i):
        ld, base = c['loads'][i], bases[i]

        def sub(x):
            return x.replace('/B0', base)

        def run(before=None):
            f = None
            try:
                args, f = arguments(ld, mems[i], sub, before)
                return {'ok': True, 'd': '', 'tree': dump(PDP.fromPolicySource(*args).policy, lambda x: str(x).replace(base, '/B0'))}
            except Exception as e:
                return {'ok': False, 'd': '%s: %s' % (type(e).__name__, str(e)[:150]), 'tree': []}
            finally:
                if f:
                    f.close()
        return sub, run
    vecs = []

    def take(v):
        if v not in vecs:
            vecs.append(v)
    try:
        jobs = [job(i) for i in range(len(bases))]
        mems = [lay(ld, b, Server.one, j[0]) for ld, b, j in zip(c['loads'], bases, jobs)]
        runs = [j[1] for j in jobs]
        n = len(runs)
        if c['mode'] == 'nest':
            # at its k-th fetch each load has the next one done, in this thread or another
            for k in c['at']:
                out = [None] * n

                def start(i):
                    seen = [0]

                    def before(ref):
                        seen[0] += 1
                        if seen[0] == k and i + 1 < n and out[i + 1] is None:
                            t = threading.Thread(target=start, args=(i + 1,)) if c['thread'] else None
                            if t:
                                t.start()
                                t.join()
                            else:
                                start(i + 1)
                    r = runs[i](before)
                    out[i] = r
                start(0)
                for i in range(n):
                    if out[i] is None:
                        start(i)
                take(out)
        elif c['mode'] == 'free':
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            try:
                for _ in range(c['reps']):
                    take(w_session.together(runs, None, 'free')[0])
            finally:
                sys.setswitchinterval(old)
        else:
            v, b = w_session.together(runs, lambda i, m: None, 'lines')
            take(v)
            steps = b.steps
            for plan in c['plans']:
                p = [(a, -1 if f < 0 else 1 + int(f * max(0, steps[a] - 1)), t) for a, f, t in plan]
                take(w_session.together(runs, w_session.by_plan(p), 'lines')[0])
    finally:
        for b in bases:
            shutil.rmtree(b)
    return {'vecs': vecs}


def limited(c, env):
    # reference cycles end by running out of stack, which takes time quadratic in its size
    n = sys.getrecursionlimit()
    sys.setrecursionlimit(500)
    try:
        return loads(c, env) if c['kind'] == 'load.seq' else overlapping(c, env)
    finally:
        sys.setrecursionlimit(n)


KINDS = {'load.seq': limited, 'load.par': limited}

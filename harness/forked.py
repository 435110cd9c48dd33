"""Runs a case in a forked child, so that process-wide state it changes stays there."""
import json
import os
import signal
import traceback


def run(fn, c):
    warm()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = fn(c)
            except BaseException as e:
                tb = traceback.format_exc().splitlines()
                res = {'__fail__': '%s: %s | %s' % (type(e).__name__, str(e)[:200], ' '.join(x.strip() for x in tb[-6:-1])[:600])}
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    res = json.loads(data) if data else {'__fail__': 'no result from the forked case'}
    if '__fail__' in res:
        raise CaseFailed(res['__fail__'])
    return res


class CaseFailed(Exception):
    pass


_warm = False


def warm():
    """Import everything once, so that the children need not (no registry is touched)."""
    global _warm
    if _warm:
        return
    _warm = True
    import importlib
    import pkgutil
    import ndg.xacml
    for name in ('ndg.xacml.core', 'ndg.xacml.core.functions.v1', 'ndg.xacml.core.functions.v2', 'ndg.xacml.core.context',
                 'ndg.xacml.parsers.etree', 'ndg.xacml.parsers', 'ndg.xacml.utils', 'ndg.xacml.finder',
                 'ndg.xacml.parsers.etree.context', 'ndg.xacml.parsers.etree.identifier'):
        try:
            pkg = importlib.import_module(name)
        except ImportError:
            continue
        for m in pkgutil.iter_modules(getattr(pkg, '__path__', [])):
            try:
                importlib.import_module(name + '.' + m.name)
            except Exception:
                pass

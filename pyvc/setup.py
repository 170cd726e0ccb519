"""Install contracts (callee summaries) before running harnesses."""
from . import core, rt, session
import z3


def prepare(pid):
    from . import symg
    symg.install_patches()
    from . import num
    num.install()
    if pid in ('P08', 'P09'):
        from . import ccg
        ccg.install()


def before(h):
    rt.LOOPS.clear()
    from . import symg
    symg.RAW.clear()
    symg.restore()
    if h.get('loops'):
        rt.LOOPS.update(h['loops']() if callable(h['loops']) else h['loops'])


def canary():
    """The prover must refute a false claim and prove a true one."""
    def bad(g, m):
        x = g.int('x')
        m.true(x * x >= 0, 'true')
        m.true(x > 3, 'false')
    r = session.run_harness('canary', bad)
    ob = {k.split(':')[1]: v['status'] for k, v in r['obligations'].items()}
    return ob.get('false') == 'refuted' and ob.get('true') == 'proved'

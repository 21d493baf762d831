"""Second opinion for solver queries: cvc5 on the SMT-LIB text of a query."""
import time

from . import core
import z3


def _smt2(ctx, extra):
    s = z3.Solver()
    for a in ctx.solver.assertions():
        s.add(a)
    s.add(extra)
    return s.to_smt2()


def cvc5_check(text, timeout_ms=20000):
    import cvc5
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    slv.setOption('tlimit-per', str(timeout_ms))
    slv.setLogic('ALL')
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
    sm = p.getSymbolManager()
    res = None
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        r = c.invoke(slv, sm)
        r = str(r).strip()
        if r in ('sat', 'unsat', 'unknown'):
            res = r
    return res


def unsat(ctx, neg, timeout_ms=20000):
    t0 = time.time()
    try:
        r = cvc5_check(_smt2(ctx, neg), timeout_ms)
    except Exception:
        r = None
    ctx.stats['cvc5_queries'] = ctx.stats.get('cvc5_queries', 0) + 1
    ctx.stats['cvc5_s'] = ctx.stats.get('cvc5_s', 0.0) + time.time() - t0
    return r == 'unsat'

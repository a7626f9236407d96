"""P11: concurrent operations never deadlock on each other's locks."""
from ..locks import Locks

RULE = ("Guard-liveness dataflow over the MIR of every function that takes a lock (std, parking_lot, tokio, DashMap), with interprocedural "
        "acquisition summaries (paths of fields substituted from caller to callee, closures and coroutines included): (1) no lock is waited for "
        "while a guard of the same lock is alive; (2) the order graph 'B is waited for while A is held' over the lock fields has no cycle; (3) no "
        "blocking guard (std, parking_lot, DashMap) is alive at a suspension point. Obligation = lock acquisition or suspension point.")


def run(ctx):
    r = ctx.r
    r.rule = RULE
    L = Locks(ctx.P)
    L.run()
    for k, m in L.bad:
        r.violation(k, m)
    for a, b, w in L.cycles():
        r.violation("lock order cycle: %s -> %s" % (a, b), "%s is waited for while %s is held at %s, and elsewhere the other way round" % (b, a, w))
    r.obligation("%d acquisitions and %d suspension points in %d functions, %d ordered pairs of locks: %s" % (
        L.nlock, L.nyield, len(L.fns), len(L.edges), "; ".join("%s -> %s" % e for e in sorted(L.edges))), L.nlock + L.nyield)
    r.fns |= set(f.path for f in L.fns)
    r.assumptions.append("locks are identified by the field that owns them; two instances of one type count as the same lock")
    r.floor("lock acquisitions", L.nlock, 80)
    r.floor("functions that take locks", len(L.direct), 40)

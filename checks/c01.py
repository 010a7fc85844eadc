"""The concurrent counting functions are analysed whole: the public function, the reader's
readAll with the tasks it starts on its pool, the counting callback run by those tasks, the
exit guard.  Every access to a variable of the calling function that a task also uses is
collected with the locks held (per-position locks compared by the index expression that selects
them), the guards on its path and its place in the fork/join structure.  Two accesses that may
touch the same object, one of them a change, must be ordered by fork/join, share a lock, or be
separated by the publication of an atomic flag or by a wait whose condition excludes the other
side's guard.  What the calling thread writes after the tasks were started and tasks read
must be published by such a flag or wait: a common lock alone does not order them."""
import conc
import race
from conc import *

R1 = "conflicting accesses of caller and tasks are synchronised"
R2 = "values written after the tasks were started are published before tasks use them"


def check(ctx):
    tasks = [lambda c, r=r, f=f: one(c, r, f) for r, f in counting_functions()]
    ctx.require(tasks, "no concurrent counting function found")
    ctx.parallel(tasks)


def one(ctx, reader, f):
    deep = reader == READERS[0] and "float, true" in f["key"]
    E = analyse(ctx, f, opaque=() if deep else PURE)
    if E is None:
        return
    shared = own_locals(E)
    ctx.count("shared variables of the caller", len(shared))
    if not shared:
        ctx.und(R1, where(f), "no variable shared with tasks found")
        return
    rs = race.analyse_races(E, lambda r, st: r in shared or r.op == "root" and r.args[0] in ("global", "static"))
    ctx.count("concurrent pairs of accesses", len(rs))
    written = {}
    for r in rs:
        report(ctx, R1, E, r, f)
        for a, b in ((r.a, r.b), (r.b, r.a)):
            if a.w and a.e.thread == 0 and b.e.thread != 0 and not b.w and not b.atomic and not a.atomic and len(b.e.stack or ()) >= 0:
                written.setdefault((a.loc, a.e.at, b.e.at), []).append((a, b, r))
    for (loc, _, _), prs in sorted(written.items(), key=lambda x: str(x[0])):
        # reads of the waiting loop itself (tests before the phase ended) are excluded: only values
        good = bad = None
        for a, b, r in prs:
            if race.published(E, a, b) or race.phase(E, a, b) or r.how in ("published", "phase"):
                good = (a, b)
            else:
                bad = (a, b, r)
        if bad:
            a, b, r = bad
            if control_only(E, b):
                continue
            ctx.bad(R2, short(b.e.at), "%s is written at %s after the tasks were started, and the task reading it at %s has not waited for the write" %
                    (name(a), short(a.e.at), short(b.e.at)), key="%s:publish" % name(a))
        elif good:
            ctx.ok(R2, short(good[1].e.at), "%s written at %s" % (name(good[0]), short(good[0].e.at)))


def control_only(E, b):
    """sizes tested under the lock (guards of a phase) are not values that need publishing"""
    return b.e.kind == "cop" and str(b.e.val) in ("size", "empty")

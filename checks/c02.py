"""The threaded and the two-pass reader are analysed inside the counting functions that drive
them (readAll, the tasks it starts, header parsing, frame assembly, the deferred completion).
Every access to an object reached from the reader is collected with the locks held, its guards
and its place in the fork/join structure; two accesses that may touch the same object, one of
them a change, must share a lock (for locks kept per element: the same element's lock), or be
ordered: fork/join, the last of the increments of an atomic counter, a number handed out once,
an initialisation tested under its lock.  An unsynchronised pair on the readers' bookkeeping
(containers, cached frames, scan maps, counters, file handles) is a violation.  So is memory of a
new frame that is cleared or copied to again after its pointer was stored where other tasks find
it, unless everybody who uses it through that pointer holds the same lock."""
import conc
import race
from conc import *

R1 = "conflicting accesses to reader state are synchronised"
R2 = "new frame is finished before other tasks can reach it"


def check(ctx):
    tasks = [lambda c, r=r, f=f: one(c, r, f) for r, f in counting_functions(targs=("float, true",))]
    ctx.require(tasks, "no function driving a concurrent reader found")
    ctx.parallel(tasks)


def one(ctx, reader, f):
    E = analyse(ctx, f, opaque=PURE)
    if E is None:
        return
    p = f["params"][0]["n"]
    rs = race.analyse_races(E, lambda r, st: under(r, p))
    ctx.count("concurrent pairs of accesses", len(rs))
    objs = set()
    for r in rs:
        report(ctx, R1, E, r, f)
        objs.add(name(r.a))
    ctx.count("objects under concurrent access", len(objs))
    ps = race.changed_after_publication(E, lambda r: under(r, p))
    for pub, w, use, n in ps:
        d = "%s: memory made available to the other tasks at %s is changed again at %s" % (reader, short(pub.at), short(w.at))
        if use is not None:
            ctx.bad(R2, short(w.at), d + " while another task may already use it at %s" % short(use.at), key="published:%s" % reader)
        elif n:
            ctx.ok(R2, short(w.at), d + ", under a lock all its users hold")
        else:
            ctx.und(R2, short(w.at), d)
    if not ps:
        ctx.ok(R2, where(f), "%s: nothing is changed in new memory once it is available to other tasks" % reader)
    if not rs:
        ctx.und(R1, where(f), "no concurrent accesses to reader state found")

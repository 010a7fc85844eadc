"""The two-pass reader is analysed inside the counting function that drives it.  For every read
from a file that several tasks reach through the recorded sector locations: the same task has
positioned that same file before, one lock is held from the positioning to the read without
interruption, that lock is the file's own (it is part of the same object as the stream) or one
common to all files, and the position is the offset recorded in the location the stream was
taken from.  For the recording side: the stored offset is the position of the stream of the file
that is stored with it, taken after the header was read and before anything else is done with
the stream."""
import race
from conc import *

R1 = "file is positioned and read under one uninterrupted lock"
R2 = "the lock belongs to the file"
R3 = "the position is the recorded offset of the same location"
R4 = "recorded offset is the stream position right after the header"


def check(ctx):
    tasks = [lambda c, r=r, f=f: one(c, r, f) for r, f in counting_functions(readers=READERS[1:], targs=("float, true",))]
    ctx.require(tasks, "no function driving the two-pass reader found")
    ctx.parallel(tasks)


def parent(l):
    """object a unique_ptr pointee / member belongs to"""
    while isinstance(l, type(ZERO)) and l.op == "loc" and l.args[1] in ("->", "."):
        l = l.args[0]
    return l


def base_of_value(t, field=None):
    """location v was loaded from"""
    if isinstance(t, type(ZERO)) and t.op == "val":
        return t.args[0]
    return None


def ticketed(loc):
    return any(isinstance(x, type(ZERO)) and x.op == "armw" for x in subterms(loc)) and loc_root(loc).op != "deref" or False


def loc_root(l):
    return steps(l)[0]


def one(ctx, reader, f):
    E = analyse(ctx, f, opaque=PURE)
    if E is None:
        return
    ios = [e for e in E.events if e.kind == "io" and e.thread and E.threads[e.thread].get("multi")]
    offs = {}
    nread = 0
    for e in ios:
        if e.val not in ("read", "get", "getline", "readsome"):
            continue
        r, st = steps(e.loc)
        # through a pointer stored in the scan map (several tasks may hold the same one)
        ptrs = [x for x in [r] + list(subterms(r)) if isinstance(x, type(ZERO)) and x.op == "deref"]
        src = None
        for x in ptrs:
            v = x.args[0]
            if isinstance(v, type(ZERO)) and v.op == "val" and v.args[0].op == "loc":
                src = v.args[0]
                break
        if src is None or not any(s.args[1] in ("[]", "kv") for s in steps(src)[1]):
            continue
        nread += 1
        prior = [s for s in ios if s.thread == e.thread and s.seq < e.seq and s.loc is e.loc and s.val in ("seekg", "seekpos", "pubseekpos")
                 and tuple(s.loops) == tuple(e.loops)[:len(s.loops)] and all(l in e.pc for l in s.pc)]
        if not prior:
            ctx.bad(R1, short(e.at), "the file is read without the same task having positioned it", key="unpositioned")
            continue
        s = prior[-1]
        held = [l for l in s.locks if l in e.locks]
        for l in list(held):
            if any(u.kind == "unlock" and u.loc is l and s.seq < u.seq < e.seq and u.thread == e.thread for u in E.events):
                held.remove(l)
        at = "%s -> %s" % (short(s.at), short(e.at))
        if not held:
            ctx.bad(R1, at, "no lock is held from the positioning at %s to the read at %s" % (short(s.at), short(e.at)), key="unlocked")
            continue
        ctx.ok(R1, at, "lock held throughout")
        own = [l for l in held if parent(l) is parent(e.loc)]
        common = [l for l in held if not any(x.args[1] in ("[]", "kv", "->") for x in steps(l)[1][1:]) and stable_root(l)]
        if own or common:
            ctx.ok(R2, at, "lock of the object that holds the stream" if own else "one lock for all files")
        else:
            ctx.bad(R2, at, "the lock held (%s) is not the one of the file that is read" % str(held[0])[-80:], key="lock owner")
        # other operations that move the file in between
        for m in ios:
            if m.thread == e.thread and s.seq < m.seq < e.seq and m.loc is e.loc and m.val not in ("read", "good", "eof", "fail", "tellg", "gcount") and m is not s:
                ctx.und(R3, short(m.at), "%s between positioning and read" % m.val)
        a = [x for x in s.x.get("args") or () if isinstance(x, type(ZERO))]
        if len(a) >= 1:
            v = a[0]
            if v.op == "val" and v.args[0].op == "loc":
                o = v.args[0]
                if o.args[0] is src.args[0]:
                    ctx.ok(R3, short(s.at), "offset of the location holding the stream")
                    offs[o.args[2]] = src.args[2]
                else:
                    ctx.bad(R3, short(s.at), "the position comes from %s, the file from %s" % (str(o)[-60:], str(src)[-60:]), key="offset source")
            elif len(a) == 1 and not any(isinstance(x, type(ZERO)) and x.op == "val" and x.args[0].op == "loc" and x.args[0].args[0] is src.args[0]
                                         for x in subterms(v)):
                ctx.bad(R3, short(s.at), "the position (%s) does not come from the recorded location" % str(v)[:60], key="offset source")
            else:
                ctx.bad(R3, short(s.at), "the position is not the recorded offset itself: %s" % str(v)[-80:], key="offset changed")
    ctx.count("reads of recorded sectors", nread)
    if not nread:
        ctx.und(R1, where(f), "no reads through recorded locations found")
    record(ctx, E, ios, offs)


def stable_root(l):
    r = steps(l)[0]
    return r.op in ("root", "deref") and not any(isinstance(x, type(ZERO)) and x.op in ("k", "phi", "armw", "u") for x in subterms(r))


def record(ctx, E, ios, offs):
    n = 0
    for e in E.events:
        v = None
        if e.kind == "write":
            v = e.val
        elif e.kind == "call" and "operator=" in str(e.x.get("name")) and e.x.get("args"):
            v = e.x["args"][0]
        if v is None or not isinstance(e.loc, type(ZERO)) or e.loc.op != "loc" or e.loc.args[1] != "." or e.loc.args[2] not in offs or not e.thread:
            continue
        n += 1
        base = e.loc.args[0]
        t = v if isinstance(v, type(ZERO)) else None
        if t is None or t.op != "io" or t.args[0] != "tellg":
            if t is not None and any(isinstance(x, type(ZERO)) and x.op == "io" and x.args[0] == "tellg" for x in subterms(t)):
                ctx.bad(R4, short(e.at), "the recorded offset is not the stream position itself: %s" % str(t)[:80], key="recorded offset")
            else:
                ctx.und(R4, short(e.at), "recorded offset %s" % str(t)[:60])
            continue
        stream = t.args[1]
        # the file stored with it
        fw = [w for w in E.events if w.kind == "write" and w.thread == e.thread and isinstance(w.loc, type(ZERO)) and w.loc.op == "loc" and
              w.loc.args[0] is base and w.loc.args[2] == offs[e.loc.args[2]]]
        if fw:
            tgt = E.deref(fw[-1].val) if isinstance(fw[-1].val, type(ZERO)) else None
            if tgt is parent(stream):
                ctx.ok(R4, short(e.at), "position of the stream of the recorded file")
            else:
                ctx.bad(R4, short(e.at), "the offset belongs to %s, the recorded file is %s" % (str(parent(stream))[-60:], str(tgt)[-60:]), key="recorded file")
        else:
            ctx.und(R4, short(e.at), "the file is not recorded in the same task")
        mine = [m for m in ios if m.thread == e.thread and m.loc is stream]
        tell = [m for m in mine if m.val == "tellg" and m.seq <= e.seq]
        before = [m for m in mine if tell and m.seq < tell[-1].seq and m.val not in ("tellg", "peek", "good", "eof")]
        if not tell or not before or before[-1].val != "read":
            ctx.bad(R4, short(e.at), "the position is not taken right after the header was read (last operation: %s)" % (before[-1].val if before else "none"),
                    key="recorded too late")
        else:
            ctx.ok(R4, short(e.at), "taken after the header was read")
    if not n and offs:
        ctx.und(R4, "record", "no place found that records offsets")

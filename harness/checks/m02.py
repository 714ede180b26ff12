"""M02: v3 responses reach only the request that caused them."""
import time
import weakref

from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, require, same

from snmp.message.v3 import SNMPv3MessageProcessor
from snmp.security.usm import UserBasedSecurityModule
from snmp.utils import NumberGenerator

from harness import conv, gen, ref, usmconf as uc, usmref as ur
from harness.checks.m01 import Handle

RULE = ("histories of sends, deliveries, completions and dropped handles on a v3 processor with a "
        "real USM and users, engines and contexts with similar names; deliveries are correctly secured responses, "
        "reports and other PDUs that differ from the right answer in a generated set of fields "
        "(message id, user, level, engine id, context engine id, context name); hundreds of pending messages; non-trivial = one "
        "message was matched and another refused while requests were pending")
ASSUMPTIONS = ["whether a report must repeat the context name is left open",
               "message ids of non-confirmed PDUs are not covered (the library does not support "
               "sending them)"]

ENGINES = [b"\x80agent-one", b"\x80agent-two", b"\x80agent-one\0", b""]
USERS = [ur.User(b"alice", "md5", b"maplesyrup", "aes", b"maplesyrup"),
         ur.User(b"bob", "sha1", b"maplesyrup", "des", b"swordfish"),
         ur.User(b"carol", "sha1", b"swordfish", None, None),
         ur.User(b"alice\0", "md5", b"maplesyrup", "aes", b"maplesyrup"),
         ur.User(b"Alice", "md5", b"maplesyrup", "aes", b"maplesyrup"),
         ur.User(b"", None, None, None, None)]
CONTEXTS = [b"", b"ctx", b"ct", b"ctx\0", b"CTX"]
LEVELS = [0, 1, 3]
CONFIRMED = ("get", "next", "set", "bulk", "inform")


class Pending:
    pass


def find_user(name):
    return next(u for u in USERS if u.name == name)


def run(case, ctx):
    width, maxsize, ops = case
    usm = UserBasedSecurityModule()
    for u in USERS[:-1]:
        uc.add_user(usm, u)
    for e in ENGINES[:-1]:
        usm.registerRemoteEngine(e)
    cls = SNMPv3MessageProcessor
    if width:
        cls = type("Narrow", (cls,), {
            "newGenerator": staticmethod(lambda: NumberGenerator(width, signed=False))})
    mp = cls(maxsize)
    mp.addSecurityModuleIfNeeded(usm)
    history = []
    matched = refused = 0

    def active():
        return [p for p in history if p.active]

    clock = [100]
    for op in ops:
        kind, i, ui, ei, lvl, cx, pdu, diff, other = op
        if kind == "send" and not (width and len(active()) >= 1 << width - 2):
            p = Pending()
            p.user = USERS[ui % len(USERS)]
            p.level = LEVELS[lvl] & p.user.level
            p.engine = ENGINES[ei] if p.level == 0 else ENGINES[ei % 3]
            p.context = CONTEXTS[cx]
            if pdu[0] not in CONFIRMED:
                pdu = ("get",) + pdu[1:] if pdu[0] != "bulk" else pdu
            p.handle = Handle()
            p.active = True
            data = bytes(mp.prepareOutgoingMessage(
                conv.to_pdu(pdu), p.handle, p.engine, p.user.name, uc.level(p.level),
                contextName=p.context))
            opened = ur.Opened(data)
            p.id = opened.id
            same((opened.maxsize, opened.reportable, opened.model, opened.level),
                 (maxsize, True, 3, p.level), "maximum size, reportable flag, model, level")
            same((opened.engine, opened.user), (p.engine, p.user.name), "engine and user")
            same(opened.scoped(p.user), (p.engine, p.context, pdu), "scoped PDU")
            require(0 < p.id < 2**31, "message id {}", p.id)
            require(all(q.id != p.id for q in active()), "message id {} is already pending", p.id)
            history.append(p)
            ctx.label("sent")
        elif not history:
            continue
        elif kind in ("finish", "drop"):
            live = active()
            if live:
                p = live[-1] if width and i % 6 else live[i % len(live)]    # some stay long
                p.active = False
                want = outcome = q = None
                if kind == "finish" or width:   # the ids of handles not closed stay taken
                    p.handle.finish()
                else:
                    p.handle = None
                ctx.label(kind)
        elif kind == "deliver":
            p = history[i % len(history)]
            user, engine, level, msgid = p.user, p.engine, p.level, p.id
            cengine, context = p.engine, p.context
            pkind = "resp"
            if "id" in diff:
                msgid = history[other % len(history)].id if other % 3 else other % 2**31
            if "user" in diff:
                user = USERS[ui % len(USERS)]
            if "engine" in diff:
                engine = ENGINES[ei]
            if "level" in diff:
                level = LEVELS[lvl]
            if "cengine" in diff:
                cengine = ENGINES[other % 4]
            if "context" in diff:
                context = CONTEXTS[cx]
            if "report" in diff:
                pkind = "report"
            elif "kind" in diff:
                pkind = pdu[0]
            level &= user.level
            if engine == b"":
                level = 0
            body = pdu[2:] if (pkind == "bulk") == (pdu[0] == "bulk") else (0, 0, pdu[4])
            response = (pkind, pdu[1]) + body
            clock[0] += 1
            data = ur.seal(msgid, level, engine, 5, clock[0], user if level else None,
                           ref.enc_scoped(cengine, context, response), name=user.name,
                           salt=bytes([clock[0] % 256]) * 8)
            want = open_verdict = None
            for q in active():
                if q.id != msgid or user.name != q.user.name or pkind not in ("resp", "report"):
                    continue
                if pkind == "report":
                    want = q
                    open_verdict = context != q.context
                elif (level & q.level == q.level and engine == q.engine and cengine == q.engine
                        and context == q.context):
                    want = q
            try:
                outcome = mp.prepareDataElements(data)
            except Exception as err:
                outcome = None
            if want is None:
                require(outcome is None, "a {} that answers no pending request was matched "
                        "(differs in {})", pkind, diff)
            elif outcome is not None or not open_verdict:
                require(outcome is not None, "the right {} was refused (differs in {})", pkind, diff)
                require(outcome[1] is want.handle, "matched to another request")
                message = outcome[0]
                same(conv.from_pdu(message.scopedPDU.pdu), response, "delivered PDU")
                same(uc.bits(message.header.flags.securityLevel), level, "delivered level")
            if outcome is not None:
                matched += 1
                ctx.label("matched" if pkind == "resp" else "matched report")
            else:
                refused += 1
                ctx.label("refused", *[f"refused: {d}" for d in diff if len(diff) == 1])
    # whatever came in, every pending request can still receive its real response
    for p in active():
        clock[0] += 1
        data = ur.seal(p.id, p.level, p.engine, 5, clock[0], p.user if p.level else None,
                       ref.enc_scoped(p.engine, p.context, ("resp", 1, 0, 0, ())), name=p.user.name)
        require(mp.prepareDataElements(data)[1] is p.handle, "final response went elsewhere")
    ctx.nontrivial(matched and refused)


def run_many(case, ctx):
    """Hundreds of messages pending at a time."""
    n, choices, gaps, stride, kinds = case
    usm = UserBasedSecurityModule()
    for u in USERS[:-1]:
        uc.add_user(usm, u)
    for e in ENGINES[:-1]:
        usm.registerRemoteEngine(e)
    mp = SNMPv3MessageProcessor(1472)
    mp.addSecurityModuleIfNeeded(usm)
    history = []
    for i in range(n):
        p = Pending()
        ui, ei, lvl, cx = choices[i % len(choices)]
        p.user, p.engine, p.context = USERS[ui], ENGINES[ei], CONTEXTS[cx]
        p.level, p.handle, p.active = LEVELS[lvl] & p.user.level, Handle(), True
        data = bytes(mp.prepareOutgoingMessage(
            conv.to_pdu(("get", 0, 0, 0, ())), p.handle, p.engine, p.user.name, uc.level(p.level),
            contextName=p.context))
        p.id = ur.Opened(data).id
        history.append(p)
        if gaps and i % 7 in gaps:
            q = history[i * stride % len(history)]
            if q.active:
                q.active = False
                if kinds[i % len(kinds)]:
                    q.handle.finish()
                else:
                    q.handle = None
    live = [p for p in history if p.active]
    same(len({p.id for p in live}), len(live), "different ids of pending messages")
    for i in sorted(range(n), key=lambda i: (i * stride % n, i)):
        p = history[i]
        response = ("report" if i % 5 == 4 else "resp", 1, 0, 0, (((1, 3, i), ("c32", i)),))
        data = ur.seal(p.id, p.level, p.engine, 5, 100, p.user if p.level else None,
                       ref.enc_scoped(p.engine, p.context, response), name=p.user.name)
        try:
            message, handle = mp.prepareDataElements(data)
        except Exception as err:
            require(not p.active, "the response to message {} of {} was refused: {!r}", i, n, err)
        else:
            require(p.active, "a response to an ended request was matched")
            require(handle is p.handle, "the response to message {} of {} went elsewhere", i, n)
            same(conv.from_pdu(message.scopedPDU.pdu), response, "response")
    ctx.label(f"{len(live) // 100}00 pending")
    ctx.nontrivial(len(live) > 32)


def many():
    choice = st.tuples(st.integers(0, 4), st.integers(0, 2), st.sampled_from([0, 0, 1, 2]),
                       st.integers(0, 4))
    return st.tuples(gen.ints(20, 700), gen.sized(choice, 1, 4),
                     st.lists(st.integers(0, 6), max_size=3).map(tuple),
                     st.sampled_from([1, 3, 11, 37, 101, 499]),
                     gen.sized(st.booleans(), 1, 4))


def ops(kinds=("send", "send", "deliver", "deliver", "deliver", "finish", "drop")):
    fields = ["id", "user", "engine", "level", "cengine", "context", "report", "kind"]
    diff = st.one_of(st.just(()), st.just(()), st.sampled_from(fields).map(lambda f: (f,)),
                     st.sampled_from(fields).map(lambda f: (f,)),
                     st.lists(st.sampled_from(fields), max_size=3, unique=True).map(tuple))
    return st.tuples(
        st.sampled_from(kinds),
        st.integers(0, 10), st.integers(0, 5), st.integers(0, 3), st.integers(0, 2),
        st.integers(0, 4), gen.pdus(max_size=1), diff,
        st.one_of(st.integers(0, 20), gen.uint31()))


SUBS = [Sub("histories", lambda: st.tuples(st.sampled_from([0, 0, 0, 4, 3, 3]),
                                           st.sampled_from([484, 1472, 65507, 2**31 - 1]),
                                           gen.sized(ops(), 2, 24)), run, 4000),
        Sub("many", many, run_many, 120),
        Sub("churn", lambda: st.tuples(st.sampled_from([3, 3, 4]), st.just(484), gen.sized(
            ops(("send",) * 3 + ("finish", "drop", "finish", "deliver")), 30, 60)), run, 1200)]

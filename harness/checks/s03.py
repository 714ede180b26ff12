"""S03: outgoing v3 messages carry exactly the requested protection."""
from hypothesis import strategies as st

from harness import bootstrap
from harness.api import Sub, raises, require, same

bootstrap.load_openssl_backend()

from snmp.security.usm import UserBasedSecurityModule

from harness import conv, gen, ref, usmconf as uc, usmref as ur

RULE = ("one to three users (every auth/priv protocol, both crypto backends) and one to three "
        "engines; clocks learnt from authentic messages or hints; sends of random scoped PDUs at "
        "every level, to known and unknown users and engines, each opened by the reference with the "
        "user's passwords; non-trivial = at least one authenticated message was opened")
ASSUMPTIONS = ["at the unauthenticated level the user name is not looked up (discovery relies on it)",
               "boots and time are zero at the unauthenticated level (RFC 3414 3.1 step 6)"]

MARK = bytes(reversed(b"--rekram terces a--"))     # not a literal, which might be generated as an engine id


def run(case, ctx):
    package, specs, engines, start, ops = case
    users = [uc.make(s) for s in specs]
    usm = UserBasedSecurityModule()
    engines = list(dict.fromkeys(engines))
    for u in users[::2]:
        uc.add_user(usm, u, package=package)
    for e in engines:
        require(usm.registerRemoteEngine(e), "engine not registered")
    for u in users[1::2]:
        uc.add_user(usm, u, package=package)
    clocks = {e: ur.Clock() for e in engines}
    at = start
    salts = set()
    ctx.label(package)
    for op in ops:
        what, elapsed, ui, ei, lvl, rest = op
        at += elapsed
        user = users[ui % len(users)]
        engine = engines[ei % len(engines)]
        if what == "learn":
            boots, time = rest
            lvl = min(lvl, user.level)
            msg = ur.seal(1, lvl, engine, boots, time, user if lvl else None,
                          ref.enc_scoped(engine, b"", ("resp", 1, 0, 0, ())), name=user.name)
            message = uc.SNMPv3Message.decode(msg)
            try:
                usm.processIncoming(message, at)
                ok = True
            except Exception:
                ok = False
            if lvl:
                same(ok, clocks[engine].update(boots, time, at), "authentic message accepted")
            else:
                require(ok, "unauthenticated message refused")
                clocks[engine].hint(boots, time, at)
            ctx.label("authentic" if lvl else "hint")
            continue

        msgid, reportable, context, pdu, stranger = rest
        pdu = pdu[:4] + (pdu[4] + (((1, 3), ("oct", MARK)),),)
        name = user.name
        obj = conv.to_pdu(pdu)

        def send(engine=engine, name=name):
            return uc.outgoing(usm, msgid, lvl, reportable, obj, engine, name, at, context + MARK)

        if stranger == 1 and lvl:
            ctx.label("unknown user")
            raises(Exception, lambda: send(name=b"nobody"), "sending for an unknown user")
            continue
        if stranger == 2 and lvl:
            ctx.label("unknown engine")
            raises(Exception, lambda: send(engine=engine + b"?"), "sending to an unknown engine")
            continue
        if lvl > user.level:
            ctx.label("unsupported level")
            raises(Exception, send, f"level {lvl} for a user of level {user.level}")
            continue
        data = send()
        opened = ur.Opened(data)
        same(opened.level, lvl, "flags")
        same(opened.reportable, reportable, "reportable flag")
        same((opened.id, opened.maxsize, opened.model), (msgid, 1472, 3), "header")
        same((opened.engine, opened.user), (engine, name), "engine id and user name")
        if lvl:
            require(opened.authentic(user), "the digest does not verify with the user's password")
            same((opened.boots, opened.time), clocks[engine].now(at), "boots and time")
            ctx.nontrivial()
        else:
            same((opened.boots, opened.time, opened.auth), (0, 0, b""), "unauthenticated parameters")
        if lvl == 3:
            require(MARK not in data, "plaintext appears in an encrypted message")
            same(len(opened.salt), 8, "salt length")
            require((ui % len(users), engine, opened.salt) not in salts, "salt used twice")
            salts.add((ui % len(users), engine, opened.salt))
        else:
            same(opened.salt, b"", "privacy parameters")
        same(opened.scoped(user), (engine, context + MARK, pdu), "scoped PDU")
        ctx.label(f"sent at {lvl}")


def ops():
    sends = st.tuples(st.just("send"), uc.elapses(), st.integers(0, 2), st.integers(0, 2),
                      st.sampled_from([0, 1, 1, 3, 3]),
                      st.tuples(gen.uint31(), st.booleans(), gen.blobs(), gen.pdus(max_size=3),
                                st.sampled_from([0, 0, 0, 0, 0, 1, 2])))
    learn = st.tuples(st.just("learn"), uc.elapses(), st.integers(0, 2), st.integers(0, 2),
                      st.sampled_from([0, 1, 3]),
                      st.tuples(gen.uint31(), gen.uint31()))
    return st.one_of(sends, sends, learn)


SUBS = [
    Sub("messages", lambda: st.tuples(
        st.sampled_from(["openssl", "pycryptodome"]),
        st.sampled_from([(b"alice",), (b"alice", b"bob"), (b"a", b"b", "ümlaut".encode())]).flatmap(
            lambda names: st.tuples(*[uc.user_spec(n) for n in names])),
        gen.sized(uc.engine_ids(), 1, 3), uc.instants(), gen.sized(ops(), 1, 8)), run, 2400),
]

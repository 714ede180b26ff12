"""Configures the code under test from usmref.User objects; strategies for users."""
import importlib

from hypothesis import strategies as st

from harness import bootstrap, gen, ref, usmref as ur

from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
from snmp.pdu import GetRequestPDU
from snmp.security import SecurityModel
from snmp.security.levels import SecurityLevel
from snmp.security.usm import UserBasedSecurityModule
from snmp.security.usm import auth as auth_module

PASSWORDS = [b"maplesyrup", b"swordfish", b"correct horse battery staple", b"x" * 8]


def auth_class(algo):
    return None if algo is None else getattr(auth_module, ur.AUTH[algo][3])


def priv_class(name, package="pycryptodome"):
    if name is None:
        return None
    mod = importlib.import_module(f"snmp.security.usm.priv.{package}.{name}")
    return getattr(mod, ur.PRIV[name])


def level(bits):
    return SecurityLevel(auth=bool(bits & 1), priv=bool(bits & 2))


def bits(securityLevel):
    return (1 if securityLevel.auth else 0) | (2 if securityLevel.priv else 0)


def add_user(usm, user, namespace="", package="pycryptodome", **kw):
    args = {}
    if user.auth is not None:
        args["authProtocol"] = auth_class(user.auth)
        if user.priv is not None and user.privpw == user.authpw:
            args["secret"] = user.authpw
        else:
            args["authSecret"] = user.authpw
    if user.priv is not None:
        args["privProtocol"] = priv_class(user.priv, package)
        if user.privpw != user.authpw:
            args["privSecret"] = user.privpw
    usm.addUser(user.name.decode(), namespace=namespace, **args, **kw)


def outgoing(usm, msgid, lvl, reportable, pdu, engine, user, at, context=b"", maxsize=1472):
    """prepareOutgoing as the message processor would call it -> bytes"""
    flags = MessageFlags(level(lvl), reportable)
    message = SNMPv3Message(HeaderData(msgid, maxsize, flags, SecurityModel.USM),
                            ScopedPDU(pdu, engine, contextName=context))
    return bytes(usm.prepareOutgoing(message, engine, user, at))


def user_spec(name, minlevel=0):
    """(name, auth, authpw, priv, privpw)"""
    pw = st.sampled_from(PASSWORDS)
    # now and then the longest name the protocol allows
    name = st.sampled_from([name] * 4 + [name[:32].ljust(32, b"."), name])
    auth = st.sampled_from(sorted(ur.AUTH))
    opts = [st.tuples(name, auth, pw, st.sampled_from(["aes", "des"]), pw)] * 2
    if minlevel <= 1:
        opts.append(st.tuples(name, auth, pw, st.none(), st.none()))
    if minlevel <= 0:
        opts.append(st.tuples(name, *[st.none()] * 4))
    return st.one_of(*opts)


def make(spec):
    return ur.User(*spec)


def engine_ids():
    return st.one_of(gen.binary(5, 32), st.sampled_from(
        [b"\x80\x00\x1f\x88\x80e1", b"\x80\x00\x1f\x88\x80e2", b"\0" * 12, b"\x04\x0c" + b"\0" * 12,
         b"\x80" * 32]))


def instants():
    """Exactly representable timestamps."""
    return st.one_of(st.integers(0, 4000).map(lambda n: n / 4),
                     st.integers(0, 2**33).map(lambda n: n / 8),
                     st.sampled_from([0.0, 1.7e9, 1700000000.875]))


def elapses():
    """Local time between two events, weighted to the interesting sizes."""
    return st.one_of(st.integers(0, 8).map(lambda n: n / 8), st.integers(0, 200).map(float),
                     st.integers(0, 1800).map(lambda n: n / 8),
                     st.sampled_from([149.0, 149.875, 150.0, 150.125, 151.0, 151.5, 300.0, 1e6,
                                      2.0**31]))

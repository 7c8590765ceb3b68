"""C22: security levels form a lattice; users are configured within it."""
from pyvc.api import *
from pyvc.gens import *

from snmp.security.levels import *
from snmp.security.usm.credentials import Credentials
from snmp.security.usm.users import UserConfig
from specs import ciphers
from specs.ciphers import AbstractAuth, AbstractPriv

PROPERTY = "C22"
OPTS = {"models": ciphers.models}

FLAG = Choice(False, True, 0, 1, None, "", "x", 2)


def rank(auth, priv):
    return 2 if auth and priv else 1 if auth else 0


@theorem(auth=FLAG, priv=FLAG)
def no_privacy_without_authentication(auth, priv):
    try:
        level = SecurityLevel(auth, priv)
    except ValueError:
        check("only privacy without authentication is refused", bool(priv) and not auth)
        cover("refused")
        return
    check("privacy needs authentication", bool(auth) or not priv)
    check("auth", level.auth is bool(auth))
    check("priv", level.priv is bool(priv))
    cover("accepted")


@theorem(a1=Bool(), p1=Bool(), a2=Bool(), p2=Bool())
def order(a1, p1, a2, p2):
    """noAuthNoPriv < authNoPriv < authPriv, by every comparison operator"""
    assume((a1 or not p1) and (a2 or not p2))
    x, y = SecurityLevel(a1, p1), SecurityLevel(a2, p2)
    m, n = rank(a1, p1), rank(a2, p2)
    check("<", bool(x < y) == (m < n))
    check(">", bool(x > y) == (m > n))
    check(">=", bool(x >= y) == (m >= n))
    check("<=", bool(x <= y) == (m <= n))
    check("==", bool(x == y) == (m == n))
    check("!=", bool(x != y) == (m != n))
    cover("end")


@theorem()
def named_levels():
    check("noAuthNoPriv", not noAuthNoPriv.auth and not noAuthNoPriv.priv)
    check("authNoPriv", authNoPriv.auth and not authNoPriv.priv)
    check("authPriv", authPriv.auth and authPriv.priv)
    check("text", str(noAuthNoPriv) == "noAuthNoPriv" and str(authNoPriv) == "authNoPriv"
          and str(authPriv) == "authPriv")
    cover("end")


LEVEL = Choice(noAuthNoPriv, authNoPriv, authPriv)


@theorem(OPTS, auth=Bool(), priv=Bool(), level=Opt(LEVEL), a=Opt(Bytes(1, 40)), p=Opt(Bytes(1, 40)), s=Bytes(1, 40))
def user_configuration(auth, priv, level, a, p, s):
    """the default level of a user never exceeds what the credentials support, and defaults to all of it"""
    c = Credentials(AbstractAuth if auth else None, a, AbstractPriv if priv else None, p, s)
    top = 0 if not auth else 2 if priv else 1
    check("credentials", rank(c.maxSecurityLevel.auth, c.maxSecurityLevel.priv) == top)
    try:
        config = UserConfig(c, level)
    except ValueError:
        check("refused only above the credentials", level is not None and rank(level.auth, level.priv) > top)
        cover("refused")
        return
    d = config.defaultSecurityLevel
    check("within the credentials", rank(d.auth, d.priv) <= top)
    check("as requested", rank(d.auth, d.priv) == (top if level is None else rank(level.auth, level.priv)))
    check("credentials kept", config.credentials == c)
    cover("accepted")


@theorem(OPTS, auth=Bool(), priv=Bool(), engine=Bytes(0, 32), s=Bytes(1, 40))
def localized_credentials(auth, priv, engine, s):
    """localizing credentials gives a key for exactly what the maximum level promises"""
    c = Credentials(AbstractAuth if auth else None, None, AbstractPriv if priv else None, None, s)
    k = c.localize(engine)
    check("auth", (k.auth is not None) == c.maxSecurityLevel.auth)
    check("priv", (k.priv is not None) == c.maxSecurityLevel.priv)
    cover("end")

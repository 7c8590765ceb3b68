"""C15: outgoing SNMPv3 messages are authenticated and encrypted as the security level demands."""
from pyvc.api import *
from pyvc.gens import *

from specs import runtime

from snmp.message.v3 import *
from snmp.pdu import *
from snmp.security.levels import *
from snmp.security.models import SecurityModel
from snmp.security.usm import *
from snmp.security.usm.credentials import Credentials
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.smi import OctetString
from specs import ciphers, contracts
from specs.ciphers import AbstractAuth, AbstractPriv, OtherAuth
from specs.inputs import BINDINGS, I32
from specs.usm import *

PROPERTY = "C15"
TRUSTED = [runtime.TRUST, ciphers.TRUST]
OPTS = {"budget": 300, "contracts": contracts.bindings, "models": lambda: {**ciphers.models(), **runtime.locks(), **runtime.timing()}}

LEVEL = Choice(noAuthNoPriv, authNoPriv, authPriv)
U31 = Int(0, 2 ** 31 - 1)
USER = Text()
SPACE = Text(pool=("", "a", "b"))
ENGINE = Bytes(0, 32)
NAME = Bytes(0, 255)
SECRET = Bytes(1, 64)
AUTH = Choice(None, AbstractAuth, OtherAuth)
PRIV = Choice(None, AbstractPriv)
CLOCK = Opt(Tup(U31, U31, Real(0, 2 ** 33)))


def protection(user, auth, priv, a, p, space, engine, clock, delay, level, id, rid, vbs, context):
    """signed with the key of the user for the engine, and encrypted, or refused"""
    module = UserBasedSecurityModule()
    module.addUser(user, auth, a, priv, p, namespace=space)
    check("registered", module.registerRemoteEngine(engine, space))
    boots = time = now = 0
    if clock is not None:
        boots, time, now = clock
        heard(module, engine, boots, time, now)
        time = int(time + delay)
        assume(time < 2 ** 31)
    name = user.encode()
    assume(len(name) <= 255)
    pdu = GetRequestPDU(requestID=rid, variableBindings=vbs)
    assume(len(ScopedPDU(pdu, engine, context).encode()) <= 65000)
    credentials = Credentials(auth, a, priv, p)
    try:
        wire = module.prepareOutgoing(message_of(id, level, pdu, engine, context), engine, name, now + delay)
    except InvalidSecurityLevel:
        check("refused", credentials.maxSecurityLevel < level)
        cover("refused")
        return
    check("supported", credentials.maxSecurityLevel >= level)
    want = protected(message_of(id, level, pdu, engine, context), engine, boots, time, name, credentials.localize(engine))
    check("message", wire == want)
    cover("end")


INPUTS = dict(user=USER, a=SECRET, p=SECRET, space=SPACE, engine=ENGINE, clock=CLOCK, delay=Real(0, 2 ** 30), id=U31, rid=I32,
              vbs=BINDINGS, context=NAME)


@theorem(OPTS, auth=AUTH, priv=PRIV, **INPUTS)
def authPriv_message(auth, priv, **inputs):
    protection(auth=auth, priv=priv, level=authPriv, **inputs)


@theorem(OPTS, auth=AUTH, priv=PRIV, **INPUTS)
def authNoPriv_message(auth, priv, **inputs):
    protection(auth=auth, priv=priv, level=authNoPriv, **inputs)


@theorem(OPTS, auth=AUTH, priv=PRIV, **INPUTS)
def noAuthNoPriv_message(auth, priv, **inputs):
    protection(auth=auth, priv=priv, level=noAuthNoPriv, **inputs)


@theorem(OPTS, user=USER, auth=AUTH, priv=PRIV, a=SECRET, p=SECRET, space=SPACE, space2=SPACE, engine=ENGINE, level=Choice(authNoPriv, authPriv),
         asked=ENGINE, other=Bool(), name=NAME, known=Bool(), vbs=BINDINGS)
def strangers(user, auth, priv, a, p, space, space2, engine, level, asked, other, name, known, vbs):
    """no message is protected for an unknown engine, or for a user that the namespace of the engine does not have"""
    module = UserBasedSecurityModule()
    module.addUser(user, auth, a, priv, p, namespace=space)
    module.registerRemoteEngine(engine, space2)
    if known:
        name = user.encode()
    if not other:
        asked = engine
    assume(asked != engine or name != user.encode() or space != space2)
    message = message_of(1, level, GetRequestPDU(variableBindings=vbs), engine, b"")
    try:
        module.prepareOutgoing(message, asked, name, 0)
    except InvalidEngineID:
        check("unknown engine", asked != engine)
        cover("engine")
    except InvalidUserName:
        check("known engine", asked == engine)
        cover("user")
    else:
        check("sent", False)


@theorem(OPTS, registered=Bool(), clock=CLOCK, engine=ENGINE, name=NAME, id=U31, rid=I32, vbs=BINDINGS, context=NAME)
def discovery(registered, clock, engine, name, id, rid, vbs, context):
    """without authentication, a message needs no user and no engine, and shows nothing of the clock"""
    module = UserBasedSecurityModule()
    if registered:
        module.addUser("user", AbstractAuth, b"secret")
        module.registerRemoteEngine(engine)
    if clock is not None:
        heard(module, engine, *clock)
    pdu = GetRequestPDU(requestID=rid, variableBindings=vbs)
    wire = module.prepareOutgoing(message_of(id, noAuthNoPriv, pdu, engine, context), engine, name)
    check("message", wire == protected(message_of(id, noAuthNoPriv, pdu, engine, context), engine, 0, 0, name, None))
    cover("end")


USERS = ("ann", "bob")
ENGINES = (b"engine one", b"engine two")
SECRETS = {"ann": b"first secret", "bob": b"second secret"}


def pair():
    module = UserBasedSecurityModule()
    for user in USERS:
        module.addUser(user, AbstractAuth, SECRETS[user], AbstractPriv, SECRETS[user])
    for engine in ENGINES:
        module.registerRemoteEngine(engine)
    return module


def keys_of(user, engine):
    return Credentials(AbstractAuth, SECRETS[USERS[user]], AbstractPriv, SECRETS[USERS[user]]).localize(ENGINES[engine])


@theorem({**OPTS, "models": lambda: {**OPTS["models"](), **ciphers.models(injective=True)}},
         first=Choice((0, 0), (0, 1), (1, 0)), level1=Choice(authPriv, noAuthNoPriv), level2=Choice(authNoPriv, authPriv),
         now=Real(0, 2 ** 33), told=Bool(), clock=Tup(U31, U31), clock2=Tup(U31, U31), resend=Bool())
def later_messages(first, level1, level2, now, told, clock, clock2, resend):
    """what was sent before, by whom and to whom, makes no difference (but for the salt), and the latest clock counts"""
    module = pair()
    heard(module, ENGINES[0], *clock, now)
    user, engine = first
    assume(not resend or engine == 0 and user == 0 and level1 == level2)
    keys = keys_of(user, engine)
    message = message_of(1, level1, GetRequestPDU(requestID=1), ENGINES[engine], b"")
    wire = module.prepareOutgoing(message, ENGINES[engine], USERS[user].encode(), now)
    if engine == 0:
        boots, time = clock
    else:
        boots = time = 0
    same = message_of(1, level1, GetRequestPDU(requestID=1), ENGINES[engine], b"")
    check("first", wire == protected(same, ENGINES[engine], boots, time, USERS[user].encode(), keys))
    if told:
        heard(module, ENGINES[0], *clock2, now)
        clock = clock2
    if user != 0 or engine != 0:
        keys = keys_of(0, 0)
    if not resend:
        message = message_of(2, level2, GetRequestPDU(requestID=2), ENGINES[0], b"")
    wire = module.prepareOutgoing(message, ENGINES[0], b"ann", now)
    want = message_of(1 if resend else 2, level2, GetRequestPDU(requestID=1 if resend else 2), ENGINES[0], b"")
    check("second", wire == protected(want, ENGINES[0], *clock, b"ann", keys))
    cover("end")

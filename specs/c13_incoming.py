"""C13: an SNMPv3 message is taken for authentic only with the right signature, user, level and time."""
from specs import runtime

from pyvc.api import *
from pyvc.gens import *

from snmp.exception import IncomingMessageError
from snmp.message.v3 import *
from snmp.pdu import *
from snmp.security.levels import *
from snmp.security.models import SecurityModel
from snmp.security.usm import *
from snmp.security.usm.credentials import Credentials
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.smi import OctetString
from specs import ciphers, contracts
from specs.ciphers import AbstractAuth, AbstractPriv, OtherAuth
from specs.inputs import BINDINGS, I32
from specs.usm import *

PROPERTY = "C13"
TRUSTED = [runtime.TRUST, ciphers.TRUST]
OPTS = {"budget": 300, "contracts": contracts.bindings, "models": lambda: {**ciphers.models(), **runtime.locks(), **runtime.timing()}}

MAX = 2 ** 31 - 1
LEVEL = Choice(noAuthNoPriv, authNoPriv, authPriv)
U31 = Int(0, 2 ** 31 - 1)
USER = Text()
SPACE = Text(pool=("", "a", "b"))
ENGINE = Bytes(0, 32)
NAME = Bytes(0, 255)
SECRET = Bytes(1, 64)
AUTH = Choice(None, AbstractAuth, OtherAuth)
PRIV = Choice(None, AbstractPriv)
NOW = Real(0, 2 ** 33)


def setup(user, auth, priv, a, p, space, engine):
    module = UserBasedSecurityModule()
    module.addUser(user, auth, a, priv, p, namespace=space)
    module.registerRemoteEngine(engine, space)
    assume(len(user.encode()) <= 255)
    return module


def response(rid, vbs, engine, context):
    scoped = ScopedPDU(ResponsePDU(requestID=rid, variableBindings=vbs), engine, context)
    assume(len(scoped.encode()) <= 65000)
    return scoped


def arrives(module, wire, now):
    """the message, if it is accepted"""
    message = SNMPv3Message.decode(wire)
    try:
        module.processIncoming(message, now)
    except IncomingMessageError:
        return None
    return message


INPUTS = dict(user=USER, a=SECRET, p=SECRET, space=SPACE, engine=ENGINE, boots=U31, time=U31, now=NOW, id=U31, rid=I32,
              vbs=BINDINGS, context=NAME)


def authenticity(level, auth, priv, user, a, p, space, engine, boots, time, now, id, rid, vbs, context, signature=None):
    """accepted, with its content, if and only if the signature is right"""
    module = setup(user, auth, priv, a, p, space, engine)
    name = user.encode()
    scoped = response(rid, vbs, engine, context)
    message = SNMPv3Message(HeaderData(id, 1500, MessageFlags(level), SecurityModel.USM), scoped)
    wire = protected(message, engine, boots, time, name, Credentials(auth, a, priv, p).localize(engine))
    genuine = True
    if signature is not None:
        right = UsmSecurityParameters.decode(SNMPv3Message.decode(wire).securityParameters.original).signature
        wire = resigned(message, signature)
        genuine = signature == right
    got = arrives(module, wire, now)
    if got is None:
        check("refused", boots == MAX or not genuine)
        cover("refused")
        return
    check("accepted", boots < MAX and genuine)
    check("user", got.securityName == name and got.securityEngineID == engine)
    check("content", got.scopedPDU == scoped)
    check("level", got.header.flags.securityLevel == level)
    cover("accepted")


@theorem(OPTS, **INPUTS)
def authPriv_genuine(**inputs):
    authenticity(auth=AbstractAuth, priv=AbstractPriv, level=authPriv, **inputs)


@theorem(OPTS, signature=Bytes(12, 12), **INPUTS)
def authPriv_forged(**inputs):
    authenticity(auth=AbstractAuth, priv=AbstractPriv, level=authPriv, **inputs)


@theorem(OPTS, **INPUTS)
def authNoPriv_genuine(**inputs):
    authenticity(auth=AbstractAuth, priv=None, level=authNoPriv, **inputs)


@theorem(OPTS, priv=PRIV, signature=Bytes(7, 7), **INPUTS)
def authNoPriv_forged(priv, **inputs):
    authenticity(auth=OtherAuth, priv=priv, level=authNoPriv, **inputs)


def unprotected(level, user, engine, boots, time, id, signature, salt, body):
    """a message that nobody has signed"""
    parameters = OctetString(UsmSecurityParameters(engine, boots, time, user, signature, salt).encode())
    header = HeaderData(id, 1500, MessageFlags(level), SecurityModel.USM)
    if level.priv:
        return SNMPv3Message(header, encryptedPDU=OctetString(body), securityParameters=parameters).encode()
    return SNMPv3Message(header, ScopedPDU(ResponsePDU(), engine, body), securityParameters=parameters).encode()


SCRAP = dict(boots=U31, time=U31, now=NOW, id=U31, signature=Bytes(0, 64), salt=Bytes(0, 16), body=Bytes(0, 64))


@theorem(OPTS, user=USER, auth=Choice(AbstractAuth, OtherAuth), a=SECRET, p=SECRET, space=SPACE, engine=ENGINE,
         level=Choice(authNoPriv, authPriv), **SCRAP)
def wrong_length(user, auth, a, p, space, engine, level, now, signature, **scrap):
    """a signature that is cut short or padded is never the right one"""
    module = setup(user, auth, AbstractPriv, a, p, space, engine)
    assume(len(signature) != auth.N)
    wire = unprotected(level, user.encode(), engine, signature=signature, **scrap)
    check("refused", arrives(module, wire, now) is None)
    cover("end")


@theorem(OPTS, user=USER, a=SECRET, space=SPACE, engine=ENGINE, level=Choice(authNoPriv, authPriv), **SCRAP)
def no_authentication(user, a, space, engine, level, now, **scrap):
    """a level the user is not set up for is refused"""
    module = setup(user, None, None, a, None, space, engine)
    wire = unprotected(level, user.encode(), engine, **scrap)
    check("refused", arrives(module, wire, now) is None)
    cover("end")


@theorem(OPTS, user=USER, a=SECRET, space=SPACE, engine=ENGINE, signed=Bool(), signature=Bytes(12, 12), boots=U31, time=U31, now=NOW, id=U31,
         salt=Bytes(0, 16), body=Bytes(0, 64))
def no_privacy(user, a, space, engine, signed, signature, boots, time, now, id, salt, body):
    """even with the right signature"""
    module = setup(user, AbstractAuth, None, a, None, space, engine)
    keys = Credentials(AbstractAuth, a).localize(engine)
    wire = unprotected(authPriv, user.encode(), engine, boots, time, id, bytes(12), salt, body)
    if signed:
        signature = keys.auth.sign(wire)
    wire = unprotected(authPriv, user.encode(), engine, boots, time, id, signature, salt, body)
    check("refused", arrives(module, wire, now) is None)
    cover("end")


@theorem(OPTS, user=USER, a=SECRET, p=SECRET, space=SPACE, engine=ENGINE, level=Choice(authNoPriv, authPriv), asked=ENGINE, **SCRAP)
def unknown_engine(user, a, p, space, engine, level, asked, now, **scrap):
    """nor is anything accepted in the name of an engine that is not registered"""
    module = setup(user, AbstractAuth, AbstractPriv, a, p, space, engine)
    assume(asked != engine)
    wire = unprotected(level, user.encode(), asked, **scrap)
    check("refused", arrives(module, wire, now) is None)
    cover("end")


@theorem(OPTS, user=USER, a=SECRET, p=SECRET, space=SPACE, engine=ENGINE, level=Choice(authNoPriv, authPriv), name=NAME, **SCRAP)
def unknown_user(user, a, p, space, engine, level, name, now, **scrap):
    """or of a user that nobody has added"""
    module = setup(user, AbstractAuth, AbstractPriv, a, p, space, engine)
    assume(name != user.encode())
    wire = unprotected(level, name, engine, **scrap)
    check("refused", arrives(module, wire, now) is None)
    cover("end")


@theorem(OPTS, user=USER, a=SECRET, p=SECRET, space=SPACE, space2=SPACE, engine=ENGINE, level=Choice(authNoPriv, authPriv), **SCRAP)
def user_elsewhere(user, a, p, space, space2, engine, level, now, **scrap):
    """or of a user that belongs to another namespace than the engine"""
    assume(space != space2 and engine != b"another engine")
    module = setup(user, AbstractAuth, AbstractPriv, a, p, space, b"another engine")
    module.registerRemoteEngine(engine, space2)
    wire = unprotected(level, user.encode(), engine, **scrap)
    check("refused", arrives(module, wire, now) is None)
    cover("end")


@theorem(OPTS, engine=ENGINE, name=NAME, rid=I32, vbs=BINDINGS, context=NAME, boots=U31, time=U31, now=NOW, id=U31)
def unauthenticated(engine, name, rid, vbs, context, boots, time, now, id):
    """messages without authentication are passed on as what they are"""
    module = UserBasedSecurityModule()
    scoped = response(rid, vbs, engine, context)
    message = SNMPv3Message(HeaderData(id, 1500, MessageFlags(noAuthNoPriv), SecurityModel.USM), scoped,
                            securityParameters=OctetString(UsmSecurityParameters(engine, boots, time, name, b"", b"").encode()))
    got = arrives(module, message.encode(), now)
    check("passed on", got is not None)
    check("user", got.securityName == name and got.securityEngineID == engine)
    check("content", got.scopedPDU == scoped)
    check("level", got.header.flags.securityLevel == noAuthNoPriv)
    cover("end")


def reply(boots, time, keys, id=1):
    message = SNMPv3Message(HeaderData(id, 1500, MessageFlags(authNoPriv), SecurityModel.USM), ScopedPDU(ResponsePDU(), b"engine"))
    return message, protected(message, b"engine", boots, time, b"user", keys)


@theorem(OPTS, position=Int(0, 11), value=Int(0, 255), boots=Int(0, MAX - 1), time=U31)
def altered(position, value, boots, time):
    """one wrong byte in the signature is enough"""
    module = setup("user", AbstractAuth, None, b"secret", None, "", b"engine")
    message, wire = reply(boots, time, Credentials(AbstractAuth, b"secret").localize(b"engine"))
    right = UsmSecurityParameters.decode(message.securityParameters.data).signature
    wrong = right[:position] + bytes([value]) + right[position + 1:]
    accepted = arrives(module, resigned(message, wrong), 0) is not None
    check("verdict", accepted == (wrong == right))
    out = module.prepareOutgoing(reply(0, 0, Credentials(AbstractAuth, b"secret").localize(b"engine"))[0], b"engine", b"user", 0)
    got = UsmSecurityParameters.decode(SNMPv3Message.decode(out).securityParameters.original)
    check("clock", (got.engineBoots, got.engineTime) == ((boots, time) if accepted else (0, 0)))
    cover("end")


def timeliness(b0, t0, now, d1, b, t, d, hint=None, forgery=None):
    """the clock that an authentic message has set decides, whatever others claim in between"""
    module = setup("user", AbstractAuth, None, b"secret", None, "", b"engine")
    keys = Credentials(AbstractAuth, b"secret").localize(b"engine")
    _, first = reply(b0, t0, keys)
    accepted = arrives(module, first, now) is not None
    check("first", accepted == (b0 < MAX))
    if hint is not None:
        heard(module, b"engine", *hint, now + d1)
    if forgery is not None:
        b1, t1, signature = forgery
        assume(max(b0, b, b1) < MAX)
        message, wire = reply(b1, t1, keys, 2)
        right = UsmSecurityParameters.decode(message.securityParameters.data).signature
        assume(signature != right)
        check("forgery", arrives(module, resigned(message, signature), now + d1) is None)
    _, second = reply(b, t, keys, 3)
    accepted = arrives(module, second, now + d1 + d) is not None
    fresh = b > b0 or b == b0 and t + 150 >= int(t0 + d1 + d)
    check("second", accepted == (fresh and b < MAX))
    cover("end")


DELAY = Real(0, 2 ** 30)


@theorem(OPTS, b0=U31, t0=U31, now=NOW, hint=Tup(U31, U31), d1=DELAY, b=U31, t=U31, d=DELAY)
def window_after_hint(**inputs):
    timeliness(**inputs)


@theorem({**OPTS, "budget": 400}, b0=U31, t0=U31, now=NOW, forgery=Tup(U31, U31, Bytes(12, 12)), d1=DELAY, b=U31, t=U31, d=DELAY)
def window_after_forgery(**inputs):
    timeliness(**inputs)


@theorem(OPTS, b0=U31, t0=U31, now=NOW, b=U31, t=U31, d=DELAY)
def window(**inputs):
    timeliness(d1=0, **inputs)


# different keys sign differently
DISTINCT = {**OPTS, "models": lambda: {**OPTS["models"](), **ciphers.models(injective=True)}}
USERS = ("ann", "bob")
ENGINES = (b"engine one", b"engine two")
SECRETS = {"ann": b"first secret", "bob": b"second secret"}


def pair():
    module = UserBasedSecurityModule()
    for user in USERS:
        module.addUser(user, AbstractAuth, SECRETS[user], AbstractPriv, SECRETS[user])
    for engine in ENGINES:
        module.registerRemoteEngine(engine)
    return module


def keys_of(who):
    user, engine = who
    return Credentials(AbstractAuth, SECRETS[USERS[user]], AbstractPriv, SECRETS[USERS[user]]).localize(ENGINES[engine])


@theorem(DISTINCT, first=Choice((0, 1), (1, 0)), signer=Choice((0, 0), (0, 1), (1, 0)), boots=Int(0, MAX - 1), time=U31)
def signers(first, signer, boots, time):
    """a message signed by somebody else, or for another engine, is refused, whoever has been heard before"""
    module = pair()
    named = (0, 0)
    for id, who, keys in (1, first, keys_of(first)), (2, named, keys_of(signer)):
        user, engine = who
        scoped = ScopedPDU(ResponsePDU(requestID=id), ENGINES[engine])
        message = SNMPv3Message(HeaderData(id, 1500, MessageFlags(authNoPriv), SecurityModel.USM), scoped)
        got = arrives(module, protected(message, ENGINES[engine], boots, time, USERS[user].encode(), keys), 0)
        if id == 1:
            check("first", got is not None)
    check("second", (got is not None) == (signer == named))
    if got is not None:
        check("content", got.scopedPDU == scoped and got.securityName == USERS[named[0]].encode())
    cover("end")

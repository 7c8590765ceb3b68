"""C18: the user registry: namespaces, collisions, defaults, engine assignment."""
from pyvc.api import *
from pyvc.gens import *

from snmp.security.levels import *
from snmp.security.usm import UserBasedSecurityModule
from snmp.security.usm.credentials import Credentials
from snmp.security.usm.users import *
from specs import ciphers, runtime
from specs.ciphers import AbstractAuth, AbstractPriv, OtherAuth

PROPERTY = "C18"
OPTS = {"models": lambda: {**ciphers.models(), **runtime.locks()}}

NAME = Bytes(0, 32)
SECRET = Bytes(1, 64)
ENGINE = Bytes(5, 32)
SPACE = Text(pool=("", "a", "b"))
AUTH = Choice(None, AbstractAuth, OtherAuth)
PRIV = Choice(None, AbstractPriv)
COUNT = Int(0, sample=8)
LEVEL = Opt(Choice(noAuthNoPriv, authNoPriv, authPriv))


def lookup(users, engine, name):
    try:
        return users.getCredentials(engine, name)
    except InvalidUserName:
        return "user"
    except InvalidEngineID:
        return "engine"


@theorem(OPTS, name=NAME, space=SPACE, auth=AUTH, priv=PRIV, secret=SECRET, engine=ENGINE,
         space2=SPACE, name2=NAME, secret2=SECRET, late=Bool(), asked=NAME)
def credentials_of_the_namespace(name, space, auth, priv, secret, engine, space2, name2, secret2, late, asked):
    """an engine sees exactly the users of its namespace, localized to it, whenever they were added"""
    users = UserRegistry()
    assume(name != name2 or space != space2)
    users.addUser(name, auth, None, priv, None, secret, namespace=space)
    if not late:
        users.addUser(name2, AbstractAuth, None, None, None, secret2, namespace=space2)
    check("unknown engine", lookup(users, engine, name) == "engine")
    check("assigned", users.assign(engine, space))
    if late:
        users.addUser(name2, AbstractAuth, None, None, None, secret2, namespace=space2)
    got = lookup(users, engine, asked)
    if asked == name:
        check("first", got == Credentials(auth, None, priv, None, secret).localize(engine))
        cover("first")
    elif asked == name2 and space == space2:
        check("second", got == Credentials(AbstractAuth, None, None, None, secret2).localize(engine))
        cover("second")
    else:
        check("no other user", got == "user")
        cover("none")


@theorem({**OPTS, "max_paths": 40000}, name=NAME, space=SPACE, auth=Choice(None, AbstractAuth), priv=PRIV, a=SECRET, p=SECRET,
         level=LEVEL, auth2=AUTH, priv2=PRIV, a2=SECRET, p2=SECRET, level2=LEVEL,
         engine=ENGINE)
def collision(name, space, auth, priv, a, p, level, auth2, priv2, a2, p2, level2, engine):
    """a user cannot be redefined: a different definition is refused and changes nothing"""
    users = UserRegistry()
    try:
        users.addUser(name, auth, a, priv, p, defaultSecurityLevel=level, namespace=space)
    except ValueError:
        assume(False)
    users.assign(engine, space)
    old = lookup(users, engine, name)
    oldlevel = users.getDefaultSecurityLevel(name, space)
    c1, c2 = Credentials(auth, a, priv, p), Credentials(auth2, a2, priv2, p2)
    l1 = c1.maxSecurityLevel if level is None else level
    l2 = c2.maxSecurityLevel if level2 is None else level2
    try:
        users.addUser(name, auth2, a2, priv2, p2, b"", False, level2, space)
    except ValueError:
        check("refused because different", c1 != c2 or l1 != l2 or l2 > c2.maxSecurityLevel)
        check("credentials unchanged", lookup(users, engine, name) == old)
        cover("refused")
    else:
        check("accepted because equal", c1 == c2 and l1 == l2)
        check("credentials as before", lookup(users, engine, name) == old)
        cover("accepted")
    check("level", users.getDefaultSecurityLevel(name, space) == oldlevel)
    check("level of the user", oldlevel == l1)
    check("default", users.getDefaultUser(space) == name)


@theorem(OPTS, names=List(NAME, minlen=1, maxlen=3), mark=Int(-1, 2), space=SPACE, other=SPACE)
def default_user(names, mark, space, other):
    """the first user is the default until another is explicitly made so"""
    users = UserRegistry()
    seen = []
    expected = None
    for i, name in enumerate(names):
        assume(name not in seen)
        seen.append(name)
        users.addUser(name, default=(i == mark), namespace=space)
        if i == 0 or i == mark:
            expected = name
        check("default", users.getDefaultUser(space) == expected)
    if other != space:
        check("unknown namespace", raises(ValueError, users.getDefaultUser, other))
        cover("other")
    cover("end")


@theorem(OPTS, engine=ENGINE, space=SPACE, other=SPACE, extra=COUNT, released=COUNT, wrong=COUNT)
def assignment_is_counted(engine, space, other, extra, released, wrong):
    """an engine stays in its namespace until every assignment has been released"""
    users = UserRegistry()
    users.addUser(b"user", namespace=space)
    assume(space != other)
    check("first", users.assign(engine, space))
    for _ in range(extra):
        check("again", users.assign(engine, space))
    for _ in range(wrong):
        check("not elsewhere", not users.assign(engine, other))
    assume(released <= extra)
    for _ in range(released):
        check("still assigned", not users.release(engine, space))
    check("kept", lookup(users, engine, b"user") != "engine")
    check("not elsewhere yet", not users.assign(engine, other))
    if released == extra:
        check("last", users.release(engine, space))
        check("forgotten", lookup(users, engine, b"user") == "engine")
        check("free for another namespace", users.assign(engine, other))
        check("other namespace", lookup(users, engine, b"user") == "user")
        cover("last")


@theorem(OPTS, e1=ENGINE, e2=ENGINE, s1=SPACE, s2=SPACE, name=NAME, secret=SECRET, secret2=SECRET)
def engines_are_separate(e1, e2, s1, s2, name, secret, secret2):
    """each engine uses the definition of its own namespace, with its own localized keys"""
    assume(e1 != e2 and s1 != s2)
    users = UserRegistry()
    users.addUser(name, AbstractAuth, secret=secret, namespace=s1)
    users.addUser(name, AbstractAuth, secret=secret2, namespace=s2)
    users.assign(e1, s1)
    users.assign(e2, s2)
    check("first", lookup(users, e1, name) == Credentials(AbstractAuth, secret=secret).localize(e1))
    check("second", lookup(users, e2, name) == Credentials(AbstractAuth, secret=secret2).localize(e2))
    users.release(e1, s1)
    check("second stays", lookup(users, e2, name) == Credentials(AbstractAuth, secret=secret2).localize(e2))
    check("first gone", lookup(users, e1, name) == "engine")
    cover("end")


@theorem(OPTS, name=Text(), other=Text(), space=SPACE, engine=ENGINE, auth=AUTH, priv=PRIV, secret=SECRET,
         level=LEVEL)
def through_the_security_module(name, other, space, engine, auth, priv, secret, level):
    """user names given as text reach the registry, and come back, unchanged"""
    usm = UserBasedSecurityModule()
    assume(name != other)
    try:
        usm.addUser(name, auth, None, priv, None, secret, defaultSecurityLevel=level, namespace=space)
    except ValueError:
        top = Credentials(auth, None, priv, None, secret).maxSecurityLevel
        check("refused above the credentials", level is not None and level > top)
        return
    usm.addUser(other, AbstractAuth, secret=secret, default=True, namespace=space)
    check("default", usm.getDefaultUser(space) == other)
    top = Credentials(auth, None, priv, None, secret).maxSecurityLevel
    check("level", usm.getDefaultSecurityLevel(name, space) == (top if level is None else level))
    check("level of the other", usm.getDefaultSecurityLevel(other, space) == authNoPriv)
    check("registered", usm.registerRemoteEngine(engine, space))
    got = lookup(usm.users, engine, name.encode())
    check("credentials", got == Credentials(auth, None, priv, None, secret).localize(engine))
    usm.unregisterRemoteEngine(engine, space)
    check("unregistered", lookup(usm.users, engine, name.encode()) == "engine")
    cover("end")

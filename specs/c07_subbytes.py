"""C07: subbytes is a faithful zero-copy view: it behaves like slicing bytes."""
from pyvc.api import *
from pyvc.gens import *

from snmp.utils import subbytes

PROPERTY = "C07"


def view(data, start, stop):
    return subbytes(data, start, stop)


@theorem(data=Bytes(), start=Int(), stop=Opt(Int()))
def construct_is_slice(data, start, stop):
    s = subbytes(data, start, stop)
    ref = data[start:stop]
    check("len", len(s) == len(ref))
    check("data", s[:] == ref)
    check("bool", bool(s) == (len(ref) > 0))
    cover("end")


@theorem(data=Bytes(), start=Int(), stop=Opt(Int()), a=Opt(Int()), b=Opt(Int()))
def slicing_a_view(data, start, stop, a, b):
    s = subbytes(data, start, stop)
    ref = data[start:stop]
    check("slice", s[a:b] == ref[a:b])


@theorem(data=Bytes(), start=Int(), stop=Opt(Int()), i=Int())
def indexing_a_view(data, start, stop, i):
    s = subbytes(data, start, stop)
    ref = data[start:stop]
    try:
        want = ref[i]
    except IndexError:
        want = None
    try:
        got = s[i]
    except IndexError:
        got = None
    check("index", got == want)


@theorem(data=Bytes(), start=Int(), stop=Opt(Int()), a=Int(), b=Opt(Int()))
def view_of_a_view(data, start, stop, a, b):
    s = subbytes(subbytes(data, start, stop), a, b)
    ref = data[start:stop][a:b]
    check("len", len(s) == len(ref))
    check("data", s[:] == ref)
    check("shared", s.data is data)


@theorem(data=Bytes(), start=Int(), stop=Opt(Int()), i=Int())
def split_and_advance(data, start, stop, i):
    s = subbytes(data, start, stop)
    ref = data[start:stop]
    left, right = s.split(i)
    check("left", left[:] == ref[:i])
    check("right", right[:] == ref[i:])
    check("advance", s.advance()[:] == ref[1:])
    try:
        first = s.dereference()
    except IndexError:
        first = None
    if len(ref) == 0:
        check("empty", first is None)
    else:
        check("first", first == ref[0])
        cover("nonempty")


@theorem(data=Bytes(), start=Int(), stop=Opt(Int()), sub=Bytes())
def replace_substitutes(data, start, stop, sub):
    s = subbytes(data, start, stop)
    out = s.replace(sub)
    check("len", len(out) == len(data) - len(s) + len(sub))
    check("prefix", out[:s.start] == data[:s.start])
    check("middle", out[s.start:s.start + len(sub)] == sub)
    check("suffix", out[s.start + len(sub):] == data[s.start + len(s):])
    check("original", s[:] == data[start:stop])


@theorem(data=Bytes(), start=Int(), stop=Opt(Int()))
def iteration_and_equality(data, start, stop):
    s = subbytes(data, start, stop)
    ref = data[start:stop]
    check("equal to the slice", s == ref)
    check("bytes()", bytes(s) == ref)


@theorem(a=Bytes(maxlen=4), b=Bytes(maxlen=4))
def equality_is_content(a, b):
    check("views", (subbytes(a) == subbytes(b)) == (a == b))
    check("bytes", (subbytes(a) == b) == (a == b))


@theorem(a=Bytes(), b=Bytes(), k=Int(0))
def equality_of_views(a, b, k):
    """views that compare equal have the same bytes (k: any place), whatever their length"""
    witness(k)
    x, y = subbytes(a), subbytes(b)
    if x == y:
        check("length", len(a) == len(b))
        if k < len(a):
            check("bytes", a[k] == b[k])
        cover("equal")
    if x == b:
        check("length of a view and bytes", len(a) == len(b))
        if k < len(a):
            check("bytes of a view and bytes", a[k] == b[k])


@theorem(a=Bytes(), before=Bytes(), after=Bytes())
def equal_contents(a, before, after):
    """views of equal content compare equal, wherever it lies"""
    n = len(before)
    x, y = subbytes(before + a + after, n, n + len(a)), subbytes(a)
    check("views", x == y)
    check("bytes", x == a)
    cover("end")

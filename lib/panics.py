"""Library calls that panic unless a condition holds: what has to be provable at the call.

PRE[name](eng, st, args, ctx) -> None (not applicable) or a list of (boolean term, text); the
call may panic on every path on which one of the terms is not known to be true."""
from terms import *
from engine import rel, add, length
import models
from models import D, headt, range_of, INTS, known_prefix

PRE = {}
NEVER = FALSE


def pre(*names):
    def f(fn):
        for n in names:
            PRE[n] = fn
        return fn
    return f


def may(what):
    """a condition nothing is known about"""
    return [(mk("call", "may panic", (STR(what),)), what)]


@pre("io::_print", "io::_eprint")
def _(eng, st, a, cx):
    return may("the standard output may not be writable")


def boundary(c, i):
    if i.k == "int" and i.a[0] == 0 or i is length(c):
        return []
    return [(mk("call", "char_boundary", (c, i)), "not a char boundary")]


@pre("Vec::remove", "Vec::swap_remove", "String::remove", "slice::get_unchecked", "slice::get_unchecked_mut")
def _(eng, st, a, cx):
    c = D(eng, st, a[0])
    return [(rel(a[1], "<", length(c)), "index out of bounds")] + (boundary(c, a[1]) if cx.name.startswith("String") else [])


@pre("Vec::insert", "Vec::split_off", "String::split_off", "String::insert", "String::insert_str", "slice::split_at_mut", "slice::rotate_left", "slice::rotate_right", "VecDeque::split_off")
def _(eng, st, a, cx):
    c = D(eng, st, a[0])
    return [(rel(a[1], "<=", length(c)), "index out of bounds")] + (boundary(c, a[1]) if cx.name.startswith("String") else [])


@pre("String::truncate")
def _(eng, st, a, cx):
    c = D(eng, st, a[0])
    return boundary(c, a[1])


@pre("Vec::drain", "String::drain", "String::replace_range", "slice::copy_within", "Vec::splice")
def _(eng, st, a, cx):
    c = D(eng, st, a[0])
    r = range_of(eng, st, a[1], c)
    if r is None:
        return may("range out of bounds")
    lo, hi = r
    text = cx.name.startswith("String")
    return [(rel(hi, "<=", length(c)), "range end out of bounds"), (rel(lo, "<=", hi), "range start out of bounds")] + ((boundary(c, lo) + boundary(c, hi)) if text else [])


@pre("slice::copy_from_slice", "slice::clone_from_slice", "slice::swap_with_slice")
def _(eng, st, a, cx):
    return [(rel(length(D(eng, st, a[0])), "=", length(D(eng, st, a[1]))), "lengths differ")]


@pre("slice::swap")
def _(eng, st, a, cx):
    c = D(eng, st, a[0])
    return [(rel(x, "<", length(c)), "index out of bounds") for x in a[1:3]]


@pre("slice::chunks", "slice::chunks_exact", "slice::rchunks", "slice::chunks_mut", "slice::windows", "slice::rchunks_exact", "slice::chunks_exact_mut", "Iterator::step_by")
def _(eng, st, a, cx):
    return [(rel(a[1], ">", INT(0)), "size zero")]


def bounded(eng, st, n):
    """a size nobody outside can choose: lengths of what is already in memory, or small"""
    if n.k == "int":
        return n.a[0] <= 1 << 32
    if n.k in ("len", "idx", "nparts"):
        return True
    iv = st.ival(n)
    if iv and iv[1] <= 1 << 32:
        return True
    if n.k == "add":
        return bounded(eng, st, n.a[0]) and bounded(eng, st, n.a[1])
    if n.k in ("sub",):
        return bounded(eng, st, n.a[0])
    if n.k == "bin" and n.a[0].startswith(("Mul", "Div", "Rem", "Shr", "BitAnd")):
        return bounded(eng, st, n.a[1]) and (bounded(eng, st, n.a[2]) or not n.a[0].startswith("Mul"))
    if n.k == "call" and n.a[0] in ("Ord::min", "cmp::min"):
        return any(bounded(eng, st, x) for x in n.a[1])
    if n.k == "call" and n.a[0] in ("Ord::max", "cmp::max"):
        return all(bounded(eng, st, x) for x in n.a[1])
    if n.k == "call" and n.a[0].split("::")[-1] in ("len", "size", "count", "capacity", "size_hint", "encoded_len", "saturating_sub", "Iterator::sum", "sum"):
        return True
    if n.k in ("sumof", "count", "acc", "fld"):
        return n.k != "fld" or bounded(eng, st, n.a[0])
    # at most a length known on this path
    for (x, y), p in st.rel.items():
        if x is n and y.k == "len" and ">" not in p or y is n and x.k == "len" and "<" not in p:
            return True
    return False


@pre("Vec::with_capacity", "String::with_capacity", "HashMap::with_capacity", "HashSet::with_capacity", "VecDeque::with_capacity", "Map::with_capacity", "BytesMut::with_capacity")
def _(eng, st, a, cx):
    if not bounded(eng, st, a[0]):
        return may("capacity overflow")


@pre("Vec::reserve", "Vec::reserve_exact", "String::reserve", "vec::from_elem", "Vec::resize", "slice::repeat", "str::repeat", "HashMap::reserve")
def _(eng, st, a, cx):
    if not bounded(eng, st, a[1]):
        return may("capacity overflow")


@pre("char::to_digit", "char::from_digit", "char::is_digit", "usize::from_str_radix", "u64::from_str_radix", "u32::from_str_radix", "u8::from_str_radix")
def _(eng, st, a, cx):
    if a[1].k != "int" or not 2 <= a[1].a[0] <= 36:
        return may("radix")


@pre("Duration::from_secs_f64", "Duration::from_secs_f32", "Duration::mul_f64", "Duration::div_f64", "GenericArray::from_slice", "GenericArray::from_mut_slice", "GenericArray::clone_from_slice",
     "Option::unwrap_unchecked", "Result::unwrap_unchecked", "hint::unreachable_unchecked")
def _(eng, st, a, cx):
    return may(cx.name)


@pre("RefCell::borrow_mut", "RefCell::borrow", "RefCell::replace", "RefCell::swap", "RefCell::take")
def _(eng, st, a, cx):
    return may("already borrowed")


@pre("Index::index", "IndexMut::index_mut")
def _(eng, st, a, cx):
    h = headt(cx.selfty())
    if h in ("Vec", "String", "str", "slice", "Box", "Arc", "Url", "GenericArray") or h in models.MAPS and cx.name == "Index::index":
        return None
    if h == "Value" and cx.name == "Index::index":
        return None
    if models.is_local_body(eng, cx):
        return None
    return may("index of " + h)


TIME = ("Duration", "Instant", "SystemTime")


@pre("Add::add", "Sub::sub", "Mul::mul", "Div::div", "Rem::rem", "AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
def _(eng, st, a, cx):
    h = headt(cx.selfty())
    if h in TIME:
        return may(cx.name + " of " + h)
    if h in ("Div", "Rem") or cx.name.startswith(("Div", "Rem")):
        if h in INTS:
            return [(rel(D(eng, st, a[1]), "<>", INT(0)), "division by zero")]


@pre("Iterator::sum", "Iterator::product")
def _(eng, st, a, cx):
    if headt(cx.retty()) in INTS and not (cx.name == "Iterator::sum" and headt(cx.retty()) in ("usize", "u64", "u128") and counts(a[0])):
        return may("overflow")


def counts(it):
    """an iterator over lengths of things in memory"""
    return it.k == "it" and it.a[0] == "map" and it.a[2].k in ("fnref", "clo") and any(w in show(it.a[2]) for w in ("len",)) or it.k == "it" and it.a[0] in ("filter",) and counts(it.a[1])


for w in ("abs", "pow", "ilog2", "ilog10", "ilog", "div_euclid", "rem_euclid", "next_power_of_two", "isqrt", "next_multiple_of", "div_ceil", "strict_add", "strict_sub", "strict_mul", "unchecked_add"):
    for t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
        def _f(eng, st, a, cx):
            if not all(D(eng, st, x).k == "int" for x in a):
                return may(cx.name)
        PRE["%s::%s" % (t, w)] = _f

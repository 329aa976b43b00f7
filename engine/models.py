"""What std functions do, for the abstract interpreter: collections, strings, boxes, memory, intrinsics.
Everything else in std that has compiler IR available is interpreted like the code under analysis."""
from dom import *
from ai import *
from normal import canon_name

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def elem_of(ai, t):
    """element type of Vec<T> and friends"""
    d = ai.P.ty(t)
    a = [x for x in d["args"] if isinstance(x, int)]
    return a[0]


def is_u8(ai, t):
    d = ai.P.ty(t)
    return d["k"] == "uint" and d["bits"] == 8


def empty_of(ai, et):
    return ("txt", ()) if et is not None and is_u8(ai, et) else ("seq", (), et)


def handle(ai, st, p, path=()):
    """follow a pointer to a collection value: -> (object, contents, place of the handle)"""
    p = ai.unwrap_ptr(p)
    if p == UNINIT:
        ai.alarm(st, "uninit", "use of an uninitialised or moved pointer")
        raise Dead()
    if p[0] != "p":
        raise Unsupported("collection behind %s" % (p[:2],))
    v = ai.read(st, p[1], p[2])
    while v[0] == "a" and v[2]:
        path = path + (0,)
        v = v[2][0]
    if v == UNINIT:
        ai.alarm(st, "uninit", "use of an uninitialised or moved collection")
        raise Dead()
    if v[0] != "o":
        raise Unsupported("collection %s" % (v[:2],))
    return v[1], ai.load(st, v[1]), (p[1], p[2] + path)


def regrow(ai, st, obj, place, new):
    """the buffer may move: old element addresses die"""
    o = ai.new_obj(st, new, ai.otype.get(obj), obj[0])
    st.heap.pop(obj, None)
    ai.write(st, place[0], place[1], ("o", o))
    return o


def new_coll(ai, st, val):
    return ("o", ai.new_obj(st, val, None, "h"))


# ---- Vec ------------------------------------------------------------------------------------------
@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default",
       "std::vec::Vec::<T, A>::with_capacity_in", "std::vec::Vec::<T, A>::new_in")
def vec_new(ai, st, a, c):
    return new_coll(ai, st, empty_of(ai, elem_of(ai, c.dty)))


@model("std::string::String::new", "std::string::String::with_capacity", "<std::string::String as std::default::Default>::default")
def string_new(ai, st, a, c):
    return ("a", 0, (new_coll(ai, st, ("txt", ())),))


@model("std::vec::Vec::<T, A>::len", "std::string::String::len")
def vec_len(ai, st, a, c):
    o, v, _ = handle(ai, st, a[0])
    n = ai.seq_len(st, v)
    if isinstance(n, Lin) and v[0] == "seq":
        st.num.assume(le(n, (1 << 63) - 1))     # no allocation is larger
    return n


@model("std::vec::Vec::<T, A>::is_empty", "std::string::String::is_empty")
def vec_is_empty(ai, st, a, c):
    o, v, _ = handle(ai, st, a[0])
    n = ai.seq_len(st, v)
    e = eq(n, 0)
    r = st.num.evalc(e)
    return e if r is None else r


@model("std::vec::Vec::<T, A>::push")
def vec_push(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    if v[0] == "txt":
        b = ai.num(st, a[1])
        nv = ("txt", v[1] + (byte_piece(b),))
    else:
        nv = ("seq", v[1] + (a[1],)) + v[2:]
    regrow(ai, st, o, pl, nv)
    return UNIT


def byte_piece(b):
    if isinstance(b, int):
        return ("P", "lit", bytes([b]))
    return ("P", "by", b)


@model("std::vec::Vec::<T, A>::pop")
def vec_pop(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    if v[0] != "seq":
        raise Unsupported("pop of text")
    it = v[1]
    if not it:
        return NONE
    last = it[-1]
    if is_pre(last):
        e = st.num.evalc(eq(last[2], 0))
        if e is True:
            if len(it) == 1:
                return NONE
            st.heap[o] = ("seq", it[:-1]) + v[2:]
            return vec_pop(ai, st, a, c)
        r = ai.env.pop_pre(ai, st, o, v)
        if r is None:
            raise Unsupported("pop from a summarised sequence")
        return r
    st.heap[o] = ("seq", it[:-1]) + v[2:]
    return some(last)


def Unsup(s):
    raise Unsupported(s)


def is_pre(it):
    return isinstance(it, tuple) and bool(it) and it[0] == "pre"


@model("std::vec::Vec::<T, A>::clear", "std::string::String::clear")
def vec_clear(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    if v[0] == "txt":
        st.heap[o] = ("txt", ())
        return UNIT
    if not v[1]:
        return UNIT
    o2 = ai.new_obj(st, v, None)
    st.heap[o] = ("seq", ()) + v[2:]
    ai.do_moves(st, c.moves)
    items, fin = drop_items(ai, st, o2, v)
    ai.push_native(st, "drop", ("drops", tuple(items), False, fin), c.dest, c.target, c.unwind)
    raise Entered()


def drop_items(ai, st, o, v):
    """work list that drops every element of collection object o, then frees it"""
    items, tmp = [], []
    if v[0] == "seq":
        ety = v[2]
        for it in v[1]:
            if is_pre(it):
                items.append((("pre", it), None))
                continue
            if ety is None:
                continue
            parts = [((), it, ety)] if not isinstance(ety, tuple) else \
                [((), it[2][0], ety[1]), ((), it[2][1], ety[2])]
            for path, val, ty in parts:
                if ai.P.q("drop", ty) is not None:
                    t = ai.new_obj(st, val, ty)
                    tmp.append(t)
                    items.append((("p", t, (), None), ty))
        # the elements are on their own now
        st.heap[o] = ("seq", ()) + v[2:]
    return items, tuple(tmp) + (o,)


@model("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
       "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
       "<std::string::String as std::ops::Deref>::deref", "<std::string::String as std::ops::DerefMut>::deref_mut",
       "std::string::String::as_str", "std::string::String::as_bytes", "std::string::String::as_mut_str",
       "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<std::string::String as std::convert::AsRef<str>>::as_ref",
       "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow", "<std::string::String as std::borrow::Borrow<str>>::borrow", "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow",
       "<std::string::String as std::convert::AsRef<[u8]>>::as_ref")
def vec_deref(ai, st, a, c):
    o, v, _ = handle(ai, st, a[0])
    return ("p", o, (("i", 0),), ai.seq_len(st, v))


@model("std::vec::Vec::<T, A>::as_ptr", "std::vec::Vec::<T, A>::as_mut_ptr")
def vec_as_ptr(ai, st, a, c):
    o, v, _ = handle(ai, st, a[0])
    return ("p", o, (("i", 0),), None)


@model("std::string::String::into_bytes", "std::string::String::from_utf8_unchecked")
def string_into_bytes(ai, st, a, c):
    if c.inf["path"].endswith("into_bytes"):
        return a[0][2][0]
    return ("a", 0, (a[0],))


@model("std::string::String::as_mut_vec")
def as_mut_vec(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    return ("p", p[1], p[2] + (0,), None)


@model("std::vec::Vec::<T, A>::reserve", "std::string::String::reserve", "std::vec::Vec::<T, A>::reserve_exact",
       "std::vec::Vec::<T, A>::shrink_to_fit", "std::string::String::shrink_to_fit", "std::string::String::reserve_exact")
def vec_reserve(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    regrow(ai, st, o, pl, v)
    return UNIT


@model("std::vec::Vec::<T, A>::capacity", "std::string::String::capacity")
def vec_capacity(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    n = ai.seq_len(st, v)
    return add(n, st.num.fresh(0, (1 << 62)))


def slice_pieces(ai, st, p):
    """bytes behind a &[u8] / &str pointer as text pieces"""
    p = ai.unwrap_ptr(p)
    if p[0] == "n":
        return ()
    n = st.num.norm(p[3]) if not isinstance(p[3], int) else p[3]
    if n == 0:
        return ()
    path = p[2]
    k = 0
    base = path
    if path and isinstance(path[-1], tuple) and path[-1][0] == "i":
        k = st.num.norm(path[-1][1])
        base = path[:-1]
    v = ai.read(st, p[1], base)
    if v[0] == "reg":
        return (("P", "sl", v[1], k, n),)
    if v[0] == "arr":
        if isinstance(k, int) and isinstance(n, int):
            if k + n > len(v[1]):
                ai.alarm(st, "oob", "slice outside an array")
                raise Dead()
            return norm_pieces(ai, st, tuple(byte_piece(x) for x in v[1][k:k + n]))
        if isinstance(n, int) and n <= 8:
            return tuple(byte_piece(ai.table(st, v[1], add(k, i))) for i in range(n))
        raise Unsupported("slice of an array at an unknown place")
    if v[0] == "txt":
        return sub_pieces(ai, st, v[1], k, n)
    raise Unsupported("text from %s" % (v[:1],))


def sub_pieces(ai, st, ps, k, n):
    """pieces [k, k+n) of ps"""
    ev = lambda c: st.num.evalc(c)
    total = 0
    for p in ps:
        total = add(total, ai.piece_len(st, p))
    if ev(eq(k, 0)) is True and ev(eq(n, total)) is True:
        return ps
    out = []
    off = 0
    end = add(k, n)
    for p in ps:
        ln = ai.piece_len(st, p)
        nxt = add(off, ln)
        # wholly before or after
        b = ev(le(nxt, k))
        if b is None:
            raise Split([le(nxt, k)], [neg(le(nxt, k))])
        if b:
            off = nxt
            continue
        b = ev(le(end, off))
        if b is None:
            raise Split([le(end, off)], [neg(le(end, off))])
        if b:
            break
        s = ev(le(k, off))
        e = ev(le(nxt, end))
        if s is None:
            raise Split([le(k, off)], [neg(le(k, off))])
        if e is None:
            raise Split([le(nxt, end)], [neg(le(nxt, end))])
        if s and e:
            out.append(p)
        elif p[1] == "sl":
            lo = off if s else k
            hi = nxt if e else end
            out.append(("P", "sl", p[2], st.num.norm(add(p[3], sub(lo, off))), st.num.norm(sub(hi, lo))))
        elif p[1] == "lit":
            lo = 0 if s else st.num.norm(sub(k, off))
            hi = len(p[2]) if e else st.num.norm(sub(end, off))
            if not isinstance(lo, int) or not isinstance(hi, int):
                raise Unsupported("part of literal text at an unknown place")
            out.append(("P", "lit", p[2][lo:hi]))
        else:
            raise Unsupported("part of a formatted piece")
        off = nxt
    return tuple(out)


def norm_pieces(ai, st, ps):
    """adjacent literal bytes joined, adjacent slices of one region joined, empty pieces removed"""
    out = []
    for p in ps:
        if p[1] == "by" and isinstance(st.num.norm(p[2]), int):
            p = ("P", "lit", bytes([st.num.norm(p[2])]))
        if p[1] == "ch" and isinstance(st.num.norm(p[2]), int):
            c = st.num.norm(p[2])
            if not 0xD800 <= c < 0xE000:
                p = ("P", "lit", chr(c).encode())
        if p[1] == "lit" and not p[2]:
            continue
        if p[1] == "sl":
            if st.num.evalc(eq(p[4], 0)) is True:
                continue
        if out and p[1] == "lit" and out[-1][1] == "lit":
            out[-1] = ("P", "lit", out[-1][2] + p[2])
            continue
        if out and p[1] == "sl" and out[-1][1] == "sl" and out[-1][2] == p[2] and \
                st.num.evalc(eq(add(out[-1][3], out[-1][4]), p[3])) is True:
            out[-1] = ("P", "sl", p[2], out[-1][3], st.num.norm(add(out[-1][4], p[4])))
            continue
        out.append(p)
    return tuple(out)


@model("std::vec::Vec::<T, A>::extend_from_slice", "std::string::String::push_str",
       "std::vec::Vec::<T, A>::append_elements",
       "<std::string::String as std::ops::AddAssign<&str>>::add_assign", "<std::string::String as std::fmt::Write>::write_str")
def extend_from_slice(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    if v[0] != "txt" and c.inf["path"].endswith("::extend_from_slice"):
        i = ai.P.q("sub", "witness::subst::vextend", [x for x in c.inf["args"] if isinstance(x, int)][0])
        return NotImplemented if i is None else c.enter(st, i, a)
    if v[0] != "txt":
        return NotImplemented
    ps = slice_pieces(ai, st, a[1])
    if ps:
        regrow(ai, st, o, pl, ("txt", norm_pieces(ai, st, v[1] + ps)))
    return ok() if c.inf["path"].endswith("write_str") else UNIT


@model("<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::str::CharIndices<'a> as std::iter::Iterator>::next")
def chars_next(ai, st, a, c):
    if not hasattr(ai.env, "wide_char"):
        return NotImplemented
    p = ai.unwrap_ptr(a[0])
    it = ai.read(st, p[1], p[2])
    path, w, front = p[2], it, None
    if "CharIndices" in c.inf["path"] and w[0] == "a" and len(w[2]) == 2:
        i = 0 if isinstance(w[2][0], (int, Lin)) else 1
        front, fpath = ai.num(st, w[2][i]), path + (i,)
        path, w = path + (1 - i,), w[2][1 - i]
    while w[0] == "a" and len(w[2]) == 1:
        path, w = path + (0,), w[2][0]
    if w[0] != "a" or len(w[2]) < 2:
        return NotImplemented
    b, e = ai.unwrap_ptr(w[2][0]), ai.unwrap_ptr(w[2][1])
    if b[0] != "p" or e[0] != "p" or b[1] != e[1] or ai.load(st, b[1])[0] not in ("reg", "txt"):
        return NotImplemented
    n = ptr_diff(ai, st, [e, b])
    cnd = le(n, 0)
    k = st.num.evalc(cnd)
    if k is None:
        raise Split([cnd], [neg(cnd)])
    if k:
        return NONE

    def step(s, l):
        f = w[2][0]
        ai.write(s, p[1], path, ("a", w[1], (ai.ptr_add(s, f, l),) + w[2][1:]))
        if front is not None:
            ai.write(s, p[1], fpath, s.num.norm(add(front, l)))

    def item(ch):
        return some(ch if front is None else ("a", 0, (front, ch)))
    x = ai.num(st, ai.read(st, b[1], b[2]))
    def narrow(s):
        s.num.assume(le(x, 127))
        step(s, 1)
        return item(x)

    def out(l):
        def f(s):
            # the text is UTF-8: the rest of the character is there
            s.num.assume(le(128, x))
            s.num.assume(le(l, n))
            ch = s.num.fresh_set({2: ((0x80, 0x7FF),), 3: ((0x800, 0xD7FF), (0xE000, 0xFFFF)), 4: ((0x10000, 0x10FFFF),)}[l])
            ai.env.wide_char(ai, s, x, ch, l)
            step(s, l)
            return item(ch)
        return f
    return Fork(narrow, out(2), out(3), out(4))


@model("std::string::String::push", "<std::string::String as std::fmt::Write>::write_char")
def string_push(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    ch = ai.num(st, a[1])
    regrow(ai, st, o, pl, ("txt", norm_pieces(ai, st, v[1] + char_pieces(ai, st, ch))))
    return ok() if c.inf["path"].endswith("write_char") else UNIT


def char_pieces(ai, st, ch):
    ch = st.num.norm(ch) if not isinstance(ch, int) else ch
    if not isinstance(ch, int) and hasattr(ai.env, "char_pieces"):
        r = ai.env.char_pieces(st, ch)
        if r is not None:
            return r
    if isinstance(ch, int):
        return (("P", "lit", chr(ch).encode("utf-8", "surrogatepass")),)
    return (("P", "ch", ch),)


@model("std::vec::Vec::<T, A>::truncate", "std::string::String::truncate")
def vec_truncate(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    n = ai.num(st, a[1])
    total = ai.seq_len(st, v)
    k = le(total, n)
    e = st.num.evalc(k)
    if e is None:
        raise Split([k], [neg(k)])
    if e:
        return UNIT
    if v[0] == "txt":
        st.heap[o] = ("txt", sub_pieces(ai, st, v[1], 0, n))
        return UNIT
    if n == 0:
        return vec_clear(ai, st, a, c)
    d = st.num.norm(sub(total, n))
    if not isinstance(d, int) or d > 8:
        raise Unsupported("truncate of a vector")
    it = list(v[1])
    off = []
    while len(off) < d:
        last = it[-1]
        if is_pre(last):
            if st.num.evalc(eq(last[2], 0)) is not True:
                st.heap[o] = ("seq", tuple(it + off)) + v[2:]
                if off or ai.env.pop_pre(ai, st, o, st.heap[o]) is not None:
                    raise Unsupported("truncate of a summarised sequence")
            it.pop()
            continue
        off.insert(0, it.pop())
    st.heap[o] = ("seq", tuple(it)) + v[2:]
    o2 = ai.new_obj(st, ("seq", tuple(off)) + v[2:], None)
    ai.do_moves(st, c.moves)
    items, fin = drop_items(ai, st, o2, st.heap[o2])
    ai.push_native(st, "drop", ("drops", tuple(items), False, fin), c.dest, c.target, c.unwind)
    raise Entered()


@model("std::vec::Vec::<T, A>::set_len")
def vec_set_len(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    n = ai.num(st, a[1])
    if v[0] == "txt":
        st.heap[o] = ("txt", sub_pieces(ai, st, v[1], 0, n))
    elif n == 0:
        st.heap[o] = ("seq", ()) + v[2:]
    else:
        raise Unsupported("set_len")
    return UNIT


@model("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def vec_into_iter(ai, st, a, c):
    v = a[0]
    if v[0] == "o":
        return v
    raise Unsupported("into_iter of %s" % (v[:2],))


@model("<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def vec_ref_iter(ai, st, a, c):
    s = vec_deref(ai, st, a, c)
    b = ai.P.body(c.inst)
    if b is None:
        return NotImplemented
    # what into_iter itself calls on the slice
    et = [x for x in c.inf["args"] if isinstance(x, int)][0]
    i = ai.P.q("sub", "witness::subst::" + ("iter_mut" if "mut" in c.inf["path"] else "iter"), et)
    if i is None:
        return NotImplemented
    c.enter(st, i, [s])


@model("<[T; N] as std::iter::IntoIterator>::into_iter", "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def array_into_iter(ai, st, a, c):
    v, t = a[0], ai.P.ty(c.argty(0))
    if not (isinstance(v, tuple) and v[0] == "arr"):
        return NotImplemented
    return new_coll(ai, st, ("seq", tuple(v[1]), t["elem"]))


@model("<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint", "<std::array::IntoIter<T, N> as std::iter::Iterator>::size_hint", "<std::collections::btree_map::IntoIter<K, V, A> as std::iter::Iterator>::size_hint")
def into_iter_hint(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    n = ai.seq_len(st, v)
    return ("a", 0, (n, some(n)))


@model("<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len", "<std::array::IntoIter<T, N> as std::iter::ExactSizeIterator>::len", "<std::collections::btree_map::IntoIter<K, V, A> as std::iter::ExactSizeIterator>::len",
       "std::vec::IntoIter::<T, A>::as_slice")
def into_iter_len(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    if c.inf["path"].endswith("as_slice"):
        return ("p", o, (("i", 0),), ai.seq_len(st, v))
    return ai.seq_len(st, v)


@model("<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back", "<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back", "<std::vec::Drain<'_, T, A> as std::iter::DoubleEndedIterator>::next_back",
       "<std::collections::btree_map::IntoIter<K, V, A> as std::iter::DoubleEndedIterator>::next_back",
       "std::collections::BTreeMap::<K, V, A>::pop_last")
def into_iter_back(ai, st, a, c):
    if c.inf["path"].endswith("pop_last"):
        distinct(st, "last entry")
    return vec_pop(ai, st, a, c)


@model("std::collections::BTreeMap::<K, V, A>::pop_first")
def map_pop_first(ai, st, a, c):
    distinct(st, "first entry")
    return into_iter_next(ai, st, a, c)


@model("std::collections::BTreeMap::<K, V, A>::clear", "std::collections::HashMap::<K, V, S, A>::clear")
def map_clear(ai, st, a, c):
    st.gh.pop("repeated", None)
    return vec_clear(ai, st, a, c)


@model("std::vec::Vec::<T, A>::drain")
def vec_drain(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    r = ai.P.ty(c.argty(1))
    if r["def"].split("::")[-1] != "RangeFull" or v[0] != "seq":
        raise Unsupported("drain of a range")
    d = ai.new_obj(st, v, None)
    st.heap[o] = ("seq", ()) + v[2:]
    return ("o", d)


@model("<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "<std::array::IntoIter<T, N> as std::iter::Iterator>::next", "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next",
       "<std::vec::Drain<'a, T, A> as std::iter::Iterator>::next",
       "<std::collections::btree_map::IntoIter<K, V, A> as std::iter::Iterator>::next",
       "<std::collections::hash_map::IntoIter<K, V, A> as std::iter::Iterator>::next",
       "<std::collections::hash_map::IntoIter<K, V> as std::iter::Iterator>::next")
def into_iter_next(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    it = v[1]
    if not it:
        return NONE
    if is_pre(it[0]):
        if st.num.evalc(eq(it[0][2], 0)) is True:
            if len(it) == 1:
                return NONE
            st.heap[o] = ("seq", it[1:]) + v[2:]
            return into_iter_next(ai, st, a, c)
        r = ai.env.shift_pre(ai, st, o, v)
        if r is None:
            raise Unsupported("next of a summarised sequence")
        return r
    st.heap[o] = ("seq", it[1:]) + v[2:]
    return some(it[0])


@model("std::vec::Vec::<T, A>::append")
def vec_append(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    o2, v2, pl2 = handle(ai, st, a[1])
    regrow(ai, st, o, pl, (v[0], v[1] + v2[1]) + v[2:])
    st.heap[o2] = (v2[0], ()) + v2[2:]
    return UNIT


# ---- maps -----------------------------------------------------------------------------------------
def pair_ty(ai, t):
    return None


@model("std::collections::BTreeMap::<K, V>::new", "<std::collections::BTreeMap<K, V> as std::default::Default>::default",
       "std::collections::HashMap::<K, V, S>::with_hasher", "std::collections::HashMap::<K, V>::new",
       "std::collections::HashMap::<K, V, S>::with_capacity_and_hasher",
       "<std::collections::HashMap<K, V, S> as std::default::Default>::default")
def map_new(ai, st, a, c):
    d = ai.P.ty(c.dty)
    ar = [x for x in d["args"] if isinstance(x, int)]
    return new_coll(ai, st, ("seq", (), ("kv", ar[0], ar[1])))


@model("<std::hash::RandomState as std::default::Default>::default", "std::hash::RandomState::new")
def random_state(ai, st, a, c):
    return ("a", 0, (0, 0))


@model("std::collections::BTreeMap::<K, V, A>::insert", "std::collections::HashMap::<K, V, S, A>::insert",
       "std::collections::HashMap::<K, V, S>::insert")
def map_insert(ai, st, a, c):
    o, v, pl = handle(ai, st, a[0])
    r = ai.env.map_insert(ai, st, o, v, pl, a[1], a[2]) if hasattr(ai.env, "map_insert") else None
    if r is not None:
        return r

    def fresh(s):
        o, v, pl = handle(ai, s, a[0])
        regrow(ai, s, o, pl, ("seq", v[1] + (("a", 0, (a[1], a[2])),)) + v[2:])
        return NONE
    if v[1]:
        raise Unsupported("insertion into a map with contents")
    return fresh(st)


@model("std::collections::BTreeMap::<K, V, A>::len", "std::collections::HashMap::<K, V, S, A>::len")
def map_len(ai, st, a, c):
    n = vec_len(ai, st, a, c)
    if st.gh.get("repeated") and not (isinstance(n, int) and n < 2):
        # entries are listed as inserted, a repeated key among them
        return st.num.fresh(1, st.num.bounds(n)[1])
    return n


def distinct(st, what):
    if st.gh.get("repeated"):
        raise Unsupported(what + " of a map in which keys may have been repeated")


@model("std::collections::BTreeMap::<K, V, A>::is_empty", "std::collections::HashMap::<K, V, S, A>::is_empty")
def map_is_empty(ai, st, a, c):
    return vec_is_empty(ai, st, a, c)


@model("<std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter",
       "<std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter")
def map_into_iter(ai, st, a, c):
    v = a[0]
    distinct(st, "iteration")
    return v


@model("std::collections::BTreeMap::<K, V, A>::iter", "std::collections::BTreeMap::<K, V, A>::iter_mut",
       "<&'a mut std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter",
       "std::collections::HashMap::<K, V, S, A>::iter",
       "<&'a std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter",
       "<&'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter")
def map_iter(ai, st, a, c):
    o, v, _ = handle(ai, st, a[0])
    distinct(st, "iteration")
    return ("a", 0, (("p", o, (("i", 0),), ai.seq_len(st, v)), 0))


@model("<std::collections::btree_map::Iter<'a, K, V> as std::iter::Iterator>::next",
       "<std::collections::btree_map::IterMut<'a, K, V> as std::iter::Iterator>::next",
       "<std::collections::hash_map::Iter<'a, K, V> as std::iter::Iterator>::next")
def map_iter_next(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    it = ai.read(st, p[1], p[2])
    base, k = it[2]
    n = base[3]
    cnd = lt(k, n)
    e = st.num.evalc(cnd)
    if e is None:
        raise Split([cnd], [neg(cnd)])
    if not e:
        return NONE
    ai.write(st, p[1], p[2], ("a", 0, (base, st.num.norm(add(k, 1)))))
    return some(("a", 0, (("p", base[1], (("i", k), 0), None), ("p", base[1], (("i", k), 1), None))))


# ---- drop of collections --------------------------------------------------------------------------
def drop_coll(ai, st, ptr, ty):
    v = ai.read(st, ptr[1], ptr[2])
    while v[0] == "a" and v[2]:
        v = v[2][0]
    if v == UNINIT:
        ai.alarm(st, "uninit", "drop of an uninitialised or moved collection")
        raise Dead()
    if v[0] != "o":
        raise Unsupported("drop of collection %s" % (v[:2],))
    if v[1] not in st.heap:
        ai.alarm(st, "uaf", "drop of a collection that has already been freed")
        raise Dead()
    return drop_items(ai, st, v[1], st.heap[v[1]])


AI.dropmodels = {n: drop_coll for n in (
    "std::vec::Vec", "std::collections::BTreeMap", "std::collections::HashMap", "std::vec::IntoIter", "std::vec::Drain",
    "std::collections::btree_map::IntoIter", "std::collections::hash_map::IntoIter", "std::collections::btree::map::BTreeMap",
    "std::array::IntoIter")}


# ---- boxes and raw memory ---------------------------------------------------------------------------
def alloc_sites(ai, st, size, c):
    o = ai.new_obj(st, UNINIT, None, "h")
    return ("p", o, (), None)


@model("std::boxed::box_new_uninit", "std::alloc::exchange_malloc", "std::alloc::alloc", "std::alloc::__rust_alloc")
def box_new_uninit(ai, st, a, c):
    return alloc_sites(ai, st, None, c)


@model("std::boxed::Box::<T>::new", "std::boxed::Box::<T, A>::new_in", "std::boxed::Box::<T>::pin")
def box_new(ai, st, a, c):
    t = elem_of(ai, c.dty)
    if ai.P.ty(t)["k"] == "adt" and c.inf["path"].endswith("pin"):
        return NotImplemented
    if ai.is_zst(t):
        return box_value(ai, ("n", 1, None))
    o = ai.new_obj(st, a[0], t, "h")
    return box_value(ai, ("p", o, (), None))


@model("std::boxed::Box::<T>::new_uninit")
def box_uninit(ai, st, a, c):
    return box_value(ai, ("p", ai.new_obj(st, UNINIT, elem_of(ai, c.dty), "h"), (), None))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    v = ai.read(st, p[1], p[2])
    while v[0] == "a" and len(v[2]) == 1:
        v = v[2][0]
    if v[0] != "arr":
        raise Unsupported("vec![..] of %s" % (v[:1],))
    free(ai, st, p)
    et = elem_of(ai, c.dty)
    if is_u8(ai, et):
        return new_coll(ai, st, ("txt", tuple(byte_piece(ai.num(st, x)) for x in v[1])))
    return new_coll(ai, st, ("seq", tuple(v[1]), et))


def box_value(ai, p):
    # Box { 0: Unique { pointer: NonNull { pointer }, _marker }, 1: alloc }
    return ("a", 0, (("a", 0, (("a", 0, (p,)), UNIT)), UNIT))


@model("<std::boxed::Box<T, A> as std::ops::Drop>::drop")
def box_free(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    v = ai.unwrap_ptr(ai.read(st, p[1], p[2]))
    free(ai, st, v)
    return UNIT


def free(ai, st, v):
    if v == UNINIT:
        ai.alarm(st, "uninit", "free of an uninitialised or moved box")
        raise Dead()
    if v[0] == "n":
        return
    if v[0] != "p":
        raise Unsupported("free of %s" % (v[:2],))
    if v[1] not in st.heap:
        ai.alarm(st, "uaf", "double free")
        raise Dead()
    if v[1][0] != "h":
        ai.alarm(st, "ub", "free of memory that is not on the heap")
        raise Dead()
    st.heap.pop(v[1])


@model("std::alloc::dealloc", "std::alloc::__rust_dealloc")
def dealloc(ai, st, a, c):
    free(ai, st, ai.unwrap_ptr(a[0]))
    return UNIT


@model("std::boxed::Box::<T>::from_raw", "std::boxed::Box::<T, A>::from_raw_in")
def box_from_raw(ai, st, a, c):
    return box_value(ai, ai.unwrap_ptr(a[0]))


@model("std::boxed::Box::<T>::into_raw", "std::boxed::Box::<T, A>::leak", "std::boxed::Box::<T>::leak")
def box_into_raw(ai, st, a, c):
    return ai.unwrap_ptr(a[0])


# ---- mem / ptr ----------------------------------------------------------------------------------------
@model("std::ptr::read", "std::ptr::const_ptr::<impl *const T>::read", "std::ptr::mut_ptr::<impl *mut T>::read",
       "std::ptr::NonNull::<T>::read")
def ptr_read(ai, st, a, c):
    p = deref_ptr(ai, st, a[0])
    return ai.read_place(st, p[1], p[2], c.dty)


def deref_ptr(ai, st, p):
    p = ai.unwrap_ptr(p)
    if p == UNINIT:
        ai.alarm(st, "uninit", "use of an uninitialised pointer")
        raise Dead()
    if p[0] == "n":
        return ("p", ("zst", p[1]), (), None) if not (st.heap.setdefault(("zst", p[1]), UNIT)) is None else None
    if p[0] != "p":
        raise Unsupported("pointer %s" % (p[:2],))
    return p


@model("std::ptr::write", "std::ptr::mut_ptr::<impl *mut T>::write", "std::ptr::NonNull::<T>::write")
def ptr_write(ai, st, a, c):
    p = deref_ptr(ai, st, a[0])
    ai.write(st, p[1], p[2], a[1])
    return UNIT


@model("std::mem::replace", "std::ptr::replace")
def mem_replace(ai, st, a, c):
    p = deref_ptr(ai, st, a[0])
    v = ai.read(st, p[1], p[2])
    ai.write(st, p[1], p[2], a[1])
    return v


@model("std::mem::swap", "std::ptr::swap")
def mem_swap(ai, st, a, c):
    p, q = deref_ptr(ai, st, a[0]), deref_ptr(ai, st, a[1])
    v, w = ai.read(st, p[1], p[2]), ai.read(st, q[1], q[2])
    ai.write(st, p[1], p[2], w)
    ai.write(st, q[1], q[2], v)
    return UNIT


@model("std::option::Option::<T>::take")
def option_take(ai, st, a, c):
    p = deref_ptr(ai, st, a[0])
    v = ai.read(st, p[1], p[2])
    ai.write(st, p[1], p[2], NONE)
    return v


@model("std::mem::forget")
def mem_forget(ai, st, a, c):
    return UNIT


@model("std::mem::MaybeUninit::<T>::new")
def mu_new(ai, st, a, c):
    return a[0]


@model("std::mem::MaybeUninit::<T>::uninit")
def mu_uninit(ai, st, a, c):
    return UNINIT


@model("std::mem::MaybeUninit::<T>::assume_init", "std::mem::MaybeUninit::<T>::assume_init_read")
def mu_assume(ai, st, a, c):
    v = a[0]
    if c.inf["path"].endswith("_read"):
        p = deref_ptr(ai, st, a[0])
        v = ai.read(st, p[1], p[2])
    return v


@model("std::mem::MaybeUninit::<T>::write")
def mu_write(ai, st, a, c):
    p = deref_ptr(ai, st, a[0])
    ai.write(st, p[1], p[2], a[1])
    return p


@model("std::mem::MaybeUninit::<T>::as_ptr", "std::mem::MaybeUninit::<T>::as_mut_ptr", "std::mem::MaybeUninit::<T>::assume_init_ref",
       "std::mem::MaybeUninit::<T>::assume_init_mut", "std::mem::ManuallyDrop::<T>::as_ptr")
def mu_ptr(ai, st, a, c):
    return ai.unwrap_ptr(a[0])


@model("std::mem::drop")
def mem_drop(ai, st, a, c):
    t = c.argty(0)
    o = ai.new_obj(st, a[0], t, "h")
    ai.do_moves(st, c.moves)
    ai.push_native(st, "drop", ("drops", ((("p", o, (), None), t),), False, (o,)), c.dest, c.target, c.unwind)
    raise Entered()


# ---- strings --------------------------------------------------------------------------------------------
@model("std::str::from_utf8", "std::str::from_utf8_mut")
def from_utf8(ai, st, a, c):
    ps = norm_pieces(ai, st, slice_pieces(ai, st, a[0]))
    good = True
    for p in ps:
        if p[1] == "lit":
            try:
                p[2].decode()
            except UnicodeDecodeError:
                if len(ps) > 1:
                    raise Unsupported("from_utf8 of unknown bytes")
                good = False
        elif p[1] == "by":
            k = le(p[2], 127)
            e = st.num.evalc(k)
            if e is None:
                raise Split([k], [neg(k)])
            if not e:
                raise Unsupported("from_utf8 of unknown bytes")
        elif p[1] != "fmt":
            raise Unsupported("from_utf8 of unknown bytes")
    return ok(a[0]) if good else ("a", 1, (("a", 0, (0, NONE)),))


@model("std::str::<impl str>::as_bytes", "std::str::from_utf8_unchecked", "std::str::from_utf8_unchecked_mut", "std::str::as_bytes_mut",
       "<str as std::convert::AsRef<str>>::as_ref", "<str as std::convert::AsRef<[u8]>>::as_ref")
def str_same(ai, st, a, c):
    h = getattr(ai.env, "utf8_unchecked", None)
    if h is not None and "utf8_unchecked" in c.inf["path"]:
        h(ai, st, a[0])
    return ai.unwrap_ptr(a[0])


@model("std::str::<impl str>::len", "std::slice::<impl [T]>::len")
def str_len(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    return p[3] if p[0] == "p" else p[2]


@model("std::str::<impl str>::is_empty", "std::slice::<impl [T]>::is_empty")
def str_is_empty(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    n = p[3] if p[0] == "p" else p[2]
    e = eq(n, 0)
    r = st.num.evalc(e)
    return e if r is None else r


@model("std::str::<impl str>::as_ptr", "std::slice::<impl [T]>::as_ptr", "std::slice::<impl [T]>::as_mut_ptr")
def str_as_ptr(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    return (p[0], p[1], p[2], None) if p[0] == "p" else ("n", p[1], None)


@model("std::str::<impl std::borrow::ToOwned for str>::to_owned", "<std::string::String as std::convert::From<&str>>::from",
       "<str as std::string::SpecToString>::spec_to_string", "std::str::<impl str>::to_owned",
       "std::str::<impl str>::into_string", "<str as std::string::ToString>::to_string",
       "<std::string::String as std::convert::From<&mut str>>::from")
def str_to_owned(ai, st, a, c):
    if c.dty is None or ai.P.ty(c.dty)["k"] != "adt":
        return NotImplemented
    ps = norm_pieces(ai, st, slice_pieces(ai, st, a[0]))
    return ("a", 0, (new_coll(ai, st, ("txt", ps)),))


@model("<std::string::String as std::clone::Clone>::clone")
def string_clone(ai, st, a, c):
    o, v, _ = handle(ai, st, a[0])
    return ("a", 0, (new_coll(ai, st, v),))


@model("std::slice::<impl [T]>::to_vec", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned",
       "<std::vec::Vec<T> as std::convert::From<&[T]>>::from")
def to_vec(ai, st, a, c):
    if not is_u8(ai, elem_of(ai, c.dty)):
        i = ai.P.q("sub", "witness::subst::vclone", elem_of(ai, c.dty))
        return NotImplemented if i is None else c.enter(st, i, [a[0]])
    return new_coll(ai, st, ("txt", norm_pieces(ai, st, slice_pieces(ai, st, a[0]))))


@model("<std::vec::Vec<T, A> as std::clone::Clone>::clone", "<std::vec::Vec<T> as std::clone::Clone>::clone")
def vec_clone(ai, st, a, c):
    o, v, _ = handle(ai, st, a[0])
    if v[0] == "txt":
        return new_coll(ai, st, v)
    i = ai.P.q("sub", "witness::subst::vclone", elem_of(ai, c.dty))
    return NotImplemented if i is None else c.enter(st, i, [("p", o, (("i", 0),), ai.seq_len(st, v))])


@model("<std::vec::Vec<T, A> as std::clone::Clone>::clone_from", "<std::vec::Vec<T> as std::clone::Clone>::clone_from")
def vec_clone_from(ai, st, a, c):
    i = ai.P.q("sub", "witness::subst::vclone_from", [x for x in c.inf["args"] if isinstance(x, int)][0])
    return NotImplemented if i is None or handle(ai, st, a[0])[1][0] == "txt" else c.enter(st, i, a)


@model("<T as std::string::ToString>::to_string", "<str as std::string::SpecToString>::spec_to_string",
       "<T as std::string::SpecToString>::spec_to_string")
def to_string(ai, st, a, c):
    t = ai.pointee(c.argty(0))
    d = ai.P.ty(t)
    if d["k"] == "str":
        return str_to_owned(ai, st, a, c)
    r = ai.env.to_string(ai, st, a[0], t) if hasattr(ai.env, "to_string") else None
    if r is not None:
        return r
    if d["k"] == "adt" and d["def"].endswith("::String"):
        return string_clone(ai, st, a, c)
    if d["k"] == "ref":
        p = ai.unwrap_ptr(a[0])
        v = ai.read(st, p[1], p[2])
        if ai.P.ty(d["elem"])["k"] == "str":
            return ("a", 0, (new_coll(ai, st, ("txt", norm_pieces(ai, st, slice_pieces(ai, st, v)))),))
    if d["k"] in ("uint", "int", "char", "bool", "float"):
        ps = format_arg(ai, st, ("x", "fmtarg", "display", str(t), a[0]), 0x20 | 3 << 29, 0)
        return ("a", 0, (new_coll(ai, st, ("txt", norm_pieces(ai, st, ps))),))
    raise Unsupported("to_string of " + d["name"])


def text_of(ai, st, p):
    return norm_pieces(ai, st, slice_pieces(ai, st, p))


@model("std::str::traits::<impl std::cmp::PartialEq for str>::eq", "std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq")
def str_eq(ai, st, a, c):
    p, q = ai.unwrap_ptr(a[0]), ai.unwrap_ptr(a[1])
    if "slice" in c.inf["path"]:
        t = ai.P.ty(ai.pointee(c.argty(0)))
        if not is_u8(ai, t["elem"]):
            return NotImplemented
    x, y = text_of(ai, st, p), text_of(ai, st, q)
    return text_eq(ai, st, x, y)


def text_eq(ai, st, x, y):
    h = getattr(ai.env, "text_eq", None)
    if h is not None:
        r = h(ai, st, x, y)
        if r is not None:
            return r
    if x == y:
        return True
    if all(p[1] == "lit" for p in x) and all(p[1] == "lit" for p in y):
        return b"".join(p[2] for p in x) == b"".join(p[2] for p in y)
    nx = ny = 0
    for p in x:
        nx = add(nx, ai.piece_len(st, p))
    for p in y:
        ny = add(ny, ai.piece_len(st, p))
    cnd = eq(nx, ny)
    e = st.num.evalc(cnd)
    if e is None:
        raise Split([cnd], [neg(cnd)])
    if not e:
        return False
    return ai.pred(st, "streq", x, y)


@model("std::char::methods::<impl char>::encode_utf8")
def encode_utf8(ai, st, a, c):
    ch = ai.num(st, a[0])
    lo, hi = st.num.bounds(ch)
    cl = lambda x: 1 if x < 0x80 else 2 if x < 0x800 else 3 if x < 0x10000 else 4
    if cl(lo) != cl(hi):
        cuts = [c2 for c2 in (0x80, 0x800, 0x10000) if lo < c2 <= hi]
        k = cuts[0]
        raise Split([lt(ch, k)], [le(k, ch)])
    n = cl(lo)
    buf = ai.unwrap_ptr(a[1])
    bl = buf[3]
    k = le(n, bl)
    e = st.num.evalc(k)
    if e is None:
        raise Split([k], [neg(k)])
    if not e:
        ai.env.panic(ai, st, "encode_utf8 into a buffer that is too short")
        raise Dead()
    # what the caller may read from the buffer itself afterwards
    base = buf[2] if buf[2] and buf[2][-1][0] == "i" else buf[2] + (("i", 0),)
    for i in range(n):
        b = ch if n == 1 else st.num.fresh(0xC2, 0xF4) if i == 0 else st.num.fresh(0x80, 0xBF)
        if isinstance(ch, int):
            b = chr(ch).encode("utf-8", "surrogatepass")[i]
        ai.write(st, buf[1], base[:-1] + (("i", st.num.norm(add(base[-1][1], i))),), b)
    o = ai.new_obj(st, ("txt", norm_pieces(ai, st, char_pieces(ai, st, ch))), None, "h")
    return ("p", o, (("i", 0),), n)


@model("std::char::methods::<impl char>::len_utf8")
def len_utf8(ai, st, a, c):
    ch = ai.num(st, a[0])
    return ai.piece_len(st, ("P", "ch", ch)) if not isinstance(ch, int) else len(chr(ch).encode("utf-8", "surrogatepass"))


@model("std::char::from_u32", "std::char::convert::from_u32", "std::char::methods::<impl char>::from_u32")
def char_from_u32(ai, st, a, c):
    x = ai.num(st, a[0])
    s = st.num.iset(x)
    good = iinter(s, ((0, 0xD7FF), (0xE000, 0x10FFFF)))
    bad = iminus(s, ((0, 0xD7FF), (0xE000, 0x10FFFF)))
    if good and bad:
        raise Split([("in", x, good)], [("in", x, bad)])
    return some(x) if good else NONE


@model("std::char::from_u32_unchecked", "std::char::convert::from_u32_unchecked", "std::char::methods::<impl char>::from_u32_unchecked")
def char_from_u32_unchecked(ai, st, a, c):
    x = ai.num(st, a[0])
    if iminus(st.num.iset(x), ((0, 0xD7FF), (0xE000, 0x10FFFF))):
        ai.alarm(st, "ub", "unchecked conversion of a number that is not a character")
        raise Dead()
    return x


# ---- indexing of text ----------------------------------------------------------------------------------
def range_of_arg(ai, st, v, t, n):
    nm = ai.P.ty(t)["def"].split("::")[-1]
    if nm in ("Range", "IndexRange"):
        return ai.num(st, v[2][0]), ai.num(st, v[2][1])
    if nm == "RangeFrom":
        return ai.num(st, v[2][0]), n
    if nm == "RangeTo":
        return 0, ai.num(st, v[2][0])
    if nm == "RangeFull":
        return 0, n
    if nm == "RangeInclusive":
        return ai.num(st, v[2][0]), add(ai.num(st, v[2][1]), 1)
    if nm == "RangeToInclusive":
        return 0, add(ai.num(st, v[2][0]), 1)
    return None


def subslice(ai, st, p, a, b, n, c, text):
    for cnd, msg in ((le(a, b), "slice starts after its end"), (le(b, n), "slice end out of range")):
        e = st.num.evalc(cnd)
        if e is None:
            raise Split([cnd], [neg(cnd)])
        if not e:
            return msg
    if text:
        for k in (a, b):
            e = st.num.evalc(eq(k, n))
            if e is not True and k != 0 and not char_boundary(ai, st, p, k, n):
                return "string slice not at a character boundary"
    return ("p", p[1], ai.offset_path(p[2], a), st.num.norm(sub(b, a)))


def char_boundary(ai, st, p, k, n):
    h = getattr(ai.env, "boundary", None)
    if h is not None:
        r = h(ai, st, p, k, n)
        if r is not None:
            return r
    # the byte at k decides
    e = st.num.evalc(lt(k, n))
    if e is None:
        raise Split([lt(k, n)], [neg(lt(k, n))])
    if not e:
        return True
    first = fresh_id()
    b = ai.read(st, p[1], ai.offset_path(p[2], k))
    s = st.num.iset(b)
    if not isinstance(b, int) and not isinstance(st.num.norm(b), int) and any(z > first for z, _ in st.num.norm(b).t):
        return not iinter(s, ((0x80, 0xBF),))           # a byte nothing is known about
    cont = iinter(s, ((0x80, 0xBF),))
    rest = iminus(s, ((0x80, 0xBF),))
    if cont and rest:
        raise Split([("in", b, cont)], [("in", b, rest)])
    return not cont


@model("std::str::traits::<impl std::ops::Index<I> for str>::index", "std::str::traits::<impl std::ops::IndexMut<I> for str>::index_mut",
       "std::slice::index::<impl std::ops::Index<I> for [T]>::index", "std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
       "<std::string::String as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::Index<I>>::index",
       "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut")
def index(ai, st, a, c):
    t = c.argty(1)
    path = c.inf["path"]
    p = ai.unwrap_ptr(a[0])
    coll = "Vec<" in path or "String as" in path
    if coll:
        o, v, _ = handle(ai, st, a[0])
        p = ("p", o, (("i", 0),), ai.seq_len(st, v))
    n = p[3] if p[0] == "p" else p[2]
    if ai.P.ty(t)["k"] == "uint":
        i = ai.num(st, a[1])
        cnd = lt(i, n)
        e = st.num.evalc(cnd)
        if e is None:
            raise Split([cnd], [neg(cnd)])
        if not e:
            return panicking(ai, st, "index out of bounds")
        return ("p", p[1], ai.offset_path(p[2], i), None)
    r = range_of_arg(ai, st, a[1], t, n)
    if r is None:
        return NotImplemented
    text = " for str>" in path or "String as" in path
    q = subslice(ai, st, p, r[0], r[1], n, c, text)
    if isinstance(q, str):
        return panicking(ai, st, q)
    return q


@model("std::slice::<impl [T]>::get", "std::slice::<impl [T]>::get_mut", "std::str::<impl str>::get", "std::slice::<impl [T]>::get_unchecked",
       "std::slice::<impl [T]>::get_unchecked_mut", "std::str::<impl str>::get_unchecked")
def get(ai, st, a, c):
    t = c.argty(1)
    p = ai.unwrap_ptr(a[0])
    n = p[3] if p[0] == "p" else p[2]
    unchecked = "unchecked" in c.inf["path"]
    if ai.P.ty(t)["k"] == "uint":
        i = ai.num(st, a[1])
        cnd = lt(i, n)
        e = st.num.evalc(cnd)
        if e is None:
            raise Split([cnd], [neg(cnd)])
        if not e:
            if unchecked:
                ai.alarm(st, "oob", "unchecked index out of bounds")
                raise Dead()
            return NONE
        q = ("p", p[1], ai.offset_path(p[2], i), None)
        return q if unchecked else some(q)
    r = range_of_arg(ai, st, a[1], t, n)
    if r is None:
        return NotImplemented
    q = subslice(ai, st, p, r[0], r[1], n, c, "impl str" in c.inf["path"])
    if isinstance(q, str):
        if unchecked:
            ai.alarm(st, "oob", "unchecked " + q)
            raise Dead()
        return NONE
    return q if unchecked else some(q)


@model("std::str::<impl str>::is_char_boundary")
def is_char_boundary(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    n = p[3]
    k = ai.num(st, a[1])
    if k == 0:
        return True
    e = st.num.evalc(le(k, n))
    if e is None:
        raise Split([le(k, n)], [neg(le(k, n))])
    if not e:
        return False
    if st.num.evalc(eq(k, n)) is True:
        return True
    return char_boundary(ai, st, p, k, n)


@model("std::slice::<impl [T]>::first", "std::slice::<impl [T]>::last", "std::slice::<impl [T]>::last_mut", "std::slice::<impl [T]>::first_mut")
def first_last(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    n = p[3] if p[0] == "p" else p[2]
    e = st.num.evalc(eq(n, 0))
    if e is None:
        raise Split([eq(n, 0)], [neg(eq(n, 0))])
    if e:
        return NONE
    k = 0 if "first" in c.inf["path"] else sub(n, 1)
    return some(("p", p[1], ai.offset_path(p[2], k), None))


# ---- numbers -------------------------------------------------------------------------------------------
def _ints(f):
    return ["std::num::<impl %s>::%s" % (t, f) for t in
            ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")]


def nty(c, i=0):
    return c.argty(i)


@model(*(_ints("saturating_add") + _ints("saturating_sub") + _ints("saturating_mul")))
def saturating(ai, st, a, c):
    x, y = ai.num(st, a[0]), ai.num(st, a[1])
    op = c.inf["path"].rsplit("_", 1)[-1]
    r = arith(ai, st, op, x, y, nty(c))
    lo, hi = ai.range_of(nty(c))
    for cnd, v in ((lt(hi, r), hi), (lt(r, lo), lo)):
        e = st.num.evalc(cnd)
        if e is None:
            raise Split([cnd], [neg(cnd)])
        if e:
            return v
    return r


def arith(ai, st, op, x, y, t):
    if op == "add":
        return st.num.norm(add(x, y))
    if op == "sub":
        return st.num.norm(sub(x, y))
    if op == "mul":
        if isinstance(y, int):
            return st.num.norm(mul(x, y))
        if isinstance(x, int):
            return st.num.norm(mul(y, x))
        return ai.nonlinear(st, "mul", x, y, t)
    raise Unsupported(op)


@model(*(_ints("wrapping_add") + _ints("wrapping_sub") + _ints("wrapping_mul")))
def wrapping(ai, st, a, c):
    x, y = ai.num(st, a[0]), ai.num(st, a[1])
    return ai.wrap(st, arith(ai, st, c.inf["path"].rsplit("_", 1)[-1], x, y, nty(c)), nty(c))


@model(*(_ints("checked_add") + _ints("checked_sub") + _ints("checked_mul")))
def checked(ai, st, a, c):
    x, y = ai.num(st, a[0]), ai.num(st, a[1])
    v, ov = ai.wrap(st, arith(ai, st, c.inf["path"].rsplit("_", 1)[-1], x, y, nty(c)), nty(c), True)
    return NONE if ov else some(v)


@model(*(_ints("overflowing_add") + _ints("overflowing_sub") + _ints("overflowing_mul")))
def overflowing(ai, st, a, c):
    x, y = ai.num(st, a[0]), ai.num(st, a[1])
    v, ov = ai.wrap(st, arith(ai, st, c.inf["path"].rsplit("_", 1)[-1], x, y, nty(c)), nty(c), True)
    return ("a", 0, (v, ov))


@model(*_ints("wrapping_neg"))
def wrapping_neg(ai, st, a, c):
    return ai.wrap(st, st.num.norm(mul(ai.num(st, a[0]), -1)), nty(c))


@model(*(_ints("checked_neg")))
def checked_neg(ai, st, a, c):
    v, ov = ai.wrap(st, st.num.norm(mul(ai.num(st, a[0]), -1)), nty(c), True)
    return NONE if ov else some(v)


@model(*(_ints("unsigned_abs") + _ints("abs") + _ints("wrapping_abs")))
def absolute(ai, st, a, c):
    x = ai.num(st, a[0])
    cnd = lt(x, 0)
    e = st.num.evalc(cnd)
    if e is None:
        raise Split([cnd], [neg(cnd)])
    r = st.num.norm(mul(x, -1)) if e else x
    if c.inf["path"].endswith("wrapping_abs"):
        return ai.wrap(st, r, nty(c))
    if c.inf["path"].endswith("::abs"):
        v, ov = ai.wrap(st, r, nty(c), True)
        if ov:
            return panicking(ai, st, "arithmetic overflow")
        return v
    return r


@model(*(_ints("is_negative") + _ints("is_positive")))
def is_negative(ai, st, a, c):
    x = ai.num(st, a[0])
    cnd = lt(x, 0) if c.inf["path"].endswith("is_negative") else lt(0, x)
    e = st.num.evalc(cnd)
    return cnd if e is None else e


@model(*(_ints("min") + _ints("max") + ["std::cmp::Ord::min", "std::cmp::Ord::max", "std::cmp::min", "std::cmp::max"]))
def minmax(ai, st, a, c):
    if ai.range_of(nty(c)) is None:
        return NotImplemented
    x, y = ai.num(st, a[0]), ai.num(st, a[1])
    cnd = le(x, y)
    e = st.num.evalc(cnd)
    if e is None:
        raise Split([cnd], [neg(cnd)])
    mn = c.inf["path"].endswith("min")
    return (x if e else y) if mn else (y if e else x)


@model("std::convert::num::<impl std::convert::From<u8> for u16>::from")
def _from(ai, st, a, c):
    return ai.num(st, a[0])


for _a in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "char", "u128", "i128"):
    for _b in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"):
        M["std::convert::num::<impl std::convert::From<%s> for %s>::from" % (_a, _b)] = _from
M["std::char::convert::<impl std::convert::From<char> for u32>::from"] = _from
M["std::char::convert::<impl std::convert::From<u8> for char>::from"] = _from
M["<char as std::convert::From<u8>>::from"] = _from


def _try_from(ai, st, a, c):
    x = ai.num(st, a[0])
    t = [f for f in ai.P.ty(c.dty)["args"] if isinstance(f, int)][0]
    lo, hi = ai.range_of(t)
    for cnd in (lt(x, lo), lt(hi, x)):
        e = st.num.evalc(cnd)
        if e is None:
            raise Split([cnd], [neg(cnd)])
        if e:
            return ("a", 1, (("a", 0, (UNIT,)),))
    return ("a", 0, (x,))


for _a in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"):
    for _b in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"):
        for _m in ("std::convert::num", "std::convert::num::ptr_try_from_impls"):
            M["%s::<impl std::convert::TryFrom<%s> for %s>::try_from" % (_m, _a, _b)] = _try_from


@model("std::f64::<impl f64>::is_finite", "std::f64::<impl f64>::is_infinite", "std::f64::<impl f64>::is_nan",
       "std::f64::<impl f64>::abs", "std::f64::<impl f64>::to_bits", "std::f32::<impl f32>::to_bits",
       "std::f64::<impl f64>::is_sign_negative")
def f64_pred(ai, st, a, c):
    name = c.inf["path"].split("::")[-1]
    h = getattr(ai.env, "fpred", None)
    if h is not None:
        r = h(ai, st, name, a[0])
        if r is not None:
            return r
    if name in ("abs", "to_bits"):
        return ("x", "f" + name, a[0])
    if name == "is_finite":
        return not (ai.pred(st, "nan", a[0]) or ai.pred(st, "inf", a[0]))
    if name == "is_infinite":
        return ai.pred(st, "inf", a[0])
    if name == "is_nan":
        return ai.pred(st, "nan", a[0])
    return ai.pred(st, name, a[0])


# ---- formatting of numbers ----------------------------------------------------------------------------
@model("itoa::Buffer::new", "ryu::buffer::Buffer::new", "ryu::Buffer::new")
def fmt_buffer(ai, st, a, c):
    return UNINIT


@model("itoa::Buffer::format", "ryu::buffer::Buffer::format_finite", "ryu::buffer::Buffer::format", "ryu::Buffer::format_finite", "ryu::Buffer::format")
def fmt_number(ai, st, a, c):
    kind = "int" if c.inf["path"].startswith("itoa") else "float" if c.inf["path"].endswith("finite") else "anyfloat"
    t = ai.P.ty(c.argty(1))
    v = a[1]
    if t["k"] in ("uint", "int"):
        v = ai.num(st, v)
    key = ("fmt", kind, ai.normv(st, v))
    if key not in st.num.memo:
        st.num.memo[key] = st.num.fresh(1, 40)
    n = st.num.norm(st.num.memo[key])
    bits = t.get("bits")
    o = ai.new_obj(st, ("txt", (("P", "fmt", kind, str(bits), v, n),)), None, "h")
    return ("p", o, (("i", 0),), n)


def format_pieces(ai, st, v):
    """the text of format_args!(..): literal pieces and what Display / LowerHex / UpperHex make of the arguments"""
    if v[:2] != ("x", "fmtargs") or len(v) < 3:
        raise Unsupported("formatting of %s" % (v[:2],))
    if len(v) == 3:
        return slice_pieces(ai, st, v[2])
    t, args = ai.unwrap_ptr(v[2]), ai.unwrap_ptr(v[3])
    if t[2] and t[2][-1] == ("i", 0):
        t = ("p", t[1], t[2][:-1], None)
    at = [0]

    def take(n):
        r = 0
        for i in range(n):
            x = ai.num(st, ai.read(st, t[1], t[2] + (("i", at[0]),)))
            if not isinstance(x, int):
                raise Unsupported("unknown format string")
            r |= x << (8 * i)
            at[0] += 1
        return r
    out, nxt = (), 0
    while True:
        n = take(1)
        if n == 0:
            return out
        if n <= 0x80:
            n = n if n < 0x80 else take(2)
            out += (("P", "lit", bytes([take(1) for _ in range(n)])),)
            continue
        fl = take(4) if n & 1 else 0x20 | 3 << 29
        width = take(2) if n & 2 else 0
        prec = take(2) if n & 4 else None
        nxt = take(2) if n & 8 else nxt
        if n & 0x30 or prec is not None:
            raise Unsupported("format width or precision")
        q = args[2] + (("i", nxt),) if not (args[2] and isinstance(args[2][-1], tuple) and args[2][-1][0] == "i") else \
            args[2][:-1] + (("i", add(args[2][-1][1], nxt)),)
        out += format_arg(ai, st, ai.read(st, args[1], q), fl, width)
        nxt += 1


def format_arg(ai, st, x, fl, width):
    if x[:2] != ("x", "fmtarg"):
        raise Unsupported("format argument %s" % (x[:2],))
    how, ty, p = x[2], int(x[3]), ai.unwrap_ptr(x[4])
    d = ai.P.ty(ty)
    while d["k"] == "ref":
        ty = d["elem"]
        p, d = ai.unwrap_ptr(ai.read(st, p[1], p[2])), ai.P.ty(ty)
    plain = fl == (0x20 | 3 << 29) and not width
    if d["k"] == "str" and how == "display" and plain:
        return slice_pieces(ai, st, p)
    v = ai.read(st, p[1], p[2])
    if d["k"] == "adt" and d["def"].split("::")[-1] == "String" and how == "display" and plain:
        return slice_pieces(ai, st, vec_deref(ai, st, [p], None))
    if d["k"] == "bool" and how == "display" and plain:
        e = v if isinstance(v, bool) else st.num.evalc(v)
        if e is None:
            raise Split([v], [neg(v)])
        return (("P", "lit", b"true" if e else b"false"),)
    if d["k"] == "char" and how == "display" and plain:
        return char_pieces(ai, st, ai.num(st, v))
    if d["k"] == "float" and how in ("display", "debug") and plain:
        return (fmt_piece(ai, st, "disp" if how == "display" else "debug", v, d),)
    if d["k"] in ("uint", "int"):
        v = st.num.norm(ai.num(st, v))
        if how == "display" and plain and d.get("bits") != 8:
            return (fmt_piece(ai, st, "int", v, d),)
        if not isinstance(v, int):
            vals = [y for lo, hi in st.num.iset(v) for y in range(lo, hi + 1)] if sum(hi - lo + 1 for lo, hi in st.num.iset(v)) <= 256 else None
            if vals is None:
                raise Unsupported("formatting of an unknown number")
            raise Split(*[[eq(v, y)] for y in vals])
        if how not in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary") or fl & ~((1 << 21) - 1) & ~(1 << 24 | 1 << 27 | 3 << 29):
            raise Unsupported("format of a number")
        if v < 0 and how not in ("display", "debug"):
            v += 1 << d["bits"]
        txt = {"lower_hex": "%x", "upper_hex": "%X", "octal": "%o"}.get(how, "%d") % v if how != "binary" else bin(v)[2:]
        if fl >> 24 & 1:
            txt = txt.zfill(width)
        elif len(txt) < width:
            k, c = width - len(txt), chr(fl & ((1 << 21) - 1))
            al = fl >> 29
            txt = {0: txt + c * k, 2: c * (k // 2) + txt + c * (k - k // 2)}.get(al, c * k + txt)
        return (("P", "lit", txt.encode()),)
    raise Unsupported("formatting of " + d["name"])


def fmt_piece(ai, st, kind, v, t):
    key = ("fmt", kind, ai.normv(st, v))
    if key not in st.num.memo:
        st.num.memo[key] = st.num.fresh(1, 40 if kind == "int" else 400)
    return ("P", "fmt", kind, str(t.get("bits")), v, st.num.norm(st.num.memo[key]))


@model("<std::string::String as std::fmt::Write>::write_fmt", "std::fmt::Write::write_fmt")
def write_fmt(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    if ai.P.ty(ai.pointee(c.argty(0)))["k"] == "ref":
        p = ai.unwrap_ptr(ai.read(st, p[1], p[2]))
    o, v, pl = handle(ai, st, p)
    if v[0] != "txt":
        raise Unsupported("write_fmt to %s" % v[0])
    ps = format_pieces(ai, st, a[1])
    o, v, pl = handle(ai, st, p)
    regrow(ai, st, o, pl, ("txt", norm_pieces(ai, st, v[1] + ps)))
    return ok()


@model("std::fmt::format")
def fmt_format(ai, st, a, c):
    return ("a", 0, (new_coll(ai, st, ("txt", norm_pieces(ai, st, format_pieces(ai, st, a[0])))),))


# ---- panics ---------------------------------------------------------------------------------------------
def panicking(ai, st, what):
    ai.env.panic(ai, st, what)
    raise Dead()


def any_panic(ai, st, a, c):
    nm = canon_name(c.inf["path"]).split("::")[-1]
    text = {"panic": "explicit panic or assertion", "panic_fmt": "explicit panic or assertion", "unwrap_failed": "unwrap of None or Err",
            "panic_bounds_check": "index out of bounds"}.get(nm, nm)
    return panicking(ai, st, text)


DIV_OK = ("std::process::abort", "std::alloc::handle_alloc_error")


def fallback0(ai, path, inst, inf):
    if path.startswith(("std::panicking::", "std::rt::panic", "std::option::unwrap_failed", "std::option::expect_failed",
                        "std::result::unwrap_failed", "std::slice::index::slice_", "std::str::slice_error_fail", "std::rt::begin_panic",
                        "std::intrinsics::abort", "std::cell::panic_")):
        return any_panic
    if path.endswith("::precondition_check") or path.startswith("std::ub_checks::"):
        return lambda ai, st, a, c: UNIT if ai.is_zst(c.dty) else False
    if path.startswith("std::fmt::Arguments::<") and path.split("::")[-1] in ("new", "from_str", "from_str_nonconst"):
        return lambda ai, st, a, c: ("x", "fmtargs") + tuple(a)
    if path.startswith("std::fmt::rt::") and path.split("::")[-1].startswith("new_"):
        nm = path.split("::")[-1][4:]
        return lambda ai, st, a, c: ("x", "fmtarg", nm, str(ai.pointee(c.argty(0))), a[0])
    if path.startswith("std::fmt::rt::"):
        return lambda ai, st, a, c: ("x", "fmtargs")
    if path.startswith("std::slice::<impl [T]>::iter") and False:
        return None
    return None


# functions whose own code is too clever: their plain equivalents in the witness program, at these type arguments
SUBST = {
    "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend": ("extend", (0, 2)),
    "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter": ("collect", (0, 1)),
    "<std::vec::IntoIter<T, A> as std::iter::Iterator>::fold": ("fold", ("self", -2, -1)),
    "<std::array::IntoIter<T, N> as std::iter::Iterator>::fold": ("fold", ("self", -2, -1)),
    "<std::collections::BTreeMap<K, V, A> as std::iter::Extend<(K, V)>>::extend": ("bextend", (0, 1, -1)),
    "<std::collections::BTreeMap<K, V> as std::iter::Extend<(K, V)>>::extend": ("bextend", (0, 1, -1)),
    "<std::collections::HashMap<K, V, S> as std::iter::Extend<(K, V)>>::extend": ("hextend", (0, 1, 2, -1)),
    "<std::collections::HashMap<K, V, S, A> as std::iter::Extend<(K, V)>>::extend": ("hextend", (0, 1, 2, -1)),
    "<std::collections::BTreeMap<K, V> as std::iter::FromIterator<(K, V)>>::from_iter": ("bcollect", (0, 1, 2)),
    "<std::collections::BTreeMap<K, V, A> as std::clone::Clone>::clone": ("bclone", (0, 1)),
    "std::slice::<impl [T]>::starts_with": ("starts_with", (0,)),
    "std::slice::<impl [T]>::ends_with": ("ends_with", (0,)),
    "std::slice::<impl [T]>::contains": ("contains", (0,)),
}


def plain(ai, path, inst, inf):
    e = SUBST.get(path)
    if e is None:
        return None
    ts = [x for x in inf["args"] if isinstance(x, int)]
    b = ai.P.body(inst)
    try:
        a = [b.locals[1] if i == "self" else ts[i] for i in e[1]]
    except IndexError:
        return None
    i = ai.P.q("sub", "witness::subst::" + e[0], *a)
    if i is None:
        return None
    if e[0] in ("extend", "collect"):
        def bulk(ai, st, args, c):
            k = 1 if e[0] == "extend" else 0
            d = ai.P.ty(c.argty(k))
            if isinstance(args[k], tuple) and args[k][0] == "o" and d["k"] == "adt" and d["def"] in ("std::vec::IntoIter", "std::vec::Drain", "std::vec::Vec"):
                # what is left of the sequence moves over as a whole
                if not k:
                    return args[k]
                o, v, pl = handle(ai, st, args[0])
                o2 = args[1][1]
                v2 = ai.load(st, o2)
                if v[0] == v2[0] == "seq":
                    regrow(ai, st, o, pl, (v[0], v[1] + v2[1]) + v[2:])
                    st.heap.pop(o2, None)
                    return UNIT
            c.enter(st, i, args)
        return bulk
    return lambda ai, st, args, c: c.enter(st, i, args)


def fallback(ai, path, inst, inf):
    return fallback0(ai, path, inst, inf) or plain(ai, path, inst, inf)


M["*"] = fallback


# ---- intrinsics -------------------------------------------------------------------------------------------
def intr(name):
    def d(f):
        M["intrinsic:" + name] = f
        return f
    return d


def _const_unit(*names, val=UNIT):
    for n in names:
        M["intrinsic:" + n] = lambda ai, st, a, c: val


_const_unit("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid")
M["intrinsic:black_box"] = lambda ai, st, a, c: a[0]
M["intrinsic:ub_checks"] = lambda ai, st, a, c: False
M["intrinsic:contract_checks"] = lambda ai, st, a, c: False
M["intrinsic:likely"] = M["intrinsic:unlikely"] = lambda ai, st, a, c: a[0]
M["intrinsic:overflow_checks"] = lambda ai, st, a, c: True   # a panic that only debug builds have is one
M["intrinsic:is_val_statically_known"] = lambda ai, st, a, c: False
M["intrinsic:forget"] = lambda ai, st, a, c: UNIT


def _bits(f):
    """an integer function of known arguments; of unknown ones, any value of its type"""
    def m(ai, st, a, c):
        d = ai.P.ty(c.argty(0))
        xs = [ai.num(st, x) for x in a]
        if all(isinstance(x, int) for x in xs):
            n = d["bits"]
            return ai.wrap(st, f(xs[0] & ((1 << n) - 1), n, *xs[1:]), c.dty)
        r = ai.P.ty(c.dty)
        n = r["bits"]
        if c.inf["path"].rsplit("::", 1)[-1] in ("ctpop", "ctlz", "cttz", "ctlz_nonzero", "cttz_nonzero"):
            return st.num.fresh(0, d["bits"])
        return st.num.fresh(-(1 << (n - 1)), (1 << (n - 1)) - 1) if r["k"] == "int" else st.num.fresh(0, (1 << n) - 1)
    return m


for _n, _f in (("ctpop", lambda x, n: bin(x).count("1")),
               ("ctlz", lambda x, n: n - x.bit_length()), ("ctlz_nonzero", lambda x, n: n - x.bit_length()),
               ("cttz", lambda x, n: (x & -x).bit_length() - 1 if x else n), ("cttz_nonzero", lambda x, n: (x & -x).bit_length() - 1 if x else n),
               ("bswap", lambda x, n: int.from_bytes(x.to_bytes(n // 8, "little"), "big")),
               ("bitreverse", lambda x, n: int(bin(x)[2:].zfill(n)[::-1], 2)),
               ("rotate_left", lambda x, n, k: (x << k % n | x >> (n - k % n)) & ((1 << n) - 1)),
               ("rotate_right", lambda x, n, k: (x >> k % n | x << (n - k % n)) & ((1 << n) - 1))):
    M["intrinsic:" + _n] = _bits(_f)


def decide(st, cnd):
    e = st.num.evalc(cnd)
    if e is None:
        raise Split([cnd], [neg(cnd)])
    return e


@intr("select_unpredictable")
def _select(ai, st, a, c):
    b = a[0]
    if isinstance(b, tuple) and b[0] == "c":
        b = decide(st, b)
    return a[1] if ai.num(st, b) == 1 else a[2]


@intr("raw_eq")
def _raw_eq(ai, st, a, c):
    t = ai.P.ty(ai.pointee(c.argty(0)))
    if not (t["k"] == "array" and ai.P.ty(t["elem"])["k"] in ("int", "uint", "bool", "char")):
        raise Unsupported("raw_eq of " + t["name"])
    p, q = deref_ptr(ai, st, a[0]), deref_ptr(ai, st, a[1])
    for i in range(t["len"]):
        x, y = [ai.num(st, ai.read(st, r[1], at_index(r[2], i))) for r in (p, q)]
        if not decide(st, eq(x, y)):
            return False
    return True


def at_index(path, i):
    """the i-th element of what the path leads to: an array, or a position in one"""
    if path and path[-1][0] == "i":
        return path[:-1] + (("i", add(path[-1][1], i)),)
    return path + (("i", i),)


@intr("compare_bytes")
def _compare_bytes(ai, st, a, c):
    n = ai.num(st, a[2])
    if not isinstance(n, int) or n > 64:
        raise Unsupported("intrinsic compare_bytes of unknown length")
    p, q = deref_ptr(ai, st, a[0]), deref_ptr(ai, st, a[1])
    for i in range(n):
        x, y = [ai.num(st, ai.read(st, r[1], at_index(r[2], i))) for r in (p, q)]
        if not decide(st, eq(x, y)):
            return -1 if decide(st, lt(x, y)) else 1
    return 0


@intr("size_of")
def _size_of(ai, st, a, c):
    t = [x for x in c.inf["args"] if isinstance(x, int)][0]
    return ai.P.ty(t)["size"]


@intr("needs_drop")
def _needs_drop(ai, st, a, c):
    t = [x for x in c.inf["args"] if isinstance(x, int)][0]
    return ai.P.q("drop", t) is not None


@intr("assume")
def _assume(ai, st, a, c):
    if isinstance(a[0], tuple):
        st.num.assume(a[0])
    return UNIT


for _n in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
    M["intrinsic:" + _n] = wrapping
for _n in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
    def _ov(ai, st, a, c, _n=_n):
        x, y = ai.num(st, a[0]), ai.num(st, a[1])
        v, ov = ai.wrap(st, arith(ai, st, _n.split("_")[0], x, y, nty(c)), nty(c), True)
        return ("a", 0, (v, ov))
    M["intrinsic:" + _n] = _ov
for _n in ("unchecked_add", "unchecked_sub", "unchecked_mul", "unchecked_div", "unchecked_rem", "unchecked_shl", "unchecked_shr", "exact_div"):
    def _un(ai, st, a, c, _n=_n):
        o = {"add": "AddUnchecked", "sub": "SubUnchecked", "mul": "MulUnchecked", "div": "Div", "rem": "Rem",
             "shl": "Shl", "shr": "Shr"}[_n.split("_")[1]]
        return ai.binop(st, o, a[0], a[1], nty(c), False, c.dty)
    M["intrinsic:" + _n] = _un
for _n in ("saturating_add", "saturating_sub"):
    def _sat(ai, st, a, c, _n=_n):
        x, y = ai.num(st, a[0]), ai.num(st, a[1])
        r = arith(ai, st, _n.split("_")[1], x, y, nty(c))
        lo, hi = ai.range_of(nty(c))
        for cnd, v in ((lt(hi, r), hi), (lt(r, lo), lo)):
            e = st.num.evalc(cnd)
            if e is None:
                raise Split([cnd], [neg(cnd)])
            if e:
                return v
        return r
    M["intrinsic:" + _n] = _sat


for _n in ("integer_min", "integer_max"):
    def _mm(ai, st, a, c, _n=_n):
        x, y = ai.num(st, a[0]), ai.num(st, a[1])
        cnd = le(x, y)
        e = st.num.evalc(cnd)
        if e is None:
            raise Split([cnd], [neg(cnd)])
        return x if e == (_n == "integer_min") else y
    M["intrinsic:" + _n] = _mm


@intr("align_of_val")
def _aov(ai, st, a, c):
    t = [x for x in c.inf["args"] if isinstance(x, int)][0]
    m = st.num.memo.get(("align", t))
    if m is None:
        m = st.num.memo[("align", t)] = st.num.fresh(1, 1 << 29)
    return st.num.norm(m)


@intr("size_of_val")
def _sov(ai, st, a, c):
    t = [x for x in c.inf["args"] if isinstance(x, int)][0]
    n = ai.P.ty(t)["size"]
    if n is None:
        p = ai.unwrap_ptr(a[0])
        if not (p[0] == "p" and isinstance(p[3], tuple) and p[3][0] == "env"):
            raise Unsupported("size of an unsized value")
        k = ("size", p[1])       # somebody else's type: any size
        m = st.num.memo.get(k)
        if m is None:
            m = st.num.memo[k] = st.num.fresh(0, 1 << 61)
        return st.num.norm(m)
    return n


@intr("ptr_offset_from_unsigned")
def _pofu(ai, st, a, c):
    return ptr_diff(ai, st, a)


@intr("ptr_offset_from")
def _pof(ai, st, a, c):
    return ptr_diff(ai, st, a)


def ptr_diff(ai, st, a):
    p, q = ai.unwrap_ptr(a[0]), ai.unwrap_ptr(a[1])
    if p[0] == "n" and q[0] == "n":
        return 0
    def split(p):
        if p[2] and isinstance(p[2][-1], tuple) and p[2][-1][0] == "i":
            return p[2][:-1], p[2][-1][1]
        return p[2], 0
    (bp, kp), (bq, kq) = split(p), split(q)
    if p[1] == q[1] and bp == bq:
        return st.num.norm(sub(kp, kq))
    raise Unsupported("distance between unrelated pointers")


@intr("offset")
def _offset(ai, st, a, c):
    return ai.ptr_add(st, a[0], ai.num(st, a[1]))


@intr("arith_offset")
def _arith_offset(ai, st, a, c):
    return ai.ptr_add(st, a[0], ai.num(st, a[1]))


@intr("slice_get_unchecked")
def _sgu(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    i = ai.num(st, a[1])
    n = p[3] if p[0] == "p" else p[2]
    if n is not None:
        e = st.num.evalc(lt(i, n))
        if e is None:
            raise Split([lt(i, n)], [neg(lt(i, n))])
        if not e:
            ai.alarm(st, "oob", "unchecked index out of bounds")
            raise Dead()
    return ("p", p[1], ai.offset_path(p[2], i), None)


@intr("read_via_copy")
def _rvc(ai, st, a, c):
    p = deref_ptr(ai, st, a[0])
    return ai.read_place(st, p[1], p[2], c.dty)


@intr("write_via_move")
def _wvm(ai, st, a, c):
    p = deref_ptr(ai, st, a[0])
    ai.write(st, p[1], p[2], a[1])
    return UNIT


@intr("typed_swap_nonoverlapping")
def _tsn(ai, st, a, c):
    return mem_swap(ai, st, a, c)


@intr("copy_nonoverlapping")
def _cno(ai, st, a, c):
    ai.copy_mem(st, ai.unwrap_ptr(a[0]), ai.unwrap_ptr(a[1]), ai.num(st, a[2]))
    return UNIT


@intr("copy")
def _cp(ai, st, a, c):
    return _cno(ai, st, a, c)


@intr("transmute")
def _tm(ai, st, a, c):
    return ai.transmute(st, a[0], c.argty(0), c.dty)


@intr("transmute_unchecked")
def _tmu(ai, st, a, c):
    return ai.transmute(st, a[0], c.argty(0), c.dty)


@intr("aggregate_raw_ptr")
def _arp(ai, st, a, c):
    p = ai.unwrap_ptr(a[0])
    return ("p", p[1], p[2], a[1] if a[1] != UNIT else None)


@intr("ptr_metadata")
def _pm(ai, st, a, c):
    v = ai.unwrap_ptr(a[0])
    m = v[3] if v[0] == "p" else v[2]
    return m if m is not None else UNIT


@intr("discriminant_value")
def _dv(ai, st, a, c):
    p = deref_ptr(ai, st, a[0])
    return ai.as_tag(st, ai.discr(st, ai.read(st, p[1], p[2]), ai.pointee(c.argty(0))), c.dty)


@intr("three_way_compare")
def _twc(ai, st, a, c):
    return ai.binop(st, "Cmp", a[0], a[1], nty(c), False, c.dty)


@intr("fabsf64")
def _fabs(ai, st, a, c):
    return ("x", "fabs", a[0])


@intr("fabs")
def _fabs2(ai, st, a, c):
    return ("x", "fabs", a[0])


@intr("unreachable")
def _unreach(ai, st, a, c):
    ai.alarm(st, "ub", "code marked unreachable is reached")
    raise Dead()


@intr("abort")
def _abort(ai, st, a, c):
    return panicking(ai, st, "abort")

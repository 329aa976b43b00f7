"""P33: safe programs that would keep something past the data it borrows must not compile."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common, compilefail
from build import Server

HEAD = """#![forbid(unsafe_code)]
#![allow(warnings)]
use miniserde::de::{self, Visitor};
use miniserde::ser::{self, Fragment};
use miniserde::json::{self, Array, Number, Object, Value};
use miniserde::{make_place, Deserialize, Error, Result, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
fn need_static<T: 'static>(_: T) {}
fn is_send<T: Send>(_: T) {}
"""

# Every case: name -> (prelude items, bad statements, good statements).  `bad` keeps a borrow alive past its
# owner; `good` is the same program with the owner alive long enough.
C = {}


def case(name, items, bad, good):
    C[name] = (items, bad, good)


DE_TYPES = ["()", "bool", "String", "u8", "i8", "u64", "i64", "isize", "usize", "f32", "f64", "Box<u8>", "Option<u8>",
            "(u8, u8)", "Vec<u8>", "[u8; 2]", "HashMap<String, u8>", "BTreeMap<String, u8>", "Value", "Number",
            "Array", "Object", "Derived", "DerivedE", "DerivedG<u8>"]
DER = """#[derive(Serialize, Deserialize)] struct Derived { a: u8 }
#[derive(Serialize, Deserialize)] struct DerivedG<T> { a: T }
#[derive(Serialize, Deserialize)] enum DerivedE { A }
make_place!(Place);
struct Mine(Option<u8>);
impl Visitor for Place<Mine> { fn null(&mut self) -> Result<()> { self.out = Some(Mine(None)); Ok(()) } }
"""
for t in DE_TYPES:
    case("visitor outlives its output slot: " + t, DER,
         "let v; { let mut out: Option<%s> = None; v = Deserialize::begin(&mut out); } let _ = v.null();" % t,
         "let v; let mut out: Option<%s> = None; v = Deserialize::begin(&mut out); let _ = v.null();" % t)
    case("output slot used while its visitor is alive: " + t, DER,
         "let mut out: Option<%s> = None; let v = Deserialize::begin(&mut out); drop(out.take()); let _ = v.null();" % t,
         "let mut out: Option<%s> = None; let v = Deserialize::begin(&mut out); let _ = v.null(); drop(out.take());" % t)
case("user place outlives its output slot", DER,
     "let v; { let mut out: Option<Mine> = None; v = Place::new(&mut out); } let _ = v.null();",
     "let v; let mut out: Option<Mine> = None; v = Place::new(&mut out); let _ = v.null();")
case("user place claimed static", DER,
     "let mut out: Option<Mine> = None; let v: &'static mut Place<Mine> = Place::new(&mut out); let _ = v.null();",
     "let mut out: Option<Mine> = None; let v: &mut Place<Mine> = Place::new(&mut out); let _ = v.null();")
case("two user places on one slot", DER,
     "let mut out: Option<Mine> = None; let v = Place::new(&mut out); let w = Place::new(&mut out); let _ = v.null(); let _ = w.null();",
     "let mut out: Option<Mine> = None; let v = Place::new(&mut out); let _ = v.null(); let w = Place::new(&mut out); let _ = w.null();")
for k, ty, m in (("seq", "Vec<u8>", "seq"), ("map", "BTreeMap<String, u8>", "map")):
    case("%s builder outlives its visitor" % k, "",
         "let b; { let mut out: Option<%s> = None; b = Deserialize::begin(&mut out).%s().ok().unwrap(); } drop(b);" % (ty, m),
         "let mut out: Option<%s> = None; let b; b = Deserialize::begin(&mut out).%s().ok().unwrap(); drop(b);" % (ty, m))
    case("%s builder and output slot together" % k, "",
         "let mut out: Option<%s> = None; let mut b = Deserialize::begin(&mut out).%s().ok().unwrap(); drop(out.take()); let _ = b.finish();" % (ty, m),
         "let mut out: Option<%s> = None; let mut b = Deserialize::begin(&mut out).%s().ok().unwrap(); let _ = b.finish(); drop(b); drop(out.take());" % (ty, m))
case("element place outlives its builder", "",
     "let mut out: Option<Vec<u8>> = None; let e; { let mut b = Deserialize::begin(&mut out).seq().ok().unwrap(); e = b.element().ok().unwrap(); } let _ = e.null();",
     "let mut out: Option<Vec<u8>> = None; let e; let mut b = Deserialize::begin(&mut out).seq().ok().unwrap(); e = b.element().ok().unwrap(); let _ = e.null();")
case("element place used after finish", "",
     "let mut out: Option<Vec<u8>> = None; let mut b = Deserialize::begin(&mut out).seq().ok().unwrap(); let e = b.element().ok().unwrap(); let _ = b.finish(); let _ = e.null();",
     "let mut out: Option<Vec<u8>> = None; let mut b = Deserialize::begin(&mut out).seq().ok().unwrap(); let e = b.element().ok().unwrap(); let _ = e.null(); let _ = b.finish();")
case("two element places at once", "",
     "let mut out: Option<Vec<u8>> = None; let mut b = Deserialize::begin(&mut out).seq().ok().unwrap(); let e = b.element().ok().unwrap(); let f = b.element().ok().unwrap(); let _ = e.null(); let _ = f.null();",
     "let mut out: Option<Vec<u8>> = None; let mut b = Deserialize::begin(&mut out).seq().ok().unwrap(); let e = b.element().ok().unwrap(); let _ = e.null(); let f = b.element().ok().unwrap(); let _ = f.null();")
case("value place outlives its builder", "",
     "let mut out: Option<Object> = None; let e; { let mut b = Deserialize::begin(&mut out).map().ok().unwrap(); e = b.key(\"k\").ok().unwrap(); } let _ = e.null();",
     "let mut out: Option<Object> = None; let e; let mut b = Deserialize::begin(&mut out).map().ok().unwrap(); e = b.key(\"k\").ok().unwrap(); let _ = e.null();")
case("value place used after finish", "",
     "let mut out: Option<Object> = None; let mut b = Deserialize::begin(&mut out).map().ok().unwrap(); let e = b.key(\"k\").ok().unwrap(); let _ = b.finish(); let _ = e.null();",
     "let mut out: Option<Object> = None; let mut b = Deserialize::begin(&mut out).map().ok().unwrap(); let e = b.key(\"k\").ok().unwrap(); let _ = e.null(); let _ = b.finish();")
case("value place used after the next key", "",
     "let mut out: Option<Object> = None; let mut b = Deserialize::begin(&mut out).map().ok().unwrap(); let e = b.key(\"k\").ok().unwrap(); let f = b.key(\"l\").ok().unwrap(); let _ = e.null();",
     "let mut out: Option<Object> = None; let mut b = Deserialize::begin(&mut out).map().ok().unwrap(); let e = b.key(\"k\").ok().unwrap(); let _ = e.null(); let f = b.key(\"l\").ok().unwrap();")
case("key text kept by a builder", "struct Keep<'a>(Option<&'a str>); ",
     "struct K(Option<&'static str>); impl de::Map for K { fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> { self.0 = Some(k); Err(Error) } fn finish(&mut self) -> Result<()> { Ok(()) } }",
     "struct K(Option<String>); impl de::Map for K { fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> { self.0 = Some(k.to_owned()); Err(Error) } fn finish(&mut self) -> Result<()> { Ok(()) } }")
case("string text kept by a visitor", "",
     "struct K(Option<&'static str>); impl Visitor for K { fn string(&mut self, k: &str) -> Result<()> { self.0 = Some(k); Ok(()) } }",
     "struct K(Option<String>); impl Visitor for K { fn string(&mut self, k: &str) -> Result<()> { self.0 = Some(k.to_owned()); Ok(()) } }")
case("visitor hands out a builder that keeps borrowing elsewhere", "",
     "struct B<'a>(&'a mut u8); impl<'a> de::Seq for B<'a> { fn element(&mut self) -> Result<&mut dyn Visitor> { Err(Error) } fn finish(&mut self) -> Result<()> { Ok(()) } }"
     " struct V; impl Visitor for V { fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> { let mut x = 1u8; Ok(Box::new(B(&mut x))) } }",
     "struct B<'a>(&'a mut u8); impl<'a> de::Seq for B<'a> { fn element(&mut self) -> Result<&mut dyn Visitor> { Err(Error) } fn finish(&mut self) -> Result<()> { Ok(()) } }"
     " struct V(u8); impl Visitor for V { fn seq(&mut self) -> Result<Box<dyn de::Seq + '_>> { Ok(Box::new(B(&mut self.0))) } }")

SER = [("str", "String::new()", "x.as_str()"), ("String", "String::new()", "&x"), ("&u8", "&1u8", "&x"),
       ("Box<String>", "Box::new(String::new())", "&x"), ("Option<String>", "Some(String::new())", "&x"),
       ("Cow<str>", "Cow::<str>::Owned(String::new())", "&x"),
       ("pair", "(String::new(), 1u8)", "&x"), ("slice", "vec![1u8]", "&x[..]"), ("Vec", "vec![String::new()]", "&x"),
       ("array", "[1u8, 2]", "&x"), ("HashMap", "HashMap::<String, u8>::new()", "&x"),
       ("BTreeMap", "BTreeMap::<String, u8>::new()", "&x"), ("Value", "Value::Null", "&x"), ("Array", "Array::new()", "&x"),
       ("Object", "Object::new()", "&x"), ("Number", "Number::U64(1)", "&x"), ("derived struct", "Derived { a: 1 }", "&x"),
       ("derived generic struct", "DerivedG { a: 1u8 }", "&x"), ("derived enum", "DerivedE::A", "&x"),
       ("u8", "1u8", "&x"), ("()", "()", "&x"), ("f64", "1f64", "&x")]
for n, mk, ref in SER:
    case("fragment outlives the value: " + n, DER,
         "let f; { let x = %s; f = Serialize::begin(%s); } match f { Fragment::Null => {} _ => {} }" % (mk, ref),
         "let x = %s; let f; { f = Serialize::begin(%s); } match f { Fragment::Null => {} _ => {} }" % (mk, ref))
    case("value changed while its fragment is alive: " + n, DER,
         "let mut x = %s; fn touch<T>(_: &mut T) {} { let g = Serialize::begin(%s); touch(&mut x); drop(g); }" % (mk, ref),
         "let mut x = %s; fn touch<T>(_: &mut T) {} { let g = Serialize::begin(%s); drop(g); touch(&mut x); }" % (mk, ref))
case("streamed element outlives its stream", "",
     "let x = vec![1u8]; let e; { let mut s = match Serialize::begin(&x) { Fragment::Seq(s) => s, _ => return }; e = s.next(); } drop(e);",
     "let x = vec![1u8]; let e; let mut s = match Serialize::begin(&x) { Fragment::Seq(s) => s, _ => return }; { e = s.next(); } drop(e);")
case("streamed element used after advancing", "",
     "let x = vec![1u8]; let mut s = match Serialize::begin(&x) { Fragment::Seq(s) => s, _ => return }; let e = s.next(); let f = s.next(); if let Some(e) = e { e.begin(); }",
     "let x = vec![1u8]; let mut s = match Serialize::begin(&x) { Fragment::Seq(s) => s, _ => return }; let e = s.next(); if let Some(e) = e { e.begin(); } let f = s.next();")
case("streamed entry outlives its stream", "",
     "let x = BTreeMap::<String, u8>::new(); let e; { let mut s = match Serialize::begin(&x) { Fragment::Map(s) => s, _ => return }; e = s.next(); } drop(e);",
     "let x = BTreeMap::<String, u8>::new(); let e; let mut s = match Serialize::begin(&x) { Fragment::Map(s) => s, _ => return }; { e = s.next(); } drop(e);")
case("streamed key used after advancing", "",
     "let x = Object::new(); let mut s = match Serialize::begin(&x) { Fragment::Map(s) => s, _ => return }; let e = s.next(); let f = s.next(); if let Some((k, _)) = e { let _ = k.len(); }",
     "let x = Object::new(); let mut s = match Serialize::begin(&x) { Fragment::Map(s) => s, _ => return }; let e = s.next(); if let Some((k, _)) = e { let _ = k.len(); } let f = s.next();")
case("user stream hands out a local", "",
     "struct S; impl ser::Seq for S { fn next(&mut self) -> Option<&dyn Serialize> { let x = 1u8; Some(&x) } }",
     "struct S(u8); impl ser::Seq for S { fn next(&mut self) -> Option<&dyn Serialize> { Some(&self.0) } }")
case("user value hands out a stream over a local", "",
     "struct S; impl Serialize for S { fn begin(&self) -> Fragment { let v = vec![1u8]; let f = Serialize::begin(&v); f } }",
     "struct S(Vec<u8>); impl Serialize for S { fn begin(&self) -> Fragment { let f = Serialize::begin(&self.0); f } }")
case("user value hands out a string over a local", "",
     "struct S; impl Serialize for S { fn begin(&self) -> Fragment { let v = String::new(); Fragment::Str(Cow::Borrowed(&v)) } }",
     "struct S; impl Serialize for S { fn begin(&self) -> Fragment { let v = String::new(); Fragment::Str(Cow::Owned(v)) } }")
case("fragment of borrowed text claimed static", "",
     "let x = String::new(); let f: Fragment<'static> = Serialize::begin(&x); drop(f);",
     "let x = String::new(); let f: Fragment<'_> = Serialize::begin(&x); drop(f);")
case("borrowed deserialization from the text", "",
     "fn f() -> &'static str { let t = String::from(\"1\"); let v: &str = json::from_str(&t).ok().unwrap(); v }",
     "fn f() -> String { let t = String::from(\"1\"); let v: String = json::from_str(&t).ok().unwrap(); v }")
case("reference into an array outlives it", "",
     "let r; { let mut a = Array::new(); a.push(Value::Null); r = &a[0]; let _ = r; let _: &Value = r; } let _ = Serialize::begin(r);",
     "let r; let mut a = Array::new(); { a.push(Value::Null); r = &a[0]; let _ = r; let _: &Value = r; } let _ = Serialize::begin(r);")
case("reference into an object outlives it", "",
     "let r; { let mut a = Object::new(); a.insert(String::new(), Value::Null); r = a.get(\"\"); } let _ = r.is_some();",
     "let r; let mut a = Object::new(); { a.insert(String::new(), Value::Null); r = a.get(\"\"); } let _ = r.is_some();")
for k, mk in (("array", "Array::new()"), ("object", "Object::new()")):
    for m in ("", "mut "):
        case("%sitem of an %s outlives it" % (m, k), "",
             "let mut r = None; { let mut a = %s; for v in &%sa { r = Some(v); } } let _ = r.is_some();" % (mk, m),
             "let mut a = %s; let mut r = None; { for v in &%sa { r = Some(v); } } let _ = r.is_some();" % (mk, m))
    case("deref of an %s outlives it" % k, "",
         "let r; { let a = %s; r = &*a; } let _ = r.len();" % mk,
         "let a = %s; let r; { r = &*a; } let _ = r.len();" % mk)
    case("mutable deref of an %s outlives it" % k, "",
         "let r; { let mut a = %s; r = &mut *a; } r.clear();" % mk,
         "let mut a = %s; let r; { r = &mut *a; } r.clear();" % mk)
case("iterating an array while changing it", "",
     "let mut a = Array::new(); for v in &a { a.push(Value::Null); }",
     "let mut a = Array::new(); for v in &a { let _ = v; } a.push(Value::Null);")
case("mutably iterating an array while reading it", "",
     "let mut a = Array::new(); for v in &mut a { let _ = a.len(); }",
     "let mut a = Array::new(); for v in &mut a { let _ = v; } let _ = a.len();")
case("iterating an object while changing it", "",
     "let mut a = Object::new(); for v in &a { a.clear(); }",
     "let mut a = Object::new(); for v in &a { let _ = v; } a.clear();")
case("mutably iterating an object while reading it", "",
     "let mut a = Object::new(); for v in &mut a { let _ = a.len(); }",
     "let mut a = Object::new(); for v in &mut a { let _ = v; } let _ = a.len();")
case("array used after being consumed", "",
     "let a = Array::new(); let i = a.into_iter(); let _ = a.len(); drop(i);",
     "let a = Array::new(); let _ = a.len(); let i = a.into_iter(); drop(i);")
case("object used after being consumed", "",
     "let a = Object::new(); let i = a.into_iter(); let _ = a.len(); drop(i);",
     "let a = Object::new(); let _ = a.len(); let i = a.into_iter(); drop(i);")
case("fragment sent to another thread", "",
     "let x = vec![1u8]; is_send(Serialize::begin(&x));",
     "let x = vec![1u8]; is_send(&x);")
case("array cannot be taken apart by moving its field", "",
     "let a = Array::new(); let v: Vec<Value> = *a; drop(v);",
     "let a = Array::new(); let v: Vec<Value> = a.into_iter().collect(); drop(v);")


def prog(items, body):
    return HEAD + items + "\nfn main_() {\n" + body + "\n}\n"


def signatures(r):
    """no function a user can call hands out, with the help of unsafe code, a borrow tied to none of its arguments"""
    name = lambda x: re.sub(r".*::('\w+)\W*$", r"\1", x)
    s = Server()
    for f in s.q("sigs", "miniserde"):
        if f["unsafe"]:
            continue
        r.count("signatures")
        free = set(f["outs"]) - set(f["ins"])
        if f["sref"]:
            free.add("'static")
        for x in sorted(free):
            r.count("free_output_lifetimes")
            if f["how"] and (x != "'static" or set(f["ins"]) - {"'static"}):
                r.violation("signature " + f["name"], "%s returns something borrowed for %s, a lifetime none of its arguments has, "
                            "by means of %s" % (f["name"], name(x), f["how"][0]))
    s.close()
    r.floor("signatures", 12)


def check(r):
    signatures(r)
    cases = []
    for n, (it, bad, good) in C.items():
        cases.append(("bad " + n, prog(it, bad)))
        cases.append(("good " + n, prog(it, good)))
    res = compilefail.check_all(cases)
    samples = []
    for n, (it, bad, good) in C.items():
        rc, er = res["bad " + n]
        grc, ger = res["good " + n]
        r.count("witness_pairs")
        if grc != 0:
            raise common.Anchor("control program no longer compiles: %s: %s" % (n, ger[:1]))
        if rc == 0:
            r.violation("accepted: " + n, "safe program accepted although it lets %s:\n%s" % (n, bad))
        else:
            r.count("rejections_confirmed")
            if len(samples) < 5:
                samples.append({"witness": n, "rejected_with": [er[0]["code"], er[0]["msg"]] if er else "?"})
            codes = set(e["code"] for e in er)
            if not codes & {"E0597", "E0505", "E0499", "E0502", "E0716", "E0515", "E0521", "E0382", "E0621", "E0507", "E0277",
                            "E0106", None, "E0503", "E0506", "E0700", "E0310", "E0373"}:
                raise common.Anchor("witness %r is rejected for an unexpected reason: %s" % (n, er[:1]))
    r.floor("witness_pairs", 100)
    r.cov["samples"] = samples
    r.cov["explanation"] = ("each witness is a program without unsafe code that keeps a visitor, place, builder, fragment, stream "
                            "or element past its owner; rustc's borrow checker must reject it against the current signatures "
                            "and accept its twin; every function a user can name is inspected for result lifetimes tied to no argument "
                            "whose body gets them from unsafe code")


if __name__ == "__main__":
    sys.exit(common.run("P33", check))

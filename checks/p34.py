"""P34: every unsupported shape fails to compile under either derive; each case has an accepted twin."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common, compilefail

# name -> (rejected item, accepted twin)
N = "struct S { a: u8, b: u8 }"
E = "enum E { A, B }"
CASES = {
    "tuple struct": ("struct S(u8);", N),
    "tuple struct with two fields": ("struct S(u8, u8);", N),
    "empty tuple struct": ("struct S();", "struct S {}"),
    "unit struct": ("struct S;", "struct S {}"),
    "union": ("#[derive(Copy, Clone)] union S { a: u8, b: u8 }", N),
    "enum with tuple data": ("enum E { A(u8) }", E),
    "enum with tuple data, later variant": ("enum E { A, B(u8) }", E),
    "enum with struct data": ("enum E { A { x: u8 }, B }", E),
    "enum with struct data, later variant": ("enum E { A, B { x: u8 } }", E),
    "enum with type parameter": ("enum E<T> { A, B(core::marker::PhantomData<T>) }", E),
    "enum with const parameter": ("enum E<const N: usize> { A, B }", E),
    "enum with where clause": ("enum E where String: Clone { A, B }", E),
    "unknown attribute on a field": ("struct S { #[serde(default)] a: u8, b: u8 }", N),
    "unknown attribute on the last field": ("struct S { a: u8, #[serde(skip)] b: u8 }", N),
    "unknown attribute with value": ("struct S { #[serde(with = \"m\")] a: u8, b: u8 }", N),
    "unknown attribute after rename": ("struct S { #[serde(rename = \"x\", default)] a: u8, b: u8 }",
                                       "struct S { #[serde(rename = \"x\")] a: u8, b: u8 }"),
    "unknown attribute before rename": ("struct S { #[serde(default, rename = \"x\")] a: u8, b: u8 }",
                                        "struct S { #[serde(rename = \"x\")] a: u8, b: u8 }"),
    "unknown attribute, separate line": ("struct S { #[serde(rename = \"x\")] #[serde(default)] a: u8, b: u8 }",
                                         "struct S { #[serde(rename = \"x\")] a: u8, b: u8 }"),
    "unknown attribute that starts like rename": ("struct S { #[serde(rename_all = \"x\")] a: u8, b: u8 }",
                                                  "struct S { #[serde(rename = \"x\")] a: u8, b: u8 }"),
    "alias attribute": ("struct S { #[serde(alias = \"x\")] a: u8, b: u8 }", N),
    "duplicate rename in one attribute": ("struct S { #[serde(rename = \"x\", rename = \"y\")] a: u8, b: u8 }",
                                          "struct S { #[serde(rename = \"x\")] a: u8, b: u8 }"),
    "duplicate equal rename": ("struct S { #[serde(rename = \"x\", rename = \"x\")] a: u8, b: u8 }",
                               "struct S { #[serde(rename = \"x\")] a: u8, b: u8 }"),
    "duplicate rename in two attributes": ("struct S { a: u8, #[serde(rename = \"x\")] #[serde(rename = \"y\")] b: u8 }",
                                           "struct S { a: u8, #[serde(rename = \"y\")] b: u8 }"),
    "duplicate rename around another attribute": (
        "struct S { #[serde(rename = \"x\")] #[allow(unused)] #[serde(rename = \"y\")] a: u8 }",
        "struct S { #[serde(rename = \"x\")] #[allow(unused)] a: u8 }"),
    "rename without value": ("struct S { #[serde(rename)] a: u8, b: u8 }", N),
    "rename with a number": ("struct S { #[serde(rename = 1)] a: u8, b: u8 }", N),
    "rename with bytes": ("struct S { #[serde(rename = b\"x\")] a: u8, b: u8 }", N),
    "rename with a list": ("struct S { #[serde(rename(\"x\"))] a: u8, b: u8 }", N),
    "unknown attribute on a variant": ("enum E { #[serde(other)] A, B }", E),
    "unknown attribute on the last variant": ("enum E { A, #[serde(skip)] B }", E),
    "unknown attribute after rename on a variant": ("enum E { A, #[serde(rename = \"x\", alias = \"y\")] B }",
                                                    "enum E { A, #[serde(rename = \"x\")] B }"),
    "duplicate rename on a variant": ("enum E { #[serde(rename = \"x\", rename = \"y\")] A, B }",
                                      "enum E { #[serde(rename = \"x\")] A, B }"),
    "duplicate rename in two attributes on a variant": ("enum E { #[serde(rename = \"x\")] #[serde(rename = \"y\")] A, B }",
                                                        "enum E { #[serde(rename = \"x\")] A, B }"),
    "enum with empty tuple data": ("enum E { A(), B }", E),
    "enum with empty tuple data, later variant": ("enum E { A, B() }", E),
    "enum with empty struct data": ("enum E { A {}, B }", E),
    "enum with empty struct data, later variant": ("enum E { A, B {} }", E),
    "enum with unit data": ("enum E { A(()), B }", E),
    "enum with data and discriminants": ("#[repr(u8)] enum E { A = 1, B(u8) = 2 }", "#[repr(u8)] enum E { A = 1, B = 2 }"),
    "enum with data, only variant": ("enum E { A(u8) }", "enum E { A }"),
    "enum with data and rename": ("enum E { #[serde(rename = \"x\")] A(u8), B }", "enum E { #[serde(rename = \"x\")] A, B }"),
    "enum with lifetime and data": ("enum E<'a> { A(&'a u8), B }", E),
    "enum with type parameter and default": ("enum E<T = u8> { A, B(T) }", E),
    "generic tuple struct": ("struct S<T>(T);", "struct S<T> { a: T }"),
    "tuple struct of unit": ("struct S(());", N),
    "tuple struct with where clause": ("struct S<T>(T) where T: Clone;", "struct S<T> where T: Clone { a: T }"),
    "unit struct with where clause": ("struct S where String: Clone;", "struct S where String: Clone {}"),
    "transparent tuple struct": ("#[repr(transparent)] struct S(u8);", "#[repr(transparent)] struct S { a: u8 }"),
    "union with one field": ("union S { a: u8 }", "struct S { a: u8 }"),
    "generic union": ("union S<T: Copy> { a: T, b: u8 }", "struct S<T: Copy> { a: T, b: u8 }"),
    "bare serde attribute": ("struct S { #[serde] a: u8, b: u8 }", N),
    "bare serde attribute after rename": ("struct S { #[serde(rename = \"x\")] #[serde] a: u8, b: u8 }",
                                          "struct S { #[serde(rename = \"x\")] a: u8, b: u8 }"),
    "serde attribute with value": ("struct S { #[serde = \"x\"] a: u8, b: u8 }", N),
    "bare serde attribute on a variant": ("enum E { #[serde] A, B }", E),
    "serde attribute with value on a variant": ("enum E { A, #[serde = \"x\"] B }", E),
    "rename without value on a variant": ("enum E { A, #[serde(rename)] B }", E),
    "rename with a list on a variant": ("enum E { A, #[serde(rename(\"x\"))] B }", E),
    "rename with a number on a variant": ("enum E { A, #[serde(rename = 1)] B }", E),
    "rename with a character": ("struct S { #[serde(rename = 'x')] a: u8, b: u8 }", N),
    "rename with a boolean": ("struct S { #[serde(rename = true)] a: u8, b: u8 }", N),
    "rename with a path": ("struct S { #[serde(rename = x)] a: u8, b: u8 }", N),
    "rename with a macro": ("struct S { #[serde(rename = concat!(\"x\"))] a: u8, b: u8 }", N),
    "rename with two values": ("struct S { #[serde(rename = \"x\" \"y\")] a: u8, b: u8 }",
                               "struct S { #[serde(rename = \"x\")] a: u8, b: u8 }"),
    "rename per direction": ("struct S { #[serde(rename(serialize = \"x\", deserialize = \"x\"))] a: u8, b: u8 }", N),
    "rename under a path": ("struct S { #[serde(serde::rename = \"x\")] a: u8, b: u8 }", N),
    "literal in attribute": ("struct S { #[serde(\"rename\")] a: u8, b: u8 }", N),
    "flatten attribute": ("struct S { #[serde(flatten)] a: u8, b: u8 }", N),
    "skip_serializing_if attribute": ("struct S { a: u8, #[serde(skip_serializing_if = \"f\")] b: u8 }", N),
    "skip_serializing attribute": ("struct S { a: u8, #[serde(skip_serializing)] b: u8 }", N),
    "skip_deserializing attribute": ("struct S { a: u8, #[serde(skip_deserializing)] b: u8 }", N),
    "unknown attribute in capitals": ("struct S { #[serde(Rename = \"x\")] a: u8, b: u8 }",
                                      "struct S { #[serde(rename = \"x\")] a: u8, b: u8 }"),
    "unknown attribute on a middle field": ("struct S { a: u8, #[serde(default)] b: u8, c: u8 }", "struct S { a: u8, b: u8, c: u8 }"),
    "unknown attribute on a middle variant": ("enum E { A, #[serde(other)] B, C }", "enum E { A, B, C }"),
    "unknown attribute on a raw field": ("struct S { #[serde(default)] r#type: u8 }", "struct S { r#type: u8 }"),
    "unknown attribute in a generic struct": ("struct S<T> { #[serde(default)] a: T, b: u8 }", "struct S<T> { a: T, b: u8 }"),
    "unknown attribute on an optional field": ("struct S { #[serde(default)] a: Option<u8>, b: u8 }", "struct S { a: Option<u8>, b: u8 }"),
    "three renames": ("struct S { #[serde(rename = \"x\")] #[serde(rename = \"y\")] #[serde(rename = \"z\")] a: u8, b: u8 }",
                      "struct S { #[serde(rename = \"z\")] a: u8, b: u8 }"),
    "duplicate empty rename": ("struct S { #[serde(rename = \"\")] #[serde(rename = \"\")] a: u8, b: u8 }",
                               "struct S { #[serde(rename = \"\")] a: u8, b: u8 }"),
    "duplicate rename equal to the name": ("struct S { #[serde(rename = \"a\", rename = \"a\")] a: u8, b: u8 }",
                                           "struct S { #[serde(rename = \"a\")] a: u8, b: u8 }"),
    "duplicate rename on a later variant": ("enum E { A, #[serde(rename = \"\")] #[serde(rename = \"B\")] B }",
                                            "enum E { A, #[serde(rename = \"B\")] B }"),
}


def prog(tr, item):
    return "#![allow(warnings)]\nuse miniserde::%s;\n\n#[derive(%s)]\n%s\n" % (tr, tr, item)


def check(r):
    cases = []
    for tr in ("Serialize", "Deserialize"):
        for n, (bad, good) in CASES.items():
            cases.append((tr + " bad " + n, prog(tr, bad)))
            cases.append((tr + " good " + n, prog(tr, good)))
    res = compilefail.check_all(cases)
    samples = []
    for tr in ("Serialize", "Deserialize"):
        for n, (bad, good) in CASES.items():
            rc, er = res[tr + " bad " + n]
            grc, ger = res[tr + " good " + n]
            r.count("witness_pairs")
            if grc != 0:
                # the positive control: without it a rejection proves nothing
                raise common.Anchor("supported shape no longer compiles with derive(%s): %s: %s" % (tr, good, ger[:1]))
            if rc == 0:
                r.violation("%s accepted: %s" % (tr, n),
                            "derive(%s) silently produces an implementation for: %s" % (tr, bad))
            else:
                r.count("rejections_confirmed")
                if len(samples) < 6:
                    samples.append({"derive": tr, "item": bad, "rejected_with": er[0]["msg"] if er else "?"})
    r.floor("witness_pairs", 66)
    r.cov["samples"] = samples
    r.cov["explanation"] = ("rustc's front end runs both derives on one program per unsupported shape or attribute; every one "
                            "must be rejected and its twin, differing only in the offending part, accepted")


if __name__ == "__main__":
    sys.exit(common.run("P34", check))

//! Witness program: one instantiation of every public entry point of miniserde at opaque types.
//! It is only ever type-checked and analysed, never run.  Bodies of the opaque types' methods are
//! replaced by the analysis' environment models.
#![allow(dead_code, static_mut_refs, clippy::all)]
#![cfg_attr(not(feature = "std"), no_std)]
extern crate alloc;

use alloc::borrow::Cow;
use alloc::boxed::Box;
use alloc::collections::BTreeMap;
use alloc::string::String;
use alloc::vec::Vec;
use core::fmt;
use core::str::FromStr;
use miniserde::de::{self, Visitor};
use miniserde::ser::{self, Fragment};
use miniserde::{json, make_place, Deserialize, Result, Serialize};

#[inline(never)]
pub fn opaque() -> ! {
    loop {}
}

/// An opaque deserializable value with drop glue.
pub struct DTok(u64);
impl Drop for DTok {
    fn drop(&mut self) {
        opaque()
    }
}
impl Deserialize for DTok {
    fn begin(_out: &mut Option<Self>) -> &mut dyn Visitor {
        opaque()
    }
    fn default() -> Option<Self> {
        opaque()
    }
}

/// The same without a size.
pub struct ZTok;
impl Drop for ZTok {
    fn drop(&mut self) {
        opaque()
    }
}
impl Deserialize for ZTok {
    fn begin(_out: &mut Option<Self>) -> &mut dyn Visitor {
        opaque()
    }
    fn default() -> Option<Self> {
        opaque()
    }
}
#[derive(Clone)]
pub struct ZSTok;
impl Serialize for ZSTok {
    fn begin(&self) -> Fragment {
        opaque()
    }
}

/// An opaque serializable value.
pub struct STok(u64);
impl Serialize for STok {
    fn begin(&self) -> Fragment {
        opaque()
    }
}

/// An opaque map key.
pub struct KTok(u64);
impl Drop for KTok {
    fn drop(&mut self) {
        opaque()
    }
}
impl FromStr for KTok {
    type Err = ();
    fn from_str(_s: &str) -> core::result::Result<Self, ()> {
        opaque()
    }
}
impl PartialEq for KTok {
    fn eq(&self, _o: &Self) -> bool {
        opaque()
    }
}
impl Eq for KTok {}
impl PartialOrd for KTok {
    fn partial_cmp(&self, _o: &Self) -> Option<core::cmp::Ordering> {
        opaque()
    }
}
impl Ord for KTok {
    fn cmp(&self, _o: &Self) -> core::cmp::Ordering {
        opaque()
    }
}
impl core::hash::Hash for KTok {
    fn hash<H: core::hash::Hasher>(&self, _h: &mut H) {
        opaque()
    }
}
impl fmt::Display for KTok {
    fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result {
        opaque()
    }
}

/// A copyable opaque value for Cow.
#[derive(Clone)]
pub struct CTok(u64);
impl Serialize for CTok {
    fn begin(&self) -> Fragment {
        opaque()
    }
}

// ---- parser and printer entry points -------------------------------------------------------
pub fn parse(j: &str) -> Result<DTok> {
    json::from_str(j)
}
pub fn print(v: &STok) -> String {
    json::to_string(v)
}

// ---- trait object types and methods --------------------------------------------------------
pub fn v_null(v: &mut dyn Visitor) -> Result<()> {
    v.null()
}
pub fn v_boolean(v: &mut dyn Visitor, b: bool) -> Result<()> {
    v.boolean(b)
}
pub fn v_string(v: &mut dyn Visitor, s: &str) -> Result<()> {
    v.string(s)
}
pub fn v_negative(v: &mut dyn Visitor, n: i64) -> Result<()> {
    v.negative(n)
}
pub fn v_nonnegative(v: &mut dyn Visitor, n: u64) -> Result<()> {
    v.nonnegative(n)
}
pub fn v_float(v: &mut dyn Visitor, n: f64) -> Result<()> {
    v.float(n)
}
pub fn v_seq(v: &mut dyn Visitor) -> Result<Box<dyn de::Seq + '_>> {
    v.seq()
}
pub fn v_map(v: &mut dyn Visitor) -> Result<Box<dyn de::Map + '_>> {
    v.map()
}
pub fn s_element<'a>(s: &'a mut Box<dyn de::Seq + '_>) -> Result<&'a mut dyn Visitor> {
    s.element()
}
pub fn s_finish(s: &mut Box<dyn de::Seq + '_>) -> Result<()> {
    s.finish()
}
pub fn m_key<'a>(s: &'a mut Box<dyn de::Map + '_>, k: &str) -> Result<&'a mut dyn Visitor> {
    s.key(k)
}
pub fn m_finish(s: &mut Box<dyn de::Map + '_>) -> Result<()> {
    s.finish()
}
pub fn s_drop(s: Box<dyn de::Seq + '_>) {
    drop(s)
}
pub fn m_drop(s: Box<dyn de::Map + '_>) {
    drop(s)
}
pub fn x_begin(v: &dyn Serialize) -> Fragment<'_> {
    v.begin()
}
pub fn x_seq_next<'a>(v: &'a mut Box<dyn ser::Seq + '_>) -> Option<&'a dyn Serialize> {
    v.next()
}
pub fn x_map_next<'a>(v: &'a mut Box<dyn ser::Map + '_>) -> Option<(Cow<'a, str>, &'a dyn Serialize)> {
    v.next()
}

// ---- deserialization targets: `de!(name: Type)` gives begin, default and drop of Option<Type> --
macro_rules! de {
    ($($name:ident : $t:ty),* $(,)?) => {
        pub mod de_begin { use super::*; $(pub fn $name(out: &mut Option<$t>) -> &mut dyn Visitor { Deserialize::begin(out) })* }
        pub mod de_default { use super::*; $(pub fn $name() -> Option<$t> { Deserialize::default() })* }
        pub mod de_drop { use super::*; $(pub fn $name(o: Option<$t>) { drop(o) })* }
    };
}
macro_rules! se {
    ($($name:ident : $t:ty),* $(,)?) => {
        pub mod se_begin { use super::*; $(pub fn $name<'a>(v: &'a $t) -> Fragment<'a> { Serialize::begin(v) })* }
    };
}
#[cfg(feature = "std")]
type H = std::collections::hash_map::RandomState;
#[cfg(feature = "std")]
use std::collections::HashMap;

de! {
    unit: (), boolean: bool, string: String,
    t_i8: i8, t_i16: i16, t_i32: i32, t_i64: i64, t_isize: isize,
    t_u8: u8, t_u16: u16, t_u32: u32, t_u64: u64, t_usize: usize,
    t_f32: f32, t_f64: f64,
    tok: DTok,
    boxed: Box<DTok>, option: Option<DTok>,
    pair: (DTok, DTok), vec: Vec<DTok>,
    arr0: [DTok; 0], arr1: [DTok; 1], arr2: [DTok; 2], arr3: [DTok; 3], arr5: [DTok; 5], arr9: [DTok; 9],
    arr17: [DTok; 17], arr40: [DTok; 40],
    zboxed: Box<ZTok>, zoption: Option<ZTok>, zpair: (ZTok, ZTok), zvec: Vec<ZTok>,
    btree: BTreeMap<KTok, DTok>, zbtree: BTreeMap<KTok, ZTok>,
    value: json::Value, number: json::Number, array: json::Array, object: json::Object,
    d0: D0, d1: D1, d2: D2, d3: D3, dopt: DOpt, dgen: DGen<DTok>, dwide: DWide, dkw: DKw, dodd: DOdd,
    dswap: DSwap, dmulti: DMulti<DTok, DTok>, dnames: gen::DNames, dzst: DZst,
    e1: E1, e3: E3, ewide: EWide, eswap: ESwap, enames: gen::ENames, ebig: gen::EBig,
    placed: Placed<DTok>,
}
se! {
    unit: (), boolean: bool, st: str, string: String,
    t_i8: i8, t_i16: i16, t_i32: i32, t_i64: i64, t_isize: isize,
    t_u8: u8, t_u16: u16, t_u32: u32, t_u64: u64, t_usize: usize,
    t_f32: f32, t_f64: f64,
    reference: &'static STok, reftotok: STok, boxed: Box<STok>, option: Option<STok>, cow: Cow<'static, CTok>,
    pair: (STok, CTok), slice: [STok], arr0: [STok; 0], arr3: [STok; 3], vec: Vec<STok>,
    arr300: [STok; 300],
    zreference: &'static ZSTok, zboxed: Box<ZSTok>, zoption: Option<ZSTok>, zcow: Cow<'static, ZSTok>,
    zpair: (ZSTok, ZSTok), 
    btree: BTreeMap<KTok, STok>, zbtree: BTreeMap<KTok, ZSTok>,
    value: json::Value, number: json::Number, array: json::Array, object: json::Object,
    d0: S0, d1: S1, d2: S2, d3: S3, dgen: SGen<'static, STok>, dwide: SWide, dkw: SKw, dodd: SOdd,
    dswap: SSwap, dmulti: SMulti<'static, STok, str>, dnames: gen::SNames, dzst: SZst, dmix: SMix<'static>, dbig: gen::SBig,
    e1: E1, e3: E3, ewide: EWide, eswap: ESwap, enames: gen::ENames, ebig: gen::EBig,
}
#[cfg(feature = "std")]
pub fn de_begin_hash(out: &mut Option<HashMap<KTok, DTok, H>>) -> &mut dyn Visitor {
    Deserialize::begin(out)
}
#[cfg(feature = "std")]
pub fn se_begin_hash(v: &HashMap<KTok, STok, H>) -> Fragment<'_> {
    Serialize::begin(v)
}
pub fn ignore() -> &'static mut dyn Visitor {
    <dyn Visitor>::ignore()
}

pub mod gen;

make_place!(WPlace);
pub struct Placed<T>(pub Option<T>);
impl Visitor for WPlace<Placed<DTok>> {}
impl Deserialize for Placed<DTok> {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        WPlace::new(out)
    }
}

// ---- derived shapes -------------------------------------------------------------------------
#[derive(Deserialize)]
pub struct D0 {}
#[derive(Deserialize)]
pub struct D1 {
    pub a: DTok,
}
#[derive(Deserialize)]
pub struct D2 {
    pub first: DTok,
    #[serde(rename = "renamed key")]
    pub second: DTok,
}
#[derive(Deserialize)]
pub struct D3 {
    pub c: DTok,
    pub a: DTok,
    #[serde(rename = "a\"\\\u{e9}")]
    pub b: DTok,
}
#[derive(Deserialize)]
pub struct DOpt {
    pub x: Option<DTok>,
    pub y: DTok,
}
#[derive(Deserialize)]
pub struct DGen<T> {
    pub t: T,
    pub u: DTok,
}
#[derive(Deserialize)]
pub struct DWide {
    pub f00: DTok, pub f01: DTok, pub f02: DTok, pub f03: DTok, pub f04: DTok, pub f05: DTok,
    pub f06: DTok, pub f07: DTok, pub f08: DTok, pub f09: DTok, pub f10: DTok, pub f11: DTok,
    pub state: DTok, pub data: DTok, pub out: DTok, pub value: DTok,
}
#[derive(Deserialize)]
pub struct DKw {
    pub r#type: DTok,
    #[serde(rename = "")]
    pub r#fn: DTok,
}
#[derive(Deserialize)]
#[allow(non_snake_case, uncommon_codepoints)]
pub struct DOdd {
    pub type_: DTok,
    pub _Type: DTok,
    pub naïve: DTok,
    #[serde(rename = " _A_ ")]
    pub __map: DTok,
    pub self_0: DTok,
}
#[derive(Deserialize)]
pub struct DSwap {
    #[serde(rename = "b")]
    pub a: DTok,
    /// documented
    #[serde(rename = "a")]
    #[allow(dead_code)]
    pub b: DTok,
    #[doc(hidden)]
    pub(crate) k: DTok,
}
#[derive(Deserialize)]
pub struct DMulti<T, U>
where
    T: 'static,
{
    pub key: T,
    pub seq: U,
    pub map: Option<T>,
}
#[derive(Deserialize)]
pub struct DZst {
    pub a: ZTok,
    pub b: DTok,
    pub c: ZTok,
}
#[derive(Serialize)]
pub struct SZst {
    pub a: ZSTok,
    pub b: STok,
    pub c: ZSTok,
}
#[derive(Serialize)]
pub struct SMix<'a> {
    pub unit: (),
    pub boolean: bool,
    pub small: u8,
    pub float: f64,
    pub text: String,
    pub lent: &'a str,
    pub optional: Option<STok>,
    pub absent: core::option::Option<()>,
    pub boxed: Box<dyn Serialize>,
    pub cow: Cow<'a, str>,
    pub list: Vec<STok>,
    pub array: [STok; 0],
    pub pair: (STok, u8),
    pub map: BTreeMap<String, STok>,
    pub value: json::Value,
    pub nested: S1,
    pub choice: E1,
}
#[derive(Serialize)]
pub struct S0 {}
#[derive(Serialize)]
pub struct S1 {
    pub a: STok,
}
#[derive(Serialize)]
pub struct S2 {
    pub first: STok,
    #[serde(rename = "renamed key")]
    pub second: STok,
}
#[derive(Serialize)]
pub struct S3 {
    pub c: STok,
    pub a: STok,
    #[serde(rename = "a\"\\\u{e9}")]
    pub b: STok,
}
#[derive(Serialize)]
pub struct SGen<'a, T> {
    pub t: &'a T,
    pub u: STok,
}
#[derive(Serialize)]
pub struct SWide {
    pub f00: STok, pub f01: STok, pub f02: STok, pub f03: STok, pub f04: STok, pub f05: STok,
    pub f06: STok, pub f07: STok, pub f08: STok, pub f09: STok, pub f10: STok, pub f11: STok,
    pub state: STok, pub data: STok, pub out: STok, pub value: STok,
}
#[derive(Serialize)]
pub struct SKw {
    pub r#type: STok,
    #[serde(rename = "")]
    pub r#fn: STok,
}
#[derive(Serialize)]
#[allow(non_snake_case, uncommon_codepoints)]
pub struct SOdd {
    pub type_: STok,
    pub _Type: STok,
    pub naïve: STok,
    #[serde(rename = " _A_ ")]
    pub __map: STok,
    pub self_0: STok,
}
#[derive(Serialize)]
pub struct SSwap {
    #[serde(rename = "b")]
    pub a: STok,
    /// documented
    #[serde(rename = "a")]
    #[allow(dead_code)]
    pub b: STok,
    #[doc(hidden)]
    pub(crate) k: STok,
}
#[derive(Serialize)]
pub struct SMulti<'a, T, U>
where
    T: 'static,
    U: ?Sized,
{
    pub key: T,
    pub seq: &'a U,
    pub map: Option<T>,
}
#[derive(Serialize, Deserialize)]
pub enum ESwap {
    #[serde(rename = "Second")]
    First,
    #[serde(rename = "First")]
    Second,
    /// documented
    #[doc(hidden)]
    Third,
    #[serde(rename = "t\\\"\u{1F600}")]
    r#Fourth,
    #[serde(rename = "")]
    Fifth = 7,
}
#[derive(Serialize, Deserialize)]
pub enum E1 {
    Only,
}
#[derive(Serialize, Deserialize)]
pub enum E3 {
    First,
    #[serde(rename = "renamed variant")]
    Second,
    Third = 200,
}
#[derive(Serialize, Deserialize)]
pub enum EWide {
    V00, V01, V02, V03, V04, V05, V06, V07, V08, V09, V10, V11, V12, V13,
}

// ---- owning wrappers ------------------------------------------------------------------------
pub fn drop_value(v: json::Value) {
    drop(v)
}
pub fn drop_array(v: json::Array) {
    drop(v)
}
pub fn drop_object(v: json::Object) {
    drop(v)
}
pub fn array_into_iter(v: json::Array) -> <json::Array as IntoIterator>::IntoIter {
    v.into_iter()
}
pub fn object_into_iter(v: json::Object) -> <json::Object as IntoIterator>::IntoIter {
    v.into_iter()
}
pub fn array_next(it: &mut <json::Array as IntoIterator>::IntoIter) -> Option<json::Value> {
    it.next()
}
pub fn object_next(it: &mut <json::Object as IntoIterator>::IntoIter) -> Option<(String, json::Value)> {
    it.next()
}

// ---- JSON trees as collections ----------------------------------------------------------------------------
pub mod tree {
    use super::*;
    use json::{Array, Number, Object, Value};
    /// an iterator about which nothing is known
    pub struct Values(pub u8);
    impl Iterator for Values {
        type Item = Value;
        fn next(&mut self) -> Option<Value> {
            opaque()
        }
    }
    pub struct Entries(pub u8);
    impl Iterator for Entries {
        type Item = (String, Value);
        fn next(&mut self) -> Option<(String, Value)> {
            opaque()
        }
    }
    pub fn clone_value(v: &Value) -> Value {
        v.clone()
    }
    pub fn clone_number(v: &Number) -> Number {
        v.clone()
    }
    pub fn clone_array(v: &Array) -> Array {
        v.clone()
    }
    pub fn clone_object(v: &Object) -> Object {
        v.clone()
    }
    pub fn clone_from_array(a: &mut Array, b: &Array) {
        a.clone_from(b)
    }
    pub fn clone_from_object(a: &mut Object, b: &Object) {
        a.clone_from(b)
    }
    pub fn collect_array(i: Values) -> Array {
        i.collect()
    }
    pub fn collect_object(i: Entries) -> Object {
        i.collect()
    }
    pub fn new_array() -> Array {
        Array::new()
    }
    pub fn default_array() -> Array {
        Default::default()
    }
    pub fn new_object() -> Object {
        Object::new()
    }
    pub fn default_object() -> Object {
        Default::default()
    }
    pub fn default_value() -> Value {
        Default::default()
    }
    pub fn iter_array(a: &Array) -> <&Array as IntoIterator>::IntoIter {
        a.into_iter()
    }
    pub fn iter_mut_array(a: &mut Array) -> <&mut Array as IntoIterator>::IntoIter {
        a.into_iter()
    }
    pub fn iter_object(a: &Object) -> <&Object as IntoIterator>::IntoIter {
        a.into_iter()
    }
    pub fn iter_mut_object(a: &mut Object) -> <&mut Object as IntoIterator>::IntoIter {
        a.into_iter()
    }
    pub fn iter_array_next<'a>(i: &mut <&'a Array as IntoIterator>::IntoIter) -> Option<&'a Value> {
        i.next()
    }
    pub fn iter_mut_array_next<'a>(i: &mut <&'a mut Array as IntoIterator>::IntoIter) -> Option<&'a mut Value> {
        i.next()
    }
    pub fn iter_object_next<'a>(i: &mut <&'a Object as IntoIterator>::IntoIter) -> Option<(&'a String, &'a Value)> {
        i.next()
    }
    pub fn iter_mut_object_next<'a>(i: &mut <&'a mut Object as IntoIterator>::IntoIter) -> Option<(&'a String, &'a mut Value)> {
        i.next()
    }
    pub fn deref_array(a: &Array) -> &Vec<Value> {
        a
    }
    pub fn deref_mut_array(a: &mut Array) -> &mut Vec<Value> {
        a
    }
    pub fn deref_object(a: &Object) -> &BTreeMap<String, Value> {
        a
    }
    pub fn deref_mut_object(a: &mut Object) -> &mut BTreeMap<String, Value> {
        a
    }
    pub fn show_number(n: &Number, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        core::fmt::Display::fmt(n, f)
    }
}

// ---- plain equivalents of functions of the standard library whose own code is too clever to analyse --------
pub mod subst {
    use super::*;
    pub fn extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
        let mut it = it.into_iter();
        while let Some(x) = it.next() {
            v.push(x);
        }
    }
    pub fn bextend<K: Ord, V, I: IntoIterator<Item = (K, V)>>(m: &mut BTreeMap<K, V>, it: I) {
        let mut it = it.into_iter();
        while let Some((k, v)) = it.next() {
            m.insert(k, v);
        }
    }
    #[cfg(feature = "std")]
    pub fn hextend<K: Eq + std::hash::Hash, V, S: std::hash::BuildHasher, I: IntoIterator<Item = (K, V)>>(
        m: &mut std::collections::HashMap<K, V, S>,
        it: I,
    ) {
        let mut it = it.into_iter();
        while let Some((k, v)) = it.next() {
            m.insert(k, v);
        }
    }
    pub fn collect<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
        let mut v = Vec::new();
        let mut it = it.into_iter();
        while let Some(x) = it.next() {
            v.push(x);
        }
        v
    }
    pub fn bcollect<K: Ord, V, I: IntoIterator<Item = (K, V)>>(it: I) -> BTreeMap<K, V> {
        let mut m = BTreeMap::new();
        let mut it = it.into_iter();
        while let Some((k, v)) = it.next() {
            m.insert(k, v);
        }
        m
    }
    pub fn vclone<T: Clone>(s: &[T]) -> Vec<T> {
        let mut v = Vec::new();
        let mut i = 0;
        while i < s.len() {
            v.push(s[i].clone());
            i += 1;
        }
        v
    }
    pub fn vextend<T: Clone>(v: &mut Vec<T>, s: &[T]) {
        let mut i = 0;
        while i < s.len() {
            v.push(s[i].clone());
            i += 1;
        }
    }
    pub fn vclone_from<T: Clone>(v: &mut Vec<T>, s: &Vec<T>) {
        v.clear();
        let mut i = 0;
        while i < s.len() {
            v.push(s[i].clone());
            i += 1;
        }
    }
    pub fn bclone<K: Ord + Clone, V: Clone>(s: &BTreeMap<K, V>) -> BTreeMap<K, V> {
        let mut m = BTreeMap::new();
        let mut it = s.iter();
        while let Some((k, v)) = it.next() {
            m.insert(k.clone(), v.clone());
        }
        m
    }
    pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
        let mut b = init;
        while let Some(x) = it.next() {
            b = f(b, x);
        }
        b
    }
    pub fn iter<T>(s: &[T]) -> core::slice::Iter<'_, T> {
        s.iter()
    }
    pub fn iter_mut<T>(s: &mut [T]) -> core::slice::IterMut<'_, T> {
        s.iter_mut()
    }
    pub fn starts_with<T: PartialEq>(s: &[T], p: &[T]) -> bool {
        if p.len() > s.len() {
            return false;
        }
        let mut i = 0;
        while i < p.len() {
            if s[i] != p[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    pub fn ends_with<T: PartialEq>(s: &[T], p: &[T]) -> bool {
        if p.len() > s.len() {
            return false;
        }
        starts_with(&s[s.len() - p.len()..], p)
    }
    pub fn contains<T: PartialEq>(s: &[T], x: &T) -> bool {
        let mut i = 0;
        while i < s.len() {
            if s[i] == *x {
                return true;
            }
            i += 1;
        }
        false
    }
}

// ---- positive controls: rules that expect zero matches must match these ------------------------
pub static mut CONTROL_STATIC: u8 = 0;
pub static CONTROL_ATOMIC: core::sync::atomic::AtomicU8 = core::sync::atomic::AtomicU8::new(0);
#[repr(C)]
pub struct CtlC<T> {
    a: T,
}
pub struct CtlRust<T> {
    a: T,
}
pub fn control_cast_good<T>(x: &mut Option<T>) -> &mut CtlC<Option<T>> {
    unsafe { &mut *(x as *mut Option<T> as *mut CtlC<Option<T>>) }
}
pub fn control_cast_bad<T>(x: &mut Option<T>) -> &mut CtlRust<Option<T>> {
    unsafe { &mut *(x as *mut Option<T> as *mut CtlRust<Option<T>>) }
}
pub fn control_recurse(n: u32) {
    if n > 0 {
        control_recurse(n - 1)
    }
}

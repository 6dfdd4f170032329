//! Support code of the conformance harnesses: the value codec, the custom
//! formats mirrored in spec/Decl.tla and spec/Sem.tla, and the operations.
#![allow(warnings)]
#[cfg(feature = "std")]
pub mod bounds;
#[cfg(feature = "std")]
pub mod sched;
#[cfg(feature = "std")]
pub use sched::{Away, Boom, GNum, Gt};
#[cfg(feature = "std")]
use parse_display::FromStrRegex;
use parse_display::{DisplayFormat, FromStrFormat, ParseError};
pub use std::{boxed::Box, string::String, vec::Vec};
use std::collections::HashMap;
use std::fmt::{self, Display, Formatter, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

pub use parse_display_with::formats as with_formats;

// ---- JSON -------------------------------------------------------------------
#[derive(Debug, Clone)]
pub enum V {
    Num(i64),
    Str(String),
    Bool(bool),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}
impl V {
    pub fn arr(&self) -> &[V] {
        match self {
            V::Arr(a) => a,
            _ => panic!("array expected: {self:?}"),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            V::Num(n) => *n,
            _ => panic!("number expected"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            V::Str(s) => s,
            _ => panic!("string expected"),
        }
    }
    pub fn get(&self, k: &str) -> &V {
        match self {
            V::Obj(o) => &o.iter().find(|x| x.0 == k).unwrap().1,
            _ => panic!("object expected"),
        }
    }
    pub fn text(&self) -> String {
        self.arr().iter().map(|c| char::from_u32(c.num() as u32).unwrap()).collect()
    }
}
pub fn parse_json(s: &str) -> V {
    fn ws(b: &[u8], i: &mut usize) {
        while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
            *i += 1;
        }
    }
    fn val(b: &[u8], i: &mut usize) -> V {
        ws(b, i);
        match b[*i] {
            b'[' => {
                *i += 1;
                let mut a = vec![];
                loop {
                    ws(b, i);
                    if b[*i] == b']' {
                        *i += 1;
                        return V::Arr(a);
                    }
                    if b[*i] == b',' {
                        *i += 1;
                    }
                    ws(b, i);
                    a.push(val(b, i));
                }
            }
            b'{' => {
                *i += 1;
                let mut o = vec![];
                loop {
                    ws(b, i);
                    if b[*i] == b'}' {
                        *i += 1;
                        return V::Obj(o);
                    }
                    if b[*i] == b',' {
                        *i += 1;
                    }
                    let k = val(b, i);
                    ws(b, i);
                    assert_eq!(b[*i], b':');
                    *i += 1;
                    let v = val(b, i);
                    o.push((k.str().to_string(), v));
                    ws(b, i);
                }
            }
            b'"' => {
                // only plain ASCII strings are used
                let st = *i + 1;
                *i += 1;
                while b[*i] != b'"' {
                    *i += 1;
                }
                *i += 1;
                V::Str(String::from_utf8(b[st..*i - 1].to_vec()).unwrap())
            }
            b't' => {
                *i += 4;
                V::Bool(true)
            }
            b'f' => {
                *i += 5;
                V::Bool(false)
            }
            _ => {
                let st = *i;
                *i += 1;
                while *i < b.len() && b[*i].is_ascii_digit() {
                    *i += 1;
                }
                V::Num(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
            }
        }
    }
    val(s.as_bytes(), &mut 0)
}
pub fn codes(s: &str, o: &mut String) {
    o.push('[');
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{}", c as u32).unwrap();
    }
    o.push(']');
}

// ---- value codec ---------------------------------------------------------------
pub trait J: Sized {
    fn j(&self, o: &mut String);
    fn from_j(v: &V) -> Self;
}
macro_rules! scalar {
    ($($t:ty),*) => {$(
        impl J for $t {
            fn j(&self, o: &mut String) { codes(&self.to_string(), o) }
            fn from_j(v: &V) -> Self { v.text().parse().unwrap() }
        }
    )*};
}
use std::num::NonZero;
scalar!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool);
scalar!(NonZero<u8>, NonZero<u16>, NonZero<u32>, NonZero<u64>, NonZero<u128>, NonZero<usize>);
scalar!(NonZero<i8>, NonZero<i16>, NonZero<i32>, NonZero<i64>, NonZero<i128>, NonZero<isize>);
impl J for char {
    fn j(&self, o: &mut String) {
        codes(&self.to_string(), o)
    }
    fn from_j(v: &V) -> Self {
        v.text().chars().next().unwrap()
    }
}
impl J for String {
    fn j(&self, o: &mut String) {
        codes(self, o)
    }
    fn from_j(v: &V) -> Self {
        v.text()
    }
}
impl J for &'static str {
    fn j(&self, o: &mut String) {
        codes(self, o)
    }
    fn from_j(v: &V) -> Self {
        Box::leak(v.text().into_boxed_str())
    }
}
impl J for std::path::PathBuf {
    fn j(&self, o: &mut String) {
        codes(self.to_str().unwrap(), o)
    }
    fn from_j(v: &V) -> Self {
        v.text().into()
    }
}
impl<T: J> J for Option<T> {
    fn j(&self, o: &mut String) {
        o.push('[');
        if let Some(x) = self {
            x.j(o);
        }
        o.push(']');
    }
    fn from_j(v: &V) -> Self {
        v.arr().first().map(T::from_j)
    }
}
fn seq<'a, T: J + 'a>(it: impl Iterator<Item = &'a T>, o: &mut String) {
    o.push('[');
    for (i, x) in it.enumerate() {
        if i > 0 {
            o.push(',');
        }
        x.j(o);
    }
    o.push(']');
}
impl<T: J> J for Vec<T> {
    fn j(&self, o: &mut String) {
        seq(self.iter(), o)
    }
    fn from_j(v: &V) -> Self {
        v.arr().iter().map(T::from_j).collect()
    }
}
impl<T: J> J for std::collections::VecDeque<T> {
    fn j(&self, o: &mut String) {
        seq(self.iter(), o)
    }
    fn from_j(v: &V) -> Self {
        v.arr().iter().map(T::from_j).collect()
    }
}
impl<T: J> J for std::collections::LinkedList<T> {
    fn j(&self, o: &mut String) {
        seq(self.iter(), o)
    }
    fn from_j(v: &V) -> Self {
        v.arr().iter().map(T::from_j).collect()
    }
}
impl<T: J> J for Box<[T]> {
    fn j(&self, o: &mut String) {
        seq(self.iter(), o)
    }
    fn from_j(v: &V) -> Self {
        v.arr().iter().map(T::from_j).collect()
    }
}
impl<T: J + 'static> J for &'static [T] {
    fn j(&self, o: &mut String) {
        seq(self.iter(), o)
    }
    fn from_j(v: &V) -> Self {
        Vec::leak(v.arr().iter().map(T::from_j).collect())
    }
}
macro_rules! strs {
    ($($t:ty),*) => {$(
        impl J for $t {
            fn j(&self, o: &mut String) {
                codes(self, o)
            }
            fn from_j(v: &V) -> Self {
                v.text().into()
            }
        }
    )*};
}
strs!(Box<str>, std::rc::Rc<str>, std::borrow::Cow<'static, str>);
impl J for std::ffi::OsString {
    fn j(&self, o: &mut String) {
        codes(self.to_str().unwrap(), o)
    }
    fn from_j(v: &V) -> Self {
        v.text().into()
    }
}
impl<T: J> J for Box<T> {
    fn j(&self, o: &mut String) {
        (**self).j(o)
    }
    fn from_j(v: &V) -> Self {
        Box::new(T::from_j(v))
    }
}
macro_rules! tuple {
    ($($n:ident $i:tt),*) => {
        impl<$($n: J),*> J for ($($n,)*) {
            fn j(&self, o: &mut String) {
                o.push('[');
                $( if $i > 0 { o.push(','); } self.$i.j(o); )*
                o.push(']');
            }
            fn from_j(v: &V) -> Self { let a = v.arr(); ($($n::from_j(&a[$i]),)*) }
        }
    };
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
pub fn js<T: J>(x: &T) -> String {
    let mut o = String::new();
    x.j(&mut o);
    o
}

/// a user's type: its text, and every formatting parameter it is given
#[derive(Clone, Default)]
pub struct Prb(pub String);
fn probe(x: &Prb, f: &mut Formatter, tr: &str) -> fmt::Result {
    let mut l = String::from(tr);
    if f.sign_plus() {
        l.push('+');
    }
    if f.sign_minus() {
        l.push('-');
    }
    if f.alternate() {
        l.push('#');
    }
    if f.sign_aware_zero_pad() {
        l.push('0');
    }
    if f.fill() != ' ' {
        l.push(f.fill());
    }
    match f.align() {
        Some(fmt::Alignment::Left) => l.push('<'),
        Some(fmt::Alignment::Right) => l.push('>'),
        Some(fmt::Alignment::Center) => l.push('^'),
        None => {}
    }
    if let Some(w) = f.width() {
        write!(l, "w{w}")?;
    }
    if let Some(p) = f.precision() {
        write!(l, ".{p}")?;
    }
    // it cannot write BEL
    if let Some(i) = x.0.find('\u{7}') {
        f.write_str(&x.0[..i])?;
        return Err(fmt::Error);
    }
    f.write_str(&x.0)?;
    if !l.is_empty() {
        f.write_str("<")?;
        f.write_str(&l)?;
        f.write_str(">")?;
    }
    Ok(())
}
macro_rules! probes {
    ($($t:ident $l:literal),*) => {$(
        impl fmt::$t for Prb { fn fmt(&self, f: &mut Formatter) -> fmt::Result { probe(self, f, $l) } }
    )*};
}
probes!(Pointer "p", Display "", Debug "?", LowerHex "x", UpperHex "X", Octal "o", Binary "b", LowerExp "e", UpperExp "E");
impl FromStr for Prb {
    type Err = Refused;
    fn from_str(s: &str) -> Result<Self, Refused> {
        if s.contains('!') { Err(Refused) } else { Ok(Prb(s.into())) }
    }
}
#[cfg(feature = "std")]
impl parse_display::FromStrRegex for Prb {
    fn from_str_regex() -> String {
        "a|ab|[^!]*".into()
    }
}
impl J for Prb {
    fn j(&self, o: &mut String) {
        codes(&self.0, o)
    }
    fn from_j(v: &V) -> Self {
        Prb(v.text())
    }
}
impl<T: J + 'static> J for &'static T {
    fn j(&self, o: &mut String) {
        (**self).j(o)
    }
    fn from_j(v: &V) -> Self {
        Box::leak(Box::new(T::from_j(v)))
    }
}
// ---- custom formats ---------------------------------------------------------------
macro_rules! plain_write {
    ($($n:ident),*) => {$(
        #[derive(Clone, Copy)]
        pub struct $n;
        impl<T: Display + ?Sized> DisplayFormat<T> for $n {
            fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result { write!(f, "{v}") }
        }
    )*};
}
macro_rules! plain_parse {
    ($($n:ident $re:expr),*) => {$(
        impl<T: FromStr> FromStrFormat<T> for $n {
            type Err = T::Err;
            fn parse(&self, s: &str) -> Result<T, T::Err> { s.parse() }
            #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String { $re.into() }
        }
    )*};
}
plain_write!(Num, Alt, Alt2, Grp, Nest, Old, Cis, Rej, Dota);
plain_parse!(Num "[0-9]+", Alt "[a-c]+|[0-9]{2}", Alt2 "a|ab", Grp "(x|y)(1|2)?", Nest "((x|y)(1|(2)(?:3))?)+", Cis "(?i)ab", Dota ".*");
/// a format whose pattern is given
#[derive(Clone, Copy)]
pub struct Rx(pub &'static str);
impl<T: Display + ?Sized> DisplayFormat<T> for Rx {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        write!(f, "{v}")
    }
}
impl<T: FromStr> FromStrFormat<T> for Rx {
    type Err = T::Err;
    fn parse(&self, s: &str) -> Result<T, T::Err> {
        s.parse()
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        self.0.into()
    }
}
#[allow(deprecated)]
impl<T: FromStr> FromStrFormat<T> for Old {
    type Err = T::Err;
    fn parse(&self, s: &str) -> Result<T, T::Err> {
        s.parse()
    }
    #[cfg(feature = "std")]
    fn regex(&self) -> Option<String> {
        Some("[a-z]+".into())
    }
}
pub struct Refused;
impl<T: FromStr> FromStrFormat<T> for Rej {
    type Err = Refused;
    fn parse(&self, s: &str) -> Result<T, Refused> {
        if s == "no" {
            return Err(Refused);
        }
        s.parse().map_err(|_| Refused)
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        "[a-z]+".into()
    }
}
fn unbracket<T: FromStr>(s: &str, b: char, e: char) -> Result<T, Refused> {
    s.strip_prefix(b).and_then(|s| s.strip_suffix(e)).ok_or(Refused)?.parse().map_err(|_| Refused)
}
#[derive(Clone, Copy)]
pub struct Brk;
#[derive(Clone, Copy)]
pub struct BrkR;
impl<T: Display + ?Sized> DisplayFormat<T> for Brk {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        write!(f, "[{v}]")
    }
}
impl<T: Display + ?Sized> DisplayFormat<T> for BrkR {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        write!(f, "[{v}]")
    }
}
impl<T: FromStr> FromStrFormat<T> for Brk {
    type Err = Refused;
    fn parse(&self, s: &str) -> Result<T, Refused> {
        unbracket(s, '[', ']')
    }
}
impl<T: FromStr> FromStrFormat<T> for BrkR {
    type Err = Refused;
    fn parse(&self, s: &str) -> Result<T, Refused> {
        unbracket(s, '[', ']')
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        r"\[[^\[\]]*\]".into()
    }
}
#[derive(Clone, Copy)]
pub struct Hex;
impl<T: fmt::LowerHex> DisplayFormat<T> for Hex {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        write!(f, "{v:x}")
    }
}
impl<T: TryFrom<u64>> FromStrFormat<T> for Hex {
    type Err = Refused;
    fn parse(&self, s: &str) -> Result<T, Refused> {
        if s.is_empty() || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
            return Err(Refused);
        }
        T::try_from(u64::from_str_radix(s, 16).map_err(|_| Refused)?).map_err(|_| Refused)
    }
    #[cfg(feature = "std")]
    fn regex_pattern(&self) -> String {
        "[0-9a-f]+".into()
    }
}
#[derive(Clone, Copy)]
pub struct Pad;
impl<T: Display + ?Sized> DisplayFormat<T> for Pad {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        let mut s = String::new();
        write!(s, "{v}")?;
        f.pad(&s)
    }
}
impl<T: FromStr> FromStrFormat<T> for Pad {
    type Err = T::Err;
    fn parse(&self, s: &str) -> Result<T, T::Err> {
        s.parse()
    }
}
pub fn dis<T: Display + ?Sized>() -> impl DisplayFormat<T> {
    with_formats::fmt_display(|f: &mut Formatter, v: &T| write!(f, "<{v}>"))
}
pub fn fro<T: FromStr>() -> impl FromStrFormat<T, Err = Refused> {
    with_formats::fmt_from_str(|s: &str| unbracket(s, '<', '>'))
}

// ---- operations ---------------------------------------------------------------------
pub fn display<X: J + Display>(v: &V) -> String {
    let x = X::from_j(v);
    match catch_unwind(AssertUnwindSafe(|| x.to_string())) {
        Ok(s) => {
            let mut o = String::from(r#"{"out":"#);
            codes(&s, &mut o);
            o.push('}');
            o
        }
        Err(_) => r#"{"panic":true}"#.into(),
    }
}
/// Display under formatting parameters of the caller
pub fn display_padded<X: J + Display>(v: &V) -> String {
    let x = X::from_j(v);
    match catch_unwind(AssertUnwindSafe(|| format!("{x:*^+#012.1}"))) {
        Ok(s) => {
            let mut o = String::from(r#"{"out":"#);
            codes(&s, &mut o);
            o.push('}');
            o
        }
        Err(_) => r#"{"panic":true}"#.into(),
    }
}
/// takes so many characters, then fails; counts what it is given after that
struct Short(String, usize, Option<usize>);
impl fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if let Some(k) = &mut self.2 {
            *k += 1;
            return Err(fmt::Error);
        }
        for c in s.chars() {
            if self.1 == 0 {
                self.2 = Some(0);
                return Err(fmt::Error);
            }
            self.1 -= 1;
            self.0.push(c);
        }
        Ok(())
    }
}
/// Display into writers that take only so many characters
pub fn display_short<X: J + Display>(v: &V) -> String {
    let x = X::from_j(v);
    match catch_unwind(AssertUnwindSafe(|| {
        let mut all = Short(String::new(), usize::MAX, None);
        let _ = write!(all, "{x}");
        let len = all.0.chars().count();
        let mut o = String::from(r#"{"outs":["#);
        let mut ns = if len <= 16 { (0..=len + 1).collect() } else { vec![0, 1, 2, 3, 5, len / 4, len / 3, len / 2, len / 3 * 2, len - 4, len - 3, len - 2, len - 1, len, len + 1] };
        ns.sort();
        ns.dedup();
        for (i, n) in ns.into_iter().enumerate() {
            let mut w = Short(String::new(), n, None);
            let ok = write!(w, "{x}").is_ok();
            write!(o, "{}{{\"n\":{n},\"ok\":{ok},\"after\":{},\"s\":", if i > 0 { "," } else { "" }, w.2.unwrap_or(0)).unwrap();
            codes(&w.0, &mut o);
            o.push('}');
        }
        o.push_str("]}");
        o
    })) {
        Ok(o) => o,
        Err(_) => r#"{"panic":true}"#.into(),
    }
}
pub fn parse<X: J + FromStr<Err = ParseError>>(v: &V) -> String {
    parse_str::<X>(&v.text())
}
pub fn parse_str<X: J + FromStr<Err = ParseError>>(s: &str) -> String {
    match catch_unwind(AssertUnwindSafe(|| X::from_str(s).map(|x| js(&x)).map_err(|e| e.to_string()))) {
        Ok(Ok(x)) => format!(r#"{{"ok":true,"v":{x}}}"#),
        Ok(Err(e)) => {
            let mut o = String::from(r#"{"ok":false,"msg":"#);
            codes(&e, &mut o);
            o.push('}');
            o
        }
        Err(_) => r#"{"panic":true}"#.into(),
    }
}
/// Displays a value and parses the text
pub fn round_trip<X: J + Display + FromStr<Err = ParseError>>(v: &V) -> String {
    let x = X::from_j(v);
    match catch_unwind(AssertUnwindSafe(|| x.to_string())) {
        Ok(s) => {
            let mut o = String::from(r#"{"s":"#);
            codes(&s, &mut o);
            o.push(',');
            o + &parse_str::<X>(&s)[1..]
        }
        Err(_) => r#"{"panic":true}"#.into(),
    }
}
#[cfg(feature = "std")]
pub fn rx<X: FromStrRegex>(v: &V) -> String {
    thread_local! { static CACHE: std::cell::RefCell<HashMap<String, Option<regex::Regex>>> = Default::default(); }
    match catch_unwind(|| X::from_str_regex()) {
        Err(_) => r#"{"panic":true}"#.into(),
        Ok(re) => CACHE.with(|c| {
            let mut c = c.borrow_mut();
            let r = c
                .entry(re.clone())
                .or_insert_with(|| regex::Regex::new(&re).ok().and_then(|_| regex::Regex::new(&format!(r"\A(?:{re})\z")).ok()));
            match r {
                None => r#"{"bad":true}"#.into(),
                Some(r) => format!(r#"{{"m":{}}}"#, r.is_match(&v.text())),
            }
        }),
    }
}

/// Reads the operations (one JSON array [case, root, op, arg] per line), runs
/// those from `from` on, and writes one result line each.
pub fn main(run: fn(usize, usize, &str, &V) -> String) {
    use std::io::Write;
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(feature = "std")]
    match args[1].as_str() {
        "sched" => return sched::scheduled(run, &args[2..]),
        "hist" => return sched::history(run, &args[2..]),
        _ => {}
    }
    let from: usize = args[2].parse().unwrap();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in text.lines().skip(from) {
        let v = parse_json(line);
        let a = v.arr();
        let r = run(a[0].num() as usize, a[1].num() as usize, a[2].str(), &a[3]);
        out.write_all(r.as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}

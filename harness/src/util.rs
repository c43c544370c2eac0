use crate::sx::*;

/// `n` symbolic ASCII characters appended to `v`.
pub fn push_ascii(v: &mut Vec<u8>, n: usize) {
    let mut i = 0;
    while i < n {
        v.push(sym(7) as u8);
        i += 1;
    }
}
/// One symbolic character that takes `k` (1..=4) bytes in UTF-8.
pub fn push_char(v: &mut Vec<u8>, k: usize) {
    match k {
        1 => v.push(sym(7) as u8),
        2 => {
            let a = sym(5) as u8;
            assume(a >= 2);
            v.push(0xC0 | a);
            v.push(0x80 | sym(6) as u8);
        }
        3 => {
            let (a, b, c) = (sym(4) as u8, sym(6) as u8, sym(6) as u8);
            assume(!((a == 0) & (b < 0x20)) & !((a == 0xD) & (b >= 0x20)));
            v.push(0xE0 | a);
            v.push(0x80 | b);
            v.push(0x80 | c);
        }
        _ => {
            let (a, b, c, d) = (sym(3) as u8, sym(6) as u8, sym(6) as u8, sym(6) as u8);
            assume((a <= 4) & !((a == 0) & (b < 0x10)) & !((a == 4) & (b >= 0x10)));
            v.push(0xF0 | a);
            v.push(0x80 | b);
            v.push(0x80 | c);
            v.push(0x80 | d);
        }
    }
}
pub fn finish(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of `n` symbolic ASCII characters.
pub fn ascii(n: usize) -> String {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    push_ascii(&mut v, n);
    finish(v)
}
/// A string of `n` symbolic characters. `mb` = 0: all ASCII; otherwise `mb` = 10 * position + byte
/// length of the one character that is not ASCII.
pub fn text(n: usize, mb: usize) -> String {
    let mut v: Vec<u8> = Vec::with_capacity(n + 4);
    let mut i = 0;
    while i < n {
        if mb % 10 != 0 && mb / 10 == i {
            push_char(&mut v, mb % 10);
        } else {
            v.push(sym(7) as u8);
        }
        i += 1;
    }
    finish(v)
}
/// `pre` copies of `c`, `n` symbolic ASCII characters, `post` copies of `c`.
pub fn long(c: u8, pre: usize, n: usize, post: usize) -> String {
    let mut v: Vec<u8> = Vec::with_capacity(pre + n + post);
    let mut i = 0;
    while i < pre {
        v.push(c);
        i += 1;
    }
    push_ascii(&mut v, n);
    i = 0;
    while i < post {
        v.push(c);
        i += 1;
    }
    finish(v)
}
/// A symbolic character out of `set` (concrete per path: forks).
pub fn pick(n: usize) -> usize {
    if n > 128 {
        let i = pick((n + 63) / 64) * 64 + pick(64);
        if i >= n {
            assume(false);
        }
        return i;
    }
    let w = if n <= 2 { 1 } else if n <= 4 { 2 } else if n <= 8 { 3 } else if n <= 16 { 4 } else if n <= 32 { 5 } else { 7 };
    let v = sym(w);
    assume(v < n as u64);
    concrete(v) as usize
}
pub fn flag() -> bool {
    sym(1) == 1
}
/// A flag decided per path.
pub fn fork() -> bool {
    concrete(sym(1)) == 1
}
/// Branch-free equality.
pub fn same(a: &str, b: &str) -> bool {
    same_bytes(a.as_bytes(), b.as_bytes())
}
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
pub fn observe_str(s: &str) {
    observe(s.len() as u64);
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        observe(b[i] as u64);
        i += 1;
    }
}

// Branch-free character classes.
#[inline(always)]
pub fn rng(c: u8, lo: u8, hi: u8) -> bool {
    c.wrapping_sub(lo) <= hi - lo
}
#[inline(always)]
pub fn lower(c: u8) -> bool {
    rng(c, b'a', b'z')
}
#[inline(always)]
pub fn upper(c: u8) -> bool {
    rng(c, b'A', b'Z')
}
#[inline(always)]
pub fn digit(c: u8) -> bool {
    rng(c, b'0', b'9')
}
#[inline(always)]
pub fn lnum(c: u8) -> bool {
    lower(c) | digit(c)
}
#[inline(always)]
pub fn alnum(c: u8) -> bool {
    lower(c) | upper(c) | digit(c)
}

// Reading values: owned as serde_yaml gives them, borrowed, and as text that lives for the call only.
use serde::de::{self, DeserializeOwned, Deserializer, IntoDeserializer, Visitor};
use serde_yaml::{Error, Value as Yaml};

/// Hands strings to `visit_str`.
struct Passing<'a>(&'a Yaml);
struct PassingKey<'a>(&'a str);
impl<'de> Deserializer<'de> for PassingKey<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_str(self.0)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_some(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_enum(self.0.into_deserializer())
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
struct PassingSeq<'a>(std::slice::Iter<'a, Yaml>);
impl<'de> de::SeqAccess<'de> for PassingSeq<'_> {
    type Error = Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        self.0.next().map(|v| seed.deserialize(Passing(v))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        None
    }
}
struct PassingMap<'a>(Vec<(&'a str, &'a Yaml)>, usize);
impl<'de> de::MapAccess<'de> for PassingMap<'_> {
    type Error = Error;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        if self.1 == self.0.len() {
            return Ok(None);
        }
        seed.deserialize(PassingKey(self.0[self.1].0)).map(Some)
    }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        self.1 += 1;
        seed.deserialize(Passing(self.0[self.1 - 1].1))
    }
}
impl<'de> Deserializer<'de> for Passing<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Yaml::Null => v.visit_unit(),
            Yaml::Bool(b) => v.visit_bool(*b),
            Yaml::Number(n) => n.clone().deserialize_any(v),
            Yaml::String(s) => v.visit_str(s),
            Yaml::Sequence(s) => v.visit_seq(PassingSeq(s.iter())),
            Yaml::Mapping(m) => v.visit_map(PassingMap(m.iter().map(|(k, v)| (k.as_str().unwrap(), v)).collect(), 0)),
            Yaml::Tagged(_) => Err(de::Error::custom("tagged")),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Yaml::Null => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        match self.0 {
            Yaml::String(s) => v.visit_enum(s.as_str().into_deserializer()),
            _ => Err(de::Error::custom("not an enum")),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
/// What `v` reads as, the same however it is handed over.
pub fn read<T: DeserializeOwned + PartialEq>(v: Yaml) -> Result<T, Error> {
    let b = T::deserialize(&v);
    let p = T::deserialize(Passing(&v));
    let r = serde_yaml::from_value::<T>(v);
    check(
        match (&r, &b, &p) {
            (Ok(r), Ok(b), Ok(p)) => (r == b) & (r == p),
            (Err(_), Err(_), Err(_)) => true,
            _ => false,
        },
        "read:same however given",
    );
    r
}

/// An integer or float of any width says what the 64-bit one of the same value says. Signed integers, integers of
/// 128 bits and 32-bit floats need not be supported.
pub fn widths<T: DeserializeOwned + PartialEq>(k: usize) {
    use serde::de::value::*;
    type E = serde::de::value::Error;
    let v = sym(64);
    let u = |v: u64| T::deserialize(U64Deserializer::<E>::new(v)).ok();
    let i = |v: i64| if v < 0 { T::deserialize(I64Deserializer::<E>::new(v)).ok() } else { u(v as u64) };
    let (narrow, wide, optional) = match k {
        0 => (T::deserialize(U8Deserializer::<E>::new(v as u8)).ok(), u(v as u8 as u64), false),
        1 => (T::deserialize(U16Deserializer::<E>::new(v as u16)).ok(), u(v as u16 as u64), false),
        2 => (T::deserialize(U32Deserializer::<E>::new(v as u32)).ok(), u(v as u32 as u64), false),
        3 => (T::deserialize(I8Deserializer::<E>::new(v as i8)).ok(), i(v as i8 as i64), true),
        4 => (T::deserialize(I16Deserializer::<E>::new(v as i16)).ok(), i(v as i16 as i64), true),
        5 => (T::deserialize(I32Deserializer::<E>::new(v as i32)).ok(), i(v as i32 as i64), true),
        6 => {
            let v = v as i64;
            assume(v >= 0);
            (T::deserialize(I64Deserializer::<E>::new(v)).ok(), u(v as u64), true)
        }
        7 => {
            let h = sym(64);
            (T::deserialize(U128Deserializer::<E>::new((h as u128) << 64 | v as u128)).ok(), if h == 0 { u(v) } else { None }, true)
        }
        8 => {
            let h = sym(64);
            let w = (h as i128) << 64 | v as i128;
            let fits = w as i64 as i128 == w;
            (T::deserialize(I128Deserializer::<E>::new(w)).ok(), if fits { i(w as i64) } else if h == 0 { u(v) } else { None }, true)
        }
        _ => {
            let f = [0.0, 1.0, 50.0, 80.5, -1.0, 65536.0, f32::NAN, f32::INFINITY][pick(8)];
            (T::deserialize(F32Deserializer::<E>::new(f)).ok(), T::deserialize(F64Deserializer::<E>::new(f as f64)).ok(), true)
        }
    };
    match (narrow, wide) {
        (Some(a), Some(b)) => {
            reach("width");
            check(a == b, "width:same value")
        }
        (Some(_), None) => check(false, "width:accepted only as this type"),
        (None, Some(_)) => check(optional, "width:refused only as this type"),
        (None, None) => reach("refused"),
    }
}

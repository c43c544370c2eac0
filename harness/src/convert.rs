//! Lists and maps of keys and values, single values, single items and lists.
use crate::{
    names::{hostname, map_key},
    sx::*,
    util::*,
};
use compose_spec::{
    service::{build::Context, AbsolutePath, Build},
    ItemOrList, ListOrMap, Map, MapKey, Number, Service, StringOrNumber, TryFromValueError, Value,
};
use indexmap::{IndexMap, IndexSet};
use serde_yaml::Value as Yaml;
use std::{borrow::Cow, net::IpAddr, path::Path};

fn bools(t: &str) -> (bool, bool) {
    (same(t, "true"), same(t, "false"))
}
/// What number a text is: none, unsigned, signed, floating point (bits).
#[derive(Clone, Copy, PartialEq)]
enum Num {
    None,
    U(u64),
    I(i64),
    F(u64),
}
fn num(t: &str) -> Num {
    let b = t.as_bytes();
    let sign = !b.is_empty() && ((b[0] == b'-') | (b[0] == b'+'));
    let mut digits = true;
    let mut i = if sign { 1 } else { 0 };
    let any = i < b.len();
    while i < b.len() {
        digits &= digit(b[i]);
        i += 1;
    }
    if digits {
        if !any {
            Num::None
        } else if b[0] == b'-' {
            t.parse().map_or(Num::None, Num::I)
        } else {
            t.parse().map_or(Num::None, Num::U)
        }
    } else {
        t.parse::<f64>().map_or(Num::None, |f| Num::F(f.to_bits()))
    }
}
fn is_num(n: &Number, w: Num) -> bool {
    let kind = (n.is_unsigned_int() as u8) + (n.is_signed_int() as u8) + (n.is_float() as u8);
    check(kind == 1, "exactly one kind of number");
    match w {
        Num::None => false,
        Num::U(x) => n.as_unsigned_int() == Some(x) && n.as_signed_int().is_none() && n.as_float().is_none(),
        Num::I(x) => n.as_signed_int() == Some(x) && n.as_unsigned_int().is_none() && n.as_float().is_none(),
        Num::F(x) => n.as_float().map(f64::to_bits) == Some(x) && n.as_unsigned_int().is_none() && n.as_signed_int().is_none(),
    }
}
/// `v` is what `t` means.
fn means(v: &Value, t: &str) -> bool {
    let (yes, no) = bools(t);
    if yes | no {
        return v.as_bool() == Some(yes) && v.is_bool();
    }
    match num(t) {
        Num::None => v.as_string().map_or(false, |s| same(s, t)) && v.is_string(),
        w => v.as_number().map_or(false, |n| is_num(n, w)) && v.is_number(),
    }
}
fn kinds(v: &Value) {
    check(v.is_string() == v.as_string().is_some() && v.is_number() == v.as_number().is_some() && v.is_bool() == v.as_bool().is_some(), "is and as agree");
    check((v.is_string() as u8) + (v.is_number() as u8) + (v.is_bool() as u8) == 1, "exactly one kind of value");
}
fn integers(n: Number, w: Num) {
    let (u, i) = (u64::try_from(n).ok(), i64::try_from(n).ok());
    match w {
        Num::None => {}
        Num::U(x) => {
            check(u == Some(x), "unsigned integer kept");
            check(i == (if x >> 63 == 0 { Some(x as i64) } else { None }), "unsigned to signed if it fits");
            check(f64::try_from(n).is_ok() == (x >> 32 == 0), "converted to float if exact");
            if x >> 32 == 0 {
                check(f64::try_from(n).map(f64::to_bits) == Ok((x as u32 as f64).to_bits()), "converted to an equal float");
            }
        }
        Num::I(x) => {
            check(i == Some(x), "signed integer kept");
            check(u == (if x >= 0 { Some(x as u64) } else { None }), "signed to unsigned if it fits");
            let ok = x >= i32::MIN as i64 && x <= i32::MAX as i64;
            check(f64::try_from(n).is_ok() == ok, "converted to float if exact");
            if ok {
                check(f64::try_from(n).map(f64::to_bits) == Ok((x as i32 as f64).to_bits()), "converted to an equal float");
            }
        }
        Num::F(x) => {
            check(u.is_none() && i.is_none(), "float is no integer");
            check(f64::try_from(n).map(f64::to_bits) == Ok(x), "float kept");
        }
    }
}
/// Conversions of a value agree with those of its number.
fn value_conversions(v: Value) {
    check(bool::try_from(v.clone()).ok() == v.as_bool(), "to bool");
    let n = match &v {
        Value::String(s) => s.parse::<Number>().ok(),
        Value::Number(n) => Some(*n),
        Value::Bool(b) => Some(Number::UnsignedInt(*b as u64)),
    };
    let bits = |r: Result<f64, TryFromValueError>| r.ok().map(f64::to_bits);
    match n {
        None => check(Number::try_from(v.clone()).is_err() && u64::try_from(v.clone()).is_err() && i64::try_from(v.clone()).is_err() && f64::try_from(v).is_err(), "text is no number"),
        Some(n) => {
            check(Number::try_from(v.clone()).is_ok(), "to number");
            check(u64::try_from(v.clone()).ok() == u64::try_from(n).ok(), "to u64");
            check(i64::try_from(v.clone()).ok() == i64::try_from(n).ok(), "to i64");
            check(bits(f64::try_from(v)) == f64::try_from(n).ok().map(f64::to_bits), "to f64");
        }
    }
}
fn yaml_value(v: &Value, y: &Yaml) -> bool {
    match (v, y) {
        (Value::String(s), Yaml::String(t)) => same(s, t),
        (Value::Bool(a), Yaml::Bool(b)) => a == b,
        (Value::Number(Number::Float(a)), Yaml::Number(b)) => b.is_f64() && b.as_f64().map_or(false, |b| b.to_bits() == a.to_bits() || (b.is_nan() && a.is_nan())),
        (Value::Number(Number::UnsignedInt(a)), Yaml::Number(b)) => !b.is_f64() && b.as_u64() == Some(*a),
        (Value::Number(Number::SignedInt(a)), Yaml::Number(b)) => !b.is_f64() && b.as_i64() == Some(*a),
        _ => false,
    }
}
/// Equal, a signed zero may be read as unsigned.
fn equal(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(Number::Float(a)), Value::Number(Number::Float(b))) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (Value::Number(Number::UnsignedInt(0)), Value::Number(Number::SignedInt(0))) => true,
        _ => a == b,
    }
}
fn parse_value(t: &str) {
    let v = Value::parse(t);
    check(means(&v, t), "parsed value");
    kinds(&v);
    check(means(&Value::parse(t.to_owned()), t), "parsed value of an owned text");
    let w = num(t);
    let s = StringOrNumber::parse(t);
    check(s.is_string() == s.as_string().is_some() && s.is_number() == s.as_number().is_some() && s.is_string() != s.is_number(), "is and as agree");
    let r = t.parse::<Number>();
    match (w, &r, Number::try_from(t), &s) {
        (Num::None, Err(_), Err(_), StringOrNumber::String(x)) => check(same(x, t), "text kept"),
        (w, Ok(a), Ok(b), StringOrNumber::Number(c)) if w != Num::None => check(is_num(a, w) && is_num(&b, w) && is_num(c, w), "number"),
        _ => check(false, "number if and only if the text is one"),
    }
    if let Ok(n) = r {
        integers(n, w);
    }
    if !matches!(v, Value::Number(Number::Float(_))) {
        check(same(&v.to_string(), &String::from(v.clone())), "printed as converted");
    }
    match serde_yaml::to_value(&v) {
        Ok(y) => {
            check(yaml_value(&v, &y), "serialized as its own kind");
            match serde_yaml::from_value::<Value>(y) {
                Ok(b) => check(equal(&b, &v), "serialized value reads back"),
                _ => check(false, "serialized value reads back"),
            }
        }
        _ => check(false, "serialized"),
    }
    // Text given as text is never interpreted.
    let made = [Value::from(t), Value::from(t.to_owned()), Value::from(Box::<str>::from(t)), Value::from(Cow::Borrowed(t)), read(Yaml::String(t.to_owned())).unwrap()];
    for m in made {
        check(m.as_string().map_or(false, |s| same(s, t)), "text kept as text");
    }
    let made = [StringOrNumber::from(t), StringOrNumber::from(t.to_owned()), StringOrNumber::from(Box::<str>::from(t)), StringOrNumber::from(Cow::Borrowed(t)), read(Yaml::String(t.to_owned())).unwrap()];
    for m in made {
        check(m.as_string().map_or(false, |s| same(s, t)) && same(&m.to_string(), t) && same(&String::from(m), t), "text kept as text");
    }
    value_conversions(v);
    value_conversions(Value::from(t));
    check(Number::try_from(StringOrNumber::from(t)).is_ok() == (w != Num::None), "text to number");
    if w == Num::None {
        reach("text");
    } else {
        reach("number");
    }
}
/// Position of the first delimiter.
fn find(t: &str, d: &[u8]) -> Option<usize> {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let mut hit = false;
        for c in d {
            hit |= b[i] == *c;
        }
        if hit {
            return Some(i);
        }
        i += 1;
    }
    None
}
fn split<'a>(t: &'a str, d: &[u8]) -> (&'a str, Option<&'a str>) {
    match find(t, d) {
        Some(i) => (&t[..i], if i + 1 == t.len() { None } else { Some(&t[i + 1..]) }),
        None => (t, None),
    }
}
/// The map agrees with the items, a repeated key takes the last value and the first place.
fn check_map(m: &Map, items: &[&str], d: &[u8]) {
    let mut want: Vec<(&str, Option<&str>)> = Vec::new();
    for i in items {
        let (k, v) = split(i, d);
        match want.iter_mut().find(|x| same(x.0, k)) {
            Some(x) => x.1 = v,
            None => want.push((k, v)),
        }
    }
    check(m.len() == want.len(), "number of keys");
    for ((k, v), (wk, wv)) in m.iter().zip(&want) {
        check(same(k.as_str(), wk), "key");
        match (v, wv) {
            (None, None) => {}
            (Some(v), Some(t)) => check(means(v, t), "value"),
            _ => check(false, "value present"),
        }
    }
}
fn list(items: &[&str]) -> ListOrMap {
    ListOrMap::List(items.iter().map(|s| (*s).to_owned()).collect())
}
fn split_items(items: &[&str], d: &[u8]) {
    let l = list(items);
    let chars: Vec<char> = d.iter().map(|c| *c as char).collect();
    let mut ok = true;
    for i in items {
        ok &= map_key(split(i, d).0);
    }
    let m = l.clone().into_map_split_on(&chars);
    check(m.is_ok() == ok, "converted if and only if every key is valid");
    if d.len() == 1 && d[0] == b'=' {
        check(l.into_map().is_ok() == ok, "the default delimiter is =");
    }
    if let Ok(m) = m {
        check_map(&m, items, d);
        reach("map");
    }
}
fn texts(shape: usize) -> Vec<String> {
    let mut v = Vec::new();
    let mut s = shape;
    while s > 0 {
        v.push(ascii(s % 10 - 1));
        s /= 10;
    }
    v
}
fn value_menu(k: usize, n: usize) -> (Option<Value>, String) {
    match k {
        0 => (None, String::new()),
        1 => {
            let t = ascii(n);
            (Some(Value::String(t.clone())), t)
        }
        2 => {
            let v = sym(5);
            (Some(Value::from(v)), v.to_string())
        }
        3 => {
            let v = -1 - sym(4) as i64;
            (Some(Value::from(v)), v.to_string())
        }
        _ => {
            let b = fork();
            (Some(Value::Bool(b)), if b { "true" } else { "false" }.to_owned())
        }
    }
}
fn yaml_of(v: &Option<Value>) -> Yaml {
    match v {
        None => Yaml::Null,
        Some(Value::String(s)) => Yaml::String(s.clone()),
        Some(Value::Bool(b)) => Yaml::Bool(*b),
        Some(Value::Number(Number::UnsignedInt(n))) => Yaml::from(*n),
        Some(Value::Number(Number::SignedInt(n))) => Yaml::from(*n),
        Some(Value::Number(Number::Float(n))) => Yaml::from(*n),
    }
}
fn map_yaml(k: &str, v: Yaml) -> Yaml {
    Yaml::Mapping([(Yaml::from(k), v)].into_iter().collect())
}
fn hosts(y: Yaml, build: bool) -> Option<Vec<(String, IpAddr)>> {
    let m = if build {
        read::<Build>(map_yaml("extra_hosts", y)).ok().map(|x| x.extra_hosts)
    } else {
        read::<Service>(map_yaml("extra_hosts", y)).ok().map(|x| x.extra_hosts)
    };
    m.map(|m| m.into_iter().map(|(k, v)| (k.as_str().to_owned(), v)).collect())
}
fn strip(t: &str) -> &str {
    let n = t.len();
    if n >= 2 && (t.as_bytes()[0] == b'[') & (t.as_bytes()[n - 1] == b']') {
        &t[1..n - 1]
    } else {
        t
    }
}
const IPS: [&str; 10] = ["127.0.0.1", "::1", "[::1]", "[::1", "::1]", "", "1", "true", "1.2.3", "fe80::a:b"];
fn check_host(r: Option<Vec<(String, IpAddr)>>, host: &str, ip: Option<&str>) {
    let want = ip.and_then(|ip| strip(ip).parse::<IpAddr>().ok());
    let ok = hostname(host) & want.is_some();
    check(r.is_some() == ok, "host accepted if and only if name and address are valid");
    if let Some(r) = r {
        check(r.len() == 1 && same(&r[0].0, host) && r[0].1 == want.unwrap(), "host and address");
        reach("accepted");
    }
}
fn contexts(y: Yaml) -> Option<IndexMap<MapKey, Context>> {
    read::<Build>(map_yaml("additional_contexts", y)).ok().map(|b| b.additional_contexts)
}
fn item_yaml(items: &[&str]) -> Yaml {
    Yaml::Sequence(items.iter().map(|s| Yaml::from(*s)).collect())
}

harness! {
    fn v_parse(n, mb) {
        parse_value(&text(n, mb));
    }
    fn v_parse_edge(k, n) {
        let a = ["184467440737095516", "-92233720368547758", "999999999999999999", "+184467440737095516", "0000000000000000000000", "tru", "fals", "1.", "i", "-in", "na", "1e", "-0", "0x", "infinit"][k];
        let mut v = a.as_bytes().to_vec();
        let mut i = 0;
        while i < n {
            let c = sym(7) as u8;
            if k < 5 && i + 2 < n {
                assume((c == b'6') | (c == b'8') | (c == b'0'));
            }
            v.push(c);
            i += 1;
        }
        parse_value(&finish(v));
    }
    fn v_int(kind) {
        let bits = sym(64);
        let (n, w) = if kind == 0 { (Number::from(bits), Num::U(bits)) } else { (Number::from(bits as i64), Num::I(bits as i64)) };
        check(is_num(&n, w), "number made from an integer");
        integers(n, w);
        let v = if kind == 0 { Value::from(bits) } else { Value::from(bits as i64) };
        kinds(&v);
        check(v == Value::from(n) && v.as_number().map_or(false, |n| is_num(n, w)), "value made from an integer");
        let s = if kind == 0 { StringOrNumber::from(bits) } else { StringOrNumber::from(bits as i64) };
        check(s.as_number().map_or(false, |n| is_num(&n, w)) && s == StringOrNumber::from(n), "text or number made from an integer");
        match serde_yaml::to_value(&v) {
            Ok(y) => {
                check(yaml_value(&v, &y), "serialized as an integer");
                // A signed integer which is not negative is read as an unsigned one.
                let w = match w {
                    Num::I(x) if x >= 0 => Num::U(x as u64),
                    w => w,
                };
                check(read::<Value>(y.clone()).ok().map_or(false, |v| v.as_number().map_or(false, |n| is_num(n, w))), "integer read back");
                check(read::<StringOrNumber>(y.clone()).ok().map_or(false, |v| v.as_number().map_or(false, |n| is_num(&n, w))), "integer read back");
                check(read::<Number>(y).ok().map_or(false, |n| is_num(&n, w)), "integer read back");
            }
            _ => check(false, "serialized"),
        }
        value_conversions(v);
        reach("integer");
    }
    fn v_int_text(kind, base) {
        let b = [0u64, 90, 65530, 4294967290, i64::MAX as u64 - 8, u64::MAX - 15][base] + sym(4);
        let (n, w, s) = if kind == 0 { (Number::from(b), Num::U(b), b.to_string()) } else { (Number::from((b as i64).wrapping_neg()), Num::I((b as i64).wrapping_neg()), (b as i64).wrapping_neg().to_string()) };
        check(same(&n.to_string(), &s), "number printed");
        check(same(&String::from(Value::from(n)), &s) && same(&Value::from(n).to_string(), &s), "value printed");
        check(same(&String::from(StringOrNumber::from(n)), &s) && same(&StringOrNumber::from(n).to_string(), &s), "text or number printed");
        let w = match w {
            Num::I(x) if x >= 0 => Num::U(x as u64),
            w => w,
        };
        check(is_num(&s.parse().unwrap(), w), "printed number reads back");
        match Value::parse(&*s) {
            Value::Number(n) => check(is_num(&n, w), "printed number reads back"),
            _ => check(false, "printed number reads back"),
        }
        reach("printed");
    }
    fn v_float() {
        let bits = sym(64);
        let f = f64::from_bits(bits);
        let n = Number::from(f);
        check(is_num(&n, Num::F(bits)), "number made from a float");
        integers(n, Num::F(bits));
        let v = Value::from(f);
        kinds(&v);
        check(v.as_number().map_or(false, |n| is_num(n, Num::F(bits))), "value made from a float");
        check(StringOrNumber::from(f).as_number().map_or(false, |n| is_num(&n, Num::F(bits))), "text or number made from a float");
        if !f.is_nan() {
            match serde_yaml::to_value(&v) {
                Ok(y) => {
                    check(read::<Value>(y.clone()).ok().map_or(false, |v| v.as_number().map_or(false, |n| is_num(n, Num::F(bits)))), "float read back");
                    check(read::<StringOrNumber>(y.clone()).ok().map_or(false, |v| v.as_number().map_or(false, |n| is_num(&n, Num::F(bits)))), "float read back");
                    check(read::<Number>(y).ok().map_or(false, |n| is_num(&n, Num::F(bits))), "float read back");
                }
                _ => check(false, "serialized"),
            }
            reach("float");
        }
        let b = fork();
        let v = Value::from(b);
        kinds(&v);
        check(v.as_bool() == Some(b) && same(&v.to_string(), if b { "true" } else { "false" }), "value made from a bool");
        check(serde_yaml::to_value(&v).ok() == Some(Yaml::Bool(b)) && read::<Value>(Yaml::Bool(b)).ok() == Some(v.clone()), "bool read back");
        value_conversions(v);
        check(read::<StringOrNumber>(Yaml::Bool(b)).is_err() && read::<Number>(Yaml::Bool(b)).is_err(), "bool is no number");
        check(read::<Value>(Yaml::Null).is_err() && read::<Value>(Yaml::Sequence(vec![])).is_err(), "other kinds rejected");
    }
    fn l_split(shape, delims) {
        let v = texts(shape);
        let items: Vec<&str> = v.iter().map(String::as_str).collect();
        split_items(&items, [&b"="[..], b":", b"=:", b":="][delims]);
    }
    fn l_split_text(n, mb, delims) {
        let t = text(n, mb);
        split_items(&[&t], [&b"="[..], b":", b"=:", b":="][delims]);
    }
    fn l_many(n, at, len, delims) {
        let t = ascii(len);
        let mut v = Vec::with_capacity(n);
        for j in 0..n {
            let j2 = j * 37 % 89 + 10;
            let (a, b) = (b'0' + (j2 / 10) as u8, b'0' + (j2 % 10) as u8);
            v.push(if j == at { t.clone() } else { finish(vec![b'k', a, b, if delims % 2 == 0 { b'=' } else { b':' }, b'v', a]) });
        }
        let items: Vec<&str> = v.iter().map(String::as_str).collect();
        split_items(&items, [&b"="[..], b":", b"=:", b":="][delims]);
    }
    fn l_print(kinds, n) {
        // Map -> list -> map.
        let mut m = Map::new();
        let mut want = Vec::new();
        let mut back = true;
        let mut k = kinds;
        while k > 0 {
            let key = ascii(n);
            let valid = MapKey::new(key.as_str());
            assume(valid.is_ok());
            let (v, t) = value_menu(k % 10 - 1, 2);
            back &= find(&key, b"=").is_none() & v.as_ref().map_or(true, |v| !t.is_empty() && means(v, &t));
            let key = valid.unwrap();
            assume(!m.contains_key(&key));
            let s = if v.is_some() { [key.as_str(), "=", &t].concat() } else { key.as_str().to_owned() };
            if want.iter().all(|x: &String| !same(x, &s)) {
                want.push(s);
            }
            m.insert(key, v);
            k /= 10;
        }
        let l = ListOrMap::Map(m.clone());
        check(l.as_map() == Some(&m) && l.as_list().is_none() && l.is_empty() == m.is_empty(), "map");
        check(l.clone().into_map().ok().as_ref() == Some(&m), "map kept as a map");
        let set = l.clone().into_list();
        check(set.len() == want.len(), "number of items");
        for (a, b) in set.iter().zip(&want) {
            check(same(a, b), "item");
        }
        if back {
            check(ListOrMap::List(set).into_map().ok().as_ref() == Some(&m), "map back from the list");
            reach("back");
        }
        match serde_yaml::to_value(&l) {
            Ok(y) => {
                let want = Yaml::Mapping(m.iter().map(|(k, v)| (Yaml::from(k.as_str()), yaml_of(v))).collect());
                check(y == want, "map serialized");
                check(read::<ListOrMap>(y).ok() == Some(l), "map read back");
            }
            _ => check(false, "serialized"),
        }
    }
    fn l_back(shape) {
        // List -> map -> list.
        let v = texts(shape);
        let mut keep = true;
        for (i, t) in v.iter().enumerate() {
            let (k, x) = split(t, b"=");
            keep &= map_key(k) & (x.is_some() | find(t, b"=").is_none());
            if let Some(x) = x {
                keep &= match num(x) {
                    Num::None => true,
                    Num::U(_) => (x.as_bytes()[0] != b'+') & ((x.as_bytes()[0] != b'0') | (x.len() == 1)),
                    Num::I(_) => x.as_bytes()[1] != b'0',
                    Num::F(_) => false,
                };
            }
            for u in &v[..i] {
                keep &= !same(k, split(u, b"=").0);
            }
        }
        if keep {
            let items: Vec<&str> = v.iter().map(String::as_str).collect();
            let l = list(&items);
            match l.into_map() {
                Ok(m) => {
                    let set = ListOrMap::Map(m).into_list();
                    check(set.len() == v.len(), "number of items");
                    for (a, b) in set.iter().zip(&v) {
                        check(same(a, b), "same items");
                    }
                    reach("kept");
                }
                Err(_) => check(false, "converted"),
            }
        }
    }
    fn l_read(shape) {
        let v = texts(shape);
        let items: Vec<&str> = v.iter().map(String::as_str).collect();
        let l = list(&items);
        match read::<ListOrMap>(item_yaml(&items)) {
            Ok(r) => {
                check(r == l && r.as_map().is_none(), "list read");
                let mut want: Vec<&str> = Vec::new();
                for i in &items {
                    if !want.iter().any(|w| same(w, i)) {
                        want.push(i);
                    }
                }
                check(r.is_empty() == items.is_empty(), "empty list");
                let set = r.as_list().unwrap();
                check(set.len() == want.len() && set.iter().zip(&want).all(|(a, b)| same(a, b)), "items of a list");
                match serde_yaml::to_value(&r) {
                    Ok(Yaml::Sequence(s)) => check(s.len() == want.len() && s.iter().zip(&want).all(|(a, b)| a.as_str().map_or(false, |a| same(a, b))), "list serialized"),
                    _ => check(false, "list serialized as a list"),
                }
                check(r.clone().into_list() == *set, "list kept as a list");
                reach("list");
            }
            Err(_) => check(false, "list accepted"),
        }
        check(ListOrMap::default().is_empty() && ListOrMap::default().as_list().is_some(), "default");
    }
    fn l_kinds(k, n) {
        let t = ascii(n);
        let key = ["a", "", "a\nb", "x y=z"][pick(4)];
        let valid = map_key(key);
        let other = match k {
            0 => Yaml::Null,
            1 => Yaml::String(t.clone()),
            2 => Yaml::from(sym(64)),
            3 => Yaml::from(1.5),
            4 => Yaml::Bool(fork()),
            5 => Yaml::Sequence(vec![Yaml::String(t.clone())]),
            _ => map_yaml("b", Yaml::String(t.clone())),
        };
        let scalar = k < 5;
        let m = read::<ListOrMap>(map_yaml(key, other.clone())).ok();
        check(m.is_some() == (scalar & valid), "map of single values accepted");
        if let Some(ListOrMap::Map(m)) = m {
            check(m.len() == 1 && same(m.keys().next().unwrap().as_str(), key), "key");
            check(yaml_of(&m[0]) == other, "value");
            reach("map");
        } else {
            check(!(scalar & valid), "map read as a map");
        }
        check(read::<ListOrMap>(Yaml::Sequence(vec![other.clone()])).is_ok() == (k == 1), "list of strings only");
        if scalar {
            check(read::<ListOrMap>(other).is_err(), "neither list nor map");
        }
    }
    fn e_host(build, form, n, ip) {
        let host = ascii(n);
        let y = match form {
            0 | 1 => {
                assume(find(&host, b"=:").is_none());
                item_yaml(&[[host.as_str(), if form == 0 { "=" } else { ":" }, IPS[ip]].concat().as_str()])
            }
            _ => map_yaml(&host, Yaml::from(IPS[ip])),
        };
        check_host(hosts(y, build == 1), &host, Some(IPS[ip]));
    }
    fn e_address(build, form, n, mb) {
        let ip = text(n, mb);
        let y = match form {
            0 => item_yaml(&[&["h=", &ip].concat()]),
            1 => item_yaml(&[&["h:", &ip].concat()]),
            _ => map_yaml("h", Yaml::from(ip.as_str())),
        };
        check_host(hosts(y, build == 1), "h", Some(&ip));
    }
    fn e_address_after(build, form, k, n) {
        let ip = [["1.2.3.", "[::", "[fe80::1", "::ffff:1.2.3.4", "[1.2.3.4"][k], ascii(n).as_str()].concat();
        let y = match form {
            0 => item_yaml(&[&["h=", &ip].concat()]),
            1 => item_yaml(&[&["h:", &ip].concat()]),
            _ => map_yaml("h", Yaml::from(ip.as_str())),
        };
        check_host(hosts(y, build == 1), "h", Some(&ip));
    }
    fn e_item(build, n) {
        // One item of any text.
        let t = ascii(n);
        let i = find(&t, b"=:");
        let (host, ip) = match i {
            Some(i) => (&t[..i], Some(&t[i + 1..])),
            None => (t.as_str(), None),
        };
        check_host(hosts(item_yaml(&[&t]), build == 1), host, ip);
    }
    fn e_other(build, k) {
        let v = match k {
            0 => Yaml::Null,
            1 => Yaml::from(sym(64)),
            2 => Yaml::Bool(fork()),
            3 => Yaml::from(1.5),
            _ => Yaml::Sequence(vec![Yaml::from("::1")]),
        };
        check(hosts(map_yaml("h", v.clone()), build == 1).is_none() && hosts(Yaml::Sequence(vec![v]), build == 1).is_none(), "address must be text");
        check(hosts(Yaml::from("h=::1"), build == 1).is_none(), "hosts must be a list or map");
        reach("rejected");
    }
    fn e_two(build, form) {
        let (a, b) = (ascii(1), ascii(1));
        let (x, y) = ("10.0.0.1", "fe80::2");
        assume(hostname(&a) & hostname(&b));
        let doc = match form {
            0 => item_yaml(&[&[a.as_str(), "=", x].concat(), &[b.as_str(), ":", y].concat()]),
            1 => item_yaml(&[&[a.as_str(), ":", x].concat(), &[b.as_str(), "=[", y, "]"].concat()]),
            _ => {
                assume(!same(&a, &b));
                Yaml::Mapping([(Yaml::from(a.as_str()), Yaml::from(x)), (Yaml::from(b.as_str()), Yaml::from(["[", y, "]"].concat()))].into_iter().collect())
            }
        };
        match hosts(doc, build == 1) {
            Some(r) if same(&a, &b) => check(r.len() == 1 && same(&r[0].0, &a) && r[0].1 == y.parse::<IpAddr>().unwrap(), "last address of a repeated host"),
            Some(r) => {
                check(r.len() == 2 && same(&r[0].0, &a) && same(&r[1].0, &b), "hosts in order");
                check(r[0].1 == x.parse::<IpAddr>().unwrap() && r[1].1 == y.parse::<IpAddr>().unwrap(), "each host has its address");
                reach("two");
            }
            None => check(false, "hosts accepted"),
        }
    }
    fn a_context(form, n, shape) {
        let key = ascii(n);
        let v = ["", "d", "./d", "docker-image://alpine", "true", "https://e.com/r.git#b:d", "12", "1.10", "a=b", "007"][shape];
        let r = match form {
            0 => {
                assume(find(&key, b"=").is_none());
                contexts(item_yaml(&[&[key.as_str(), "=", v].concat()]))
            }
            1 => {
                assume(find(&key, b"=").is_none());
                contexts(item_yaml(&[&key]))
            }
            2 => contexts(map_yaml(&key, Yaml::from(v))),
            _ => contexts(map_yaml(&key, Yaml::Null)),
        };
        let want = match form {
            1 | 3 => Context::default(),
            0 if v.is_empty() => Context::default(),
            _ => v.parse::<Context>().unwrap(),
        };
        check(r.is_some() == map_key(&key), "context accepted if and only if its name is valid");
        if let Some(r) = r {
            check(r.len() == 1 && same(r.keys().next().unwrap().as_str(), &key) && r[0] == want, "context");
            reach("context");
        }
    }
    fn i_items(shape) {
        let v = texts(shape);
        let items: Vec<&str> = v.iter().map(String::as_str).collect();
        let mut ok = true;
        let mut want: Vec<&str> = Vec::new();
        for i in &items {
            ok &= !i.is_empty() && i.as_bytes()[0] == b'/';
            // Unique as paths: /a/ and /a are the same.
            if !want.iter().any(|w| Path::new(w) == Path::new(i)) {
                want.push(i);
            }
        }
        let same_as = |l: &IndexSet<AbsolutePath>| l.len() == want.len() && l.iter().zip(&want).all(|(a, b)| same(a.as_path().to_str().unwrap(), b));
        let r = read::<ItemOrList<AbsolutePath>>(item_yaml(&items)).ok();
        check(r.is_some() == ok, "list accepted if and only if every item is valid");
        if let Some(r) = r {
            check(r.as_list().map_or(false, same_as), "items of a list");
            match r.as_item() {
                Some(i) => check(want.len() == 1 && same(i.as_path().to_str().unwrap(), want[0]), "single item"),
                None => check(want.len() != 1, "not a single item"),
            }
            match serde_yaml::to_value(&r) {
                Ok(Yaml::Sequence(s)) => check(s.len() == want.len() && s.iter().zip(&want).all(|(a, b)| a.as_str().map_or(false, |a| same(a, b))), "list serialized"),
                _ => check(false, "list serialized as a list"),
            }
            check(same_as(&r.clone().into_list()) && same_as(&IndexSet::from(r.clone())), "list");
            check(ItemOrList::from(r.clone().into_list()) == r, "list made of its items");
            reach("list");
        }
        if items.len() == 1 {
            let r = read::<ItemOrList<AbsolutePath>>(Yaml::from(items[0])).ok();
            check(r.is_some() == ok, "item accepted if and only if valid");
            if let Some(r) = r {
                check(r.as_list().is_none() && r.as_item().map_or(false, |i| same(i.as_path().to_str().unwrap(), items[0])), "item");
                check(same_as(&r.clone().into_list()), "item to list");
                check(serde_yaml::to_value(&r).ok().map_or(false, |y| y.as_str().map_or(false, |s| same(s, items[0]))), "item serialized");
                check(ItemOrList::from(r.as_item().unwrap().clone()) == r && r != ItemOrList::from(r.clone().into_list()), "an item is not a list");
                reach("item");
            }
        }
    }
    fn i_others(k, n) {
        let v = match k {
            0 => Yaml::Null,
            1 => Yaml::from(sym(64)),
            2 => Yaml::Bool(fork()),
            3 => Yaml::from(1.5),
            _ => map_yaml("a", Yaml::from(ascii(n))),
        };
        check(read::<ItemOrList<AbsolutePath>>(v.clone()).is_err(), "neither item nor list");
        check(read::<ItemOrList<AbsolutePath>>(Yaml::Sequence(vec![Yaml::from("/a"), v])).is_err(), "list of items only");
        reach("rejected");
    }
}

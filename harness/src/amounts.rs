//! Durations and byte sizes.
use crate::{sx::*, util::*};
use compose_spec::{
    duration,
    service::{blkio_config::BpsLimit, deploy::RestartPolicy, deploy::UpdateOrRollbackConfig, healthcheck::{self, Healthcheck}, ByteValue},
};
use serde_yaml::{Mapping, Value};
use std::time::Duration;

/// Decimal digits (at least one) that fit u64.
pub fn u64_text(b: &[u8]) -> (bool, u64) {
    let mut ok = !b.is_empty();
    let mut v: u64 = 0;
    let mut i = 0;
    while i < b.len() {
        ok &= digit(b[i]);
        let d = (b[i].wrapping_sub(b'0') & 15) as u64;
        if i < 19 {
            v = v.wrapping_mul(10).wrapping_add(d);
        } else {
            // 19 digits always fit
            ok &= (v < 1844674407370955161) | ((v == 1844674407370955161) & (d <= 5));
            v = v.wrapping_mul(10).wrapping_add(d);
        }
        i += 1;
    }
    (ok, v)
}
/// The documented meaning of a duration text: whole seconds and microseconds.
fn meaning(s: &str) -> Option<(u64, u32)> {
    let b = s.as_bytes();
    if b.is_empty() {
        return None;
    }
    let mut i = 0;
    let (mut secs, mut micros) = (0u64, 0u32);
    while i < b.len() {
        let j = i;
        while i < b.len() && digit(b[i]) {
            i += 1;
        }
        let k = i;
        while i < b.len() && !digit(b[i]) {
            i += 1;
        }
        let (ok, v) = u64_text(&b[j..k]);
        if !ok {
            return None;
        }
        let (s, u) = match &s[k..i] {
            "h" if v <= LIMIT[0] => (v * 3600, 0),
            "m" if v <= LIMIT[1] => (v * 60, 0),
            "s" => (v, 0),
            "ms" => (v / 1000, (v % 1000) as u32 * 1000),
            "us" => (v / 1_000_000, (v % 1_000_000) as u32),
            _ => return None,
        };
        micros += u;
        secs = secs.checked_add(s)?;
        if micros >= 1_000_000 {
            micros -= 1_000_000;
            secs = secs.checked_add(1)?;
        }
    }
    Some((secs, micros))
}
fn in_map(k: &str, v: Value) -> Value {
    let mut m = Mapping::new();
    m.insert(k.into(), v);
    Value::Mapping(m)
}
/// All fields a duration is read from.
fn from_yaml(v: &Value) -> Result<Option<Duration>, ()> {
    let a = read::<RestartPolicy>(in_map("delay", v.clone())).map(|x| x.delay);
    let b = read::<RestartPolicy>(in_map("window", v.clone())).map(|x| x.window);
    let c = read::<UpdateOrRollbackConfig>(in_map("monitor", v.clone())).map(|x| x.monitor);
    let d = read::<Healthcheck>(in_map("interval", v.clone())).map(|x| match x {
        Healthcheck::Command(c) => c.interval,
        Healthcheck::Disable => None,
    });
    check(a.is_ok() == b.is_ok() && b.is_ok() == c.is_ok() && c.is_ok() == d.is_ok(), "fields agree on acceptance");
    if let (Ok(a), Ok(b), Ok(c), Ok(d)) = (&a, &b, &c, &d) {
        check(a == b && b == c && c == d, "fields agree");
    }
    a.map_err(|_| ())
}
fn duration_text(s: String, yaml: bool) {
    let r = duration::parse(&s);
    let want = meaning(&s);
    check(r.is_ok() == want.is_some(), "duration accepted");
    if let (Ok(d), Some((s, us))) = (&r, want) {
        reach("accepted");
        check((d.as_secs() == s) & (d.subsec_nanos() == us * 1000), "duration value");
    }
    if yaml {
        let y = from_yaml(&Value::String(s));
        check(y.is_ok() == r.is_ok(), "deserialize agrees");
        if let (Ok(d), Ok(y)) = (r, y) {
            check(y == Some(d), "deserialized value");
        }
    }
}
fn digits(v: &mut Vec<u8>, n: usize) {
    let mut i = 0;
    while i < n {
        let c = sym(7) as u8;
        assume(digit(c));
        v.push(c);
        i += 1;
    }
}
const UNITS: [&str; 5] = ["h", "m", "s", "ms", "us"];
/// Largest accepted value of each unit.
const LIMIT: [u64; 5] = [5124095576030431, 307445734561825860, u64::MAX, u64::MAX, u64::MAX];

fn bytes_oracle(s: &str) -> Option<(u8, u64)> {
    let b = s.as_bytes();
    let n = b.len();
    if n == 0 {
        return None;
    }
    let mut k = n;
    while k > 0 && !digit(b[k - 1]) {
        k -= 1;
    }
    let unit = match &s[k..] {
        "" | "b" | "B" => 0,
        "k" | "K" | "kb" => 1,
        "m" | "M" | "mb" => 2,
        "g" | "G" | "gb" => 3,
        _ => return None,
    };
    let (ok, v) = u64_text(&b[..k]);
    ok.then_some((unit, v))
}
fn parts(b: ByteValue) -> (u8, u64) {
    match b {
        ByteValue::Bytes(v) => (0, v),
        ByteValue::Kilobytes(v) => (1, v),
        ByteValue::Megabytes(v) => (2, v),
        ByteValue::Gigabytes(v) => (3, v),
    }
}
fn make(k: usize, v: u64) -> ByteValue {
    match k {
        0 => ByteValue::Bytes(v),
        1 => ByteValue::Kilobytes(v),
        2 => ByteValue::Megabytes(v),
        _ => ByteValue::Gigabytes(v),
    }
}
fn byte_text(s: String) {
    let r = s.parse::<ByteValue>();
    let y: Result<ByteValue, _> = read(Value::String(s.clone()));
    check(y.is_ok() == r.is_ok(), "deserialize agrees");
    let b = s.as_bytes();
    assume(b.is_empty() || b[0] != b'+'); // not judged
    let want = bytes_oracle(&s);
    check(r.is_ok() == want.is_some(), "byte size accepted");
    if let (Ok(r), Some((u, v))) = (r, want) {
        reach("accepted");
        let (a, b) = parts(r);
        check((a == u) & (b == v), "byte size value");
        check(y.unwrap() == r, "deserialized value");
    }
}

harness! {
    fn d_text(n, mb) {
        duration_text(text(n, mb), false)
    }
    fn d_text_yaml(n, mb) {
        duration_text(text(n, mb), true)
    }
    // three values with units given by the argument, the last symbolic digits each
    fn d_shape(units, lens) {
        let mut v = vec![];
        let (mut u, mut l) = (units, lens);
        while l > 0 {
            digits(&mut v, l % 10);
            v.extend_from_slice(UNITS[u % 10].as_bytes());
            u /= 10;
            l /= 10;
        }
        duration_text(finish(v), false)
    }
    // around the largest value of a unit: `free` symbolic last digits, then a second value
    fn d_limit(unit, free, unit2, extra) {
        let mut v = LIMIT[unit].to_string().into_bytes();
        let n = v.len();
        v.truncate(n - free);
        digits(&mut v, free);
        v.extend_from_slice(UNITS[unit].as_bytes());
        if extra > 0 {
            digits(&mut v, extra);
            v.extend_from_slice(UNITS[unit2].as_bytes());
        }
        duration_text(finish(v), false)
    }
    // two values that add up to about the largest duration
    fn d_sum(free, last) {
        // 5124095576030431h 15s is the largest number of seconds
        let mut v = format!("{}h", LIMIT[0]).into_bytes();
        digits(&mut v, free);
        v.extend_from_slice(UNITS[2].as_bytes());
        if last == 1 {
            v.extend_from_slice(b"999ms");
            digits(&mut v, 4);
            v.extend_from_slice(b"us");
        }
        duration_text(finish(v), false)
    }
    // printing: exact to the microsecond, and zero is still a duration
    fn d_print(sec, us, nanos) {
        let base = [0u64, 50, 3590, 3600, 7195, 86390, 359990, u64::MAX - 15, 5124095576030431 * 3600 - 8][sec];
        let ub = [0u32, 992, 999984, 500000, 1000][us];
        let s = base + sym(4);
        let u = ub + sym(4) as u32;
        let n = if nanos == 0 { 0 } else { let n = sym(10) as u32; assume(n < 1000); n };
        let d = Duration::new(s, u * 1000 + n);
        let t = duration::to_string(d);
        observe_str(&t);
        let whole = Duration::new(s, u * 1000);
        check(duration::parse(&t) == Ok(whole), "printed duration parses back");
        check(meaning(&t) == Some((s, u)), "printed duration is exact");
        let p = RestartPolicy { delay: Some(d), ..RestartPolicy::default() };
        match serde_yaml::to_value(&p) {
            Ok(v) => {
                check(v.get("delay").and_then(Value::as_str).is_some_and(|x| same(x, &t)), "serialized as printed");
                match read::<RestartPolicy>(v) {
                    Ok(q) => check(q.delay == Some(whole), "deserialized duration"),
                    Err(_) => check(false, "serialized duration deserializes"),
                }
            }
            Err(_) => check(false, "duration serializes"),
        }
        let c = healthcheck::Command { interval: Some(d), timeout: Some(d), start_period: Some(d), start_interval: Some(d), ..Default::default() };
        match serde_yaml::to_value(Healthcheck::from(c)) {
            Ok(v) => match read::<Healthcheck>(v) {
                Ok(Healthcheck::Command(q)) => check(q.interval == Some(whole) && q.timeout == Some(whole) && q.start_period == Some(whole) && q.start_interval == Some(whole), "healthcheck durations"),
                _ => check(false, "healthcheck deserializes"),
            },
            Err(_) => check(false, "healthcheck serializes"),
        }
        reach("printed");
    }
    // numbers are microseconds
    fn d_number(k) {
        match k {
            0 => {
                let v = sym(64);
                match from_yaml(&Value::Number(v.into())) {
                    Ok(Some(d)) => check((d.as_secs() == v / 1_000_000) & (d.subsec_nanos() == (v % 1_000_000) as u32 * 1000), "number of microseconds"),
                    _ => check(false, "number accepted"),
                }
                reach("number");
            }
            1 => {
                let v = sym(64) as i64;
                assume(v < 0);
                check(from_yaml(&Value::Number(v.into())).is_err(), "negative number rejected");
            }
            2 => check(from_yaml(&Value::Number([0.0, 1.0, 1.5, -1.0, f64::NAN, f64::INFINITY][pick(6)].into())).is_err(), "float rejected"),
            3 => check(from_yaml(&Value::Null) == Ok(None), "null is no duration"),
            4 => check(from_yaml(&Value::Bool(flag())).is_err(), "bool rejected"),
            _ => check(from_yaml(&Value::Sequence(vec![])).is_err() && from_yaml(&Value::Mapping(Mapping::new())).is_err(), "collections rejected"),
        }
    }
    fn b_text(n, mb) {
        byte_text(text(n, mb))
    }
    // digits with the last `free` symbolic, then a symbolic unit
    fn b_limit(which, free, unit) {
        let mut v = ["18446744073709551615", "18446744073709551", "18446744073709", "18446744073", "99999999999999999999", "184467440737095516150", "0000000000000000000000007"][which].as_bytes().to_vec();
        let n = v.len();
        v.truncate(n - free);
        digits(&mut v, free);
        push_ascii(&mut v, unit);
        byte_text(finish(v))
    }
    // exact number of bytes, or none when it does not fit
    fn b_bytes(k) {
        let v = sym(64);
        let b = make(k, v);
        let mul = [1u64, 1_000, 1_000_000, 1_000_000_000][k];
        let fits = v <= u64::MAX / mul;
        match b.into_bytes() {
            Some(x) => {
                check(fits, "too large is none");
                check(x == v.wrapping_mul(mul), "bytes exact");
                reach("some");
            }
            None => {
                check(!fits, "fitting is some");
                reach("none");
            }
        }
        check(b.unit() == ["b", "kb", "mb", "gb"][k], "unit");
        check(ByteValue::default() == ByteValue::Bytes(0), "default");
    }
    fn b_print(k, w) {
        let v = [0u64, 92, 992, 65530, 4294967290, 18446744073709551600, 9999999999999999992][w] + sym(4);
        let b = make(k, v);
        let t = b.to_string();
        check(bytes_oracle(&t) == Some((k as u8, v)), "printed value and unit");
        check(t.parse() == Ok(b), "printed size parses back");
        let y = serde_yaml::to_value(b).unwrap();
        check(y.as_str().is_some_and(|x| same(x, &t)), "serialized as printed");
        match read::<ByteValue>(y) {
            Ok(q) => check(q == b, "deserialized size"),
            Err(_) => check(false, "serialized size deserializes"),
        }
        reach("printed");
    }
    fn b_number(k) {
        let v = match k {
            0 => Value::Number(sym(64).into()),
            1 => {
                let v = sym(64) as i64;
                assume(v < 0);
                Value::Number(v.into())
            }
            2 => Value::Number([0.0, 1.0, 1.5, -1.0, f64::NAN, f64::INFINITY][pick(6)].into()),
            3 => Value::Null,
            _ => Value::Bool(flag()),
        };
        let r: Result<ByteValue, _> = read(v.clone());
        check(r.is_ok() == (k == 0), "only unsigned numbers");
        if let Ok(r) = r {
            check(r == ByteValue::Bytes(v.as_u64().unwrap()), "number of bytes");
            reach("number");
        }
        let r: Result<BpsLimit, _> = read(Value::Mapping([("path".into(), "/d".into()), ("rate".into(), v.clone())].into_iter().collect()));
        check(r.is_ok() == (k == 0), "same in a field");
        if let Ok(r) = r {
            check(r.rate == ByteValue::Bytes(v.as_u64().unwrap()), "number of bytes in a field");
        }
    }
    // every width of integer
    fn b_width(k) {
        widths::<ByteValue>(k)
    }
}

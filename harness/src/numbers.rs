//! Values restricted to a range of numbers.
use crate::{amounts::u64_text, sx::*, util::*};
use compose_spec::service::{
    blkio_config::{IopsLimit, Weight, WeightDevice},
    deploy::resources::{Count, Cpus, DiscreteResourceSpec},
    ByteValue, ConfigOrSecret, IdOrName, Limit, OomScoreAdj, Percent, User,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::{Mapping, Number, Value};
use std::num::NonZeroU16;

/// A symbolic YAML number: (value, is a nonnegative integer, is a negative integer, the integer's bits)
fn number(k: usize) -> (Value, bool, bool, u64) {
    match k {
        0 => {
            let v = sym(64);
            (Value::Number(v.into()), true, false, v)
        }
        1 => {
            let v = sym(64) as i64;
            assume(v < 0);
            (Value::Number(v.into()), false, true, v as u64)
        }
        2 => (Value::Number(Number::from([0.0, 1.0, 50.0, 80.5, -1.0, 65536.0, f64::NAN, f64::INFINITY][pick(8)])), false, false, 0),
        3 => (Value::Null, false, false, 0),
        4 => (Value::Bool(flag()), false, false, 0),
        5 => (Value::Sequence(vec![Value::Number(1.into())]), false, false, 0),
        _ => (Value::Mapping(Mapping::new()), false, false, 0),
    }
}
fn from<T: DeserializeOwned + PartialEq>(v: &Value) -> Option<T> {
    read(v.clone()).ok()
}
fn to_u64<T: Serialize>(t: &T) -> Option<u64> {
    serde_yaml::to_value(t).ok().and_then(|v| v.as_u64())
}
fn to_i64<T: Serialize>(t: &T) -> Option<i64> {
    serde_yaml::to_value(t).ok().and_then(|v| v.as_i64())
}
fn digits_only(s: &str) {
    // a leading plus sign is not judged
    let b = s.as_bytes();
    assume(b.is_empty() || b[0] != b'+');
}
/// Decimal text, at most `max`.
fn up_to(s: &str, max: u64) -> Option<u64> {
    let (ok, v) = u64_text(s.as_bytes());
    (ok & (v <= max)).then_some(v)
}
fn digits(v: &mut String, n: usize) {
    let mut i = 0;
    while i < n {
        let c = sym(7) as u8;
        assume(digit(c));
        v.push(c as char);
        i += 1;
    }
}
fn float() -> f64 {
    f64::from_bits(sym(64))
}
fn cpus_ok(bits: u64) -> bool {
    // finite and the sign bit is not set
    (bits >> 63 == 0) & (bits >> 52 & 0x7FF != 0x7FF)
}

harness! {
    fn r_percent() {
        let v = sym(8) as u8;
        let p = Percent::new(v);
        check(p.is_ok() == (v <= 100), "percent accepted");
        check(Percent::try_from(v).is_ok() == p.is_ok(), "TryFrom agrees");
        if let Ok(p) = p {
            check((p.into_inner() == v) & (u8::from(p) == v) & (p == v), "percent value");
            check(to_u64(&p) == Some(v as u64), "percent serialized");
            reach("accepted");
        }
    }
    fn r_oom() {
        let v = sym(16) as i16;
        let p = OomScoreAdj::new(v);
        check(p.is_ok() == ((v >= -1000) & (v <= 1000)), "score accepted");
        check(OomScoreAdj::try_from(v).is_ok() == p.is_ok(), "TryFrom agrees");
        if let Ok(p) = p {
            check((i16::from(p) == v) & (p == v), "score value");
            check(to_i64(&p) == Some(v as i64), "score serialized");
            reach("accepted");
        }
    }
    fn r_weight() {
        let v = sym(16) as u16;
        let ok = (v >= 10) & (v <= 1000);
        let w = Weight::new(v);
        check(w.is_ok() == ok, "weight accepted");
        check(Weight::try_from(v).is_ok() == ok, "TryFrom agrees");
        if let Some(n) = NonZeroU16::new(v) {
            check(Weight::new(n).is_ok() == ok && Weight::try_from(n).is_ok() == ok, "from non-zero agrees");
        }
        check(Weight::DEFAULT == 500u16 && Weight::default() == Weight::DEFAULT, "default weight");
        if let Ok(w) = w {
            check((w.into_inner().get() == v) & (u16::from(w) == v) & (w == v), "weight value");
            check(to_u64(&w) == Some(v as u64), "weight serialized");
            reach("accepted");
        }
    }
    fn r_weight_print(base) {
        let v = base as u16 + sym(4) as u16;
        assume((v >= 10) & (v <= 1000));
        let w = Weight::new(v).unwrap();
        check(up_to(&w.to_string(), 1000) == Some(v as u64), "weight printed");
        reach("printed");
    }
    // what each kind of value does with any YAML number
    fn r_yaml(k) {
        let (y, pos, neg, bits) = number(k);
        let r: Option<Percent> = from(&y);
        check(r.is_some() == (pos & (bits <= 100)), "percent from number");
        if let Some(r) = r {
            check(r == bits as u8, "percent value");
            reach("percent");
        }
        let r: Option<OomScoreAdj> = from(&y);
        let i = bits as i64;
        check(r.is_some() == ((pos & (bits <= 1000)) | (neg & (i >= -1000))), "score from number");
        if let Some(r) = r {
            check(r == bits as i16, "score value");
            reach("score");
        }
        let r: Option<Weight> = from(&y);
        let ok = pos & (bits >= 10) & (bits <= 1000);
        check(r.is_some() == ok, "weight from number");
        if let Some(r) = r {
            check(r == bits as u16, "weight value");
            reach("weight");
        }
        let m = |k: &str| Value::Mapping([(Value::from("path"), Value::from("/d")), (Value::from(k), y.clone())].into_iter().collect());
        let r: Option<WeightDevice> = from(&m("weight"));
        check(r.is_some() == ok, "device weight from number");
        if let Some(r) = r {
            check(r.weight == bits as u16, "device weight value");
        }
        let r: Option<IopsLimit> = from(&m("rate"));
        check(r.is_some() == pos, "rate from number");
        if let Some(r) = r {
            check(r.rate == bits, "rate value");
        }
    }
    fn r_yaml_limit(k) {
        let (y, pos, neg, bits) = number(k);
        let unlimited = neg & (bits as i64 == -1);
        let r: Option<Limit<u32>> = from(&y);
        check(r.is_some() == (unlimited | (pos & (bits <= u32::MAX as u64))), "32-bit limit from number");
        match r {
            Some(Limit::Value(v)) => check(pos & (v as u64 == bits), "32-bit limit value"),
            Some(Limit::Unlimited) => check(unlimited, "32-bit unlimited"),
            None => {}
        }
        let r: Option<Limit<u64>> = from(&y);
        check(r.is_some() == (unlimited | pos), "64-bit limit from number");
        match r {
            Some(Limit::Value(v)) => check(pos & (v == bits), "64-bit limit value"),
            Some(Limit::Unlimited) => check(unlimited, "64-bit unlimited"),
            None => {}
        }
        let r: Option<Limit<ByteValue>> = from(&y);
        check(r.is_some() == (unlimited | pos), "size limit from number");
        match r {
            Some(Limit::Value(v)) => check(pos && v == ByteValue::Bytes(bits), "size limit value"),
            Some(Limit::Unlimited) => {
                check(unlimited, "size unlimited");
                reach("unlimited");
            }
            None => {}
        }
    }
    fn r_yaml_more(k) {
        let (y, pos, neg, bits) = number(k);
        let r: Option<Count> = from(&y);
        check(r.is_some() == pos, "count from number");
        if let Some(r) = r {
            check(r == Count::Integer(bits) && r == bits, "count value");
            check(to_u64(&r) == Some(bits), "count serialized");
        }
        let r: Option<IdOrName> = from(&y);
        check(r.is_some() == (pos & (bits <= u32::MAX as u64)), "id from number");
        if let Some(r) = r {
            check(r.as_id() == Some(bits as u32) && r.is_id() && !r.is_name(), "id value");
            reach("id");
        }
        let r: Option<DiscreteResourceSpec> = from(&Value::Mapping([(Value::from("value"), y.clone())].into_iter().collect()));
        check(r.is_some() == (pos | (k == 3)), "resource value from number");
        if let Some(r) = r {
            check(r.value == pos.then_some(bits), "resource value");
        }
        let r: Option<ConfigOrSecret> = from(&Value::Mapping([(Value::from("source"), Value::from("a")), (Value::from("mode"), y.clone())].into_iter().collect()));
        check(r.is_some() == ((pos & (bits <= u32::MAX as u64)) | (k == 3)), "mode from number");
        if let Some(r) = r {
            check(r.mode == pos.then_some(bits as u32), "mode value");
        }
        if k != 2 {
            let r: Option<Cpus> = from(&y);
            // larger numbers are not judged
            if pos & (bits > u32::MAX as u64) {
                return;
            }
            check(r.is_some() == pos, "cpus from integer");
            if let Some(r) = r {
                check(r == bits as u32 as f64, "cpus value");
                reach("cpus");
            }
        }
        let _ = neg;
    }
    // every width of integer
    fn r_width(t, k) {
        match t {
            0 => widths::<Percent>(k),
            1 => widths::<OomScoreAdj>(k),
            2 => widths::<Weight>(k),
            3 => {
                widths::<Limit<u32>>(k);
            }
            4 => widths::<Limit<u64>>(k),
            5 => widths::<Limit<ByteValue>>(k),
            6 => widths::<Count>(k),
            7 => widths::<IdOrName>(k),
            _ => {
                // integers above 2^32 are not judged
                if k < 6 {
                    widths::<Cpus>(k)
                } else if k == 9 {
                    let f = [0.0, 1.0, 50.0, 80.5, -1.0, 65536.0, f32::NAN, f32::INFINITY][pick(8)];
                    use serde::{de::value::*, Deserialize};
                    let c = Cpus::deserialize(F32Deserializer::<Error>::new(f));
                    check(c.is_ok() == (f as f64 >= 0.0 && (f as f64).is_finite()) && c.map_or(true, |c| c == f as f64), "cpus from 32-bit float");
                    reach("width");
                }
            }
        }
    }
    fn r_limit_print(k, base) {
        let v = [0u64, 92, 65530, 4294967280, 18446744073709551600][base] + sym(4);
        match k {
            0 => {
                let l: Limit<u32> = (v as u32).into();
                check(l == Limit::Value(v as u32), "from value");
                check(up_to(&l.to_string(), u32::MAX as u64) == Some(v as u32 as u64), "printed limit");
                check(l.to_string().parse() == Ok(l), "printed limit parses back");
                check(from::<Limit<u32>>(&serde_yaml::to_value(l).unwrap()) == Some(l), "limit round trip");
            }
            1 => {
                let l: Limit<u64> = v.into();
                check(l == Limit::Value(v), "from value");
                check(up_to(&l.to_string(), u64::MAX) == Some(v), "printed limit");
                check(l.to_string().parse() == Ok(l), "printed limit parses back");
                check(from::<Limit<u64>>(&serde_yaml::to_value(l).unwrap()) == Some(l), "limit round trip");
            }
            2 => {
                let l: Limit<ByteValue> = ByteValue::Kilobytes(v).into();
                check(l == Limit::Value(ByteValue::Kilobytes(v)), "from value");
                check(l.to_string().parse() == Ok(l), "printed limit parses back");
                check(from::<Limit<ByteValue>>(&serde_yaml::to_value(l).unwrap()) == Some(l), "limit round trip");
            }
            _ => {
                check(to_i64(&Limit::<u32>::Unlimited) == Some(-1) && to_i64(&Limit::<u64>::Unlimited) == Some(-1) && to_i64(&Limit::<ByteValue>::Unlimited) == Some(-1), "unlimited serialized");
                check(Limit::<u64>::Unlimited.to_string() == "-1" && "-1".parse() == Ok(Limit::<u64>::Unlimited) && "-1".parse() == Ok(Limit::<ByteValue>::Unlimited), "unlimited text");
                check(Limit::<u64>::default() == Limit::Unlimited, "default");
                check(Limit::Value(v) < Limit::Unlimited, "unlimited is largest");
            }
        }
        reach("printed");
    }
    fn r_limit_text(n, mb) {
        let s = text(n, mb);
        digits_only(&s);
        let minus = same(&s, "-1");
        let r = s.parse::<Limit<u32>>();
        let want = up_to(&s, u32::MAX as u64);
        check(r.is_ok() == (minus | want.is_some()), "limit text accepted");
        match r {
            Ok(Limit::Value(v)) => check(want == Some(v as u64), "limit text value"),
            Ok(Limit::Unlimited) => {
                check(minus, "limit text unlimited");
                reach("unlimited");
            }
            Err(_) => {}
        }
        let r = s.parse::<Limit<u64>>();
        check(r.is_ok() == (minus | up_to(&s, u64::MAX).is_some()), "64-bit limit text accepted");
        if mb != 0 {
            return;
        }
        // in YAML: the text -1 is unlimited, sizes may have a unit
        let y: Option<Limit<ByteValue>> = from(&Value::String(s.clone()));
        let b = s.parse::<ByteValue>();
        check(y.is_some() == (minus | b.is_ok()), "size limit text accepted");
        match y {
            Some(Limit::Value(v)) => check(Some(v) == b.ok(), "size limit text value"),
            Some(Limit::Unlimited) => check(minus, "size limit text unlimited"),
            None => {}
        }
        if n > 3 || mb != 0 {
            return; // every rejected text is quoted in an error message
        }
        let y: Option<Limit<u64>> = from(&Value::String(s));
        match y {
            Some(Limit::Value(v)) => check(Some(v) == r.ok().and_then(|l| match l { Limit::Value(v) => Some(v), Limit::Unlimited => None }), "number as text"),
            Some(Limit::Unlimited) => check(minus, "-1 as text"),
            None => check(!minus, "-1 as text accepted"),
        }
    }
    fn r_count_text(n, mb) {
        let s = text(n, mb);
        digits_only(&s);
        let all = same(&s, "all");
        let want = up_to(&s, u64::MAX);
        let r = s.parse::<Count>();
        check(r.is_ok() == (all | want.is_some()), "count accepted");
        if n <= 3 && mb == 0 {
            let y: Option<Count> = from(&Value::String(s));
            check(y == r.clone().ok(), "deserialize agrees");
        }
        match r {
            Ok(Count::All) => {
                check(all, "all devices");
                check(serde_yaml::to_value(Count::All).unwrap() == "all", "all serialized");
                reach("all");
            }
            Ok(Count::Integer(v)) => {
                check(want == Some(v), "count value");
                reach("number");
            }
            Err(_) => {}
        }
    }
    // numbers as text around the largest value
    fn r_text_edge(which, free) {
        let t = ["4294967295", "18446744073709551615", "4294967296000", "99999999999999999999", "00000000000"][which];
        let mut s = t[..t.len() - free].to_string();
        digits(&mut s, free);
        let (w32, w64) = (up_to(&s, u32::MAX as u64), up_to(&s, u64::MAX));
        check(s.parse::<Limit<u32>>().ok() == w32.map(|v| Limit::Value(v as u32)), "32-bit limit");
        check(s.parse::<Limit<u64>>().ok() == w64.map(Limit::Value), "64-bit limit");
        check(s.parse::<Count>().ok() == w64.map(Count::Integer), "count");
        // a number too large for an id is not a name either
        check(s.parse::<IdOrName>().ok() == w32.map(|v| IdOrName::Id(v as u32)), "id");
        check(s.parse::<User>().ok() == w32.map(|v| User::from(v as u32)), "user");
        reach("edge");
    }
    fn r_cpus() {
        let f = float();
        let bits = f.to_bits();
        let c = Cpus::new(f);
        check(c.is_ok() == cpus_ok(bits), "cpus accepted");
        check(Cpus::try_from(f).is_ok() == c.is_ok(), "TryFrom agrees");
        if let Ok(c) = c {
            check((c.into_inner().to_bits() == bits) & (f64::from(c).to_bits() == bits), "cpus value");
            check(c == f, "cpus equals its value");
            match serde_yaml::to_value(c) {
                Ok(Value::Number(n)) => check(n.as_f64().map(f64::to_bits) == Some(bits), "cpus serialized"),
                _ => check(false, "cpus serializes as a number"),
            }
            reach("accepted");
        }
        let y: Option<Cpus> = from(&Value::Number(f.into()));
        check(y.is_some() == cpus_ok(bits), "deserialize agrees");
        if let Some(y) = y {
            check(y.into_inner().to_bits() == bits, "deserialized cpus");
        }
    }
    fn r_cpus_ints() {
        let v = sym(32);
        check(Cpus::from(v as u32).into_inner() == v as u32 as f64, "from u32");
        check(Cpus::from(v as u16).into_inner() == v as u16 as f64, "from u16");
        check(Cpus::from(v as u8).into_inner() == v as u8 as f64, "from u8");
        let i = v as i32;
        let c = Cpus::try_from(i);
        check(c.is_ok() == (i >= 0), "from i32");
        if let Ok(c) = c {
            check(c.into_inner() == i as f64, "value of i32");
        }
        check(Cpus::try_from(i as i16).is_ok() == (i as i16 >= 0), "from i16");
        check(Cpus::try_from(i as i8).is_ok() == (i as i8 >= 0), "from i8");
        reach("ints");
    }
    fn r_cpus_text(k) {
        let s = ["0", "0.5", "1", "2.25", "1e3", "-1", "-0", "-0.5", "inf", "nan", "1e400", "", "x", "1_0", " 1", "0x1"][k];
        let want = s.parse::<f64>().ok().filter(|f| cpus_ok(f.to_bits()));
        let y: Option<Cpus> = from(&Value::String(s.into()));
        observe(want.map_or(7, f64::to_bits));
        observe(y.map_or(7, |c| c.into_inner().to_bits()));
        check(y.map(|c| c.into_inner().to_bits()) == want.map(f64::to_bits), "cpus from text");
        reach("text");
    }
}

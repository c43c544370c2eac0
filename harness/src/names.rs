//! Restricted names: accepted exactly when they match their documented grammar, by every way of
//! making one, and kept verbatim.
use crate::{sx::*, util::*};
use compose_spec::service::{
    build::CacheOption,
    image::{Digest, Tag},
    user::{IdOrName, Name as UserName},
    Hostname, Resource, User,
};
use compose_spec::{ExtensionKey, Identifier, MapKey, Name};
use serde_yaml::Value;
use std::borrow::Cow;

macro_rules! ways {
    ($T:ty, $s:expr, $ok:expr, $($extra:tt)*) => {{
        let s: String = $s;
        let ok: bool = $ok;
        let r = <$T>::new(s.as_str());
        check(r.is_ok() == ok, "grammar");
        let ok = r.is_ok();
        check(s.parse::<$T>().is_ok() == ok, "FromStr agrees");
        check(<$T>::try_from(s.clone()).is_ok() == ok, "TryFrom<String> agrees");
        check(<$T>::try_from(s.clone().into_boxed_str()).is_ok() == ok, "TryFrom<Box<str>> agrees");
        check(<$T>::try_from(s.as_str()).is_ok() == ok, "TryFrom<&str> agrees");
        ways!(@ $T, s, ok, $($extra)*);
        let y: Result<$T, _> = read(Value::String(s.clone()));
        check(y.is_ok() == ok, "deserialize agrees");
        let Ok(v) = r else { return };
        reach("accepted");
        check(same(v.as_str(), &s), "as_str");
        check(same(&v.to_string(), &s), "Display");
        check(same(v.as_ref(), &s), "as_ref");
        check(same(y.unwrap().as_str(), &s), "deserialized value");
        check(same(<$T>::try_from(s.clone()).unwrap().as_str(), &s), "TryFrom<String> value");
        match serde_yaml::to_value(&v) {
            Ok(Value::String(t)) => check(same(&t, &s), "serialized value"),
            _ => check(false, "serialized as string"),
        }
        check(same(&String::from(v.clone()), &s), "into String");
        check(same(&Box::<str>::from(v), &s), "into Box<str>");
    }};
    (@ $T:ty, $s:ident, $ok:ident, cow) => {
        check(<$T>::try_from(Cow::Borrowed($s.as_str())).is_ok() == $ok, "TryFrom<Cow> agrees");
        check(<$T>::try_from(Cow::<str>::Owned($s.clone())).is_ok() == $ok, "TryFrom<Cow> agrees");
    };
    (@ $T:ty, $s:ident, $ok:ident, ) => {};
}

/// First character satisfies `f`, all others `g`.
fn first_rest(s: &str, f: impl Fn(u8) -> bool, g: impl Fn(u8) -> bool) -> bool {
    let b = s.as_bytes();
    if b.is_empty() {
        return false;
    }
    let mut ok = f(b[0]);
    let mut i = 1;
    while i < b.len() {
        ok &= g(b[i]);
        i += 1;
    }
    ok
}
fn has(s: &str, f: impl Fn(u8) -> bool) -> bool {
    let b = s.as_bytes();
    let mut r = false;
    let mut i = 0;
    while i < b.len() {
        r |= f(b[i]);
        i += 1;
    }
    r
}
pub fn project(s: &str) -> bool {
    first_rest(s, lnum, |c| lnum(c) | (c == b'_') | (c == b'-'))
}
pub fn identifier(s: &str) -> bool {
    first_rest(s, alnum, |c| alnum(c) | (c == b'_') | (c == b'-') | (c == b'.'))
}
pub fn map_key(s: &str) -> bool {
    !s.is_empty() && !has(s, |c| c == b'\n')
}
pub fn extension_key(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() >= 2 && ((b[0] == b'x') & (b[1] == b'-') & !has(s, |c| c == b'\n'))
}
pub fn resource(s: &str) -> bool {
    first_rest(s, lower, lower)
}
/// label ('.' label)*, label = alnum ((alnum | '-')* alnum)?
pub fn hostname(s: &str) -> bool {
    let b = s.as_bytes();
    let (mut start, mut end, mut dash) = (true, false, false);
    let mut i = 0;
    while i < b.len() {
        let a = alnum(b[i]);
        let live = end | dash;
        let d = (b[i] == b'-') & live;
        let p = (b[i] == b'.') & end;
        (start, end, dash) = (p, a & (start | live), d);
        i += 1;
    }
    end
}
pub fn user_name(s: &str) -> bool {
    let b = s.as_bytes();
    let n = b.len();
    if n == 0 || n > 32 {
        return false;
    }
    let mut ok = b[0] != b'-';
    let mut numeric = true;
    let mut i = 0;
    while i < n {
        ok &= alnum(b[i]) | (b[i] == b'_') | (b[i] == b'-') | ((b[i] == b'$') & (i == n - 1));
        numeric &= digit(b[i]);
        i += 1;
    }
    ok & !numeric
}
/// No Unicode white space, not empty.
pub fn cache_option(s: &str) -> bool {
    let b = s.as_bytes();
    let n = b.len();
    let mut ws = false;
    let mut i = 0;
    while i < n {
        ws |= (b[i] == b' ') | rng(b[i], 9, 13);
        if i + 1 < n {
            ws |= (b[i] == 0xC2) & ((b[i + 1] == 0x85) | (b[i + 1] == 0xA0));
        }
        if i + 2 < n {
            let (x, y, z) = (b[i], b[i + 1], b[i + 2]);
            ws |= (x == 0xE1) & (y == 0x9A) & (z == 0x80);
            ws |= (x == 0xE2) & (y == 0x80) & (rng(z, 0x80, 0x8A) | (z == 0xA8) | (z == 0xA9) | (z == 0xAF));
            ws |= (x == 0xE2) & (y == 0x81) & (z == 0x9F);
            ws |= (x == 0xE3) & (y == 0x80) & (z == 0x80);
        }
        i += 1;
    }
    n > 0 && !ws
}
pub fn tag(s: &str) -> bool {
    let c = |c| alnum(c) | (c == b'.') | (c == b'_') | (c == b'-');
    s.len() <= 128 && first_rest(s, c, c)
}
/// algorithm ':' encoded; algorithm = comp ([+._-] comp)*, comp = [a-z0-9]+, encoded = [a-zA-Z0-9=_-]+
pub fn digest(s: &str) -> bool {
    let b = s.as_bytes();
    let (mut start, mut comp, mut colon, mut enc) = (true, false, false, false);
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let sep = (c == b'+') | (c == b'.') | (c == b'_') | (c == b'-');
        let e = alnum(c) | (c == b'=') | (c == b'_') | (c == b'-');
        (start, comp, colon, enc) = (comp & sep, (start | comp) & lnum(c), comp & (c == b':'), (colon | enc) & e);
        i += 1;
    }
    enc
}
/// Decimal number without sign, at most u32::MAX. Leading zeros are fine.
pub fn u32_text(s: &str) -> (bool, u32) {
    let b = s.as_bytes();
    let mut ok = !b.is_empty();
    let mut v: u64 = 0;
    let mut i = 0;
    while i < b.len() {
        ok &= digit(b[i]);
        v = (v & 0xFFFF_FFFF) * 10 + (b[i].wrapping_sub(b'0') & 15) as u64;
        ok &= v <= u32::MAX as u64;
        i += 1;
    }
    (ok, v as u32)
}
fn check_user(s: String) {
    let (num, id) = u32_text(&s);
    let name = user_name(&s);
    let r = s.parse::<IdOrName>();
    // "+5" is taken for the number 5; see plus()
    let plus = s.as_bytes().first() == Some(&b'+');
    if plus {
        return;
    }
    check(r.is_ok() == (num | name), "id or name");
    check(IdOrName::parse(s.as_str()).is_ok() == r.is_ok(), "parse agrees");
    check(IdOrName::parse(s.clone()).is_ok() == r.is_ok(), "parse agrees");
    let y: Result<IdOrName, _> = read(Value::String(s.clone()));
    check(y.is_ok() == r.is_ok(), "deserialize agrees");
    match &r {
        Ok(IdOrName::Id(v)) => {
            reach("id");
            check(num & (*v == id), "value of id");
        }
        Ok(IdOrName::Name(v)) => {
            reach("name");
            check(name & same(v.as_str(), &s), "value of name");
        }
        Err(_) => return,
    }
    let u = User::parse(s.as_str());
    if let Ok(u) = u {
        check(u.group.is_none() && u.user == r.unwrap(), "user without group");
    } else {
        check(false, "user without group accepted");
    }
}

harness! {
    fn n_project(n, mb) {
        let s = text(n, mb);
        let ok = project(&s);
        ways!(Name, s, ok,)
    }
    fn n_project_long(pre, n, post) {
        let s = long(b'a', pre, n, post);
        let ok = project(&s);
        ways!(Name, s, ok,)
    }
    fn n_identifier(n, mb) {
        let s = text(n, mb);
        let ok = identifier(&s);
        ways!(Identifier, s, ok, cow)
    }
    fn n_identifier_long(pre, n, post) {
        let s = long(b'a', pre, n, post);
        let ok = identifier(&s);
        ways!(Identifier, s, ok, cow)
    }
    fn n_mapkey(n, mb) {
        let s = text(n, mb);
        let ok = map_key(&s);
        ways!(MapKey, s, ok, cow)
    }
    fn n_mapkey_long(pre, n, post) {
        let s = long(b'a', pre, n, post);
        let ok = map_key(&s);
        ways!(MapKey, s, ok, cow)
    }
    fn n_extension(n, mb) {
        let s = text(n, mb);
        let ok = extension_key(&s);
        if let Ok(k) = ExtensionKey::new(s.as_str()) {
            check(same(k.strip_prefix(), &s[2..]), "strip_prefix");
        }
        ways!(ExtensionKey, s, ok, cow)
    }
    fn n_extension_long(pre, n, post) {
        let mut s = String::from("x-");
        s.push_str(&long(b'a', pre, n, post));
        let ok = extension_key(&s);
        ways!(ExtensionKey, s, ok, cow)
    }
    fn n_hostname(n, mb) {
        let s = text(n, mb);
        let ok = hostname(&s);
        ways!(Hostname, s, ok, cow)
    }
    fn n_hostname_long(pre, n, post) {
        let s = long(b'a', pre, n, post);
        let ok = hostname(&s);
        ways!(Hostname, s, ok, cow)
    }
    fn n_resource(n, mb) {
        let s = text(n, mb);
        let ok = resource(&s);
        ways!(Resource, s, ok, cow)
    }
    fn n_resource_long(pre, n, post) {
        let s = long(b'a', pre, n, post);
        let ok = resource(&s);
        ways!(Resource, s, ok, cow)
    }
    fn n_user_name(n, mb) {
        let s = text(n, mb);
        let ok = user_name(&s);
        ways!(UserName, s, ok, cow)
    }
    fn n_user_name_long(c, pre, n, post) {
        let s = long(c as u8, pre, n, post);
        let ok = user_name(&s);
        ways!(UserName, s, ok, cow)
    }
    fn n_id_or_name(n, mb) {
        check_user(text(n, mb))
    }
    fn n_id_or_name_long(c, pre, n, post) {
        check_user(long(c as u8, pre, n, post))
    }
    fn n_user_group(n) {
        // {user}[:{group}]
        let s = ascii(n);
        let r = s.parse::<User>();
        let y: Result<User, _> = read(Value::String(s.clone()));
        check(y.is_ok() == r.is_ok(), "deserialize agrees");
        let part = |p: &str| p.parse::<IdOrName>();
        match s.split_once(':') {
            None => check(r.is_ok() == part(&s).is_ok(), "user alone"),
            Some((u, g)) => {
                let (u, g) = (part(u), part(g));
                check(r.is_ok() == (u.is_ok() && g.is_ok()), "user and group");
                if let Ok(r) = &r {
                    reach("group");
                    check(r.user == u.unwrap() && r.group == Some(g.unwrap()), "parts");
                }
            }
        }
    }
    fn n_cache_option(n, mb) {
        let s = text(n, mb);
        let ok = cache_option(&s);
        ways!(CacheOption, s, ok, cow)
    }
    fn n_cache_option_long(pre, n, post) {
        let s = long(b'a', pre, n, post);
        let ok = cache_option(&s);
        ways!(CacheOption, s, ok, cow)
    }
    fn n_tag(n, mb) {
        check_tag(text(n, mb))
    }
    fn n_tag_long(pre, n, post) {
        check_tag(long(b'a', pre, n, post))
    }
    fn n_digest(n, mb) {
        check_digest(text(n, mb))
    }
    fn n_digest_long(pre, n, post) {
        let mut s = String::from("sha256:");
        s.push_str(&long(b'a', pre, n, post));
        check_digest(s)
    }
    fn n_digest_mid(n, post) {
        // long encoded part after a symbolic algorithm
        let mut s = ascii(n);
        s.push_str(":");
        s.push_str(&long(b'a', post, 0, 0));
        check_digest(s)
    }
}
fn check_tag(s: String) {
    let r = Tag::new(&s);
    check(r.is_ok() == tag(&s), "tag grammar");
    check(Tag::try_from(s.as_str()).is_ok() == r.is_ok(), "TryFrom agrees");
    if let Ok(t) = r {
        reach("accepted");
        check(same(t.as_ref(), &s) & same(&t.to_string(), &s) & same(t.into_inner(), &s), "tag text");
    }
}
fn check_digest(s: String) {
    let r = Digest::new(&s);
    check(r.is_ok() == digest(&s), "digest grammar");
    check(Digest::try_from(s.as_str()).is_ok() == r.is_ok(), "TryFrom agrees");
    if let Ok(t) = r {
        reach("accepted");
        check(same(t.as_ref(), &s) & same(&t.to_string(), &s) & same(t.into_inner(), &s), "digest text");
    }
}

//! Small text formats of a service.
use crate::{names::identifier, sx::*, util::*};
use compose_spec::service::{
    build::{Cache, CacheOption, CacheType, Context, SshAuth},
    device::{CgroupRule, Device, Kind, MajorMinorNumber, Permissions},
    image::Image,
    network_config::{MacAddress, NetworkMode},
    AbsolutePath, CpuSet, Ipc, Link, VolumesFrom, VolumesFromSource,
};
use compose_spec::Identifier;
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value;
use std::{borrow::Cow, collections::BTreeSet, fmt::Display, str::FromStr};

fn from<T: DeserializeOwned + PartialEq>(t: &str) -> Option<T> {
    read(Value::String(t.to_owned())).ok()
}
/// Printed and serialized as the same text, which reads back as an equal value.
fn back<T: FromStr + PartialEq + Display + Serialize + DeserializeOwned>(v: &T) -> String {
    let s = v.to_string();
    check(s.parse::<T>().ok().as_ref() == Some(v), "printed text reads back");
    match serde_yaml::to_value(v) {
        Ok(y @ Value::String(_)) => {
            check(same(y.as_str().unwrap(), &s), "serialized as the printed text");
            check(read::<T>(y).ok().as_ref() == Some(v), "serialized text reads back");
        }
        _ => check(false, "serialized as text"),
    }
    s
}
/// Other ways to read the same text.
fn ways<T: FromStr + PartialEq + DeserializeOwned + for<'a> TryFrom<&'a str>>(t: &str, v: Option<&T>) {
    check(T::try_from(t).ok().as_ref() == v, "TryFrom agrees");
    if v.is_some() || t.len() <= 2 {
        check(from::<T>(t).as_ref() == v, "deserializing agrees");
    }
}
fn owned<T: PartialEq + TryFrom<String> + TryFrom<Box<str>> + for<'a> TryFrom<Cow<'a, str>>>(t: &str, v: Option<&T>) {
    check(T::try_from(t.to_owned()).ok().as_ref() == v, "from String agrees");
    check(T::try_from(Box::<str>::from(t)).ok().as_ref() == v, "from Box agrees");
    check(T::try_from(Cow::Borrowed(t)).ok().as_ref() == v, "from Cow agrees");
}
fn find(b: &[u8], c: u8) -> Option<usize> {
    b.iter().position(|x| *x == c)
}
fn cut(t: &str, c: u8) -> Option<(&str, &str)> {
    find(t.as_bytes(), c).map(|i| (&t[..i], &t[i + 1..]))
}
/// (valid, read, write, mknod)
fn perms(t: &str) -> (bool, bool, bool, bool) {
    let (mut ok, mut r, mut w, mut m) = (true, false, false, false);
    for c in t.bytes() {
        ok &= (c == b'r') | (c == b'w') | (c == b'm');
        r |= c == b'r';
        w |= c == b'w';
        m |= c == b'm';
    }
    (ok, r, w, m)
}
fn same_perms(p: Permissions, (_, r, w, m): (bool, bool, bool, bool)) -> bool {
    (p.read == r) & (p.write == w) & (p.mknod == m)
}
fn device(t: &str) {
    let v = t.parse::<Device>().ok();
    let parts = cut(t, b':').map(|(host, rest)| {
        let (container, p) = cut(rest, b':').unwrap_or((rest, ""));
        (host, container, p)
    });
    let ok = parts.map_or(false, |(_, c, p)| !c.is_empty() && (c.as_bytes()[0] == b'/') & perms(p).0);
    check(v.is_some() == ok, "device accepted");
    ways(t, v.as_ref());
    if let Some(v) = v {
        let (host, container, p) = parts.unwrap();
        check(same(v.host_path.to_str().unwrap(), host) & same(v.container_path.as_path().to_str().unwrap(), container), "device paths");
        check(same_perms(v.permissions, perms(p)) & (v.permissions.any() == !p.is_empty()), "device permissions");
        back(&v);
        reach("accepted");
    }
}
/// Decimal number of a device, or all: (valid, all, number)
fn number(t: &str) -> (bool, bool, u64) {
    let b = t.as_bytes();
    if b.is_empty() {
        return (true, true, 0);
    }
    let (mut ok, mut v) = (true, 0u64);
    for c in b {
        ok &= digit(*c);
        v = v * 10 + (c.wrapping_sub(b'0')) as u64;
    }
    let star = (b.len() == 1) & (b[0] == b'*');
    (star | (ok & (v <= 65535)), star, v)
}
fn same_number(n: MajorMinorNumber, (_, all, v): (bool, bool, u64)) -> bool {
    match n {
        MajorMinorNumber::All => all,
        MajorMinorNumber::Integer(n) => !all & (n as u64 == v) & (MajorMinorNumber::from(n) == n),
    }
}
fn no_plus(t: &str) {
    let mut any = false;
    for c in t.bytes() {
        any |= c == b'+';
    }
    assume(!any);
}
fn rule(t: &str) {
    no_plus(t);
    let v = t.parse::<CgroupRule>().ok();
    let parts = cut(t, b' ').and_then(|(kind, rest)| {
        let (numbers, p) = cut(rest, b' ').unwrap_or((rest, ""));
        cut(numbers, b':').map(|(major, minor)| (kind, major, minor, p))
    });
    let ok = parts.map_or(false, |(k, a, b, p)| {
        k.len() == 1 && {
            let c = k.as_bytes()[0];
            ((c == b'a') | (c == b'b') | (c == b'c')) & number(a).0 & number(b).0 & perms(p).0
        }
    });
    check(v.is_some() == ok, "rule accepted");
    ways(t, v.as_ref());
    if let Some(v) = v {
        let (k, a, b, p) = parts.unwrap();
        check(v.kind.as_char() as u8 == k.as_bytes()[0], "kind of device");
        check(same_number(v.major, number(a)) & same_number(v.minor, number(b)), "device numbers");
        check(same_perms(v.permissions, perms(p)), "rule permissions");
        back(&v);
        reach("accepted");
    }
}
fn hex(c: u8) -> (bool, u8) {
    let l = c | 0x20;
    let d = c.wrapping_sub(b'0');
    if digit(c) {
        (true, d)
    } else {
        (rng(l, b'a', b'f') & (c >= 0x41), l.wrapping_sub(b'a').wrapping_add(10))
    }
}
fn mac(t: &str, strict: bool) {
    no_plus(t);
    let v = t.parse::<MacAddress>().ok();
    let parts: Vec<&str> = t.split(':').collect();
    let (mut ok, mut two) = (parts.len() == 6, true);
    let mut bytes = [0u8; 6];
    for (i, p) in parts.iter().enumerate() {
        ok &= !p.is_empty();
        two &= p.len() == 2;
        for c in p.bytes() {
            let (h, d) = hex(c);
            ok &= h;
            if i < 6 {
                two &= (p.len() <= 2) | (bytes[i] < 16);
                bytes[i] = bytes[i] << 4 | d;
            }
        }
    }
    // addresses with two digits per byte must be accepted, and nothing that is not six hexadecimal numbers
    check(v.is_none() | ok, "address rejected");
    if strict {
        check(v.is_some() | !(ok & two), "address accepted");
    }
    ways(t, v.as_ref());
    if let Some(v) = v {
        check(v.0 == bytes, "bytes of the address");
        check(<[u8; 6]>::from(v) == bytes && MacAddress::from(bytes) == v && v.as_ref() == &bytes[..], "converted to bytes");
        let s = back(&v);
        check(s.len() == 17, "two digits per byte");
        reach("accepted");
    }
}
fn white(t: &str) -> bool {
    let mut any = false;
    for c in t.bytes() {
        any |= (c == b' ') | rng(c, 9, 13);
    }
    any
}
fn option(t: &str) -> bool {
    !t.is_empty() & !white(t)
}
fn cache(t: &str) {
    let v = t.parse::<Cache>().ok();
    let typed = t.len() >= 5 && same_bytes(&t.as_bytes()[..5], b"type=");
    if typed || t.contains(',') {
        let mut parts = t.split(',');
        let kind = &parts.next().unwrap()[if typed { 5 } else { 0 }..];
        let mut options: Vec<(&str, &str)> = Vec::new();
        let mut ok = typed;
        for p in parts {
            let (k, v) = cut(p, b'=').unwrap_or((p, ""));
            ok &= option(k) & option(v);
            let mut dup = false;
            for (o, _) in &options {
                dup |= same(o, k);
            }
            // whether an option may be repeated is not judged
            assume(!dup);
            options.push((k, v));
        }
        let registry = same(kind, "registry");
        let mut image = None;
        if registry {
            if let Some(i) = options.iter().position(|(k, _)| same(k, "ref")) {
                image = Image::parse(options[i].1).ok();
                options.remove(i);
            }
        }
        let ok = ok && if registry { image.is_some() } else { option(kind) };
        check(v.is_some() == ok, "cache accepted");
        if let Some(v) = &v {
            check(v.cache_type.as_registry() == image.as_ref(), "image of the cache");
            check(v.cache_type.is_registry() == registry && v.cache_type.is_other() == !registry, "type of the cache");
            if !registry {
                check(same(v.cache_type.as_other().unwrap().as_str(), kind), "type of the cache");
            }
            check(v.options.len() == options.len(), "number of options");
            for ((k, x), (ok, ox)) in v.options.iter().zip(&options) {
                check(same(k.as_str(), ok) & same(x.as_str(), ox), "options in order");
            }
            reach("options");
        }
    } else {
        let image = Image::parse(t).ok();
        check(v.is_some() == image.is_some(), "cache accepted if and only if an image");
        if let Some(v) = &v {
            check(v.cache_type.as_registry() == image.as_ref() && v.options.is_empty(), "image of the cache");
            check(*v == Cache::from_image(image.clone().unwrap()) && *v == Cache::from(image.unwrap()), "from an image");
            reach("image");
        }
    }
    owned(t, v.as_ref());
    ways(t, v.as_ref());
    if let Some(v) = v {
        back(&v);
        let n = v.options.len();
        let first = match &v.cache_type {
            CacheType::Registry(i) => vec![("type", "registry".to_owned()), ("ref", i.as_str().to_owned())],
            CacheType::Other(o) => vec![("type", o.as_str().to_owned())],
        };
        let rest: Vec<(CacheOption, CacheOption)> = v.options.clone().into_iter().collect();
        if !rest.iter().any(|(k, _)| same(k.as_str(), "type") || same(k.as_str(), "ref")) {
            let all = v.into_options();
            check(all.len() == n + first.len(), "all options");
            for (i, (k, x)) in all.iter().enumerate() {
                if i < first.len() {
                    check(same(k.as_str(), first[i].0) & same(x.as_str(), &first[i].1), "type comes first");
                } else {
                    check(rest[i - first.len()].0 == *k && rest[i - first.len()].1 == *x, "other options follow");
                }
            }
        }
    }
}
fn link(t: &str) {
    let v = t.parse::<Link>().ok();
    let (service, alias) = cut(t, b':').map_or((t, None), |(a, b)| (a, Some(b)));
    check(v.is_some() == identifier(service), "link accepted");
    owned(t, v.as_ref());
    ways(t, v.as_ref());
    if let Some(v) = v {
        check(same(v.service.as_str(), service), "linked service");
        check(v.alias.is_some() == alias.is_some() && alias.map_or(true, |a| same(a, v.alias.as_ref().unwrap())), "alias");
        let s = back(&v);
        check(same(&s, t) & same(&String::from(v), t), "printed as the text");
        reach("accepted");
    }
}
fn volumes_from(t: &str) {
    let n = t.len();
    let ro = n >= 3 && same_bytes(&t.as_bytes()[n - 3..], b":ro");
    let rw = n >= 3 && same_bytes(&t.as_bytes()[n - 3..], b":rw");
    let source = if ro | rw { &t.as_bytes()[..n - 3] } else { t.as_bytes() };
    let container = source.len() >= 10 && same_bytes(&source[..10], b"container:");
    let name = unsafe { std::str::from_utf8_unchecked(if container { &source[10..] } else { source }) };
    let v = t.parse::<VolumesFrom>().ok();
    check(v.is_some() == identifier(name), "volumes_from accepted");
    owned(t, v.as_ref());
    ways(t, v.as_ref());
    if let Some(v) = v {
        check(v.read_only == ro, "read only");
        match &v.source {
            VolumesFromSource::Service(s) => check(!container && same(s.as_str(), name), "service"),
            VolumesFromSource::Container(s) => check(container && same(s.as_str(), name), "container"),
        }
        let s = back(&v);
        check(same(&s, &String::from(v)), "converted to the printed text");
        reach("accepted");
    }
    let v = t.parse::<VolumesFromSource>().ok();
    let container = n >= 10 && same_bytes(&t.as_bytes()[..10], b"container:");
    let name = unsafe { std::str::from_utf8_unchecked(if container { &t.as_bytes()[10..] } else { t.as_bytes() }) };
    check(v.is_some() == identifier(name), "source accepted");
    owned(t, v.as_ref());
    ways(t, v.as_ref());
    if let Some(v) = v {
        let read_only = fork();
        let from = VolumesFrom { source: v.clone(), read_only };
        if !read_only {
            check(VolumesFrom::from(v.clone()) == from, "from a source");
        }
        back(&from);
        let s = back(&v);
        check(same(&s, t) & same(&String::from(v), t), "printed as the text");
        reach("source");
    }
}
/// Which of the prefixed forms: text after the prefix.
fn after<'a>(t: &'a str, prefix: &str) -> Option<&'a str> {
    let (b, n) = (t.as_bytes(), prefix.len());
    (b.len() >= n && same_bytes(&b[..n], prefix.as_bytes())).then(|| unsafe { std::str::from_utf8_unchecked(&b[n..]) })
}
fn ipc(t: &str) {
    let v = t.parse::<Ipc>().ok();
    let service = after(t, "service:");
    check(v.is_some() == service.map_or(true, identifier), "ipc accepted");
    owned(t, v.as_ref());
    ways(t, v.as_ref());
    if let Some(v) = v {
        match &v {
            Ipc::Shareable => check(same(t, "shareable"), "shareable"),
            Ipc::Service(s) => check(service.map_or(false, |x| same(x, s.as_str())), "service"),
            Ipc::Other(o) => check(!same(t, "shareable") & service.is_none() && same(o, t), "other"),
        }
        check(v.is_service() == service.is_some() && v.as_service().is_some() == v.is_service() && v.is_other() == v.as_other().is_some() && v.is_shareable() == !(v.is_other() || v.is_service()), "predicates");
        let s = back(&v);
        check(same(&s, t) & same(&String::from(v.clone()), t) & same(&Cow::from(v), t), "printed as the text");
        reach("accepted");
    }
}
fn network_mode(t: &str) {
    let v = t.parse::<NetworkMode>().ok();
    let service = after(t, "service:");
    let container = after(t, "container:");
    let none = same(t, "none");
    let host = same(t, "host");
    check(v.is_some() == (service.map_or(true, identifier) && container.map_or(true, identifier)), "network mode accepted");
    owned(t, v.as_ref());
    ways(t, v.as_ref());
    if let Some(v) = v {
        match &v {
            NetworkMode::None => check(none, "none"),
            NetworkMode::Host => check(host, "host"),
            NetworkMode::Service(s) => check(service.map_or(false, |x| same(x, s.as_str())), "service"),
            NetworkMode::Container(s) => check(container.map_or(false, |x| same(x, s.as_str())), "container"),
            NetworkMode::Other(o) => check(!none & !host & service.is_none() & container.is_none() && same(o, t), "other"),
        }
        check(v.is_none() == none && v.is_host() == host && v.is_service() == service.is_some() && v.is_container() == container.is_some(), "predicates");
        check(v.as_service().is_some() == v.is_service() && v.as_container().is_some() == v.is_container(), "accessors");
        let s = back(&v);
        check(same(&s, t) & same(&String::from(v.clone()), t) & same(&Cow::from(v), t), "printed as the text");
        reach("accepted");
    }
}
fn ssh(t: &str) {
    let v = t.parse::<SshAuth>().ok();
    let default = same(t, "default");
    let parts = cut(t, b'=').filter(|(a, b)| !a.is_empty() && !b.is_empty());
    check(v.is_some() == (default | parts.is_some()), "ssh accepted");
    check(from::<SshAuth>(t) == v || t.len() > 3, "deserializing agrees");
    if let Some(v) = v {
        check((v == SshAuth::Default) == default && v.as_id().is_some() == !default, "default");
        if let Some((id, path)) = parts {
            check(same(v.id().unwrap(), id) & same(v.path().unwrap().to_str().unwrap(), path), "id and path");
        }
        let s = back(&v);
        check(same(&s, t), "printed as the text");
        reach("accepted");
    }
}
/// `set` as a mask of the values from `base`.
fn mask(set: &CpuSet, base: u64) -> Option<u32> {
    let mut m = 0u32;
    for v in &set.0 {
        let d = v.wrapping_sub(base);
        if d >= 32 {
            return None;
        }
        m |= 1 << d;
    }
    Some(m)
}
fn cpuset_text(s: &str, base: u64) {
    // canonical: ascending, neighbouring values joined into ranges
    let mut last: Option<u64> = None;
    for part in s.split(',') {
        if s.is_empty() {
            break;
        }
        let (a, b) = cut(part, b'-').unwrap_or((part, part));
        let (a, b) = (number64(a, base), number64(b, base));
        check(a <= b && (a < b) == part.contains('-'), "range printed");
        check(last.map_or(true, |l| l + 1 < a), "ranges joined and sorted");
        last = Some(b);
    }
}
fn number64(t: &str, _base: u64) -> u64 {
    let mut v = 0u64;
    for c in t.bytes() {
        check(digit(c), "digits printed");
        v = v.wrapping_mul(10).wrapping_add((c - b'0') as u64);
    }
    v
}

harness! {
    fn f_device(n, mb) {
        device(&text(n, mb));
    }
    fn f_device_after(k, n) {
        let t = ["/h:/", "/h:/c:", "a/b:/c:rw", ":/", "h:", "/d:/e:m", "/h"][k].to_owned() + &ascii(n);
        device(&t);
    }
    fn f_perms(n, mb) {
        let t = &text(n, mb);
        let v = t.parse::<Permissions>().ok();
        let p = perms(t);
        check(v.is_some() == p.0, "permissions accepted");
        check(Permissions::try_from(t.as_str()).ok() == v, "TryFrom agrees");
        if let Some(v) = v {
            check(same_perms(v, p) & (v.any() == !t.is_empty()), "permissions");
            check((v == Permissions::all()) == (p.1 & p.2 & p.3), "all permissions");
            check(v.to_string().parse() == Ok(v), "printed text reads back");
            reach("accepted");
        }
    }
    fn f_kind(n, mb) {
        let t = &text(n, mb);
        let b = t.as_bytes();
        let v = t.parse::<Kind>().ok();
        let ok = n == 1 && mb % 10 == 0 && (b[0] == b'a') | (b[0] == b'b') | (b[0] == b'c');
        check(v.is_some() == ok, "kind accepted");
        check(Kind::try_from(t.as_str()).ok() == v, "TryFrom agrees");
        if n == 1 {
            check(Kind::try_from(t.chars().next().unwrap()).ok() == v, "from a character");
        }
        if let Some(v) = v {
            check(v.as_char() as u8 == b[0] && char::from(v) == v.as_char() && same(&v.to_string(), t), "printed as the character");
            check(v == match v { Kind::All => "a", Kind::Char => "c", Kind::Block => "b" }.parse().unwrap(), "known kinds");
            reach("accepted");
        }
        no_plus(t);
        let v = t.parse::<MajorMinorNumber>().ok();
        check(v.is_some() == number(t).0, "number accepted");
        check(MajorMinorNumber::try_from(t.as_str()).ok() == v, "TryFrom agrees");
        if let Some(v) = v {
            check(same_number(v, number(t)), "device number");
            check(v.to_string().parse() == Ok(v), "printed text reads back");
            reach("number");
        }
    }
    fn f_number(base) {
        let v = base as u16 + sym(4) as u16;
        let m = MajorMinorNumber::from(v);
        check(m == MajorMinorNumber::Integer(v) && m == v && m != MajorMinorNumber::All && MajorMinorNumber::All != v, "number");
        check(m.to_string().parse() == Ok(m), "printed text reads back");
        let r = CgroupRule { kind: [Kind::All, Kind::Char, Kind::Block][pick(3)], major: if fork() { m } else { MajorMinorNumber::All }, minor: if fork() { m } else { MajorMinorNumber::All },
            permissions: Permissions { read: fork(), write: fork(), mknod: fork() } };
        back(&r);
        reach("number");
    }
    fn f_rule(n, mb) {
        rule(&text(n, mb));
    }
    fn f_rule_after(k, n) {
        let t = ["a ", "c 1:", "b *:", "c 1:3 ", "c 6553", "a :", "c *:* r", "b 123:6553"][k].to_owned() + &ascii(n);
        rule(&t);
    }
    fn f_mac(n, mb) {
        mac(&text(n, mb), true);
    }
    fn f_mac_part(at, n) {
        // one part of n symbolic characters
        let mut t = String::new();
        let mut i = 0;
        while i < 6 {
            if i > 0 {
                t.push(':');
            }
            if i == at {
                t.push_str(&ascii(n));
            } else {
                t.push_str(["92", "d0", "C6", "0a", "29", "ff"][i]);
            }
            i += 1;
        }
        mac(&t, true);
    }
    fn f_mac_end(k, n) {
        let t = ["92:d0:c6:0a:29:33", "92:d0:c6:0a:29:", "92:d0:c6:0a:29", "92:d0:c6:0a"][k].to_owned() + &ascii(n);
        mac(&t, true);
    }
    fn f_mac_print(at) {
        let mut b = [0x92, 0xd0, 0x06, 0, 0x29, 0xff];
        b[at % 6] = sym(8) as u8;
        b[(at + 1) % 6] = if at >= 6 { 0 } else { 0x80 };
        let m = MacAddress(b);
        let s = back(&m);
        check(s.len() == 17, "two digits per byte");
        reach("printed");
    }
    fn f_ssh(n, mb) {
        ssh(&text(n, mb));
    }
    fn f_ssh_default(at, n) {
        let t = "default"[..at].to_owned() + &ascii(n);
        ssh(&t);
    }
    fn f_cache(n, mb) {
        cache(&text(n, mb));
    }
    fn f_cache_after(k, n) {
        let t = ["type=", "type=registry", "type=registry,ref=", "type=a,", "type=a,b=", "type=a,b=c,", "type=registry,ref=a,", "typ", "type=registry,a=b,ref=", "type=gha,scope=x,ref="][k].to_owned() + &ascii(n);
        cache(&t);
    }
    fn f_cache_shape(a, b, k) {
        let t = ["type=", "type=registry,", "type=registry,ref=i,"][k].to_owned() + &ascii(a) + if k == 0 { "," } else { "=" } + &ascii(b);
        cache(&t);
    }
    fn f_link(n, mb) {
        link(&text(n, mb));
    }
    fn f_volumes_from(n, mb) {
        volumes_from(&text(n, mb));
    }
    fn f_volumes_from_after(k, n) {
        let t = ["container:", "container", "container:a", "cont", "a", "container:ro", "container:a:r"][k].to_owned() + &ascii(n);
        volumes_from(&t);
    }
    fn f_ipc(n, mb) {
        ipc(&text(n, mb));
    }
    fn f_ipc_after(k, n) {
        let t = ["service:", "service", "shareabl", "serv", "share"][k].to_owned() + &ascii(n);
        ipc(&t);
    }
    fn f_mode(n, mb) {
        network_mode(&text(n, mb));
    }
    fn f_mode_after(k, n) {
        let t = ["service:", "container:", "service", "container", "none", "hos"][k].to_owned() + &ascii(n);
        network_mode(&t);
    }
    fn f_made(k) {
        // values made from parts
        let id = || Identifier::new(finish(vec![b'a' + (sym(4) as u8), b'b'])).unwrap();
        match k {
            0 => { back(&Link::from(id())); }
            1 => { back(&Link { service: id(), alias: Some(ascii(2)) }); }
            2 => { back(&Ipc::Service(id())); }
            3 => { back(&NetworkMode::Service(id())); }
            4 => { back(&NetworkMode::Container(id())); }
            5 => { back(&VolumesFrom { source: VolumesFromSource::Container(id()), read_only: fork() }); }
            6 => { back(&VolumesFrom { source: VolumesFromSource::Service(id()), read_only: fork() }); }
            7 => { back(&Device { host_path: "/h".into(), container_path: AbsolutePath::new("/c").unwrap(), permissions: Permissions { read: fork(), write: fork(), mknod: fork() } }); }
            8 => { back(&NetworkMode::None); back(&NetworkMode::Host); back(&Ipc::Shareable); back(&SshAuth::Default); back(&SshAuth::default()); }
            _ => {
                let n = [b'r', [b'o', b'w'][pick(2)]];
                let id = Identifier::new(std::str::from_utf8(&n).unwrap()).unwrap();
                back(&VolumesFrom { source: VolumesFromSource::Container(id), read_only: fork() });
            }
        }
        reach("made");
    }
    fn f_cpuset(n, mb) {
        let t = &text(n, mb);
        no_plus(t);
        let v = t.parse::<CpuSet>().ok();
        let b = t.as_bytes();
        let body = if !t.is_empty() && b[n - 1 + if mb % 10 > 0 { mb % 10 - 1 } else { 0 }] == b',' { &t[..t.len() - 1] } else { t };
        let mut ok = true;
        if !(body.is_empty() && body.len() == t.len()) {
            for part in body.split(',') {
                let (x, y) = cut(part, b'-').unwrap_or((part, part));
                for e in [x, y] {
                    ok &= !e.is_empty();
                    for c in e.bytes() {
                        ok &= digit(c);
                    }
                }
            }
        }
        check(v.is_some() == ok, "cpu set accepted");
        ways(t, v.as_ref());
        if let Some(v) = v {
            check(v.is_empty() == v.0.is_empty(), "empty");
            let s = back(&v);
            cpuset_text(&s, 0);
            reach("accepted");
        }
    }
    fn f_cpuset_shape(shape, start) {
        // elements: 1 = one digit, 2 = a range of digits; values from `start` times ten
        let mut t = String::new();
        let mut want = 0u32;
        let mut k = shape;
        while k > 0 {
            if !t.is_empty() {
                t.push(',');
            }
            let a = pick(10);
            let b = if k % 10 == 2 { pick(10) } else { a };
            // whether a reversed range is valid is not judged
            assume(a <= b);
            let mut num = |t: &mut String, d: usize| {
                if start > 0 {
                    t.push_str(&start.to_string());
                }
                t.push((b'0' + d as u8) as char);
            };
            num(&mut t, a);
            if k % 10 == 2 {
                t.push('-');
                num(&mut t, b);
            }
            let mut i = a;
            while i <= b {
                want |= 1 << i;
                i += 1;
            }
            k /= 10;
        }
        let base = start as u64 * 10;
        let v = t.parse::<CpuSet>();
        check(v.is_ok(), "cpu set accepted");
        let v = v.unwrap();
        check(mask(&v, base) == Some(want), "cpus of the set");
        let s = back(&v);
        cpuset_text(&s, base);
        check(BTreeSet::from(v.clone()) == v.0 && CpuSet::from(v.0.clone()) == v, "converted to a set");
        reach("set");
    }
    // Many CPUs, `gap` apart, and one more
    fn f_cpuset_many(n, gap) {
        let mut set: BTreeSet<u64> = (0..n as u64).map(|i| 5 + i * gap as u64).collect();
        let x = concrete(sym(6));
        set.insert(x);
        let v = CpuSet(set.clone());
        back(&v);
        let t: Vec<String> = set.iter().rev().map(u64::to_string).collect();
        check(t.join(",").parse::<CpuSet>().is_ok_and(|r| r.0 == set), "cpus of a long list");
        reach("made");
    }
    fn f_cpuset_made(k) {
        let base = [0u64, 95, 4294967290, 18446744073709551608][k];
        let bits = sym(8);
        let mut set = BTreeSet::new();
        let mut i = 0;
        while i < 8 {
            if concrete(bits >> i & 1) == 1 {
                set.insert(base + i);
            }
            i += 1;
        }
        let v = CpuSet(set);
        check(v.is_empty() == (bits == 0), "empty");
        let s = back(&v);
        check(v.is_empty() == s.is_empty(), "printed empty");
        cpuset_text(&s, base);
        reach("made");
    }
    fn f_context(n, mb) {
        let t = &text(n, mb);
        let c = Context::parse(t.as_str());
        let url = t.parse::<url::Url>().ok();
        check(c.as_url() == url.as_ref() && c.as_path().is_some() == url.is_none(), "URL if it is one, else a path");
        if let Some(p) = c.as_path() {
            check(same(p.to_str().unwrap(), t), "path kept");
            check(!c.is_git_repo_url() && c.branch_or_tag().is_none() && c.subdirectory().is_none(), "a path is no repository");
            reach("path");
        }
        check(Context::from(t.as_str()) == c && Context::from(t.clone()) == c && Context::from(Box::<str>::from(t.as_str())) == c && Context::from(Cow::Borrowed(t.as_str())) == c && t.parse::<Context>() == Ok(c.clone()), "all ways to read agree");
        back(&c);
        let s = c.to_string();
        check(c.into_string().map_or(false, |x| same(&x, &s)), "converted to the printed text");
    }
    fn f_context_git(k, n) {
        let base = ["https://h/a.git", "http://h/b/c.GIT", "https://h/a", "ssh://h/a.git", "HTTPS://h/a.git"][k];
        let git = k == 0 || k == 1 || k == 4;
        let f = ascii(n);
        let mut plain = true;
        for c in f.bytes() {
            plain &= alnum(c) | (c == b':') | (c == b'/') | (c == b'-') | (c == b'.');
        }
        assume(plain);
        let t = base.to_owned() + "#" + &f;
        let c = Context::parse(t.as_str());
        check(c.as_url().is_some() && c.is_git_repo_url() == git, "repository");
        let (branch, sub) = cut(&f, b':').map_or((f.as_str(), None), |(a, b)| (a, Some(b)));
        check(c.branch_or_tag().is_some() == git && c.branch_or_tag().map_or(true, |b| same(b, branch)), "branch or tag");
        check(c.subdirectory().is_some() == (git && sub.is_some()) && c.subdirectory().map_or(true, |s| same(s, sub.unwrap())), "subdirectory");
        back(&c);
        if k != 4 {
            check(same(&c.to_string(), &t) && c.into_string().map_or(false, |s| same(&s, &t)), "printed as the text");
        }
        let c = Context::parse(base);
        check(c.is_git_repo_url() == git && c.branch_or_tag().is_none() && c.subdirectory().is_none(), "without a fragment");
        reach("git");
    }
}

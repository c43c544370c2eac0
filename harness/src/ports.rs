//! Port mappings: ranges, short and long syntax, conversions.
use crate::{sx::*, util::*};
use compose_spec::service::{
    ports::{self, Mode, Port, Ports, Protocol, Range, ShortPort, ShortRanges},
    Expose,
};
use compose_spec::ShortOrLong;
use serde_yaml::{Number, Value};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

/// Decimal u16 without sign.
pub fn u16_text(s: &str) -> (bool, u16) {
    let b = s.as_bytes();
    let mut ok = !b.is_empty();
    let mut v: u32 = 0;
    let mut i = 0;
    while i < b.len() {
        ok &= digit(b[i]);
        v = (v & 0xFFFF) * 10 + (b[i].wrapping_sub(b'0') & 15) as u32;
        ok &= v <= u16::MAX as u32;
        i += 1;
    }
    (ok, v as u16)
}
/// (accepted, start, end)
fn range_text(s: &str) -> (bool, u16, u16) {
    match s.find('-') {
        None => {
            let (ok, v) = u16_text(s);
            (ok, v, v)
        }
        Some(i) => {
            let ((a, x), (b, y)) = (u16_text(&s[..i]), u16_text(&s[i + 1..]));
            (a & b & (x <= y), x, y)
        }
    }
}
fn range_is(r: Range, start: u16, end: u16) -> bool {
    // a range of one port has no end
    (r.start() == start) & (r.end().unwrap_or(start) == end) & (r.end() != Some(r.start()))
}
fn no_plus(s: &str) {
    let b = s.as_bytes();
    let mut i = 0;
    let mut p = false;
    while i < b.len() {
        p |= b[i] == b'+';
        i += 1;
    }
    assume(!p);
}
fn protocol_is(p: Option<&Protocol>, s: Option<&str>) -> bool {
    match (p, s) {
        (None, None) => true,
        (Some(p), Some(s)) => {
            let kind = match p {
                Protocol::Tcp => same(s, "tcp"),
                Protocol::Udp => same(s, "udp"),
                Protocol::Other(o) => same(o, s) & !same(s, "tcp") & !same(s, "udp"),
            };
            kind & same(p.as_str(), s) & same(&p.to_string(), s)
        }
        _ => false,
    }
}
/// [[{host_ip}:][{host}]:]{container}[/{protocol}]
fn short_text(s: String) {
    let r = s.parse::<ShortPort>();
    let y: Result<ShortPort, _> = read(Value::String(s.clone()));
    check(y.is_ok() == r.is_ok(), "deserialize agrees");
    check(ShortPort::try_from(s.as_str()).is_ok() == r.is_ok(), "TryFrom agrees");
    let (head, proto) = match s.find('/') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (&s[..], None),
    };
    no_plus(head);
    let (ip, ranges) = match head.rfind(':') {
        None => (None, head),
        Some(j) => match head[..j].rfind(':') {
            None => (None, head),
            Some(k) => (Some(&head[..k]), &head[k + 1..]),
        },
    };
    let (host, cont) = match ranges.find(':') {
        Some(k) => (Some(&ranges[..k]), &ranges[k + 1..]),
        None => (None, ranges),
    };
    let (mut ok, cs, ce) = range_text(cont);
    let mut hosts = None;
    if let Some(h) = host {
        if !h.is_empty() {
            let (o, hs, he) = range_text(h);
            ok &= o & (he.wrapping_sub(hs) == ce.wrapping_sub(cs));
            hosts = Some((hs, he));
        }
    }
    let mut addr = None;
    if let Some(ip) = ip {
        let t = if ip.len() >= 2 && ip.starts_with('[') && ip.ends_with(']') { &ip[1..ip.len() - 1] } else { ip };
        match t.parse::<IpAddr>() {
            Ok(a) => addr = Some(a),
            Err(_) => ok = false,
        }
    }
    check(r.is_ok() == ok, "short port accepted");
    if let Ok(p) = r {
        reach("accepted");
        check(range_is(p.ranges.container(), cs, ce), "container ports");
        match (p.ranges.host(), hosts) {
            (Some(h), Some((a, b))) => check(range_is(h, a, b), "host ports"),
            (None, None) => {}
            _ => check(false, "host ports present"),
        }
        check(p.host_ip == addr, "host ip");
        check(protocol_is(p.protocol.as_ref(), proto), "protocol");
        short_round(p);
    }
}
/// Display and serialization lead back to the same value.
fn short_round(p: ShortPort) {
    let t = p.to_string();
    match t.parse::<ShortPort>() {
        Ok(q) => check(q == p, "display parses back"),
        Err(_) => check(false, "display parses"),
    }
    match serde_yaml::to_value(&p) {
        Ok(v) => {
            match &v {
                Value::String(x) => check(same(x, &t), "serialized text"),
                Value::Number(n) => check(
                    p.host_ip.is_none() && p.protocol.is_none() && p.ranges.host().is_none() && n.as_u64() == Some(p.ranges.container().start() as u64) && p.ranges.container().end().is_none(),
                    "serialized number",
                ),
                _ => check(false, "serialized as string or number"),
            }
            match read::<ShortPort>(v) {
                Ok(q) => check(q == p, "deserialized equal"),
                Err(_) => check(false, "deserializes back"),
            }
        }
        Err(_) => check(false, "serializes"),
    }
}
fn v6(k: usize) -> Ipv6Addr {
    let x = sym(16) as u16;
    match k {
        0 => Ipv6Addr::new(0, 0, 0, 0, 0, 0, 0, x),
        1 => Ipv6Addr::new(0xfe80, 0, 0, 0, x, 0, 0, 1),
        2 => Ipv6Addr::new(0x2001, 0xdb8, 1, 2, 3, 4, x, 6),
        _ => Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, 0x0102, x),
    }
}
fn ip(k: usize) -> Option<IpAddr> {
    match k {
        0 => None,
        1 => Some(IpAddr::V4(Ipv4Addr::new(127, sym(8) as u8, 0, sym(8) as u8))),
        _ => Some(IpAddr::V6(v6(k - 2))),
    }
}
/// 0: one port, 1: a range
fn range(k: usize) -> Range {
    let a = sym(16) as u16;
    if k == 0 {
        Range::from(a)
    } else {
        let b = sym(16) as u16;
        assume(a < b);
        Range::new(a, Some(b)).unwrap()
    }
}
/// Like `range`, numbers near `base`.
fn range_near(k: usize, base: usize) -> Range {
    let a = base as u16 + sym(4) as u16;
    if k == 0 {
        Range::from(a)
    } else {
        let b = base as u16 + sym(4) as u16;
        assume(a < b);
        Range::new(a, Some(b)).unwrap()
    }
}
fn host_near(k: usize, c: Range, base: usize) -> Option<Range> {
    if k == 0 {
        return None;
    }
    let a = base as u16 + sym(4) as u16;
    match c.end() {
        None => Some(Range::from(a)),
        Some(e) => {
            let d = e - c.start();
            assume(a <= u16::MAX - d);
            Some(Range::new(a, Some(a + d)).unwrap())
        }
    }
}
fn host_for(k: usize, c: Range) -> Option<Range> {
    if k == 0 {
        return None;
    }
    let a = sym(16) as u16;
    match c.end() {
        None => Some(Range::from(a)),
        Some(e) => {
            let d = e - c.start();
            assume(a <= u16::MAX - d);
            Some(Range::new(a, Some(a + d)).unwrap())
        }
    }
}
fn protocol(k: usize) -> Option<Protocol> {
    match k {
        0 => None,
        1 => Some(Protocol::Tcp),
        2 => Some(Protocol::Udp),
        _ => Some(ascii(k - 2).into()),
    }
}
fn number(k: usize) -> (Number, bool, u64) {
    match k {
        0 => {
            let v = sym(64);
            (v.into(), v <= 0xFFFF, v)
        }
        1 => {
            let v = sym(64) as i64;
            assume(v < 0);
            (v.into(), false, 0)
        }
        _ => {
            let v = [0.0, 1.0, 80.5, -1.0, 65536.0, 1e300, f64::NAN, f64::INFINITY][pick(8)];
            (v.into(), false, 0)
        }
    }
}
fn long_port(flags: usize) -> Port {
    let mut p = Port::new(sym(16) as u16);
    if flags & 1 != 0 {
        p.published = Some(range_near(0, 8060));
    }
    if flags & 2 != 0 {
        p.published = Some(range_near(1, 8060));
    }
    if flags & 4 != 0 {
        p.host_ip = ip(1);
    }
    if flags & 8 != 0 {
        p.protocol = protocol(pick(4));
    }
    if flags & 16 != 0 {
        p.name = Some(ascii(1));
    }
    if flags & 32 != 0 {
        p.app_protocol = Some(ascii(1));
    }
    if flags & 64 != 0 {
        p.mode = Some(if fork() { Mode::Host } else { Mode::Ingress });
    }
    if flags & 128 != 0 {
        p.extensions.insert(compose_spec::ExtensionKey::new("x-a").unwrap(), Value::Bool(flag()));
    }
    p
}
fn pairs_are(p: &ShortPort, want: usize) {
    let (c, h) = (p.ranges.container(), p.ranges.host());
    let mut n = 0u16;
    for q in p.clone().into_long_iter() {
        check(q.target == c.start() + n, "target");
        match (q.published, h) {
            (Some(x), Some(h)) => check(range_is(x, h.start() + n, h.start() + n), "published"),
            (None, None) => {}
            _ => check(false, "published present"),
        }
        check(q.host_ip == p.host_ip, "host ip kept");
        check(q.protocol == p.protocol, "protocol kept");
        check(q.name.is_none() && q.app_protocol.is_none() && q.mode.is_none() && q.extensions.is_empty(), "rest unset");
        match q.into_short() {
            Ok(s) => {
                check(range_is(s.ranges.container(), c.start() + n, c.start() + n) && s.host_ip == p.host_ip && s.protocol == p.protocol, "back to short");
                check(s.ranges.host().map(|h| h.start()) == h.map(|h| h.start() + n), "back to short, host");
            }
            Err(_) => check(false, "long form of a short port has a short form"),
        }
        n += 1;
    }
    check(n as usize == want, "number of ports");
}

harness! {
    fn p_short_text(n, mb) {
        short_text(text(n, mb))
    }
    // host ip, then symbolic rest
    fn p_short_ip(k, n) {
        let mut s = String::from(match k { 0 => "127.0.0.1", 1 => "::1", 2 => "[::1]", 3 => "[::", 4 => "fe80::1:2", _ => "0.0.0.0" });
        s.push(':');
        s.push_str(&ascii(n));
        short_text(s)
    }
    fn p_short_digits(h, c, lead, free) {
        // {digits}-{digits}:{digits}-{digits}, sizes from the arguments; the last `free` digits of each are symbolic
        let d = |v: &mut Vec<u8>, n: usize| {
            let mut i = 0;
            while i < n {
                if i + free < n {
                    v.push([b"65536", b"00000", b"99999", b"10010"][lead][i % 5]);
                } else {
                    let c = sym(7) as u8;
                    assume(digit(c));
                    v.push(c);
                }
                i += 1;
            }
        };
        let mut v = vec![];
        if h > 0 {
            d(&mut v, h % 10);
            if h >= 10 {
                v.push(b'-');
                d(&mut v, h / 10);
            }
            v.push(b':');
        }
        d(&mut v, c % 10);
        if c >= 10 {
            v.push(b'-');
            d(&mut v, c / 10);
        }
        let s = finish(v);
        short_text(s)
    }
    fn p_range_text(n, mb) {
        let s = text(n, mb);
        let r = s.parse::<Range>();
        check(Range::try_from(s.as_str()).is_ok() == r.is_ok(), "TryFrom agrees");
        let y: Result<Range, _> = read(Value::String(s.clone()));
        check(y.is_ok() == r.is_ok(), "deserialize agrees");
        no_plus(&s);
        let (ok, a, b) = range_text(&s);
        check(r.is_ok() == ok, "range accepted");
        if let Ok(r) = r {
            reach("accepted");
            check(range_is(r, a, b), "range value");
            check(y.unwrap() == r, "deserialized value");
        }
    }
    fn p_range() {
        let (a, b) = (sym(16) as u16, sym(16) as u16);
        let one = Range::new(a, None).unwrap();
        check(range_is(one, a, a) && one.size() == 1 && one == a && one == Range::from(a), "single port");
        let r = Range::new(a, Some(b));
        check(r.is_ok() == (a <= b), "ordered");
        check(Range::try_from((a, b)).is_ok() == r.is_ok() && Range::try_from((a, Some(b))).is_ok() == r.is_ok() && Range::try_from(a..=b).is_ok() == r.is_ok(), "conversions agree");
        if let Ok(r) = r {
            reach("range");
            check(range_is(r, a, b), "bounds");
            check(r.size() as u32 == (b as u32 - a as u32 + 1).min(0xFFFF), "size");
            check(r == (a..=b), "equal to std range");
            check((r == a) == (a == b), "equal to its only port");
            let i = r.into_iter();
            check((*i.start() == a) & (*i.end() == b), "iterates from start to end");
            let d = sym(16) as u16;
            if b <= u16::MAX - d {
                let mut m = r;
                m += d;
                check(range_is(r + d, a + d, b + d) && m == r + d, "shift up");
                m -= d;
                check(m == r && (r + d) - d == r, "shift back");
            }
        }
    }
    // every width of integer
    fn p_width(t, k) {
        match t {
            0 => widths::<Range>(k),
            1 => widths::<ShortRanges>(k),
            2 => widths::<ShortPort>(k),
            _ => widths::<compose_spec::service::Expose>(k),
        }
    }
    // size equality of host and container ranges, through every constructor
    fn p_ranges(hk, ck) {
        let (h, c) = (range(hk), range(ck));
        let span = |r: Range| r.end().unwrap_or(r.start()) - r.start();
        let eq = span(h) == span(c);
        let r = ShortRanges::new(Some(h), c);
        check(r.is_ok() == eq, "sizes equal");
        let mut x = ShortRanges::from(c);
        check(x.host().is_none() && x.container() == c, "container only");
        let e = x.replace_host(h);
        check(e.is_ok() == eq, "replace_host checks sizes");
        if eq {
            reach("equal");
            let r = r.unwrap();
            check(r.host() == Some(h) && r.container() == c && x == r, "kept");
            let n = range(ck);
            let ok = span(n) == span(h);
            let e = x.replace_container(n);
            check(e.is_ok() == ok, "replace_container checks sizes");
            if ok {
                check(e.unwrap() == c && x.container() == n && x.host() == Some(h), "container replaced");
            } else {
                check(x == r, "unchanged when rejected");
            }
            check(x.take_host() == Some(h) && x.host().is_none(), "take_host");
            check(x.replace_container(n).is_ok() && x.container() == n, "any container without host");
        } else {
            reach("different");
            check(x.host().is_none() && x.container() == c, "unchanged when rejected");
        }
    }
    fn p_short_build(ipk, hk, ck, pk, base) {
        let c = range_near(ck, base);
        let mut p = ShortPort::new(ShortRanges::new(host_near(hk, c, base), c).unwrap());
        p.host_ip = ip(ipk);
        p.protocol = protocol(pk);
        short_round(p);
        reach("built");
    }
    fn p_range_round(k, base) {
        let r = range_near(k, base);
        let t = r.to_string();
        check(t.parse::<Range>() == Ok(r), "display parses back");
        let v = serde_yaml::to_value(r).unwrap();
        check(read::<Range>(v).ok() == Some(r), "deserialized equal");
        let e = Expose { range: r, protocol: protocol(pick(5)) };
        let t = e.to_string();
        check(t.parse::<Expose>().ok().as_ref() == Some(&e), "expose display parses back");
        let v = serde_yaml::to_value(&e).unwrap();
        check(read::<Expose>(v).ok().as_ref() == Some(&e), "expose deserialized equal");
        let s = ShortRanges::new(host_near(pick(2), r, base), r).unwrap();
        check(s.to_string().parse::<ShortRanges>() == Ok(s), "ranges display parses back");
        let v = serde_yaml::to_value(s).unwrap();
        check(read::<ShortRanges>(v).ok() == Some(s), "ranges deserialized equal");
        reach("round");
    }
    fn p_number(k) {
        let (n, ok, v) = number(k);
        let val = Value::Number(n);
        let r: Result<Range, _> = read(val.clone());
        check(r.is_ok() == ok, "range from number");
        let s: Result<ShortPort, _> = read(val.clone());
        check(s.is_ok() == ok, "short port from number");
        let x: Result<ShortRanges, _> = read(val.clone());
        check(x.is_ok() == ok, "short ranges from number");
        let e: Result<Expose, _> = read(val.clone());
        check(e.is_ok() == ok, "expose from number");
        let mut m = serde_yaml::Mapping::new();
        m.insert("target".into(), val);
        let p: Result<Port, _> = read(Value::Mapping(m));
        check(p.is_ok() == ok, "target from number");
        if ok {
            reach("in range");
            let v = v as u16;
            check(range_is(r.unwrap(), v, v), "range value");
            check(s.unwrap() == ShortPort::from(v), "short port value");
            check(x.unwrap() == ShortRanges::from(v), "short ranges value");
            check(e.unwrap() == Expose::from(v), "expose value");
            check(p.unwrap() == Port::new(v), "target value");
        }
    }
    // short -> long: one long port per container port, in step with the host ports
    fn p_to_long(ipk, hk, size, pk) {
        let a = sym(16) as u16;
        assume(a <= u16::MAX - (size as u16 - 1));
        let c = Range::new(a, Some(a + (size as u16 - 1))).unwrap();
        let mut p = ShortPort::new(ShortRanges::new(host_for(hk, c), c).unwrap());
        p.host_ip = ip(ipk);
        p.protocol = protocol(pk);
        pairs_are(&p, size);
        reach("converted");
    }
    // long -> short: possible exactly when nothing would be lost
    fn p_to_short(flags) {
        let p = long_port(flags);
        let lossless = flags & (2 | 16 | 32 | 64 | 128) == 0;
        match p.clone().into_short() {
            Ok(s) => {
                check(lossless, "short form loses something");
                check(s.host_ip == p.host_ip && s.protocol == p.protocol && s.ranges.host() == p.published && s.ranges.container() == p.target, "short form");
                let mut i = s.into_long_iter();
                check(i.next().as_ref() == Some(&p), "back to long");
                check(i.next().is_none(), "one port");
                reach("short");
            }
            Err(q) => {
                check(!lossless, "short form refused");
                check(q == p, "returned unchanged");
                reach("long");
            }
        }
        let v = serde_yaml::to_value(&p).unwrap();
        check(read::<Port>(v).ok().as_ref() == Some(&p), "long form round trip");
    }
    // collections of ports
    fn p_iters(size, flags, order) {
        let a = sym(16) as u16;
        assume(a <= u16::MAX - (size as u16 - 1));
        let c = Range::new(a, Some(a + (size as u16 - 1))).unwrap();
        let s = ShortPort::new(ShortRanges::new(host_for(1, c), c).unwrap());
        let l = long_port(flags);
        let mut ports = Ports::new();
        if order == 0 {
            ports.insert(ShortOrLong::Short(s.clone()));
            ports.insert(ShortOrLong::Long(l.clone()));
        } else {
            ports.insert(ShortOrLong::Long(l.clone()));
            ports.insert(ShortOrLong::Short(s.clone()));
        }
        check(ports.len() == 2, "two ports");
        let mut n = 0;
        for (i, p) in ports::into_long_iter(ports.clone()).enumerate() {
            let j = if order == 0 { i } else { i.wrapping_sub(1) };
            if j < size {
                check(p.target == a + j as u16 && p.published.map(|r| r.start()) == s.ranges.host().map(|h| h.start() + j as u16), "short expanded in order");
            } else {
                check(p == l, "long kept");
            }
            n += 1;
        }
        check(n == size + 1, "long count");
        let short: Vec<_> = ports::into_short_iter(ports).collect();
        check(short.len() == 2, "short count");
        let (x, y) = if order == 0 { (&short[0], &short[1]) } else { (&short[1], &short[0]) };
        check(x.as_ref().ok() == Some(&s), "short kept");
        check(*y == l.into_short(), "long shortened where possible");
        reach("iterated");
    }
    fn p_expose_text(n, mb) {
        let s = text(n, mb);
        let r = s.parse::<Expose>();
        let y: Result<Expose, _> = read(Value::String(s.clone()));
        check(y.is_ok() == r.is_ok(), "deserialize agrees");
        let (head, proto) = match s.find('/') {
            Some(i) => (&s[..i], Some(&s[i + 1..])),
            None => (&s[..], None),
        };
        no_plus(head);
        let (ok, a, b) = range_text(head);
        check(r.is_ok() == ok, "expose accepted");
        if let Ok(e) = r {
            reach("accepted");
            check(range_is(e.range, a, b), "expose range");
            check(protocol_is(e.protocol.as_ref(), proto), "expose protocol");
            check(e.to_string().parse::<Expose>().as_ref() == Ok(&e), "expose display parses back");
            check(y.unwrap() == e, "expose deserialized");
        }
    }
}

//! Equality, hashing and order say what the values say.
use crate::docs::*;
use crate::sx::*;
use crate::util::*;
use compose_spec::service::{
    build::CacheOption,
    deploy::resources::{Count, Cpus},
    device::MajorMinorNumber,
    image::{Digest, Name as ImageName, Tag, TagOrDigest},
    ports::{Mode, Port, Protocol, Range, ShortPort, ShortRanges},
    user::Name as UserName,
    volumes::{
        mount::{Bind, BindOptions, BindPropagation, Cluster, Common, NamedPipe, Tmpfs, TmpfsOptions, Volume, VolumeOptions},
        AbsolutePath, HostPath, Mount, SELinux, ShortOptions, ShortVolume, Source,
    },
    ByteValue, Hostname, Image, OomScoreAdj, Percent, Resource,
};
use compose_spec::{ExtensionKey, Extensions, Identifier, ItemOrList, MapKey, Name};
use indexmap::{IndexMap, IndexSet};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};

/// Keeps what is hashed.
struct Kept(Vec<u8>);
impl Hasher for Kept {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn hashed<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut k = Kept(Vec::with_capacity(64));
    t.hash(&mut k);
    k.0
}
/// `x == y` exactly when `e`, and then they hash the same.
fn equal<T: PartialEq + Hash>(x: &T, y: &T, e: bool) {
    check((x == y) == e, "eq:equal");
    check((x != y) != e, "eq:unequal");
    check((y == x) == e, "eq:both ways");
    check(x == x, "eq:to itself");
    let (h, g) = (hashed(x), hashed(y));
    check(!e | same_bytes(&h, &g), "eq:equal values hash the same");
    reach("compared");
}
fn small() -> u8 {
    let c = sym(5) as u8;
    assume(c < 26);
    b'a' + c
}
fn word(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        v.push(small());
    }
    finish(v)
}
/// Text order, the length deciding last.
fn order(a: &str, b: &str) -> Ordering {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if a[i] > b[i] {
            return Ordering::Greater;
        }
        i += 1;
    }
    if a.len() < b.len() {
        Ordering::Less
    } else if a.len() > b.len() {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
fn ordered<T: Ord>(x: &T, y: &T, o: Ordering) {
    check(x.cmp(y) == o, "order:of the texts");
    check(y.cmp(x) == o.reverse(), "order:reversed");
    check(x.partial_cmp(y) == Some(o), "order:partial");
    check((x < y) == (o == Ordering::Less) && (x >= y) == (o != Ordering::Less), "order:less");
}
/// What looks up an entry by text relies on.
fn stands_for<T: Borrow<str> + Hash + Eq + Clone>(x: &T, y: &T, a: &str, b: &str) {
    let e = same(a, b);
    check(same(x.borrow(), a), "key:text");
    check(same_bytes(&hashed(x), &hashed(a)), "key:hashes as its text");
    let mut m = IndexMap::new();
    m.insert(x.clone(), 1);
    check(m.get(b).is_some() == e, "key:found by text");
    m.insert(y.clone(), 2);
    check((m.len() == 1) == e, "key:one entry per text");
    check(m.get(b) == Some(&2) && m.get(a) == Some(if e { &2 } else { &1 }), "key:its entry");
}
macro_rules! texts {
    ($T:ty, $a:expr, $b:expr, [$($what:ident),*]) => {{
        let (a, b): (&str, &str) = ($a, $b);
        let (Ok(x), Ok(y)) = (<$T>::new(a), <$T>::new(b)) else { return };
        equal(&x, &y, same(a, b));
        $(texts!(@$what x, y, a, b);)*
    }};
    (@ord $x:ident, $y:ident, $a:ident, $b:ident) => { ordered(&$x, &$y, order($a, $b)) };
    (@key $x:ident, $y:ident, $a:ident, $b:ident) => { stands_for(&$x, &$y, $a, $b) };
    (@str $x:ident, $y:ident, $a:ident, $b:ident) => { check(($x == *$b) == same($a, $b) && ($x == $b) == same($a, $b) && $y == $b, "eq:to text") };
}
/// Text of `n` characters that may name something.
fn name(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        let c = sym(7) as u8;
        assume(alnum(c) | (c == b'_') | (c == b'.') | (c == b'-'));
        v.push(c);
    }
    finish(v)
}
fn ext(on: bool) -> Extensions {
    exts(on, false)
}
fn exts(on: bool, kinds: bool) -> Extensions {
    let mut e = Extensions::new();
    if on {
        let mut k = String::from("x-");
        k.push_str(&word(1));
        e.insert(ExtensionKey::new(k).unwrap(), if !kinds || fork() { sym(8).into() } else { serde_yaml::Value::String(word(1)) });
    }
    e
}
fn path(n: usize) -> PathBuf {
    let mut p = String::from("/");
    p.push_str(&word(n));
    p.into()
}
fn common(f: usize) -> Common {
    let mut c = Common::new(AbsolutePath::new(path(1)).unwrap());
    c.read_only = f & 1 != 0;
    c.consistency = (f & 2 != 0).then(|| word(1));
    c.extensions = exts(f & 4 != 0, f == 4);
    c
}
const PROPAGATION: [BindPropagation; 8] = [
    BindPropagation::Private, BindPropagation::Shared, BindPropagation::Slave, BindPropagation::Unbindable,
    BindPropagation::RPrivate, BindPropagation::RShared, BindPropagation::RSlave, BindPropagation::RUnbindable,
];
fn mount(kind: usize, f: usize) -> Mount {
    let c = common(f);
    match kind {
        0 => Mount::Volume(Volume {
            source: (f & 8 != 0).then(|| Identifier::new(word(1)).unwrap()),
            volume: (f & 16 != 0).then(|| VolumeOptions { nocopy: f & 32 != 0, subpath: (f & 64 != 0).then(|| PathBuf::from(word(1))), extensions: ext(f & 128 != 0) }),
            common: c,
        }),
        1 => Mount::Bind(Bind {
            source: HostPath::new(path(1)).unwrap(),
            bind: (f & 8 != 0).then(|| BindOptions {
                propagation: (f & 16 != 0).then(|| PROPAGATION[if f.count_ones() < 4 { pick(8) } else { pick(2) }]),
                create_host_path: f & 32 != 0,
                selinux: (f & 64 != 0).then(|| if fork() { SELinux::Shared } else { SELinux::Private }),
                extensions: ext(f & 128 != 0),
            }),
            common: c,
        }),
        2 => Mount::Tmpfs(Tmpfs {
            tmpfs: (f & 8 != 0).then(|| TmpfsOptions {
                size: (f & 16 != 0).then(|| ByteValue::Megabytes(sym(64))),
                mode: (f & 32 != 0).then(|| sym(32) as u32),
                extensions: ext(f & 64 != 0),
            }),
            common: c,
        }),
        3 => Mount::NamedPipe(NamedPipe { source: HostPath::new(path(1)).unwrap(), common: c }),
        _ => Mount::Cluster(Cluster { source: word(1), common: c }),
    }
}
fn same_ext(a: &Extensions, b: &Extensions) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| same(k.as_str(), l.as_str()) && same_yaml(v, w))
}
fn same_opt<T>(a: &Option<T>, b: &Option<T>, f: impl Fn(&T, &T) -> bool) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => f(a, b),
        (None, None) => true,
        _ => false,
    }
}
fn same_path(a: &Path, b: &Path) -> bool {
    same(a.to_str().unwrap(), b.to_str().unwrap())
}
fn same_common(a: &Common, b: &Common) -> bool {
    same_path(a.target.as_path(), b.target.as_path()) & (a.read_only == b.read_only) & same_opt(&a.consistency, &b.consistency, |a, b| same(a, b)) & same_ext(&a.extensions, &b.extensions)
}
fn same_propagation(a: &BindPropagation, b: &BindPropagation) -> bool {
    *a as u8 == *b as u8
}
fn same_mount(a: &Mount, b: &Mount) -> bool {
    match (a, b) {
        (Mount::Volume(a), Mount::Volume(b)) => {
            same_common(&a.common, &b.common)
                & same_opt(&a.source, &b.source, |a, b| same(a.as_str(), b.as_str()))
                & same_opt(&a.volume, &b.volume, |a, b| (a.nocopy == b.nocopy) & same_opt(&a.subpath, &b.subpath, |a, b| same_path(a, b)) & same_ext(&a.extensions, &b.extensions))
        }
        (Mount::Bind(a), Mount::Bind(b)) => {
            same_common(&a.common, &b.common)
                & same_path(a.source.as_path(), b.source.as_path())
                & same_opt(&a.bind, &b.bind, |a, b| {
                    same_opt(&a.propagation, &b.propagation, same_propagation)
                        & (a.create_host_path == b.create_host_path)
                        & same_opt(&a.selinux, &b.selinux, |a, b| *a as u8 == *b as u8)
                        & same_ext(&a.extensions, &b.extensions)
                })
        }
        (Mount::Tmpfs(a), Mount::Tmpfs(b)) => {
            let mega = |a: &ByteValue| if let ByteValue::Megabytes(n) = a { *n } else { 0 };
            same_common(&a.common, &b.common)
                & same_opt(&a.tmpfs, &b.tmpfs, |a, b| {
                    same_opt(&a.size, &b.size, |a, b| mega(a) == mega(b)) & same_opt(&a.mode, &b.mode, |a, b| a == b) & same_ext(&a.extensions, &b.extensions)
                })
        }
        (Mount::NamedPipe(a), Mount::NamedPipe(b)) => same_common(&a.common, &b.common) & same_path(a.source.as_path(), b.source.as_path()),
        (Mount::Cluster(a), Mount::Cluster(b)) => same_common(&a.common, &b.common) & same(&a.source, &b.source),
        _ => false,
    }
}
fn range() -> (Range, u16, u16) {
    let (s, e) = (sym(16) as u16, sym(16) as u16);
    assume(s <= e);
    (Range::new(s, Some(e)).unwrap(), s, e)
}
fn port(f: usize) -> Port {
    let mut p = Port::new(sym(16) as u16);
    p.name = (f & 1 != 0).then(|| word(1));
    p.published = (f & 2 != 0).then(|| if f & 4 != 0 { range().0 } else { Range::from(sym(16) as u16) });
    p.host_ip = (f & 8 != 0).then(|| std::net::Ipv4Addr::new(10, 0, sym(8) as u8, sym(8) as u8).into());
    p.protocol = (f & 16 != 0).then(|| [Protocol::Tcp, Protocol::Udp, Protocol::Other(word(1))][pick(3)].clone());
    p.app_protocol = (f & 32 != 0).then(|| word(1));
    p.mode = (f & 64 != 0).then(|| if fork() { Mode::Host } else { Mode::Ingress });
    p.extensions = exts(f & 128 != 0, true);
    p
}
fn same_range(a: &Range, b: &Range) -> bool {
    (a.start() == b.start()) & same_opt(&a.end(), &b.end(), |a, b| a == b)
}
fn same_protocol(a: &Protocol, b: &Protocol) -> bool {
    match (a, b) {
        (Protocol::Other(a), Protocol::Other(b)) => same(a, b),
        (Protocol::Tcp, Protocol::Tcp) | (Protocol::Udp, Protocol::Udp) => true,
        _ => false,
    }
}
fn same_ip(a: &std::net::IpAddr, b: &std::net::IpAddr) -> bool {
    match (a, b) {
        (std::net::IpAddr::V4(a), std::net::IpAddr::V4(b)) => u32::from_be_bytes(a.octets()) == u32::from_be_bytes(b.octets()),
        _ => false,
    }
}
fn same_port(a: &Port, b: &Port) -> bool {
    same_opt(&a.name, &b.name, |a, b| same(a, b))
        & (a.target == b.target)
        & same_opt(&a.published, &b.published, same_range)
        & same_opt(&a.host_ip, &b.host_ip, same_ip)
        & same_opt(&a.protocol, &b.protocol, same_protocol)
        & same_opt(&a.app_protocol, &b.app_protocol, |a, b| same(a, b))
        & same_opt(&a.mode, &b.mode, |a, b| *a as u8 == *b as u8)
        & same_ext(&a.extensions, &b.extensions)
}
fn short_port(f: usize) -> ShortPort {
    let (r, s, e) = range();
    let mut p = ShortPort::new(if f & 1 != 0 {
        let h = sym(16) as u16;
        assume(h <= u16::MAX - (e - s));
        ShortRanges::new(Some(Range::new(h, Some(h + (e - s))).unwrap()), r).unwrap()
    } else {
        r.into()
    });
    p.host_ip = (f & 2 != 0).then(|| std::net::Ipv4Addr::new(10, 0, 0, sym(8) as u8).into());
    p.protocol = (f & 4 != 0).then(|| [Protocol::Tcp, Protocol::Udp, Protocol::Other(word(1))][pick(3)].clone());
    p
}
fn short_volume(f: usize) -> ShortVolume {
    let mut v = ShortVolume::new(AbsolutePath::new(path(1)).unwrap());
    if f & 1 != 0 {
        let mut o = ShortOptions::new(if f & 2 != 0 { Source::Volume(Identifier::new(word(1)).unwrap()) } else { Source::HostPath(HostPath::new(path(1)).unwrap()) });
        o.read_only = f & 4 != 0;
        o.selinux = (f & 8 != 0).then(|| if f & 16 != 0 { SELinux::Shared } else { SELinux::Private });
        v.options = Some(o);
    }
    v
}
fn same_volume(a: &ShortVolume, b: &ShortVolume) -> bool {
    same_path(a.container_path.as_path(), b.container_path.as_path())
        & same_opt(&a.options, &b.options, |a, b| {
            (match (&a.source, &b.source) {
                (Source::Volume(a), Source::Volume(b)) => same(a.as_str(), b.as_str()),
                (Source::HostPath(a), Source::HostPath(b)) => same_path(a.as_path(), b.as_path()),
                _ => false,
            }) & (a.read_only == b.read_only)
                & same_opt(&a.selinux, &b.selinux, |a, b| *a as u8 == *b as u8)
        })
}

harness! {
    fn q_text(which, n, m) {
        let (a, b) = (name(n), name(m));
        let (a, b) = (a.as_str(), b.as_str());
        match which {
            0 => texts!(Identifier, a, b, [ord, key, str]),
            1 => texts!(MapKey, a, b, [ord, key, str]),
            2 => {
                let (a, b) = (format!("x-{a}"), format!("x-{b}"));
                texts!(ExtensionKey, a.as_str(), b.as_str(), [ord, key, str])
            }
            3 => {
                if let (Ok(x), Ok(y)) = (Name::new(a), Name::new(b)) {
                    check((x == y) == same(a, b) && (y == x) == same(a, b), "eq:equal");
                }
            }
            4 => texts!(Hostname, a, b, [ord, key, str]),
            5 => texts!(UserName, a, b, [key, str]),
            6 => texts!(Resource, a, b, [ord, key, str]),
            7 => texts!(CacheOption, a, b, [key, str]),
            8 => texts!(Tag, a, b, [ord, key, str]),
            9 => texts!(ImageName, a, b, [ord, key, str]),
            _ => {
                let (a, b) = (format!("a:{a}"), format!("a:{b}"));
                texts!(Digest, a.as_str(), b.as_str(), [ord, key, str])
            }
        }
    }
    // Images of various parts, one parsed, the other put together.
    fn q_image(s, t, n) {
        let text = |k: usize, w: &str, v: &str| match k {
            0 => w.to_owned(),
            1 => format!("r.{v}/{w}"),
            2 => format!("{w}:{v}"),
            3 => format!("r.{v}/{w}:{v}"),
            _ => format!("{w}@a:{v}"),
        };
        let (w, v, x, y) = (word(n), word(1), word(n), word(1));
        let (a, b) = (text(s, &w, &v), text(t, &x, &y));
        let (i, p) = (Image::parse(a.as_str()).unwrap(), Image::parse(b.as_str()).unwrap());
        equal(&i, &p, same(&a, &b));
        ordered(&i, &p, order(&a, &b));
        stands_for(&i, &p, &a, &b);
        check((i == *b.as_str()) == same(&a, &b) && (i == b.as_str()) == same(&a, &b), "eq:to text");
        let base = if t == 1 || t == 3 { format!("r.{y}/{x}") } else { x.clone() };
        let mut j = Image::parse("zz").unwrap();
        j.set_name(ImageName::new(&base).unwrap());
        if t == 2 || t == 3 {
            j.set_tag(Some(Tag::new(&y).unwrap()));
        } else if t == 4 {
            let d = format!("a:{y}");
            j.set_digest(Some(Digest::new(&d).unwrap()));
            check(j.as_digest() == Some(Digest::new(&d).unwrap()), "parts:digest");
        }
        equal(&i, &j, same(&a, &b));
        check(p.as_name() == j.as_name() && p.as_tag_or_digest() == j.as_tag_or_digest() && p.registry() == j.registry(), "parts:equal");
        let (na, nb) = (i.as_name(), p.as_name());
        equal(&na, &nb, same(i.name(), p.name()));
        ordered(&na, &nb, order(i.name(), p.name()));
        stands_for(&na, &nb, i.name(), p.name());
        if let (Some(c), Some(d)) = (i.as_tag_or_digest(), p.as_tag_or_digest()) {
            let e = matches!((c, d), (TagOrDigest::Tag(_), TagOrDigest::Tag(_)) | (TagOrDigest::Digest(_), TagOrDigest::Digest(_)));
            equal(&c, &d, e && same(c.as_ref(), d.as_ref()));
        }
    }
    fn q_path(n, m) {
        let (mut a, mut b) = (String::from("/"), String::from("/"));
        a.push_str(&ascii(n));
        b.push_str(&ascii(m));
        let (p, q) = (Path::new(&a), Path::new(&b));
        let e = p == q;
        let (x, y) = (AbsolutePath::new(p).unwrap(), AbsolutePath::new(q).unwrap());
        equal(&x, &y, e);
        ordered(&x, &y, p.cmp(q));
        check((x == *q) == e, "eq:to path");
        check(same_bytes(&hashed(&x), &hashed(p)), "key:hashes as its path");
        check(Borrow::<Path>::borrow(&x) == p, "key:path");
        let (x, y) = (HostPath::new(p).unwrap(), HostPath::new(q).unwrap());
        equal(&x, &y, e);
        check((x == *q) == e, "eq:to path");
        check(same_bytes(&hashed(&x), &hashed(p)), "key:hashes as its path");
        equal(&Source::HostPath(x), &Source::HostPath(y), e);
        let mut s = IndexSet::new();
        s.insert(AbsolutePath::new(p).unwrap());
        check(s.contains(q) == e, "key:found by path");
    }
    fn q_numbers() {
        let n = sym(16) as u16;
        let (r, s, e) = range();
        let (t, u, v) = range();
        let one = Range::from(s);
        equal(&r, &t, (s == u) & (e == v));
        equal(&one, &Range::from(n), s == n);
        equal(&one, &Range::new(u, None).unwrap(), s == u);
        check((one == n) == (s == n), "eq:range to number");
        check((r == (u..=v)) == ((s == u) & (e == v)), "eq:range to range");
        check((one == (u..=v)) == ((s == u) & (s == v)), "eq:range to range");
        if let (Ok(w), Ok(x)) = (compose_spec::service::blkio_config::Weight::new(n), compose_spec::service::blkio_config::Weight::new(s)) {
            equal(&w, &x, n == s);
            ordered(&w, &x, if n < s { Ordering::Less } else if n > s { Ordering::Greater } else { Ordering::Equal });
            check(w == n && (w == s) == (n == s) && w == std::num::NonZeroU16::new(n).unwrap(), "eq:weight to number");
        }
        let b = sym(8) as u8;
        if let Ok(p) = Percent::new(b) {
            let c = n as u8;
            check((p == c) == (b == c), "eq:percent to number");
            if let Ok(q) = Percent::new(c) {
                equal(&p, &q, b == c);
            }
        }
        let i = n as i16;
        if let Ok(p) = OomScoreAdj::new(i) {
            check((p == s as i16) == (n == s), "eq:score to number");
            if let Ok(q) = OomScoreAdj::new(s as i16) {
                equal(&p, &q, n == s);
            }
        }
        let (k, l) = (sym(64), sym(64));
        check((Count::Integer(k) == l) == (k == l) && (Count::Integer(k) == Count::Integer(l)) == (k == l), "eq:count to number");
        check(Count::All != l && Count::All == Count::All && Count::All != Count::Integer(l), "eq:count to number");
        let (m, o) = (MajorMinorNumber::from(n), MajorMinorNumber::from(s));
        equal(&m, &o, n == s);
        check((m == s) == (n == s) && MajorMinorNumber::All != s, "eq:device number to number");
    }
    fn q_cpus() {
        let (a, b) = (f64::from_bits(sym(64)), f64::from_bits(sym(64)));
        if let Ok(x) = Cpus::new(a) {
            check((x == b) == (a == b), "eq:cpus to number");
            check(x.partial_cmp(&b) == a.partial_cmp(&b), "order:cpus to number");
            if let Ok(y) = Cpus::new(b) {
                check((x == y) == (a == b) && x.partial_cmp(&y) == a.partial_cmp(&b), "eq:cpus");
                reach("cpus");
            }
        }
    }
    fn q_mount(kind, other, f, g) {
        let (a, b) = (mount(kind, f), mount(other, g));
        let e = same_mount(&a, &b);
        equal(&a, &b, e);
        equal(a.common(), b.common(), same_common(a.common(), b.common()));
    }
    fn q_port(f, g) {
        let (a, b) = (port(f), port(g));
        equal(&a, &b, same_port(&a, &b));
    }
    fn q_short(f, g) {
        let (a, b) = (short_port(f), short_port(g));
        let e = same_opt(&a.host_ip, &b.host_ip, same_ip)
            & same_opt(&a.protocol, &b.protocol, same_protocol)
            & same_range(&a.ranges.container(), &b.ranges.container())
            & same_opt(&a.ranges.host(), &b.ranges.host(), same_range);
        equal(&a, &b, e);
    }
    fn q_volume(f, g) {
        let (a, b) = (short_volume(f), short_volume(g));
        equal(&a, &b, same_volume(&a, &b));
    }
    fn q_items(n, m, form) {
        let list = |n: usize| -> Vec<String> { (0..n).map(|_| word(1)).collect() };
        let (a, b) = (list(n), list(m));
        let make = |v: &[String], item: bool| if item && v.len() == 1 { ItemOrList::Item(v[0].clone()) } else { ItemOrList::List(v.iter().cloned().collect()) };
        let (x, y) = (make(&a, form & 1 != 0), make(&b, form & 2 != 0));
        let within = |a: &[String], b: &[String]| a.iter().all(|s| b.iter().any(|t| same(s, t)));
        let e = matches!((&x, &y), (ItemOrList::Item(_), ItemOrList::Item(_)) | (ItemOrList::List(_), ItemOrList::List(_))) && within(&a, &b) && within(&b, &a);
        check((x == y) == e && (y == x) == e && (x != y) != e && x == x.clone(), "eq:items");
        reach("compared");
    }
    // Two documents of line `i`, one without, one with the next.
    // Extensions in either order: if that is equal, it hashes the same.
    fn q_order(k) {
        let (a, b) = (word(1), word(1));
        let key = |w: &str| ExtensionKey::new(format!("x-{w}")).unwrap();
        let (v, w) = (sym(8), sym(8));
        let mut e = Extensions::new();
        e.insert(key(&a), v.into());
        e.insert(key(&b), w.into());
        let mut f = Extensions::new();
        f.insert(key(&b), w.into());
        f.insert(key(&a), v.into());
        fn judge<T: PartialEq + Hash>(x: T, y: T) {
            let q = x == y;
            check((y == x) == q && (x != y) != q, "eq:both ways");
            check(!q | same_bytes(&hashed(&x), &hashed(&y)), "eq:equal values hash the same");
            reach("compared");
        }
        let target = || AbsolutePath::new("/t").unwrap();
        match k {
            0 => judge(Common { extensions: e, ..Common::new(target()) }, Common { extensions: f, ..Common::new(target()) }),
            1 => judge(VolumeOptions { extensions: e, ..Default::default() }, VolumeOptions { extensions: f, ..Default::default() }),
            2 => judge(BindOptions { extensions: e, ..Default::default() }, BindOptions { extensions: f, ..Default::default() }),
            3 => judge(TmpfsOptions { extensions: e, ..Default::default() }, TmpfsOptions { extensions: f, ..Default::default() }),
            _ => {
                let (mut p, mut q) = (Port::new(80), Port::new(80));
                p.extensions = e;
                q.extensions = f;
                judge(p, q);
            }
        }
    }
    // Two documents with many entries in one field, which differ in one of them.
    fn q_many(which, n) {
        let (k, t) = MANY[which];
        let at = if fork() { 0 } else if fork() { n / 2 } else { n - 1 };
        let t = many(t, n, at);
        let make = || {
            let (mut doc, mut out) = line(lines(k).0[0]);
            let (a, b) = line(&t);
            merge(&mut doc, &a);
            merge(&mut out, &b);
            (doc, out)
        };
        // Letters of the base are the same in both
        let ((a, out), (mut b, mut other)) = (make(), make());
        for (k, _) in line(lines(k).0[0]).0 {
            let v = a[&k].clone();
            b.insert(k.clone(), v.clone());
            if let Some(v) = out.get(&k).cloned() {
                other.insert(k, v);
            }
        }
        differ(k, a, b, &out, &other);
    }
    fn q_docs(k, from, n, how) {
        let k = KINDS[k];
        let (bases, ls) = lines(k);
        let b = pick(bases.len());
        let i = from + pick(n);
        if i >= ls.len() {
            return;
        }
        let j = match how {
            0 => i,
            1 => usize::MAX,
            _ => (i + 1) % ls.len(),
        };
        if let (Some((a, out, _)), Some((b, other, _))) = (compose_with(k, b, i, usize::MAX, 0), compose_with(k, b, j, usize::MAX, 0)) {
            differ(k, a, b, &out, &other);
        }
    }
}

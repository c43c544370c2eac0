//! Values made in code say what they were made of.
use crate::docs::{observe_yaml, same_yaml};
use crate::sx::*;
use crate::util::*;
use compose_spec::{
    config, secret,
    service::{
        self as s,
        build::{Cache, CacheOption, CacheType, Context, SshAuthId},
        deploy::resources::{Capability, Count, Cpus, Device as ReservedDevice},
        env_file,
        healthcheck::{self, Test},
        image::{Digest, Name as ImageName, Tag, TagOrDigest},
        network_config::{self, MacAddress, NetworkMode},
        blkio_config::Weight,
        ports::{into_long_iter, Mode, Port, Range, ShortPort, ShortRanges},
        user::{IdOrName, Name as UserName},
        volumes::{
            mount::{Bind, BindOptions, BindPropagation, Cluster, Common, NamedPipe, Tmpfs, Volume},
            AbsolutePath, HostPath, Mount, SELinux, ShortOptions, ShortVolume, Source,
        },
        ByteValue, ConfigOrSecret, EnvFile, Healthcheck, Image, Limit, NetworkConfig, Ulimit, User,
    },
    AsShort, Compose, Config, Identifier, Include, ItemOrList, ListOrMap, Network, Resource, Secret, Service, ShortOrLong,
};
use indexmap::{IndexMap, IndexSet};
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::{Mapping, Value as Yaml};
use std::path::PathBuf;

fn small() -> u8 {
    let c = sym(5) as u8;
    assume(c < 26);
    b'a' + c
}
fn word(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        v.push(small());
    }
    finish(v)
}
fn map<const N: usize>(of: [(&str, Yaml); N]) -> Yaml {
    Yaml::Mapping(of.into_iter().map(|(k, v)| (Yaml::from(k), v)).collect::<Mapping>())
}
fn list<T: Into<Yaml>, const N: usize>(of: [T; N]) -> Yaml {
    Yaml::Sequence(of.into_iter().map(Into::into).collect())
}
/// `v` is what `doc` reads as, and is written as `doc`.
fn says<T: DeserializeOwned + Serialize + PartialEq>(v: &T, doc: Yaml) {
    match serde_yaml::to_value(v) {
        Ok(w) => {
            observe_yaml(&w);
            check(same_yaml(&w, &doc), "made:written");
        }
        Err(_) => check(false, "made:written"),
    }
    match serde_yaml::from_value::<T>(doc) {
        Ok(r) => check(r == *v, "made:read"),
        Err(_) => check(false, "made:read"),
    }
    reach("made");
}
fn text(s: &str) -> Yaml {
    Yaml::from(s)
}
fn id(s: &str) -> Identifier {
    Identifier::new(s).unwrap()
}
fn target(p: &str) -> AbsolutePath {
    AbsolutePath::new(p).unwrap()
}
/// Exactly the form of mount that it is.
fn form(m: &Mount, kind: usize) {
    let is = [m.is_volume(), m.is_bind(), m.is_tmpfs(), m.is_named_pipe(), m.is_cluster()];
    let some = [m.as_volume().is_some(), m.as_bind().is_some(), m.as_tmpfs().is_some(), m.as_named_pipe().is_some(), m.as_cluster().is_some()];
    for i in 0..5 {
        check(is[i] == (i == kind) && some[i] == (i == kind), "made:mount type");
    }
}
fn sources(m: &Mount, want: Option<&str>) {
    match (m.source_to_string(), want) {
        (Some(a), Some(b)) => check(same(&a, b), "made:source"),
        (a, b) => check(a.is_none() && b.is_none(), "made:source"),
    }
}
fn empty<T: Default + DeserializeOwned + Serialize + PartialEq>() {
    says(&T::default(), Yaml::Mapping(Mapping::new()));
}

harness! {
    fn b_user(k, n) {
        let (a, b) = (sym(32) as u32, sym(32) as u32);
        let (x, y) = (word(n), word(n));
        let (w, v) = (UserName::new(x.as_str()).unwrap(), UserName::new(y.as_str()).unwrap());
        let (u, user, group): (User, IdOrName, Option<IdOrName>) = match k {
            0 => (a.into(), IdOrName::Id(a), None),
            1 => (w.clone().into(), IdOrName::Name(w), None),
            2 => ((a, b).into(), IdOrName::Id(a), Some(IdOrName::Id(b))),
            3 => ((a, v.clone()).into(), IdOrName::Id(a), Some(IdOrName::Name(v))),
            4 => ((w.clone(), b).into(), IdOrName::Name(w), Some(IdOrName::Id(b))),
            5 => ((w.clone(), v.clone()).into(), IdOrName::Name(w), Some(IdOrName::Name(v))),
            6 => (IdOrName::from(a).into(), IdOrName::Id(a), None),
            _ => ((IdOrName::from(w.clone()), IdOrName::from(b)).into(), IdOrName::Name(w), Some(IdOrName::Id(b))),
        };
        check(u.user == user && u.group == group, "made:user");
        match &u.user {
            IdOrName::Id(_) => check(u.user.is_id() && !u.user.is_name() && u.user.as_id() == Some(a) && u.user.as_name().is_none(), "made:user"),
            IdOrName::Name(_) => check(!u.user.is_id() && u.user.is_name() && u.user.as_id().is_none() && same(u.user.as_name().unwrap().as_str(), &x), "made:user"),
        }
        if k == 1 || k == 5 {
            let t = if k == 1 { x.clone() } else { format!("{x}:{y}") };
            check(same(&String::from(u.clone()), &t) && User::parse(t.as_str()).as_ref() == Ok(&u), "made:user text");
            says(&u, text(&t));
        }
        if k == 0 {
            assume((a < 300) | (a > u32::MAX - 300));
            says(&u, Yaml::from(format!("{a}")));
        }
        reach("made");
    }
    fn b_port(k) {
        let (n, h) = (sym(16) as u16, sym(16) as u16);
        match k {
            0 => {
                let p = Port::from(n);
                check(p == Port::new(n) && p.target == n, "made:port");
                says(&p, map([("target", n.into())]));
            }
            1 => {
                let p = ShortPort::from(n);
                check(p == ShortPort::new(ShortRanges::from(n)) && p == ShortPort::from(Range::from(n)) && p == ShortPort::from(ShortRanges::from(Range::from(n))), "made:short port");
                check(p.ranges.host().is_none() && p.ranges.container() == n && p.ranges.as_short() == Some(&Range::from(n)), "made:short port");
                says(&p, n.into());
                says(&p.ranges, n.into());
                says(&Range::from(n), n.into());
            }
            2 => {
                let r = ShortRanges::new(Some(h.into()), n.into()).unwrap();
                check(r.as_short().is_none() && ShortPort::from(r).ranges == r, "made:ranges");
                let mut i = ShortPort::from(r).into_long_iter();
                let mut p = Port::new(n);
                p.published = Some(h.into());
                check(i.next() == Some(p) && i.next().is_none(), "made:long port");
            }
            _ => {
                let all: IndexSet<ShortOrLong<ShortPort, Port>> = [ShortPort::from(n).into(), Port::new(h).into()].into_iter().collect();
                let long: Vec<Port> = into_long_iter(all).collect();
                check(long.len() == 2 && long[0] == Port::new(n) && long[1] == Port::new(h), "made:long ports");
            }
        }
        reach("made");
    }
    fn b_mount(k) {
        let (a, b) = (word(2), word(1));
        let (t, src) = (format!("/{a}"), format!("/{b}"));
        let c = Common::new(target(&t));
        check(c == Common::from(target(&t)) && !c.read_only && c.consistency.is_none() && c.extensions.is_empty(), "made:common");
        let ty = |n: &str| ("type", text(n));
        let at = || ("target", text(&t));
        let from = |s: &str| ("source", text(s));
        match k {
            0 => {
                let v = Volume::new(c.clone());
                check(v == Volume::from(c.clone()) && v.source.is_none() && v.volume.is_none(), "made:mount");
                let mut w = v.clone();
                w.source = Some(id(&b));
                let m = Mount::from(v);
                form(&m, 0);
                sources(&m, None);
                says(&m, map([ty("volume"), at()]));
                let m = Mount::from(w);
                sources(&m, Some(&b));
                says(&m, map([ty("volume"), from(&b), at()]));
            }
            1 => {
                let v = Bind::new(HostPath::new(&*src).unwrap(), c.clone());
                check(v == Bind::from((HostPath::new(&*src).unwrap(), c)) && v.bind.is_none(), "made:mount");
                let m = Mount::from(v);
                form(&m, 1);
                sources(&m, Some(&src));
                says(&m, map([ty("bind"), from(&src), at()]));
            }
            2 => {
                let v = Tmpfs::new(c.clone());
                check(v == Tmpfs::from(c) && v == Tmpfs::from_target(target(&t)) && v == Tmpfs::from(target(&t)) && v.tmpfs.is_none(), "made:mount");
                let m = Mount::from(v);
                form(&m, 2);
                sources(&m, None);
                says(&m, map([ty("tmpfs"), at()]));
            }
            3 => {
                let m = Mount::from(NamedPipe::from((HostPath::new(&*src).unwrap(), c)));
                form(&m, 3);
                sources(&m, Some(&src));
                says(&m, map([ty("npipe"), from(&src), at()]));
            }
            4 => {
                let m = Mount::from(Cluster::from((b.clone(), c)));
                form(&m, 4);
                sources(&m, Some(&b));
                says(&m, map([ty("cluster"), from(&b), at()]));
            }
            5 => {
                let p = [BindPropagation::Private, BindPropagation::Shared, BindPropagation::Slave, BindPropagation::Unbindable, BindPropagation::RPrivate, BindPropagation::RShared, BindPropagation::RSlave, BindPropagation::RUnbindable];
                let name = ["private", "shared", "slave", "unbindable", "rprivate", "rshared", "rslave", "runbindable"];
                let i = pick(8);
                check(same(p[i].as_str(), name[i]), "made:propagation");
                says(&BindOptions::from(p[i]), map([("propagation", text(name[i]))]));
                check(BindOptions::from(Some(p[i])) == BindOptions::from(p[i]) && BindOptions::from(None::<BindPropagation>) == BindOptions::default(), "made:options");
            }
            6 => {
                let shared = fork();
                let s = if shared { SELinux::Shared } else { SELinux::Private };
                says(&BindOptions::from(s), map([("selinux", text(if shared { "z" } else { "Z" }))]));
                check(BindOptions::from(Some(s)) == BindOptions::from(s) && BindOptions::from(None::<SELinux>) == BindOptions::default(), "made:options");
            }
            7 => {
                let v = ShortVolume::from(target(&t));
                check(v == ShortVolume::new(target(&t)) && v.options.is_none(), "made:short volume");
                says(&v, text(&t));
                says(&Mount::from(v), map([ty("volume"), at()]));
            }
            _ => {
                let named = fork();
                let s = if named { Source::from(id(&b)) } else if fork() { Source::from(HostPath::new(&*src).unwrap()) } else { Source::from(target(&src)) };
                let want = if named { &b } else { &src };
                check(same(&s.to_string(), want) && matches!(s, Source::Volume(_)) == named && matches!(s, Source::HostPath(_)) != named, "made:source");
                let o = ShortOptions::from(s.clone());
                check(o == ShortOptions::new(s) && !o.read_only && o.selinux.is_none(), "made:short options");
                let mut v = ShortVolume::new(target(&t));
                v.options = Some(o);
                says(&v, text(&format!("{want}:{t}")));
            }
        }
        reach("made");
    }
    fn b_files(k, n) {
        let (a, b) = (word(n), word(n));
        let p = PathBuf::from(&a);
        match k {
            0 => {
                let e = EnvFile::from(p.clone());
                check(e == EnvFile::from(a.clone()) && e.as_single() == Some(&p), "made:single");
                check(e.clone().into_list() == vec![ShortOrLong::Short(p.clone())], "made:list");
                says(&e, text(&a));
            }
            1 => {
                let e: EnvFile = [p.clone(), PathBuf::from(&b)].into_iter().collect();
                check(e.as_single().is_none(), "made:not single");
                check(e == EnvFile::from(vec![ShortOrLong::Short(p), ShortOrLong::Short(b.clone().into())]) && e.clone().into_list().len() == 2, "made:list");
                says(&e, list([text(&a), text(&b)]));
            }
            2 => {
                let c = env_file::Config::from(a.clone());
                check(c == env_file::Config::from(p.clone()) && c.required && c.as_short() == Some(&p), "made:short");
                says(&c, map([("path", text(&a))]));
                let mut d = c.clone();
                d.required = false;
                check(d.as_short().is_none(), "made:long");
                let e: EnvFile = [d].into_iter().collect();
                check(e.as_single().is_none(), "made:not single");
                let e: EnvFile = [c].into_iter().collect();
                check(e.as_single() == Some(&p), "made:single");
            }
            3 => {
                let i = Include::from(p.clone());
                check(i.as_short() == Some(&p), "made:short");
                says(&i, map([("path", text(&a))]));
                let l: ShortOrLong<PathBuf, Include> = p.into();
                check(l.is_short() && l.clone().into_long() == i && ShortOrLong::<PathBuf, Include>::from(a.clone()) == l, "made:include");
                says(&l, text(&a));
                let l: ShortOrLong<PathBuf, Include> = i.clone().into();
                check(l.is_long() && l.as_long() == Some(&i) && l.into_long() == i, "made:include");
            }
            4 => {
                let c = ConfigOrSecret::from(id(&a));
                check(c.as_short() == Some(&id(&a)), "made:short");
                says(&c, map([("source", text(&a))]));
                let l: ShortOrLong<Identifier, ConfigOrSecret> = id(&a).into();
                check(l.is_short() && l.clone().into_long() == c, "made:use");
                says(&l, text(&a));
            }
            5 => {
                let c = s::Build::from(Context::from(p.clone()));
                check(c.as_short() == Some(&Context::Path(p.clone())), "made:short");
                says(&c, map([("context", text(&a))]));
                let l: ShortOrLong<Context, s::Build> = Context::Path(p).into();
                check(l.is_short() && l.clone().into_long() == c, "made:build");
                says(&l, text(&a));
            }
            6 => {
                let c = config::Source::from(p);
                says(&Config::from(c.clone()), map([("file", text(&a))]));
                says(&Resource::from(Config::from(c)), map([("file", text(&a))]));
                says(&Config::from(config::Source::Environment(b.clone())), map([("environment", text(&b))]));
                says(&Config::from(config::Source::Content(b.clone())), map([("content", text(&b))]));
            }
            7 => {
                let c = secret::Source::from(p);
                says(&Secret::from(c.clone()), map([("file", text(&a))]));
                says(&Resource::from(Secret::from(c)), map([("file", text(&a))]));
                says(&Secret::from(secret::Source::Environment(b.clone())), map([("environment", text(&b))]));
            }
            _ => {
                let x = SshAuthId::new(&a, &b).unwrap();
                check(same(x.id(), &a) && same(x.path().to_str().unwrap(), &b), "made:ssh");
                check(SshAuthId::new("", &b).is_err() && SshAuthId::new(&a, "").is_err(), "made:ssh");
                check(same(&x.to_string(), &format!("{a}={b}")), "made:ssh");
            }
        }
        reach("made");
    }
    fn b_limits(k) {
        let (a, b) = (sym(64), sym(64));
        match k {
            0 => {
                let u = Ulimit::from(a);
                check(u == Ulimit::from(Limit::Value(a)) && u.as_short() == Some(&Limit::Value(a)), "made:ulimit");
                assume(a <= i64::MAX as u64);
                says(&u, map([("soft", a.into()), ("hard", a.into())]));
                let l: ShortOrLong<Limit<u64>, Ulimit> = a.into();
                check(l.is_short() && l.clone().into_long() == u && l == Limit::Value(a).into(), "made:ulimit");
                says(&l, a.into());
            }
            1 => {
                let mut u = Ulimit::from(Limit::Unlimited);
                says(&u, map([("soft", (-1).into()), ("hard", (-1).into())]));
                check(u.as_short() == Some(&Limit::Unlimited), "made:ulimit");
                u.soft = a.into();
                check(u.as_short().is_none(), "made:ulimit");
                u.hard = b.into();
                check(u.as_short().is_some() == (a == b), "made:ulimit");
            }
            2 => {
                check(Limit::from(a) == Limit::Value(a) && Limit::from(a as u32) == Limit::Value(a as u32), "made:limit");
                check(Limit::from(ByteValue::Bytes(a)) == Limit::Value(ByteValue::Bytes(a)), "made:limit");
                check(Count::from(a) == Count::Integer(a) && ByteValue::default() == ByteValue::Bytes(0), "made:count");
            }
            3 => {
                let (x, y, z) = (a as u32, b as u16, b as u8);
                check(Cpus::from(x) == f64::from(x) && Cpus::from(y) == f64::from(y) && Cpus::from(z) == f64::from(z), "made:cpus");
                check(f64::from(Cpus::from(x)) == f64::from(x) && Cpus::from(y) == Cpus::from(u32::from(y)), "made:cpus");
            }
            _ => {
                let o = a.to_be_bytes();
                let m = [o[0], o[1], o[2], o[3], o[4], o[5]];
                let x = MacAddress::from(m);
                check(x == MacAddress(m) && <[u8; 6]>::from(x) == m && x.as_ref() == m, "made:mac");
            }
        }
        reach("made");
    }
    fn b_image(k, n) {
        let (a, b) = (word(n), word(n));
        let name = ImageName::new(&a).unwrap();
        let tag = Tag::new(&b).unwrap();
        let hash = format!("sha:{b}");
        let digest = Digest::new(&hash).unwrap();
        let (t, d) = (TagOrDigest::from(tag), TagOrDigest::from(digest));
        check(t.into_tag() == Some(tag) && t.into_digest().is_none() && t.separator() == ':' && same(t.as_ref(), &b), "made:tag");
        check(d.into_digest() == Some(digest) && d.into_tag().is_none() && d.separator() == '@' && same(d.as_ref(), &hash), "made:digest");
        let (i, text, part) = match k {
            0 => (Image::from(name), a.clone(), None),
            1 => (Image::from((name, t)), format!("{a}:{b}"), Some(t)),
            2 => (Image::from((name, d)), format!("{a}@{hash}"), Some(d)),
            3 => (Image::from((name, Some(t))), format!("{a}:{b}"), Some(t)),
            4 => (Image::from((name, Some(d))), format!("{a}@{hash}"), Some(d)),
            _ => (Image::from((name, None)), a.clone(), None),
        };
        check(same(i.as_str(), &text) && Image::parse(text.as_str()).as_ref() == Ok(&i), "made:image");
        let (x, y): (ImageName, Option<TagOrDigest>) = (&i).into();
        check(x == name && y == part && i.as_parts() == (name, part) && i.as_tag_or_digest() == part, "made:parts");
        check(i.as_tag() == part.and_then(|p| p.into_tag()) && i.as_digest() == part.and_then(|p| p.into_digest()), "made:parts");
        let c = Cache::from_image(i.clone());
        check(c.cache_type == CacheType::Registry(i.clone()) && c.options.is_empty() && c == Cache::from(CacheType::from(i.clone())), "made:cache");
        says(&c, Yaml::from(text.as_str()));
        check(Cache::parse(format!("type=registry,ref={text}").as_str()).as_ref() == Ok(&c) && c == Cache::from(i.clone()), "made:cache");
        let o = c.into_options();
        let key = |s: &str| CacheOption::new(s).unwrap();
        check(o.len() == 2 && o.get_index(0) == Some((&key("type"), &key("registry"))) && o.get_index(1) == Some((&key("ref"), &key(&text))), "made:cache options");
        says(&i, Yaml::from(text.as_str()));
    }
    // Options of a cache, which may name what its type says.
    fn b_cache(k, n, first, second) {
        let (a, b, d) = (word(n), word(n), word(1));
        let key = |s: &str| CacheOption::new(s).unwrap();
        let name = |i: usize| ["type", "ref", d.as_str()][i];
        let mut c = if k == 0 { Cache::from_image(Image::parse(a.as_str()).unwrap()) } else { Cache::from(CacheType::Other(key(&a))) };
        c.options.insert(key(name(first)), key(&b));
        if second < 3 {
            c.options.insert(key(name(second)), key("z"));
        }
        let kept = c.options.clone();
        let mut want = IndexMap::new();
        want.insert(key("type"), if k == 0 { key("registry") } else { key(&a) });
        if k == 0 {
            want.insert(key("ref"), key(&a));
        }
        for (l, v) in kept {
            want.entry(l).or_insert(v);
        }
        let o = c.into_options();
        check(o.len() == want.len() && o.iter().zip(&want).all(|(x, y)| x == y), "made:cache options");
        reach("made");
    }
    // What a value is turned into says the same.
    fn b_into(k, n) {
        let (a, b) = (word(n), word(n));
        let (p, q) = (PathBuf::from(format!("/{a}")), PathBuf::from(format!("./{b}")));
        match k {
            0 => {
                let v = sym(16) as u16;
                let m = sym(16) as u16;
                if let (Ok(w), Some(z)) = (Weight::new(v), std::num::NonZeroU16::new(m)) {
                    check(u16::from(w) == v && w.into_inner().get() == v && std::num::NonZeroU16::from(w).get() == v, "into:weight");
                    check((w == z) == (v == m), "into:weight");
                }
                if let Ok(o) = s::OomScoreAdj::new(v as i16) {
                    check(i16::from(o) == v as i16, "into:score");
                }
                if let Ok(o) = s::Percent::new(v as u8) {
                    check(u8::from(o) == v as u8, "into:percent");
                }
            }
            1 => {
                let t = format!("{a}:{b}");
                let i = Image::parse(t.as_str()).unwrap();
                let r: &str = i.as_ref();
                check(same(r, &t) && same(&i.to_string(), &t) && same(&String::from(i.clone()), &t) && same(&i.into_inner(), &t), "into:image");
            }
            2 => {
                let x = AbsolutePath::new(p.clone()).unwrap();
                let (l, m): (&PathBuf, &std::path::Path) = (x.as_ref(), x.as_ref());
                check(l == &p && m == p.as_path() && x.as_path() == p.as_path() && x.as_inner() == &p && PathBuf::from(x.clone()) == p && *Box::<std::path::Path>::from(x.clone()) == *p && x.into_inner() == p, "into:path");
                let x = HostPath::new(q.clone()).unwrap();
                let (l, m): (&PathBuf, &std::path::Path) = (x.as_ref(), x.as_ref());
                check(l == &q && m == q.as_path() && x.as_inner() == &q && PathBuf::from(x.clone()) == q && *Box::<std::path::Path>::from(x.clone()) == *q && x.into_inner() == q, "into:path");
            }
            3 => {
                let w = if fork() { p } else if fork() { q } else { PathBuf::from(&a) };
                let h = HostPath::new(w.clone()).ok().map(Source::HostPath);
                check(h.is_some() == !w.starts_with(&a), "into:source accepted");
                check(Source::try_from(w.as_path()).ok() == h && Source::try_from(w.clone().into_boxed_path()).ok() == h && Source::try_from(std::borrow::Cow::from(w.as_path())).ok() == h && Source::try_from(w).ok() == h, "into:source");
            }
            4 => {
                let (v, w) = (sym(16) as u16, sym(16) as u16);
                let r = Range::from(v);
                check(s::Expose::from(r) == s::Expose::from(v) && s::Expose::from(v).protocol.is_none(), "into:expose");
                check(Range::try_from((v, w)).is_ok() == (v <= w) && Range::try_from(v..=w).ok() == Range::new(v, Some(w)).ok() && Range::try_from((v, Some(w))).ok() == Range::new(v, Some(w)).ok() && Range::try_from((v, None)) == Ok(r), "into:range");
                let t = ["1", "7-9/udp", "x"][pick(3)];
                check(s::Expose::try_from(t).ok() == t.parse().ok() && ShortRanges::try_from(t).ok() == t.parse().ok() && ShortPort::try_from(t).ok() == t.parse().ok() && Range::try_from(t).ok() == t.parse().ok(), "into:from text");
            }
            5 => {
                let c = Context::Path(p.clone());
                check(Context::from(p.as_path()) == c && Context::from(std::borrow::Cow::from(p.as_path())) == c && c.as_path() == Some(&p) && c.as_url().is_none(), "into:context");
                check(c.into_string().ok().is_some_and(|t| same(&t, p.to_str().unwrap())), "into:context");
                let c = Context::from("https://a.b/c.git");
                let u = c.as_url().unwrap().clone();
                check(Context::from(u) == c && c.as_path().is_none(), "into:context");
                check(Context::default().as_path() == Some(&PathBuf::from(".")), "into:context");
            }
            6 => {
                for (v, c) in [(s::device::Kind::All, 'a'), (s::device::Kind::Char, 'c'), (s::device::Kind::Block, 'b')] {
                    check(char::from(v) == c && v.as_char() == c && v.to_string().chars().eq([c]), "into:kind");
                }
                for (v, t) in [(Mode::Host, "host"), (Mode::Ingress, "ingress")] {
                    let r: &str = v.as_ref();
                    check(v.as_str() == t && r == t && v.to_string() == t, "into:mode");
                    says(&v, text(t));
                }
            }
            7 => {
                let all = [NetworkMode::None, NetworkMode::Host, NetworkMode::Service(id(&a)), NetworkMode::Container(id(&a)), NetworkMode::Other(a.clone())];
                let t = ["none".to_owned(), "host".to_owned(), format!("service:{a}"), format!("container:{a}"), a.clone()];
                let i = pick(5);
                let m = &all[i];
                check([m.is_none(), m.is_host(), m.is_service(), m.is_container(), m.is_other()] == [i == 0, i == 1, i == 2, i == 3, i == 4], "into:network mode");
                check(m.as_service() == (i == 2).then(|| id(&a)).as_ref() && m.as_container() == (i == 3).then(|| id(&a)).as_ref() && m.as_other() == (i == 4).then(|| a.clone()).as_ref(), "into:network mode");
                check(same(&m.to_string(), &t[i]) && same(&String::from(m.clone()), &t[i]) && same(&std::borrow::Cow::from(m.clone()), &t[i]), "into:network mode");
            }
            8 => {
                let none = fork();
                let m = if none { s::build::Network::None } else { s::build::Network::Identifier(id(&a)) };
                let t = if none { "none" } else { a.as_str() };
                let r: &str = m.as_ref();
                check(m.is_none() == none && same(m.as_str(), t) && same(r, t) && same(&m.to_string(), t), "into:network");
                check(same(&String::from(m.clone()), t) && same(&std::borrow::Cow::from(m.clone()), t) && m.into_option() == (!none).then(|| id(&a)), "into:network");
            }
            9 => {
                let l = if fork() { Some(b.clone()) } else { None };
                let t = match &l { Some(_) => format!("{a}:{b}"), None => a.clone() };
                let l = s::Link { service: id(&a), alias: l };
                check(same(&l.to_string(), &t) && same(&String::from(l), &t), "into:link");
                let e: Option<String> = if fork() { Some(b.clone()) } else { None };
                check(Resource::<Network>::external(e.clone()) == Resource::External { name: e }, "into:external");
            }
            10 => {
                let u = Ulimit::from(5);
                check((&&u).as_short() == u.as_short(), "into:short");
                check(u.as_short() == Some(&Limit::Value(5)), "into:short");
            }
            _ => {
                let (v, w) = (sym(7) + 1, (sym(7) as i64) - 128);
                let (x, y) = (compose_spec::Number::from(v), compose_spec::Number::from(w));
                check(same(&format!("{x:e}"), &format!("{v:e}")) && same(&format!("{y:E}"), &format!("{w:E}")) && same(&format!("{x:E}"), &format!("{v:E}")) && same(&format!("{y:e}"), &format!("{w:e}")), "into:exponent");
                let f = [1.5, -0.25, 1e30][pick(3)];
                let z = compose_spec::Number::from(f);
                check(format!("{z:e}") == format!("{f:e}") && format!("{z:E}") == format!("{f:E}"), "into:exponent");
            }
        }
        reach("made");
    }
    fn b_health(k, n) {
        let (a, b) = (word(n), word(n));
        match k {
            0 => {
                check(Healthcheck::default() == Healthcheck::Command(healthcheck::Command::default()), "made:health");
                says(&Healthcheck::default(), map([]));
                says(&Healthcheck::Disable, map([("disable", true.into())]));
            }
            1 => {
                let mut c = healthcheck::Command::default();
                check(c.is_empty(), "made:empty");
                c.test = Some(Test::from(vec![a.clone(), b.clone()]));
                check(!c.is_empty(), "made:empty");
                says(&Healthcheck::from(c), map([("test", list([text("CMD"), text(&a), text(&b)]))]));
            }
            _ => {
                let mut c = healthcheck::Command::default();
                c.test = Some(Test::from(a.clone()));
                says(&Healthcheck::from(c), map([("test", text(&a))]));
            }
        }
        reach("made");
    }
    fn b_items(k, n) {
        let (a, b) = (word(n), word(n));
        let set = || -> IndexSet<String> { [a.clone(), b.clone()].into_iter().collect() };
        match k {
            0 => {
                let i = ItemOrList::from(a.clone());
                check(i.as_item() == Some(&a) && i.as_list().is_none() && i.clone().into_list().len() == 1, "made:item");
                says(&i, text(&a));
                let s = IndexSet::from(i);
                check(s.len() == 1 && s[0] == a, "made:item");
            }
            1 => {
                let i = ItemOrList::from(set());
                check(i.as_list() == Some(&set()) && i.as_item().is_some() == same(&a, &b), "made:items");
                check(i.clone().into_list() == set() && IndexSet::from(i.clone()) == set(), "made:items");
                if !same(&a, &b) {
                    says(&i, list([text(&a), text(&b)]));
                }
            }
            2 => {
                let ids: IndexSet<Identifier> = [id(&a), id(&b)].into_iter().collect();
                let one = same(&a, &b);
                let l: network_config::Networks = ids.clone().into();
                check(l.is_short() && l.clone().into_long().len() == ids.len(), "made:keys");
                let m = l.clone().into_long();
                check(m.iter().zip(&ids).all(|((k, v), i)| k == i && v.is_none()), "made:keys");
                if !one {
                    says(&NetworkConfig::from(l), map([("networks", list([text(&a), text(&b)]))]));
                    says(&NetworkConfig::from(network_config::Networks::from(m)), map([("networks", map([(&*a, Yaml::Null), (&*b, Yaml::Null)]))]));
                }
            }
            3 => {
                says(&NetworkConfig::from(NetworkMode::Service(id(&a))), map([("network_mode", Yaml::from(format!("service:{a}")))]));
                says(&NetworkConfig::from(NetworkMode::None), map([("network_mode", text("none"))]));
            }
            4 => {
                let l = ListOrMap::default();
                check(l.is_empty() && l.as_map().is_none(), "made:list");
                let d = ReservedDevice::new([Capability::Gpu, Capability::parse(a.as_str())]);
                if !same(&a, "gpu") {
                    says(&d, map([("capabilities", list([text("gpu"), text(&a)]))]));
                }
            }
            _ => {
                let mut net = Network::default();
                net.name = Some(a.clone());
                let r = Resource::from(net);
                check(r.name() == Some(&a), "made:name");
                says(&r, map([("name", text(&a))]));
                let e: Resource<Network> = Resource::External { name: Some(b.clone()) };
                check(e.name() == Some(&b), "made:name");
                says(&e, map([("external", true.into()), ("name", text(&b))]));
                let mut v = compose_spec::Volume::default();
                check(Resource::from(v.clone()).name().is_none(), "made:name");
                v.name = Some(b.clone());
                let r = Resource::from(v);
                check(r.name() == Some(&b), "made:name");
                says(&r, map([("name", text(&b))]));
            }
        }
        reach("made");
    }
    fn b_default(k) {
        match k {
            0 => empty::<Service>(),
            1 => empty::<s::Build>(),
            2 => empty::<s::Deploy>(),
            3 => empty::<s::deploy::Placement>(),
            4 => empty::<s::deploy::RestartPolicy>(),
            5 => empty::<s::deploy::UpdateOrRollbackConfig>(),
            6 => empty::<s::deploy::Resources>(),
            7 => empty::<s::deploy::resources::Limits>(),
            8 => empty::<s::deploy::resources::Reservations>(),
            9 => empty::<Network>(),
            10 => empty::<compose_spec::Volume>(),
            11 => empty::<compose_spec::network::Ipam>(),
            12 => empty::<compose_spec::network::IpamConfig>(),
            13 => empty::<s::BlkioConfig>(),
            14 => empty::<s::Logging>(),
            15 => empty::<network_config::Network>(),
            16 => empty::<s::volumes::mount::VolumeOptions>(),
            17 => empty::<BindOptions>(),
            18 => empty::<s::volumes::mount::TmpfsOptions>(),
            19 => empty::<Healthcheck>(),
            20 => {
                let c = Compose::default();
                check(c.services.is_empty() && c.validate_all().is_ok(), "made:compose");
                says(&c, map([("services", map([]))]));
            }
            21 => {
                let a = word(2);
                let mut c = Compose::default();
                let mut v = Service::default();
                v.image = Some(Image::parse(a.as_str()).unwrap());
                c.services.insert(id(&a), v);
                says(&c, map([("services", map([(&*a, map([("image", text(&a))]))]))]));
            }
            _ => {
                let d: ShortOrLong<IndexSet<Identifier>, IndexMap<Identifier, s::Dependency>> = ShortOrLong::default();
                check(d.is_short() && d.into_long().is_empty(), "made:default");
                check(s::Dependency::default().required && !s::Dependency::default().restart, "made:dependency");
            }
        }
        reach("made");
    }
}

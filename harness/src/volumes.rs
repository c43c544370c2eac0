//! Volume mounts: short and long syntax, host and container paths.
use crate::{names, sx::*, util::*};
use compose_spec::{
    service::{
        volumes::{
            self,
            mount::{Bind, BindOptions, BindPropagation, Cluster, Common, Mount, NamedPipe, Tmpfs, TmpfsOptions, Volume, VolumeOptions},
            AbsolutePath, HostPath, SELinux, ShortOptions, ShortVolume, Source,
        },
        ByteValue, Volumes,
    },
    ExtensionKey, Extensions, Identifier, ShortOrLong,
};
use serde_yaml::Value;
use std::{
    borrow::Cow,
    path::{Path, PathBuf},
};

pub fn absolute(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && b[0] == b'/'
}
/// Starts with `/`, or its first component is `.` or `..`.
pub fn host(s: &str) -> bool {
    let b = s.as_bytes();
    let at = |i: usize| if i < b.len() { b[i] } else { b'/' };
    !b.is_empty() && ((b[0] == b'/') | ((b[0] == b'.') & ((at(1) == b'/') | ((at(1) == b'.') & (at(2) == b'/')))))
}
fn path_text(p: &Path) -> &str {
    p.to_str().unwrap_or("?")
}
/// (accepted, source, container, read only, selinux)
fn short_oracle(s: &str) -> Option<(Option<&str>, &str, bool, Option<SELinux>)> {
    let Some(i) = s.find(':') else {
        return absolute(s).then_some((None, s, false, None));
    };
    let (src, rest) = (&s[..i], &s[i + 1..]);
    let (cont, opts) = match rest.find(':') {
        Some(j) => (&rest[..j], Some(&rest[j + 1..])),
        None => (rest, None),
    };
    let pathlike = !src.is_empty() && (src.as_bytes()[0] == b'/' || src.as_bytes()[0] == b'.');
    if !absolute(cont) || !(if pathlike { host(src) } else { names::identifier(src) }) {
        return None;
    }
    let (mut mode, mut se) = (None, None);
    if let Some(o) = opts {
        let mut at = 0;
        loop {
            let end = o[at..].find(',').map_or(o.len(), |x| at + x);
            match &o[at..end] {
                "ro" if mode.is_none() => mode = Some(true),
                "rw" if mode.is_none() => mode = Some(false),
                "z" if se.is_none() => se = Some(SELinux::Shared),
                "Z" if se.is_none() => se = Some(SELinux::Private),
                _ => return None,
            }
            if end == o.len() {
                break;
            }
            at = end + 1;
        }
    }
    Some((Some(src), cont, mode.unwrap_or(false), se))
}
fn short_text(s: String) {
    let r = s.parse::<ShortVolume>();
    let y: Result<ShortVolume, _> = read(Value::String(s.clone()));
    check(y.is_ok() == r.is_ok(), "deserialize agrees");
    let want = short_oracle(&s);
    check(r.is_ok() == want.is_some(), "short volume accepted");
    if let (Ok(v), Some((src, cont, ro, se))) = (r, want) {
        reach("accepted");
        check(same(path_text(v.container_path.as_path()), cont), "container path");
        let mut text = String::new();
        match (&v.options, src) {
            (None, None) => {}
            (Some(o), Some(src)) => {
                reach("source");
                let b = src.as_bytes();
                let is_path = b[0] == b'/' || b[0] == b'.';
                match &o.source {
                    Source::HostPath(p) => check(is_path && same(path_text(p.as_path()), src), "host path"),
                    Source::Volume(n) => check(!is_path && same(n.as_str(), src), "volume name"),
                }
                check(o.read_only == ro, "read only");
                check(o.selinux == se, "selinux");
                if ro || se.is_some() {
                    reach("options");
                }
                text.push_str(src);
                text.push(':');
            }
            _ => check(false, "source present"),
        }
        text.push_str(cont);
        text.push_str(match (ro, se) {
            (false, None) => "",
            (true, None) => ":ro",
            (false, Some(SELinux::Shared)) => ":z",
            (false, Some(SELinux::Private)) => ":Z",
            (true, Some(SELinux::Shared)) => ":ro,z",
            (true, Some(SELinux::Private)) => ":ro,Z",
        });
        check(same(&v.to_string(), &text), "printed text");
        short_round(&v);
        check(y.unwrap() == v, "deserialized value");
    }
}
fn short_round(v: &ShortVolume) {
    let t = v.to_string();
    check(t.parse::<ShortVolume>().as_ref() == Ok(v), "printed volume parses back");
    match serde_yaml::to_value(v) {
        Ok(y) => {
            check(y.as_str().is_some_and(|x| same(x, &t)), "serialized as printed");
            check(read::<ShortVolume>(y).ok().as_ref() == Some(v), "deserialized equal");
        }
        Err(_) => check(false, "serializes"),
    }
}
fn ext(on: bool) -> Extensions {
    let mut e = Extensions::new();
    if on {
        e.insert(ExtensionKey::new("x-a").unwrap(), Value::Number((sym(7)).into()));
    }
    e
}
/// A host path: absolute, `./..`, `../..`
fn some_host(k: usize) -> HostPath {
    let mut s = String::from(["/", "./", "../", "."][k]);
    if k < 3 {
        let c = sym(7) as u8;
        assume(c != b':');
        s.push(c as char);
    }
    HostPath::new(s).unwrap()
}
fn some_target() -> AbsolutePath {
    let c = sym(7) as u8;
    assume(c != b':');
    AbsolutePath::new(format!("/{}", c as char)).unwrap()
}
fn some_name() -> Identifier {
    let c = sym(7) as u8;
    assume(alnum(c));
    Identifier::new(format!("v{}", c as char)).unwrap()
}
fn some_short(k: usize) -> ShortVolume {
    let mut v = ShortVolume::new(some_target());
    if k > 0 {
        let mut o = ShortOptions::new(match k {
            1 => Source::Volume(some_name()),
            _ => Source::HostPath(some_host(k - 2)),
        });
        o.read_only = fork();
        if !matches!(o.source, Source::Volume(_)) {
            o.selinux = [None, Some(SELinux::Shared), Some(SELinux::Private)][pick(3)];
        }
        v.options = Some(o);
    }
    v
}
fn common(flags: usize) -> Common {
    let mut c = Common::new(some_target());
    c.read_only = flags & 1 != 0;
    c.consistency = (flags & 2 != 0).then(|| ascii(1));
    c.extensions = ext(flags & 4 != 0);
    c
}
const PROPAGATION: [BindPropagation; 8] = [
    BindPropagation::Private, BindPropagation::Shared, BindPropagation::Slave, BindPropagation::Unbindable,
    BindPropagation::RPrivate, BindPropagation::RShared, BindPropagation::RSlave, BindPropagation::RUnbindable,
];
/// flags: 1, 2, 4 common; 8.. specific to the type.
fn mount(kind: usize, flags: usize) -> Mount {
    let c = common(flags);
    match kind {
        0 => Mount::Volume(Volume {
            source: (flags & 8 != 0).then(some_name),
            volume: (flags & 16 != 0).then(|| VolumeOptions { nocopy: flags & 32 != 0, subpath: (flags & 64 != 0).then(|| PathBuf::from(ascii(1))), extensions: ext(flags & 128 != 0) }),
            common: c,
        }),
        1 => Mount::Bind(Bind {
            source: some_host(pick(4)),
            bind: (flags & 8 != 0).then(|| BindOptions {
                propagation: (flags & 16 != 0).then(|| PROPAGATION[pick(8)]),
                create_host_path: flags & 32 != 0,
                selinux: (flags & 64 != 0).then(|| if fork() { SELinux::Shared } else { SELinux::Private }),
                extensions: ext(flags & 128 != 0),
            }),
            common: c,
        }),
        2 => Mount::Tmpfs(Tmpfs {
            tmpfs: (flags & 8 != 0).then(|| TmpfsOptions {
                size: (flags & 16 != 0).then(|| ByteValue::Megabytes(sym(4))),
                mode: (flags & 32 != 0).then(|| sym(32) as u32),
                extensions: ext(flags & 64 != 0),
            }),
            common: c,
        }),
        3 => Mount::NamedPipe(NamedPipe { source: some_host(pick(4)), common: c }),
        _ => Mount::Cluster(Cluster { source: ascii(2), common: c }),
    }
}
/// What the short syntax of a mount must say, if there is one. `None`: not judged.
fn short_exists(m: &Mount) -> Option<bool> {
    let plain = |c: &Common| c.consistency.is_none() && c.extensions.is_empty();
    match m {
        Mount::Volume(v) => Some(
            plain(&v.common) && v.volume.as_ref().map_or(true, |o| !o.nocopy && o.subpath.is_none() && o.extensions.is_empty()) && (v.source.is_some() || !v.common.read_only),
        ),
        Mount::Bind(b) => match &b.bind {
            None if plain(&b.common) => None,
            None => Some(false),
            Some(o) => Some(plain(&b.common) && o.propagation.is_none() && o.create_host_path && o.extensions.is_empty()),
        },
        _ => Some(false),
    }
}
fn mount_short(m: Mount) {
    let want = short_exists(&m);
    match m.clone().into_short() {
        Ok(s) => {
            reach("short");
            check(want != Some(false), "short form loses something");
            let long = s.clone().into_long();
            check(long.common() == m.common(), "target and read-only kept");
            check(long.source_to_string() == m.source_to_string(), "source kept");
            check(long.kind() == m.kind(), "type kept");
            if let (Mount::Bind(a), Mount::Bind(b)) = (&long, &m) {
                check(a.source == b.source, "host path kept");
                if b.bind.is_some() {
                    check(a.bind == b.bind, "bind options kept");
                }
            }
            if let (Mount::Volume(a), Mount::Volume(b)) = (&long, &m) {
                check(a.source == b.source, "volume name kept");
            }
            short_round(&s);
            check(long.into_short() == Ok(s), "long and short alternate");
        }
        Err(e) => {
            reach("long");
            check(want != Some(true), "short form refused");
            check(e == m, "returned unchanged");
        }
    }
}
fn mount_round(m: Mount, kind: usize) {
    let t = ["volume", "bind", "tmpfs", "npipe", "cluster"][kind];
    check(m.kind() == t, "kind");
    check(m.is_volume() == (kind == 0) && m.is_bind() == (kind == 1) && m.is_tmpfs() == (kind == 2) && m.is_named_pipe() == (kind == 3) && m.is_cluster() == (kind == 4), "is");
    check(m.as_volume().is_some() == (kind == 0) && m.as_bind().is_some() == (kind == 1) && m.as_tmpfs().is_some() == (kind == 2) && m.as_named_pipe().is_some() == (kind == 3) && m.as_cluster().is_some() == (kind == 4), "as");
    match serde_yaml::to_value(&m) {
        Ok(v) => {
            check(v.get("type").and_then(Value::as_str) == Some(t), "type serialized");
            check(v.get("target").and_then(Value::as_str) == m.common().target.as_path().to_str(), "target serialized");
            check(v.get("source").and_then(Value::as_str) == m.source_to_string().as_deref(), "source serialized");
            check(v.get("read_only").map_or(false, |v| v.as_bool() == Some(true)) == m.common().read_only, "read_only serialized");
            match read::<Mount>(v.clone()) {
                Ok(n) => check(n == m, "deserialized equal"),
                Err(_) => check(false, "deserializes back"),
            }
            let s: Result<ShortOrLong<ShortVolume, Mount>, _> = read(v.clone());
            check(matches!(s, Ok(ShortOrLong::Long(n)) if n == m), "deserialized as long");
            // another type or an unknown option
            let mut w = v.clone();
            w.as_mapping_mut().unwrap().insert("type".into(), "other".into());
            check(read::<Mount>(w).is_err(), "unknown type rejected");
            let mut w = v;
            w.as_mapping_mut().unwrap().insert("other".into(), "x".into());
            check(read::<Mount>(w).is_err(), "unknown option rejected");
        }
        Err(_) => check(false, "serializes"),
    }
    reach("round");
}
fn host_ok(p: &HostPath) -> bool {
    host(path_text(p.as_path()))
}
/// Number of components, counted on the text of a path starting with `/`, `.` or `..`
fn parent_text(s: &str) -> Option<&str> {
    // trailing slashes and `/.` do not count
    let b = s.as_bytes();
    let mut n = b.len();
    loop {
        if n > 1 && b[n - 1] == b'/' {
            n -= 1;
        } else if n > 2 && b[n - 1] == b'.' && b[n - 2] == b'/' {
            n -= 2;
            if n == 0 {
                n = 1;
            }
        } else {
            break;
        }
    }
    let s = &s[..n];
    if s == "/" || s == "/." {
        return None;
    }
    match s.rfind('/') {
        Some(0) => Some("/"),
        Some(i) => Some(&s[..i]),
        None => Some(""),
    }
}

harness! {
    fn v_short_text(n, mb) {
        short_text(text(n, mb))
    }
    // source given, then symbolic text
    fn v_short_after(k, n) {
        let mut s = String::from(["a:/b:", "/a:/b:", "./a:/b:", "..:/b:", "a:", "./:", "/:/:", ":"][k]);
        s.push_str(&ascii(n));
        short_text(s)
    }
    // up to four options from those that exist and some that do not
    fn v_short_options(k, n) {
        let mut s = String::from(["a:/b", "/a:/b", "./a:/b"][k]);
        let mut i = 0;
        while i < n {
            s.push(if i == 0 { ':' } else { ',' });
            s.push_str(["rw", "ro", "z", "Z", "", "r", "RO", "zZ"][pick(8)]);
            i += 1;
        }
        short_text(s)
    }
    fn v_short_to_long(k) {
        let s = some_short(k);
        let m = s.clone().into_long();
        check(Mount::from(s.clone()) == m, "From agrees");
        check(m.common().target == s.container_path, "target");
        check(m.common().consistency.is_none() && m.common().extensions.is_empty(), "nothing else set");
        match (&s.options, &m) {
            (None, Mount::Volume(v)) => check(v.source.is_none() && v.volume.is_none() && !v.common.read_only, "anonymous volume"),
            (Some(ShortOptions { source: Source::Volume(n), read_only, .. }), Mount::Volume(v)) => {
                check(v.source.as_ref() == Some(n) && v.common.read_only == *read_only && v.volume.is_none(), "named volume");
            }
            (Some(ShortOptions { source: Source::HostPath(p), read_only, selinux }), Mount::Bind(b)) => {
                check(b.source == *p && b.common.read_only == *read_only, "bind");
                check(b.bind.as_ref().is_some_and(|o| o.create_host_path && o.selinux == *selinux && o.propagation.is_none() && o.extensions.is_empty()), "bind options");
            }
            _ => check(false, "type of mount"),
        }
        check(m.into_short() == Ok(s.clone()), "back to short");
        short_round(&s);
        reach("converted");
    }
    fn v_long_to_short(kind, flags) {
        mount_short(mount(kind, flags))
    }
    fn v_mount_round(kind, flags) {
        mount_round(mount(kind, flags), kind)
    }
    fn v_iters(sk, kind, flags, order) {
        let (s, m) = (some_short(sk), mount(kind, flags));
        let mut v = Volumes::new();
        if order == 0 {
            v.insert(ShortOrLong::Short(s.clone()));
            v.insert(ShortOrLong::Long(m.clone()));
        } else {
            v.insert(ShortOrLong::Long(m.clone()));
            v.insert(ShortOrLong::Short(s.clone()));
        }
        let y = serde_yaml::to_value(&v).unwrap();
        check(read::<Volumes>(y).ok().as_ref() == Some(&v), "collection round trip");
        let long: Vec<_> = volumes::into_long_iter(v.clone()).collect();
        check(long.len() == 2 && long[order] == s.clone().into_long() && long[1 - order] == m, "all long");
        let short: Vec<_> = volumes::into_short_iter(v).collect();
        check(short.len() == 2 && short[order] == Ok(s) && short[1 - order] == m.into_short(), "short where possible");
        reach("iterated");
    }
    fn v_absolute(n, mb) {
        let s = text(n, mb);
        let ok = absolute(&s);
        let r = AbsolutePath::new(s.as_str());
        check(r.is_ok() == ok, "absolute path accepted");
        check(s.parse::<AbsolutePath>().is_ok() == ok && AbsolutePath::try_from(s.as_str()).is_ok() == ok && AbsolutePath::try_from(s.clone()).is_ok() == ok
            && AbsolutePath::try_from(PathBuf::from(&s)).is_ok() == ok && AbsolutePath::try_from(Path::new(&s)).is_ok() == ok
            && AbsolutePath::try_from(Box::<Path>::from(Path::new(&s))).is_ok() == ok && AbsolutePath::try_from(Cow::Borrowed(Path::new(&s))).is_ok() == ok, "constructors agree");
        let y: Result<AbsolutePath, _> = read(Value::String(s.clone()));
        check(y.is_ok() == ok, "deserialize agrees");
        if let (Ok(p), Ok(y)) = (r, y) {
            reach("accepted");
            check(same(path_text(p.as_path()), &s) && same(path_text(y.as_path()), &s) && same(path_text(p.as_inner()), &s), "kept");
            check(serde_yaml::to_value(&p).ok().as_ref().and_then(Value::as_str).is_some_and(|t| same(t, &s)), "serialized");
            let h: HostPath = p.clone().into();
            check(h.as_path() == p.as_path() && host_ok(&h), "host path from absolute");
            check(same(path_text(&p.into_inner()), &s), "into inner");
        }
    }
    fn v_host(n, mb) {
        let s = text(n, mb);
        let ok = host(&s);
        let r = HostPath::new(s.as_str());
        check(r.is_ok() == ok, "host path accepted");
        check(s.parse::<HostPath>().is_ok() == ok && HostPath::try_from(s.as_str()).is_ok() == ok && HostPath::try_from(s.clone()).is_ok() == ok
            && HostPath::try_from(PathBuf::from(&s)).is_ok() == ok && HostPath::try_from(Path::new(&s)).is_ok() == ok
            && HostPath::try_from(Box::<Path>::from(Path::new(&s))).is_ok() == ok && HostPath::try_from(Cow::Borrowed(Path::new(&s))).is_ok() == ok, "constructors agree");
        let y: Result<HostPath, _> = read(Value::String(s.clone()));
        check(y.is_ok() == ok, "deserialize agrees");
        let src = Source::try_from(PathBuf::from(&s));
        check(src.is_ok() == ok, "source from path agrees");
        if let (Ok(p), Ok(y)) = (r, y) {
            reach("accepted");
            check(same(path_text(p.as_path()), &s) && same(path_text(y.as_path()), &s), "kept");
            check(serde_yaml::to_value(&p).ok().as_ref().and_then(Value::as_str).is_some_and(|t| same(t, &s)), "serialized");
            check(src.unwrap() == Source::HostPath(p), "source from path");
        }
    }
    fn v_source(n, mb) {
        let s = text(n, mb);
        let b = s.as_bytes();
        let pathlike = !b.is_empty() && ((b[0] == b'/') | (b[0] == b'.'));
        let ok = if pathlike { host(&s) } else { names::identifier(&s) };
        let r = s.parse::<Source>();
        check(r.is_ok() == ok, "source accepted");
        check(Source::try_from(s.as_str()).is_ok() == ok && Source::try_from(s.clone()).is_ok() == ok && Source::parse(s.clone()).is_ok() == ok, "constructors agree");
        if let Ok(r) = r {
            reach("accepted");
            check(matches!(r, Source::HostPath(_)) == pathlike, "kind of source");
            check(same(&r.to_string(), &s), "printed");
        }
    }
    // pushing and popping never leave an invalid path
    fn v_host_ops(start, ops, n) {
        let mut p = HostPath::new(["/", ".", "..", "./", "../", "/a", "./a", "../a", "./.", "./..", "../..", "//a/", "./a/../b"][start]).unwrap();
        let mut o = ops;
        while o > 0 {
            let before = path_text(p.as_path()).to_owned();
            if o % 10 == 1 {
                let r = p.pop();
                let after = path_text(p.as_path());
                match parent_text(&before) {
                    None | Some("") => check(!r && same(after, &before), "nothing to pop"),
                    Some(q) => check(r && Path::new(q) == p.as_path(), "popped last component"),
                }
            } else {
                let s = ascii(n);
                p.push(&s);
                check(*p.as_path() == *Path::new(&before).join(&s), "pushed");
            }
            check(host_ok(&p), "still a host path");
            check(HostPath::new(p.as_path()).is_ok(), "still accepted");
            o /= 10;
        }
        reach("edited");
    }
    fn v_absolute_ops(start, ops, n) {
        let mut p = AbsolutePath::new(["/", "//", "/a", "/a/", "/a/b", "/..", "/a/.", "/./", "/b0/b1/b2/b3/b4/b5/b6/b7/b8/b9/c0/c1/c2/c3/c4/c5/c6"][start]).unwrap();
        let mut o = ops;
        while o > 0 {
            let before = path_text(p.as_path()).to_owned();
            if o % 10 == 1 {
                let r = p.pop();
                let after = path_text(p.as_path());
                match parent_text(&before) {
                    None | Some("") => check(!r && same(after, &before), "nothing to pop"),
                    Some(q) => check(r && Path::new(q) == p.as_path(), "popped last component"),
                }
            } else {
                let s = ascii(n);
                p.push(&s);
                check(*p.as_path() == *Path::new(&before).join(&s), "pushed");
            }
            check(absolute(path_text(p.as_path())), "still absolute");
            o /= 10;
        }
        reach("edited");
    }
}

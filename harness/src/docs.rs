//! Whole documents: every field reads, keeps its meaning and writes back.
//!
//! Tables hold one line per form a field can take, in a small flow notation read by `Reader` into
//! a YAML value: `?` is a symbolic lower case letter, `#` a symbolic digit, `%` any symbolic ASCII character, `@n` a symbolic number of n bytes (only in lines written as read), `'..'` is text. What
//! follows ` => ` is how the line is written back when that differs (nothing: left out).
use crate::sx::*;
use crate::util::*;
use compose_spec::service as s;
use compose_spec::{AsShort, AsShortIter, Compose, ItemOrList, ShortOrLong};
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::{Mapping, Value as Yaml};

pub struct Reader<'a> {
    t: &'a [u8],
    i: usize,
    syms: &'a mut Vec<u8>,
    at: usize,
    /// Placeholders are `a` and `1`, not symbolic.
    fixed: bool,
    /// 1: numbers are; 2: and any character is a letter.
    plain: u8,
}
impl<'a> Reader<'a> {
    pub fn new(t: &'a str, syms: &'a mut Vec<u8>) -> Self {
        Reader { t: t.as_bytes(), i: 0, syms, at: 0, fixed: false, plain: 0 }
    }
    pub fn fixed(t: &'a str, syms: &'a mut Vec<u8>) -> Self {
        Reader { fixed: true, ..Self::new(t, syms) }
    }
    fn sym(&mut self, kind: u8) -> u8 {
        if self.fixed || (self.plain > 0 && kind == b'#') {
            return if kind == b'#' { b'1' } else { b'a' };
        }
        if self.at == self.syms.len() {
            let v = if kind == b'%' && self.plain < 2 {
                sym(7) as u8
            } else if kind == b'#' {
                let d = sym(4) as u8;
                assume(d < 10);
                b'0' + d
            } else {
                let d = sym(5) as u8;
                assume(d < 26);
                b'a' + d
            };
            self.syms.push(v);
        }
        self.at += 1;
        self.syms[self.at - 1]
    }
    fn space(&mut self) {
        while self.i < self.t.len() && self.t[self.i] == b' ' {
            self.i += 1;
        }
    }
    /// Characters up to `end`; whether it was quoted, whether it holds symbols.
    fn token(&mut self, key: bool) -> (Vec<u8>, bool, bool, u64) {
        let mut v = Vec::with_capacity(16);
        let (mut sy, mut n) = (false, 0u64);
        let quoted = self.i < self.t.len() && self.t[self.i] == b'\'';
        if quoted {
            self.i += 1;
        }
        while self.i < self.t.len() {
            let c = self.t[self.i];
            if quoted {
                if c == b'\'' {
                    self.i += 1;
                    break;
                }
            } else if c == b',' || c == b'}' || c == b']' || (key && c == b':') {
                break;
            }
            self.i += 1;
            let raw = c;
            let c = match c {
                b'?' | b'#' | b'%' => {
                    sy = true;
                    self.sym(c)
                }
                c => c,
            };
            if raw != b' ' {
                n = n.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as u64);
            }
            v.push(c);
        }
        if !quoted {
            while v.last() == Some(&b' ') {
                v.pop();
            }
        }
        (v, quoted, sy, n)
    }
    pub fn value(&mut self) -> Yaml {
        self.space();
        match self.t.get(self.i) {
            Some(b'{') => {
                self.i += 1;
                let m = self.entries();
                self.i += 1;
                Yaml::Mapping(m)
            }
            Some(b'[') => {
                self.i += 1;
                let mut v = Vec::new();
                self.space();
                while self.t[self.i] != b']' {
                    v.push(self.value());
                    self.space();
                    if self.t[self.i] == b',' {
                        self.i += 1;
                    }
                    self.space();
                }
                self.i += 1;
                Yaml::Sequence(v)
            }
            Some(b'@') => {
                let w = self.t[self.i + 1] - b'0';
                self.i += 2;
                let n = if self.fixed || self.plain > 0 { 5 } else { sym(8 * w as u32) };
                Yaml::Number(n.into())
            }
            _ => {
                let from = self.i;
                let (v, quoted, sy, n) = self.token(false);
                let raw = &self.t[from..self.i];
                if !quoted {
                    let mut raw_end = raw.len();
                    while raw_end > 0 && raw[raw_end - 1] == b' ' {
                        raw_end -= 1;
                    }
                    let raw = &raw[..raw_end];
                    if raw == b"null" {
                        return Yaml::Null;
                    }
                    if raw == b"true" || raw == b"false" {
                        return Yaml::Bool(raw == b"true");
                    }
                    let (neg, d) = match raw {
                        [b'-', d @ ..] => (true, d),
                        d => (false, d),
                    };
                    if !d.is_empty() && d.iter().all(|c| c.is_ascii_digit() || *c == b'#') {
                        if !neg {
                            return Yaml::Number(n.into());
                        }
                        let mut n = 0i64;
                        for c in &v[1..] {
                            n = n * 10 + (*c - b'0') as i64;
                        }
                        return Yaml::Number((-n).into());
                    }
                    if !sy && d.iter().all(|c| c.is_ascii_digit() || *c == b'.') && d.iter().filter(|c| **c == b'.').count() == 1 && d.len() > 2 {
                        return Yaml::Number(std::str::from_utf8(raw).unwrap().parse::<f64>().unwrap().into());
                    }
                }
                Yaml::String(finish(v))
            }
        }
    }
    /// `key: value, ..` up to `}` or the end.
    pub fn entries(&mut self) -> Mapping {
        let mut m = Mapping::new();
        self.space();
        while self.i < self.t.len() && self.t[self.i] != b'}' {
            let (k, ..) = self.token(true);
            self.i += 1;
            let v = self.value();
            m.insert(Yaml::String(finish(k)), v);
            self.space();
            if self.i < self.t.len() && self.t[self.i] == b',' {
                self.i += 1;
            }
            self.space();
        }
        m
    }
}

/// Line `t` of a table: what is read and what is written back.
pub fn line(t: &str) -> (Mapping, Mapping) {
    line_as(t, false)
}
pub fn line_as(t: &str, fixed: bool) -> (Mapping, Mapping) {
    line_with(t, fixed, 0)
}
pub fn line_with(t: &str, fixed: bool, plain: u8) -> (Mapping, Mapping) {
    let entries = |t: &str, syms: &mut Vec<u8>| {
        let mut r = Reader::new(t, syms);
        r.fixed = fixed;
        r.plain = plain;
        r.entries()
    };
    let mut syms = Vec::with_capacity(8);
    match t.split_once("=>") {
        Some((a, b)) => {
            let a = entries(a, &mut syms);
            let b = entries(b, &mut syms);
            (a, b)
        }
        None => {
            let a = entries(t, &mut syms);
            (a.clone(), a)
        }
    }
}
/// Add `from` to `to`; false if they disagree.
pub fn merge(to: &mut Mapping, from: &Mapping) -> bool {
    for (k, v) in from {
        let k = k.as_str().unwrap();
        match to.get_mut(k) {
            None => {
                to.insert(Yaml::String(k.to_owned()), v.clone());
            }
            Some(Yaml::Mapping(a)) => match v {
                Yaml::Mapping(b) => {
                    if !merge(a, b) {
                        return false;
                    }
                }
                _ => return false,
            },
            Some(_) => return false,
        }
    }
    true
}
/// Same tree; the order of map entries does not count.
pub fn same_yaml(a: &Yaml, b: &Yaml) -> bool {
    match (a, b) {
        (Yaml::Null, Yaml::Null) => true,
        (Yaml::Bool(a), Yaml::Bool(b)) => a == b,
        (Yaml::Number(a), Yaml::Number(b)) => match (a.as_u64(), b.as_u64()) {
            (Some(a), Some(b)) => a == b,
            (None, None) => match (a.as_i64(), b.as_i64()) {
                (Some(a), Some(b)) => a == b,
                (None, None) => match (a.as_f64(), b.as_f64()) {
                    (Some(a), Some(b)) => a.to_bits() == b.to_bits(),
                    _ => false,
                },
                _ => false,
            },
            _ => false,
        },
        (Yaml::String(a), Yaml::String(b)) => same(a, b),
        (Yaml::Sequence(a), Yaml::Sequence(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_yaml(a, b)),
        (Yaml::Mapping(a), Yaml::Mapping(b)) => same_map(a, b),
        _ => false,
    }
}
pub fn same_map(a: &Mapping, b: &Mapping) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut all = true;
    for (k, v) in a {
        let mut found = false;
        for (l, w) in b {
            if let (Some(k), Some(l)) = (k.as_str(), l.as_str()) {
                if k.len() == l.len() {
                    found |= same(k, l) && same_yaml(v, w);
                }
            }
        }
        all &= found;
    }
    all
}
pub fn observe_yaml(y: &Yaml) {
    match y {
        Yaml::String(s) => observe_str(s),
        Yaml::Bool(b) => observe(*b as u64),
        Yaml::Sequence(v) => v.iter().for_each(observe_yaml),
        // The order of extensions can differ from run to run.
        Yaml::Mapping(m) => m.iter().for_each(|(k, v)| {
            if !k.as_str().unwrap().starts_with("x-") {
                observe_yaml(k);
                observe_yaml(v)
            }
        }),
        Yaml::Number(n) => observe(n.as_u64().unwrap_or(7)),
        _ => observe(9),
    }
}

/// Nothing in it but empty maps and lists.
fn hollow(y: &Yaml) -> bool {
    match y {
        Yaml::Mapping(m) => m.values().all(hollow),
        Yaml::Sequence(v) => v.iter().all(hollow),
        _ => false,
    }
}
fn empty(is: bool, out: &Mapping) {
    check(is == out.values().all(hollow), "doc:is_empty");
}
/// `long` has a short form exactly when only `key` is set, and converting back gives it again.
fn short<L, S>(long: &L, only: Option<&Yaml>)
where
    L: AsShort<Short = S> + From<S> + PartialEq + Clone + From<ShortOrLong<S, L>> + Serialize,
    S: Serialize + Clone + PartialEq,
    ShortOrLong<S, L>: AsShort<Short = S> + From<L>,
{
    let either: ShortOrLong<S, L> = ShortOrLong::from(long.clone());
    check(either.is_long() && !either.is_short() && either.as_long() == Some(long), "doc:long");
    check(ShortOrLong::into_long(either.clone()) == *long, "doc:into_long");
    let e = either.as_short();
    match (long.as_short(), only) {
        (Some(v), Some(y)) => {
            check(same_yaml(&serde_yaml::to_value(v).unwrap(), y), "doc:short value");
            let whole = serde_yaml::to_value(long).unwrap();
            let back = |l: L| serde_yaml::to_value(l).is_ok_and(|l| same_yaml(&l, &whole));
            check(back(L::from(v.clone())), "doc:long from short");
            check(e == Some(v), "doc:short of either");
            let sh: ShortOrLong<S, L> = ShortOrLong::Short(v.clone());
            check(sh.is_short() && !sh.is_long() && sh.as_long().is_none() && sh.as_short() == Some(v), "doc:short form");
            check(same_yaml(&serde_yaml::to_value(&sh).unwrap(), y), "doc:short written");
            check(back(sh.into_long()), "doc:short into long");
            reach("short");
        }
        (None, None) => check(e.is_none(), "doc:no short of either"),
        _ => check(false, "doc:short exactly when nothing else is set"),
    }
}
fn only<'a>(out: &'a Mapping, key: &str) -> Option<&'a Yaml> {
    if out.len() == 1 {
        out.get(key)
    } else {
        None
    }
}

macro_rules! more {
    ($t:ty) => { |_: &$t, _: &Mapping| {} };
    ($t:ty, $f:expr) => {{ let f: fn(&$t, &Mapping) = $f; f }};
}
macro_rules! docs {
    ($($name:ident: $t:ty, $bases:expr, $lines:expr $(, $more:expr)?;)*) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy)]
        pub enum Kind { $($name),* }
        pub const KINDS: &[Kind] = &[$(Kind::$name),*];
        pub fn refuses(k: Kind, doc: Yaml) -> bool {
            match k { $(Kind::$name => serde_yaml::from_value::<$t>(doc).is_err()),* }
        }
        /// The same for a map that may hold a key twice.
        pub fn refuses_pairs(k: Kind, doc: Vec<(String, Yaml)>) -> bool {
            let d = serde::de::value::MapDeserializer::<_, serde_yaml::Error>::new(doc.into_iter());
            match k { $(Kind::$name => <$t as serde::Deserialize>::deserialize(d).is_err()),* }
        }
        pub fn lines(k: Kind) -> (&'static [&'static str], &'static [&'static str]) {
            match k { $(Kind::$name => ($bases, $lines)),* }
        }
        pub fn judge_text(k: Kind, doc: Mapping, out: &Mapping, exact: bool) {
            match k { $(Kind::$name => text_as::<$t>(doc, out, exact)),* }
        }
        pub fn differ(k: Kind, a: Mapping, b: Mapping, out: &Mapping, other: &Mapping) {
            match k { $(Kind::$name => differ_as::<$t>(a, b, out, other)),* }
        }
        fn judge(k: Kind, doc: Mapping, out: &Mapping, exact: bool) {
            match k { $(Kind::$name => judge_as::<$t>(doc, out, exact, more!($t $(, $more)?))),* }
        }
    };
}
/// Equal exactly when they say the same.
fn differ_as<T: DeserializeOwned + Serialize + PartialEq + Clone>(a: Mapping, b: Mapping, out: &Mapping, other: &Mapping) {
    let (same_read, same_written) = (same_map(&a, &b), same_map(out, other));
    let (Ok(x), Ok(y)) = (serde_yaml::from_value::<T>(Yaml::Mapping(a)), serde_yaml::from_value::<T>(Yaml::Mapping(b))) else {
        check(false, "doc:accepted");
        return;
    };
    let e = x == y;
    check((y == x) == e && (x != y) != e, "doc:both ways");
    check(!same_read | e, "doc:same and equal");
    check(same_written | !e, "doc:different and unequal");
    reach("compared");
}
fn judge_as<T: DeserializeOwned + Serialize + PartialEq + Clone>(doc: Mapping, out: &Mapping, exact: bool, more: fn(&T, &Mapping)) {
    let Ok(v) = read::<T>(Yaml::Mapping(doc)) else {
        check(false, "doc:accepted");
        return;
    };
    let Ok(w) = serde_yaml::to_value(&v) else {
        check(false, "doc:written");
        return;
    };
    reach("kept");
    observe_yaml(&w);
    match &w {
        Yaml::Mapping(w) => check(same_map(w, out), "doc:written as read"),
        _ => check(false, "doc:written as a map"),
    }
    check(v.clone() == v, "doc:equal to itself");
    more(&v, out);
    let kept = w.clone();
    match serde_yaml::from_value::<T>(w) {
        Ok(u) => {
            check(!exact || u == v, "doc:reads back equal");
            check(serde_yaml::to_value(&u).is_ok_and(|w| same_yaml(&w, &kept)), "doc:writes the same again");
        }
        Err(_) => check(false, "doc:reads back"),
    }
}

/// JSON, which is YAML with everything quoted and nothing indented.
fn write_json(to: &mut Vec<u8>, y: &Yaml) {
    match y {
        Yaml::Mapping(m) => {
            let mut c = b'{';
            for (k, v) in m {
                to.push(c);
                c = b',';
                write_json(to, k);
                to.extend_from_slice(b": ");
                write_json(to, v);
            }
            if m.is_empty() {
                to.push(c);
            }
            to.push(b'}');
        }
        Yaml::Sequence(m) => {
            let mut c = b'[';
            for v in m {
                to.push(c);
                c = b',';
                write_json(to, v);
            }
            if m.is_empty() {
                to.push(c);
            }
            to.push(b']');
        }
        Yaml::String(s) => {
            to.push(b'"');
            for c in s.bytes() {
                if (c < 0x20) | (c == 0x7f) {
                    to.extend_from_slice(&[b'\\', b'x', b'0' + (c >> 4), b"0123456789abcdef"[(concrete((c & 15) as u64)) as usize]]);
                    continue;
                }
                if (c == b'"') | (c == b'\\') {
                    to.push(b'\\');
                }
                to.push(c);
            }
            to.push(b'"');
        }
        _ => to.extend_from_slice(serde_yaml::to_string(y).unwrap().trim_end().as_bytes()),
    }
}
/// The same document as text.
fn text_as<T: DeserializeOwned + Serialize + PartialEq>(doc: Mapping, out: &Mapping, exact: bool) {
    let Ok(text) = serde_yaml::to_string(&doc) else {
        return;
    };
    let doc_value = Box::new(Yaml::Mapping(doc.clone()));
    let Ok(v) = serde_yaml::from_value::<T>(Yaml::Mapping(doc)) else {
        return;
    };
    observe_str(&text);
    let judge = |text: &str| match serde_yaml::from_str::<T>(text) {
        Ok(u) => {
            check(!exact || u == v, "text:equal");
            check(serde_yaml::to_value(&u).is_ok_and(|y| y.as_mapping().is_some_and(|m| same_map(m, out))), "text:kept");
        }
        Err(_) => check(false, "text:accepted"),
    };
    judge(&text);
    let mut json = Vec::with_capacity(2 * text.len());
    write_json(&mut json, doc_value.as_ref());
    judge(&finish(json));
    match serde_yaml::to_string(&v) {
        Ok(s) => {
            if s != text {
                judge(&s);
            }
        }
        Err(_) => check(false, "text:written"),
    }
    reach("kept");
}

const NONE: &[&str] = &[""];

docs! {
    service: s::Service, NONE, SERVICE, |v, out| {
        if let Some(s::NetworkConfig::Networks(n)) = &v.network_config {
            let y = &out["networks"];
            networks_short(n, y);
        }
        dependencies_short(&v.depends_on, out.get("depends_on"));
        if let Some(h) = &v.healthcheck {
            health(h, out["healthcheck"].as_mapping().unwrap());
        }
        if let Some(f) = &v.env_file {
            env_files(f, &out["env_file"]);
        }
    };
    build: s::Build, NONE, BUILD, |v, out| {
        empty(v.is_empty(), out);
        short(v, only(out, "context"));
    };
    deploy: s::Deploy, NONE, DEPLOY, |v, out| empty(v.is_empty(), out);
    placement: s::deploy::Placement, NONE, PLACEMENT, |v, out| empty(v.is_empty(), out);
    preference: s::deploy::Preference, NONE, PREFERENCE, |v, out| empty(v.is_empty(), out);
    restart_policy: s::deploy::RestartPolicy, NONE, RESTART_POLICY, |v, out| empty(v.is_empty(), out);
    update: s::deploy::UpdateOrRollbackConfig, NONE, UPDATE, |v, out| empty(v.is_empty(), out);
    resources: s::deploy::Resources, NONE, RESOURCES, |v, out| empty(v.is_empty(), out);
    limits: s::deploy::resources::Limits, NONE, LIMITS, |v, out| empty(v.is_empty(), out);
    reservations: s::deploy::resources::Reservations, NONE, RESERVATIONS, |v, out| empty(v.is_empty(), out);
    res_device: s::deploy::resources::Device, &["capabilities: [gpu]", "capabilities: []"], RES_DEVICE, |v, out| empty(v.is_empty(), out);
    generic_resource: s::deploy::resources::GenericResource, NONE, GENERIC_RESOURCE, |v, out| empty(v.is_empty(), out);
    discrete: s::deploy::resources::DiscreteResourceSpec, NONE, DISCRETE, |v, out| empty(v.is_empty(), out);
    healthcheck: s::Healthcheck, &["", "test: %", "test: [CMD, a?, --?]", "test: [CMD]", "test: [CMD-SHELL, 'a ?'] => test: 'a ?'", "test: ''"], HEALTHCHECK, health;
    no_healthcheck: s::Healthcheck, &["disable: true", "test: [NONE] => disable: true", "disable: false, test: [NONE] => disable: true", "test: [NONE], disable: false => disable: true"], &[""], |v, _| {
        check(matches!(v, s::Healthcheck::Disable), "doc:health disabled");
    };
    blkio: s::BlkioConfig, NONE, BLKIO, |v, out| empty(v.is_empty(), out);
    logging: s::Logging, NONE, LOGGING, |v, out| empty(v.is_empty(), out);
    develop: s::Develop, NONE, DEVELOP;
    watch: s::develop::WatchRule, &["path: ?, action: rebuild"], WATCH;
    credential: s::CredentialSpec, &["config: c?", "file: f?", "registry: r?"], &["x-?: #", "x-a?: [a, {b: ?}]"];
    config_or_secret: s::ConfigOrSecret, &["source: a?"], CONFIG_OR_SECRET, |v, out| short(v, only(out, "source"));
    ulimit: s::Ulimit, &["soft: @8, hard: @8", "soft: @8, hard: -1", "soft: -1, hard: -1", "soft: '-1', hard: 5 => soft: -1, hard: 5"], &["x-?: #", "x-a: ?"], |v, out| {
        let y = if out.len() == 2 && same_yaml(&out["soft"], &out["hard"]) { Some(&out["soft"]) } else { None };
        short(v, y);
    };
    env_file: s::env_file::Config, &["path: a?", "path: ./b?.env"], &["required: false", "required: true =>"], |v, out| short(v, only(out, "path"));
    extends: s::Extends, &["service: s?"], &["file: ?", "file: ./a?.yaml"];
    dependency: s::Dependency, &["condition: service_started", "condition: service_healthy", "condition: service_completed_successfully"], DEPENDENCY;
    service_network: s::network_config::Network, NONE, SERVICE_NETWORK, |v, out| empty(v.is_empty(), out);
    network: compose_spec::Network, NONE, NETWORK, |v, out| empty(v.is_empty(), out);
    ipam: compose_spec::network::Ipam, NONE, IPAM, |v, out| empty(v.is_empty(), out);
    ipam_config: compose_spec::network::IpamConfig, NONE, IPAM_CONFIG, |v, out| empty(v.is_empty(), out);
    volume: compose_spec::Volume, NONE, VOLUME, |v, out| empty(v.is_empty(), out);
    config: compose_spec::Config, &["file: ?", "environment: E?", "content: 'a? '"], LABELS;
    secret: compose_spec::Secret, &["file: ?", "environment: E?"], SECRET;
    network_resource: compose_spec::Resource<compose_spec::Network>, NONE, NETWORK, |v, _| resource(v);
    volume_resource: compose_spec::Resource<compose_spec::Volume>, &["", "external: false =>"], VOLUME, |v, _| resource(v);
    config_resource: compose_spec::Resource<compose_spec::Config>, &["file: ?", "content: ?", "external: false, environment: ? => environment: ?"], LABELS, |v, _| resource(v);
    secret_resource: compose_spec::Resource<compose_spec::Secret>, &["environment: ?", "file: a?, external: false => file: a?"], SECRET, |v, _| resource(v);
    external: compose_spec::Resource<compose_spec::Secret>, &["external: true"], &["name: ?", "name: ''"], |v, out| {
        check(v.is_external() && !v.is_compose() && v.as_compose().is_none(), "doc:external");
        match v {
            compose_spec::Resource::External { name } => check(name.is_some() == out.contains_key("name"), "doc:external name"),
            _ => check(false, "doc:external"),
        }
    };
    include: compose_spec::Include, &["path: ?", "path: [a?, b?]"], INCLUDE, |v, out| {
        short(v, only(out, "path").filter(|p| p.is_string()));
    };
    include_list: compose_spec::Include, &["path: [a?]"], INCLUDE, |v, out| {
        let p = only(out, "path").map(|p| p[0].as_str().unwrap());
        check(v.as_short().map(|s| s.to_str().unwrap()) == p, "doc:short of a list of one");
    };
    port: s::ports::Port, &["target: 8#"], PORT;
    mount: s::volumes::Mount, &["type: volume, target: /t?", "type: bind, source: ./s?, target: /t?", "type: tmpfs, target: /t?", "type: npipe, source: /s?, target: /t?", "type: cluster, source: s?, target: /t?"], MOUNT;
    mount_volume: s::volumes::Mount, &["type: volume, target: /t?"], MOUNT_VOLUME, |v, out| if let s::volumes::Mount::Volume(m) = v {
        if let Some(o) = &m.volume {
            empty(o.is_empty(), out["volume"].as_mapping().unwrap());
        }
    };
    mount_bind: s::volumes::Mount, &["type: bind, source: ../s?, target: /t?"], MOUNT_BIND, |v, out| if let s::volumes::Mount::Bind(m) = v {
        if let Some(o) = &m.bind {
            empty(o.is_empty(), out["bind"].as_mapping().unwrap());
        }
    };
    mount_tmpfs: s::volumes::Mount, &["type: tmpfs, target: /t?"], MOUNT_TMPFS, |v, out| if let s::volumes::Mount::Tmpfs(m) = v {
        if let Some(o) = &m.tmpfs {
            empty(o.is_empty(), out["tmpfs"].as_mapping().unwrap());
        }
    };
    compose: Compose, &["services: {}", "services: {a?: {}, bb: {image: a?}}"], COMPOSE;
}

fn health(v: &s::Healthcheck, out: &Mapping) {
    match v {
        s::Healthcheck::Command(c) => {
            check(c.is_empty() == out.is_empty(), "doc:is_empty");
            let back: s::Healthcheck = c.clone().into();
            check(back == *v, "doc:health from command");
            check(!out.contains_key("disable"), "doc:health enabled");
        }
        s::Healthcheck::Disable => check(only(out, "disable").is_some(), "doc:health disabled"),
    }
}
fn resource<T: PartialEq>(v: &compose_spec::Resource<T>) {
    check(!v.is_external() && v.is_compose(), "doc:resource");
    match v {
        compose_spec::Resource::Compose(t) => check(v.as_compose() == Some(t), "doc:resource"),
        _ => check(false, "doc:resource"),
    }
}
/// Networks of a service: a short form exactly when no network has options.
fn networks_short(n: &s::network_config::Networks, out: &Yaml) {
    let it: Option<Vec<_>> = n.as_short_iter().map(|i| i.collect());
    let want: Option<Vec<&str>> = match out {
        Yaml::Sequence(v) => Some(v.iter().map(|k| k.as_str().unwrap()).collect()),
        Yaml::Mapping(m) => {
            let plain = m.values().all(|v| v.is_null() || v.as_mapping().is_some_and(|m| m.is_empty()));
            plain.then(|| m.keys().map(|k| k.as_str().unwrap()).collect())
        }
        _ => None,
    };
    keys(it, want, n.is_short(), out.is_sequence());
    let long = n.clone().into_long();
    let count = out.as_sequence().map_or_else(|| out.as_mapping().unwrap().len(), |s| s.len());
    check(long.len() == count, "doc:networks into long");
    if n.is_short() {
        check(long.values().all(|v| v.is_none()), "doc:networks into long");
    } else {
        check(n.as_long() == Some(&long), "doc:networks into long");
    }
}
fn keys(it: Option<Vec<&compose_spec::Identifier>>, want: Option<Vec<&str>>, is_short: bool, seq: bool) {
    check(is_short == seq, "doc:form");
    match (it, want) {
        (Some(a), Some(b)) => {
            check(a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| same(a.as_str(), b)), "doc:short keys");
            reach("short keys");
        }
        (a, b) => check(a.is_none() && b.is_none(), "doc:short exactly when nothing else is set"),
    }
}
fn dependencies_short(d: &s::DependsOn, out: Option<&Yaml>) {
    let it: Option<Vec<_>> = d.as_short_iter().map(|i| i.collect());
    let long = d.clone().into_long();
    match out {
        None => {
            check(long.is_empty() && it.is_some_and(|i| i.is_empty()), "doc:no dependencies");
        }
        Some(out) => {
            let want: Option<Vec<&str>> = match out {
                Yaml::Sequence(v) => Some(v.iter().map(|k| k.as_str().unwrap()).collect()),
                Yaml::Mapping(m) => {
                    let plain = m.values().all(|v| v.as_mapping().is_some_and(|m| m.len() == 1 && m["condition"].as_str() == Some("service_started")));
                    plain.then(|| m.keys().map(|k| k.as_str().unwrap()).collect())
                }
                _ => None,
            };
            keys(it, want, d.is_short(), out.is_sequence());
            if let Yaml::Sequence(v) = out {
                check(long.len() == v.len() && long.values().all(|d| *d == s::Dependency::default()), "doc:dependencies into long");
            } else {
                check(d.as_long() == Some(&long), "doc:dependencies into long");
            }
        }
    }
}
/// Environment files: a single path exactly when there is one file and nothing but its path.
fn env_files(f: &s::EnvFile, out: &Yaml) {
    let want = match out {
        Yaml::String(p) => Some(p.as_str()),
        Yaml::Sequence(v) if v.len() == 1 => match &v[0] {
            Yaml::String(p) => Some(p.as_str()),
            Yaml::Mapping(m) => only(m, "path").map(|p| p.as_str().unwrap()),
            _ => None,
        },
        _ => None,
    };
    match (f.as_single(), want) {
        (Some(a), Some(b)) => check(same(a.to_str().unwrap(), b), "doc:single file"),
        (a, b) => check(a.is_none() && b.is_none(), "doc:single file"),
    }
    let n = f.clone().into_list();
    check(n.len() == out.as_sequence().map_or(1, |v| v.len()), "doc:files");
    if let Yaml::Sequence(v) = out {
        let all = n.iter().zip(v).all(|(f, y)| same_yaml(&serde_yaml::to_value(f).unwrap(), y));
        check(all, "doc:files");
    } else {
        check(n[0].as_short().map(|p| same(p.to_str().unwrap(), out.as_str().unwrap())) == Some(true), "doc:files");
    }
}

/// An empty list or map is not kept apart from none (lines that end in `]=>` or `}=>`).
pub fn exact(t: &str) -> bool {
    !t.ends_with("]=>") && !t.ends_with("}=>")
}
/// Nothing set that excludes another thing set.
pub fn together(m: &Mapping) -> bool {
    let both = |a, b| m.contains_key(a) && m.contains_key(b);
    if both("network_mode", "networks") || both("dockerfile", "dockerfile_inline") {
        return false;
    }
    if let Some(Yaml::Mapping(h)) = m.get("healthcheck") {
        let off = h.contains_key("disable") || matches!(h.get("test"), Some(Yaml::Sequence(v)) if v[0].as_str() == Some("NONE"));
        if off && h.len() > 1 {
            return false;
        }
    }
    if let Some(Yaml::Mapping(c)) = m.get("credential_spec") {
        return c.keys().filter(|k| !k.as_str().unwrap().starts_with("x-")).count() == 1;
    }
    true
}
/// Base, line `i` and, unless out of range, line `j`.
fn compose_doc(k: Kind, b: usize, i: usize, j: usize) -> Option<(Mapping, Mapping, bool)> {
    compose_with(k, b, i, j, 0)
}
pub fn compose_with(k: Kind, b: usize, i: usize, j: usize, plain: u8) -> Option<(Mapping, Mapping, bool)> {
    let (bases, lines) = lines(k);
    let (mut doc, mut out) = line_with(bases[b], false, plain);
    let mut ex = true;
    for (n, i) in [i, j].into_iter().enumerate() {
        if let Some(t) = lines.get(i) {
            let (a, b) = line_with(t, plain > 0 && n == 1, plain);
            ex &= exact(t);
            if !merge(&mut doc, &a) || !merge(&mut out, &b) {
                return None;
            }
        }
    }
    if !together(&doc) {
        return None;
    }
    Some((doc, out, ex))
}
/// Fields with many entries: what stands between `<` and `>` is an entry, `~` its number, `^` that in letters.
pub const MANY: &[(Kind, &str)] = &[
    (Kind::service, "volumes: [</a~:/b?>]"),
    (Kind::service, "volumes: [<{type: volume, source: s~, target: /t?}>]"),
    (Kind::service, "ports: ['9#:90', <80~>]"),
    (Kind::service, "ports: [<'127.0.0.1:1~:2#/udp'>]"),
    (Kind::service, "ports: [<{target: ~, published: 9#}>]"),
    (Kind::service, "expose: [<3~>]"),
    (Kind::service, "expose: [<3~-40~/udp>]"),
    (Kind::service, "environment: {<A~: v%>}"),
    (Kind::service, "environment: [<A~=v%>]"),
    (Kind::service, "env_file: [<e~?>]"),
    (Kind::service, "env_file: [<{path: e~?, required: false}>]"),
    (Kind::service, "labels: {<l~: v?>}"),
    (Kind::service, "labels: [<l~=v?>]"),
    (Kind::service, "annotations: [<l~>]"),
    (Kind::service, "networks: [<n~?>]"),
    (Kind::service, "networks: {<n~: {aliases: [a?]}>}"),
    (Kind::service, "networks: {n: {aliases: [<a~?>]}}"),
    (Kind::service, "networks: {n: {link_local_ips: [<10.0.#.~>]}}"),
    (Kind::service, "networks: {n: {driver_opts: {<o~: v?>}}}"),
    (Kind::service, "depends_on: [<d~?>]"),
    (Kind::service, "depends_on: {<d~: {condition: service_healthy}>}"),
    (Kind::service, "secrets: [<s~?>]"),
    (Kind::service, "configs: [<{source: s~, uid: '#'}>]"),
    (Kind::service, "devices: ['/dev/x:/y', </dev/a~:/dev/b?>]"),
    (Kind::service, "device_cgroup_rules: ['c 1:3 r', <b ~:1# rwm>]"),
    (Kind::service, "dns: [<10.0.#.~>]"),
    (Kind::service, "dns_search: [<d~?>]"),
    (Kind::service, "dns_opt: [<d~%>]"),
    (Kind::service, "cap_add: [<C~%>]"),
    (Kind::service, "cap_drop: [<C~%>]"),
    (Kind::service, "command: [<c~%>]"),
    (Kind::service, "command: [<c%>]"),
    (Kind::service, "entrypoint: [<c~%>]"),
    (Kind::service, "extra_hosts: {<h~: 10.0.0.#>}"),
    (Kind::service, "external_links: [<l~:a?>]"),
    (Kind::service, "links: [<l~:a?>]"),
    (Kind::service, "group_add: [<g~?>]"),
    (Kind::service, "group_add: [<10~>]"),
    (Kind::service, "logging: {options: {<o~: v?>}}"),
    (Kind::service, "profiles: [<p~?>]"),
    (Kind::service, "security_opt: [<s~%>]"),
    (Kind::service, "storage_opt: {<k~: v?>}"),
    (Kind::service, "sysctls: {<k~: #>}"),
    (Kind::service, "tmpfs: [</t~?>]"),
    (Kind::service, "ulimits: {<u^: 1#>}"),
    (Kind::service, "volumes_from: [<s~:ro>]"),
    (Kind::service, "<x-~: ?>"),
    (Kind::service, "healthcheck: {test: [CMD, <c~%>]}"),
    (Kind::service, "credential_spec: {config: c, <x-~: ?>}"),
    (Kind::service, "build: {args: {<a~: v?>}}"),
    (Kind::service, "build: {args: [<a~=v?>]}"),
    (Kind::service, "build: {ssh: [<k~=v?>]}"),
    (Kind::service, "build: {cache_from: [<a~?>]}"),
    (Kind::service, "build: {cache_to: [<'type=local,dest=a~?'>]}"),
    (Kind::service, "build: {cache_to: ['type=gha,<a~=b?>']}"),
    (Kind::service, "build: {additional_contexts: {<a~: ./p?>}}"),
    (Kind::service, "build: {entitlements: [<e~%>]}"),
    (Kind::service, "build: {extra_hosts: {<h~: 10.0.0.#>}}"),
    (Kind::service, "build: {secrets: [<s~?>]}"),
    (Kind::service, "build: {tags: [<a~:t?>]}"),
    (Kind::service, "build: {ulimits: {<u^: 1#>}}"),
    (Kind::service, "build: {<x-~: #>}"),
    (Kind::service, "develop: {watch: [<{action: rebuild, path: p~?}>]}"),
    (Kind::service, "develop: {watch: [{action: sync, path: p, ignore: [<i~?>]}]}"),
    (Kind::service, "deploy: {labels: [<l~=v?>]}"),
    (Kind::service, "deploy: {placement: {constraints: [<c~%>]}}"),
    (Kind::service, "deploy: {placement: {preferences: [<{spread: s~?}>]}}"),
    (Kind::service, "deploy: {resources: {reservations: {devices: [{capabilities: [<c~?>]}]}}}"),
    (Kind::service, "deploy: {resources: {reservations: {devices: [{capabilities: [gpu], device_ids: [<c~?>]}]}}}"),
    (Kind::service, "deploy: {resources: {reservations: {devices: [<{capabilities: [gpu], driver: c~?}>]}}}"),
    (Kind::service, "deploy: {resources: {reservations: {generic_resources: [<{discrete_resource_spec: {kind: k~?}}>]}}}"),
    (Kind::service, "blkio_config: {device_read_bps: [<{path: /a~, rate: 1kb}>]}"),
    (Kind::service, "blkio_config: {device_write_iops: [<{path: /a~, rate: 1#}>]}"),
    (Kind::service, "blkio_config: {weight_device: [<{path: /a~, weight: 4#}>]}"),
    (Kind::network, "driver_opts: {<o~: v?>}"),
    (Kind::network, "labels: [<o~=v?>]"),
    (Kind::network, "ipam: {config: [<{subnet: 10.~.0.0/16}>]}"),
    (Kind::network, "ipam: {config: [{aux_addresses: {<h~: 10.0.0.#>}}]}"),
    (Kind::network, "ipam: {options: {<h~: v?>}}"),
    (Kind::volume, "driver_opts: {<o~: v?>}"),
    (Kind::volume, "labels: {<o~: v?>}"),
    (Kind::secret, "driver_opts: {<o~: v?>}"),
    (Kind::config, "labels: {<o~: v?>}"),
    (Kind::compose, "services: {<s~?: {image: a~}>}"),
    (Kind::compose, "networks: {<s~?: {external: true}>}"),
    (Kind::compose, "networks: {<s~?: null>}"),
    (Kind::compose, "volumes: {<s~?: {name: a~}>}"),
    (Kind::compose, "configs: {<s~?: {file: a~}>}"),
    (Kind::compose, "secrets: {<s~?: {environment: a~}>}"),
    (Kind::compose, "include: [<i~?>]"),
    (Kind::compose, "include: [{path: [<i~?>]}]"),
    (Kind::compose, "<x-~?: a>"),
];
/// `n` entries, number `at` of them with symbols.
pub fn many(t: &str, n: usize, at: usize) -> String {
    let mut v = Vec::with_capacity(t.len() * n);
    let (mut i, t) = (0, t.as_bytes());
    while i < t.len() {
        if t[i] != b'<' {
            v.push(t[i]);
            i += 1;
            continue;
        }
        let end = i + t[i..].iter().position(|c| *c == b'>').unwrap();
        let gap: &[u8] = if i > 0 && t[i - 1] == b',' { b"," } else { b", " };
        for j in 0..n {
            let number = 10 + j * 37 % 89;
            if j > 0 {
                v.extend_from_slice(gap);
            }
            for &c in &t[i + 1..end] {
                match c {
                    b'~' => v.extend_from_slice(&[b'0' + (number / 10) as u8, b'0' + (number % 10) as u8]),
                    b'^' => v.extend_from_slice(&[b'a' + (number / 10) as u8, b'a' + (number % 10) as u8]),
                    b'?' | b'%' if j != at => v.push(b'a'),
                    b'#' if j != at => v.push(b'1'),
                    c => v.push(c),
                }
            }
        }
        i = end + 1;
    }
    String::from_utf8(v).unwrap()
}

const BIG: usize = 100_000;

harness! {
    // Every line `from..from + n` on its own.
    fn d_one(k, from, n) {
        let k = KINDS[k];
        let (bases, ls) = lines(k);
        let b = pick(bases.len());
        let i = from + pick(n);
        assume(i < ls.len());
        if let Some((doc, out, ex)) = compose_doc(k, b, i, BIG) {
            judge(k, doc, &out, ex);
        }
    }
    // Every two lines, the first of them `i`.
    fn d_two(k, i) {
        let k = KINDS[k];
        let (bases, ls) = lines(k);
        let b = pick(bases.len());
        let j = i + 1 + pick(ls.len() - i - 1);
        if let Some((doc, out, ex)) = compose_doc(k, b, i, j) {
            judge(k, doc, &out, ex);
        }
    }
    // Many entries in one field.
    fn d_many(which, n) {
        let (k, t) = MANY[which];
        let at = if fork() { 0 } else if fork() { n / 2 } else { n - 1 };
        let (mut doc, mut out) = line(lines(k).0[0]);
        let (a, b) = line(&many(t, n, at));
        merge(&mut doc, &a);
        merge(&mut out, &b);
        judge(k, doc, &out, true);
    }
    // All lines that fit together, but for one, in both orders.
    fn d_all(k, back, from, n) {
        let k = KINDS[k];
        let (bases, ls) = lines(k);
        let b = pick(bases.len());
        let skip = from + pick(n);
        assume(skip < ls.len());
        let (mut doc, mut out) = line(bases[b]);
        let (mut i, mut ex) = (0, true);
        while i < ls.len() {
            let l = if back == 1 { ls.len() - 1 - i } else { i };
            i += 1;
            if l == skip {
                continue;
            }
            let (a, b) = line_as(ls[l], ls.len() > 20 && !(l > skip && l <= skip + 2));
            let (mut d2, mut o2) = (doc.clone(), out.clone());
            if merge(&mut d2, &a) && merge(&mut o2, &b) && together(&d2) {
                doc = d2;
                out = o2;
                ex &= exact(ls[l]);
            }
        }
        judge(k, doc, &out, ex);
    }
}

pub const LABELS: &[&str] = &["labels: {l?: v?}", "labels: [a?=b?, c]", "labels: {}=>", "labels: {a: null, b: #, c: true}", "x-?: #", "x-a?: {k?: [?, null]}"];
const SECRET: &[&str] = &["driver_opts: {o: %}", "labels: {l?: v?}", "labels: [a?=b?]", "labels: []=>", "driver: d%", "driver: ''", "driver_opts: {o?: v?, oo: #}", "driver_opts: {o: 1.5}", "driver_opts: {}=>", "x-?: #", "x-a?: {k?: [?, null]}", "driver: null =>"];
pub const VOLUME: &[&str] = &["driver_opts: {o: %}", "labels: {l?: v?}", "labels: [a?=b?]", "labels: {}=>", "driver: d%", "driver: ''", "driver_opts: {o?: v?, oo: #}", "driver_opts: {o: 1.5}", "driver_opts: {}=>", "name: n?", "name: ''", "x-?: #", "x-a?: {k?: [?, null]}", "x-n: null"];
const IPAM_CONFIG: &[&str] = &["subnet: 10.#.0.0/16", "subnet: 'fd0#::/64'", "ip_range: 10.0.#.0/24", "gateway: 10.0.0.#", "gateway: 'fd00::1'", "aux_addresses: {h?: 10.0.0.#}", "aux_addresses: {h?: 10.0.0.#, hh: 'fd00::1'}", "aux_addresses: {}=>", "x-?: #", "gateway: null =>"];
const IPAM: &[&str] = &["driver: d%", "config: [{subnet: 10.#.0.0/16}]", "config: [{gateway: 10.0.0.1, x-?: #}, {}]", "config: [{}]", "config: []=>", "options: {o?: v?}", "options: {o: ''}", "options: {}=>", "x-?: #", "x-a: [?]"];
pub const NETWORK: &[&str] = &["driver_opts: {o: %}", "driver: host", "driver: none", "driver: d%", "driver_opts: {o?: v?}", "driver_opts: {o: #, p: 1.5, q: -1}", "driver_opts: {}=>", "attachable: true", "attachable: false =>", "enable_ipv6: true", "enable_ipv6: false =>", "ipam: {}", "ipam: {driver: d%}", "ipam: {config: [{subnet: 10.0.#.0/24}]}", "ipam: {options: {k?: v?}}", "ipam: {x-?: #}", "internal: true", "internal: false =>", "labels: {l?: v?}", "labels: [a?=b?]", "labels: []=>", "name: n?", "name: ''", "x-?: #", "x-a?: {k?: [?, null]}", "ipam: null =>"];
const SERVICE_NETWORK: &[&str] = &["aliases: [a?, b?c]", "aliases: []=>", "ipv4_address: 10.0.0.#", "ipv6_address: 'fd00::1'", "link_local_ips: [10.0.0.#, 'fe80::1']", "link_local_ips: []=>", "mac_address: '92:d0:c6:0a:29:33'", "driver_opts: {o?: v?, oo: #}", "driver_opts: {}=>", "priority: @8", "priority: 0", "x-?: #", "x-a: {?: ?}", "priority: null =>"];
const PREFERENCE: &[&str] = &["spread: s%", "spread: ''", "x-?: #", "x-a: [?]", "spread: null =>"];
const PLACEMENT: &[&str] = &["constraints: [c%, c?=%]", "constraints: [a%, a%]", "constraints: []=>", "preferences: [{spread: %}, {}, {x-?: #}]", "preferences: []=>", "max_replicas_per_node: @8", "x-?: #", "max_replicas_per_node: null =>"];
const RESTART_POLICY: &[&str] = &["condition: none", "condition: on-failure", "condition: any", "delay: 1s", "delay: 0s", "delay: 1m30s", "max_attempts: @8", "window: 0s", "window: 500ms", "window: 1h", "x-?: #", "delay: null =>"];
const UPDATE: &[&str] = &["parallelism: @8", "delay: 1s", "delay: 0s", "monitor: 0s", "failure_action: continue", "failure_action: pause", "monitor: 1m", "max_failure_ratio: @8", "order: stop-first", "order: start-first", "x-?: #", "order: null =>"];
const DISCRETE: &[&str] = &["kind: k%", "kind: ''", "value: @8", "x-?: #", "kind: null =>"];
const GENERIC_RESOURCE: &[&str] = &["discrete_resource_spec: {}", "discrete_resource_spec: {kind: %}", "discrete_resource_spec: {value: @8}", "discrete_resource_spec: {x-?: #}", "x-?: #", "discrete_resource_spec: null =>"];
const RES_DEVICE: &[&str] = &["driver: d%", "driver: ''", "count: all", "count: @8", "device_ids: [a%, b%c]", "device_ids: []=>", "options: {o?: v?}", "options: [o?=v?]", "options: {}=>", "x-?: #", "x-a: {?: #}"];
const LIMITS: &[&str] = &["cpus: 1.5", "cpus: 0.0", "memory: 0b", "cpus: 2.25", "memory: 1gb", "memory: 512b", "pids: @4", "pids: -1", "pids: '-1' => pids: -1", "x-?: #", "cpus: null =>", "pids: 0"];
const RESERVATIONS: &[&str] = &["cpus: 1.5", "cpus: 0.0", "memory: 0b", "memory: 1gb", "devices: [{capabilities: [gpu, tpu, c%]}]", "devices: [{capabilities: [c%], count: @8}, {capabilities: [gpu], driver: %}]", "devices: []=>", "generic_resources: [{}, {discrete_resource_spec: {kind: %}}]", "generic_resources: [{x-?: #}]", "generic_resources: []=>", "x-?: #"];
const RESOURCES: &[&str] = &["limits: {}", "limits: {cpus: 1.5}", "limits: {memory: 1kb}", "limits: {pids: @4}", "limits: {x-?: ?}", "reservations: {}", "reservations: {cpus: 0.5}", "reservations: {memory: 3mb}", "reservations: {devices: [{capabilities: [c%]}]}", "reservations: {generic_resources: [{x-?: ?}]}", "reservations: {x-?: #}", "x-?: #", "limits: null =>"];
const DEPLOY: &[&str] = &["endpoint_mode: vip", "endpoint_mode: dnsrr", "endpoint_mode: e?", "labels: {l?: v?}", "labels: [l?]", "labels: []=>", "mode: global", "mode: replicated", "placement: {}", "placement: {constraints: [c%]}", "placement: {max_replicas_per_node: @8}", "placement: {x-?: #}", "replicas: @8", "resources: {}", "resources: {limits: {pids: @4}}", "resources: {reservations: {memory: 1gb}}", "resources: {x-?: ?}", "restart_policy: {}", "restart_policy: {condition: any}", "restart_policy: {max_attempts: @8}", "rollback_config: {}", "rollback_config: {parallelism: @8}", "rollback_config: {order: start-first}", "update_config: {}", "update_config: {parallelism: @8}", "update_config: {failure_action: pause}", "x-?: #", "mode: null =>"];
pub const HEALTHCHECK: &[&str] = &["disable: false =>", "interval: 1s", "interval: 0s", "timeout: 0s", "start_period: 0s", "start_interval: 0s", "interval: 1m30s", "timeout: 2s", "retries: @8", "start_period: 3s", "start_interval: 4ms", "x-?: #", "x-a: [?]", "interval: null =>"];
const BLKIO: &[&str] = &["device_read_bps: [{path: /a?, rate: 1kb}, {path: /b, rate: 5b}]", "device_read_bps: []=>", "device_read_iops: [{path: /a?, rate: @8}]", "device_read_iops: []=>", "device_write_bps: [{path: /a?, rate: 2mb}]", "device_write_bps: []=>", "device_write_iops: [{path: /a?, rate: @8}, {path: /b?, rate: @8}]", "device_write_iops: []=>", "weight: 1#", "weight: 1000", "weight_device: [{path: /a?, weight: 4#}]", "weight_device: []=>", "weight: null =>"];
const LOGGING: &[&str] = &["driver: d%", "driver: ''", "options: {o?: v?, oo: #, p: null, q: -5}", "options: {o: %, p: '-#'}", "options: {o: null}", "options: {o: 1.5}", "options: {}=>", "x-?: #", "driver: null =>"];
const WATCH: &[&str] = &["ignore: [i?, ./j?]", "ignore: []=>", "target: /t?", "x-?: #", "x-a: {?: ?}", "target: null =>"];
const DEVELOP: &[&str] = &["watch: [{action: rebuild, path: p?}]", "watch: [{action: sync, path: ?, target: /t?}, {action: sync+restart, path: ?, ignore: [?], x-?: #}]", "watch: []=>"];
const CONFIG_OR_SECRET: &[&str] = &["target: t?", "target: /t?/a", "uid: '1#'", "gid: '2#'", "uid: '0'", "mode: @4", "mode: 0", "x-?: #", "x-a: [?]", "target: null =>", "mode: null =>"];
const DEPENDENCY: &[&str] = &["restart: true", "restart: false =>", "required: false", "required: true =>"];
const INCLUDE: &[&str] = &["project_directory: d%", "project_directory: ''", "env_file: e?", "env_file: [e?, f?]", "env_file: []", "env_file: null =>"];
const PORT: &[&str] = &["name: n?", "name: ''", "published: 8#", "published: 8#-90 => published: '8#-90'", "host_ip: 10.0.0.#", "host_ip: '::1'", "protocol: tcp", "protocol: udp", "protocol: p?x", "app_protocol: h%", "app_protocol: ''", "mode: host", "mode: ingress", "x-?: #", "x-a: ?", "name: null =>"];
const MOUNT: &[&str] = &["read_only: true", "read_only: false =>", "consistency: c%", "consistency: ''", "x-?: #", "x-a: [?]", "consistency: null =>"];
const MOUNT_VOLUME: &[&str] = &["source: s?", "volume: {}", "volume: {nocopy: true}", "volume: {nocopy: false} => volume: {}", "volume: {subpath: p?}", "volume: {subpath: ''}", "volume: {x-?: #}", "read_only: true", "x-?: #", "volume: null =>"];
const MOUNT_BIND: &[&str] = &["bind: {}", "bind: {propagation: rprivate}", "bind: {propagation: shared}", "bind: {create_host_path: true}", "bind: {create_host_path: false} => bind: {}", "bind: {selinux: z}", "bind: {selinux: Z}", "bind: {x-?: #}", "read_only: true", "x-?: #", "bind: null =>"];
const MOUNT_TMPFS: &[&str] = &["tmpfs: {}", "tmpfs: {size: 1gb}", "tmpfs: {size: 0b}", "tmpfs: {mode: @4}", "tmpfs: {mode: 0}", "tmpfs: {x-?: #}", "read_only: true", "x-?: #", "tmpfs: null =>"];
const BUILD: &[&str] = &["context: c?", "context: ./c?/d", "context: https://example.com/a?", "dockerfile: d?", "dockerfile_inline: 'FROM ?'", "args: {a?: v?}", "args: [a?=v?, b]", "args: {a: null, b: #, c: true, d: ''}", "args: []=>", "args: {a: %}", "ssh: [default, k?=v?]", "ssh: []=>", "cache_from: [a?]", "cache_to: ['type=local,dest=a?']", "cache_from: []=>", "cache_to: []=>", "additional_contexts: {a?: p?}", "additional_contexts: [a?=p?] => additional_contexts: {a?: p?}", "additional_contexts: {}=>", "entitlements: [e%, e%]", "entitlements: []=>", "extra_hosts: {h?: 10.0.0.#}", "extra_hosts: ['h?=10.0.0.#'] => extra_hosts: {h?: 10.0.0.#}", "extra_hosts: {}=>", "isolation: i%", "isolation: ''", "privileged: true", "privileged: false =>", "labels: {l?: v?}", "labels: [l?]", "labels: {}=>", "no_cache: true", "no_cache: false =>", "pull: true", "pull: false =>", "network: none", "network: n?", "shm_size: 1gb", "target: t%", "target: ''", "secrets: [s?, {source: s?, mode: @4}]", "secrets: [{source: ?}]", "secrets: []=>", "tags: ['a?:t?', 'r.io/b?']", "tags: []=>", "ulimits: {nofile: @8}", "ulimits: {nproc: {soft: @8, hard: -1}}", "ulimits: {}=>", "platforms: [linux/amd64]", "platforms: []=>", "x-?: #", "context: null =>", "dockerfile: null =>", "x-a: {?: [?]}"];
const SERVICE: &[&str] = &[
    "attach: false", "attach: true =>",
    "build: c?", "build: ./c?", "build: {}", "build: {context: c?}", "build: {target: t%}", "build: {x-?: #}", "build: {dockerfile: d?}",
    "blkio_config: {}", "blkio_config: {weight: 1#}",
    "cpu_count: @8", "cpu_percent: 1#", "cpu_percent: 0", "cpu_shares: @8", "cpu_period: 1#", "cpu_quota: 2#", "cpu_rt_runtime: 1us", "cpu_rt_period: 1ms", "cpu_period: 0",
    "cpus: 1.5", "cpuset: '0-2,4'", "cpuset: '#'", "cpuset: ''=>",
    "cap_add: [C%]", "cap_add: []=>", "cap_drop: [C%, ALL]", "cap_drop: []=>",
    "cgroup: host", "cgroup: private", "cgroup_parent: p%", "cgroup_parent: ''",
    "command: c%", "command: ''", "command: [a%, b%]", "command: []", "command: [a%, a%]",
    "configs: [c?, {source: d?, uid: '#'}]", "configs: [{source: ?}]", "configs: []=>",
    "container_name: n?",
    "credential_spec: {config: ?}", "credential_spec: {file: ?}", "credential_spec: {registry: %, x-?: #}",
    "depends_on: [a?, bb?]", "depends_on: {a?: {condition: service_started}}", "depends_on: {a?: {condition: service_healthy, required: false}, bb: {condition: service_started}}", "depends_on: []=>", "depends_on: {}=>", "depends_on: {a: {condition: service_started, restart: true}}", "depends_on: {a: {condition: service_started, restart: false, required: true}} => depends_on: {a: {condition: service_started}}",
    "deploy: {}", "deploy: {mode: global}", "deploy: {replicas: @8}",
    "develop: {}", "develop: {watch: [{action: sync, path: ?}]}",
    "device_cgroup_rules: ['c 1:3 mr', 'a *:* rwm'] => device_cgroup_rules: ['c 1:3 rm', 'a *:* rwm']", "device_cgroup_rules: []=>",
    "devices: ['/dev/a?:/dev/b?']", "devices: ['/dev/a?:/dev/b:rwm']", "devices: []=>",
    "dns: 10.0.0.#", "dns: [10.0.0.#, '::1']", "dns: []",
    "dns_opt: [o%]", "dns_opt: []=>", "dns_search: d?.com", "dns_search: [a?, b.c?]",
    "domainname: d?", "entrypoint: e%", "entrypoint: [e%, '']", "entrypoint: []",
    "env_file: e?", "env_file: [e?]", "env_file: [{path: e?}]", "env_file: [{path: e?, required: false}]", "env_file: [e?, {path: ff, required: true}] => env_file: [e?, {path: ff}]", "env_file: []",
    "environment: {A?: v?}", "environment: [A?=v?, B]", "environment: {A: null, B: #, C: true, D: '#', E: 1.5, F: -#, G: ''}", "environment: {}=>", "environment: []=>", "environment: {A: %, B: 'b '}", "environment: [A=%]",
    "expose: [8#, 100-200, 90/tcp]", "expose: []=>",
    "extends: {service: s?}", "extends: {service: s?, file: f?}",
    "annotations: {a?: v?}", "annotations: [a?]", "annotations: {}=>", "annotations: {a: %}",
    "external_links: [l?, 'm?:a?']", "external_links: []=>",
    "extra_hosts: {h?: 10.0.0.#}", "extra_hosts: ['h?:10.0.0.#', 'i=::1'] => extra_hosts: {h?: 10.0.0.#, i: '::1'}", "extra_hosts: {}=>",
    "group_add: [g?, 10#]", "group_add: []=>",
    "healthcheck: {}", "healthcheck: {disable: true}", "healthcheck: {test: %}", "healthcheck: {test: [CMD, %], retries: @8}", "healthcheck: {test: [NONE]} => healthcheck: {disable: true}", "healthcheck: {interval: 1s}",
    "hostname: h?", "image: a?", "image: r.io/a?/b:t?", "init: true", "init: false =>",
    "ipc: shareable", "ipc: service:s?", "ipc: i?x", "uts: host", "isolation: i%", "isolation: ''",
    "labels: {l?: v?}", "labels: [l?=v?]", "labels: {}=>", "labels: {l: %, m: ' %'}",
    "links: [l?, 'm?:a?']", "links: []=>",
    "logging: {}", "logging: {driver: %}", "logging: {options: {o?: null}}",
    "network_mode: none", "network_mode: host", "network_mode: service:s?", "network_mode: n?x",
    "networks: [n?, mm?]", "networks: {n?: null}", "networks: {n?: {}}", "networks: {n?: null, mm: {}, o: {priority: @8}}", "networks: {n: {aliases: [?]}}", "networks: []", "networks: {}",
    "mac_address: '92:d0:c6:0a:29:33'",
    "mem_limit: 1gb", "mem_limit: 0b", "mem_reservation: 0b", "memswap_limit: 0b", "pids_limit: 0", "cpus: 0.0", "shm_size: 0b", "mem_reservation: 5kb", "mem_swappiness: 1#", "memswap_limit: -1", "memswap_limit: 1gb", "mem_swappiness: 0",
    "oom_kill_disable: true", "oom_kill_disable: false =>", "oom_score_adj: -1#", "oom_score_adj: #",
    "pid: p%", "pid: ''", "pids_limit: @4", "pids_limit: -1", "pids_limit: '-1' => pids_limit: -1", "memswap_limit: '-1' => memswap_limit: -1", "ulimits: {nofile: '-1'} => ulimits: {nofile: -1}", "ulimits: {nofile: {soft: '-1', hard: 5}} => ulimits: {nofile: {soft: -1, hard: 5}}", "platform: linux/amd64",
    "ports: [80, 8000-8010]", "ports: ['8#:90', '127.0.0.1:80:81/udp']", "ports: [{target: 8#, published: 9#}, {target: 8#, mode: host}]", "ports: []=>",
    "privileged: true", "privileged: false =>", "profiles: [p?, qq]", "profiles: []=>",
    "pull_policy: always", "pull_policy: missing", "pull_policy: if_not_present => pull_policy: missing", "read_only: true", "read_only: false =>",
    "restart: no", "restart: always", "runtime: r%", "runtime: ''", "scale: @8",
    "secrets: [s?, {source: t?, gid: '#'}]", "secrets: [{source: ?}]", "secrets: []=>",
    "security_opt: [s%]", "security_opt: []=>", "shm_size: 1gb", "stdin_open: true", "stdin_open: false =>",
    "stop_grace_period: 1m30s", "stop_grace_period: 0s", "cpu_quota: 0", "cpu_rt_runtime: 0s", "cpu_rt_period: 0s", "stop_signal: S%", "stop_signal: ''",
    "storage_opt: {k?: v?}", "storage_opt: {k: #, l: null, m: true}", "storage_opt: {}=>", "storage_opt: {k: %}",
    "sysctls: {k?: v?}", "sysctls: [k?=#]", "sysctls: {}=>", "sysctls: {k: %}",
    "tmpfs: /t?", "tmpfs: [/t?, /u]", "tmpfs: []", "tty: true", "tty: false =>",
    "ulimits: {nofile: 1#}", "ulimits: {nofile: {soft: @8, hard: #}, nproc: -1}", "ulimits: {}=>", "ulimits: {a?: {soft: 5, hard: 5}}",
    "user: u?", "user: u?:g?", "user: '10#:20#'", "userns_mode: u%", "userns_mode: ''",
    "volumes: ['/t?', './a?:/t:ro', 'v?:/tt:z']", "volumes: [{type: tmpfs, target: /t?}, {type: bind, source: /a?, target: /b, bind: {selinux: z}}]", "volumes: [{type: volume, source: v?, target: /t}]", "volumes: []=>",
    "volumes_from: [s?, 't?:ro', 'container:c?']", "volumes_from: []=>", "working_dir: /w?",
    "x-?: #", "x-a?: {k?: [?, null, true]}", "x-n: null",
    "image: null =>", "command: null =>", "cpus: null =>", "deploy: null =>", "network_mode: null =>", "networks: null =>", "stop_grace_period: null =>", "cpu_period: null =>", "user: null =>", "healthcheck: null =>", "hostname: null =>", "dns: null =>", "env_file: null =>",
];
const COMPOSE: &[&str] = &["version: '3.#'", "version: ''", "name: n?", "include: [i?, {path: j?, project_directory: d%}]", "include: []=>", "include: [{path: ?}]", "services: {c?: {init: true}}", "services: {d?: {command: [%]}}",
    "networks: {n?: null}", "networks: {oo: {}}", "networks: {pp: {external: true, name: ?}}", "networks: {qq: {driver: d%, x-?: #}}", "networks: {}=>",
    "volumes: {v?: null}", "volumes: {ww: {}}", "volumes: {xx: {external: true}}", "volumes: {yy: {name: ?}}", "volumes: {}=>",
    "configs: {c?: {file: f?}}", "configs: {dd: {external: true, name: ?}}", "configs: {ee: {content: %, labels: {l: ?}}}", "configs: {}=>",
    "secrets: {s?: {environment: E?}}", "secrets: {tt: {external: true}}", "secrets: {uu: {file: ?, driver_opts: {a: #}}}", "secrets: {}=>",
    "x-?: #", "x-a?: {k?: [?, null, true]}", "version: null =>", "name: null =>"];

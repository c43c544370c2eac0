//! References from services to top-level resources.
use crate::docs::{compose_with, lines, Kind};
use crate::{sx::*, util::*};
use compose_spec::{
    config, secret,
    service::{
        network_config,
        volumes::{
            mount::{Bind, Common, Mount, Volume},
            AbsolutePath, HostPath, ShortOptions, ShortVolume,
        },
        ConfigOrSecret, NetworkConfig,
    },
    Compose, Config, Identifier, Network, Resource, Secret, Service, ShortOrLong, ValidationError,
};
use indexmap::IndexSet;
use serde_yaml::{Mapping, Value as Yaml};

fn id(c: u8) -> Identifier {
    Identifier::new(finish(vec![c])).unwrap()
}
fn name() -> u8 {
    let c = sym(7) as u8;
    assume(lnum(c));
    c
}
fn abs() -> AbsolutePath {
    AbsolutePath::new("/t").unwrap()
}
/// `pat` occurs in `s` (branch-free).
fn contains(s: &str, pat: &[u8]) -> bool {
    let b = s.as_bytes();
    let mut found = false;
    let mut i = 0;
    while i + pat.len() <= b.len() {
        found |= same_bytes(&b[i..i + pat.len()], pat);
        i += 1;
    }
    found
}
fn long(source: Identifier) -> ConfigOrSecret {
    let mut c = ConfigOrSecret::from(source);
    c.target = Some("/other".into());
    c
}
/// What a reference in a service may look like; whether it names a resource.
fn volume(kind: usize, n: u8) -> (ShortOrLong<ShortVolume, Mount>, bool) {
    let mut short = ShortVolume::new(abs());
    match kind {
        0 => {
            short.options = Some(ShortOptions::new(id(n).into()));
            (short.into(), true)
        }
        1 => {
            let mut v = Volume::new(Common::new(abs()));
            v.source = Some(id(n));
            (ShortOrLong::Long(Mount::Volume(v)), true)
        }
        2 => (short.into(), false),
        3 => {
            short.options = Some(ShortOptions::new(HostPath::new("/a").unwrap().into()));
            (short.into(), false)
        }
        4 => (ShortOrLong::Long(Mount::Volume(Volume::new(Common::new(abs())))), false),
        _ => (ShortOrLong::Long(Mount::Bind(Bind::new(HostPath::new("./b").unwrap(), Common::new(abs())))), false),
    }
}
fn digits_of(mut v: usize) -> Vec<usize> {
    // 1-based digits, the most significant first
    let mut d = vec![];
    while v > 0 {
        d.insert(0, v % 10);
        v /= 10;
    }
    d
}
const SERVICES: [&str; 3] = ["web", "db2", "q"];

/// Checks `r` against the first (service, name) in `uses` that is not defined.
fn judge(r: &Result<(), ValidationError>, uses: &[(usize, u8)], defined: &[u8], kind: &str) {
    let mut bad = false;
    let (mut svc, mut n) = (0u64, 0u8);
    let mut i = uses.len();
    while i > 0 {
        i -= 1;
        let (s, c) = uses[i];
        let mut d = false;
        let mut j = 0;
        while j < defined.len() {
            d |= defined[j] == c;
            j += 1;
        }
        if !d {
            bad = true;
            svc = s as u64;
            n = c;
        }
    }
    check(r.is_err() == bad, "an undefined reference is an error");
    if let Err(e) = r {
        if bad {
            let text = e.to_string();
            let svc = SERVICES[concrete(svc) as usize];
            check(contains(&text, &[b'`', n, b'`']), "error names the resource");
            check(contains(&text, format!("`{svc}`").as_bytes()), "error names the service");
            check(text.starts_with(kind), "error names the kind");
            reach("undefined");
        }
    } else {
        reach("defined");
    }
}

fn resource<T: Default + Into<Resource<T>>>(external: bool) -> Resource<T> {
    if external { Resource::External { name: None } } else { T::default().into() }
}
fn config(external: bool) -> Resource<Config> {
    if external { Resource::External { name: None } } else { Config::from(config::Source::File("f".into())).into() }
}
fn secret(external: bool) -> Resource<Secret> {
    if external { Resource::External { name: None } } else { Secret::from(secret::Source::File("f".into())).into() }
}

harness! {
    // `uses`: one digit per service, references made (0 written as 9); `long`: long syntax
    fn w_networks(uses, ndef, long) {
        let mut c = Compose::default();
        let mut used = vec![];
        for (s, &u) in digits_of(uses).iter().enumerate() {
            let mut svc = Service::default();
            let names: Vec<u8> = (0..u % 9).map(|_| name()).collect();
            for n in &names {
                used.push((s, *n));
            }
            svc.network_config = Some(if u == 9 && long > 0 {
                NetworkConfig::NetworkMode(network_config::NetworkMode::Service(id(b'x')))
            } else if long == 0 {
                NetworkConfig::Networks(ShortOrLong::Short(names.iter().map(|n| id(*n)).collect::<IndexSet<_>>()))
            } else {
                NetworkConfig::Networks(ShortOrLong::Long(names.iter().map(|n| (id(*n), (long == 2).then(network_config::Network::default))).collect()))
            });
            if u == 9 && long == 0 {
                svc.network_config = None;
            }
            c.services.insert(SERVICES[s].parse().unwrap(), svc);
        }
        let def: Vec<u8> = (0..ndef).map(|_| name()).collect();
        for (i, d) in def.iter().enumerate() {
            c.networks.insert(id(*d), (i > 0).then(|| resource::<Network>(long == 0)));
        }
        let r = c.validate_networks();
        judge(&r, &used, &def, "network ");
        check(c.validate_all() == r, "validate_all finds the same");
    }
    fn w_configs(uses, ndef, which, mix) {
        let mut c = Compose::default();
        let mut used = vec![];
        let mut k = mix;
        for (s, &u) in digits_of(uses).iter().enumerate() {
            let mut svc = Service::default();
            for _ in 0..u % 9 {
                let n = name();
                used.push((s, n));
                let item = if k % 2 == 0 { ShortOrLong::Short(id(n)) } else { ShortOrLong::Long(long(id(n))) };
                k /= 2;
                if which == 0 { svc.configs.push(item) } else { svc.secrets.push(item) }
            }
            c.services.insert(SERVICES[s].parse().unwrap(), svc);
        }
        let def: Vec<u8> = (0..ndef).map(|_| name()).collect();
        for (i, d) in def.iter().enumerate() {
            if which == 0 {
                c.configs.insert(id(*d), config(i == 1));
            } else {
                c.secrets.insert(id(*d), secret(i == 1));
            }
        }
        let r = if which == 0 { c.validate_configs() } else { c.validate_secrets() };
        judge(&r, &used, &def, if which == 0 { "config " } else { "secret " });
        check(if which == 0 { c.validate_secrets() } else { c.validate_configs() }.is_ok(), "the other kind is not affected");
        check(c.validate_all() == r, "validate_all finds the same");
    }
    // `kinds`: one digit per mount (1..=6), services separated by 9
    fn w_volumes(kinds, ndef) {
        let mut c = Compose::default();
        let mut used: Vec<(usize, u8)> = vec![];
        let mut s = 0;
        let mut svc = Service::default();
        for k in digits_of(kinds).into_iter().chain([9]) {
            if k == 9 {
                c.services.insert(SERVICES[s].parse().unwrap(), std::mem::take(&mut svc));
                s += 1;
                continue;
            }
            let n = name();
            let (v, named) = volume(k - 1, n);
            if named {
                used.push((s, n));
            }
            svc.volumes.insert(v);
        }
        let def: Vec<u8> = (0..ndef).map(|_| name()).collect();
        for (i, d) in def.iter().enumerate() {
            c.volumes.insert(id(*d), if i == 0 { None } else { Some(resource(true)) });
        }
        let r = c.validate_volumes();
        // undefined and used by two services
        let is_bad = |x: usize| {
            let mut shared = false;
            let mut j = 0;
            while j < used.len() {
                shared |= (used[j].0 != used[x].0) & (used[j].1 == used[x].1);
                j += 1;
            }
            let mut d = false;
            j = 0;
            while j < def.len() {
                d |= def[j] == used[x].1;
                j += 1;
            }
            shared & !d
        };
        let mut bad = false;
        let mut i = 0;
        while i < used.len() {
            bad |= is_bad(i);
            i += 1;
        }
        check(r.is_err() == bad, "an undefined shared volume is an error");
        if let Err(e) = &r {
            let text = e.to_string();
            check(text.starts_with("volume "), "error names the kind");
            let mut named = false;
            i = 0;
            while i < used.len() {
                named |= is_bad(i) & contains(&text, &[b'`', used[i].1, b'`']);
                i += 1;
            }
            check(named, "error names the volume");
            reach("undefined");
        } else {
            reach("defined");
        }
        check(c.validate_all() == r, "validate_all finds the same");
    }
    // one possibly undefined reference of every kind
    fn w_all(services) {
        let mut c = Compose::default();
        let n: Vec<u8> = (0..4).map(|_| name()).collect();
        let d: Vec<u8> = (0..4).map(|_| name()).collect();
        let last = SERVICES[services - 1];
        for s in 0..services {
            c.services.insert(SERVICES[s].parse().unwrap(), Service::default());
        }
        let put = |c: &mut Compose, s: &str, f: &dyn Fn(&mut Service)| f(c.services.get_mut(s).unwrap());
        put(&mut c, last, &|s| s.network_config = Some(NetworkConfig::Networks(ShortOrLong::Short([id(n[0])].into_iter().collect()))));
        put(&mut c, SERVICES[0], &|s| { s.volumes.insert(volume(0, n[1]).0); });
        put(&mut c, last, &|s| { s.volumes.insert(volume(1, n[1]).0); });
        put(&mut c, SERVICES[0], &|s| s.configs.push(ShortOrLong::Short(id(n[2]))));
        put(&mut c, SERVICES[0], &|s| s.secrets.push(ShortOrLong::Long(long(id(n[3])))));
        c.networks.insert(id(d[0]), None);
        c.volumes.insert(id(d[1]), None);
        c.configs.insert(id(d[2]), config(false));
        c.secrets.insert(id(d[3]), secret(false));
        let bad = [n[0] != d[0], (n[1] != d[1]) & (services > 1), n[2] != d[2], n[3] != d[3]];
        let each = [c.validate_networks(), c.validate_volumes(), c.validate_configs(), c.validate_secrets()];
        let all = c.validate_all();
        let mut first = Ok(());
        for i in (0..4).rev() {
            check(each[i].is_err() == bad[i], "each kind is judged on its own");
            if each[i].is_err() {
                first = each[i].clone();
                reach("undefined");
            }
        }
        check(all == first, "validate_all reports the first of them");
        if all.is_ok() {
            reach("defined");
        }
    }
    // `n` services with a reference each or one with `n` of them; the one at `at` may be undefined.
    fn w_many(kind, n, at, one) {
        const FIELDS: [&str; 4] = ["networks", "configs", "secrets", "volumes"];
        let c = name();
        let num = |l: &str, j: usize| [l.as_bytes(), &[b'0' + (j / 10) as u8, b'0' + (j % 10) as u8]].concat();
        let word = |v: Vec<u8>| finish(v);
        let own = word(vec![b'r', b'1', c]);
        // Others refer to r20, r21 and on, which are defined unless they are volumes
        let item = |j: usize| -> Yaml {
            let t = if j == at { own.clone() } else { word(num("r", 20 + j)) };
            if kind != 3 {
                return Yaml::String(t);
            }
            Yaml::String(finish([t.as_bytes(), b":/t", &num("", 10 + j)].concat()))
        };
        let with = |items: Vec<Yaml>| Yaml::Mapping([(Yaml::from(FIELDS[kind]), Yaml::Sequence(items))].into_iter().collect());
        let (mut services, mut defined) = (Mapping::new(), Mapping::new());
        if one == 1 {
            services.insert("web".into(), with(vec![]));
            services.insert("db".into(), with((0..n).map(|j| item(j)).collect()));
        } else {
            for j in 0..n {
                services.insert(Yaml::String(word(num("s", 10 + j))), with(vec![item(j)]));
            }
        }
        if kind == 3 {
            // The second to use the volume comes last.
            services.insert("z".into(), with(vec![Yaml::String(finish([own.as_bytes(), b":/own"].concat()))]));
        }
        let def = |j: usize, d: &mut Mapping| {
            let v = match kind {
                1 => serde_yaml::from_str("file: f").unwrap(),
                2 => serde_yaml::from_str("environment: E").unwrap(),
                _ => Yaml::Null,
            };
            d.insert(Yaml::String(word(num("r", j))), v);
        };
        for j in 10..10 + n.min(10) {
            def(j, &mut defined);
        }
        for j in 20..20 + n {
            if kind != 3 {
                def(j, &mut defined);
            }
        }
        let doc: Mapping = [(Yaml::from("services"), Yaml::Mapping(services)), (Yaml::from(FIELDS[kind]), Yaml::Mapping(defined))].into_iter().collect();
        let Ok(d) = serde_yaml::from_value::<Compose>(Yaml::Mapping(doc)) else {
            check(false, "read");
            return;
        };
        let r = [Compose::validate_networks, Compose::validate_configs, Compose::validate_secrets, Compose::validate_volumes][kind](&d);
        let bad = !((c >= b'0') & (c < b'0' + n.min(10) as u8));
        check(r.is_err() == bad, "an undefined reference among many is an error");
        check(d.validate_all() == r, "validate_all finds the same");
        match r {
            Err(e) => {
                let text = e.to_string();
                check(text.starts_with(&FIELDS[kind][..FIELDS[kind].len() - 1]), "error names the kind");
                check(contains(&text, &[b'`', b'r', b'1', c, b'`']), "error names the resource");
                if kind != 3 {
                    let s = if one == 1 { b"db".to_vec() } else { num("s", 10 + at) };
                    check(contains(&text, &[b"`", &s[..], b"`"].concat()), "error names the service");
                }
                reach("undefined");
            }
            Ok(()) => reach("defined"),
        }
    }
    // What else is set beside a reference, in its definition or in its service does not matter:
    // line `from..from + n` of a table.
    fn w_beside(what, from, n) {
        const DEFINED: [Kind; 5] = [Kind::network_resource, Kind::volume_resource, Kind::config_resource, Kind::secret_resource, Kind::external];
        const USED: [Kind; 4] = [Kind::service_network, Kind::mount_volume, Kind::config_or_secret, Kind::config_or_secret];
        const FIELDS: [&str; 4] = ["networks", "volumes", "configs", "secrets"];
        let k = if what < 4 { USED[what] } else if what == 4 { Kind::service } else if what == 5 { Kind::compose } else { DEFINED[(what - 6).min(4)] };
        let (bases, ls) = lines(k);
        let i = from + pick(n);
        if i > ls.len() {
            return;
        }
        let Some((other, _, _)) = compose_with(k, pick(bases.len()), i, usize::MAX, 0) else { return };
        let (a, b) = (name(), name());
        let (used, defined) = (finish(vec![a]), finish(vec![b]));
        let map = |k: &str, v: Yaml| Yaml::Mapping([(Yaml::from(k), v)].into_iter().collect());
        let list = |v: Yaml| Yaml::Sequence(vec![v]);
        // Which kinds of reference are made, and how
        let kind = match what { 0..=3 => what, 10.. => (what - 10) % 4, 6..=9 => what - 6, _ => pick(4) };
        let mut reference = match (kind, what < 4) {
            (0, true) => map(&used, Yaml::Mapping(other.clone())),
            (1, true) => {
                let mut m = other.clone();
                m.insert("source".into(), used.as_str().into());
                list(Yaml::Mapping(m))
            }
            (_, true) => {
                let mut m = other.clone();
                m.insert("source".into(), used.as_str().into());
                list(Yaml::Mapping(m))
            }
            (1, _) => list(Yaml::from(format!("{used}:/t:ro"))),
            _ => list(Yaml::from(used.as_str())),
        };
        let mut service = if what == 4 { other.clone() } else { Mapping::new() };
        if service.contains_key("network_mode") && kind == 0 || FIELDS.iter().any(|f| service.contains_key(*f)) {
            return;
        }
        service.insert(FIELDS[kind].into(), reference.clone());
        let mut services = Mapping::new();
        services.insert("web".into(), Yaml::Mapping(service.clone()));
        if kind == 1 {
            // Only shared volumes have to be defined.
            reference = list(Yaml::from(format!("{used}:/t")));
            let second = map("volumes", reference);
            let first = fork();
            if first {
                services.shift_insert_first("db2", second);
            } else {
                services.insert("db2".into(), second);
            }
        }
        let mut doc = if what == 5 { other.clone() } else { Mapping::new() };
        if doc.contains_key(FIELDS[kind]) {
            return;
        }
        doc.insert("services".into(), Yaml::Mapping(services));
        let definition = if what >= 6 {
            Yaml::Mapping(other)
        } else if kind < 2 {
            Yaml::Null
        } else {
            map("file", "f".into())
        };
        doc.insert(FIELDS[kind].into(), map(&defined, definition));
        let Ok(c) = serde_yaml::from_value::<Compose>(Yaml::Mapping(doc)) else {
            check(false, "file accepted");
            return;
        };
        let each = [c.validate_networks(), c.validate_volumes(), c.validate_configs(), c.validate_secrets()];
        for (i, r) in each.iter().enumerate() {
            check(r.is_err() == ((i == kind) & (a != b)), "an undefined reference is an error");
            if let Err(e) = r {
                check(contains(&e.to_string(), &[b'`', a, b'`']), "error names the resource");
                reach("undefined");
            }
        }
        check(c.validate_all() == each[kind], "validate_all finds the same");
        if each[kind].is_ok() {
            reach("defined");
        }
    }
}
trait First {
    fn shift_insert_first(&mut self, k: &str, v: Yaml);
}
impl First for Mapping {
    fn shift_insert_first(&mut self, k: &str, v: Yaml) {
        let rest = std::mem::take(self);
        self.insert(k.into(), v);
        self.extend(rest);
    }
}

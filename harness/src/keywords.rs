//! Keywords and platforms: the documented table is accepted, nothing else.
use crate::{sx::*, util::*};
use compose_spec::{
    network::Driver,
    service::{
        build::Network as BuildNetwork,
        deploy::{resources::Capability, EndpointMode, FailureAction, Mode, Order, RestartCondition},
        develop::Action,
        platform::*,
        ports::Protocol,
        volumes::{mount::BindPropagation, SELinux},
        Cgroup, Condition, Platform, PullPolicy, Restart, Uts,
    },
};
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value;
use std::{borrow::Cow, fmt::Display, str::FromStr};

fn from<T: DeserializeOwned + PartialEq>(t: &str) -> Option<T> {
    read(Value::String(t.to_owned())).ok()
}
fn written<T: Serialize>(t: &T, text: &str) -> bool {
    match serde_yaml::to_value(t) {
        Ok(Value::String(s)) => same(&s, text),
        _ => false,
    }
}
fn listed<T>(t: &str, table: &[(&str, T)]) -> bool {
    table.iter().fold(false, |a, (k, _)| a | same(t, k))
}
fn meaning<T: PartialEq>(t: &str, v: &T, table: &[(&str, T)]) -> bool {
    table.iter().fold(true, |a, (k, x)| a & (!same(t, k) | (x == v)))
}
fn shown<T: AsRef<str> + Display + Serialize>(v: &T, k: &str) {
    check(same(v.as_ref(), k), "as_ref is the keyword");
    check(same(&v.to_string(), k), "printed as the keyword");
    check(written(v, k), "serialized as the keyword");
}
/// Keywords read by serde only.
fn closed<T: PartialEq + Copy + AsRef<str> + Display + Serialize + DeserializeOwned>(t: &str, table: &[(&str, T)], alias: &[(&str, T)]) {
    let ok = listed(t, table) | listed(t, alias);
    let v: Option<T> = from(t);
    check(v.is_some() == ok, "keyword accepted if and only if documented");
    if let Some(v) = v {
        check(meaning(t, &v, table) & meaning(t, &v, alias), "keyword means its value");
        let k = table.iter().find(|(_, x)| *x == v).map(|x| x.0);
        check(k.is_some(), "known value");
        shown(&v, k.unwrap());
        reach("accepted");
    }
}
/// Keywords read from text and by serde.
fn parsed<T: PartialEq + Copy + AsRef<str> + Display + Serialize + DeserializeOwned + FromStr>(t: &str, table: &[(&str, T)]) {
    closed(t, table, &[]);
    let v = t.parse::<T>().ok();
    check(v.is_some() == listed(t, table), "parsed if and only if documented");
    if let Some(v) = v {
        check(meaning(t, &v, table), "parsed to its value");
    }
}
/// Keywords where any other text is kept.
fn open<T>(t: &str, parse: fn(&str) -> T, owned: fn(String) -> T, table: &[(&str, T)], is_other: fn(&T) -> bool)
where
    T: PartialEq + Clone + AsRef<str> + Display + Serialize + DeserializeOwned + FromStr + Into<String>,
    Cow<'static, str>: From<T>,
{
    let known = listed(t, table);
    let v = parse(t);
    check(is_other(&v) == !known, "other text kept as such");
    check(meaning(t, &v, table), "keyword means its value");
    check(owned(t.to_owned()) == v && t.parse::<T>().ok().as_ref() == Some(&v) && from::<T>(t).as_ref() == Some(&v), "all ways to read agree");
    shown(&v, t);
    check(same(&Into::<String>::into(v.clone()), t), "converted to the text");
    check(same(&Cow::from(v), t), "converted to the text");
    if known {
        reach("known");
    } else {
        reach("other");
    }
}

const OSES: [(&str, Os, &str); 15] = [
    ("aix", Os::Aix, "ppc64"),
    ("android", Os::Android, "386 amd64 arm arm64"),
    ("darwin", Os::Darwin, "amd64 arm64"),
    ("dragonfly", Os::DragonFly, "amd64"),
    ("freebsd", Os::FreeBsd, "386 amd64 arm"),
    ("illumos", Os::Illumos, "amd64"),
    ("ios", Os::IOs, "arm64"),
    ("js", Os::Js, "wasm"),
    ("linux", Os::Linux, "386 amd64 arm arm64 loong64 mips mipsle mips64 mips64le ppc64 ppc64le riscv64 s390x"),
    ("netbsd", Os::NetBsd, "386 amd64 arm"),
    ("openbsd", Os::OpenBsd, "386 amd64 arm arm64"),
    ("plan9", Os::Plan9, "386 amd64 arm"),
    ("solaris", Os::Solaris, "amd64"),
    ("wasip1", Os::WasiP1, "wasm"),
    ("windows", Os::Windows, "386 amd64 arm arm64"),
];
const ARCHES: [(&str, Arch); 18] = [
    ("386", Arch::_386),
    ("amd64", Arch::Amd64),
    ("arm", Arch::Arm(None)),
    ("arm/v6", Arch::Arm(Some(ArmVariant::V6))),
    ("arm/v7", Arch::Arm(Some(ArmVariant::V7))),
    ("arm/v8", Arch::Arm(Some(ArmVariant::V8))),
    ("arm64", Arch::Arm64(None)),
    ("arm64/v8", Arch::Arm64(Some(Arm64Variant::V8))),
    ("loong64", Arch::Loong64),
    ("mips", Arch::Mips),
    ("mipsle", Arch::MipsLe),
    ("mips64", Arch::Mips64),
    ("mips64le", Arch::Mips64Le),
    ("ppc64", Arch::Ppc64),
    ("ppc64le", Arch::Ppc64Le),
    ("riscv64", Arch::RiscV64),
    ("s390x", Arch::S390x),
    ("wasm", Arch::Wasm),
];
/// Whether `os` runs on `arch` (with or without a variant).
fn runs(list: &str, arch: &str) -> bool {
    let base = arch.split('/').next().unwrap();
    list.split(' ').any(|a| a == base)
}
fn platforms(t: &str) {
    let mut ok = false;
    for (os, _, list) in OSES {
        ok |= same(t, os);
        for (arch, _) in ARCHES {
            if t.len() == os.len() + 1 + arch.len() && runs(list, arch) {
                let (b, n) = (t.as_bytes(), os.len());
                ok |= same_bytes(&b[..n], os.as_bytes()) & (b[n] == b'/') & same_bytes(&b[n + 1..], arch.as_bytes());
            }
        }
    }
    let p = t.parse::<Platform>();
    check(p.is_ok() == ok, "platform accepted if and only if listed");
    check(Platform::try_from(t) == p && from::<Platform>(t) == p.clone().ok(), "all ways to read agree");
    if let Ok(p) = p {
        shown(&p, t);
        let (os, arch) = t.split_once('/').map_or((t, None), |(a, b)| (a, Some(b)));
        for (k, v, _) in OSES {
            if same(k, os) {
                check(p.os() == v, "operating system of a platform");
                check((p == Platform::from(v)) == arch.is_none(), "platform from an operating system");
            }
        }
        check(p.arch().is_some() == arch.is_some(), "architecture of a platform");
        if let Some(arch) = arch {
            for (k, v) in ARCHES {
                if same(k, arch) {
                    check(p.arch() == Some(v), "architecture of a platform");
                }
            }
        }
        reach("accepted");
    }
}
fn os_arch<T>(t: &str, list: &str, os: Os, is: Os)
where
    T: PartialEq + Copy + AsRef<str> + Display + Serialize + DeserializeOwned + FromStr + TryFrom<Arch> + for<'a> TryFrom<&'a str>,
    Arch: From<T>,
{
    check(os == is, "operating system of an architecture");
    let mut ok = false;
    for (k, _) in ARCHES {
        ok |= runs(list, k) & same(t, k);
    }
    let v = t.parse::<T>().ok();
    check(v.is_some() == ok, "architecture accepted if and only if listed");
    check(v == T::try_from(t).ok() && v == from(t), "all ways to read agree");
    if let Some(v) = v {
        shown(&v, t);
        for (k, a) in ARCHES {
            if same(k, t) {
                check(Arch::from(v) == a, "converted to the same architecture");
            }
        }
        reach("accepted");
    }
    let (k, a) = ARCHES[pick(18)];
    let c = T::try_from(a);
    check(c.is_ok() == runs(list, k), "converted if and only if listed");
    if let Ok(c) = c {
        check(same(c.as_ref(), k) & (Arch::from(c) == a), "converted there and back");
        reach("converted");
    }
}

harness! {
    fn k_closed(which, n, mb) {
        let t = &text(n, mb);
        match which {
            0 => closed(t, &[("host", Cgroup::Host), ("private", Cgroup::Private)], &[]),
            1 => closed(t, &[("service_started", Condition::ServiceStarted), ("service_healthy", Condition::ServiceHealthy), ("service_completed_successfully", Condition::ServiceCompletedSuccessfully)], &[]),
            2 => closed(t, &[("host", Uts::Host)], &[]),
            3 => closed(t, &[("always", PullPolicy::Always), ("never", PullPolicy::Never), ("missing", PullPolicy::Missing), ("build", PullPolicy::Build)], &[("if_not_present", PullPolicy::Missing)]),
            4 => closed(t, &[("no", Restart::No), ("always", Restart::Always), ("on-failure", Restart::OnFailure), ("unless-stopped", Restart::UnlessStopped)], &[]),
            5 => closed(t, &[("rebuild", Action::Rebuild), ("sync", Action::Sync), ("sync+restart", Action::SyncAndRestart)], &[]),
            6 => closed(t, &[("global", Mode::Global), ("replicated", Mode::Replicated)], &[]),
            7 => closed(t, &[("none", RestartCondition::None), ("on-failure", RestartCondition::OnFailure), ("any", RestartCondition::Any)], &[]),
            8 => closed(t, &[("continue", FailureAction::Continue), ("pause", FailureAction::Pause)], &[]),
            9 => closed(t, &[("stop-first", Order::StopFirst), ("start-first", Order::StartFirst)], &[]),
            10 => closed(t, &[
                ("private", BindPropagation::Private), ("shared", BindPropagation::Shared), ("slave", BindPropagation::Slave), ("unbindable", BindPropagation::Unbindable),
                ("rprivate", BindPropagation::RPrivate), ("rshared", BindPropagation::RShared), ("rslave", BindPropagation::RSlave), ("runbindable", BindPropagation::RUnbindable)], &[]),
            _ => {
                let (v, k, c) = if fork() { (SELinux::Shared, "z", 'z') } else { (SELinux::Private, "Z", 'Z') };
                check(v.as_char() == c && char::from(v) == c && v.as_str() == k && v.as_ref() == k && v.to_string() == k, "relabeling shown");
                reach("accepted");
            }
        }
    }
    fn k_defaults() {
        // what is documented as the default
        check(Condition::default() == Condition::ServiceStarted && Uts::default() == Uts::Host && PullPolicy::default() == PullPolicy::Missing && Restart::default() == Restart::No, "documented default");
        check(Mode::default() == Mode::Replicated && RestartCondition::default() == RestartCondition::Any && BindPropagation::default() == BindPropagation::RPrivate, "documented default");
        check(FailureAction::default() == FailureAction::Pause && Order::default() == Order::StopFirst && Protocol::default() == Protocol::Tcp, "documented default");
        reach("defaults");
    }
    fn k_open(which, n, mb) {
        let t = &text(n, mb);
        match which {
            0 => {
                open(t, |t| EndpointMode::parse(t), |t| EndpointMode::parse(t), &[("vip", EndpointMode::VIp), ("dnsrr", EndpointMode::DnsRR)], |v| matches!(v, EndpointMode::Other(_)));
                let v = EndpointMode::parse(t.as_str());
                check((v.is_vip() == same(t, "vip")) & (v.is_dnsrr() == same(t, "dnsrr")), "predicates");
            }
            1 => {
                open(t, |t| Capability::parse(t), |t| Capability::parse(t), &[("gpu", Capability::Gpu), ("tpu", Capability::Tpu)], |v| matches!(v, Capability::Other(_)));
                let v = Capability::parse(t.as_str());
                check((v.is_gpu() == same(t, "gpu")) & (v.is_tpu() == same(t, "tpu")), "predicates");
            }
            2 => open(t, |t| Driver::parse(t), |t| Driver::parse(t), &[("host", Driver::Host), ("none", Driver::None)], |v| matches!(v, Driver::Other(_))),
            _ => {
                open(t, |t| Protocol::parse(t), |t| Protocol::parse(t), &[("tcp", Protocol::Tcp), ("udp", Protocol::Udp)], |v| matches!(v, Protocol::Other(_)));
                let v = Protocol::parse(t.as_str());
                check((v.is_tcp() == same(t, "tcp")) & (v.is_udp() == same(t, "udp")), "predicates");
            }
        }
    }
    fn k_build_network(n, mb) {
        let t = &text(n, mb);
        let none = same(t, "none");
        let v = BuildNetwork::parse(t.as_str());
        check(v.is_ok() == (none | crate::names::identifier(t)), "build network accepted");
        let v = v.ok();
        check(BuildNetwork::parse(t.clone()).ok() == v && t.parse().ok() == v, "all ways to read agree");
        check(n > 3 || from::<BuildNetwork>(t) == v, "all ways to read agree");
        if let Some(v) = v {
            check((v.is_none() == none) & (matches!(v, BuildNetwork::Identifier(_)) == !none), "kind of network");
            shown(&v, t);
            check(same(v.as_str(), t) & same(&String::from(v.clone()), t) & same(&Cow::from(v.clone()), t), "converted to the text");
            check(v.into_option().map_or(none, |i| same(i.as_str(), t) & !none), "converted to an option");
            if none {
                reach("none");
            } else {
                reach("network");
            }
        }
    }
    fn k_platform(n, mb) {
        platforms(&text(n, mb));
    }
    fn k_os(n, mb) {
        let t = &text(n, mb);
        parsed(t, &OSES.map(|(k, v, _)| (k, v)));
        parsed(t, &ARCHES);
        parsed(t, &[("v6", ArmVariant::V6), ("v7", ArmVariant::V7), ("v8", ArmVariant::V8)]);
        parsed(t, &[("v8", Arm64Variant::V8)]);
        check(Os::try_from(t.as_str()) == t.parse::<Os>() && Arch::try_from(t.as_str()) == t.parse::<Arch>(), "TryFrom agrees");
    }
    fn k_os_arch(which, n, mb) {
        let t = &text(n, mb);
        let list = OSES[which].2;
        let os = OSES[which].1;
        match which {
            0 => os_arch::<AixArch>(t, list, os, AixArch::OS),
            1 => os_arch::<AndroidArch>(t, list, os, AndroidArch::OS),
            2 => os_arch::<DarwinArch>(t, list, os, DarwinArch::OS),
            3 => os_arch::<DragonFlyArch>(t, list, os, DragonFlyArch::OS),
            4 => os_arch::<FreeBsdArch>(t, list, os, FreeBsdArch::OS),
            5 => os_arch::<IllumosArch>(t, list, os, IllumosArch::OS),
            6 => os_arch::<IOsArch>(t, list, os, IOsArch::OS),
            7 => os_arch::<JsArch>(t, list, os, JsArch::OS),
            8 => os_arch::<LinuxArch>(t, list, os, LinuxArch::OS),
            9 => os_arch::<NetBsdArch>(t, list, os, NetBsdArch::OS),
            10 => os_arch::<OpenBsdArch>(t, list, os, OpenBsdArch::OS),
            11 => os_arch::<Plan9Arch>(t, list, os, Plan9Arch::OS),
            12 => os_arch::<SolarisArch>(t, list, os, SolarisArch::OS),
            13 => os_arch::<WasiP1Arch>(t, list, os, WasiP1Arch::OS),
            _ => os_arch::<WindowsArch>(t, list, os, WindowsArch::OS),
        }
    }
}

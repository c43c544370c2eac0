//! Documents that must be refused: fields that exclude each other, missing and unknown fields,
//! fields given twice, values of the wrong kind. Tables are in the notation of `docs.rs`.
use crate::docs::*;
use crate::sx::*;
use crate::util::*;
use serde_yaml::{Mapping, Value as Yaml};

/// What may not be written, whatever else is.
fn bad(k: Kind) -> &'static [&'static str] {
    use Kind::*;
    match k {
        service => &[
            "network_mode: host, networks: [a?]", "network_mode: b?, networks: {a?: null}", "network_mode: none, networks: []", "network_mode: service:a, networks: {}", "network_mode: host, networks: {a: {}}", "network_mode: '', networks: [b]",
            "healthcheck: {disable: true, retries: @8}", "credential_spec: {config: a, file: ?}", "credential_spec: {}", "build: {dockerfile: ?, dockerfile_inline: ?}", "extends: {}", "extends: {file: ?}", "env_file: [{required: true}]", "develop: {watch: [{path: ?}]}",
            "configs: [{target: ?}]", "secrets: [{}]", "depends_on: {a?: {}}", "depends_on: {a?: {restart: true}}", "ports: [{published: 80}]", "volumes: [{target: /?}]", "ulimits: {nofile: {soft: @8}}", "networks: {a: {b?: 1}}", "deploy: {resources: {limit: {}}}",
        ],
        build => &["dockerfile: d?, dockerfile_inline: i?", "dockerfile: '', dockerfile_inline: ''", "secrets: [{target: ?}]", "ulimits: {nofile: {hard: 1}}"],
        healthcheck => &[
            "disable: true, test: %", "disable: true, test: [CMD]", "disable: true, test: [CMD, a]", "disable: true, test: [CMD-SHELL, a]", "disable: true, interval: 1s", "disable: true, timeout: 1s", "disable: true, retries: @8", "disable: true, start_period: 1s", "disable: true, start_interval: 1s", "disable: true, x-a: ?",
            "disable: true, interval: 0s", "disable: true, test: ''", "disable: true, x-a: null",
            "test: [NONE], interval: 1s", "test: [NONE], timeout: 1s", "test: [NONE], retries: @8", "test: [NONE], start_period: 1s", "test: [NONE], start_interval: 1s", "test: [NONE], x-a: ?", "test: [NONE], disable: true",
            "test: []", "test: [NONE, %]", "test: [CMD-SHELL]", "test: [CMD-SHELL, %, %]", "test: [CMD-SHELL, a, '']", "test: [CMD-SHELL, '', '']", "test: [CMD-SHELL, '', %%]", "test: [CMD-SHELL, a, b, c]", "test: [CMD-SHELL, NONE, CMD]", "test: [CMD-SHELL, [a]]", "test: [CMD, [a]]", "test: [NONE, '']", "test: [NONE, %%]", "test: [NONE, NONE]", "test: [NONE, [a]]", "test: [cmd, ?]", "test: [?]", "test: ['']", "test: [?, NONE]", "test: [CMD_SHELL, a]", "test: [SHELL, a]", "test: [none]", "test: {a: b}", "test: 1", "test: true",
        ],
        credential => &["config: c?, file: f?", "config: c?, registry: r?", "file: f?, registry: r?", "config: c, file: '', registry: ''", ""],
        config => &["file: ?, environment: E", "file: ?, content: ?", "environment: ?, content: ''", "file: '', environment: '', content: ''", ""],
        secret => &["file: ?, environment: E?", "file: '', environment: ''", ""],
        config_resource => &["file: ?, environment: E", "environment: ?, content: ''", "", "external: false", "external: false, name: ?", "external: true, file: ?", "external: true, environment: ?", "external: true, content: ''", "external: true, labels: {}", "external: true, name: ?, x-a: ?"],
        secret_resource => &["file: ?, environment: E?", "", "external: false", "external: true, file: ?", "external: true, environment: ?", "external: true, labels: []", "external: true, driver: ?", "external: true, driver_opts: {}", "external: true, name: ?, x-a: ?"],
        network_resource => &["external: true, driver: ?", "external: true, driver_opts: {}", "external: true, attachable: false", "external: true, enable_ipv6: false", "external: true, ipam: null", "external: true, internal: false", "external: true, labels: {}", "external: true, x-a: ?", "external: true, name: ?, driver: host", "external: ?", "external: 1", "external: {name: ?}"],
        volume_resource => &["external: true, driver: ?", "external: true, driver_opts: {}", "external: true, labels: {}", "external: true, x-a: null", "external: true, name: ?, driver: ?", "external: ''"],
        watch => &["path: ?", "action: sync", "", "path: ?, action: restart", "path: ?, action: Sync", "path: ?, action: null", "path: null, action: sync", "path: ?, action: sync, target: ?"],
        dependency => &["", "condition: null", "condition: started", "condition: ?", "condition: service_running"],
        include => &["", "path: null"],
        extends => &["", "service: null", "file: ?"],
        port => &["", "target: null", "published: 80", "target: ?", "target: -1", "target: 65536", "target: 80, published: 9-8", "target: 80, mode: ?", "target: 80, mode: Host", "target: 80, host_ip: ?"],
        mount => &[
            "", "target: /?", "type: volume", "type: bind, source: /?", "type: bind, target: /?", "type: npipe, target: /?", "type: npipe, source: /?", "type: cluster, target: /?", "type: cluster, source: ?", "type: tmpfs", "type: ?, target: /?", "type: Volume, target: /?", "type: '', target: /?", "type: null, target: /?",
            "type: volume, target: a?", "type: bind, source: a?, target: /?", "type: npipe, source: ?, target: /?", "type: tmpfs, target: ''", "type: volume, source: './a', target: /?",
        ],
        mount_volume => &["type: volume, target: /a, bind: {}", "type: volume, target: /a, tmpfs: {}", "type: volume, target: /a, volume: {size: 1}", "type: volume, target: /a, volume: {no_copy: true}", "type: volume, target: /a, volume: ?"],
        mount_bind => &["type: bind, source: /a, target: /a, volume: {}", "type: bind, source: /a, target: /a, tmpfs: {}", "type: bind, source: /a, target: /a, bind: {propagation: ?}", "type: bind, source: /a, target: /a, bind: {selinux: a}", "type: bind, source: /a, target: /a, bind: {selinux: zZ}", "type: bind, source: /a, target: /a, bind: {mode: 1}"],
        mount_tmpfs => &["type: tmpfs, target: /a, volume: {}", "type: tmpfs, target: /a, bind: {}", "type: tmpfs, target: /a, source: /a", "type: tmpfs, target: /a, tmpfs: {mode: -1}", "type: tmpfs, target: /a, tmpfs: {size: -1}", "type: tmpfs, target: /a, tmpfs: {nocopy: true}"],
        ulimit => &["soft: @8", "hard: @8", "", "soft: @8, hard: null", "soft: -2, hard: 1", "soft: 1, hard: -9", "soft: ?, hard: 1", "soft: 1, hard: ?"],
        res_device => &["", "driver: ?", "capabilities: ?", "capabilities: [gpu], count: ?", "capabilities: [gpu], count: -1", "capabilities: [gpu], count: ALL"],
        config_or_secret => &["", "target: ?", "source: null", "source: ''", "source: a, uid: ?", "source: a, gid: '-1'", "source: a, mode: -1", "source: a, mode: ?", "source: a, uid: ''"],
        env_file => &["", "required: false", "path: null", "path: a, required: ?", "path: a, required: 1"],
        blkio => &[
            "device_read_bps: [{path: /?}]", "device_read_bps: [{rate: 1b}]", "device_read_bps: [{path: ?, rate: 1b}]", "device_write_bps: [{path: /?}]", "device_write_bps: [{rate: 1b}]", "device_read_iops: [{path: /?}]", "device_read_iops: [{rate: 1}]", "device_write_iops: [{path: /?}]",
            "device_write_iops: [{rate: 1}]", "device_write_iops: [{path: /?, rate: -1}]", "weight_device: [{path: /?}]", "weight_device: [{weight: 20}]", "weight_device: [{path: /?, weight: 9}]", "weight_device: [{path: /?, weight: 1001}]", "weight: #", "weight: 1001", "weight: -10", "weight: ?",
        ],
        compose => &[
            "", "services: []", "services: {a: ?}", "services: ?", "services: {'': {}}", "services: {a: {image: ''}}", "services: {}, name: ''", "services: {}, name: A?", "services: {}, networks: {a: {driver: [b]}}", "services: {}, networks: {'': null}", "services: {}, volumes: {a: {external: true, driver: ?}}",
            "services: {}, configs: {a: null}", "services: {}, configs: {a: {}}", "services: {}, secrets: {a: {}}", "services: {}, secrets: {a: null}", "services: {}, include: [{}]", "services: {}, include: ?", "services: {}, volumes: [a]", "services: {a: []}", "services: {a: {b?: 1}}", "services: {}, configs: {'.': {file: ?}}",
        ],
        ipam_config => &["subnet: 10.0.0.#", "subnet: 10.0.0.0/33", "ip_range: ?", "gateway: ?", "gateway: 10.0.0.0/8", "aux_addresses: {h: ?}", "aux_addresses: {'-': 10.0.0.1}", "aux_addresses: [a]"],
        limits => &["cpus: -1.5", "cpus: -1#", "cpus: ?", "memory: ?", "memory: ''", "memory: -1", "pids: -2", "pids: 4294967296", "pids: ?"],
        update => &["failure_action: ?", "failure_action: Pause", "order: stop_first", "order: ?", "delay: ?", "monitor: '1'", "monitor: -1", "delay: []", "parallelism: -1", "max_failure_ratio: ?"],
        restart_policy => &["condition: ?", "condition: always", "delay: ?", "delay: -1", "delay: ''", "delay: true", "window: ?s", "max_attempts: -1"],
        _ => &[],
    }
}
/// Groups of lines; no two of different groups go together.
fn exclusive(k: Kind) -> &'static [&'static [&'static str]] {
    use Kind::*;
    const FILE: &[&str] = &["file: %", "file: ''"];
    const ENVIRONMENT: &[&str] = &["environment: %", "environment: ''"];
    const CONTENT: &[&str] = &["content: %", "content: ''"];
    const EXTERNAL: &[&str] = &["external: true", "external: true, name: %", "name: '', external: true"];
    const DISABLED: &[&str] = &["disable: true", "test: [NONE]", "test: [NONE], disable: false"];
    match k {
        service => &[
            &["network_mode: none", "network_mode: host", "network_mode: service:a?", "network_mode: container:?", "network_mode: %", "network_mode: ''"],
            &["networks: []", "networks: {}", "networks: [a?]", "networks: {a?: null}", "networks: {a?: {}}", "networks: [default]", "networks: {a: null, b: {priority: @8}}"],
        ],
        build => &[&["dockerfile: %", "dockerfile: ''"], &["dockerfile_inline: %", "dockerfile_inline: ''"]],
        credential => &[&["config: a?"], FILE, &["registry: %", "registry: ''"]],
        config => &[FILE, ENVIRONMENT, CONTENT],
        secret => &[FILE, ENVIRONMENT],
        config_resource => &[FILE, ENVIRONMENT, CONTENT, EXTERNAL],
        secret_resource => &[FILE, ENVIRONMENT, EXTERNAL],
        network_resource => &[EXTERNAL, NETWORK],
        volume_resource => &[EXTERNAL, VOLUME],
        external => &[&["external: true"], LABELS],
        no_healthcheck => &[DISABLED, HEALTHCHECK],
        healthcheck => &[&["disable: true"], &["test: %", "test: ''", "test: [CMD]", "test: [CMD, '']", "test: [CMD, %]", "test: [CMD-SHELL, '']", "test: [CMD-SHELL, %]", "test: [NONE]"]],
        mount_volume => &[&["type: volume, target: /t"], &["bind: {}", "bind: {create_host_path: true}", "bind: {x-?: #}", "tmpfs: {}", "tmpfs: {size: 1b}", "bind: ?", "tmpfs: null", "bind: null"]],
        mount_bind => &[&["type: bind, source: /s, target: /t"], &["volume: {}", "volume: {nocopy: true}", "volume: {x-?: #}", "tmpfs: {}", "tmpfs: {mode: 1}", "volume: ?", "tmpfs: null", "volume: null"]],
        mount_tmpfs => &[&["type: tmpfs, target: /t"], &["volume: {}", "volume: {nocopy: false}", "bind: {}", "bind: {x-?: #}", "source: ?", "source: /?", "volume: ?", "bind: null", "source: null", "volume: null"]],
        mount => &[&["type: npipe, source: /s, target: /t", "type: cluster, source: s, target: /t"], &["volume: {}", "volume: {nocopy: true}", "bind: {}", "bind: {x-?: #}", "tmpfs: {}", "tmpfs: {size: 1b}", "bind: null", "volume: null", "tmpfs: null"]],
        _ => &[],
    }
}
/// Values of the wrong kind for a field.
fn wrong(k: Kind) -> &'static [(&'static str, &'static [&'static str])] {
    use Kind::*;
    const BOOL: &[&str] = &["?", "''", "#", "'true'", "[true]", "{}", "yes"];
    const UINT: &[&str] = &["-1", "?", "''", "[#]", "{}", "true", "1.5"];
    const TEXT: &[&str] = &["[a]", "{a: b}", "[]", "{}"];
    const LIST: &[&str] = &["?", "@8", "true", "{a: b}", "[[a]]", "[{}]"];
    const MAP: &[&str] = &["?", "''", "@8", "true", "[a]"];
    const ITEMS: &[&str] = &["true", "@8", "{a: b}", "[[a]]", "[null]"];
    const LIST_OR_MAP: &[&str] = &["?", "true", "@8", "[[a]]", "[{}]", "{a: [b]}", "{a: {}}"];
    match k {
        service => &[
            ("attach", BOOL), ("init", BOOL), ("oom_kill_disable", BOOL), ("privileged", BOOL), ("read_only", BOOL), ("stdin_open", BOOL), ("tty", BOOL),
            ("cpu_count", UINT), ("cpu_percent", UINT), ("cpu_shares", UINT), ("mem_swappiness", UINT), ("scale", UINT), ("cpu_percent", &["101", "255", "256"]), ("mem_swappiness", &["101", "300"]), ("oom_score_adj", &["1001", "-1001", "?", "40000"]),
            ("cgroup_parent", TEXT), ("container_name", TEXT), ("domainname", TEXT), ("hostname", TEXT), ("image", TEXT), ("isolation", TEXT), ("pid", TEXT), ("platform", TEXT), ("pull_policy", TEXT), ("restart", TEXT), ("runtime", TEXT), ("stop_signal", TEXT), ("userns_mode", TEXT), ("working_dir", TEXT), ("ipc", TEXT), ("uts", TEXT), ("cgroup", TEXT), ("mac_address", TEXT), ("network_mode", TEXT), ("mem_limit", TEXT), ("stop_grace_period", TEXT), ("user", TEXT),
            ("cap_add", LIST), ("cap_drop", LIST), ("dns_opt", LIST), ("profiles", LIST), ("security_opt", LIST), ("links", LIST), ("external_links", LIST), ("volumes_from", LIST), ("devices", LIST), ("device_cgroup_rules", LIST),
            ("blkio_config", MAP), ("credential_spec", MAP), ("deploy", MAP), ("develop", MAP), ("extends", MAP), ("healthcheck", MAP), ("logging", MAP), ("storage_opt", MAP), ("ulimits", MAP),
            ("command", ITEMS), ("entrypoint", ITEMS), ("dns", ITEMS), ("dns_search", ITEMS), ("tmpfs", ITEMS),
            ("environment", LIST_OR_MAP), ("annotations", LIST_OR_MAP), ("labels", LIST_OR_MAP), ("sysctls", LIST_OR_MAP),
            ("working_dir", &["a?", "./a", "''"]), ("tmpfs", &["a?", "[a?]", "''"]), ("restart", &["?", "''", "Always", "on_failure"]), ("cgroup", &["?", "HOST"]), ("uts", &["?", "private"]), ("pull_policy", &["?", "if-not-present"]), ("cpus", &["-1", "?", "-0.5"]), ("configs", &["?", "{}", "[[a]]", "['']"]), ("secrets", &["?", "{}", "[null]", "['']"]), ("ports", &["?", "{}", "[null]", "[a?]"]), ("volumes", &["?", "{}", "[null]", "[a?]"]), ("expose", &["?", "{}", "[a?]"]), ("depends_on", &["?", "@8", "[[a]]", "{a: null}"]), ("env_file", &["@8", "{path: a}", "[[a]]", "[null]"]), ("group_add", &["?", "{}", "[[a]]"]), ("networks", &["?", "@8", "[[a]]", "{a: ?}"]), ("build", &["@8", "[a]", "true"]),
        ],
        build => &[
            ("privileged", BOOL), ("no_cache", BOOL), ("pull", BOOL), ("target", TEXT), ("isolation", TEXT), ("dockerfile", TEXT), ("dockerfile_inline", TEXT), ("network", TEXT), ("shm_size", TEXT), ("context", TEXT), ("ssh", LIST), ("cache_from", LIST), ("cache_to", LIST), ("entitlements", LIST), ("tags", LIST), ("platforms", LIST),
            ("ulimits", MAP), ("args", LIST_OR_MAP), ("labels", LIST_OR_MAP), ("additional_contexts", LIST_OR_MAP), ("platforms", &["[a?]", "[linux/?]"]), ("secrets", &["?", "{}", "[null]", "['']"]), ("extra_hosts", &["?", "{a: ?}", "[a]"]),
        ],
        network => &[("attachable", BOOL), ("enable_ipv6", BOOL), ("internal", BOOL), ("driver", TEXT), ("name", TEXT), ("driver_opts", MAP), ("ipam", MAP), ("labels", LIST_OR_MAP), ("driver_opts", &["{a: true}", "{a: null}", "{a: [b]}", "{'': a}"])],
        volume => &[("driver", TEXT), ("name", TEXT), ("driver_opts", MAP), ("labels", LIST_OR_MAP), ("driver_opts", &["{a: true}", "{a: null}", "{a: {}}", "{'': a}"])],
        ipam => &[("driver", TEXT), ("config", &["?", "@8", "true", "{a: b}", "[a?]", "[[a]]"]), ("options", MAP), ("options", &["{a: null}", "{a: [b]}", "{'': a}"])],
        deploy => &[("mode", TEXT), ("mode", &["?", "Global"]), ("replicas", UINT), ("placement", MAP), ("resources", MAP), ("restart_policy", MAP), ("rollback_config", MAP), ("update_config", MAP), ("labels", LIST_OR_MAP), ("endpoint_mode", TEXT)],
        placement => &[("constraints", LIST), ("preferences", &["?", "{}", "[a]", "[[a]]"]), ("max_replicas_per_node", UINT)],
        preference => &[("spread", TEXT)],
        reservations => &[("cpus", &["-1", "?"]), ("memory", &["?", "''", "[]"]), ("devices", &["?", "{}", "[a]", "[{}]"]), ("generic_resources", &["?", "{}", "[a]", "[{kind: ?}]"])],
        resources => &[("limits", MAP), ("reservations", MAP)],
        generic_resource => &[("discrete_resource_spec", MAP)],
        discrete => &[("kind", TEXT), ("value", UINT)],
        logging => &[("driver", TEXT), ("options", MAP), ("options", &["{a: true}", "{a: [b]}", "{'': a}"])],
        service_network => &[("aliases", LIST), ("ipv4_address", &["?", "'::1'", "10.0.0.256"]), ("ipv6_address", &["?", "10.0.0.#"]), ("link_local_ips", LIST), ("link_local_ips", &["[a?]"]), ("mac_address", &["?", "'1:2'"]), ("driver_opts", MAP), ("priority", UINT)],
        healthcheck => &[("disable", BOOL), ("retries", UINT), ("interval", TEXT), ("timeout", TEXT), ("start_period", TEXT), ("start_interval", TEXT), ("interval", &["?", "'1'", "-1", "true"]), ("timeout", &["?", "'#'", "{}"]), ("start_period", &["?"]), ("start_interval", &["?x"])],
        config => &[("labels", LIST_OR_MAP)],
        secret => &[("labels", LIST_OR_MAP), ("driver", TEXT), ("driver_opts", MAP)],
        include => &[("project_directory", TEXT), ("env_file", ITEMS), ("path", ITEMS)],
        port => &[("name", TEXT), ("app_protocol", TEXT), ("mode", TEXT), ("protocol", TEXT), ("published", &["?", "''", "-1", "{}", "70000"])],
        mount => &[("read_only", BOOL), ("consistency", TEXT), ("target", TEXT), ("type", TEXT)],
        watch => &[("ignore", LIST), ("target", TEXT), ("action", TEXT)],
        compose => &[("version", TEXT), ("name", TEXT), ("include", &["?", "{}", "[[a]]", "[{path: null}]"]), ("networks", MAP), ("volumes", MAP), ("configs", MAP), ("secrets", MAP)],
        _ => &[],
    }
}
fn open_fields(k: Kind) -> bool {
    use Kind::*;
    !matches!(k, develop | blkio | env_file | extends | dependency | include | include_list | external)
}
/// Keys the tables know for this kind.
fn known(k: Kind) -> Vec<String> {
    let (bases, ls) = lines(k);
    let mut v: Vec<String> = Vec::new();
    let more: &[&str] = match k {
        Kind::mount_volume | Kind::mount_bind | Kind::mount_tmpfs => &["consistency", "source"],
        Kind::mount | Kind::config | Kind::secret | Kind::credential | Kind::config_resource | Kind::secret_resource => &["source", "file", "environment", "content", "config", "registry", "external", "name", "volume", "bind", "tmpfs"],
        Kind::network_resource | Kind::volume_resource => &["external"],
        Kind::healthcheck | Kind::no_healthcheck => &["test", "disable", "interval", "timeout", "retries", "start_period", "start_interval"],
        _ => &[],
    };
    for t in bases.iter().chain(ls).chain(more) {
        let key = t.split(':').next().unwrap();
        if !key.is_empty() && !key.starts_with("x-") && !v.iter().any(|k| k == key) {
            v.push(key.to_owned());
        }
        let mut syms = Vec::new();
        if bases.contains(t) {
            for k in Reader::fixed(t.split("=>").next().unwrap(), &mut syms).entries().keys() {
                let k = k.as_str().unwrap();
                if !v.iter().any(|l| l == k) {
                    v.push(k.to_owned());
                }
            }
        }
    }
    v
}
fn reversed(m: &Mapping) -> Mapping {
    let mut v: Vec<_> = m.clone().into_iter().collect();
    v.reverse();
    v.into_iter().collect()
}
fn must_refuse(k: Kind, doc: Mapping) {
    reach("refused");
    check(refuses(k, Yaml::Mapping(doc)), "refuse:accepted");
}
/// A line that goes with `doc`, before or after it; false if it does not fit.
fn beside(doc: &mut Mapping, t: &str, first: bool) -> bool {
    let (extra, _) = line_as(t, true);
    if extra.keys().any(|k| doc.contains_key(k)) {
        return false;
    }
    let mut all = if first { extra.clone() } else { std::mem::take(doc) };
    let rest = if first { std::mem::take(doc) } else { extra };
    for (k, v) in rest {
        all.insert(k, v);
    }
    *doc = all;
    true
}

/// Make entry `at` of the first collection of `n` or more, other than extensions, a list of a list.
fn spoil(y: &mut Yaml, n: usize, at: usize) -> bool {
    let bad = || Yaml::Sequence(vec![Yaml::Sequence(vec![])]);
    match y {
        Yaml::Sequence(v) if v.len() >= n => {
            v[at] = bad();
            true
        }
        Yaml::Mapping(m) if m.len() >= n => match m.iter_mut().nth(at) {
            Some((k, v)) if !k.as_str().is_some_and(|k| k.starts_with("x-")) => {
                *v = bad();
                true
            }
            _ => false,
        },
        Yaml::Sequence(v) => v.iter_mut().any(|v| spoil(v, n, at)),
        Yaml::Mapping(m) => m.iter_mut().any(|(_, v)| spoil(v, n, at)),
        _ => false,
    }
}

harness! {
    // Entries `from..from + n` of the bad table, beside every line of the type's table.
    fn r_bad(k, from, n) {
        let k = KINDS[k];
        let (_, ls) = lines(k);
        let b = bad(k);
        let t = from + pick(n);
        assume(t < b.len());
        let (mut doc, _) = line(b[t]);
        if fork() {
            doc = reversed(&doc);
        }
        let how = pick(ls.len() * 2 + 1);
        if how > 0 && !beside(&mut doc, ls[(how - 1) / 2], how % 2 == 0) {
            return;
        }
        if b[t].is_empty() && doc.contains_key("services") {
            return;
        }
        must_refuse(k, doc);
    }
    // Two lines of different groups, beside every line of the type's table.
    fn r_pair(k, from, n) {
        let k = KINDS[k];
        let e = exclusive(k);
        let i = pick(e.len());
        let j = pick(e.len());
        assume(i < j);
        let a = from + pick(n);
        let b = pick(e[j].len());
        if a >= e[i].len() {
            return;
        }
        let (mut doc, _) = line(e[i][a]);
        // Keys of an ordinary line that says what the other one does, or nothing.
        let (key, val) = line(e[j][b]).0.into_iter().next().unwrap();
        if doc.contains_key(&key) || matches!(key.as_str().unwrap(), "name" | "disable" if !val.as_bool().unwrap_or(false)) {
            return;
        }
        if val.is_null() && !e[j][b].contains("null") || (val.is_null() && !matches!(k, Kind::mount | Kind::mount_volume | Kind::mount_bind | Kind::mount_tmpfs)) {
            return;
        }
        doc.insert(key, val);
        if fork() {
            doc = reversed(&doc);
        }
        let (_, ls) = lines(k);
        let how = pick(ls.len() * 2 + 1);
        if how > 0 && !beside(&mut doc, ls[(how - 1) / 2], how % 2 == 0) {
            return;
        }
        must_refuse(k, doc);
    }
    // A value of the wrong kind.
    fn r_kind(k, from, n, more) {
        let k = KINDS[k];
        let w = wrong(k);
        let i = from + pick(n);
        assume(i < w.len());
        let (field, values) = w[i];
        let (bases, _) = lines(k);
        let mut syms = Vec::new();
        let v = Reader::new(values[pick(values.len())], &mut syms).value();
        let mut doc = line(bases[pick(bases.len())]).0;
        doc.insert(Yaml::String(field.to_owned()), v);
        let (_, ls) = lines(k);
        let how = if more == 1 { pick(ls.len() * 2 + 1) } else { 0 };
        if how > 0 && !beside(&mut doc, ls[(how - 1) / 2], how % 2 == 0) {
            return;
        }
        must_refuse(k, doc);
    }
    // A key of `n` symbolic characters that is no field and no extension.
    fn r_key(k, n) {
        let k = KINDS[k];
        let key = ascii(n);
        unknown(k, key);
    }
    // A field's name with one symbolic character in place of, before or after one of its own, or without one.
    fn r_typo(k, from, n, how) {
        let k = KINDS[k];
        let fields = known(k);
        let i = from + pick(n);
        if i >= fields.len() {
            return;
        }
        let f = fields[i].as_bytes();
        let at = pick(f.len() + 1);
        let mut v = Vec::with_capacity(f.len() + 1);
        v.extend_from_slice(&f[..at]);
        if how < 2 {
            v.push(sym(7) as u8);
        }
        if how == 1 {
            v.extend_from_slice(&f[at..]);
        } else if at < f.len() {
            v.extend_from_slice(&f[at + 1..]);
        }
        unknown(k, finish(v));
    }
    // One entry of the wrong kind among many.
    fn r_many(which, n) {
        let (k, t) = MANY[which];
        let at = if fork() { 0 } else if fork() { n / 2 } else { n - 1 };
        let (mut doc, _) = line_as(lines(k).0[0], true);
        let (a, _) = line_as(&many(t, n, n), true);
        merge(&mut doc, &a);
        let mut doc = Yaml::Mapping(doc);
        if spoil(&mut doc, n, at) {
            check(refuses(k, doc), "many:refused");
            reach("refused");
        }
    }
    // External resources have a name and nothing else.
    fn r_external(n, named, which) {
        let key = ascii(n);
        assume(!same(&key, "name") & !same(&key, "external"));
        let mut doc = Mapping::new();
        if which & 4 == 4 {
            doc.insert("name".into(), "a".into());
        }
        let value = if named == 1 { Yaml::Null } else { "b".into() };
        doc.insert("external".into(), true.into());
        doc.insert(Yaml::String(key), value);
        let k = [Kind::network_resource, Kind::volume_resource, Kind::config_resource, Kind::secret_resource][which & 3];
        must_refuse(k, doc);
    }
    // A field given twice.
    fn r_twice(k, from, n) {
        let k = KINDS[k];
        let (bases, ls) = lines(k);
        let i = from + pick(n);
        assume(i < ls.len());
        let (doc, _) = line_as(bases[pick(bases.len())], true);
        let (one, _) = line(ls[i]);
        let (two, _) = line(ls[i]);
        let (key, val) = one.into_iter().next().unwrap();
        let key = key.as_str().unwrap().to_owned();
        if key.starts_with("x-") || val.is_null() || doc.contains_key(key.as_str()) {
            return;
        }
        let mut pairs: Vec<(String, Yaml)> = Vec::new();
        let first = fork();
        if first {
            pairs.push((key.clone(), val.clone()));
        }
        for (k, v) in doc {
            pairs.push((k.as_str().unwrap().to_owned(), v));
        }
        if !first {
            pairs.push((key.clone(), val));
        }
        pairs.push((key, two.into_iter().next().unwrap().1));
        reach("twice");
        check(refuses_pairs(k, pairs), "refuse:twice");
    }
    // A required field or the only source given twice.
    fn r_base_twice(k) {
        let k = KINDS[k];
        let (bases, _) = lines(k);
        let (doc, _) = line_as(bases[pick(bases.len())], true);
        let mut pairs: Vec<(String, Yaml)> = Vec::new();
        for (k, v) in doc {
            pairs.push((k.as_str().unwrap().to_owned(), v));
        }
        if pairs.is_empty() {
            return;
        }
        let i = pick(pairs.len());
        let p = pairs[i].clone();
        if fork() {
            pairs.push(p);
        } else {
            pairs.insert(0, p);
        }
        reach("twice");
        check(refuses_pairs(k, pairs), "refuse:twice");
    }
}
fn unknown(k: Kind, key: String) {
    let mut is = key.as_bytes().starts_with(b"x-");
    for f in known(k) {
        is |= same(&key, &f);
    }
    assume(!is);
    let (bases, _) = lines(k);
    let (mut doc, _) = line_as(bases[0], true);
    let v = match pick(3) {
        0 => Yaml::Null,
        1 => Yaml::String("a".into()),
        _ => Yaml::Mapping(Mapping::new()),
    };
    doc.insert(Yaml::String(key), v);
    must_refuse(k, doc);
}

"""Instances (harness function, sizes, CPU budget) per property and tier."""
import os, re

COMMON = [
    "LLVM IR of the harness, the crate and its dependencies as rustc stable emits it (overflow checks on), after LLVM's own scalar optimisations",
    "hash function replaced by a constant (hash maps see every key collide); allocation never fails",
]


class P:
    def __init__(self, tier):
        self.tier, self.q = tier, tier == "quick"
        self.inst, self.bounds, self.reach_, self.ass = [], [], [], list(COMMON)

    def add(self, fn, *args, cpu=60, cpu_t=None, q=True, t=True):
        """One instance. q/t: part of the quick/thorough tier."""
        if (self.q and q) or (not self.q and t):
            name = fn + "".join("_%s" % a for a in args)
            if all(i[0] != name for i in self.inst):
                self.inst.append((name, cpu if self.q else (cpu_t or cpu * 8), fn, [int(a) for a in args]))

    def sizes(self, fn, quick, thorough, *rest, **kw):
        for n in range(0, (quick if self.q else thorough) + 1):
            self.add(fn, n, *rest, **kw)

    def sizes_at(self, fn, quick, thorough, which, **kw):
        for n in range(0, (quick if self.q else thorough) + 1):
            self.add(fn, which, n, 0, **kw)

    def bound(self, s):
        self.bounds.append(s)

    def reach(self, *s):
        self.reach_ += s


def names(p):
    Q = {"n_project": (8, 16), "n_identifier": (8, 16), "n_mapkey": (8, 16), "n_extension": (8, 16), "n_hostname": (7, 12),
         "n_resource": (8, 16), "n_user_name": (6, 9), "n_id_or_name": (6, 9), "n_cache_option": (7, 12), "n_tag": (8, 16), "n_digest": (7, 11)}
    for f, (q, t) in Q.items():
        p.sizes(f, q, t, 0)
        for n in range(1, (3 if p.q else 5)):
            for pos in range(n):
                for k in (2, 3, 4):
                    p.add(f, n, 10 * pos + k)
        p.reach(f + (":accepted" if f != "n_id_or_name" else ":name"))
    p.reach("n_id_or_name:id", "n_user_group:group")
    p.sizes("n_user_group", 5, 8)
    for f in ("n_project", "n_identifier", "n_mapkey", "n_extension", "n_hostname", "n_resource", "n_cache_option", "n_tag", "n_digest"):
        lens = (31, 61, 62, 63, 64, 126, 127, 128, 253, 254, 255, 256, 300) if p.q else tuple(range(28, 34)) + tuple(range(60, 66)) + tuple(range(124, 131)) + tuple(range(252, 258)) + (300, 511, 512, 1023, 1024)
        for l in lens:
            p.add(f + "_long", l, 1, 0)
            p.add(f + "_long", 0, 1, l)
            p.add(f + "_long", l // 2, 2, l - l // 2, t=l <= 300, q=l in (63, 127, 255))
    for c in "a0":
        for l in (8, 9, 10, 15, 28, 29, 30, 31, 32, 33, 64, 127, 255):
            for f in ("n_user_name_long", "n_id_or_name_long"):
                p.add(f, ord(c), l, 1, 0)
                p.add(f, ord(c), 0, 1, l)
                p.add(f, ord(c), l // 2, 1, l - l // 2)
                p.add(f, ord(c), l - 2, 3, 0, q=l in (8, 9, 10, 30))
    for n in (3, 5):
        for l in (64, 128, 300):
            p.add("n_digest_mid", n, l)
    p.bound("every name type: all ASCII strings up to the listed length; strings with one character outside ASCII at every position up to length %d; strings of 28 to 300 (thorough: 1024) repeated characters with 1 to 3 symbolic characters before, inside or after" % (2 if p.q else 4))


def images(p):
    p.sizes("i_ref", 8, 11, 0, cpu=60, cpu_t=1200)
    p.sizes("i_name", 8, 11, 0, cpu=60, cpu_t=1200)
    mb(p, "i_ref", 2, 4)
    mb(p, "i_name", 2, 4)
    p.sizes("i_ref_tail", 5, 8)
    p.sizes("i_ref_port", 6, 9)
    for n in range(0, 6 if p.q else 9):
        p.add("i_ref_digest", n, 0)
        p.add("i_ref_digest", n, 64)
    for pre in (62, 63, 64, 118, 125, 126, 127, 128, 129, 254, 255, 256):
        for n in (1, 2):
            p.add("i_ref_long_tag", pre, n)
        p.add("i_ref_long", pre, 1, 0)
        p.add("i_ref_long", 1, 2, pre)
        p.add("i_name_long", pre, 1, 1)
        p.add("i_name_long", pre, 2, pre)
    for n in (4, 9, 17, 33):
        for at in (0, 1, n // 2, n - 1):
            for around in range(4):
                p.add("i_ref_parts", n, at, around, q=n in (4, 17))
    for kind in range(72):
        p.add("i_edit", kind, 1, kind % 3)
        p.add("i_edit", kind, 2, kind % 3, cpu=20)
        p.add("i_edit", kind, 3, kind % 3, q=False)
        if not p.q:
            p.add("i_edit", kind, 2, (kind + 1) % 3)
            p.add("i_edit", kind, 2, (kind + 2) % 3)
    for k in range(3):
        for t in range(4):
            p.add("i_registry_only", k, t)
    for f in range(5):
        for a in range(5):
            for t in range(3):
                p.add("i_registry_arg", f, a, t)
    for k in range(4):
        for t in range(2):
            p.add("i_port_only", k, t)
    p.reach("i_ref:accepted", "i_ref:tag", "i_ref:digest", "i_name:accepted", "i_edit:edited", "i_registry_only:edited", "i_registry_arg:edited", "i_port_only:edited", "i_ref_digest:digest", "i_ref_tail:tag", "i_ref_port:accepted")
    p.bound("references and names: all ASCII strings up to the listed length, one non-ASCII character at every position of short ones, long tags/digests/names around 64, 128, 256 characters")
    p.bound("edits: 72 starting shapes (registry none/host/host with port, three paths, three tag lengths, two digest lengths, symbolic characters in each), every sequence of 2 (thorough: 3) edits out of 11, arguments with symbolic characters in one of three lengths")


def mb(p, fn, q, t):
    """One non-ASCII character at every position of short strings."""
    for n in range(1, (q if p.q else t) + 1):
        for pos in range(n):
            for k in (2, 3, 4):
                p.add(fn, n, 10 * pos + k)


def ports(p):
    p.sizes("p_short_text", 6, 8, 0)
    mb(p, "p_short_text", 2, 4)
    p.sizes("p_range_text", 7, 12, 0)
    mb(p, "p_range_text", 2, 4)
    p.sizes("p_expose_text", 6, 9, 0)
    mb(p, "p_expose_text", 2, 4)
    for k in range(6):
        for n in range(0, 4 if p.q else 6):
            p.add("p_short_ip", k, n)
    for h in (0, 1, 2, 5, 6, 11, 22, 33, 54, 55):
        for c in (1, 5, 6, 11, 22, 33, 54, 55):
            for lead in range(4):
                p.add("p_short_digits", h, c, lead, 1, q=(h + c) % 5 == 0 or h == c or h == 0 or c == 6)
                p.add("p_short_digits", h, c, lead, 2, q=h < 10 and c < 10)
            p.add("p_short_digits", h, c, 0, 5, q=h == 0 and c < 10)
    p.add("p_range")
    for t in range(4):
        for k in range(10):
            p.add("p_width", t, k)
    for h in (0, 1):
        for c in (0, 1):
            p.add("p_ranges", h, c)
    for ip in range(6):
        for h in (0, 1):
            for c in (0, 1):
                for pk in (0, 1, 2, 3, 4, 5, 6):
                    for base in (0, 92, 992, 9992, 65520):
                        p.add("p_short_build", ip, h, c, pk, base, q=(ip <= 2 and c == 0 and base == 65520) or (ip == 0 and pk <= 3 and base in (0, 9992)) or (pk == 0 and c == 0 and base == 92))
    for k in (0, 1):
        for base in (0, 92, 992, 9992, 65520):
            p.add("p_range_round", k, base)
    for k in range(3):
        p.add("p_number", k)
    for ip in range(3):
        for h in (0, 1):
            for size in (1, 2, 3, 5) if p.q else (1, 2, 3, 5, 8, 17, 64):
                for pk in (0, 2, 4):
                    p.add("p_to_long", ip, h, size, pk)
    for h in (0, 1):
        for size in (17, 40):
            p.add("p_to_long", 0, h, size, 0, q=True)
    for f in range(256):
        if f & 3 != 3:
            p.add("p_to_short", f, q=bin(f).count("1") <= 2)
    for size in (1, 2, 3):
        for f in (0, 1, 2, 5, 17, 128):
            for o in (0, 1):
                p.add("p_iters", size, f, o)
    p.reach("p_short_text:accepted", "p_short_ip:accepted", "p_short_digits:accepted", "p_range_text:accepted", "p_range:range", "p_ranges:equal", "p_ranges:different",
            "p_short_build:built", "p_range_round:round", "p_number:in range", "p_to_long:converted", "p_to_short:short", "p_to_short:long", "p_iters:iterated", "p_expose_text:accepted")
    p.bound("texts: all ASCII strings up to the listed length, non-ASCII characters in short ones, h-h:c-c digit shapes of up to 5 digits per number with the last 1 or 2 (for single container ports and thorough: all) digits of each symbolic and four choices of the leading ones; text with a '+' sign in a number is not judged")
    p.bound("values: start and end of every range any u16 (for printing and reading back: windows of 16 numbers from 0, 92, 992, 9992, 65520), numbers any u64 or negative i64 and eight floats, host address IPv4 with two symbolic bytes or one of four IPv6 shapes with a symbolic group, protocols up to 4 symbolic characters")
    p.bound("expansion into long form: ranges of up to 5, 17 and 40 ports (thorough: up to 64) starting anywhere")


def amounts(p):
    p.sizes("d_text", 6, 9, 0)
    for k in (0, 1, 2, 3, 4, 5, 6, 9):
        p.add("b_width", k)
    mb(p, "d_text", 3, 4)
    p.sizes("d_text_yaml", 4, 5, 0)
    for u in range(5):
        for n in (1, 2, 3):
            p.add("d_shape", u, n)
    for u in (10, 100, 210, 43210, 3210, 1234, 432, 20, 444, 333, 3322):
        n = len(str(u))
        p.add("d_shape", u, int("1" * max(2, n)))
        p.add("d_shape", u, int("2" * max(2, n)), q=n <= 3 and u not in (100, 444, 333), t=u not in (100, 444, 333))
    for u in (43210432, 12341234, 33333333):
        p.add("d_shape", u, 11111111)
    for u in range(5):
        for free in (1, 2):
            p.add("d_limit", u, free, 0, 0)
            for u2 in range(5):
                p.add("d_limit", u, free, u2, 1, q=free == 1)
    for free in (1, 2):
        for last in (0, 1):
            p.add("d_sum", free, last)
    for s in range(9):
        for u in range(5):
            for n in (0, 1):
                p.add("d_print", s, u, n, q=n == 0 or u == 0)
    for k in range(6):
        p.add("d_number", k)
    p.sizes("b_text", 6, 9, 0)
    mb(p, "b_text", 3, 4)
    for w in range(7):
        for free in (1, 2):
            for unit in (0, 1, 2, 3):
                p.add("b_limit", w, free, unit, q=free == 1 or unit < 2)
    for k in range(4):
        p.add("b_bytes", k)
        for w in range(7):
            p.add("b_print", k, w)
    for k in range(5):
        p.add("b_number", k)
    p.reach("d_text:accepted", "d_text_yaml:accepted", "d_shape:accepted", "d_limit:accepted", "d_sum:accepted", "d_print:printed", "d_number:number", "b_text:accepted", "b_limit:accepted", "b_bytes:some", "b_bytes:none", "b_print:printed", "b_number:number")
    p.bound("texts: all ASCII strings up to the listed length, up to five values with units and 1 or 2 (3) symbolic digits each, values near the largest of each unit with 1 or 2 symbolic digits and a second value, byte sizes near the largest 64-bit value")
    p.bound("durations printed: seconds in windows of 16 from 9 bases up to the largest, microseconds in windows of 16 from 5 bases, any nanoseconds below; byte sizes: any 64-bit value for conversion, windows of 16 from 7 bases for printing; a leading plus sign of a byte size is not judged")


def vols(p):
    p.sizes("v_short_text", 6, 8, 0)
    mb(p, "v_short_text", 3, 4)
    for k in range(8):
        for n in range(0, 5 if p.q else 7):
            p.add("v_short_after", k, n)
    for k in range(3):
        for n in range(0, 4 if p.q else 5):
            p.add("v_short_options", k, n)
    for k in range(6):
        p.add("v_short_to_long", k)
    for kind in range(5):
        for flags in range(256):
            if kind >= 3 and flags >= 8 or kind == 2 and flags >= 128 or flags & 8 == 0 and kind in (1, 2) and flags >= 16 or kind == 0 and flags & 16 == 0 and flags >= 32:
                continue
            few = bin(flags).count("1") <= 3
            p.add("v_long_to_short", kind, flags, q=few)
            p.add("v_mount_round", kind, flags, q=few)
    for sk in range(6):
        for kind in range(5):
            for flags in (0, 1, 8, 40):
                for order in (0, 1):
                    if flags < 8 or kind < 3:
                        p.add("v_iters", sk, kind, flags, order, q=(sk + kind + flags) % 3 == 0)
    for f, q, t in (("v_absolute", 5, 9), ("v_host", 5, 9), ("v_source", 6, 10)):
        p.sizes(f, q, t, 0)
        mb(p, f, 3, 4)
    for f, starts in (("v_host_ops", 13), ("v_absolute_ops", 9)):
        for s in range(starts):
            for ops in (1, 11, 2, 12, 112, 1112, 22, 122, 1121):
                for n in (1, 2, 3, 4):
                    if str(ops).count("2") or n == 1:
                        p.add(f, s, ops, n, q=n * str(ops).count("2") <= 3 and ops != 1121)
    p.reach("v_short_text:accepted", "v_short_after:accepted", "v_short_after:options", "v_short_options:accepted", "v_short_to_long:converted", "v_long_to_short:short", "v_long_to_short:long",
            "v_mount_round:round", "v_iters:iterated", "v_absolute:accepted", "v_host:accepted", "v_source:accepted", "v_host_ops:edited", "v_absolute_ops:edited")
    p.bound("texts: all ASCII strings up to the listed length, symbolic text after 8 beginnings, every sequence of up to 3 (thorough 4) options from eight texts")
    p.bound("mounts: each of the five types with up to 3 (thorough: all) of its settings set, symbolic single characters in names and paths, any mode and tmpfs sizes below 16 mb")
    p.bound("paths: all ASCII strings up to the listed length; sequences of up to 4 push and pop operations from 21 starting paths with up to 3 (4) symbolic characters pushed")


def numbers(p):
    for f in ("r_percent", "r_oom", "r_weight", "r_cpus", "r_cpus_ints"):
        p.add(f)
    for b in (10, 92, 496, 990):
        p.add("r_weight_print", b)
    for k in range(7):
        for f in ("r_yaml", "r_yaml_limit", "r_yaml_more"):
            p.add(f, k)
    for k in range(4):
        for b in range(5):
            p.add("r_limit_print", k, b)
    for f in ("r_limit_text", "r_count_text"):
        p.sizes(f, 5, 8, 0)
        mb(p, f, 2, 4)
    for w in range(5):
        for free in (1, 2, 3):
            p.add("r_text_edge", w, free, q=free < 3)
    for k in range(16):
        p.add("r_cpus_text", k)
    for k in (0, 1, 2, 3, 4, 5, 6, 9):
        for t in range(9):
            if t < 8 or k < 6 or k == 9:
                p.add("r_width", t, k)
    p.reach("r_percent:accepted", "r_oom:accepted", "r_weight:accepted", "r_cpus:accepted", "r_cpus_ints:ints", "r_yaml:percent", "r_yaml:score", "r_yaml:weight", "r_yaml_limit:unlimited", "r_yaml_more:id",
            "r_yaml_more:cpus", "r_limit_print:printed", "r_limit_text:unlimited", "r_count_text:all", "r_count_text:number", "r_text_edge:edge", "r_cpus_text:text", "r_weight_print:printed")
    p.bound("every 8, 16, 32 and 64-bit integer and every 64-bit float where values are built from numbers; YAML numbers: every unsigned and negative 64-bit integer, eight floats, null, booleans, a list, a map; cpus above 2^32 given as integers are not judged; integers of 8, 16, 32 and 64 bits and 32-bit floats from other serde formats against the 64-bit ones")
    p.bound("texts: all ASCII strings up to the listed length, numbers near 2^32 and 2^64 with 1 or 2 (3) symbolic digits, 16 texts for cpus; a leading plus sign is not judged")


def valid(p):
    for uses in (1, 2, 3, 11, 12, 21, 19, 91, 111, 212, 191, 191, 112):
        for ndef in (0, 1, 2, 3):
            big = sum(int(c) % 9 for c in str(uses)) + ndef
            for long in (0, 1, 2):
                p.add("w_networks", uses, ndef, long, q=big <= 6, cpu_t=600)
            for which in (0, 1):
                for mix in (0, 1, 2, 5):
                    p.add("w_configs", uses, ndef, which, mix, q=big <= 6, cpu_t=600)
    for a in (1, 2, 11, 12, 21, 13, 22):
        for b in (1, 2, 11, 12, 31, 21):
            for ndef in (0, 1, 2):
                p.add("w_volumes", int("%d9%d" % (a, b)), ndef, q=len("%d%d" % (a, b)) + ndef <= 4, cpu_t=600)
    for k in (1, 11, 12, 112, 111, 191, 19191, 19291, 29192, 191991, 39491, 59691, 1939491, 15926, 24941, 169261, 1191, 1912, 119192):
        for ndef in (0, 1, 2):
            if str(k).count("9") <= 2:
                p.add("w_volumes", k, ndef, q=ndef < 2 or k < 1000, cpu_t=600)
    for s in (1, 2, 3):
        p.add("w_all", s)
    kinds = {name: n for name, _, n in doc_kinds()}
    tables = ["service_network", "mount_volume", "config_or_secret", "config_or_secret", "service", "compose", "network_resource", "volume_resource", "config_resource", "secret_resource"] + ["external"] * 4
    for what, t in enumerate(tables):
        for i in range(0, kinds[t] + 1, 4):
            p.add("w_beside", what, i, min(4, kinds[t] + 1 - i))
    for kind in range(4):
        for n in (5, 9, 17, 33):
            for at in (0, n // 2, n - 1):
                for one in (0, 1):
                    p.add("w_many", kind, n, at, one, q=n in (9, 33))
    for f in ("w_networks", "w_configs", "w_volumes", "w_all", "w_beside", "w_many"):
        p.reach(f + ":undefined", f + ":defined")
    p.bound("up to 3 services with up to 3 references each (at most 6 references and definitions together, thorough 7), up to 3 definitions, names of one symbolic character; 5 to 33 services with a reference each, or one with as many, one of them symbolic; networks in short and long syntax and network modes, configs and secrets in both syntaxes, six kinds of mounts; and one reference of each kind beside every line of the tables of mounts, network attachments, configs and secrets in use, services, definitions and Compose files")


def keywords(p):
    for which in range(12):
        for n in (range(0, 16) if which < 11 else (0,)):
            p.add("k_closed", which, n, 0)
        if which == 1:
            for n in (28, 29, 30, 31, 32):
                p.add("k_closed", 1, n, 0)
        if which < 11:
            for n in range(1, 4 if p.q else 8):
                for pos in range(n):
                    p.add("k_closed", which, n, 10 * pos + 2, t=True, q=n == 3 and pos == 1)
    for which in range(4):
        p.sizes_at("k_open", 7, 12, which)
        for n in (2, 3, 5):
            for k in (2, 3, 4):
                p.add("k_open", which, n, 10 + k)
    p.add("k_defaults")
    p.sizes("k_build_network", 6, 10, 0)
    mb(p, "k_build_network", 2, 4)
    p.sizes("k_platform", 18, 24, 0)
    mb(p, "k_platform", 4, 8)
    p.sizes("k_os", 10, 14, 0)
    mb(p, "k_os", 3, 5)
    for which in range(15):
        p.sizes_at("k_os_arch", 9, 12, which)
    p.reach("k_closed:accepted", "k_open:known", "k_open:other", "k_build_network:none", "k_build_network:network", "k_platform:accepted", "k_os:accepted", "k_os_arch:accepted", "k_os_arch:converted", "k_defaults:defaults")
    p.bound("texts: all ASCII strings up to 15 characters (and 28 to 32 for dependency conditions) for keywords, 7 (thorough 12) where other text is kept, 18 (24) for platforms; strings of up to 4 (8) characters with one outside ASCII; every architecture for conversions")


def formats(p):
    for f, q, t in (("f_device", 6, 9), ("f_perms", 5, 8), ("f_kind", 5, 6), ("f_rule", 7, 10), ("f_mac", 5, 7), ("f_ssh", 7, 9), ("f_cache", 6, 9), ("f_link", 6, 9), ("f_volumes_from", 6, 9),
                    ("f_ipc", 9, 12), ("f_mode", 6, 9), ("f_cpuset", 3, 4), ("f_context", 2, 3)):
        p.sizes(f, q, t, 0)
        if f not in ("f_context",):
            mb(p, f, 2, 3)
    for k in range(7):
        for n in range(0, 4 if p.q else 6):
            p.add("f_device_after", k, n)
            p.add("f_volumes_from_after", k, n)
    for k in range(8):
        for n in range(0, 4 if p.q else 6):
            p.add("f_rule_after", k, n)
    for b in (0, 95, 250, 9995, 65520):
        p.add("f_number", b)
    for at in range(6):
        for n in range(0, 4):
            p.add("f_mac_part", at, n)
    for k in range(4):
        for n in range(0, 4 if p.q else 6):
            p.add("f_mac_end", k, n)
    for at in range(12):
        p.add("f_mac_print", at)
    for at in range(8):
        for n in (0, 1, 2):
            p.add("f_ssh_default", at, n)
    for k in range(10):
        for n in range(0, 5 if p.q else 6):
            p.add("f_cache_after", k, n)
    for k in range(3):
        for a in range(0, 4):
            for b in range(0, 4):
                p.add("f_cache_shape", a, b, k)
    for k in range(6):
        for n in range(0, 5 if p.q else 7):
            p.add("f_mode_after", k, n)
            if k < 5:
                p.add("f_ipc_after", k, n)
    for k in range(10):
        p.add("f_made", k)
    for s in (1, 2, 11, 12, 21, 22, 111, 212):
        for start in (0, 3, 1234567890123):
            p.add("f_cpuset_shape", s, start, q=s < 13 or s == 21)
    for k in range(4):
        p.add("f_cpuset_made", k)
    for n in (9, 17, 33):
        for gap in (1, 2, 3):
            p.add("f_cpuset_many", n, gap, q=n == 9 or gap == 3)
    for k in range(5):
        for n in range(0, 4 if p.q else 5):
            p.add("f_context_git", k, n)
    for f in ("f_device", "f_device_after", "f_perms", "f_kind", "f_rule", "f_rule_after", "f_mac_part", "f_mac_end", "f_ssh", "f_ssh_default", "f_link", "f_volumes_from", "f_volumes_from_after", "f_ipc", "f_ipc_after", "f_mode", "f_mode_after", "f_cpuset"):
        p.reach(f + ":accepted")
    p.reach("f_kind:number", "f_number:number", "f_mac_print:printed", "f_cache:image", "f_cache_after:options", "f_cache_shape:options", "f_volumes_from_after:source", "f_made:made", "f_cpuset_shape:set", "f_cpuset_made:made", "f_context:path", "f_context_git:git")
    p.bound("texts: all ASCII strings up to 2 (build contexts), 3 (CPU sets) or 5 to 9 characters (thorough 3, 4, 6 to 12), symbolic text of up to 4 (6) characters after chosen beginnings; CPU sets of up to 2 (3) one-digit elements or ranges; MAC addresses with one symbolic part")
    p.bound("not judged: numbers with a plus sign, reversed CPU ranges, one-digit parts of MAC addresses, repeated cache options; huge CPU ranges, which exhaust memory")


def convert(p):
    p.sizes("v_parse", 4, 5, 0)
    mb(p, "v_parse", 2, 3)
    for k in range(15):
        for n in ((0, 1, 2, 3) if k < 5 else (0, 1, 2)):
            p.add("v_parse_edge", k, n, q=n < 3)
    for k in (0, 1):
        p.add("v_int", k)
        for b in range(6):
            p.add("v_int_text", k, b)
    p.add("v_float")
    for d in range(4):
        for s in (1, 2, 3, 4, 5, 11, 12, 21, 22, 13, 31, 23, 32, 33, 111, 222, 121, 212):
            p.add("l_split", s, d, q=s < 100 and sum(map(int, str(s))) < 6)
        for n in (9, 17):
            for at in (0, n // 2, n - 1):
                for l in (2, 3):
                    p.add("l_many", n, at, l, d, q=n == 9 and l == 2)
        for pos in range(3):
            for k in (2, 3, 4):
                p.add("l_split_text", 3, 10 * pos + k, d, t=True, q=k == 2)
    for s in (1, 2, 3, 4, 5, 11, 22, 12, 31, 33, 44, 34, 43, 24):
        p.add("l_back", s, q=s < 40 and s != 34)
    for k in (0, 1, 2, 3, 4, 5, 11, 12, 21, 22, 23, 24, 25, 52, 13, 31, 112, 121, 345):
        for n in (1, 2):
            p.add("l_print", k, n, q=n == 1 and k < 100)
    for s in (0, 1, 2, 3, 4, 11, 12, 22, 23, 33, 111, 222):
        p.add("l_read", s)
        p.add("i_items", s)
    for k in range(7):
        for n in (0, 2):
            p.add("l_kinds", k, n)
            p.add("i_others", k, n)
    for b in (0, 1):
        for form in (0, 1, 2):
            for n in (0, 1, 2, 3):
                for ip in range(10):
                    p.add("e_host", b, form, n, ip, q=n < 2 or (ip == 2 and b == 0))
            for n in (0, 1, 2, 3, 4):
                p.add("e_address", b, form, n, 0, q=n < 4)
                for pos in range(n):
                    p.add("e_address", b, form, n, 10 * pos + 2, q=n == 2)
            for k in range(5):
                for n in (0, 1, 2, 3):
                    p.add("e_address_after", b, form, k, n, q=n < 2 or (n == 2 and b == 0))
            p.add("e_two", b, form)
        for n in (0, 1, 2, 3, 4, 5):
            p.add("e_item", b, n, q=n < 4)
        for k in range(5):
            p.add("e_other", b, k)
    for form in range(4):
        for n in (0, 1, 2):
            for s in range(10):
                if form in (0, 2) or s == 0:
                    p.add("a_context", form, n, s, q=n < 2)
    p.reach("v_parse:text", "v_parse:number", "v_int:integer", "v_int_text:printed", "v_float:float", "l_split:map", "l_split_text:map", "l_print:back", "l_back:kept", "l_read:list", "l_kinds:map", "e_host:accepted", "e_address:accepted", "e_address_after:accepted", "e_other:rejected", "e_two:two", "a_context:context", "i_items:list", "i_items:item", "i_others:rejected")
    p.bound("values: all ASCII texts up to 4 (5) characters, texts of symbolic characters after chosen beginnings, every 64-bit integer and float; lists of up to 2 (3) items of up to 3 (4) symbolic characters, maps of up to 2 (3) entries")
    p.bound("extra hosts: symbolic names up to 3 characters with ten addresses, symbolic addresses up to 3 (4) characters and after five beginnings; ten additional contexts; printing of floats not covered")


def doc_kinds():
    """(name, bases, lines) of every table in harness/src/docs.rs, in order."""
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/docs.rs")) as f:
        src = f.read()
    blk = src[src.index("\ndocs! {"):]
    blk = blk[:blk.index("\n}\n")]
    consts = {m[1]: m[2] for m in re.finditer(r"const (\w+): &\[&str\] = &\[(.*?)\];", src, re.S)}
    count = lambda s: consts.get(s, s).count('"') // 2
    return [(m[1], count(m[3]), count(m[4])) for m in re.finditer(r"^    (\w+): ([\w:<>, ]+?), (NONE|&\[.*?\]), (\w+|&\[.*?\])[,;]", blk, re.M)]


def manies():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/docs.rs")) as f:
        return re.search(r"const MANY: .*?\];", f.read(), re.S)[0].count("(Kind::")


def docs(p):
    for k, (name, bases, lines) in enumerate(doc_kinds()):
        step = 8 if bases == 1 else 4
        for i in range(0, lines, step):
            p.add("d_one", k, i, min(step, lines - i))
        if lines > 1 and name != "service":
            for i in range(lines - 1):
                p.add("d_two", k, i, q=lines < 60)
            for back in (0, 1):
                for i in range(0, lines, step):
                    p.add("d_all", k, back, i, min(step, lines - i))
        if name == "service":
            for back in (0, 1):
                for i in range(0, lines, step):
                    p.add("d_all", k, back, i, min(step, lines - i), q=back == 0)
            for i in range(lines - 1):
                p.add("d_two", k, i, q=False)
    many = manies()
    for i in range(many):
        for n in (5, 9, 17, 33, 65):
            p.add("d_many", i, n, q=n in (9, 33))
    p.bound("%d fields with 9 and 33 (thorough also 5, 17, 65) entries, symbols in the first, middle or last" % many)
    p.reach("d_many:kept", "d_one:kept", "d_one:short", "d_one:short keys", "d_two:kept", "d_all:kept")
    p.bound("one, two or nearly all of the lines of a table per type (a line: one form of one field), in both orders; letters, digits, characters and numbers in them symbolic; keys and structure concrete per path")


def refuse(p):
    kinds = doc_kinds()
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/refuse.rs")) as f:
        src = f.read()
    exclusive = set(re.findall(r"^        (\w+) => &\[&?[\[A-Z\n]", src[src.index("fn exclusive("):src.index("/// Values of the wrong kind")], re.M))
    bad = src[src.index("fn bad("):src.index("/// Groups of lines")]
    wrong = src[src.index("fn wrong("):src.index("fn open_fields")]
    closed = re.search(r"!matches!\(k, ([\w| ]+)\)", src)[1].split(" | ")
    table = lambda s: {m[1]: m[2] for m in re.finditer(r"^        (\w+) => &\[(.*?)\],$", s, re.M | re.S)}
    bad, wrong = table(bad), table(wrong)
    for k, (name, bases, lines) in enumerate(kinds):
        n = bad[name].count('"') // 2 if name in bad else 0
        step = 1 if lines > 20 else 4
        for i in range(0, n, step):
            p.add("r_bad", k, i, min(step, n - i))
        n = wrong.get(name, "").count('("')
        step = 8 if p.q else 1
        for i in range(0, n, step):
            p.add("r_kind", k, i, min(step, n - i), 0 if p.q else 1)
        if name in exclusive:
            for i in range(0, 9, 1 if lines > 20 else 9):
                p.add("r_pair", k, i, min(9, 1 if lines > 20 else 9))
        if name not in closed:
            for n in range(0, 5 if p.q else 9):
                p.add("r_key", k, n)
            for how in (0, 1, 2):
                for i in range(0, 90 if name == "service" else 32, 8):
                    p.add("r_typo", k, i, 8, how)
        if not name.endswith("resource") or name == "generic_resource":
            if name != "external" and name != "no_healthcheck":
                for i in range(0, lines, 16):
                    p.add("r_twice", k, i, min(16, lines - i))
                if bases > 1 or name in ("watch", "config_or_secret", "mount_volume", "port", "mount_bind", "mount_tmpfs", "extends"):
                    p.add("r_base_twice", k)
    for i in range(manies()):
        for n in (5, 9, 33):
            p.add("r_many", i, n, q=n == 9)
    p.reach("r_many:refused")
    for n in range(0, 5 if p.q else 9):
        for named in (0, 1):
            for which in range(8):
                p.add("r_external", n, named, which)
    p.bound("tables of contradicting documents and of fields with wrong values, beside each line of the document tables (wrong values: thorough only), contradictions with entries in both orders")
    p.bound("keys of up to 4 (8) symbolic characters; every known field's name with one character replaced by, preceded by or without a symbolic character, with a null, text or map; every line given twice at both ends")
    p.bound("types that ignore unknown keys (include, env_file, extends, depends_on, develop, blkio) and nulls are not judged; documents are value trees")
    p.reach("r_bad:refused", "r_pair:refused", "r_kind:refused", "r_key:refused", "r_typo:refused", "r_external:refused", "r_twice:twice", "r_base_twice:twice")


def text(p):
    kinds = doc_kinds()
    for k, (name, bases, lines) in enumerate(kinds):
        step = 4 if bases == 1 else 2
        for i in range(0, lines, step):
            p.add("x_one", k, i, min(step, lines - i))
        if lines > 1:
            for i in range(lines - 1):
                p.add("x_two", k, i, q=lines < 20)
            for i in range(0, lines, 1 if lines < 60 or not p.q else 8):
                p.add("x_all", k, i, 1)
    for i in range(manies()):
        for n in (9, 33):
            p.add("x_many", i, n, q=n == 9)
    names = [k[0] for k in kinds]
    for i in range(kinds[names.index("compose")][2]):
        for how in range(4):
            p.add("x_read", i, how)
    for i in range(0, kinds[names.index("compose")][2], 4):
        p.add("x_fail", i, 4)
    for i in range(kinds[0][2]):
        for how in range(4):
            p.add("x_alias", i, how, q=i % 4 == how)
            p.add("x_merge", i, how, q=i % 4 == how)
            p.add("x_chain", i, how, q=i % 4 == how)
    for top, k in ((0, 0), (1, names.index("compose"))):
        for i in range(kinds[k][2]):
            for how in range(4):
                p.add("x_deep", top, i, how, q=i % 4 == how)
    p.bound("one line of a type's table (letters, digits-free text and any characters symbolic), two of them or all together (letters symbolic), as block and flow text; numbers concrete; quick: pairs for types with less than 20 lines")
    p.bound("Compose files of one or two lines read as text, bytes, from a reader of single bytes and as a value, with merging on, off and switched; readers that fail at any point; aliased and merged services of one line each, one or two sources, services that merge services that merge others in five arrangements, fields with 9 (33) entries, and every map in a line merged from another")
    p.reach("x_one:kept", "x_two:kept", "x_all:kept", "x_read:read", "x_fail:failed", "x_alias:read", "x_merge:read", "x_merge:unmerged", "x_chain:read", "x_many:kept", "x_deep:deep", "x_deep:unmerged")


def equality(p):
    for which in range(11):
        for n in (1, 2, 3) if p.q else (1, 2, 3, 4):
            for m in range(1, n + 1):
                p.add("q_text", which, n, m)
                p.add("q_text", which, m, n)
    for s in range(5):
        for t in range(5):
            for n in (1, 2):
                p.add("q_image", s, t, n, q=n == 1)
    for n in range(0, 3 if p.q else 4):
        for m in range(0, n + 1):
            p.add("q_path", n, m)
    p.add("q_numbers")
    p.add("q_cpus")
    for k in range(5):
        p.add("q_order", k)
    for kind, top in ((0, 256), (1, 256), (2, 128), (3, 8), (4, 8)):
        for f in range(top):
            full = f in (0, 1, 2, 4, top - 1)
            if f & (16 if kind == 0 else 8) == 0 and f >= (16 if kind == 0 else 8):
                continue  # options set, but not their map
            for bit in range(8):
                g = f ^ (1 << bit)
                if g < top:
                    p.add("q_mount", kind, kind, f, g, q=full)
            p.add("q_mount", kind, kind, f, f, q=full or bin(f).count("1") == 2)
        for other in range(5):
            if other != kind:
                p.add("q_mount", kind, other, 0, 0)
                p.add("q_mount", kind, other, 1, 1)
    for f in range(256):
        for bit in range(8):
            p.add("q_port", f, f ^ (1 << bit), q=f in (0, 255))
        p.add("q_port", f, f, q=bin(f).count("1") <= 1 or f == 255)
    for f in range(8):
        for g in range(8):
            p.add("q_short", f, g, q=f == g or f ^ g in (1, 2, 4))
    for f in range(32):
        for g in range(32):
            p.add("q_volume", f, g, q=f == g or bin(f ^ g).count("1") == 1)
    for n in range(4):
        for m in range(n + 1):
            for form in range(4):
                p.add("q_items", n, m, form, q=n < 3)
    for k, (name, bases, lines) in enumerate(doc_kinds()):
        step = 8 if bases == 1 else 4
        for i in range(0, lines, step):
            for how in range(3):
                p.add("q_docs", k, i, min(step, lines - i), how)
    for i in range(manies()):
        for n in (5, 9, 33):
            p.add("q_many", i, n, q=n == 9)
    p.reach(*["q_%s:compared" % f for f in ("text", "image", "path", "numbers", "mount", "port", "short", "volume", "items", "docs", "order", "many")], "q_cpus:cpus")
    p.bound("names, keys, hostnames, tags, digests: pairs of up to 3 (4) symbolic characters each; images: all pairs of five shapes; paths: / and up to 2 (3) symbolic characters; any ports, ranges and numbers")
    p.bound("mounts and ports: pairs that have the same settings or differ in one, values symbolic (quick: few or all settings; thorough: all combinations); documents: one line of a table in a pair with different symbols, without it, or with the next line")


def made(p):
    sizes = (1, 2) if p.q else (1, 2, 3, 4)
    for n in sizes:
        for f, top in (("b_user", 8), ("b_files", 9), ("b_image", 6), ("b_health", 3), ("b_items", 6), ("b_into", 12)):
            for k in range(top):
                p.add(f, k, n)
    for f, top in (("b_port", 4), ("b_mount", 9), ("b_limits", 5), ("b_default", 23)):
        for k in range(top):
            p.add(f, k)
    for n in sizes:
        for k in range(2):
            for i in range(3):
                for j in range(4):
                    p.add("b_cache", k, n, i, j, q=n == 1)
    p.reach(*["b_%s:made" % f for f in ("into", "cache", "user", "port", "mount", "files", "limits", "image", "health", "items", "default")])
    p.bound("any numbers; names and paths of 1-2 (thorough 4) symbolic letters; every constructor, default and conversion listed in harness/src/made.rs once")


PLANS = {"P01": names, "P04": amounts, "P05": images, "P06": ports, "P07": vols, "P08": numbers, "P09": valid, "P10": keywords, "P11": formats, "P12": convert, "P13": docs, "P14": refuse, "P15": text, "P02": equality, "P03": made}


def plan(prop, tier):
    p = P(tier)
    PLANS[prop](p)
    return dict(instances=p.inst, bounds=p.bounds, reach=p.reach_, assumptions=p.ass, deadline=240 if p.q else 700)

prop("P01", "Names are accepted exactly when they follow their documented grammar",
     """A project name, resource name (network, volume, config, secret, service), map key, extension key, hostname, user or group name, cache option
     or image tag or digest is accepted if and only if it follows the grammar documented for it, whatever its length and characters; this holds
     no matter whether it is built from owned or borrowed text, parsed or deserialized. An accepted name keeps its exact text. User/group
     values that are an unsigned 32-bit number are ids, everything else must be a valid name.""",
     ["inputs"], "Every string offered as one of these names, by every way of constructing it.",
     "Tests try a dozen strings per type; a boundary character, a rule that only bites at one position or length, or a constructor that skips the check goes unseen.",
     ["src/name.rs", "src/common/keys.rs", "src/service/hostname.rs", "src/service/user.rs", "src/service/build/cache.rs", "src/service/image/tag.rs", "src/service/image/digest.rs"],
     [("character rules", "src/name.rs: Identifier::new and the project name; common/keys.rs: Key::new, ExtensionKey"), ("hostname labels", "src/service/hostname.rs: Hostname::new"), ("ids or names", "src/service/user.rs: UserOrGroup, IdOrName::parse")],
     ["new / parse / TryFrom / deserialize results"],
     "Bounded: all ASCII strings up to 6-8 (thorough 9-16) characters, strings with one non-ASCII character, and long strings with 1-3 free characters at the lengths where rules could change.")

prop("P05", "Image references are taken apart and edited without losing or inventing parts",
     """A container image reference is accepted if and only if it is an optional registry, a name and an optional tag or digest, each valid by its documented
     grammar, and the registry, name, tag and digest it reports are exactly those parts of its text. Setting or removing the registry, tag or digest, in any sequence,
     changes that part alone, leaves the rest of the reference as it was, and yields the reference that parsing the resulting text gives.
     Printing and serializing give the text, building a reference from its parts the same as parsing it.""",
     ["inputs", "histories"], "Every reference text and every sequence of edits with every valid or invalid argument.",
     "Reported parts are computed from offsets stored alongside the text; tests edit a few well-shaped references once, so a wrong offset after a sequence of edits, or a misread ':' between port and tag, is not met.",
     ["src/service/image.rs", "src/service/image/tag.rs", "src/service/image/digest.rs", "src/service/image/name.rs"],
     [("offsets of registry and tag/digest", "src/service/image.rs: Image::parse, from_parts, set_registry, set_tag, set_digest")],
     ["Image accessors, Display, deserialization"],
     "Bounded: references of up to 8 (thorough 11) ASCII characters, long parts with free characters, edit sequences of length 2 (3) from 72 shapes. Two recorded findings cover references without a path whose port reads as a tag.")

prop("P06", "Port mappings are parsed, validated and expanded exactly",
     """A port mapping or exposed port given as text or number is accepted if and only if it follows [[host_ip:][host]:]container[/protocol] (container[/protocol] when exposed), every port fits 16 bits,
     every range is not reversed and host and container ranges are of the same size, and it then means exactly what it says. Expanding the short syntax yields one long-syntax
     port per container port, each with the host port at the same offset and the same address and protocol, and a long-syntax port has a short form exactly when nothing
     would be lost, which expands back to it. Printing or serializing any of these reads back as the same value.""",
     ["inputs"], "Every text, number, range and combination of fields of a port mapping.",
     "Tests cover a handful of mappings; the guarantees are about all 16-bit bounds, all positions of ':' '-' '/' and '[...]', and which fields would be lost.",
     ["src/service/ports.rs", "src/service/expose.rs"],
     [("range validation", "src/service/ports.rs: Range::new, ShortRanges::new"), ("text syntax", "src/service/ports.rs: ShortPort::from_str"), ("conversions", "src/service/ports.rs: ShortPort::into_long_iter, Port::into_short")],
     ["parse / Display / serde of ports, into_long_iter, into_short"],
     "Bounded: texts up to 6 (thorough 8) ASCII characters plus digit shapes, any 16-bit values, ranges of up to 5 (64) ports. Numbers written with a plus sign are not judged.")

prop("P04", "Durations and byte sizes mean exactly the amount written",
     """A duration text is accepted if and only if it is a sequence of unsigned numbers each followed by h, m, s, ms or us whose sum is representable, and then it is exactly that sum;
     a byte size text is accepted if and only if it is an unsigned 64-bit number with an optional unit b, k, kb, m, mb, g, gb, B, K, M or G; a number read in place of a text counts microseconds or bytes,
     and anything else is rejected rather than wrapped, rounded or truncated. Converting a size to bytes multiplies exactly or reports that the result does not fit.
     Printing a duration is exact to the microsecond and printing or serializing either reads back as the same amount.""",
     ["inputs"], "Every text, every 64-bit number, every duration and every size and unit.",
     "Tests use small round amounts; overflow between units, the edge of 64 bits and unit suffixes that are prefixes of each other only show at particular numbers.",
     ["src/duration.rs", "src/serde/duration_option.rs", "src/service/byte_value.rs", "src/service/healthcheck.rs", "src/service/deploy.rs"],
     [("duration text", "src/duration.rs: parse, to_string"), ("byte sizes", "src/service/byte_value.rs: from_str, into_bytes")],
     ["parse, print, serialize and deserialize results"],
     "Bounded: texts up to 6 (9) characters, up to five values of 1-3 symbolic digits, values within 100 of each unit's limit, any 64-bit number when not read from text. A leading plus sign of a byte size is not judged.")

prop("P07", "Volume mounts and their paths are parsed, converted and kept valid exactly",
     """A short volume text is accepted if and only if it follows [source:]container_path[:options] with an absolute container path, a source that is a volume name or a path that is absolute or starts with . or .., and
     options ro, rw, z, Z without repetition or contradiction, and it then means exactly that; absolute and host paths stay valid through every sequence of pushes and pops.
     Converting the short syntax to the long one and back gives the same mount, and a long mount has a short form exactly when no setting would be lost.
     Printing or serializing a mount in either syntax reads back as an equal mount of the same type.""",
     ["inputs", "histories"], "Every volume text, every mount of the five types with any combination of settings, every path and sequence of path edits.",
     "Tests parse a few mounts and convert two of them; which setting gets lost depends on combinations, and paths are edited once.",
     ["src/service/volumes.rs", "src/service/volumes/mount.rs"],
     [("short syntax", "src/service/volumes.rs: ShortVolume::from_str, Source::parse"), ("conversions", "src/service/volumes.rs: ShortVolume::into_long; volumes/mount.rs: into_short"), ("paths", "src/service/volumes.rs: AbsolutePath, HostPath new, push, pop")],
     ["parse / Display / serde of volumes and mounts, into_long, into_short, path accessors"],
     "Bounded: texts up to 6 (8) characters, symbolic text after 8 beginnings, up to 4 options, mounts with up to 3 (all) settings and symbolic characters, up to 4 path edits. Whether a bind mount without any bind options has a short form is not judged: the documentation does not say what it defaults to.")

prop("P08", "Numbers restricted to a range are accepted exactly within it, never wrapped",
     """A percentage is accepted exactly from 0 to 100, an OOM score adjustment from -1000 to 1000, a block IO weight from 10 to 1000, a CPU count if finite and not negative, a limit if it fits
     its type or is -1 (unlimited), a device count if it is "all" or a 64-bit number, a user or group id, file mode or rate if it fits its type; this holds no matter whether the number is passed
     directly, deserialized from a number or, where allowed, parsed from text.
     An accepted number is kept exactly, everything else is rejected and nothing is wrapped, clamped or rounded, and serializing or printing reads back as the same value.""",
     ["inputs"], "Every 8- to 64-bit integer, every 64-bit float and every text.",
     "Tests check a couple of values; an off-by-one bound, a lossy cast or a route that skips the check shows at particular numbers only.",
     ["src/lib.rs", "src/service.rs", "src/service/limit.rs", "src/service/blkio_config.rs", "src/service/deploy/resources.rs", "src/service/user.rs"],
     [("ranges", "src/service.rs: Percent::new, OomScoreAdj::new; blkio_config.rs: Weight::new; deploy/resources.rs: Cpus::new"), ("limits", "src/service/limit.rs: Limit"), ("counts and ids", "deploy/resources.rs: Count; user.rs: IdOrName")],
     ["new / TryFrom / deserialize / Display / serialize results"],
     "Bounded: every integer and float where built from numbers or YAML numbers; texts up to 5 (8) characters and numbers near 2^32 and 2^64. A leading plus sign in text, and integer CPU counts above 2^32, are not judged.")

prop("P09", "Validation reports exactly the references that are not defined",
     """Validating networks, configs or secrets fails if and only if some service refers to one, in short or long syntax, that the document does not define at the top level; validating
     volumes fails if and only if a named volume that is not defined is used by more than one service. Host paths, anonymous volumes and network modes are never reported.
     The error names the kind, an undefined resource (except for volumes the first in document order) and, except for volumes, the first service using it; validating everything reports the first error in the order networks, volumes, configs, secrets.""",
     ["inputs"], "Every set of services, references in any syntax and definitions.",
     "Tests validate one small document per outcome; which resource, service and kind is reported, and that sharing is counted per service, depends on combinations.",
     ["src/lib.rs", "src/service.rs", "src/service/volumes.rs"],
     [("validation", "src/lib.rs: Compose::validate_networks, validate_volumes, validate_configs, validate_secrets, validate_all"), ("references", "src/service.rs: Service::validate_*; service/volumes.rs: named_volumes_iter")],
     ["validate_* results and their Display"],
     "Bounded: up to 3 services, up to 3 references each, up to 3 definitions, symbolic one-character names. Among several undefined shared volumes any may be the one reported.")

prop("P10", "Keywords and platforms are exactly the documented ones",
     """Every closed set of keywords (cgroup, dependency condition, UTS, pull policy, restart, watch action, deploy mode, restart condition, failure action, update order, bind propagation) accepts exactly its documented
     texts; the open ones (endpoint mode, capability, network driver, protocol) keep any other text unchanged, and a build network is none or a valid identifier.
     A platform os[/arch[/variant]] is accepted if and only if that operating system supports that architecture and variant, and its parts and the conversions between Os, Arch, each OS's architectures and Platform agree with the text.
     Every value prints, serializes and converts to exactly its keyword, which reads back as the same value.""",
     ["inputs"], "Every text and every keyword, platform and architecture.",
     "Tests read a few keywords; a transposed table entry, an accepted prefix or a platform combination that should not exist needs the whole table and all other texts.",
     ["src/service/platform.rs", "compose_spec_macros/src/platforms.rs", "src/service.rs", "src/service/deploy.rs", "src/service/develop.rs", "src/service/deploy/endpoint_mode.rs", "src/service/deploy/resources.rs", "src/network.rs", "src/service/build/network.rs", "src/service/volumes/mount.rs"],
     [("keywords", "as_str and serde derives of the enums, parse of the open ones"), ("platforms", "compose_spec_macros/src/platforms: generated from_str, as_str, os, arch, conversions")],
     ["parse / deserialize / as_str / Display / serialize / conversions"],
     "Bounded: every ASCII text up to 15 (18 for platforms, 28 to 32 for conditions) characters, some texts with one character outside ASCII.")

prop("P11", "The small text formats of a service are read and written exactly",
     """Devices, device cgroup rules and permissions, MAC addresses, SSH authentications, build caches and contexts, links, volumes_from, IPC and network modes and CPU sets are accepted if and only if the text follows
     the documented format, and every part then means exactly what is written: nothing is dropped, reordered or assigned to another part.
     Every way to read the same text gives the same value, and printing, serializing or converting to a string any value that text can express, including values made from parts, reads back as an equal value.""",
     ["inputs"], "Every text and every value of these formats.",
     "Tests and property tests use well-formed samples; which separator, prefix or missing part is mishandled, and which value prints as something else, needs all texts.",
     ["src/service/device.rs", "src/service/build/cache.rs", "src/service/build/ssh_auth.rs", "src/service/build/context.rs", "src/service/cpuset.rs", "src/service/network_config.rs", "src/service.rs"],
     [("devices", "src/service/device.rs: Device, CgroupRule, Permissions, Kind, MajorMinorNumber from_str and Display"), ("build", "src/service/build/cache.rs: Cache::parse; ssh_auth.rs; context.rs"), ("references", "src/service.rs: Link, VolumesFrom, Ipc; network_config.rs: NetworkMode, MacAddress; cpuset.rs: CpuSet")],
     ["parse / Display / serde / String conversions"],
     "Bounded: texts up to 5-9 characters and symbolic text after chosen beginnings. Plus signs in numbers, reversed CPU ranges, one-digit MAC parts and repeated cache options are not judged; huge CPU ranges exhaust memory.")

prop("P12", "Lists and maps of keys and values convert into each other without loss",
     """A list of items converts into a map, and extra_hosts and additional_contexts are read from a list, by splitting each item at its first delimiter: everything before it is the key, everything after it the value, an item
     without delimiter or with nothing after it has no value, an invalid key is an error and a repeated key takes the last value. A map converts into a list of key=value, or key where there is no value, in order; converting back gives the same map or list
     as long as values are written canonically. Text read as a value is true or false, else a number if all of it is one, else kept exactly; values given as text are never reinterpreted, and conversions between value, number, integer and bool
     succeed exactly when nothing is lost. An extra host needs a valid name and an IP address as text, optionally in brackets. A single item or list keeps its form and the order of its distinct items. All of them serialize as they are read.""",
     ["inputs"], "Every list, map, text and number.",
     "Tests convert a couple of well-formed entries; an empty value, a second delimiter, a sign, a number at the edge of 64 bits or a repeated key needs all of them.",
     ["src/common.rs", "src/serde.rs", "src/service.rs", "src/service/build.rs"],
     [("list and map", "src/common.rs: ListOrMap::into_list, into_map_split_on; service.rs: extra_hosts; build.rs: additional_contexts"), ("values", "src/common.rs: Value::parse, Number::from_str, TryFrom impls, StringOrNumber"), ("item or list", "src/common.rs: ItemOrList; serde.rs: visitors")],
     ["into_list / into_map / parse / TryFrom / serde results"],
     "Bounded: texts up to 4 (5) characters, lists of up to 2 (3) items, every 64-bit integer and float. Printing of floats and numbers written in another way than printed (007, 1.10, +1, -0) through a map are not judged, Value::parse documents them.")

prop("P13", "Documents keep everything they say when read and written back",
     """Every field of a Compose file, a service and all their parts is read in each of its documented forms, alone or together with any others and in any order, and writing gives the same entries and values back: nothing is dropped, moved to another field,
     merged or reordered in a list, and entries without effect (empty collections, false or true where that is the default, null) may be left out. What is written reads back as an equal document and is written the same again.
     Extensions keep their keys and values at every level. A long form has a short form exactly when only the short form's content is set, and both convert into the same long form; is_empty is true exactly when nothing but empty
     parts is set; a disabled healthcheck, external resources and single or listed files keep what they are.""",
     ["inputs"], "Every document of the Compose schema's fields, in every combination, order and form.",
     "Tests read a few documents; a field forgotten in a hand-written reader or is_empty, skipped although set, attached to its neighbour or lost only beside another field needs all forms in combination.",
     ["src/lib.rs", "src/service.rs", "src/service/build.rs", "src/service/deploy.rs", "src/service/deploy/resources.rs", "src/service/healthcheck.rs", "src/service/volumes/mount.rs", "src/network.rs", "src/volume.rs", "src/config.rs", "src/secret.rs", "src/include.rs", "src/common/short_or_long.rs"],
     [("field by field reading and writing", "serde derives and attributes (skip_serializing_if, default, rename, flatten) of every struct; healthcheck.rs, mount.rs, common.rs: hand-written visitors"), ("short forms", "AsShort, AsShortIter, From impls; common/short_or_long.rs"), ("is_empty", "is_empty of every options struct")],
     ["serde_yaml::from_value / to_value, ==, as_short, into_long, as_short_iter, is_empty"],
     "Bounded: for 45 types, each of about 700 lines (one form of one field) alone, in pairs (quick: types other than Service; thorough: all) and all together in both orders; letters, digits, characters and 32/64-bit numbers in them symbolic. Documents are value trees, YAML text is P15's.")

prop("P14", "Documents that contradict themselves or the schema are refused",
     """A document is refused, whatever else it holds and in whatever order, if it sets fields that exclude each other (network_mode and networks; dockerfile and dockerfile_inline; two sources of a credential spec, config or secret; external: true beside anything but name;
     a disabled healthcheck beside any other option; mount options of another mount type), if a required field is missing (an action or path to watch, a dependency's condition, a port's target, a mount's type and target,
     the service extended, one source of a config, secret or credential spec), if it has a key that is neither a field of its type nor an extension (in types that take extensions), if a field other than an extension is given twice, or if a value is of the wrong kind, out of the
     field's range or none of its keywords; a healthcheck test is text or a list beginning with NONE, CMD or CMD-SHELL, the latter with exactly one argument.""",
     ["inputs"], "Every such document.",
     "What has to be refused is a much larger set than what tests sample; exclusions are checked by hand-written visitors that depend on order and on what else is present.",
     ["src/service.rs", "src/service/network_config.rs", "src/service/build.rs", "src/service/build/dockerfile.rs", "src/service/healthcheck.rs", "src/service/credential_spec.rs", "src/service/volumes/mount.rs", "src/config.rs", "src/secret.rs", "src/common/keys.rs"],
     [("exclusion", "network_config.rs, dockerfile.rs, credential_spec.rs, config.rs, secret.rs: flattened enums; healthcheck.rs: Visitor; common.rs: Resource Deserialize"), ("unknown keys", "flattened Extensions with ExtensionKey"), ("wrong kinds", "serde.rs and common.rs visitors")],
     ["serde_yaml::from_value is Err"],
     "Bounded: about 260 contradicting documents beside each other line of their type's table, before and after it and with their entries in both orders; about 900 field and wrong value pairs (thorough: beside each line); keys of up to 4 (8) symbolic characters and every field's name with a character changed, added or removed; every line twice.")

prop("P15", "Reading YAML text, by any reader and with merging, means what is written",
     """A document read from YAML text, in block style or as JSON with everything quoted, means the same as the same tree of values, and text written for a value reads back as an equal value. A Compose file reads the same, or is refused the same, from text, bytes, a reader that delivers
     it in pieces, or a value; a reader's failure is an error. An alias repeats what it names. With merging turned on, every `<<` entry anywhere in the file is replaced by the entries of the map, or maps, it gives that are not set beside it, the first map to set one winning,
     and a file without such entries reads as it does otherwise. Without merging, which is the default and when turned off again, a service with a `<<` entry is refused. What was set last on the options counts.""",
     ["inputs", "histories"], "Every document as text, every way to read it, every use of merging.",
     "Text and value trees reach the crate's visitors by different calls (borrowed or owned text, plain or quoted scalars, hints or self-description); tests read a field in one of them, and one document with one merge.",
     ["src/options.rs", "src/lib.rs", "src/serde.rs", "src/common.rs", "src/common/short_or_long.rs", "src/service.rs"],
     [("options", "src/options.rs: Options::from_yaml_str, from_yaml_slice, from_yaml_reader, from_yaml_value, apply_merge"), ("visitors", "serde.rs, common.rs, common/short_or_long.rs, service/*.rs: de::Visitor impls")],
     ["serde_yaml::from_str / to_string, Options::from_yaml_*"],
     "Bounded: the document tables of P13, one line, two lines and all together, with symbolic characters; serde_yaml and libyaml are executed too. Numbers in text are concrete.")

prop("P02", "Equality, hashing and order say what the values say",
     """Two names, keys, hostnames, image references or parts of one, tags, digests, resource names or cache options are equal exactly when their texts are, and compare to a text the same way; they are ordered as their texts and hash so that an
     entry of a map is found by its text; absolute and host paths do the same with the path they hold. Port ranges, weights, percents, counts, cpus and device numbers compare with plain numbers as the number they are. Mounts, ports, volumes, lists and any
     document are equal exactly when every setting, including extensions, is, and equal values hash the same, so that no entry of a set is lost or kept twice. Order, where there is one, is total, reverses and agrees with equality.""",
     ["inputs"], "Every pair of values.",
     "Most comparisons and hashes are written by hand over many fields; tests compare values that are equal or differ in one chosen field, and never look at a hash.",
     ["src/common/keys.rs", "src/service/image.rs", "src/service/image/name.rs", "src/service/image/tag.rs", "src/service/image/digest.rs", "src/service/ports.rs", "src/service/volumes.rs", "src/service/volumes/mount.rs", "src/service/blkio_config.rs", "src/service/deploy/resources.rs"],
     [("keys", "src/common/keys.rs: key_impls (PartialEq<str>, Borrow<str>)"), ("images", "src/service/image.rs, image/name.rs: PartialEq, Ord, Hash"), ("values with extensions", "src/service/ports.rs: Port; volumes/mount.rs: VolumeOptions, BindOptions, TmpfsOptions, Common: PartialEq, Hash"), ("numbers", "PartialEq<u16>, <u64>, <f64>, <RangeInclusive<u16>>")],
     ["==, cmp, Hash, lookups in IndexMap and IndexSet"],
     "Bounded: texts of up to 4 (6) characters, every combination of settings of a mount, port or volume with one-letter values on both sides, documents with one changed character. Whether extensions in another order are equal is not judged, only that equal values hash the same; nor is the order of other maps.")

prop("P03", "Values made in code say what they were made of",
     """A value built in code, by a constructor, a conversion (From, TryFrom, FromIterator) or by default, is written as the document that says the same and equals what that document reads as; nothing is set that was not given, and defaults are
     empty documents. The accessors and predicates of a value (as_*, into_*, is_*, source, name, is_empty) report exactly the form and part it holds.""",
     ["inputs"], "Every constructor and conversion with every argument.",
     "Tests build values in one way and compare them with values built the same way; a conversion that swaps two arguments or sets a default that is not one goes unseen.",
     ["src/service/user.rs", "src/service/ports.rs", "src/service/volumes/mount.rs", "src/service/volumes.rs", "src/service/env_file.rs", "src/service/config_or_secret.rs", "src/service/build/cache.rs", "src/service/image.rs", "src/service/ulimit.rs", "src/service/healthcheck.rs", "src/include.rs", "src/common.rs", "src/common/short_or_long.rs"],
     [("conversions", "impl From in src/service/**, src/common/*.rs, src/config.rs, src/secret.rs"), ("short forms", "AsShort::as_short of EnvFile config, Include, ConfigOrSecret, Build, Ulimit, Port ranges")],
     ["accessors, equality, serde_yaml::to_value and from_value"],
     "Bounded: texts of up to 3 (5) letters, any number.")

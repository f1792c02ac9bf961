#!/usr/bin/env python3
"""Regenerate the symbolic build of /repo/coerce from the current working tree.

The crate's own sources are copied verbatim except for:
  * `std::collections` / `std::time`  ->  `symstd::collections` / `symstd::time`
  * reflection-only items of the generated protobuf files are cut out
External crates are replaced by the models in /verif/shims; harness modules are added.
"""
import glob, os, re, shutil, sys, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

def match_brace(s, i):
    """index just past the brace group starting at s[i]=='{' (generated code: no braces in strings)"""
    d = 0
    while i < len(s):
        c = s[i]
        if c == '{': d += 1
        elif c == '}':
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise SystemExit("unbalanced braces in generated protobuf file")

def strip_items(s, pats):
    for p in pats:
        while True:
            m = re.search(p, s, re.M)
            if not m: break
            b = s.index('{', m.end() - 1)
            s = s[:m.start()] + s[match_brace(s, b):]
    return s

PROTO_PATS = [
    r"^[ \t]*(?:pub(?:\([a-z ]+\))? )?fn generated_message_descriptor_data\(\)[^{]*\{",
    r"^[ \t]*(?:pub(?:\([a-z ]+\))? )?fn generated_oneof_descriptor_data\(\)[^{]*\{",
    r"^[ \t]*(?:pub(?:\([a-z ]+\))? )?fn generated_enum_descriptor_data\(\)[^{]*\{",
    r"^[ \t]*impl ::protobuf::MessageFull for[^{]*\{",
    r"^[ \t]*impl ::protobuf::EnumFull for[^{]*\{",
    r"^[ \t]*impl ::protobuf::OneofFull for[^{]*\{",
    r"^[ \t]*impl ::protobuf::Oneof for[^{]*\{",
    r"^[ \t]*impl ::protobuf::reflect::ProtobufValue for[^{]*\{",
    r"^[ \t]*impl ::std::fmt::Display for[^{]*\{",
]

def split_std_groups(s):
    """`use std::{a::B, c::{D, E}};` -> one `use` per item, so that the replacements below see full paths"""
    def one(m):
        head, body = m.group(1), m.group(2)
        items, d, cur = [], 0, ""
        for c in body:
            if c == "{": d += 1
            if c == "}": d -= 1
            if c == "," and d == 0: items.append(cur); cur = ""
            else: cur += c
        items.append(cur)
        return " ".join("%suse std::%s;" % (head, i.strip()) if i.strip() != "self" else "%suse std;" % head for i in items if i.strip())
    return re.sub(r"^([ \t]*(?:pub(?:\([a-z ]+\))? )?)use (?:::)?std::\{((?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*)\};", one, s, flags=re.M)

def transform(rel, s, variant):
    if "// @generated" in s[:400] and "protobuf" in s:
        i = s.find("static file_descriptor_proto_data")
        if i >= 0:
            # keep sub modules? generated files place descriptors last
            j = s.rfind("/// `FileDescriptorProto` object", 0, i)
            s = s[:(j if j >= 0 else i)]
        s = strip_items(s, PROTO_PATS)
    s = split_std_groups(s)
    s = re.sub(r"\bstd::collections\b", "symstd::collections", s)
    s = re.sub(r"\bstd::time\b", "symstd::time", s)
    s = re.sub(r"\bstd::hash\b", "symstd::hash", s)
    return s

CARGO = """[package]
name = "coerce"
version = "0.8.12"
edition = "2021"

[features]
default = ["remote", "persistence", "sharding", "singleton", "client-auth-jwt"]
remote = []
persistence = []
sharding = ["remote", "persistence"]
metrics = []
api = []
actor-tracing = []
actor-tracing-info = []
actor-tracing-trace = []
actor-tracing-debug = []
actor-events = []
tracing-unstable = []
client-auth-jwt = []
singleton = []

[lib]
path = "src/lib.rs"

[[bin]]
name = "replay"
path = "src/replay_main.rs"

[lints.rust]
unexpected_cfgs = "allow"
warnings = "allow"
dependency_on_unit_never_type_fallback = "allow"

[dependencies]
async-trait = "=0.1.73"
byteorder_unused = {{ package = "nd", path = "{shims}/nd" }}
{deps}

[workspace]

[profile.dev]
debug = 1
overflow-checks = true
"""
SHIMS = ["nd", "symstd", "tokio", "tokio-util", "tokio-stream", "futures", "bytes", "tracing",
         "valuable", "uuid", "chrono", "rand", "hashring", "parking_lot", "anyhow", "lazy_static",
         "serde", "serde_json", "hmac", "sha2", "jwt", "protobuf"]

PROVIDERS = [("coerce_redis", "persistence/coerce-redis"), ("coerce_k8s", "discovery/coerce-k8s")]

def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == data: return
    except (FileNotFoundError, UnicodeDecodeError):
        pass
    with open(path, "w", encoding="utf-8") as f: f.write(data)

def harness_list(text):
    """[(name, attrs)] of `harness!{ name ... }` items"""
    return re.findall(r"^#\[no_mangle\]\s+pub extern \"C\" fn (h_[a-z0-9_]+)\s*\(\)", text, re.M)

def protobuf_copy(dst):
    """protobuf 3.2.0 as cargo has it, with the table of unknown fields (a SipHash map) as an ordered map"""
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    c = glob.glob(os.path.join(home, "registry/src/*/protobuf-3.2.0"))
    if not c: raise SystemExit("protobuf-3.2.0 is not in the cargo registry")
    if os.path.exists(os.path.join(dst, "done2")): return
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(c[0], dst)
    p = os.path.join(dst, "src/unknown.rs")
    s = open(p).read()
    for a, b in (("use std::collections::hash_map;", "use std::collections::btree_map as hash_map;"), ("use std::collections::HashMap;", "use std::collections::BTreeMap;"),
                 ("HashMap<u32, UnknownValues, BuildHasherDefault<DefaultHasher>>", "BTreeMap<u32, UnknownValues>")):
        if a not in s: raise SystemExit("unexpected protobuf source")
        s = s.replace(a, b)
    open(p, "w").write(s)
    # the length of a varint by a loop instead of leading_zeros: the same function, but each path has a concrete length
    p = os.path.join(dst, "src/varint/encode.rs")
    s = open(p).read()
    m = re.search(r"pub\(crate\) fn encoded_varint64_len\(value: u64\) -> usize \{.*?\n\}\n", s, re.S)
    if not m: raise SystemExit("unexpected protobuf source")
    s = s[:m.start()] + "pub(crate) fn encoded_varint64_len(value: u64) -> usize {\n    let mut n = 1;\n    let mut v = value >> 7;\n    while v != 0 {\n        n += 1;\n        v >>= 7;\n    }\n    n\n}\n" + s[m.end():]
    open(p, "w").write(s)
    open(os.path.join(dst, "done2"), "w").write("")

def generate(out, modules, variant=""):
    """modules: list of harness files (basename without .rs) to include"""
    src = os.path.join(REPO, "coerce", "src")
    dst = os.path.join(out, "src")
    wanted = set()
    names = []
    for root, dirs, files in os.walk(src):
        for f in sorted(files):
            if not f.endswith(".rs"): continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            s = transform(rel, open(p, encoding="utf-8").read(), variant)
            if rel == "lib.rs":
                s += "\n#[path = \"verif_harness/mod.rs\"]\npub mod verif_harness;\n"
                if variant == "prov": s += "\nextern crate self as coerce;\n" + "".join("pub mod %s;\n" % n for n, _ in PROVIDERS)
            write(os.path.join(dst, rel), s)
            wanted.add(rel)
    # the providers are crates of their own: here they are modules of the generated one
    for name, at in PROVIDERS if variant == "prov" else []:
        prov = os.path.join(REPO, "providers", at, "src")
        for root, dirs, files in os.walk(prov):
            for f in sorted(files):
                if not f.endswith(".rs"): continue
                rel = os.path.relpath(os.path.join(root, f), prov)
                s = transform(rel, open(os.path.join(prov, rel), encoding="utf-8").read(), variant)
                s = re.sub(r"\bcrate::", "crate::%s::" % name, s)
                if rel == "lib.rs":
                    s = re.sub(r"^#\[macro_use\]\s*\n\s*extern crate [a-z_]+;", "", s, flags=re.M)
                    s = re.sub(r"^#!\[.*\]\s*$", "", s, flags=re.M)
                    rel = "mod.rs"
                write(os.path.join(dst, name, rel), s)
                wanted.add(os.path.join(name, rel))
    mod = "#![allow(warnings)]\npub mod common;\n"
    disp = []
    for m in modules:
        mod += "pub mod %s;\n" % m
    for m in ["common"] + modules:
        t = open(os.path.join(VERIF, "harness", m + ".rs"), encoding="utf-8").read()
        # `//@attach path/to/file.rs name` ... `//@end` blocks are appended to a file of the crate as a
        # child module, so that harness glue can reach items private to that file's module
        def attach(mm):
            rel, name, body = mm.group(1), mm.group(2), mm.group(3)
            fp = os.path.join(dst, rel)
            if not os.path.exists(fp):
                raise SystemExit("ANCHOR-MISSING %s" % rel)
            cur = open(fp, encoding="utf-8").read()
            cur += "\n#[allow(warnings)]\npub mod %s {\n use super::*;\n%s\n}\n" % (name, body)
            attached.setdefault(rel, []).append("\n#[allow(warnings)]\npub mod %s {\n use super::*;\n%s\n}\n" % (name, body))
            return ""
        attached = {}
        t = re.sub(r"^//@attach (\S+) (\w+)\n(.*?)^//@end\n", attach, t, flags=re.M | re.S)
        for rel, bodies in attached.items():
            fp = os.path.join(dst, rel)
            cur = open(fp, encoding="utf-8").read()
            write(fp, cur + "".join(bodies))
        if m != "common":
            for n in harness_list(t):
                disp.append((n, "%s::%s" % (m, n)))
        t = re.sub(r'^pub extern "C" fn (h_[a-z0-9_]+)', r'pub extern "C-unwind" fn \1', t, flags=re.M)
        write(os.path.join(dst, "verif_harness", m + ".rs"), t)
        wanted.add("verif_harness/%s.rs" % m)
    mod += "#[cfg(not(symex))]\npub fn dispatch(n: &str) -> bool { match n { " + \
        " ".join('"%s" => { %s(); true }' % d for d in disp) + " _ => false } }\n"
    write(os.path.join(dst, "verif_harness", "mod.rs"), mod)
    wanted.add("verif_harness/mod.rs")
    write(os.path.join(dst, "replay_main.rs"), open(os.path.join(VERIF, "harness", "replay_main.rs")).read())
    wanted.add("replay_main.rs")
    for root, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), dst)
            if rel not in wanted: os.remove(os.path.join(root, f))
    shims = os.path.join(VERIF, "shims")
    feats = {"tokio": ', features=["full"]', "uuid": ', features=["serde","v4"]', "chrono": ', features=["serde"]'}
    deps = "\n".join('%s = { path = "%s/%s" }' % (n, shims, n) for n in SHIMS if not (variant in ("pb", "prov") and n == "protobuf"))
    if variant == "prov": deps += "".join('\n%s = { path = "%s/%s" }' % (n, shims, n) for n in ("redis", "kube", "k8s-openapi"))
    if variant in ("pb", "prov"):
        protobuf_copy(out + "_protobuf")
        deps += '\nprotobuf = { path = "%s" }' % (out + "_protobuf")
    write(os.path.join(out, "Cargo.toml"), CARGO.format(shims=shims, deps=deps).replace(
        'byteorder_unused = { package = "nd", path = "%s/nd" }\n' % shims, ""))
    return disp

if __name__ == "__main__":
    out = sys.argv[1]
    d = generate(out, sys.argv[2:])
    print(len(d), "harnesses")

//! Worlds on disk, and what the real cargo makes of them.

use crate::cfgx::{Plat, TFilter, targets};
use crate::gencfg::{self, Focus};
use crate::gprops;
use crate::graph;
use crate::model::{self, Sc};
use crate::obs;
use crate::rng::Rng;
use crate::runner::Stats;
use crate::sim::{self, Flavor};
use crate::world::{self, GenOpts, Kind, Select, Src, World, crates_io};
use crate::xprops::Scratch;
use krates::{Krates, Package};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;

type R = Result<(), String>;

pub const HOST: &str = "x86_64-unknown-linux-gnu";

/// cargo itself, not the proxy
pub fn cargo() -> &'static Path {
    static P: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let o = Command::new("rustup").args(["which", "cargo"]).output();
        if let Ok(o) = o {
            if o.status.success() {
                return PathBuf::from(String::from_utf8_lossy(&o.stdout).trim());
            }
        }
        PathBuf::from("cargo")
    })
}

fn target_dir() -> PathBuf {
    let base = std::env::var_os("KV_WORK").map_or_else(std::env::temp_dir, PathBuf::from);
    let d = base.join(format!("kv-target-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("target directory");
    d
}

/// to look into what is skipped
fn loud(what: &str) -> bool {
    std::env::var_os("KV_LOUD").is_some_and(|v| v == what)
}

fn q(s: &str) -> String {
    // basic strings of toml are close enough to those of json
    json!(s).to_string()
}

fn list(v: &[String]) -> String {
    format!(
        "[{}]",
        v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ")
    )
}

struct Disk {
    w: World,
    scratch: Scratch,
    ws: PathBuf,
    args: Vec<String>,
}

/// Moves the paths of the world into the directory
fn relocate(w: &mut World, base: &str) {
    let old = w.ws_root.clone();
    let new = format!("{base}{old}");
    for p in &mut w.pkgs {
        if let Src::Path { dir } = &mut p.src {
            *dir = format!("{new}{}", dir.strip_prefix(&old).unwrap());
        }
    }
    w.ws_root = new;
}

fn vendor(url: &str) -> String {
    let mut s: String = url
        .chars()
        .map(|c| if c.is_ascii_alphanumeric() { c } else { '-' })
        .collect();
    s.insert_str(0, "vendor-");
    s
}

fn write(p: &Path, text: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).expect("directory");
    std::fs::write(p, text).expect("file");
}

fn manifest(w: &World, p: usize) -> String {
    let k = &w.pkgs[p];
    let mut s = format!(
        "[package]\nname = {}\nversion = {}\nedition = \"2021\"\n",
        q(&k.name),
        q(&k.version)
    );
    if k.has_lib() {
        s.push_str("[lib]\npath = \"src/lib.rs\"\n");
        if let Some(n) = &k.lib.name {
            s.push_str(&format!("name = {}\n", q(n)));
        }
        if k.lib.kinds == ["proc-macro"] {
            s.push_str("proc-macro = true\n");
        } else if k.lib.kinds != ["lib"] {
            let v: Vec<String> = k.lib.kinds.iter().map(|s| s.to_string()).collect();
            s.push_str(&format!("crate-type = {}\n", list(&v)));
        }
    }
    for d in &k.decls {
        let table = match d.kind {
            Kind::Normal => "dependencies",
            Kind::Dev => "dev-dependencies",
            Kind::Build => "build-dependencies",
        };
        let plat = d
            .plat
            .as_ref()
            .map(|p| format!("target.{}.", q(&p.to_string())))
            .unwrap_or_default();
        s.push_str(&format!("[{plat}{table}.{}]\n", q(&w.toml(d))));
        let t = &w.pkgs[d.to];
        if d.rename.is_some() {
            s.push_str(&format!("package = {}\n", q(&t.name)));
        }
        match &t.src {
            Src::Path { dir } => {
                s.push_str(&format!("path = {}\n", q(dir)));
                if d.req != "*" {
                    s.push_str(&format!("version = {}\n", q(&d.req)));
                }
            }
            Src::Registry { url } => {
                s.push_str(&format!("version = {}\n", q(&d.req)));
                if *url != crates_io() {
                    let index = url.strip_prefix("registry+").unwrap_or(url);
                    s.push_str(&format!("registry-index = {}\n", q(index)));
                }
            }
            Src::Git { .. } => unreachable!("git on disk"),
        }
        if d.optional {
            s.push_str("optional = true\n");
        }
        if !d.default_features {
            s.push_str("default-features = false\n");
        }
        if !d.features.is_empty() {
            s.push_str(&format!("features = {}\n", list(&d.features)));
        }
    }
    if !k.features.is_empty() {
        s.push_str("[features]\n");
        for (f, v) in &k.features {
            s.push_str(&format!("{} = {}\n", q(f), list(v)));
        }
    }
    s
}

fn exact(v: &str) -> String {
    format!("={}", v.split('+').next().unwrap())
}

fn gen_disk(seed: u64) -> Disk {
    let mut r = Rng::new(seed);
    let (_, o) = graph::opts(&mut r);
    let o = GenOpts {
        evaluated: true,
        git: false,
        patch: false,
        windows: false,
        max: o.max.min(16),
        min: o.min.min(10),
        ..o
    };
    let mut w = world::gen_world(&mut r, &o);
    if r.pct(85) {
        for k in &mut w.pkgs {
            if k.lib.kinds.is_empty() {
                k.lib.kinds.push("lib");
            }
        }
    }
    let scratch = Scratch::new();
    relocate(&mut w, scratch.0.to_str().expect("utf-8"));
    // cargo would take the highest version that matches
    for p in 0..w.pkgs.len() {
        for d in 0..w.pkgs[p].decls.len() {
            let to = w.pkgs[p].decls[d].to;
            if matches!(w.pkgs[to].src, Src::Registry { .. })
                && !w.pkgs[p].decls[d].req.starts_with('=')
            {
                let same = w.pkgs.iter().filter(|x| x.name == w.pkgs[to].name).count();
                if same > 1 {
                    w.pkgs[p].decls[d].req = exact(&w.pkgs[to].version);
                }
            }
        }
    }

    // features are given for all members at once
    let mut args: Vec<String> = Vec::new();
    let members = w.members.clone();
    let all: BTreeSet<String> = members
        .iter()
        .flat_map(|m| w.all_features(*m).into_keys())
        .collect();
    let all: Vec<String> = all.into_iter().collect();
    match r.below(10) {
        0..=3 => {
            for m in members {
                w.select.insert(m, Select::Default);
            }
        }
        4..=6 => {
            args.push("--all-features".into());
            for m in members {
                w.select.insert(m, Select::All);
            }
        }
        _ => {
            let mut on: BTreeSet<String> = BTreeSet::new();
            for _ in 0..r.range(0, 3) {
                if !all.is_empty() {
                    on.insert(r.pick(&all).clone());
                }
            }
            let default = r.pct(50);
            if !default {
                args.push("--no-default-features".into());
            }
            if !on.is_empty() {
                args.push("--features".into());
                args.push(on.iter().cloned().collect::<Vec<_>>().join(","));
            }
            for m in members {
                let f = w.all_features(m);
                let v = on.iter().filter(|x| f.contains_key(*x)).cloned().collect();
                w.select.insert(m, Select::Some(v, default));
            }
        }
    }
    let ws = PathBuf::from(&w.ws_root);
    let mut d = Disk {
        w,
        scratch,
        ws,
        args,
    };
    write_disk(&mut d, &mut r);
    d
}

fn write_disk(d: &mut Disk, r: &mut Rng) {
    let base = d.scratch.0.clone();
    let mut rel = |i: usize| -> Option<String> {
        match &d.w.pkgs[i].src {
            Src::Path { dir } if *dir != d.w.ws_root => {
                Some(dir[d.w.ws_root.len() + 1..].to_string())
            }
            _ => None,
        }
    };
    let members: Vec<String> = d.w.members.iter().filter_map(|m| rel(*m)).collect();
    let outside: Vec<String> = (0..d.w.pkgs.len())
        .filter(|i| !d.w.members.contains(i))
        .filter_map(&mut rel)
        .collect();
    let ws = format!(
        "[workspace]\nresolver = \"2\"\nmembers = {}\nexclude = {}\n",
        list(&members),
        list(&outside)
    );
    let mut at_root = false;
    for p in 0..d.w.pkgs.len() {
        let k = &d.w.pkgs[p];
        let text = manifest(&d.w, p);
        let dir = match &k.src {
            Src::Path { dir } => PathBuf::from(dir),
            Src::Registry { url } => {
                let dir = base
                    .join(vendor(url))
                    .join(format!("{}-{}", k.name, k.version));
                write(&dir.join(".cargo-checksum.json"), "{\"files\":{}}");
                dir
            }
            Src::Git { .. } => unreachable!(),
        };
        if dir == d.ws {
            at_root = true;
            write(&dir.join("Cargo.toml"), &format!("{text}{ws}"));
        } else {
            write(&dir.join("Cargo.toml"), &text);
        }
        write(
            &dir.join(if k.has_lib() {
                "src/lib.rs"
            } else {
                "src/main.rs"
            }),
            "",
        );
        write(&dir.join("build.rs"), "fn main() {}");
    }
    if !at_root {
        write(&d.ws.join("Cargo.toml"), &ws);
    }
    let urls: BTreeSet<&String> =
        d.w.pkgs
            .iter()
            .filter_map(|k| match &k.src {
                Src::Registry { url } => Some(url),
                _ => None,
            })
            .collect();
    let mut cfg = String::new();
    for u in urls {
        let v = vendor(u);
        if *u == crates_io() {
            cfg.push_str(&format!("[source.crates-io]\nreplace-with = {}\n", q(&v)));
        } else {
            let index = u.strip_prefix("registry+").unwrap_or(u);
            cfg.push_str(&format!(
                "[source.{}]\nregistry = {}\nreplace-with = {}\n",
                q(&format!("from-{v}")),
                q(index),
                q(&v)
            ));
        }
        cfg.push_str(&format!(
            "[source.{}]\ndirectory = {}\n",
            q(&v),
            q(base.join(&v).to_str().unwrap())
        ));
    }
    write(&base.join("cargo-home/config.toml"), &cfg);
    // where cargo is run
    if d.w.root == Some(0) && at_root {
        return;
    }
    let _ = r;
}

impl Disk {
    /// manifest cargo is run for
    fn manifest(&self) -> PathBuf {
        match self.w.root {
            Some(m) => match &self.w.pkgs[m].src {
                Src::Path { dir } => Path::new(dir).join("Cargo.toml"),
                _ => unreachable!(),
            },
            None => self.ws.join("Cargo.toml"),
        }
    }

    fn env(&self) -> Vec<(&'static str, PathBuf)> {
        let mut v = vec![
            ("CARGO_HOME", self.scratch.0.join("cargo-home")),
            ("CARGO_NET_OFFLINE", "true".into()),
            // cargo keeps what it asked rustc there
            ("CARGO_TARGET_DIR", target_dir()),
        ];
        let rustc = cargo().with_file_name("rustc");
        if rustc.is_file() {
            v.push(("RUSTC", rustc));
        }
        v
    }

    fn metadata_args(&self) -> Vec<String> {
        let mut v = vec!["--offline".to_string()];
        for t in &self.w.filter_platform {
            v.push("--filter-platform".into());
            v.push(t.clone());
        }
        v
    }
}

pub fn describe(seed: u64) -> Value {
    let d = gen_disk(seed);
    let mut files: BTreeMap<String, String> = BTreeMap::new();
    for p in 0..d.w.pkgs.len() {
        files.insert(
            format!("{} {:?}", d.w.pkgs[p].name, d.w.pkgs[p].src),
            manifest(&d.w, p),
        );
    }
    json!({"manifest": d.manifest().to_string_lossy(), "args": d.args, "options": d.metadata_args(), "packages": files,
        "workspace": std::fs::read_to_string(d.ws.join("Cargo.toml")).unwrap_or_default()})
}

fn sorted(v: &Value) -> Vec<String> {
    let mut x: Vec<String> = v
        .as_array()
        .map(|a| a.iter().map(|x| x.to_string()).collect())
        .unwrap_or_default();
    x.sort();
    x
}

/// What the simulated cargo says, next to the real one; gives the world as the real document has it
fn same_document(sim: &sim::Doc, real: &Value) -> Result<sim::RWorld, String> {
    let by = |v: &Value, k: &str| -> BTreeMap<String, Value> {
        v.as_array()
            .into_iter()
            .flatten()
            .map(|p| (p[k].as_str().unwrap_or("").to_string(), p.clone()))
            .collect()
    };
    let (a, b) = (by(&sim.json["packages"], "id"), by(&real["packages"], "id"));
    if a.keys().ne(b.keys()) {
        return Err(format!(
            "packages {:?} and {:?}",
            a.keys().collect::<Vec<_>>(),
            b.keys().collect::<Vec<_>>()
        ));
    }
    for k in ["workspace_members"] {
        if sorted(&sim.json[k]) != sorted(&real[k]) {
            return Err(format!("{k}: {} and {}", sim.json[k], real[k]));
        }
    }
    let mut rw = sim.rw.clone();
    for (id, x) in &a {
        let y = &b[id];
        for k in ["name", "version", "features", "source"] {
            if x[k] != y[k] {
                return Err(format!("{k} of {id}: {} and {}", x[k], y[k]));
            }
        }
        let i = rw.pkgs.iter().position(|p| p.id == *id).unwrap();
        let mine = x["dependencies"].as_array().unwrap();
        let mut left: Vec<usize> = (0..mine.len()).collect();
        let mut decls = Vec::new();
        for d in y["dependencies"].as_array().unwrap() {
            let keys = [
                "name",
                "source",
                "req",
                "kind",
                "rename",
                "optional",
                "uses_default_features",
                "features",
                "target",
                "registry",
                "path",
            ];
            let Some(at) = left
                .iter()
                .position(|j| keys.iter().all(|k| mine[*j][k] == d[k]))
            else {
                return Err(format!("dependency of {id}: {d} not in {mine:?}"));
            };
            let j = left.remove(at);
            decls.push(rw.pkgs[i].decls[j].clone());
        }
        if !left.is_empty() {
            return Err(format!("{id} has less dependencies"));
        }
        rw.pkgs[i].decls = decls;
        rw.pkgs[i].manifest_path = y["manifest_path"].as_str().unwrap_or("").to_string();
    }
    let (na, nb) = (
        by(&sim.json["resolve"]["nodes"], "id"),
        by(&real["resolve"]["nodes"], "id"),
    );
    if na.keys().ne(nb.keys()) {
        return Err("nodes".into());
    }
    if sim.json["resolve"]["root"] != real["resolve"]["root"] {
        return Err(format!(
            "root: {} and {}",
            sim.json["resolve"]["root"], real["resolve"]["root"]
        ));
    }
    for (id, x) in &na {
        let y = &nb[id];
        for k in ["features", "dependencies"] {
            if sorted(&x[k]) != sorted(&y[k]) {
                return Err(format!("{k} of node {id}: {} and {}", x[k], y[k]));
            }
        }
        let norm = |v: &Value| -> Vec<String> {
            let mut o: Vec<String> = v["deps"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|d| format!("{} {} {:?}", d["name"], d["pkg"], sorted(&d["dep_kinds"])))
                .collect();
            o.sort();
            o
        };
        if norm(x) != norm(y) {
            return Err(format!(
                "deps of node {id}: {:?} and {:?}",
                norm(x),
                norm(y)
            ));
        }
    }
    Ok(rw)
}

/// (name, version, rest) of each line of cargo tree, with features
fn tree(
    d: &Disk,
    args: &[&str],
) -> Result<Vec<(String, String, String, BTreeSet<String>)>, String> {
    let mut c = Command::new(cargo());
    c.arg("tree")
        .args(["--offline", "--prefix", "none", "-f", "{p}\t{f}"])
        .arg("--manifest-path")
        .arg(d.manifest())
        .args(args)
        .args(&d.args)
        .current_dir(&d.ws);
    for (k, v) in d.env() {
        c.env(k, v);
    }
    let o = c.output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).into_owned());
    }
    let mut v = Vec::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let l = l.trim_end_matches(" (*)");
        if l.trim().is_empty() {
            continue;
        }
        let (p, f) = l.split_once('\t').unwrap_or((l, ""));
        let mut it = p.splitn(3, ' ');
        let name = it.next().unwrap_or("").to_string();
        let ver = it.next().unwrap_or("").trim_start_matches('v').to_string();
        let rest = it.next().unwrap_or("").to_string();
        v.push((
            name,
            ver,
            rest,
            f.split(',')
                .filter(|s| !s.is_empty())
                .map(|s| s.to_string())
                .collect(),
        ));
    }
    Ok(v)
}

/// C30
pub fn real(seed: u64, st: &mut Stats) -> R {
    let d = gen_disk(seed);
    let mut r = Rng::new(seed ^ 0xd15c);

    // as the user would do it
    let mut cmd = krates::Cmd::new();
    cmd.cargo_path(cargo());
    cmd.manifest_path(d.manifest());
    let mut rest = d.metadata_args();
    let mut it = d.args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--all-features" => {
                cmd.all_features();
            }
            "--no-default-features" => {
                cmd.no_default_features();
            }
            "--features" => {
                cmd.features(it.next().unwrap().split(',').map(|s| s.to_string()));
            }
            x => rest.push(x.to_string()),
        }
    }
    cmd.other_options(rest);
    let mut mc: krates::cm::MetadataCommand = cmd.into();
    for (k, v) in d.env() {
        mc.env(k, v);
    }

    let sim = sim::emit(&d.w, &sim::resolve(&d.w), &Flavor::plain());
    let mut line = mc.cargo_command();
    let o = line.output().map_err(|e| format!("harness: {e}"))?;
    if !o.status.success() {
        st.hit("worlds cargo does not accept");
        if loud("cargo") {
            return Err(String::from_utf8_lossy(&o.stderr).into_owned());
        }
        return Ok(());
    }
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let text = text
        .lines()
        .find(|l| l.starts_with('{'))
        .unwrap_or("")
        .to_string();
    if let Some(p) = std::env::var_os("KV_DOC") {
        std::fs::write(p, &text).expect("document");
    }
    let v: Value = serde_json::from_str(&text).map_err(|e| format!("cargo metadata: {e}"))?;
    let rw = match same_document(&sim, &v) {
        Ok(rw) => rw,
        Err(m) => {
            // not about krates
            st.hit("worlds cargo resolves in another way than the simulation");
            if loud("sim") {
                return Err(format!("simulation: {m}"));
            }
            return Ok(());
        }
    };
    st.hit("documents equal to the ones of the simulation");
    if !d.w.filter_platform.is_empty() {
        st.hit("documents for one platform");
    }

    // the graph of the real document, by way of the builder
    let cfg = gencfg::gen_config(&mut r, &rw, Focus::Any);
    let e = model::expect(&rw, &cfg);
    let mut filtered = Vec::new();
    let b = cfg.builder();
    let built = obs::guard(|| {
        let k: Result<Krates, _> = b.build(mc, |p: Package| filtered.push(p));
        k
    })
    .map_err(|p| format!("panic: {p}"))?;
    match built {
        Err(krates::Error::NoRootKrates) if e.present.is_empty() => {}
        Err(x) => return Err(format!("build fails: {x}")),
        Ok(k) => {
            let o = obs::observe(&rw, &k, &filtered)?;
            gprops::crates_eq(&rw, &e, &o)?;
            gprops::links_eq(&rw, &e, &o)?;
            gprops::features_eq(&rw, &e, &o, st)?;
            if o.mapping != e.mapping {
                return Err(format!(
                    "declarations are resolved to other crates: {:?} instead of {:?}",
                    o.mapping, e.mapping
                ));
            }
            st.add("crates", o.krates.len() as u64);
            st.add("links", e.links.len() as u64);
            if e.present.len() > 1 && !e.links.is_empty() {
                st.prints.push(seed);
            }
        }
    }

    // what cargo would build
    // cargo tree also has what is only used by packages without library, of which nothing is built
    let libs = (0..d.w.pkgs.len()).all(|p| {
        d.w.pkgs[p].has_lib() || d.w.pkgs.iter().all(|k| k.decls.iter().all(|x| x.to != p))
    });
    if d.w.filter_platform.is_empty() && libs {
        tree_case(&d, &rw, &text, &mut r, st)?;
    }
    Ok(())
}

fn tree_case(d: &Disk, rw: &sim::RWorld, text: &str, r: &mut Rng, st: &mut Stats) -> R {
    // flags rustc does not know are not set for cargo either; target features are those rustc has
    let triple = if r.pct(40) {
        HOST.to_string()
    } else {
        // custom-made targets of rustc need not be known to krates
        r.pick(&[
            "x86_64-pc-windows-msvc",
            "aarch64-apple-darwin",
            "wasm32-unknown-unknown",
            "aarch64-unknown-linux-musl",
            "i686-unknown-linux-gnu",
            "riscv64gc-unknown-linux-gnu",
            "x86_64-unknown-freebsd",
        ])
        .to_string()
    };
    if !targets().iter().any(|t| t.triple == triple) {
        return Ok(());
    }
    let mut cfg = model::Config {
        // features are only known to be those of some member
        workspace: d.w.root.is_none() || d.args.iter().any(|a| a == "--features") || r.pct(50),
        ..Default::default()
    };
    let mut args: Vec<String> = vec!["--target".into(), triple.clone()];
    cfg.targets.push(TFilter::rustc(&triple));
    if triple != HOST {
        // build scripts and macros are for this machine
        cfg.targets.push(TFilter::rustc(HOST));
    }
    let mut edges = vec!["normal"];
    // cargo tree leaves out build dependencies only when it prints them, not when it resolves features
    edges.push("build");
    if r.pct(60) {
        edges.push("dev");
    } else {
        cfg.ignore.push((Kind::Dev, Sc::All));
    }
    args.push("-e".into());
    args.push(edges.join(","));
    if cfg.workspace {
        args.push("--workspace".into());
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let lines = match tree(d, &a) {
        Ok(l) => l,
        Err(m) => {
            st.hit("trees cargo does not print");
            if loud("cargo") {
                return Err(m);
            }
            return Ok(());
        }
    };
    let graph::Outcome::Built(run) = graph::run(rw, text, &cfg)? else {
        return Err("no roots are left, but cargo has a tree".into());
    };
    for (name, ver, rest, feats) in &lines {
        let cand: Vec<usize> = rw
            .pkgs
            .iter()
            .enumerate()
            .filter(|(_, p)| p.name == *name && p.version == *ver)
            .filter(|(_, p)| {
                // `(/path)`, `(registry `url`)`, `(proc-macro)`
                let dir = p.manifest_path.strip_suffix("/Cargo.toml");
                match (
                    dir.filter(|_| p.source_key.starts_with("path+")),
                    rest.contains("(/"),
                ) {
                    (Some(dir), true) => rest.contains(&format!("({dir})")),
                    (Some(_), false) => false,
                    (None, x) => !x && rest.contains("(registry") == (p.source_key != crates_io()),
                }
            })
            .map(|(i, _)| i)
            .collect();
        if cand.is_empty() {
            return Err(format!("harness: cargo tree has {name} {ver} {rest}"));
        }
        let Some(p) = cand.iter().find(|p| run.o.krates.contains(p)) else {
            return Err(format!(
                "cargo uses {} for {triple} with kinds {edges:?}, but the graph does not have it",
                rw.pkgs[cand[0]].id
            ));
        };
        st.hit("crates cargo uses");
        if cand.len() > 1 {
            continue;
        }
        for f in feats {
            if !run.o.feats[p].contains(f) {
                let lone = rw.pkgs[*p]
                    .features
                    .get(f)
                    .is_some_and(|v| v.len() == 1 && v[0] == format!("dep:{f}"));
                if lone {
                    st.known("implicit-feature-of-strong");
                    continue;
                }
                return Err(format!(
                    "cargo turns on feature '{f}' of {} for {triple} with kinds {edges:?}, but the graph does not",
                    rw.pkgs[*p].id
                ));
            }
            st.hit("features cargo turns on");
        }
    }
    st.hit("trees compared");
    let _ = |p: &Plat| p.to_string();
    Ok(())
}

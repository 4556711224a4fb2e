//! What cargo does with a world: feature resolution of the dependency resolver (the union over all targets and
//! kinds that `cargo metadata` reports), and the metadata document itself.
//! Validated against the real cargo by the end to end checks.

use crate::cfgx::Plat;
use crate::rng::Rng;
use crate::world::{GitRef, Kind, Select, Src, World, crates_io};
use std::collections::{BTreeMap, BTreeSet};

/// A declaration, with the package it was resolved to (known from the world, not from the document)
#[derive(Clone, Debug)]
pub struct RDecl {
    /// name in the manifest
    pub toml: String,
    pub to: Option<usize>,
    pub kind: Kind,
    pub plat: Option<Plat>,
    pub optional: bool,
    pub default_features: bool,
    pub features: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct RPkg {
    pub name: String,
    /// name of the library target
    pub lib: String,
    pub version: String,
    pub id: String,
    /// url without kind prefix, query and fragment
    pub base_url: String,
    /// what identifies the source, independently of the format of the id
    pub source_key: String,
    pub decls: Vec<RDecl>,
    pub features: BTreeMap<String, Vec<String>>,
    /// enabled features according to cargo
    pub rfeat: BTreeSet<String>,
    pub manifest_path: String,
    pub is_member: bool,
}

/// A resolved world: the input of the reference model
#[derive(Clone, Debug)]
pub struct RWorld {
    pub pkgs: Vec<RPkg>,
    pub members: Vec<usize>,
    pub root: Option<usize>,
    pub ws_root: String,
}

/// How the metadata document is written
#[derive(Clone, Debug)]
pub struct Flavor {
    /// package ids of cargo before 1.77
    pub opaque: bool,
    /// `foo-bar` instead of `foo_bar` as name of the library target (old cargo)
    pub dashed_targets: bool,
    /// shuffle all arrays whose order has no meaning
    pub shuffle: Option<u64>,
}

impl Flavor {
    pub fn plain() -> Self {
        Flavor {
            opaque: false,
            dashed_targets: false,
            shuffle: None,
        }
    }

    pub fn random(r: &mut Rng) -> Self {
        Flavor {
            opaque: r.pct(35),
            dashed_targets: r.pct(25),
            shuffle: r.pct(70).then(|| r.next()),
        }
    }
}

pub struct Resolved {
    /// index into the world -> enabled features, activated declarations
    pub feats: BTreeMap<usize, BTreeSet<String>>,
    pub active: BTreeSet<(usize, usize)>,
}

/// The dependency resolver
pub fn resolve(w: &World) -> Resolved {
    let mut feats: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
    // dependencies required by features, by name in the manifest
    let mut req: BTreeMap<usize, BTreeMap<String, BTreeSet<String>>> = BTreeMap::new();
    let mut active: BTreeSet<(usize, usize)> = BTreeSet::new();
    let allf: Vec<_> = (0..w.pkgs.len()).map(|p| w.all_features(p)).collect();

    for &m in &w.members {
        let f = feats.entry(m).or_default();
        match &w.select[&m] {
            Select::All => f.extend(allf[m].keys().cloned()),
            Select::Default => {
                if allf[m].contains_key("default") {
                    f.insert("default".into());
                }
            }
            Select::Some(v, d) => {
                f.extend(v.iter().cloned());
                if *d && allf[m].contains_key("default") {
                    f.insert("default".into());
                }
            }
        }
    }

    loop {
        let before = (
            feats.values().map(|f| f.len()).sum::<usize>(),
            feats.len(),
            active.len(),
            req.values()
                .map(|r| r.len() + r.values().map(|s| s.len()).sum::<usize>())
                .sum::<usize>(),
        );

        let present: Vec<usize> = feats.keys().copied().collect();
        for p in present {
            let on: Vec<String> = feats[&p].iter().cloned().collect();
            for f in on {
                for v in &allf[p][&f] {
                    if let Some(d) = v.strip_prefix("dep:") {
                        req.entry(p).or_default().entry(d.into()).or_default();
                    } else if let Some((d, sub)) = v.split_once('/') {
                        let (d, weak) = match d.strip_suffix('?') {
                            Some(d) => (d, true),
                            None => (d, false),
                        };
                        let opt = w.pkgs[p].decls.iter().any(|x| x.optional && w.toml(x) == d);
                        if !weak && opt && allf[p].contains_key(d) {
                            feats.get_mut(&p).unwrap().insert(d.into());
                        }
                        req.entry(p)
                            .or_default()
                            .entry(d.into())
                            .or_default()
                            .insert(sub.into());
                    } else {
                        feats.get_mut(&p).unwrap().insert(v.clone());
                    }
                }
            }
            for (i, d) in w.pkgs[p].decls.iter().enumerate() {
                if d.kind == Kind::Dev && !w.members.contains(&p) {
                    continue;
                }
                let toml = w.toml(d);
                let r = req.get(&p).and_then(|r| r.get(&toml));
                if d.optional && r.is_none() {
                    continue;
                }
                active.insert((p, i));
                let mut fs: Vec<String> = d.features.clone();
                if let Some(r) = r {
                    fs.extend(r.iter().cloned());
                }
                if d.default_features && allf[d.to].contains_key("default") {
                    fs.push("default".into());
                }
                feats.entry(d.to).or_default().extend(fs);
            }
        }

        let after = (
            feats.values().map(|f| f.len()).sum::<usize>(),
            feats.len(),
            active.len(),
            req.values()
                .map(|r| r.len() + r.values().map(|s| s.len()).sum::<usize>())
                .sum::<usize>(),
        );
        if before == after {
            break;
        }
    }
    Resolved { feats, active }
}

fn pct(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_alphanumeric() || "-_.~*".contains(c) {
            o.push(c);
        } else {
            o.push_str(&format!("%{:02X}", c as u32));
        }
    }
    o
}

/// As the `url` crate has it
pub fn file_url(dir: &str) -> String {
    let mut o = "file://".to_string();
    if !dir.starts_with('/') {
        o.push('/');
    }
    for b in dir.bytes() {
        if (0x21..0x7f).contains(&b) && !b"\"#<>?`{}%\\^".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

/// The source without a precise revision. `enc`: with the percent encoding that the stable package ids have
pub fn source_str(s: &Src, enc: bool) -> String {
    match s {
        Src::Path { dir } => format!("path+{}", file_url(dir)),
        Src::Registry { url } => url.clone(),
        Src::Git { url, refr, .. } => {
            let e = |s: &str| if enc { pct(s) } else { s.to_string() };
            match refr {
                GitRef::Default => format!("git+{url}"),
                GitRef::Branch(b) => format!("git+{url}?branch={}", e(b)),
                GitRef::Tag(b) => format!("git+{url}?tag={}", e(b)),
                GitRef::Rev(b) => format!("git+{url}?rev={}", e(b)),
            }
        }
    }
}

pub fn package_id(name: &str, version: &str, src: &Src, opaque: bool) -> String {
    if opaque {
        let s = source_str(src, false);
        match src {
            Src::Git { rev, .. } => format!("{name} {version} ({s}#{rev})"),
            _ => format!("{name} {version} ({s})"),
        }
    } else {
        let s = source_str(src, true);
        let base = match src {
            Src::Path { .. } => s.rsplit('/').next().unwrap().to_string(),
            Src::Registry { .. } => String::new(),
            Src::Git { url, .. } => url.rsplit('/').next().unwrap().to_string(),
        };
        if !matches!(src, Src::Registry { .. }) && base == name {
            format!("{s}#{version}")
        } else {
            format!("{s}#{name}@{version}")
        }
    }
}

/// The paths cargo prints, which on windows have backslashes
pub fn native(path: &str, windows: bool) -> String {
    if windows {
        path.replace('/', "\\")
    } else {
        path.to_string()
    }
}

pub fn manifest_dir(w: &World, p: usize) -> String {
    match &w.pkgs[p].src {
        Src::Path { dir } => dir.clone(),
        Src::Registry { .. } => format!(
            "/cargo-home/registry/src/{}-{}",
            w.pkgs[p].name, w.pkgs[p].version
        ),
        Src::Git { rev, .. } => format!(
            "/cargo-home/git/checkouts/x/{}/{}",
            &rev[..7],
            w.pkgs[p].name
        ),
    }
}

fn base_url(s: &Src) -> String {
    match s {
        Src::Path { dir } => file_url(dir),
        Src::Registry { url } => url.split_once('+').unwrap().1.to_string(),
        Src::Git { url, .. } => url.clone(),
    }
}

fn plat_ok(p: &Option<Plat>, filter: &[String]) -> bool {
    if filter.is_empty() {
        return true;
    }
    let Some(p) = p else { return true };
    filter.iter().any(|t| match p {
        Plat::Triple(x) => x == t,
        Plat::Cfg(c) => c.eval(&crate::cfgx::TFilter::rustc(t)),
    })
}

pub struct Doc {
    pub rw: RWorld,
    pub json: serde_json::Value,
    /// index in the world of each package of `rw`
    pub widx: Vec<usize>,
}

pub fn emit(w: &World, res: &Resolved, fl: &Flavor) -> Doc {
    use serde_json::{Value, json};

    // packages reachable from the members over the declarations that are left
    let edge_ok = |p: usize, i: usize| -> bool {
        // all the declarations of a package are left if one of them is for the platform
        res.active.contains(&(p, i))
            && w.pkgs[p].decls.iter().enumerate().any(|(j, d)| {
                d.to == w.pkgs[p].decls[i].to
                    && res.active.contains(&(p, j))
                    && plat_ok(&d.plat, &w.filter_platform)
            })
    };
    let mut reach: BTreeSet<usize> = BTreeSet::new();
    let mut st: Vec<usize> = w.members.clone();
    while let Some(p) = st.pop() {
        if reach.insert(p) {
            for (i, d) in w.pkgs[p].decls.iter().enumerate() {
                if edge_ok(p, i) && w.pkgs[d.to].has_lib() {
                    st.push(d.to);
                }
            }
        }
    }
    let widx: Vec<usize> = reach.iter().copied().collect();
    let ridx: BTreeMap<usize, usize> = widx.iter().enumerate().map(|(i, p)| (*p, i)).collect();

    let id = |p: usize| {
        package_id(
            &w.pkgs[p].name,
            &w.pkgs[p].version,
            &w.pkgs[p].src,
            fl.opaque,
        )
    };
    let feats = |p: usize| res.feats.get(&p).cloned().unwrap_or_default();

    let mut pkgs = Vec::new();
    let mut jp: Vec<Value> = Vec::new();
    let mut jn: Vec<Value> = Vec::new();

    for &p in &widx {
        let k = &w.pkgs[p];
        let dir = manifest_dir(w, p);
        let mp = native(&format!("{dir}/Cargo.toml"), w.windows);
        let decls: Vec<RDecl> = k
            .decls
            .iter()
            .enumerate()
            .map(|(i, d)| RDecl {
                toml: w.toml(d),
                to: (edge_ok(p, i) && w.pkgs[d.to].has_lib()).then(|| ridx[&d.to]),
                kind: d.kind,
                plat: d.plat.clone(),
                optional: d.optional,
                default_features: d.default_features,
                features: d.features.clone(),
            })
            .collect();
        pkgs.push(RPkg {
            name: k.name.clone(),
            lib: k.lib_name(),
            version: k.version.clone(),
            id: id(p),
            base_url: base_url(&k.src),
            source_key: source_str(&k.src, false),
            decls,
            features: w.all_features(p),
            rfeat: feats(p),
            manifest_path: mp.clone(),
            is_member: w.members.contains(&p),
        });

        let source = match &k.src {
            Src::Path { .. } => Value::Null,
            Src::Registry { url } => json!(url),
            Src::Git { rev, .. } => {
                json!(format!("{}#{rev}", source_str(&k.src, !fl.opaque)))
            }
        };
        let jd: Vec<Value> = k
            .decls
            .iter()
            .map(|d| {
                let q = &w.pkgs[d.to];
                let src = match &q.src {
                    _ if d.patched => json!(crates_io()),
                    Src::Path { .. } => Value::Null,
                    s => json!(source_str(s, false)),
                };
                let path = match &q.src {
                    Src::Path { dir } if !d.patched => Some(native(dir, w.windows)),
                    _ => None,
                };
                let registry = match &q.src {
                    Src::Registry { url } if *url != crates_io() => {
                        json!(url.strip_prefix("registry+").unwrap_or(url))
                    }
                    _ => Value::Null,
                };
                let mut v = json!({
                    "name": q.name,
                    "source": src,
                    "req": d.req,
                    "kind": match d.kind { Kind::Normal => Value::Null, Kind::Dev => json!("dev"), Kind::Build => json!("build") },
                    "rename": d.rename,
                    "optional": d.optional,
                    "uses_default_features": d.default_features,
                    "features": d.features,
                    "target": d.plat.as_ref().map(|p| p.to_string()),
                    "registry": registry,
                });
                if let Some(path) = path {
                    v["path"] = json!(path);
                }
                v
            })
            .collect();
        let mut targets = Vec::new();
        if k.has_lib() {
            let n = match &k.lib.name {
                Some(n) => n.clone(),
                None if fl.dashed_targets => k.name.clone(),
                None => k.name.replace('-', "_"),
            };
            targets.push(json!({
                "kind": k.lib.kinds, "crate_types": k.lib.kinds, "name": n,
                "src_path": native(&format!("{dir}/src/lib.rs"), w.windows), "edition": "2021",
                "doc": true, "doctest": true, "test": true,
            }));
        } else {
            targets.push(json!({
                "kind": ["bin"], "crate_types": ["bin"], "name": k.name,
                "src_path": native(&format!("{dir}/src/main.rs"), w.windows), "edition": "2018",
                "doc": true, "doctest": false, "test": true,
            }));
        }
        targets.push(json!({
            "kind": ["custom-build"], "crate_types": ["bin"], "name": "build-script-build",
            "src_path": native(&format!("{dir}/build.rs"), w.windows), "edition": "2021",
            "doc": false, "doctest": false, "test": false,
        }));
        jp.push(json!({
            "name": k.name, "version": k.version, "id": id(p), "license": "MIT", "license_file": null,
            "description": null, "source": source, "dependencies": jd, "targets": targets,
            "features": w.all_features(p), "manifest_path": mp, "metadata": null, "publish": null,
            "authors": ["A <a@example.com>"], "categories": [], "keywords": [], "readme": null,
            "repository": null, "homepage": null, "documentation": null, "edition": "2021",
            "links": null, "default_run": null, "rust_version": null,
        }));

        // resolve node
        let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (i, d) in k.decls.iter().enumerate() {
            if edge_ok(p, i) && w.pkgs[d.to].has_lib() {
                by.entry(d.to).or_default().push(i);
            }
        }
        let mut deps: Vec<Value> = by
            .iter()
            .map(|(q, ds)| {
                let kinds: Vec<Value> = ds
                    .iter()
                    .map(|&i| {
                        let d = &k.decls[i];
                        json!({
                            "kind": match d.kind { Kind::Normal => Value::Null, Kind::Dev => json!("dev"), Kind::Build => json!("build") },
                            "target": d.plat.as_ref().map(|p| p.to_string()),
                        })
                    })
                    .collect();
                // the rename of a dependency on itself means nothing to cargo
                let name = if *q == p {
                    k.lib_name()
                } else {
                    w.extern_name(&k.decls[ds[0]])
                };
                json!({"name": name, "pkg": id(*q), "dep_kinds": kinds})
            })
            .collect();
        deps.sort_by(|a, b| a["name"].as_str().cmp(&b["name"].as_str()));
        let mut dependencies: Vec<String> = by.keys().map(|q| id(*q)).collect();
        dependencies.sort();
        jn.push(json!({
            "id": id(p), "dependencies": dependencies, "deps": deps,
            "features": feats(p).into_iter().collect::<Vec<_>>(),
        }));
    }

    jp.sort_by(|a, b| a["id"].as_str().cmp(&b["id"].as_str()));
    jn.sort_by(|a, b| a["id"].as_str().cmp(&b["id"].as_str()));

    let rw = RWorld {
        pkgs,
        members: w.members.iter().map(|m| ridx[m]).collect(),
        root: w.root.map(|r| ridx[&r]),
        ws_root: native(&w.ws_root, w.windows),
    };
    let mut json = json!({
        "packages": jp,
        "workspace_members": w.members.iter().map(|m| id(*m)).collect::<Vec<_>>(),
        "workspace_default_members": w.members.iter().map(|m| id(*m)).collect::<Vec<_>>(),
        "resolve": { "nodes": jn, "root": w.root.map(id) },
        "target_directory": native(&format!("{}/target", w.ws_root), w.windows),
        "version": 1,
        "workspace_root": native(&w.ws_root, w.windows),
        "metadata": null,
    });
    if let Some(s) = fl.shuffle {
        shuffle_json(&mut json, &mut Rng::new(s));
    }
    Doc { rw, json, widx }
}

/// Shuffles every array whose order carries no meaning. The declarations of a package keep theirs, since callers
/// refer to them by index
pub fn shuffle_json(v: &mut serde_json::Value, r: &mut Rng) {
    fn arr<'a>(v: &'a mut serde_json::Value, k: &str) -> Option<&'a mut Vec<serde_json::Value>> {
        v.get_mut(k).and_then(|v| v.as_array_mut())
    }
    if let Some(a) = arr(v, "packages") {
        r.shuffle(a);
        for p in a {
            if let Some(t) = arr(p, "targets") {
                r.shuffle(t);
            }
        }
    }
    if let Some(a) = arr(v, "workspace_members") {
        r.shuffle(a);
    }
    let Some(res) = v.get_mut("resolve") else {
        return;
    };
    if let Some(a) = arr(res, "nodes") {
        r.shuffle(a);
        for n in a {
            for k in ["dependencies", "features"] {
                if let Some(x) = arr(n, k) {
                    r.shuffle(x);
                }
            }
            if let Some(x) = arr(n, "deps") {
                r.shuffle(x);
                for d in x {
                    if let Some(k) = arr(d, "dep_kinds") {
                        r.shuffle(k);
                    }
                }
            }
        }
    }
}

//! Features from the index, and builds from unusual metadata.

use crate::gencfg::{self, Focus};
use crate::graph;
use crate::model;
use crate::obs;
use crate::rng::Rng;
use crate::runner::Stats;
use crate::sim;
use crate::world::crates_io;
use krates::index::{IndexKrate, IndexKrateVersion};
use krates::{DepKind, Kid, Krates, Node, NodeId, Package};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type R = Result<(), String>;
type Feats = BTreeMap<String, Vec<String>>;

fn feats_of(p: &Value) -> Feats {
    p["features"]
        .as_object()
        .expect("features")
        .iter()
        .map(|(k, v)| {
            (
                k.clone(),
                v.as_array()
                    .unwrap()
                    .iter()
                    .map(|s| s.as_str().unwrap().to_string())
                    .collect(),
            )
        })
        .collect()
}

fn simple(v: &str) -> bool {
    !v.starts_with("dep:") && !v.contains('/')
}

/// implicit features of old index entries: `x = ["dep:x"]`, where x is mentioned as feature, and dep:x nowhere else
fn old_style(f: &Feats) -> Vec<String> {
    f.iter()
        .filter(|(x, v)| {
            let d = format!("dep:{x}");
            v.len() == 1
                && v[0] == d
                && f.iter().all(|(k, v)| k == *x || !v.contains(&d))
                && f.iter().any(|(k, v)| k != *x && v.contains(x))
        })
        .map(|(x, _)| x.clone())
        .collect()
}

/// what the package should have in the end
fn merge(have: &Feats, entry: Option<&Feats>) -> Feats {
    let Some(entry) = entry else {
        return have.clone();
    };
    let mut m = have.clone();
    for (k, v) in entry {
        m.entry(k.clone()).or_insert_with(|| v.clone());
    }
    let undeclared: BTreeSet<String> = m
        .values()
        .flatten()
        .filter(|v| simple(v) && !m.contains_key(*v))
        .cloned()
        .collect();
    for u in undeclared {
        let d = vec![format!("dep:{u}")];
        m.insert(u, d);
    }
    m
}

struct IndexCase {
    case: graph::Case,
    /// the document without the features that are left out
    text: String,
    index: BTreeMap<String, Option<IndexKrate>>,
    /// expected features of each package id
    want: BTreeMap<String, Feats>,
    names: BTreeSet<String>,
    io_names: BTreeSet<String>,
    left_out: usize,
    old: usize,
    kept: usize,
    unknown: usize,
    others: usize,
}

fn index_case(seed: u64) -> Option<IndexCase> {
    let case = graph::gen_case(seed, Focus::Any);
    let mut r = Rng::new(seed ^ 0x1dec5);
    let mut doc: Value = serde_json::from_str(&case.text).expect("metadata");
    let mut entries: BTreeMap<String, Vec<(String, Feats)>> = BTreeMap::new();
    let mut c = IndexCase {
        case,
        text: String::new(),
        index: BTreeMap::new(),
        want: BTreeMap::new(),
        names: BTreeSet::new(),
        io_names: BTreeSet::new(),
        left_out: 0,
        old: 0,
        kept: 0,
        unknown: 0,
        others: 0,
    };
    // the index has nothing for these
    let mut dark: BTreeMap<String, bool> = BTreeMap::new();
    let io = crates_io();
    for p in doc["packages"].as_array_mut().unwrap() {
        let id = p["id"].as_str().unwrap().to_string();
        let name = p["name"].as_str().unwrap().to_string();
        let version = p["version"].as_str().unwrap().to_string();
        c.names.insert(name.clone());
        let full = feats_of(p);
        if p["source"].as_str() != Some(io.as_str()) {
            c.others += 1;
            c.want.insert(id, full.clone());
            // an entry of the same name and version that must not be looked at
            if r.pct(50) {
                let mut f = full;
                f.insert("only-in-index".into(), vec![]);
                let es = entries.entry(name).or_default();
                if !es.iter().any(|e| e.0 == version) {
                    es.push((version, f));
                }
            }
            continue;
        }
        c.io_names.insert(name.clone());
        if *dark.entry(name.clone()).or_insert_with(|| r.pct(10)) {
            c.unknown += 1;
            c.want.insert(id, full);
            continue;
        }
        let mut have = full.clone();
        let mut entry = full.clone();
        for x in old_style(&full) {
            // may be undone by another feature of the same name as x that is gone as well
            if r.pct(45) {
                have.remove(&x);
                entry.remove(&x);
                c.old += 1;
            }
        }
        let keys: Vec<String> = have.keys().cloned().collect();
        let all = r.pct(15);
        for k in keys {
            if all || r.pct(40) {
                have.remove(&k);
                c.left_out += 1;
            } else if r.pct(25) {
                // differs, but the package knows better
                match r.below(3) {
                    0 => {
                        entry.remove(&k);
                    }
                    1 => {
                        entry.insert(k, vec![]);
                    }
                    _ => {
                        let mut v = full[&k].clone();
                        v.push("only-in-index".into());
                        entry.insert(k, v);
                        entry.insert("only-in-index".into(), vec![]);
                    }
                }
                c.kept += 1;
            }
        }
        if r.pct(30) {
            entry.insert("only-in-index".into(), vec![]);
        }
        c.want.insert(id, merge(&have, Some(&entry)));
        p["features"] = json!(have);
        let es = entries.entry(name).or_default();
        // the one of a package from elsewhere
        es.retain(|e| e.0 != version);
        es.push((version, entry));
    }
    for (name, es) in &mut entries {
        if dark.get(name) == Some(&true) {
            continue;
        }
        // other versions
        for v in ["0.0.1", "1.2.4", "2.0.0", "0.2.3", "99.0.0-pre.1"] {
            if r.pct(35) && !es.iter().any(|e| e.0 == v) {
                es.push((
                    v.into(),
                    [
                        ("only-in-index".to_string(), vec![]),
                        ("std".into(), vec![]),
                    ]
                    .into(),
                ));
            }
        }
        // versions that only differ in what is not compared when they are resolved
        for i in 0..es.len() {
            let v = format!("{}+other", es[i].0.split('+').next().unwrap());
            if r.pct(20) && !es.iter().any(|e| e.0 == v) {
                es.push((v, [("only-in-index".to_string(), vec![])].into()));
            }
        }
        r.shuffle(es);
        let versions = es
            .iter()
            .map(|(v, f)| IndexKrateVersion {
                version: v.parse().expect("version"),
                features: f.clone(),
            })
            .collect();
        c.index.insert(name.clone(), Some(IndexKrate { versions }));
    }
    for (name, d) in dark {
        if d && r.pct(50) {
            let empty = r.pct(50);
            c.index
                .insert(name, empty.then(|| IndexKrate { versions: vec![] }));
        }
    }
    c.text = doc.to_string();
    Some(c)
}

pub fn describe_index(seed: u64) -> Value {
    let Some(c) = index_case(seed) else {
        return Value::Null;
    };
    json!({
        "metadata": serde_json::from_str::<Value>(&c.text).unwrap(),
        "config": format!("{:?}", c.case.cfg),
        "index": c.index.iter().map(|(n, k)| json!({
            "name": n,
            "versions": k.as_ref().map(|k| k.versions.iter().map(|v| json!({
                "version": v.version.to_string(), "features": v.features})).collect::<Vec<_>>()),
        })).collect::<Vec<_>>(),
    })
}

/// C23
pub fn index(seed: u64, st: &mut Stats) -> R {
    let Some(c) = index_case(seed) else {
        return Ok(());
    };
    let case = &c.case;
    let full = graph::run_expected(case)?;
    graph::note(st, case, &full.0, full.1.as_deref());
    let md = graph::parse(&c.text)?;
    let asked: Rc<RefCell<Vec<BTreeSet<String>>>> = Rc::default();
    let mut b = case.cfg.builder();
    {
        let asked = asked.clone();
        let index = c.index.clone();
        b.with_crates_io_index(Box::new(move |names| {
            asked.borrow_mut().push(names);
            index
        }));
    }
    let mut filtered: Vec<Package> = Vec::new();
    let built = obs::guard(|| {
        let k: Result<Krates, _> = b.build_with_metadata(md, |p: Package| filtered.push(p));
        k
    });
    let k = match built {
        Err(p) => return Err(format!("panic with the index: {p}")),
        Ok(Err(krates::Error::NoRootKrates)) if full.1.is_none() => return Ok(()),
        Ok(Err(e)) => return Err(format!("error with the index: {e}")),
        Ok(Ok(k)) => k,
    };
    let asked = asked.borrow();
    if asked.len() != 1 {
        return Err(format!("the index is asked {} times", asked.len()));
    }
    if let Some(n) = c.io_names.difference(&asked[0]).next() {
        return Err(format!("the index is not asked for {n}"));
    }
    if let Some(n) = asked[0].difference(&c.names).next() {
        return Err(format!(
            "the index is asked for {n}, which no package is named"
        ));
    }
    let Some(r) = full.1 else {
        return Err("a graph is built even though no root crate is left".into());
    };
    for p in k.krates().chain(&filtered) {
        let want = &c.want[&p.id.repr];
        if p.features != *want {
            return Err(format!(
                "{} has features {:?} instead of {want:?}",
                p.id, p.features
            ));
        }
        st.hit("packages compared");
    }
    let o = obs::observe(&case.rw, &k, &filtered)?;
    if o != r.o {
        return Err(format!(
            "the graph differs from the one of metadata with all features: crates {:?} and {:?}, features {:?} and {:?}, edges {} and {}",
            o.krates,
            r.o.krates,
            o.feats,
            r.o.feats,
            o.edges.len(),
            r.o.edges.len()
        ));
    }
    st.add("features taken from the index", c.left_out as u64);
    st.add("features of old entries", c.old as u64);
    st.add("features the index has differently", c.kept as u64);
    st.add("packages the index does not know", c.unknown as u64);
    st.add("packages from elsewhere", c.others as u64);
    Ok(())
}

// ---- C24

pub fn describe_total(seed: u64) -> Value {
    let (t, text, cfg) = match total_case(seed) {
        Total::Shape(s) => ("shape", s.json.to_string(), s.describe),
        Total::Doc(t, text, cfg, _) => (t, text, format!("{cfg:?}")),
    };
    json!({"kind": t, "config": cfg, "metadata": serde_json::from_str::<Value>(&text).unwrap_or(Value::Null)})
}

/// what a document is expected to give
enum Want {
    NoResolve,
    NoRoots,
    /// what the model says, for a world with fewer features
    Model(Box<sim::RWorld>),
}

enum Total {
    Shape(Box<Shape>),
    Doc(&'static str, String, model::Config, Want),
}

fn total_case(seed: u64) -> Total {
    let mut r = Rng::new(seed);
    match r.below(100) {
        0..=5 => return Total::Shape(Box::new(shape(&mut r))),
        6..=14 => {
            // nothing at all
            let ws = "/w";
            let mut v = json!({
                "packages": [], "workspace_members": [], "workspace_default_members": [],
                "resolve": {"nodes": [], "root": null}, "target_directory": "/w/target", "version": 1,
                "workspace_root": ws, "metadata": null,
            });
            let want = if r.pct(40) {
                v["resolve"] = Value::Null;
                Want::NoResolve
            } else {
                Want::NoRoots
            };
            let mut cfg = model::Config {
                workspace: r.pct(50),
                ..Default::default()
            };
            if r.pct(40) {
                cfg.include_ws.push("/w/Cargo.toml".into());
            }
            return Total::Doc("empty", v.to_string(), cfg, want);
        }
        _ => {}
    }
    let case = graph::gen_case(r.next(), Focus::Any);
    let mut cfg = case.cfg.clone();
    let mut doc: Value = serde_json::from_str(&case.text).expect("metadata");
    match r.below(10) {
        0 | 1 => {
            if r.pct(50) {
                doc["resolve"] = Value::Null;
            } else {
                doc.as_object_mut().unwrap().remove("resolve");
            }
            Total::Doc("no resolve", doc.to_string(), cfg, Want::NoResolve)
        }
        2 | 3 => {
            for p in model::roots(&case.rw, &cfg) {
                let p = &case.rw.pkgs[p];
                let v = r.pct(50).then(|| p.version.clone());
                cfg.exclude
                    .push(gencfg::make_excl(&mut r, p.name.clone(), v, None));
            }
            r.shuffle(&mut cfg.exclude);
            Total::Doc("no roots", doc.to_string(), cfg, Want::NoRoots)
        }
        _ => {
            // the features that are on are not all declared
            let mut rw = (*case.rw).clone();
            let io = crates_io();
            let at: BTreeMap<String, usize> = rw
                .pkgs
                .iter()
                .enumerate()
                .map(|(i, p)| (p.id.clone(), i))
                .collect();
            let share = *r.pick(&[10, 30, 60, 100]);
            for p in doc["packages"].as_array_mut().unwrap() {
                if p["source"].as_str() != Some(io.as_str()) {
                    continue;
                }
                let mut f = feats_of(p);
                f.retain(|_, _| !r.pct(share));
                p["features"] = json!(f);
                rw.pkgs[at[p["id"].as_str().unwrap()]].features = f;
            }
            Total::Doc(
                "undeclared features",
                doc.to_string(),
                cfg,
                Want::Model(Box::new(rw)),
            )
        }
    }
}

/// Every query there is, on every node or some of them; none may fail
pub fn sweep(k: &Krates, some: usize) -> Result<u64, String> {
    let g = k.graph();
    let n = g.node_count();
    let kn = k.len();
    let mut calls = 0u64;
    let step = (n / some.max(1)).max(1);
    if k.krates().count() != kn {
        return Err(format!(
            "krates() has {} crates, len() is {kn}",
            k.krates().count()
        ));
    }
    calls += k.workspace_members().count() as u64;
    for kind in [DepKind::Normal, DepKind::Dev, DepKind::Build] {
        let f = k.krates_filtered(kind);
        if f.len() > kn {
            return Err(format!("krates_filtered has {} of {kn} crates", f.len()));
        }
        calls += 1;
    }
    for i in (0..n).step_by(step) {
        let nid = NodeId::new(i);
        calls += 5 + k.get_deps(nid).count() as u64;
        let dd = k.direct_dependencies(nid).len();
        let dt = k.direct_dependents(nid).len();
        if dd > kn || dt > kn {
            return Err(format!(
                "node {i} of {kn} crates has {dd} dependencies and {dt} dependents"
            ));
        }
        match &g[nid] {
            Node::Krate {
                id,
                krate,
                features,
                ..
            } => {
                if i >= kn {
                    return Err(format!("crate at {i}, after all {kn} crates"));
                }
                for d in 0..krate.dependencies.len() + 2 {
                    let _ = k.resolved_dependency(nid, d);
                }
                let _ = k.resolved_dependency(nid, usize::MAX);
                if k.nid_for_kid(id) != Some(nid) {
                    return Err(format!("{id} is not found"));
                }
                let _ = k.node_for_kid(id);
                for f in features.iter().take(40) {
                    let _ = k.get_node(id, Some(f));
                    calls += 1;
                }
                let _ = k.get_node(id, Some("no such feature"));
                if k.get_enabled_features(id) != Some(features) {
                    return Err(format!("features of {id} differ"));
                }
                if !k.krates_by_name(&krate.name).any(|m| m.node_id == nid) {
                    return Err(format!("{id} is not found by its name"));
                }
                let _ = k[nid].id.clone();
                calls += krate.dependencies.len() as u64 + 8;
            }
            Node::Feature { krate_index, .. } => {
                if i < kn || krate_index.index() >= kn {
                    return Err(format!(
                        "feature at {i} of the crate at {}, with {kn} crates",
                        krate_index.index()
                    ));
                }
                for d in [0, 1, usize::MAX] {
                    if k.resolved_dependency(nid, d).is_some() {
                        return Err("a feature has a resolved dependency".into());
                    }
                }
            }
        }
    }
    for i in [n, n + 1, u32::MAX as usize] {
        let nid = NodeId::new(i);
        if k.get_deps(nid).count()
            + k.direct_dependencies(nid).len()
            + k.direct_dependents(nid).len()
            != 0
            || k.resolved_dependency(nid, 0).is_some()
        {
            return Err(format!("there is something at {i}, with {n} nodes"));
        }
        calls += 4;
    }
    for id in [
        "no-such 1.0.0 (registry+https://github.com/rust-lang/crates.io-index)",
        "path+file:///#zzzz@9.9.9",
    ] {
        let kid = Kid::from(krates::cm::PackageId { repr: id.into() });
        if k.nid_for_kid(&kid).is_some()
            || k.get_node(&kid, Some("default")).is_some()
            || k.get_enabled_features(&kid).is_some()
        {
            return Err(format!("{id} is found"));
        }
        calls += 3;
    }
    Ok(calls)
}

pub fn total(seed: u64, st: &mut Stats) -> R {
    match total_case(seed) {
        Total::Shape(s) => {
            // as much stack as threads have
            let h = std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    let mut st = Stats::default();
                    let r = obs::guard(|| run_shape(&s, &mut st))
                        .unwrap_or_else(|p| Err(format!("panic on {}: {p}", s.describe)));
                    (r, st)
                })
                .expect("thread");
            let (r, got) = h.join().map_err(|_| "the thread panicked".to_string())?;
            for (k, n) in got.counters {
                st.add(&k, n);
            }
            st.prints.extend(got.prints);
            r
        }
        Total::Doc(kind, text, cfg, want) => {
            st.hit(match kind {
                "empty" => "empty documents",
                "no resolve" => "documents without resolve graph",
                "no roots" => "documents without root left",
                _ => "documents with undeclared features",
            });
            st.print(text.as_bytes());
            let md = graph::parse(&text)?;
            let b = cfg.builder();
            let calls = std::cell::Cell::new(0);
            let res: Result<Krates, krates::Error> =
                obs::guard(|| b.build_with_metadata(md, |_: Package| calls.set(calls.get() + 1)))
                    .map_err(|p| format!("panic ({kind}): {p}"))?;
            match (want, res) {
                (Want::NoResolve, Err(krates::Error::NoResolveGraph)) => {
                    if calls.get() != 0 {
                        return Err("packages are filtered without resolve graph".into());
                    }
                    Ok(())
                }
                (Want::NoRoots, Err(krates::Error::NoRootKrates)) => Ok(()),
                (Want::NoResolve | Want::NoRoots, Err(e)) => {
                    Err(format!("another error ({kind}): {e}"))
                }
                (Want::NoResolve | Want::NoRoots, Ok(_)) => {
                    Err(format!("a graph is built ({kind})"))
                }
                (Want::Model(rw), res) => {
                    let e = model::expect(&rw, &cfg);
                    let k = match res {
                        Err(krates::Error::NoRootKrates) if e.present.is_empty() => return Ok(()),
                        Err(e) => return Err(format!("error ({kind}): {e}")),
                        Ok(k) => k,
                    };
                    let o = obs::observe(&rw, &k, &[])?;
                    let got: BTreeSet<usize> = o.krates.iter().copied().collect();
                    if got != e.present {
                        return Err(format!(
                            "with undeclared features the graph has {} crates instead of {}: {} more, {} less",
                            got.len(),
                            e.present.len(),
                            graph::names(&rw, got.difference(&e.present).copied()),
                            graph::names(&rw, e.present.difference(&got).copied()),
                        ));
                    }
                    if o.links()? != e.links {
                        return Err("links differ with undeclared features".into());
                    }
                    st.add("queries", sweep(&k, usize::MAX)?);
                    Ok(())
                }
            }
        }
    }
}

// ---- shapes

struct Node1 {
    /// target, kind, features, optional
    deps: Vec<(usize, &'static str, Vec<String>, bool)>,
    features: Feats,
    on: BTreeSet<String>,
    member: bool,
}

struct Shape {
    describe: String,
    json: Value,
    crates: BTreeSet<String>,
    feats: BTreeMap<String, BTreeSet<String>>,
    /// links between crates, not counting features of features
    links: usize,
    all: usize,
    exclude: Option<String>,
}

fn node(member: bool) -> Node1 {
    Node1 {
        deps: vec![],
        features: Feats::new(),
        on: BTreeSet::new(),
        member,
    }
}

fn shape(r: &mut Rng) -> Shape {
    let n = match r.below(10) {
        0..=5 => r.range(2, 60),
        6..=8 => r.range(60, 600),
        _ => r.range(600, 3000),
    };
    // names whose order is not the one of the shape
    let salt = r.next() | 1;
    let name = |i: usize| {
        format!(
            "k{:016x}",
            (i as u64 + 7).wrapping_mul(salt).rotate_left(17)
        )
    };
    let ver = "1.0.0";
    let mut nodes: Vec<Node1> = Vec::new();
    let mut cut: Option<usize> = None;
    let what;
    match r.below(9) {
        0 => {
            what = "chain of crates whose feature turns on the one of the next";
            for i in 0..n {
                let mut k = node(i == 0);
                if i + 1 < n {
                    k.deps.push((i + 1, *r.pick(&["", "build"]), vec![], false));
                    k.features
                        .insert("f".into(), vec![format!("{}/f", name(i + 1))]);
                } else {
                    k.features.insert("f".into(), vec![]);
                }
                k.on.insert("f".into());
                nodes.push(k);
            }
            if n > 4 && r.pct(40) {
                cut = Some(r.range(2, n - 1));
            }
        }
        1 => {
            what = "chain of optional crates, each turned on by the feature of the one before";
            for i in 0..n {
                let mut k = node(i == 0);
                if i + 1 < n {
                    let x = name(i + 1);
                    k.deps.push((i + 1, "", vec![], true));
                    k.features
                        .insert("f".into(), vec![format!("{x}?/f"), format!("dep:{x}")]);
                } else {
                    k.features.insert("f".into(), vec![]);
                }
                k.on.insert("f".into());
                nodes.push(k);
            }
            if n > 4 && r.pct(40) {
                cut = Some(r.range(2, n - 1));
            }
        }
        2 | 3 => {
            let cycle = r.pct(50);
            what = if cycle {
                "cycle of features"
            } else {
                "chain of features"
            };
            let mut root = node(true);
            root.deps.push((1, "", vec!["f0".into()], false));
            nodes.push(root);
            let mut k = node(false);
            k.deps.push((2, "", vec![], true));
            for i in 0..n {
                let mut v = vec![];
                if i + 1 < n {
                    v.push(format!("f{}", i + 1));
                } else {
                    v.push(format!("dep:{}", name(2)));
                    if cycle {
                        v.push("f0".into());
                    }
                }
                k.features.insert(format!("f{i}"), v);
                k.on.insert(format!("f{i}"));
            }
            nodes.push(k);
            nodes.push(node(false));
        }
        4 => {
            what = "cycle of dev dependencies";
            for i in 0..n {
                let mut k = node(true);
                k.deps.push(((i + 1) % n, "dev", vec![], false));
                nodes.push(k);
            }
        }
        5 => {
            // the number of paths is exponential
            what = "ladder of crates";
            let n = n / 2 * 2 + 3;
            for i in 0..n {
                let mut k = node(i == 0);
                let next = if i == 0 { 1 } else { (i - 1) / 2 * 2 + 3 };
                for q in [next, next + 1] {
                    if q < n {
                        k.deps.push((q, "", vec!["f".into()], false));
                    }
                }
                if i > 0 {
                    k.features.insert("f".into(), vec![]);
                    k.on.insert("f".into());
                }
                nodes.push(k);
            }
        }
        6 => {
            what = "ladder of features";
            let n = n.min(400);
            let mut root = node(true);
            root.deps.push((1, "", vec!["a0".into()], false));
            nodes.push(root);
            let mut k = node(false);
            k.on.insert("a0".into());
            for i in 0..n {
                let v: Vec<String> = if i + 1 < n {
                    for x in ["a", "b"] {
                        k.on.insert(format!("{x}{}", i + 1));
                    }
                    vec![format!("a{}", i + 1), format!("b{}", i + 1)]
                } else {
                    vec![]
                };
                k.features.insert(format!("a{i}"), v.clone());
                k.features.insert(format!("b{i}"), v);
            }
            nodes.push(k);
        }
        7 => {
            what = "crate with many dependencies";
            let n = n.min(1200);
            let mut root = node(true);
            for i in 1..n {
                root.deps
                    .push((i, *r.pick(&["", "dev", "build"]), vec![], false));
            }
            nodes.push(root);
            nodes.extend((1..n).map(|_| node(false)));
        }
        _ => {
            what = "crate with many dependents";
            let n = n.min(1200);
            let mut leaf = node(false);
            for i in 0..n {
                let mut k = node(true);
                let f = format!("f{}", i % 97);
                leaf.features.insert(f.clone(), vec![]);
                leaf.on.insert(f.clone());
                k.deps.push((n, "", vec![f], false));
                nodes.push(k);
            }
            nodes.push(leaf);
        }
    }

    let src = crates_io();
    let id = |i: usize, m: bool| {
        if m {
            format!("path+file:///w/{}#{ver}", name(i))
        } else {
            format!("{src}#{}@{ver}", name(i))
        }
    };
    let mut pkgs = vec![];
    let mut res = vec![];
    for (i, k) in nodes.iter().enumerate() {
        let kind = |s: &str| if s.is_empty() { Value::Null } else { json!(s) };
        pkgs.push(json!({
            "name": name(i), "version": ver, "id": id(i, k.member), "license": null, "license_file": null,
            "description": null, "source": if k.member { Value::Null } else { json!(src) },
            "dependencies": k.deps.iter().map(|(q, kd, fs, opt)| {
                let mut d = json!({
                    "name": name(*q), "source": if nodes[*q].member { Value::Null } else { json!(src) },
                    "req": if nodes[*q].member { "*" } else { "^1.0.0" }, "kind": kind(kd), "rename": null,
                    "optional": opt, "uses_default_features": true, "features": fs, "target": null, "registry": null,
                });
                if nodes[*q].member {
                    d["path"] = json!(format!("/w/{}", name(*q)));
                }
                d
            }).collect::<Vec<_>>(),
            "targets": [], "features": k.features, "manifest_path": format!("/w/{}/Cargo.toml", name(i)),
            "metadata": null, "publish": null, "authors": [], "categories": [], "keywords": [], "readme": null,
            "repository": null, "homepage": null, "documentation": null, "edition": "2021", "links": null,
            "default_run": null, "rust_version": null,
        }));
        res.push(json!({
            "id": id(i, k.member),
            "dependencies": k.deps.iter().map(|d| id(d.0, nodes[d.0].member)).collect::<Vec<_>>(),
            "deps": k.deps.iter().map(|d| json!({
                "name": name(d.0), "pkg": id(d.0, nodes[d.0].member), "dep_kinds": [{"kind": kind(d.1), "target": null}],
            })).collect::<Vec<_>>(),
            "features": k.on,
        }));
    }
    let members: Vec<String> = nodes
        .iter()
        .enumerate()
        .filter(|(_, k)| k.member)
        .map(|(i, _)| id(i, true))
        .collect();
    let mut doc = json!({
        "packages": pkgs, "workspace_members": members, "workspace_default_members": members,
        "resolve": {"nodes": res, "root": null}, "target_directory": "/w/target", "version": 1,
        "workspace_root": "/w", "metadata": null,
    });
    sim::shuffle_json(&mut doc, r);
    let end = cut.unwrap_or(nodes.len());
    Shape {
        describe: format!("{what} ({n}, cut at {cut:?})"),
        json: doc,
        crates: nodes[..end]
            .iter()
            .enumerate()
            .map(|(i, k)| id(i, k.member))
            .collect(),
        feats: nodes[..end]
            .iter()
            .enumerate()
            .map(|(i, k)| (id(i, k.member), k.on.clone()))
            .collect(),
        links: nodes[..end]
            .iter()
            .flat_map(|k| &k.deps)
            .filter(|d| d.0 < end)
            .count(),
        all: nodes.len(),
        exclude: cut.map(name),
    }
}

fn run_shape(s: &Shape, st: &mut Stats) -> R {
    let err = |m: String| Err(format!("{}: {m}", s.describe));
    let md = graph::parse(&s.json.to_string())?;
    let mut b = krates::Builder::new();
    if let Some(x) = &s.exclude {
        b.exclude([x.parse::<krates::PkgSpec>().map_err(|e| e.to_string())?]);
    }
    let mut filtered = 0;
    let k: Krates = match b.build_with_metadata(md, |_: Package| filtered += 1) {
        Ok(k) => k,
        Err(e) => return err(format!("error: {e}")),
    };
    let got: BTreeSet<String> = k.krates().map(|p| p.id.repr.clone()).collect();
    if got != s.crates {
        return err(format!(
            "{} crates instead of {}",
            got.len(),
            s.crates.len()
        ));
    }
    if filtered + got.len() != s.all {
        return err(format!("{filtered} crates filtered out of {}", s.all));
    }
    let mut links = 0;
    for e in k.graph().raw_edges() {
        if !matches!(e.weight, krates::Edge::Feature) {
            links += 1;
        }
    }
    if links != s.links {
        return err(format!("{links} links instead of {}", s.links));
    }
    for n in k.graph().node_weights() {
        if let Node::Krate {
            krate, features, ..
        } = n
        {
            if s.feats[&krate.id.repr] != *features {
                return err(format!(
                    "{} has {} features instead of {}",
                    krate.name,
                    features.len(),
                    s.feats[&krate.id.repr].len()
                ));
            }
        }
    }
    let calls = sweep(&k, 60)?;
    st.add("queries", calls);
    st.hit("shapes");
    if s.all > 500 || s.feats.values().any(|f| f.len() > 300) {
        st.hit("shapes of more than 500 crates or 300 features");
    }
    st.print(s.describe.as_bytes());
    Ok(())
}

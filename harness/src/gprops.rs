//! Monitors of the graph properties.

use crate::gencfg::{self, Focus};
use crate::graph::{self, Case, Outcome, Run, gen_case, names, note, run_expected};
use crate::model::{self, Expected, Link, Sc};
use crate::obs::{self, ERef, NodeRef, Obs};
use crate::rng::Rng;
use crate::runner::Stats;
use crate::sim::{self, Flavor, RWorld};
use crate::world::Kind;
use crate::xprops::Scratch;
use krates::{DepKind, Edge, Kid, Node, NodeId};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

type R = Result<(), String>;

pub fn kid(id: &str) -> Kid {
    Kid::from(krates::PackageId {
        repr: id.to_string(),
    })
}

pub fn link(rw: &RWorld, l: &Link) -> String {
    format!(
        "{} -> {} as {:?}, {}, feature {}",
        rw.pkgs[l.0].id,
        rw.pkgs[l.1].id,
        l.2,
        l.3.as_deref().unwrap_or("any target"),
        l.4.as_deref().unwrap_or("none")
    )
}

fn present(o: &Obs) -> BTreeSet<usize> {
    o.krates.iter().copied().collect()
}

fn missing(rw: &RWorld, e: &Expected, o: &Obs) -> R {
    let p = present(o);
    let m: Vec<usize> = e.present.difference(&p).copied().collect();
    if m.is_empty() {
        Ok(())
    } else {
        Err(format!("crates missing from the graph: {}", names(rw, m)))
    }
}

fn extra(rw: &RWorld, e: &Expected, o: &Obs) -> R {
    let p = present(o);
    let m: Vec<usize> = p.difference(&e.present).copied().collect();
    if m.is_empty() {
        Ok(())
    } else {
        Err(format!(
            "crates in the graph that nothing left depends on: {}",
            names(rw, m)
        ))
    }
}

pub fn crates_eq(rw: &RWorld, e: &Expected, o: &Obs) -> R {
    missing(rw, e, o)?;
    extra(rw, e, o)
}

pub fn links_eq(rw: &RWorld, e: &Expected, o: &Obs) -> R {
    let l = o.links()?;
    if let Some(x) = e.links.difference(&l).next() {
        return Err(format!("missing link {}", link(rw, x)));
    }
    if let Some(x) = l.difference(&e.links).next() {
        return Err(format!(
            "link that is not declared or filtered: {}",
            link(rw, x)
        ));
    }
    Ok(())
}

/// crates every other crate in the graph is reachable from
fn reachable_from_roots(rw: &RWorld, e: &Expected, o: &Obs) -> R {
    let mut adj: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (a, b, x) in &o.edges {
        if let (NodeRef::K(p), NodeRef::K(q) | NodeRef::F(q, _)) = (a, b) {
            if *x != ERef::Feature {
                adj.entry(*p).or_default().insert(*q);
            }
        }
    }
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut st: Vec<usize> = e.roots.iter().copied().collect();
    let all = present(o);
    while let Some(p) = st.pop() {
        if all.contains(&p) && seen.insert(p) {
            st.extend(adj.get(&p).into_iter().flatten());
        }
    }
    let lost: Vec<usize> = all.difference(&seen).copied().collect();
    if lost.is_empty() {
        Ok(())
    } else {
        Err(format!(
            "no dependency link from a root leads to {}",
            names(rw, lost)
        ))
    }
}

fn observe_counts(st: &mut Stats, c: &Case, e: &Expected) {
    st.add("declarations cut by kind", e.cut_kind as u64);
    st.add("declarations cut by target", e.cut_plat as u64);
    st.add("declarations cut by exclusion", e.cut_excl as u64);
    st.add("weak features applied", e.weak_applied as u64);
    st.add("weak features without effect", e.weak_idle as u64);
    for &p in &e.present {
        for (i, d) in c.rw.pkgs[p].decls.iter().enumerate() {
            if d.optional {
                if e.mapping.contains_key(&(p, i)) {
                    st.hit("optional dependencies turned on");
                } else if d.to.is_some() {
                    st.hit("optional dependencies left off");
                }
            }
        }
    }
}

macro_rules! with {
    ($seed:expr, $focus:expr, $st:expr, $c:ident, $e:ident, $r:ident) => {
        let $c = gen_case($seed, $focus);
        let ($e, got) = run_expected(&$c)?;
        note($st, &$c, &$e, got.as_deref());
        let Some($r) = got else { return Ok(()) };
        #[allow(unused_variables)]
        let ($c, $e, $r): (&Case, &Expected, &Run) = (&$c, &$e, &$r);
    };
}

// ---- crates, features, links

pub fn completeness(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    observe_counts(st, c, e);
    missing(&c.rw, e, &r.o)
}

pub fn soundness(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    observe_counts(st, c, e);
    extra(&c.rw, e, &r.o)?;
    reachable_from_roots(&c.rw, e, &r.o)
}

/// (p, x): `x = ["dep:x"]` of p is only on since a feature of dependency x is
pub fn implicit_only(rw: &RWorld, e: &Expected, p: usize, f: &str) -> bool {
    let pkg = &rw.pkgs[p];
    pkg.features
        .get(f)
        .is_some_and(|v| v.len() == 1 && v[0].strip_prefix("dep:") == Some(f))
        && pkg.decls.iter().any(|d| d.optional && d.toml == f)
        && e.feats[&p].iter().any(|g| {
            pkg.features
                .get(g)
                .into_iter()
                .flatten()
                .any(|v| v.strip_prefix(f).is_some_and(|v| v.starts_with('/')))
        })
}

pub fn features_eq(rw: &RWorld, e: &Expected, o: &Obs, st: &mut Stats) -> R {
    for (&p, got) in &o.feats {
        let Some(want) = e.feats.get(&p) else {
            continue;
        };
        if let Some(f) = want.difference(got).next() {
            return Err(format!(
                "feature '{f}' is on for {}, but is not in {got:?}",
                rw.pkgs[p].id
            ));
        }
        for f in got.difference(want) {
            if !implicit_only(rw, e, p, f) {
                return Err(format!(
                    "feature '{f}' is not on for {}, but is in {got:?}",
                    rw.pkgs[p].id
                ));
            }
        }
        // what cargo enables as well, but is only there to turn on the dependency
        for f in rw.pkgs[p].features.keys() {
            if !want.contains(f) && implicit_only(rw, e, p, f) && !got.contains(f) {
                st.known("implicit-feature-of-strong");
            }
        }
        st.add("features", got.len() as u64);
        st.add(
            "features off",
            (rw.pkgs[p].features.len() - got.len().min(rw.pkgs[p].features.len())) as u64,
        );
    }
    Ok(())
}

pub fn features(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    observe_counts(st, c, e);
    features_eq(&c.rw, e, &r.o, st)?;
    for (p, f) in &r.o.feats {
        let k = kid(&c.rw.pkgs[*p].id);
        if r.k.get_enabled_features(&k) != Some(f) {
            return Err(format!("get_enabled_features differs from the node of {k}"));
        }
    }
    Ok(())
}

pub fn links(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    observe_counts(st, c, e);
    for l in &e.links {
        st.hit(match l.2 {
            Kind::Normal => "normal links",
            Kind::Dev => "dev links",
            Kind::Build => "build links",
        });
        if l.3.is_some() {
            st.hit("links with target");
        }
        if l.4.is_some() {
            st.hit("links with feature");
        }
    }
    links_eq(&c.rw, e, &r.o)?;
    // get_deps of each crate gives the same links
    for n in r.k.graph().node_indices() {
        let Node::Krate { krate, .. } = &r.k.graph()[n] else {
            continue;
        };
        let p = r.o.krates[n.index()];
        let mut got: Vec<(NodeRefOf, ERef)> = Vec::new();
        for (node, edge) in r.k.get_deps(n) {
            let t = match node {
                Node::Krate { id, .. } => (id.repr.clone(), None),
                Node::Feature { krate_index, name } => {
                    let Node::Krate { id, .. } = &r.k.graph()[*krate_index] else {
                        return Err("feature of no crate".into());
                    };
                    (id.repr.clone(), Some(name.clone()))
                }
            };
            got.push((t, ERef::of(edge)));
        }
        got.sort();
        let mut want: Vec<(NodeRefOf, ERef)> =
            r.o.edges
                .iter()
                .filter(|x| x.0 == NodeRef::K(p))
                .map(|x| {
                    let t = match &x.1 {
                        NodeRef::K(q) => (kid(&c.rw.pkgs[*q].id).repr, None),
                        NodeRef::F(q, f) => (kid(&c.rw.pkgs[*q].id).repr, Some(f.clone())),
                    };
                    (t, x.2.clone())
                })
                .collect();
        want.sort();
        if got != want {
            return Err(format!(
                "get_deps of {} gives {got:?} instead of {want:?}",
                krate.id
            ));
        }
    }
    Ok(())
}

type NodeRefOf = (String, Option<String>);

// ---- filters

fn same_package(a: &krates::Package, b: &serde_json::Value) -> Result<bool, String> {
    Ok(serde_json::to_value(a).map_err(|e| format!("package does not serialize: {e}"))? == *b)
}

struct Collect<'a>(&'a mut Vec<krates::Package>);

impl krates::OnFilter for Collect<'_> {
    fn filtered(&mut self, krate: krates::Package) {
        self.0.push(krate);
    }
}

pub fn filter_callback(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    let md = graph::parse(&c.text)?;
    let mut all: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    for p in &md.packages {
        all.insert(
            p.id.repr.clone(),
            serde_json::to_value(p).map_err(|e| e.to_string())?,
        );
    }
    let mut seen: BTreeSet<&str> = BTreeSet::new();
    let mut take = |p: &'_ krates::Package, what: &str| -> Result<(), String> {
        let Some((id, orig)) = all.get_key_value(&p.id.repr) else {
            return Err(format!("{what} package {} is not in the metadata", p.id));
        };
        if !same_package(p, orig)? {
            return Err(format!(
                "{what} package {} is not what the metadata has",
                p.id
            ));
        }
        if !seen.insert(id) {
            return Err(format!("package {} is reported twice ({what})", p.id));
        }
        Ok(())
    };
    for p in &r.filtered {
        take(p, "filtered")?;
    }
    for p in r.k.krates() {
        take(p, "retained")?;
    }
    if let Some(lost) = all.keys().find(|k| !seen.contains(k.as_str())) {
        return Err(format!(
            "package {lost} is neither in the graph nor reported as filtered"
        ));
    }
    for f in &r.o.filtered {
        if e.present.contains(f) {
            return Err(format!(
                "{} is reported as filtered, but is depended upon",
                c.rw.pkgs[*f].id
            ));
        }
    }
    st.add("packages accounted for", all.len() as u64);
    // any other kind of callback gets the same
    if seed % 4 == 0 {
        let mut v = Vec::new();
        let b = c.cfg.builder();
        let k: krates::Krates = b
            .build_with_metadata(md.clone(), Collect(&mut v))
            .map_err(|e| format!("{e}"))?;
        let a: BTreeSet<&str> = v.iter().map(|p| p.id.repr.as_str()).collect();
        let b: BTreeSet<&str> = r.filtered.iter().map(|p| p.id.repr.as_str()).collect();
        if a != b || v.len() != r.filtered.len() {
            return Err("another kind of callback gets other packages".into());
        }
        let n: krates::Krates = c
            .cfg
            .builder()
            .build_with_metadata(md, krates::NoneFilter)
            .map_err(|e| format!("{e}"))?;
        if n.len() != r.k.len() || k.len() != r.k.len() {
            return Err("the graph depends on the callback".into());
        }
        st.hit("other callbacks");
    }
    Ok(())
}

pub fn targets(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Targets, st, c, e, r);
    if !cfg!(feature = "targets") {
        st.hit("cases without the feature 'targets' of krates");
    }
    for t in &c.cfg.targets {
        let made = krates::Target::from(&t.triple);
        if made.to_string() != t.triple || made.clone().to_string() != t.triple {
            return Err(format!("the target '{}' prints as '{made}'", t.triple));
        }
        st.hit("targets");
    }
    let mut seen: BTreeSet<(usize, bool)> = BTreeSet::new();
    for &p in &e.present {
        for d in &c.rw.pkgs[p].decls {
            if let (Some(pl), Some(_)) = (&d.plat, d.to) {
                let s = pl.survives(&c.cfg.targets);
                st.hit(match (pl, s) {
                    (crate::cfgx::Plat::Cfg(_), true) => "cfg expressions that hold",
                    (crate::cfgx::Plat::Cfg(_), false) => "cfg expressions that do not hold",
                    (_, true) => "triples that match",
                    (_, false) => "triples that do not match",
                });
                seen.insert((p, s));
            }
        }
    }
    for (p, q, k, cfg, f) in r.o.links()? {
        let Some(text) = cfg else { continue };
        let ok = c.rw.pkgs[p].decls.iter().any(|d| {
            d.to == Some(q)
                && d.kind == k
                && d.plat
                    .as_ref()
                    .is_some_and(|x| x.to_string() == text && x.survives(&c.cfg.targets))
        });
        if !ok && c.tag != "corpus" {
            return Err(format!(
                "{} is not for any of the targets {:?}",
                link(&c.rw, &(p, q, k, Some(text), f)),
                c.cfg.targets
            ));
        }
    }
    crates_eq(&c.rw, e, &r.o)?;
    links_eq(&c.rw, e, &r.o)
}

pub fn ignore_kind(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Ignore, st, c, e, r);
    for l in r.o.links()? {
        let m = c.rw.pkgs[l.0].is_member;
        if c.cfg.ignores(l.2, m) {
            return Err(format!(
                "{} is of an ignored kind ({:?})",
                link(&c.rw, &l),
                c.cfg.ignore
            ));
        }
        st.hit(if m {
            "links of workspace crates"
        } else {
            "links of other crates"
        });
    }
    st.add("declarations cut by kind", e.cut_kind as u64);
    crates_eq(&c.rw, e, &r.o)?;
    links_eq(&c.rw, e, &r.o)
}

pub fn exclude(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Exclude, st, c, e, r);
    for &p in &r.o.krates {
        if let Some(x) = c.cfg.exclude.iter().find(|x| x.matches(&c.rw.pkgs[p])) {
            return Err(format!(
                "{} is in the graph although '{}' excludes it",
                c.rw.pkgs[p].id, x.text
            ));
        }
    }
    let n =
        c.rw.pkgs
            .iter()
            .filter(|p| c.cfg.exclude.iter().any(|x| x.matches(p)))
            .count();
    st.add("packages excluded", n as u64);
    if c.cfg.exclude.iter().any(|x| x.url.is_some()) {
        st.hit("exclusions with url");
    }
    if c.cfg.exclude.iter().any(|x| x.version.is_some()) {
        st.hit("exclusions with version");
    }
    crates_eq(&c.rw, e, &r.o)?;
    links_eq(&c.rw, e, &r.o)
}

/// Puts the manifests of the workspace on disk, and names the selected ones in other ways
fn on_disk(c: &mut Case, r: &mut Rng, st: &mut Stats) -> Scratch {
    use std::os::unix::fs::symlink;
    let s = Scratch::new();
    let real = s.0.join("real");
    let link = s.0.join("link");
    let must = |x: std::io::Result<()>| x.expect("scratch files");
    must(std::fs::create_dir_all(&real));
    must(symlink("real", &link));
    // cargo reports paths the way it was given them
    let through = r.pct(40);
    let base = if through { &link } else { &real };
    let base = base.to_str().unwrap().to_string();
    let mut rw = (*c.rw).clone();
    let mut doc: serde_json::Value = serde_json::from_str(&c.text).unwrap();
    let mut moved = BTreeMap::new();
    let inside = |p: &str| format!("{base}{p}");
    for &m in &rw.members {
        let p = &mut rw.pkgs[m].manifest_path;
        let new = inside(p);
        moved.insert(p.clone(), new.clone());
        *p = new;
    }
    for p in doc["packages"].as_array_mut().unwrap() {
        if let Some(n) = p["manifest_path"].as_str().and_then(|p| moved.get(p)) {
            p["manifest_path"] = n.as_str().into();
        }
    }
    let old_root = rw.ws_root.clone();
    rw.ws_root = inside(&old_root);
    doc["workspace_root"] = rw.ws_root.as_str().into();
    // some are gone from the disk
    let gone = !through && r.pct(20);
    let mut there = BTreeSet::new();
    for p in moved
        .keys()
        .cloned()
        .chain([format!("{old_root}/Cargo.toml")])
    {
        if gone && r.pct(40) {
            continue;
        }
        let d = real.join(p.strip_prefix('/').unwrap());
        must(std::fs::create_dir_all(d.parent().unwrap()));
        must(std::fs::write(&d, ""));
        there.insert(p);
    }
    must(std::env::set_current_dir(&s.0));
    let mut plain = Vec::new();
    let mut alias = Vec::new();
    for (i, p) in c.cfg.include_ws.iter().enumerate() {
        let manifest = p.ends_with("/Cargo.toml");
        let dir = p.strip_suffix("/Cargo.toml").unwrap_or(p);
        plain.push(inside(p));
        if !there.contains(&format!("{dir}/Cargo.toml")) {
            st.hit("selected crates that are not on disk");
            alias.push(inside(p).into());
            continue;
        }
        let rel = dir.strip_prefix('/').unwrap();
        let via = if r.pct(50) { &link } else { &real };
        let mut a = match r.below(5) {
            0 => via.join(rel),
            1 => {
                st.hit("selected crates by relative path");
                Path::new(if r.pct(50) { "link" } else { "./real" }).join(rel)
            }
            2 => {
                st.hit("selected crates by path with '..'");
                via.join(rel)
                    .join("..")
                    .join(Path::new(rel).file_name().unwrap())
            }
            3 => {
                st.hit("selected crates by link to their directory");
                let l = s.0.join(format!("d{i}"));
                must(symlink(real.join(rel), &l));
                l
            }
            _ => {
                let mut s = via.join(rel).into_os_string();
                s.push("/./");
                s.into()
            }
        };
        if manifest {
            a.push("Cargo.toml");
        } else if r.pct(30) {
            a.push("");
        }
        alias.push(a);
    }
    st.hit(if through {
        "workspaces on disk, behind a link"
    } else {
        "workspaces on disk"
    });
    c.rw = rw.into();
    c.text = doc.to_string().into();
    c.cfg.include_ws = plain;
    c.cfg.include_as = Some(alias);
    s
}

pub fn roots(seed: u64, st: &mut Stats) -> R {
    let mut c = gen_case(seed, Focus::Roots);
    let mut rng = Rng::new(crate::rng::mix(seed, 0xd15c, 0));
    let scratch = (c.origin.is_some() && !c.cfg.include_ws.is_empty() && rng.pct(5))
        .then(|| on_disk(&mut c, &mut rng, st));
    let res = roots_of(&c, st);
    if scratch.is_some() {
        std::env::set_current_dir("/").expect("current directory");
        return res.map_err(|e| format!("{e} (given {:?})", c.cfg.include_as));
    }
    res
}

fn roots_of(c: &Case, st: &mut Stats) -> R {
    let (e, got) = run_expected(c)?;
    note(st, c, &e, got.as_deref());
    let Some(r) = &got else { return Ok(()) };
    let e = &e;
    for &p in &e.roots {
        if e.present.contains(&p) && !r.o.krates.contains(&p) {
            return Err(format!("root {} is not in the graph", c.rw.pkgs[p].id));
        }
    }
    st.hit(if !c.cfg.include_ws.is_empty() {
        if e.roots.len() == c.rw.members.len() {
            "selected crates: all members"
        } else {
            "selected crates: some members"
        }
    } else if c.rw.root.is_some() {
        if c.cfg.workspace {
            "workspace of a root package"
        } else {
            "root package"
        }
    } else {
        "virtual workspace"
    });
    // a member that is no root only appears if something depends on it
    for &p in &r.o.krates {
        if c.rw.pkgs[p].is_member && !e.roots.contains(&p) && !r.o.links()?.iter().any(|l| l.1 == p)
        {
            return Err(format!(
                "{} is neither root nor dependency",
                c.rw.pkgs[p].id
            ));
        }
    }
    crates_eq(&c.rw, e, &r.o)?;
    for &p in &e.roots {
        if let Some(f) = r.o.feats.get(&p) {
            if *f != c.rw.pkgs[p].rfeat {
                return Err(format!("root {} has features {f:?}", c.rw.pkgs[p].id));
            }
        }
    }
    Ok(())
}

// ---- queries

pub fn lookup(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    let k = &r.k;
    let g = k.graph();
    let rw = &c.rw;
    let n = r.o.krates.len();
    if k.len() != n {
        return Err(format!("len() is {}, but there are {n} crates", k.len()));
    }
    if k.workspace_root().as_str() != rw.ws_root {
        return Err(format!("workspace_root() is {}", k.workspace_root()));
    }
    // crates come first, in order of name, version text, and source
    let mut keys = Vec::new();
    for (i, p) in k.krates().enumerate() {
        let Some(Node::Krate { id, krate, .. }) = g.node_weight(NodeId::new(i)) else {
            return Err(format!("node {i} is no crate, but krates() has {n}"));
        };
        if krate.id != p.id {
            return Err(format!(
                "krates() has {} at {i}, the graph {}",
                p.id, krate.id
            ));
        }
        keys.push((
            id.name().to_string(),
            id.version().to_string(),
            id.source().to_string(),
        ));
    }
    if keys.len() != n {
        return Err(format!("krates() has {} crates", keys.len()));
    }
    if let Some(w) = keys.windows(2).find(|w| w[0] >= w[1]) {
        return Err(format!(
            "crates are not ordered: {:?} before {:?}",
            w[0], w[1]
        ));
    }
    for (i, &p) in r.o.krates.iter().enumerate() {
        let pk = &rw.pkgs[p];
        let id = kid(&pk.id);
        let nid = NodeId::new(i);
        if k.nid_for_kid(&id) != Some(nid) {
            return Err(format!(
                "nid_for_kid({id}) is {:?}, not {i}",
                k.nid_for_kid(&id)
            ));
        }
        let is = |node: Option<&Node<krates::Package>>, what: &str| match node {
            Some(Node::Krate { krate, .. }) if krate.id.repr == pk.id => Ok(()),
            _ => Err(format!("{what} for {id} gives something else")),
        };
        is(k.node_for_kid(&id), "node_for_kid")?;
        match k.get_node(&id, None) {
            Some((x, node)) if x == nid => is(Some(node), "get_node")?,
            _ => return Err(format!("get_node({id}) gives another node")),
        }
        if k[nid].id.repr != pk.id || k[i].id.repr != pk.id {
            return Err(format!("index {i} is not {}", pk.id));
        }
        if k.get_enabled_features(&id).is_none() {
            return Err(format!("get_enabled_features({id}) is none"));
        }
        // features that links lead to
        for f in rw.pkgs[p].features.keys() {
            let want = r.o.edges.iter().any(|(a, b, _)| {
                matches!(a, NodeRef::F(q, x) if *q == p && x == f) && *b == NodeRef::K(p)
            });
            match k.get_node(&id, Some(f)) {
                Some((x, node)) => {
                    let same = matches!(&g[x], Node::Feature { krate_index, name } if *krate_index == nid && name == f)
                        && matches!(node, Node::Feature { krate_index, name } if *krate_index == nid && name == f);
                    if !same {
                        return Err(format!("get_node({id}, {f}) gives another node"));
                    }
                    if !want {
                        return Err(format!(
                            "get_node({id}, {f}) gives a node that has no link to the crate"
                        ));
                    }
                    st.hit("features found");
                }
                None if want => return Err(format!("get_node({id}, {f}) finds nothing")),
                None => st.hit("features not found"),
            }
        }
        st.hit("identifiers found");
    }
    // every feature a link leads to can be found
    for l in &e.links {
        if let Some(f) = &l.4 {
            let id = kid(&rw.pkgs[l.1].id);
            let Some((nid, _)) = k.get_node(&id, Some(f)) else {
                return Err(format!(
                    "feature '{f}' of {id} is linked to, but get_node has none"
                ));
            };
            let Some(src) = k.nid_for_kid(&kid(&rw.pkgs[l.0].id)) else {
                return Err(format!("{} is not found", rw.pkgs[l.0].id));
            };
            if g.find_edge(src, nid).is_none() {
                return Err(format!(
                    "get_node for feature '{f}' of {id} gives a node without link from {}",
                    rw.pkgs[l.0].id
                ));
            }
        }
    }
    // what is not in the graph is not found
    let mut others: Vec<Kid> = Vec::new();
    for (i, p) in rw.pkgs.iter().enumerate() {
        if !r.o.krates.contains(&i) {
            others.push(kid(&p.id));
        }
    }
    let mut rng = Rng::new(seed ^ 0x10);
    for _ in 0..6 {
        let p = rng.pick(&rw.pkgs);
        let (mut name, mut ver, mut src) = (
            p.name.clone(),
            p.version.clone(),
            "registry+https://github.com/rust-lang/crates.io-index".to_string(),
        );
        match rng.below(6) {
            0 => name.push('x'),
            1 => ver = "99.0.0".into(),
            2 => src = "registry+https://example.org/other".into(),
            3 => name = "0".into(),
            4 => name = "zzzz".into(),
            _ => {
                name.pop();
                if name.is_empty() {
                    name.push('_');
                }
            }
        }
        let k2 = kid(&format!("{name} {ver} ({src})"));
        if !keys.contains(&(name, ver, src)) {
            others.push(k2);
        }
    }
    for o in others {
        if k.nid_for_kid(&o).is_some()
            || k.node_for_kid(&o).is_some()
            || k.get_node(&o, None).is_some()
            || k.get_node(&o, Some("default")).is_some()
            || k.get_enabled_features(&o).is_some()
        {
            return Err(format!("{o} is not in the graph, but is found"));
        }
        st.hit("identifiers not found");
    }
    // workspace members
    let mut got: Vec<usize> = Vec::new();
    for m in k.workspace_members() {
        let Node::Krate { krate, .. } = m else {
            return Err("a workspace member is a feature".into());
        };
        got.push(r.o.krates[k.nid_for_kid(&kid(&krate.id.repr)).unwrap().index()]);
    }
    got.sort();
    let mut want: Vec<usize> = rw
        .members
        .iter()
        .copied()
        .filter(|m| r.o.krates.contains(m))
        .collect();
    want.sort();
    if got != want {
        return Err(format!(
            "workspace members {} instead of {}",
            names(rw, got),
            names(rw, want)
        ));
    }
    st.add("workspace members", want.len() as u64);
    Ok(())
}

pub fn direct(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    let g = r.k.graph();
    let rw = &c.rw;
    let refs = node_refs(&r.k, &r.o);
    let mut out: BTreeMap<NodeRef, Vec<&NodeRef>> = BTreeMap::new();
    for (a, b, _) in &r.o.edges {
        out.entry(a.clone()).or_default().push(b);
    }
    for (i, &p) in r.o.krates.iter().enumerate() {
        let nid = NodeId::new(i);
        // dependencies
        let dd = r.k.direct_dependencies(nid);
        let mut got = BTreeSet::new();
        for d in &dd {
            let NodeRef::K(q) = refs[d.node_id.index()] else {
                return Err("direct_dependencies gives a feature".into());
            };
            if d.krate.id.repr != rw.pkgs[q].id {
                return Err(format!(
                    "direct_dependencies gives {} for the node of {}",
                    d.krate.id, rw.pkgs[q].id
                ));
            }
            if !got.insert(q) {
                return Err(format!(
                    "{} is twice in the dependencies of {}",
                    d.krate.id, rw.pkgs[p].id
                ));
            }
            let Some((_, t)) = g.edge_endpoints(d.edge_id) else {
                return Err("edge of a direct dependency does not exist".into());
            };
            if t != d.node_id {
                return Err(format!(
                    "the edge of direct dependency {} leads elsewhere",
                    d.krate.id
                ));
            }
        }
        let want: BTreeSet<usize> = e.links.iter().filter(|l| l.0 == p).map(|l| l.1).collect();
        if let Some(x) = want.difference(&got).next() {
            return Err(format!(
                "{} depends on {}, but direct_dependencies does not have it",
                rw.pkgs[p].id, rw.pkgs[*x].id
            ));
        }
        if got != want {
            // what features of dependencies lead to
            let mut upper = BTreeSet::new();
            let mut seen: BTreeSet<&NodeRef> = BTreeSet::new();
            let start = NodeRef::K(p);
            let mut s = vec![&start];
            while let Some(x) = s.pop() {
                for y in out.get(x).into_iter().flatten() {
                    if seen.insert(y) {
                        match y {
                            NodeRef::K(q) => {
                                upper.insert(*q);
                            }
                            f => s.push(f),
                        }
                    }
                }
            }
            if let Some(x) = got.difference(&upper).next() {
                return Err(format!(
                    "{} does not depend on {}, but direct_dependencies has it",
                    rw.pkgs[p].id, rw.pkgs[*x].id
                ));
            }
            // only over a feature of another crate than the own
            for x in got.difference(&want) {
                if !chain(&out, p, *x) {
                    return Err(format!(
                        "{} does not depend on {}, but direct_dependencies has it",
                        rw.pkgs[p].id, rw.pkgs[*x].id
                    ));
                }
            }
            st.known("feature-chain");
        }
        st.add("direct dependencies", want.len() as u64);

        // dependents
        let dd = r.k.direct_dependents(nid);
        let mut got = BTreeSet::new();
        for d in &dd {
            let NodeRef::K(q) = refs[d.node_id.index()] else {
                return Err("direct_dependents gives a feature".into());
            };
            if d.krate.id.repr != rw.pkgs[q].id {
                return Err(format!(
                    "direct_dependents gives {} for the node of {}",
                    d.krate.id, rw.pkgs[q].id
                ));
            }
            if !got.insert(q) {
                return Err(format!(
                    "{} is twice in the dependents of {}",
                    d.krate.id, rw.pkgs[p].id
                ));
            }
            let Some((s, t)) = g.edge_endpoints(d.edge_id) else {
                return Err("edge of a direct dependent does not exist".into());
            };
            let ok = s == d.node_id
                && match &refs[t.index()] {
                    NodeRef::K(x) | NodeRef::F(x, _) => *x == p,
                };
            if !ok {
                return Err(format!(
                    "the edge of direct dependent {} does not link it with {}",
                    d.krate.id, rw.pkgs[p].id
                ));
            }
        }
        let want: BTreeSet<usize> = e.links.iter().filter(|l| l.1 == p).map(|l| l.0).collect();
        if got != want {
            return Err(format!(
                "direct dependents of {} are {} instead of {}",
                rw.pkgs[p].id,
                names(rw, got),
                names(rw, want)
            ));
        }
        st.add("direct dependents", want.len() as u64);
    }
    Ok(())
}

/// whether a path of features leads from crate p to crate x over features of at least one dependency of p
fn chain(out: &BTreeMap<NodeRef, Vec<&NodeRef>>, p: usize, x: usize) -> bool {
    let first = out.get(&NodeRef::K(p));
    first.into_iter().flatten().any(|f| {
        let NodeRef::F(..) = f else { return false };
        let mut seen: BTreeSet<&NodeRef> = [*f].into();
        let mut s = vec![*f];
        while let Some(n) = s.pop() {
            for y in out.get(n).into_iter().flatten() {
                if **y == NodeRef::K(x) {
                    return true;
                }
                if matches!(y, NodeRef::F(..)) && seen.insert(y) {
                    s.push(y);
                }
            }
        }
        false
    })
}

pub fn node_refs(k: &krates::Krates, o: &Obs) -> Vec<NodeRef> {
    let mut f = o.fnodes.iter();
    let mut i = o.krates.iter();
    k.graph()
        .raw_nodes()
        .iter()
        .map(|n| match &n.weight {
            Node::Krate { .. } => NodeRef::K(*i.next().unwrap()),
            Node::Feature { .. } => {
                let (p, f) = f.next().unwrap();
                NodeRef::F(*p, f.clone())
            }
        })
        .collect()
}

pub fn resolved(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    let rw = &c.rw;
    let idx = obs::id_index(rw);
    for (i, &p) in r.o.krates.iter().enumerate() {
        let nid = NodeId::new(i);
        let n = rw.pkgs[p].decls.len();
        let mut names_seen: BTreeMap<&str, BTreeSet<usize>> = BTreeMap::new();
        for d in 0..n + 3 {
            let got = r.k.resolved_dependency(nid, d);
            let got = match got {
                None => None,
                Some(k) => Some(*idx.get(k.id.repr.as_str()).ok_or("unknown package")?),
            };
            let want = e.mapping.get(&(p, d)).copied();
            if got != want {
                return Err(format!(
                    "dependency {d} ({}) of {} is resolved to {} instead of {}",
                    rw.pkgs[p].decls.get(d).map_or("?", |d| d.toml.as_str()),
                    rw.pkgs[p].id,
                    names(rw, got),
                    names(rw, want)
                ));
            }
            if let Some(q) = want {
                st.hit("declarations resolved");
                names_seen.entry(&rw.pkgs[q].name).or_default().insert(q);
                let decl = &r.k[nid].dependencies[d];
                if decl.name != rw.pkgs[q].name {
                    return Err(format!(
                        "declaration of {} resolved to {}",
                        decl.name, rw.pkgs[q].name
                    ));
                }
            } else if d < n {
                st.hit("declarations without package");
            } else {
                st.hit("indices out of range");
            }
        }
        for v in names_seen.values() {
            if v.len() > 1 {
                st.hit("crates with several packages of one name");
            }
        }
        if r.k.resolved_dependency(nid, usize::MAX).is_some() {
            return Err("an index out of range is resolved".into());
        }
    }
    let total = r.k.graph().node_count();
    for i in r.o.krates.len()..total + 2 {
        for d in 0..2 {
            if r.k.resolved_dependency(NodeId::new(i), d).is_some() {
                return Err("a node that is no crate has a resolved dependency".into());
            }
        }
        st.hit("nodes that are no crate");
    }
    Ok(())
}

pub fn krates_filtered(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    let rw = &c.rw;
    let idx = obs::id_index(rw);
    let mut out: BTreeMap<&NodeRef, Vec<(&NodeRef, &ERef)>> = BTreeMap::new();
    for (a, b, x) in &r.o.edges {
        out.entry(a).or_default().push((b, x));
    }
    for kind in Kind::ALL {
        let got = r.k.krates_filtered(kind.krates());
        let mut set = BTreeSet::new();
        let mut prev: Option<(String, String, String)> = None;
        for p in &got {
            let i = *idx.get(p.id.repr.as_str()).ok_or("unknown package")?;
            if !set.insert(i) {
                return Err(format!("krates_filtered has {} twice", p.id));
            }
            if !r.o.krates.contains(&i) {
                return Err(format!("krates_filtered has {}, the graph does not", p.id));
            }
            let k = kid(&p.id.repr);
            let key = (
                k.name().to_string(),
                k.version().to_string(),
                k.source().to_string(),
            );
            if prev.as_ref().is_some_and(|x| *x >= key) {
                return Err(format!("krates_filtered is not ordered at {}", p.id));
            }
            prev = Some(key);
        }
        let mut cfg = c.cfg.clone();
        cfg.ignore.push((kind, Sc::All));
        let want = model::expect(rw, &cfg).present;
        if let Some(x) = want.difference(&set).next() {
            return Err(format!(
                "krates_filtered({kind:?}) does not have {}, which a graph without {kind:?} dependencies has",
                rw.pkgs[*x].id
            ));
        }
        // what links of other kinds and features lead to
        let mut reach: BTreeSet<&NodeRef> = BTreeSet::new();
        let starts: Vec<NodeRef> = rw
            .members
            .iter()
            .filter(|m| r.o.krates.contains(m))
            .map(|m| NodeRef::K(*m))
            .collect();
        let mut s: Vec<&NodeRef> = starts.iter().collect();
        while let Some(x) = s.pop() {
            if reach.insert(x) {
                for (y, l) in out.get(x).into_iter().flatten() {
                    match l {
                        ERef::Dep(k, _) | ERef::DepFeature(k, _) if *k == kind => {}
                        _ => s.push(y),
                    }
                }
            }
        }
        for x in &set {
            if !reach.contains(&NodeRef::K(*x)) {
                return Err(format!(
                    "krates_filtered({kind:?}) has {}, which is only depended upon as {kind:?}",
                    rw.pkgs[*x].id
                ));
            }
        }
        if set != want {
            st.known("keeps-features-and-members");
        } else {
            st.hit("equal to a graph without the kind");
        }
        st.add("crates left out", (r.o.krates.len() - set.len()) as u64);
        st.add("crates kept", set.len() as u64);
    }
    Ok(())
}

// ---- metamorphic

/// everything but the order of what has none
fn compare(rw: &RWorld, a: &Obs, b: &Obs, what: &str) -> R {
    if present(a) != present(b) {
        let (x, y) = (present(a), present(b));
        return Err(format!(
            "{what}: the graphs differ in {}",
            names(rw, x.symmetric_difference(&y).copied())
        ));
    }
    if a.feats != b.feats {
        let p = a.feats.keys().find(|p| a.feats[p] != b.feats[p]).unwrap();
        return Err(format!(
            "{what}: {} has features {:?} or {:?}",
            rw.pkgs[*p].id, a.feats[p], b.feats[p]
        ));
    }
    let (x, y) = (a.links()?, b.links()?);
    if let Some(l) = x.symmetric_difference(&y).next() {
        return Err(format!("{what}: only one graph has {}", link(rw, l)));
    }
    if a.toggles() != b.toggles() {
        return Err(format!("{what}: features that are turned on differ"));
    }
    if a.mapping != b.mapping {
        return Err(format!("{what}: resolved dependencies differ"));
    }
    let (mut x, mut y) = (a.filtered.clone(), b.filtered.clone());
    x.sort();
    y.sort();
    if x != y {
        return Err(format!("{what}: packages reported as filtered differ"));
    }
    let e = |o: &Obs| -> BTreeSet<(NodeRef, NodeRef)> {
        o.edges.iter().map(|e| (e.0.clone(), e.1.clone())).collect()
    };
    let (x, y) = (e(a), e(b));
    if let Some(l) = x.symmetric_difference(&y).next() {
        return Err(format!("{what}: only one graph has an edge {l:?}"));
    }
    Ok(())
}

pub fn order(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    // once more
    let Outcome::Built(again) = graph::run(&c.rw, &c.text, &c.cfg)? else {
        return Err("a second run gives an error".into());
    };
    if again.o != r.o {
        return Err("two runs on the same metadata give different graphs".into());
    }
    st.hit("repeated runs");
    let mut rng = Rng::new(seed ^ 0x5151);
    let v: serde_json::Value = serde_json::from_str(&c.text).expect("metadata");
    for i in 0..2 {
        let mut w = v.clone();
        sim::shuffle_json(&mut w, &mut rng);
        let mut cfg = c.cfg.clone();
        rng.shuffle(&mut cfg.targets);
        rng.shuffle(&mut cfg.ignore);
        rng.shuffle(&mut cfg.exclude);
        rng.shuffle(&mut cfg.include_ws);
        let Outcome::Built(other) = graph::run(&c.rw, &w.to_string(), &cfg)? else {
            return Err("the metadata in another order gives an error".into());
        };
        if other.o.krates != r.o.krates {
            return Err("the metadata in another order gives another order of crates".into());
        }
        compare(&c.rw, &r.o, &other.o, "metadata in another order")?;
        st.hit("shuffled documents");
        st.extra_evals += 1;
        let _ = i;
    }
    Ok(())
}

pub fn id_formats(seed: u64, st: &mut Stats) -> R {
    let mut r = Rng::new(seed);
    let (_, o) = graph::opts(&mut r);
    let (w, res, fl, _) = graph::emit_world(&mut r, &o);
    let mut docs = Vec::new();
    for opaque in [false, true] {
        docs.push(sim::emit(
            &w,
            &res,
            &Flavor {
                opaque,
                ..fl.clone()
            },
        ));
    }
    let cfg = gencfg::gen_config(&mut r, &docs[0].rw, Focus::Any);
    let mut runs = Vec::new();
    for d in &docs {
        runs.push(graph::run(&d.rw, &d.json.to_string(), &cfg)?);
    }
    // the identifiers have the same meaning
    for (a, b) in docs[0].rw.pkgs.iter().zip(&docs[1].rw.pkgs) {
        let (x, y) = (kid(&a.id), kid(&b.id));
        if x.name() != y.name() || x.version() != y.version() || x.source() != y.source() {
            return Err(format!(
                "identifiers of one package differ: {x:?} and {y:?}"
            ));
        }
        if x != y {
            return Err(format!(
                "identifiers of one package are not equal: {x:?} and {y:?}"
            ));
        }
        st.hit("identifiers compared");
    }
    let mut it = runs.into_iter();
    match (it.next().unwrap(), it.next().unwrap()) {
        (Outcome::NoRoots, Outcome::NoRoots) => {
            st.hit("graphs without root");
            Ok(())
        }
        (Outcome::Built(a), Outcome::Built(b)) => {
            st.hit("pairs of graphs");
            st.add("crates", a.o.krates.len() as u64);
            if a.o.krates.len() > 1 {
                st.prints.push(graph::fingerprint(&docs[0].rw, &a.o));
            }
            if docs[0].rw.pkgs.len() < 5 {
                st.sample(|| {
                    serde_json::json!({
                        "stable": docs[0].rw.pkgs.iter().map(|p| &p.id).collect::<Vec<_>>(),
                        "opaque": docs[1].rw.pkgs.iter().map(|p| &p.id).collect::<Vec<_>>(),
                        "crates": a.o.krates.len(), "edges": a.o.edges.len(),
                    })
                });
            }
            if a.o.krates != b.o.krates {
                return Err(
                    "the order or set of crates depends on the format of the identifiers".into(),
                );
            }
            compare(&docs[0].rw, &a.o, &b.o, "other format of identifiers")
        }
        _ => Err("only one format of identifiers has roots".into()),
    }
}

/// one more restriction
fn restrict(r: &mut Rng, rw: &RWorld, cfg: &model::Config) -> (&'static str, model::Config) {
    let mut c = cfg.clone();
    loop {
        match r.below(6) {
            0 if c.targets.is_empty() => {
                c.targets = crate::cfgx::gen_filters(r, &gencfg::plats(rw));
                return ("targets", c);
            }
            1 if c.targets.len() > 1 => {
                let i = r.below(c.targets.len());
                c.targets.remove(i);
                return ("one target less", c);
            }
            2 | 3 => {
                c.ignore.push((
                    *r.pick(&Kind::ALL),
                    *r.pick(&[Sc::Workspace, Sc::NonWorkspace, Sc::All]),
                ));
                return ("one more kind ignored", c);
            }
            4 => {
                c.exclude.push(gencfg::gen_excl(r, rw));
                return ("one more package excluded", c);
            }
            5 if c.workspace && rw.root.is_some() && c.include_ws.is_empty() => {
                c.workspace = false;
                return ("only the root package", c);
            }
            _ => {}
        }
    }
}

pub fn monotone(seed: u64, st: &mut Stats) -> R {
    let c = gen_case(seed, Focus::Any);
    let mut rng = Rng::new(seed ^ 0x7777);
    let a = graph::run(&c.rw, &c.text, &c.cfg)?;
    let mut prev = match a {
        Outcome::NoRoots => None,
        Outcome::Built(r) => Some(r),
    };
    let mut cfg = c.cfg.clone();
    for step in 0..3 {
        let (what, next) = restrict(&mut rng, &c.rw, &cfg);
        let b = match graph::run(&c.rw, &c.text, &next)? {
            Outcome::NoRoots => None,
            Outcome::Built(r) => Some(r),
        };
        st.extra_evals += 1;
        let (Some(a), Some(b)) = (&prev, &b) else {
            if prev.is_none() && b.is_some() {
                return Err(format!("{what} gives a graph where there was none"));
            }
            st.hit("graphs without root");
            return Ok(());
        };
        let (x, y) = (present(&a.o), present(&b.o));
        if let Some(n) = y.difference(&x).next() {
            return Err(format!("{what} adds {}", c.rw.pkgs[*n].id));
        }
        for (p, f) in &b.o.feats {
            if let Some(n) = f.difference(&a.o.feats[p]).next() {
                // cargo's features of a root are taken as they are
                return Err(format!(
                    "{what} turns on feature '{n}' of {}",
                    c.rw.pkgs[*p].id
                ));
            }
        }
        let (la, lb) = (a.o.links()?, b.o.links()?);
        if let Some(n) = lb.difference(&la).next() {
            return Err(format!("{what} adds link {}", link(&c.rw, n)));
        }
        if let Some(n) = b.o.toggles().difference(&a.o.toggles()).next() {
            return Err(format!("{what} turns on {n:?}"));
        }
        for (k, v) in &b.o.mapping {
            if a.o.mapping.get(k) != Some(v) {
                return Err(format!(
                    "{what} resolves dependency {} of {} to another package",
                    k.1, c.rw.pkgs[k.0].id
                ));
            }
        }
        st.hit(what);
        st.add("crates removed", (x.len() - y.len()) as u64);
        st.add("links removed", (la.len() - lb.len()) as u64);
        if la != lb {
            st.prints.push(
                graph::fingerprint(&c.rw, &a.o) ^ graph::fingerprint(&c.rw, &b.o).rotate_left(1),
            );
        }
        if step == 0 && c.rw.pkgs.len() < 5 && la != lb {
            st.sample(|| serde_json::json!({
                "packages": c.rw.pkgs.iter().map(|p| &p.id).collect::<Vec<_>>(),
                "config": format!("{cfg:?}"), "step": what, "links before": la.len(), "links after": lb.len(),
            }));
        }
        prev = Some(match b {
            _ => match graph::run(&c.rw, &c.text, &next)? {
                Outcome::Built(r) => r,
                Outcome::NoRoots => return Err("a second run differs".into()),
            },
        });
        cfg = next;
    }
    Ok(())
}

// ---- structure

pub fn feature_nodes(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    let rw = &c.rw;
    let g = r.k.graph();
    let refs = node_refs(&r.k, &r.o);
    let mut owner: BTreeMap<(usize, String), usize> = BTreeMap::new();
    for n in g.node_indices() {
        let NodeRef::F(p, f) = &refs[n.index()] else {
            if n.index() >= r.o.krates.len() {
                return Err("a crate node comes after a feature node".into());
            }
            continue;
        };
        let outgoing: Vec<&NodeRef> = g
            .neighbors_directed(n, krates::petgraph::Direction::Outgoing)
            .map(|t| &refs[t.index()])
            .collect();
        let own = outgoing.iter().filter(|t| ***t == NodeRef::K(*p)).count();
        if own == 0 {
            // not linked to its crate: only ever the target of another feature
            let bad = !outgoing.is_empty()
                || g.edges_directed(n, krates::petgraph::Direction::Incoming)
                    .any(|x| {
                        use krates::petgraph::visit::EdgeRef;
                        !matches!(x.weight(), Edge::Feature)
                            || !matches!(&refs[x.source().index()], NodeRef::F(..))
                    });
            if bad {
                return Err(format!(
                    "feature '{f}' of {} has no link to its crate",
                    rw.pkgs[*p].id
                ));
            }
            st.known("dangling-feature-node");
            continue;
        }
        if own > 1 {
            return Err(format!(
                "feature '{f}' of {} is linked to its crate {own} times",
                rw.pkgs[*p].id
            ));
        }
        st.hit("feature nodes linked to their crate");
        if owner.insert((*p, f.clone()), n.index()).is_some() {
            return Err(format!("feature '{f}' of {} has two nodes", rw.pkgs[*p].id));
        }
        if !r.o.feats[p].contains(f) {
            return Err(format!(
                "feature '{f}' of {} has a node, but is not enabled",
                rw.pkgs[*p].id
            ));
        }
    }
    // every enabled feature that the crate declares has a node
    for (p, fs) in &r.o.feats {
        for f in fs {
            if rw.pkgs[*p].features.contains_key(f) && !owner.contains_key(&(*p, f.clone())) {
                return Err(format!(
                    "enabled feature '{f}' of {} has no node",
                    rw.pkgs[*p].id
                ));
            }
        }
    }
    // the features a feature is made of
    let mut fedges: BTreeSet<(NodeRef, NodeRef)> = BTreeSet::new();
    for (a, b, x) in &r.o.edges {
        match (a, b, x) {
            (NodeRef::F(..), _, ERef::Feature) => {
                fedges.insert((a.clone(), b.clone()));
            }
            (NodeRef::F(..), ..) => {
                return Err(format!(
                    "edge from feature {a:?} to {b:?} is a dependency ({x:?})"
                ));
            }
            (NodeRef::K(_), NodeRef::F(..), ERef::Feature | ERef::DepFeature(..)) => {}
            (NodeRef::K(_), NodeRef::K(_), ERef::Dep(..)) => {}
            _ => return Err(format!("impossible edge {a:?} to {b:?} ({x:?})")),
        }
    }
    for (a, b) in &fedges {
        let NodeRef::F(p, f) = a else { unreachable!() };
        let subs = rw.pkgs[*p].features.get(f).ok_or_else(|| {
            format!(
                "feature '{f}' of {} is not declared, but has edges",
                rw.pkgs[*p].id
            )
        })?;
        let why = match b {
            NodeRef::K(q) => {
                q == p
                    || subs.iter().any(|s| {
                        s.strip_prefix("dep:").is_some_and(|x| {
                            rw.pkgs[*p]
                                .decls
                                .iter()
                                .any(|d| d.toml == x && d.to.is_some_and(|t| same_named(rw, t, *q)))
                        })
                    })
            }
            NodeRef::F(q, g) => subs.iter().any(|s| {
                if s == g || s.strip_prefix("dep:") == Some(g.as_str()) {
                    // a feature of the crate itself
                    return true;
                }
                let x = s.split_once('/');
                x.is_some_and(|(x, sub)| {
                    sub == g
                        && (q == p
                            || rw.pkgs[*p].decls.iter().any(|d| {
                                d.toml == x.trim_end_matches('?')
                                    && d.to.is_some_and(|t| same_named(rw, t, *q))
                            })
                            || rw.pkgs[*p].decls.iter().any(|d| {
                                // found by the name of the package behind another name
                                d.to == Some(*q)
                            }))
                })
            }),
        };
        // a weak feature leads nowhere as long as its dependency is not turned on
        let idle = match b {
            NodeRef::F(q, g) if q != p => !subs.iter().any(|s| {
                s.strip_prefix("dep:") == Some(g)
                    || s.split_once('/').is_some_and(|(x, sub)| {
                        sub == g
                            && x.strip_suffix('?').is_none_or(|x| {
                                rw.pkgs[*p].rfeat.contains(x)
                                    || e.links.iter().any(|l| l.0 == *p && l.1 == *q)
                            })
                    })
            }),
            _ => false,
        };
        // even where it gets a node of the wrong crate, the dependency has to be there
        let astray = match b {
            NodeRef::F(q, g) if q == p && !owner.contains_key(&(*q, g.clone())) => {
                !subs.iter().any(|s| {
                    let (x, part) = match (s.strip_prefix("dep:"), s.split_once('/')) {
                        (Some(x), _) => (x, x),
                        (None, Some((x, part))) => (x.trim_end_matches('?'), part),
                        _ => return s == g,
                    };
                    part == g
                        && rw.pkgs[*p].decls.iter().any(|d| {
                            d.to.is_some_and(|t| {
                                t != *p
                                    && r.o.krates.contains(&t)
                                    && [&d.toml, &rw.pkgs[t].name, &rw.pkgs[t].lib]
                                        .iter()
                                        .any(|n| alike(n, x))
                            })
                        })
                })
            }
            _ => false,
        };
        if idle || astray || !why && !loose(rw, *p, b) {
            return Err(format!(
                "nothing in feature '{f}' of {} ({subs:?}) leads to {b:?}",
                rw.pkgs[*p].id
            ));
        }
        st.hit("edges between features");
    }
    // simple sub features
    for ((p, f), _) in &owner {
        for s in rw.pkgs[*p].features.get(f).into_iter().flatten() {
            if s.contains('/') || s.starts_with("dep:") {
                continue;
            }
            if !fedges.contains(&(NodeRef::F(*p, f.clone()), NodeRef::F(*p, s.clone()))) {
                return Err(format!(
                    "feature '{f}' of {} has no edge to '{s}'",
                    rw.pkgs[*p].id
                ));
            }
        }
    }
    // the dependencies a feature turns on, as far as their name leaves no doubt
    for (p, f) in owner.keys() {
        for s in rw.pkgs[*p].features.get(f).into_iter().flatten() {
            let (x, g) = match (s.strip_prefix("dep:"), s.split_once('/')) {
                (Some(x), _) => (x, None),
                (None, Some((x, g))) if !x.ends_with('?') => (x, Some(g)),
                _ => continue,
            };
            let fits: BTreeSet<usize> = rw.pkgs[*p]
                .decls
                .iter()
                .filter(|d| {
                    alike(&d.toml, x)
                        || d.to.is_some_and(|q| {
                            alike(&rw.pkgs[q].name, x) || alike(&rw.pkgs[q].lib, x)
                        })
                })
                .filter_map(|d| d.to)
                .collect();
            let Some(&q) = fits.first().filter(|q| fits.len() == 1 && *q != p) else {
                continue;
            };
            if rw.pkgs[q].name != x || !r.o.krates.contains(&q) {
                continue;
            }
            let to = match g {
                None => NodeRef::K(q),
                Some(g) if owner.contains_key(&(q, g.to_string())) => NodeRef::F(q, g.to_string()),
                _ => continue,
            };
            let from = NodeRef::F(*p, f.clone());
            if !fedges.contains(&(from.clone(), to)) {
                // the known finding, the node is then one of the crate itself
                if g.is_some_and(|g| fedges.contains(&(from, NodeRef::F(*p, g.to_string())))) {
                    st.hit("edges to features that are not linked");
                    continue;
                }
                return Err(format!(
                    "feature '{f}' of {} has no edge for '{s}'",
                    rw.pkgs[*p].id
                ));
            }
            st.hit("edges from features to dependencies");
        }
    }
    // features turned on by features of dependents
    let t = r.o.toggles();
    if let Some(x) = e.toggles.symmetric_difference(&t).next() {
        return Err(format!(
            "feature '{}' of {} is turned on by a feature of {}: {}",
            x.2,
            rw.pkgs[x.1].id,
            rw.pkgs[x.0].id,
            if t.contains(x) {
                "only in the graph"
            } else {
                "not in the graph"
            }
        ));
    }
    st.add("features turned on by features", t.len() as u64);
    Ok(())
}

fn alike(a: &str, b: &str) -> bool {
    a.replace('-', "_") == b.replace('-', "_")
}

fn same_named(rw: &RWorld, a: usize, b: usize) -> bool {
    a == b || rw.pkgs[a].name == rw.pkgs[b].name
}

/// dependencies that share a name, which the features of the graph are not told apart by
fn loose(rw: &RWorld, p: usize, b: &NodeRef) -> bool {
    let q = match b {
        NodeRef::K(q) | NodeRef::F(q, _) => *q,
    };
    q == p || rw.pkgs[p].decls.iter().any(|d| d.to == Some(q))
}

pub fn search(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    let rw = &c.rw;
    let mut rng = Rng::new(seed ^ 0x99);
    let check =
        |what: &str, got: Vec<krates::KrateMatch<'_, krates::Package>>, want: Vec<usize>| -> R {
            let mut ids = Vec::new();
            for m in &got {
                let i = m.node_id.index();
                let Some(&p) = r.o.krates.get(i) else {
                    return Err(format!("{what}: node {i} is no crate"));
                };
                if m.krate.id.repr != rw.pkgs[p].id || *m.kid != kid(&rw.pkgs[p].id) {
                    return Err(format!(
                        "{what}: {} has the identifier {} and node {i}",
                        m.krate.id, m.kid
                    ));
                }
                ids.push(p);
            }
            if ids != want {
                return Err(format!(
                    "{what} finds {} instead of {}",
                    names(rw, ids),
                    names(rw, want)
                ));
            }
            Ok(())
        };
    for _ in 0..6 {
        let p = rng.pick(&rw.pkgs);
        let mut name = p.name.clone();
        match rng.below(8) {
            0 => name.push('a'),
            1 => name = name.replace('-', "_"),
            2 => {
                name.pop();
            }
            3 => name = name.to_uppercase(),
            _ => {}
        }
        // in the order of the graph
        let want: Vec<usize> =
            r.o.krates
                .iter()
                .copied()
                .filter(|i| rw.pkgs[*i].name == name)
                .collect();
        st.hit(match want.len() {
            0 => "names without match",
            1 => "names with one match",
            _ => "names with several matches",
        });
        check(
            "krates_by_name",
            r.k.krates_by_name(name.as_str()).collect(),
            want.clone(),
        )?;
        for _ in 0..3 {
            let q = if rng.pct(70) { p } else { rng.pick(&rw.pkgs) };
            let v = krates::semver::Version::parse(&q.version).unwrap();
            let (text, f): (String, Box<dyn Fn(&krates::semver::Version) -> bool>) =
                requirement(&mut rng, v);
            let req =
                krates::semver::VersionReq::parse(&text).map_err(|e| format!("harness: {e}"))?;
            let w: Vec<usize> = want
                .iter()
                .copied()
                .filter(|i| f(&krates::semver::Version::parse(&rw.pkgs[*i].version).unwrap()))
                .collect();
            st.hit(if w.is_empty() {
                "requirements without match"
            } else {
                "requirements with match"
            });
            check(
                &format!("search_matches({name}, {text})"),
                r.k.search_matches(name.as_str(), req).collect(),
                w,
            )?;
        }
    }
    Ok(())
}

type Pred = Box<dyn Fn(&krates::semver::Version) -> bool>;

/// a requirement, and its meaning written out
fn requirement(r: &mut Rng, v: krates::semver::Version) -> (String, Pred) {
    let (a, b, c) = (v.major, v.minor, v.patch);
    let pre = v.pre.to_string();
    let full = if pre.is_empty() {
        format!("{a}.{b}.{c}")
    } else {
        format!("{a}.{b}.{c}-{pre}")
    };
    let key = |v: &krates::semver::Version| (v.major, v.minor, v.patch);
    let at = (a, b, c);
    match r.below(6) {
        0 => (
            format!("={full}"),
            Box::new(move |x| key(x) == at && x.pre.as_str() == pre),
        ),
        1 => ("*".into(), Box::new(|x| x.pre.is_empty())),
        2 => (
            format!(">={a}.{b}.{c}"),
            Box::new(move |x| x.pre.is_empty() && key(x) >= at),
        ),
        3 => (
            format!("<{a}.{b}.{c}"),
            Box::new(move |x| x.pre.is_empty() && key(x) < at),
        ),
        4 => (
            format!("~{a}.{b}"),
            Box::new(move |x| x.pre.is_empty() && x.major == a && x.minor == b),
        ),
        _ => (
            format!("{a}.{b}.{c}"),
            Box::new(move |x| {
                x.pre.is_empty()
                    && key(x) >= at
                    && if a > 0 {
                        x.major == a
                    } else if b > 0 {
                        x.major == 0 && x.minor == b
                    } else {
                        key(x) == at
                    }
            }),
        ),
    }
}

// ---- custom types

struct MyNode {
    id: String,
    deps: usize,
}

impl From<krates::Package> for MyNode {
    fn from(p: krates::Package) -> Self {
        MyNode {
            deps: p.dependencies.len(),
            id: p.id.repr,
        }
    }
}

impl std::fmt::Display for MyNode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.id)
    }
}

impl std::fmt::Debug for MyNode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[{}]", self.id)
    }
}

struct MyEdge(ERef);

impl From<Edge> for MyEdge {
    fn from(e: Edge) -> Self {
        MyEdge(ERef::of(&e))
    }
}

pub fn custom_types(seed: u64, st: &mut Stats) -> R {
    with!(seed, Focus::Any, st, c, e, r);
    let md = graph::parse(&c.text)?;
    let mut filtered = 0;
    let k: krates::Krates<MyNode, MyEdge> = c
        .cfg
        .builder()
        .build_with_metadata(md, |_: krates::Package| filtered += 1)
        .map_err(|e| format!("custom types: {e}"))?;
    let (a, b) = (r.k.graph(), k.graph());
    if filtered != r.filtered.len() || k.len() != r.k.len() {
        return Err("a graph of custom types has other crates".into());
    }
    if a.node_count() != b.node_count() || a.edge_count() != b.edge_count() {
        return Err("a graph of custom types has another shape".into());
    }
    for (x, y) in a.raw_nodes().iter().zip(b.raw_nodes()) {
        let ok = match (&x.weight, &y.weight) {
            (
                Node::Krate {
                    id,
                    krate,
                    features,
                    dep_mapping,
                },
                Node::Krate {
                    id: i2,
                    krate: k2,
                    features: f2,
                    dep_mapping: d2,
                },
            ) => {
                id == i2
                    && krate.id.repr == k2.id
                    && features == f2
                    && dep_mapping == d2
                    && krate.dependencies.len() == k2.deps
                    && format!("{}", y.weight) == format!("crate <{}>", k2.id)
                    && format!("{:?}", y.weight) == format!("crate {} [{}]", i2.repr, k2.id)
            }
            (
                Node::Feature { krate_index, name },
                Node::Feature {
                    krate_index: k2,
                    name: n2,
                },
            ) => {
                krate_index == k2
                    && name == n2
                    && format!("{}", y.weight) == format!("feature {name}")
                    && format!("{:?}", x.weight) == format!("feature {name}")
            }
            _ => false,
        };
        if !ok {
            return Err("a node differs between types, or is not shown as it should".into());
        }
        st.hit("nodes compared");
    }
    for (x, y) in a.raw_edges().iter().zip(b.raw_edges()) {
        if x.source() != y.source() || x.target() != y.target() || ERef::of(&x.weight) != y.weight.0
        {
            return Err("an edge differs between types".into());
        }
        let want = match &x.weight {
            Edge::Feature => String::new(),
            Edge::Dep { kind, cfg } | Edge::DepFeature { kind, cfg } => {
                let k = match kind {
                    DepKind::Normal => "",
                    DepKind::Build => "(build)",
                    DepKind::Dev => "(dev)",
                };
                match cfg {
                    Some(c) => format!("{k} '{c}'"),
                    None => k.to_string(),
                }
            }
        };
        if x.weight.to_string() != want {
            return Err(format!(
                "an edge is shown as '{}' instead of '{want}'",
                x.weight
            ));
        }
        st.hit("edges compared");
    }
    // queries that are there for any type
    for i in 0..r.k.len() {
        let n = NodeId::new(i);
        let x: Vec<_> =
            r.k.direct_dependents(n)
                .iter()
                .map(|d| (d.node_id, d.edge_id))
                .collect();
        let y: Vec<_> = k
            .direct_dependents(n)
            .iter()
            .map(|d| (d.node_id, d.edge_id))
            .collect();
        let x2: Vec<_> =
            r.k.direct_dependencies(n)
                .iter()
                .map(|d| (d.node_id, d.edge_id))
                .collect();
        let y2: Vec<_> = k
            .direct_dependencies(n)
            .iter()
            .map(|d| (d.node_id, d.edge_id))
            .collect();
        if x != y || x2 != y2 || k[n].id != r.k[n].id.repr || k[i].id != r.k[i].id.repr {
            return Err("a query on a graph of custom types differs".into());
        }
    }
    if seed % 16 == 0 {
        let d = format!(
            "{}",
            krates::petgraph::dot::Dot::new(
                &k.graph()
                    .map(|_, n| n.to_string(), |_, e| format!("{:?}", e.0))
            )
        );
        for i in &r.o.krates {
            if !d.contains(&format!("crate <{}>", c.rw.pkgs[*i].id)) {
                return Err(format!("{} is not in the dot graph", c.rw.pkgs[*i].id));
            }
        }
        st.hit("dot graphs");
    }
    Ok(())
}

//! What can be seen of a built graph through the public API.

use crate::model::{Config, Link};
use crate::sim::RWorld;
use crate::world::Kind;
use krates::{Edge, Krates, Node};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum NodeRef {
    K(usize),
    F(usize, String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum ERef {
    Dep(Kind, Option<String>),
    DepFeature(Kind, Option<String>),
    Feature,
}

impl ERef {
    pub fn of(e: &Edge) -> Self {
        match e {
            Edge::Dep { kind, cfg } => ERef::Dep(Kind::of(*kind), cfg.clone()),
            Edge::DepFeature { kind, cfg } => ERef::DepFeature(Kind::of(*kind), cfg.clone()),
            Edge::Feature => ERef::Feature,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub krates: Vec<usize>,
    pub feats: BTreeMap<usize, BTreeSet<String>>,
    /// feature nodes, in order
    pub fnodes: Vec<(usize, String)>,
    /// sorted
    pub edges: Vec<(NodeRef, NodeRef, ERef)>,
    pub mapping: BTreeMap<(usize, usize), usize>,
    pub filtered: Vec<usize>,
}

pub enum Built {
    Ok(Box<(Krates, Obs)>),
    Err(krates::Error),
    Panic(String),
}

pub fn id_index(w: &RWorld) -> BTreeMap<&str, usize> {
    w.pkgs
        .iter()
        .enumerate()
        .map(|(i, p)| (p.id.as_str(), i))
        .collect()
}

pub fn observe(w: &RWorld, k: &Krates, filtered: &[krates::Package]) -> Result<Obs, String> {
    let idx = id_index(w);
    let look = |s: &str| -> Result<usize, String> {
        idx.get(s)
            .copied()
            .ok_or_else(|| format!("the graph has package '{s}', which is not in the metadata"))
    };
    let g = k.graph();
    let mut o = Obs {
        krates: vec![],
        feats: BTreeMap::new(),
        fnodes: vec![],
        edges: vec![],
        mapping: BTreeMap::new(),
        filtered: vec![],
    };
    let mut refs: Vec<NodeRef> = Vec::new();
    for n in g.node_indices() {
        match &g[n] {
            Node::Krate {
                krate,
                features,
                id,
                ..
            } => {
                let i = look(&krate.id.repr)?;
                if krates::Kid::from(krate.id.clone()) != *id {
                    return Err(format!(
                        "node {} has the identifier {id} but the package {}",
                        n.index(),
                        krate.id
                    ));
                }
                o.krates.push(i);
                if o.feats.insert(i, features.clone()).is_some() {
                    return Err(format!("package '{}' is in the graph twice", krate.id));
                }
                refs.push(NodeRef::K(i));
            }
            Node::Feature { krate_index, name } => {
                let Node::Krate { krate, .. } = &g[*krate_index] else {
                    return Err(format!("feature node '{name}' belongs to no crate node"));
                };
                let i = look(&krate.id.repr)?;
                o.fnodes.push((i, name.clone()));
                refs.push(NodeRef::F(i, name.clone()));
            }
        }
    }
    for n in g.node_indices() {
        if let Node::Krate { dep_mapping, .. } = &g[n] {
            let NodeRef::K(p) = refs[n.index()] else {
                unreachable!()
            };
            for (i, t) in dep_mapping.iter().enumerate() {
                if let Some(t) = t {
                    let NodeRef::K(q) = &refs[t.index()] else {
                        return Err("a dependency is resolved to a feature node".into());
                    };
                    o.mapping.insert((p, i), *q);
                }
            }
        }
    }
    for e in g.raw_edges() {
        o.edges.push((
            refs[e.source().index()].clone(),
            refs[e.target().index()].clone(),
            ERef::of(&e.weight),
        ));
    }
    o.edges.sort();
    for f in filtered {
        o.filtered.push(look(&f.id.repr)?);
    }
    Ok(o)
}

thread_local! {
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("harness error: {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs code under test; a panic comes back as its message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    res.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn metadata(json: &serde_json::Value) -> Result<krates::Metadata, String> {
    let text = json.to_string();
    match guard(|| serde_json::from_str::<krates::Metadata>(&text)) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(format!("metadata does not deserialize: {e}")),
        Err(p) => Err(format!("panic while deserializing metadata: {p}")),
    }
}

pub type BuildRes = Result<Result<(Krates, Vec<krates::Package>), krates::Error>, String>;

/// `Err`: panic
pub fn build(md: krates::Metadata, c: &Config) -> BuildRes {
    let b = c.builder();
    guard(move || {
        let mut filtered = Vec::new();
        let k: Result<Krates, _> = b.build_with_metadata(md, |p: krates::Package| filtered.push(p));
        k.map(|k| (k, filtered))
    })
}

impl Obs {
    /// dependency links as the model states them
    pub fn links(&self) -> Result<BTreeSet<Link>, String> {
        let mut s = BTreeSet::new();
        for (a, b, e) in &self.edges {
            let l = match (a, b, e) {
                (NodeRef::K(p), NodeRef::K(q), ERef::Dep(k, c)) => (*p, *q, *k, c.clone(), None),
                (NodeRef::K(p), NodeRef::F(q, f), ERef::DepFeature(k, c)) => {
                    (*p, *q, *k, c.clone(), Some(f.clone()))
                }
                (_, _, ERef::Feature) => continue,
                _ => return Err(format!("impossible link {a:?} -> {b:?} ({e:?})")),
            };
            if !s.insert(l.clone()) {
                return Err(format!("duplicate link {l:?}"));
            }
        }
        Ok(s)
    }

    pub fn toggles(&self) -> BTreeSet<(usize, usize, String)> {
        self.edges
            .iter()
            .filter_map(|(a, b, e)| match (a, b, e) {
                (NodeRef::K(p), NodeRef::F(q, f), ERef::Feature) => Some((*p, *q, f.clone())),
                _ => None,
            })
            .collect()
    }
}

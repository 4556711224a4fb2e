//! The reference: which packages, features and links a graph has to hold for a resolved world and a configuration.
//! Single naive fixpoint over cargo's activation rules; shares no code or data structure with krates.

use crate::cfgx::TFilter;
use crate::sim::RWorld;
use crate::world::Kind;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sc {
    Workspace,
    NonWorkspace,
    All,
}

impl Sc {
    pub fn krates(self) -> krates::Scope {
        match self {
            Sc::Workspace => krates::Scope::Workspace,
            Sc::NonWorkspace => krates::Scope::NonWorkspace,
            Sc::All => krates::Scope::All,
        }
    }
}

/// An exclusion, with its meaning known from how it was made
#[derive(Clone, Debug)]
pub struct Excl {
    pub text: String,
    pub name: String,
    pub version: Option<String>,
    pub url: Option<String>,
}

impl Excl {
    pub fn matches(&self, p: &crate::sim::RPkg) -> bool {
        self.name == p.name
            && self.version.as_ref().is_none_or(|v| *v == p.version)
            && self.url.as_ref().is_none_or(|u| *u == p.base_url)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    pub targets: Vec<TFilter>,
    pub ignore: Vec<(Kind, Sc)>,
    pub exclude: Vec<Excl>,
    pub workspace: bool,
    pub include_ws: Vec<String>,
    /// the same paths, as the builder is given them
    pub include_as: Option<Vec<std::path::PathBuf>>,
}

impl Config {
    pub fn builder(&self) -> krates::Builder {
        let mut b = krates::Builder::new();
        for (k, s) in &self.ignore {
            b.ignore_kind(k.krates(), s.krates());
        }
        b.workspace(self.workspace);
        b.exclude(self.exclude.iter().map(|e| {
            e.text
                .parse::<krates::PkgSpec>()
                .expect("the harness made an invalid package spec")
        }));
        match &self.include_as {
            Some(v) => b.include_workspace_crates(v),
            None => b.include_workspace_crates(&self.include_ws),
        };
        // as text, and as what text becomes
        let (text, made): (Vec<_>, Vec<_>) =
            self.targets.iter().partition(|t| t.triple.len() % 2 == 0);
        b.include_targets(text.iter().map(|t| (t.triple.as_str(), t.features.clone())));
        b.include_targets(
            made.iter()
                .map(|t| (krates::Target::from(&t.triple).clone(), t.features.clone())),
        );
        b
    }

    pub fn ignores(&self, kind: Kind, in_workspace: bool) -> bool {
        self.ignore.iter().any(|(k, s)| {
            *k == kind
                && match s {
                    Sc::All => true,
                    Sc::Workspace => in_workspace,
                    Sc::NonWorkspace => !in_workspace,
                }
        })
    }
}

/// kind, platform, and the feature of the dependency a link leads to (`None`: the crate itself)
pub type Link = (usize, usize, Kind, Option<String>, Option<String>);

#[derive(Clone, Debug, Default)]
pub struct Expected {
    pub present: BTreeSet<usize>,
    pub feats: BTreeMap<usize, BTreeSet<String>>,
    pub links: BTreeSet<Link>,
    /// (p, q, g): a feature of p turns on feature g of dependency q
    pub toggles: BTreeSet<(usize, usize, String)>,
    /// resolved dependency of each declaration
    pub mapping: BTreeMap<(usize, usize), usize>,
    pub roots: BTreeSet<usize>,
    /// rounds the fixpoint took
    pub rounds: usize,
    /// declarations that a filter took out of a present package
    pub cut_kind: usize,
    pub cut_plat: usize,
    pub cut_excl: usize,
    pub weak_applied: usize,
    pub weak_idle: usize,
}

/// a path without `Cargo.toml`
fn dir_of(p: &str) -> &str {
    p.strip_suffix("/Cargo.toml").unwrap_or(p)
}

pub fn roots(w: &RWorld, c: &Config) -> BTreeSet<usize> {
    let members: BTreeSet<usize> = w.members.iter().copied().collect();
    if c.include_ws.is_empty() {
        match w.root {
            Some(r) if !c.workspace => [r].into(),
            _ => members,
        }
    } else if c.include_ws.len() == 1 && dir_of(&c.include_ws[0]) == w.ws_root {
        members
    } else {
        members
            .into_iter()
            .filter(|m| {
                let d = dir_of(&w.pkgs[*m].manifest_path);
                c.include_ws.iter().any(|x| dir_of(x) == d)
            })
            .collect()
    }
}

pub fn expect(w: &RWorld, c: &Config) -> Expected {
    let mut e = Expected {
        roots: roots(w, c),
        ..Default::default()
    };
    let excluded: Vec<bool> = w
        .pkgs
        .iter()
        .map(|p| c.exclude.iter().any(|x| x.matches(p)))
        .collect();
    for &r in &e.roots {
        if !excluded[r] {
            e.present.insert(r);
            e.feats.insert(r, w.pkgs[r].rfeat.clone());
        }
    }

    let survives = |p: usize, d: &crate::sim::RDecl| -> bool {
        d.to.is_some()
            && !c.ignores(d.kind, w.pkgs[p].is_member)
            && d.plat.as_ref().is_none_or(|x| x.survives(&c.targets))
    };
    let mut activated: BTreeSet<(usize, String)> = BTreeSet::new();

    loop {
        e.rounds += 1;
        let size = |e: &Expected, a: &BTreeSet<(usize, String)>| {
            (
                e.present.len(),
                e.feats.values().map(|f| f.len()).sum::<usize>(),
                e.links.len(),
                e.toggles.len(),
                a.len(),
            )
        };
        let before = size(&e, &activated);

        for p in e.present.clone() {
            let pkg = &w.pkgs[p];
            for (i, d) in pkg.decls.iter().enumerate() {
                if !survives(p, d) || (d.optional && !activated.contains(&(p, d.toml.clone()))) {
                    continue;
                }
                let q = d.to.unwrap();
                if excluded[q] {
                    continue;
                }
                e.present.insert(q);
                e.mapping.insert((p, i), q);
                let mut fs: Vec<&str> = d.features.iter().map(|s| s.as_str()).collect();
                if d.default_features && w.pkgs[q].rfeat.contains("default") {
                    fs.push("default");
                }
                let plat = d.plat.as_ref().map(|p| p.to_string());
                if fs.is_empty() {
                    e.links.insert((p, q, d.kind, plat, None));
                } else {
                    for f in fs {
                        e.feats.entry(q).or_default().insert(f.to_string());
                        e.links
                            .insert((p, q, d.kind, plat.clone(), Some(f.to_string())));
                    }
                }
            }

            for f in e.feats.get(&p).cloned().unwrap_or_default() {
                for v in pkg.features.get(&f).into_iter().flatten() {
                    if let Some(x) = v.strip_prefix("dep:") {
                        activated.insert((p, x.to_string()));
                    } else if let Some((x, g)) = v.split_once('/') {
                        let (x, weak) = match x.strip_suffix('?') {
                            Some(x) => (x, true),
                            None => (x, false),
                        };
                        // as in cargo, whether or not the dependency is for a target that matters
                        if !weak
                            && pkg.features.get(x).is_some_and(|f| {
                                f.len() != 1 || f[0].strip_prefix("dep:") != Some(x)
                            })
                            && pkg.decls.iter().any(|d| d.optional && d.toml == x)
                        {
                            e.feats.entry(p).or_default().insert(x.to_string());
                        }
                        for d in pkg.decls.iter().filter(|d| d.toml == x && survives(p, d)) {
                            if !weak {
                                activated.insert((p, x.to_string()));
                            } else if d.optional && !activated.contains(&(p, x.to_string())) {
                                continue;
                            }
                            let q = d.to.unwrap();
                            if !excluded[q] {
                                e.feats.entry(q).or_default().insert(g.to_string());
                                e.toggles.insert((p, q, g.to_string()));
                            }
                        }
                    } else {
                        e.feats.entry(p).or_default().insert(v.clone());
                    }
                }
            }
        }
        if size(&e, &activated) == before {
            break;
        }
    }
    for &p in &e.present {
        e.feats.entry(p).or_default();
        for d in &w.pkgs[p].decls {
            if d.to.is_none() {
                continue;
            }
            if c.ignores(d.kind, w.pkgs[p].is_member) {
                e.cut_kind += 1;
            } else if !d.plat.as_ref().is_none_or(|x| x.survives(&c.targets)) {
                e.cut_plat += 1;
            } else if excluded[d.to.unwrap()] {
                e.cut_excl += 1;
            }
        }
        for f in &e.feats[&p] {
            for v in w.pkgs[p].features.get(f).into_iter().flatten() {
                if let Some((x, g)) = v.split_once("?/") {
                    let hit = w.pkgs[p].decls.iter().any(|d| {
                        d.toml == x
                            && d.to
                                .is_some_and(|q| e.toggles.contains(&(p, q, g.to_string())))
                    });
                    if hit {
                        e.weak_applied += 1;
                    } else {
                        e.weak_idle += 1;
                    }
                }
            }
        }
    }
    e
}

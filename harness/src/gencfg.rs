//! Random builder configurations for a resolved world.

use crate::cfgx::{self, Plat};
use crate::model::{Config, Excl, Sc};
use crate::rng::Rng;
use crate::sim::RWorld;
use crate::world::Kind;

pub fn plats(w: &RWorld) -> Vec<Plat> {
    let mut v: Vec<Plat> = Vec::new();
    for p in &w.pkgs {
        for d in &p.decls {
            if let Some(p) = &d.plat {
                if !v.contains(p) {
                    v.push(p.clone());
                }
            }
        }
    }
    v
}

pub fn gen_excl(r: &mut Rng, w: &RWorld) -> Excl {
    let p = r.pick(&w.pkgs);
    let other = r.pick(&w.pkgs);
    let name = if r.pct(8) {
        "no-such-crate".to_string()
    } else {
        p.name.clone()
    };
    let version = r.pct(45).then(|| {
        if r.pct(85) {
            p.version.clone()
        } else {
            other.version.clone()
        }
    });
    let url = r.pct(30).then(|| {
        if r.pct(80) {
            p.base_url.clone()
        } else {
            other.base_url.clone()
        }
    });
    make_excl(r, name, version, url)
}

pub fn make_excl(r: &mut Rng, name: String, version: Option<String>, url: Option<String>) -> Excl {
    let sep = if r.pct(50) { ":" } else { "@" };
    // a url that ends with a slash cannot be written
    let url = url.filter(|u| !u.ends_with('/'));
    let text = match (&url, &version) {
        (None, None) => name.clone(),
        (None, Some(v)) => format!("{name}{sep}{v}"),
        (Some(u), v) => {
            let base = u.rsplit('/').next().unwrap();
            if base == name && r.pct(60) {
                match v {
                    None => u.clone(),
                    Some(v) => format!("{u}#{v}"),
                }
            } else {
                match v {
                    // a fragment without version is only a name if it starts with a letter
                    None => format!("{u}#{name}"),
                    Some(v) => format!("{u}#{name}{sep}{v}"),
                }
            }
        }
    };
    Excl {
        text,
        name,
        version,
        url,
    }
}

/// which part of the configuration a property is about
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Focus {
    Any,
    Targets,
    Ignore,
    Exclude,
    Roots,
    None,
}

pub fn gen_config(r: &mut Rng, w: &RWorld, focus: Focus) -> Config {
    let mut c = Config::default();
    let pl = plats(w);
    // a configuration without any filter now and then
    if focus == Focus::None || r.pct(4) {
        return c;
    }
    // the probability of each part
    let p = |f: Focus, any: u32| {
        if focus == f {
            97
        } else if focus == Focus::Any {
            any
        } else {
            any / 2
        }
    };
    if r.pct(p(Focus::Targets, 50)) {
        c.targets = cfgx::gen_filters(r, &pl);
    }
    if r.pct(p(Focus::Ignore, 45)) {
        for _ in 0..r.range(1, 3) {
            c.ignore.push((
                *r.pick(&Kind::ALL),
                *r.pick(&[Sc::Workspace, Sc::NonWorkspace, Sc::All]),
            ));
        }
    }
    if r.pct(p(Focus::Exclude, 35)) {
        for _ in 0..r.range(1, if focus == Focus::Exclude { 4 } else { 2 }) {
            c.exclude.push(gen_excl(r, w));
        }
    }
    c.workspace = r.pct(if focus == Focus::Roots { 50 } else { 30 });
    // windows paths mean nothing to the file system this runs on
    if !w.ws_root.contains('\\') && r.pct(if focus == Focus::Roots { 65 } else { 18 }) {
        c.include_ws = gen_include(r, w);
    }
    c
}

pub fn gen_include(r: &mut Rng, w: &RWorld) -> Vec<String> {
    let mut v = Vec::new();
    if r.pct(20) {
        let s = if r.pct(50) { "/Cargo.toml" } else { "" };
        v.push(format!("{}{s}", w.ws_root));
        if r.pct(70) {
            return v;
        }
    }
    for _ in 0..r.range(1, 2) {
        let m = if r.pct(85) {
            *r.pick(&w.members)
        } else {
            r.below(w.pkgs.len())
        };
        let mp = &w.pkgs[m].manifest_path;
        v.push(if r.pct(50) {
            mp.clone()
        } else {
            mp.strip_suffix("/Cargo.toml").unwrap_or(mp).to_string()
        });
    }
    v
}

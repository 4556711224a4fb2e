//! Real `cargo metadata` documents, read into the resolved worlds the reference model takes.

use crate::cfgx::{Cfg, Plat};
use crate::sim::{RDecl, RPkg, RWorld};
use crate::world::Kind;
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

static FILES: &[&str] = &[
    include_str!("../corpus/all-features-stable.json"),
    include_str!("../corpus/all-features.json"),
    include_str!("../corpus/all-features2.json"),
    include_str!("../corpus/direct.json"),
    include_str!("../corpus/pid-opaque.json"),
    include_str!("../corpus/pid-stable.json"),
    include_str!("../corpus/windows.json"),
];

pub fn texts() -> &'static [&'static str] {
    FILES
}

pub fn all() -> &'static [(Arc<RWorld>, Arc<str>)] {
    static A: OnceLock<Vec<(Arc<RWorld>, Arc<str>)>> = OnceLock::new();
    A.get_or_init(|| {
        FILES
            .iter()
            .map(|f| {
                let v: Value = serde_json::from_str(f).expect("corpus");
                (Arc::new(convert(&v)), (*f).into())
            })
            .collect()
    })
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }

    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            true
        } else {
            false
        }
    }

    fn word(&mut self) -> String {
        self.ws();
        let b = self.i;
        while self
            .s
            .get(self.i)
            .is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_')
        {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[b..self.i]).into_owned()
    }

    fn expr(&mut self) -> Option<Cfg> {
        let w = self.word();
        if self.eat(b'(') {
            let mut v = Vec::new();
            while !self.eat(b')') {
                v.push(self.expr()?);
                self.eat(b',');
                if self.i >= self.s.len() {
                    return None;
                }
            }
            match w.as_str() {
                "not" if v.len() == 1 => Some(Cfg::Not(Box::new(v.remove(0)))),
                "all" => Some(Cfg::All(v)),
                "any" => Some(Cfg::Any(v)),
                _ => None,
            }
        } else if self.eat(b'=') {
            if !self.eat(b'"') {
                return None;
            }
            let b = self.i;
            while *self.s.get(self.i)? != b'"' {
                self.i += 1;
            }
            let s = String::from_utf8_lossy(&self.s[b..self.i]).into_owned();
            self.i += 1;
            // what is not about the target is never true
            if w.starts_with("target_") {
                Some(Cfg::KeyVal(w, s))
            } else {
                Some(Cfg::Flag(format!("{w}={s}")))
            }
        } else if w.is_empty() {
            None
        } else if w == "unix" || w == "windows" {
            Some(Cfg::Flag(w))
        } else {
            Some(Cfg::Flag(format!("{w}?")))
        }
    }
}

pub fn plat(s: &str) -> Plat {
    let Some(x) = s.strip_prefix("cfg(").and_then(|s| s.strip_suffix(')')) else {
        return Plat::Triple(s.into());
    };
    let mut p = P {
        s: x.as_bytes(),
        i: 0,
    };
    Plat::Cfg(p.expr().unwrap_or_else(|| panic!("cfg '{s}'")))
}

fn kind(v: &Value) -> Kind {
    match v.as_str() {
        None => Kind::Normal,
        Some("dev") => Kind::Dev,
        Some("build") => Kind::Build,
        Some(x) => panic!("kind '{x}'"),
    }
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .into_iter()
        .flatten()
        .map(|s| s.as_str().unwrap().to_string())
        .collect()
}

pub fn convert(v: &Value) -> RWorld {
    let pk = v["packages"].as_array().unwrap();
    let idx: BTreeMap<&str, usize> = pk
        .iter()
        .enumerate()
        .map(|(i, p)| (p["id"].as_str().unwrap(), i))
        .collect();
    let members: Vec<usize> = strs(&v["workspace_members"])
        .iter()
        .map(|m| idx[m.as_str()])
        .collect();
    let mut pkgs: Vec<RPkg> = pk
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let mp = p["manifest_path"].as_str().unwrap();
            let base_url = match p["source"].as_str() {
                Some(s) => {
                    let s = s.split_once('+').map_or(s, |x| x.1);
                    s.split(['?', '#']).next().unwrap().to_string()
                }
                None => {
                    let dir = mp
                        .strip_suffix("Cargo.toml")
                        .unwrap()
                        .trim_end_matches(['/', '\\'])
                        .replace('\\', "/");
                    if dir.starts_with('/') {
                        format!("file://{dir}")
                    } else {
                        format!("file:///{dir}")
                    }
                }
            };
            RPkg {
                name: p["name"].as_str().unwrap().into(),
                lib: p["targets"]
                    .as_array()
                    .into_iter()
                    .flatten()
                    .find(|t| {
                        t["kind"].as_array().is_some_and(|k| {
                            k.iter().any(|k| {
                                k.as_str()
                                    .is_some_and(|k| k.ends_with("lib") || k == "proc-macro")
                            })
                        })
                    })
                    .and_then(|t| t["name"].as_str())
                    .unwrap_or_default()
                    .into(),
                version: p["version"].as_str().unwrap().into(),
                id: p["id"].as_str().unwrap().into(),
                source_key: base_url.clone(),
                base_url,
                decls: p["dependencies"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|d| RDecl {
                        toml: d["rename"]
                            .as_str()
                            .unwrap_or(d["name"].as_str().unwrap())
                            .into(),
                        to: None,
                        kind: kind(&d["kind"]),
                        plat: d["target"].as_str().map(plat),
                        optional: d["optional"].as_bool().unwrap(),
                        default_features: d["uses_default_features"].as_bool().unwrap(),
                        features: strs(&d["features"]),
                    })
                    .collect(),
                features: p["features"]
                    .as_object()
                    .unwrap()
                    .iter()
                    .map(|(k, v)| (k.clone(), strs(v)))
                    .collect(),
                rfeat: Default::default(),
                manifest_path: mp.into(),
                is_member: members.contains(&i),
            }
        })
        .collect();

    let res = &v["resolve"];
    for n in res["nodes"].as_array().unwrap() {
        let p = idx[n["id"].as_str().unwrap()];
        pkgs[p].rfeat = strs(&n["features"]).into_iter().collect();
        for d in n["deps"].as_array().unwrap() {
            let q = idx[d["pkg"].as_str().unwrap()];
            let ext = d["name"].as_str().unwrap();
            let lib = pk[q]["targets"]
                .as_array()
                .unwrap()
                .iter()
                .find(|t| {
                    strs(&t["kind"])
                        .iter()
                        .any(|k| k.ends_with("lib") || k == "proc-macro")
                })
                .map(|t| t["name"].as_str().unwrap().replace('-', "_"));
            let qv = krates::semver::Version::parse(&pkgs[q].version).unwrap();
            for dk in d["dep_kinds"].as_array().unwrap() {
                let decls = pk[p]["dependencies"].as_array().unwrap();
                let fits: Vec<usize> = (0..decls.len())
                    .filter(|&i| {
                        let x = &decls[i];
                        if x["name"].as_str().unwrap() != pkgs[q].name
                            || x["kind"] != dk["kind"]
                            || x["target"] != dk["target"]
                        {
                            return false;
                        }
                        let e = match x["rename"].as_str() {
                            Some(r) => r.replace('-', "_"),
                            None => lib
                                .clone()
                                .unwrap_or_else(|| pkgs[q].name.replace('-', "_")),
                        };
                        let req = x["req"].as_str().unwrap();
                        e == ext
                            && (req == "*"
                                || krates::semver::VersionReq::parse(req).unwrap().matches(&qv))
                    })
                    .collect();
                assert_eq!(fits.len(), 1, "{} -> {ext} {dk}", pkgs[p].id);
                pkgs[p].decls[fits[0]].to = Some(q);
            }
        }
    }

    RWorld {
        pkgs,
        members,
        root: res["root"].as_str().map(|r| idx[r]),
        ws_root: v["workspace_root"].as_str().unwrap().into(),
    }
}

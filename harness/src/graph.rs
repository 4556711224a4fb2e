//! Cases of the graph properties: a resolved world, the metadata document of it, and a builder configuration.

use crate::gencfg::{self, Focus};
use crate::model::{self, Config, Expected};
use crate::obs::{self, Obs};
use crate::rng::Rng;
use crate::runner::Stats;
use crate::sim::{self, Doc, Flavor, RWorld, Resolved};
use crate::world::{self, GenOpts, World};
use krates::{Krates, Package};
use serde_json::{Value, json};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

pub struct Case {
    pub rw: Arc<RWorld>,
    pub text: Arc<str>,
    pub cfg: Config,
    pub tag: &'static str,
    /// generated worlds only
    pub origin: Option<Box<(World, Resolved, Flavor, Vec<usize>)>>,
}

pub fn opts(r: &mut Rng) -> (&'static str, GenOpts) {
    let d = GenOpts::default();
    if r.below(1000) < 3 {
        let huge = GenOpts {
            min: 20,
            max: 160,
            wide: true,
            ..d
        };
        return ("huge", huge);
    }
    match r.below(100) {
        0..=34 => ("default", d),
        35..=54 => (
            "tangled",
            GenOpts {
                max: 6,
                dense_features: true,
                same: 55,
                plat: 45,
                optional: 60,
                weak: 70,
                ..d
            },
        ),
        55..=69 => (
            "small",
            GenOpts {
                min: 2,
                max: 5,
                ..d
            },
        ),
        70..=84 => (
            "features",
            GenOpts {
                dense_features: true,
                max: 9,
                ..d
            },
        ),
        85..=91 => (
            "large",
            GenOpts {
                min: 14,
                max: 36,
                ..d
            },
        ),
        _ => (
            "plain",
            GenOpts {
                min: 3,
                max: 12,
                shadow: false,
                shared_toml: false,
                lib_rename: false,
                patch: false,
                ..d
            },
        ),
    }
}

pub fn emit_world(r: &mut Rng, o: &GenOpts) -> (World, Resolved, Flavor, Doc) {
    let w = world::gen_world(r, o);
    let res = sim::resolve(&w);
    let fl = Flavor::random(r);
    let doc = sim::emit(&w, &res, &fl);
    (w, res, fl, doc)
}

pub fn gen_case(seed: u64, focus: Focus) -> Case {
    let mut r = Rng::new(seed);
    if r.below(1000) < 25 {
        let all = crate::corpus::all();
        let (rw, text) = r.pick(all);
        let cfg = gencfg::gen_config(&mut r, rw, focus);
        return Case {
            rw: rw.clone(),
            text: text.clone(),
            cfg,
            tag: "corpus",
            origin: None,
        };
    }
    let (tag, o) = opts(&mut r);
    let (w, res, fl, doc) = emit_world(&mut r, &o);
    let cfg = gencfg::gen_config(&mut r, &doc.rw, focus);
    Case {
        rw: Arc::new(doc.rw),
        text: doc.json.to_string().into(),
        cfg,
        tag,
        origin: Some(Box::new((w, res, fl, doc.widx))),
    }
}

pub fn parse(text: &str) -> Result<krates::Metadata, String> {
    match obs::guard(|| serde_json::from_str::<krates::Metadata>(text)) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(format!("metadata does not deserialize: {e}")),
        Err(p) => Err(format!("panic while deserializing metadata: {p}")),
    }
}

pub struct Run {
    pub k: Krates,
    pub o: Obs,
    pub filtered: Vec<Package>,
}

pub enum Outcome {
    Built(Box<Run>),
    NoRoots,
}

/// Builds and observes; an error or panic is a violation, other than the one error the builder documents
pub fn run(rw: &RWorld, text: &str, cfg: &Config) -> Result<Outcome, String> {
    let md = parse(text)?;
    match obs::build(md, cfg) {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(krates::Error::NoRootKrates)) => Ok(Outcome::NoRoots),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Ok(Ok((k, filtered))) => {
            let o = obs::observe(rw, &k, &filtered)?;
            Ok(Outcome::Built(Box::new(Run { k, o, filtered })))
        }
    }
}

/// Outcome together with what is expected; `None` if no root is left, as it should be
pub fn run_expected(c: &Case) -> Result<(Expected, Option<Box<Run>>), String> {
    let e = model::expect(&c.rw, &c.cfg);
    match run(&c.rw, &c.text, &c.cfg)? {
        Outcome::NoRoots if e.present.is_empty() => Ok((e, None)),
        Outcome::NoRoots => Err(format!(
            "no roots are left according to the builder, but {} should be",
            names(&c.rw, e.roots.iter().copied())
        )),
        Outcome::Built(_) if e.present.is_empty() => {
            Err("a graph is built even though no root crate is left".into())
        }
        Outcome::Built(r) => Ok((e, Some(r))),
    }
}

pub fn names(rw: &RWorld, it: impl IntoIterator<Item = usize>) -> String {
    let v: Vec<&str> = it
        .into_iter()
        .take(6)
        .map(|i| rw.pkgs[i].id.as_str())
        .collect();
    format!("{v:?}")
}

/// Counts what was observed, and remembers the case as distinct if it is not trivial
pub fn note(st: &mut Stats, c: &Case, e: &Expected, run: Option<&Run>) {
    st.hit(match c.tag {
        "corpus" => "graphs from real metadata",
        "features" => "graphs of feature heavy worlds",
        "large" => "graphs of large worlds",
        "huge" => "graphs of huge worlds",
        "tangled" => "graphs of tangled worlds",
        _ => "graphs of other worlds",
    });
    let Some(r) = run else {
        st.hit("graphs without root");
        return;
    };
    st.add("crates", r.o.krates.len() as u64);
    st.add("links", e.links.len() as u64);
    st.add("feature nodes", r.o.fnodes.len() as u64);
    st.add("crates filtered out", r.o.filtered.len() as u64);
    if e.present.len() > 1 && !e.links.is_empty() {
        st.prints.push(fingerprint(&c.rw, &r.o));
    }
    if st.samples.len() < 2 && c.rw.pkgs.len() <= 5 && e.present.len() > 1 {
        st.samples.push(sample(c, e));
    }
}

pub fn fingerprint(rw: &RWorld, o: &Obs) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for p in &rw.pkgs {
        p.id.hash(&mut h);
    }
    o.krates.hash(&mut h);
    o.feats.hash(&mut h);
    o.edges.hash(&mut h);
    h.finish()
}

pub fn sample(c: &Case, e: &Expected) -> Value {
    let w = &c.rw;
    json!({
        "packages": w.pkgs.iter().map(|p| json!({
            "id": p.id,
            "member": p.is_member,
            "features": p.features,
            "dependencies": p.decls.iter().map(|d| format!(
                "{} -> {} {:?} {}{}{}{:?}", d.toml, d.to.map_or("-", |q| w.pkgs[q].id.as_str()), d.kind,
                d.plat.as_ref().map(|p| p.to_string()).unwrap_or_default(), if d.optional { " optional" } else { "" },
                if d.default_features { " default " } else { " no-default " }, d.features)).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
        "config": format!("{:?}", c.cfg),
        "crates": e.present.iter().map(|p| &w.pkgs[*p].id).collect::<Vec<_>>(),
        "links": e.links.len(),
    })
}

pub fn describe(seed: u64, focus: Focus) -> Value {
    let c = gen_case(seed, focus);
    json!({
        "kind": c.tag,
        "config": format!("{:?}", c.cfg),
        "metadata": serde_json::from_str::<Value>(&c.text).unwrap_or(Value::Null),
    })
}

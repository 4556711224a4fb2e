//! Independent model of `cfg()` expressions and of rustc's targets. The tables are what
//! `rustc --print cfg --target <triple>` prints, not cfg-expr's builtin list.

use crate::rng::Rng;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cfg {
    /// `unix`, `windows`, or a flag unknown to rustc (`loom`)
    Flag(String),
    KeyVal(String, String),
    Not(Box<Cfg>),
    All(Vec<Cfg>),
    Any(Vec<Cfg>),
}

pub struct RustcTarget {
    pub triple: &'static str,
    /// lines such as `unix` or `target_os="linux"`
    pub cfgs: BTreeSet<&'static str>,
    /// what rustc turns on by itself
    pub features: Vec<&'static str>,
}

static TABLE: &str = include_str!("../data/rustc_cfg.txt");

pub fn targets() -> &'static [RustcTarget] {
    static T: std::sync::OnceLock<Vec<RustcTarget>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<RustcTarget> = Vec::new();
        for l in TABLE.lines() {
            if let Some(t) = l.strip_prefix("== ") {
                v.push(RustcTarget {
                    triple: t,
                    cfgs: BTreeSet::new(),
                    features: vec![],
                });
            } else if !l.is_empty() {
                // the features the user promises are an explicit part of a filter
                match l.strip_prefix("target_feature=\"") {
                    None => {
                        v.last_mut().unwrap().cfgs.insert(l);
                    }
                    Some(f) => v.last_mut().unwrap().features.push(f.trim_end_matches('"')),
                }
            }
        }
        v
    })
}

/// A target filter as the user supplies it
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TFilter {
    pub triple: String,
    pub features: Vec<String>,
}

impl TFilter {
    /// a target as rustc has it
    pub fn rustc(triple: &str) -> Self {
        TFilter {
            triple: triple.to_string(),
            features: targets()
                .iter()
                .find(|t| t.triple == triple)
                .map_or(vec![], |t| {
                    t.features.iter().map(|s| s.to_string()).collect()
                }),
        }
    }

    fn table(&self) -> Option<&'static RustcTarget> {
        targets().iter().find(|t| t.triple == self.triple)
    }
}

impl Cfg {
    pub fn eval(&self, f: &TFilter) -> bool {
        match self {
            Cfg::Flag(fl) if fl == "true" || fl == "false" => fl == "true",
            Cfg::Flag(fl) => match f.table() {
                Some(t) => t.cfgs.contains(fl.as_str()),
                None => lexicon(&f.triple, self),
            },
            Cfg::KeyVal(k, v) => {
                if k == "target_feature" {
                    f.features.iter().any(|x| x == v)
                } else {
                    match f.table() {
                        Some(t) => t.cfgs.contains(format!("{k}=\"{v}\"").as_str()),
                        None => lexicon(&f.triple, self),
                    }
                }
            }
            Cfg::Not(c) => !c.eval(f),
            Cfg::All(v) => v.iter().all(|c| c.eval(f)),
            Cfg::Any(v) => v.iter().any(|c| c.eval(f)),
        }
    }

    /// The value of an expression if it has the same for every target, as far as empty lists and literals tell
    pub fn constant(&self) -> Option<bool> {
        let all = |v: &[Cfg], unit: bool| {
            if v.iter().any(|c| c.constant() == Some(!unit)) {
                Some(!unit)
            } else if v.iter().all(|c| c.constant() == Some(unit)) {
                Some(unit)
            } else {
                None
            }
        };
        match self {
            Cfg::Flag(f) => f.parse().ok(),
            Cfg::KeyVal(..) => None,
            Cfg::Not(c) => c.constant().map(|b| !b),
            Cfg::All(v) => all(v, true),
            Cfg::Any(v) => all(v, false),
        }
    }
}

impl std::fmt::Display for Cfg {
    /// The form cargo normalises to
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        fn list(f: &mut std::fmt::Formatter<'_>, n: &str, v: &[Cfg]) -> std::fmt::Result {
            write!(f, "{n}(")?;
            for (i, c) in v.iter().enumerate() {
                if i > 0 {
                    f.write_str(", ")?;
                }
                write!(f, "{c}")?;
            }
            f.write_str(")")
        }
        match self {
            Cfg::Flag(s) => f.write_str(s),
            Cfg::KeyVal(k, v) => write!(f, "{k} = \"{v}\""),
            Cfg::Not(c) => write!(f, "not({c})"),
            Cfg::All(v) => list(f, "all", v),
            Cfg::Any(v) => list(f, "any", v),
        }
    }
}

/// What a `[target.<..>]` table is keyed by
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Plat {
    Cfg(Cfg),
    Triple(String),
}

impl std::fmt::Display for Plat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Plat::Cfg(c) => write!(f, "cfg({c})"),
            Plat::Triple(t) => f.write_str(t),
        }
    }
}

impl Plat {
    /// Whether a dependency limited to this platform survives the target filters
    pub fn survives(&self, filters: &[TFilter]) -> bool {
        match self {
            Plat::Cfg(c) => {
                if filters.is_empty() {
                    c.constant() != Some(false)
                } else {
                    filters.iter().any(|f| c.eval(f))
                }
            }
            Plat::Triple(t) => filters.is_empty() || filters.iter().any(|f| &f.triple == t),
        }
    }
}

/// Names of custom triples, which no rustc knows. What the documentation promises about them is only
/// that they select `[target.<triple>]` tables
pub const CUSTOM: [&str; 4] = [
    "my-custom-board",
    "x86_64-acme-kernel.json",
    "riscv99-foo-bar-baz",
    "x86_64-unknown-acmeos",
];

/// Triples rustc does not know, but target-lexicon can take apart
pub const LEXICON: [&str; 8] = [
    "x86_64-pc-linux-gnu",
    "x86_64-pc-linux",
    "i686-apple-linux-musl",
    "aarch64-uwp-windows",
    "aarch64-unknown-windows-gnu",
    "riscv64-unknown-none-elf",
    "x86_64-unknown-linux",
    "powerpc-pc-netbsd",
];

/// Beginnings of triples, or triples with something behind; they are others
pub const RELATED: [&str; 6] = [
    "x86_64-pc",
    "aarch64-apple",
    "my-custom",
    "x86_64-pc-windows-msvc2",
    "my-custom-boards",
    "x86_64-PC-linux-gnu",
];

pub const TFEATURES: [&str; 10] = [
    "atomics",
    "sse",
    "sse4.1",
    "sse4",
    "avx",
    "avx2",
    "neon",
    "crt-static",
    "bulk-memory",
    "Neon",
];

/// What target-lexicon makes of a triple that rustc does not know
#[cfg(feature = "targets")]
fn lexicon(triple: &str, pred: &Cfg) -> bool {
    use krates::cfg_expr::{Expression, Predicate};
    let Ok(t) = triple.parse::<krates::target_lexicon::Triple>() else {
        return false;
    };
    if !LEXICON.contains(&triple) {
        return false;
    }
    let e = Expression::parse(&format!("cfg({pred})")).expect("predicate");
    e.eval(|p| match p {
        Predicate::Target(tp) => tp.matches(&t),
        _ => false,
    })
}

#[cfg(not(feature = "targets"))]
fn lexicon(_: &str, _: &Cfg) -> bool {
    false
}

fn gen_pred(r: &mut Rng) -> Cfg {
    let kv = |k: &str, v: &str| Cfg::KeyVal(k.into(), v.into());
    match r.below(26) {
        0..=2 => Cfg::Flag("unix".into()),
        3..=5 => Cfg::Flag("windows".into()),
        6..=8 => kv(
            "target_os",
            r.pick(&[
                "linux",
                "macos",
                "windows",
                "android",
                "ios",
                "none",
                "wasi",
                "freebsd",
                "emscripten",
                "unknown",
                "uefi",
            ]),
        ),
        9..=10 => kv("target_family", r.pick(&["unix", "windows", "wasm"])),
        11..=12 => kv(
            "target_arch",
            r.pick(&[
                "x86_64",
                "x86",
                "aarch64",
                "arm",
                "wasm32",
                "riscv64",
                "powerpc64",
                "s390x",
                "mips64",
                "loongarch64",
            ]),
        ),
        13..=14 => kv("target_env", r.pick(&["gnu", "musl", "msvc", "", "sgx"])),
        15 => kv("target_endian", r.pick(&["little", "big"])),
        16 => kv("target_pointer_width", r.pick(&["32", "64"])),
        17 => kv(
            "target_vendor",
            r.pick(&["apple", "pc", "unknown", "fortanix"]),
        ),
        18 => kv(
            "target_has_atomic",
            r.pick(&["8", "16", "32", "64", "ptr", "128"]),
        ),
        19..=20 => kv("target_feature", r.pick(&TFEATURES)),
        21 => Cfg::Flag(r.pick(&["loom", "tokio_unstable", "docsrs"]).to_string()),
        22 => Cfg::Flag(r.pick(&["true", "false"]).to_string()),
        23 => kv(
            "target_abi",
            r.pick(&["", "eabi", "eabihf", "x32", "macabi"]),
        ),
        24 => kv("panic", r.pick(&["unwind", "abort"])),
        _ => match r.below(4) {
            0 => kv("feature", r.pick(&["std", "f1", "default"])),
            1 => kv("tokio", "true"),
            _ => Cfg::Flag(
                r.pick(&["test", "proc_macro", "debug_assertions", "True", "unixx"])
                    .to_string(),
            ),
        },
    }
}

/// Every subexpression has a predicate: cfg-expr, which is a dependency and not part of what is checked, does not
/// count an empty `any()`/`all()` as an operand of `all()`/`any()`
pub fn gen_cfg(r: &mut Rng, depth: usize) -> Cfg {
    if depth == 0 || r.pct(45) {
        return gen_pred(r);
    }
    match r.below(3) {
        0 => Cfg::Not(Box::new(gen_cfg(r, depth - 1))),
        1 => {
            let n = *r.pick(&[1, 2, 2, 3]);
            Cfg::All((0..n).map(|_| gen_cfg(r, depth - 1)).collect())
        }
        _ => {
            let n = *r.pick(&[1, 2, 2, 3]);
            Cfg::Any((0..n).map(|_| gen_cfg(r, depth - 1)).collect())
        }
    }
}

pub fn gen_plat(r: &mut Rng) -> Plat {
    match r.below(10) {
        0..=1 => Plat::Triple(r.pick(targets()).triple.to_string()),
        2 => Plat::Triple(match r.below(4) {
            0 | 1 => r.pick(&CUSTOM).to_string(),
            2 => r.pick(&LEXICON).to_string(),
            _ => r.pick(&RELATED).to_string(),
        }),
        3..=5 => Plat::Cfg(gen_pred(r)),
        6 => Plat::Cfg(match r.below(4) {
            0 => Cfg::Any(vec![]),
            1 => Cfg::All(vec![]),
            2 => Cfg::Not(Box::new(Cfg::Any(vec![]))),
            _ => Cfg::Not(Box::new(Cfg::All(vec![]))),
        }),
        _ => Plat::Cfg(gen_cfg(r, 3)),
    }
}

/// A condition that only looks like the other one, or one written differently that means the same
pub fn near_plat(r: &mut Rng, p: &Plat) -> Plat {
    fn upper(c: &Cfg) -> Cfg {
        let many = |v: &[Cfg]| v.iter().map(upper).collect();
        match c {
            // `FALSE` is a flag like any other
            Cfg::Flag(f) => Cfg::Flag(f.to_uppercase()),
            Cfg::KeyVal(k, v)
                if matches!(
                    k.as_str(),
                    "target_os" | "target_env" | "target_vendor" | "target_feature" | "target_abi"
                ) =>
            {
                Cfg::KeyVal(k.clone(), v.to_uppercase())
            }
            Cfg::KeyVal(..) => c.clone(),
            Cfg::Not(c) => Cfg::Not(Box::new(upper(c))),
            Cfg::All(v) => Cfg::All(many(v)),
            Cfg::Any(v) => Cfg::Any(many(v)),
        }
    }
    match p {
        Plat::Cfg(c) => Plat::Cfg(match r.below(4) {
            0 => Cfg::All(vec![c.clone()]),
            1 => Cfg::Any(vec![c.clone()]),
            _ => upper(c),
        }),
        Plat::Triple(t) => Plat::Triple(match t.rsplit_once('-') {
            Some((a, _)) if r.pct(50) => a.to_string(),
            _ => format!("{t}x"),
        }),
    }
}

pub fn gen_filters(r: &mut Rng, pool: &[Plat]) -> Vec<TFilter> {
    let n = *r.pick(&[1, 1, 1, 2, 2, 3]);
    let triples: Vec<&String> = pool
        .iter()
        .filter_map(|p| match p {
            // triples rustc no longer has are only known to target-lexicon
            Plat::Triple(t)
                if targets().iter().any(|x| x.triple == t)
                    || CUSTOM.contains(&t.as_str())
                    || LEXICON.contains(&t.as_str()) =>
            {
                Some(t)
            }
            _ => None,
        })
        .collect();
    // others that begin as one of those that occur
    let near: Vec<&str> = targets()
        .iter()
        .map(|t| t.triple)
        .chain(CUSTOM)
        .chain(LEXICON)
        .filter(|t| {
            pool.iter().any(|p| match p {
                Plat::Triple(x) => x != t && (t.starts_with(x.as_str()) || x.starts_with(t)),
                Plat::Cfg(_) => false,
            })
        })
        .collect();
    (0..n)
        .map(|_| {
            let triple = if !near.is_empty() && r.pct(15) {
                r.pick(&near).to_string()
            } else if !triples.is_empty() && r.pct(30) {
                (*r.pick(&triples)).clone()
            } else if r.pct(6) {
                r.pick(&CUSTOM).to_string()
            } else if r.pct(8) {
                r.pick(&LEXICON).to_string()
            } else if r.pct(50) {
                r.pick(&[
                    "x86_64-unknown-linux-gnu",
                    "x86_64-pc-windows-msvc",
                    "aarch64-apple-darwin",
                    "wasm32-unknown-unknown",
                ])
                .to_string()
            } else {
                r.pick(targets()).triple.to_string()
            };
            let k = *r.pick(&[0, 0, 0, 1, 2]);
            let features = (0..k).map(|_| r.pick(&TFEATURES).to_string()).collect();
            TFilter { triple, features }
        })
        .collect()
}

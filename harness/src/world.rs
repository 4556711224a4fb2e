//! Random package worlds: what manifests declare, before any resolution.

use crate::cfgx::{self, Plat};
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Normal,
    Dev,
    Build,
}

impl Kind {
    pub const ALL: [Kind; 3] = [Kind::Normal, Kind::Dev, Kind::Build];

    pub fn krates(self) -> krates::DepKind {
        match self {
            Kind::Normal => krates::DepKind::Normal,
            Kind::Dev => krates::DepKind::Dev,
            Kind::Build => krates::DepKind::Build,
        }
    }

    pub fn of(k: krates::DepKind) -> Self {
        match k {
            krates::DepKind::Normal => Kind::Normal,
            krates::DepKind::Dev => Kind::Dev,
            krates::DepKind::Build => Kind::Build,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum GitRef {
    Default,
    Branch(String),
    Tag(String),
    Rev(String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Src {
    /// absolute directory, with `/` as separator (`D:/ws/a` on windows)
    Path { dir: String },
    /// full source, `registry+https://...` or `sparse+https://..`
    Registry { url: String },
    Git {
        url: String,
        refr: GitRef,
        rev: String,
    },
}

#[derive(Clone, Debug)]
pub struct Lib {
    /// `[lib] name`
    pub name: Option<String>,
    /// `lib`, `rlib`, `proc-macro`...; empty for a package without a library
    pub kinds: Vec<&'static str>,
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub to: usize,
    pub rename: Option<String>,
    pub kind: Kind,
    pub plat: Option<Plat>,
    pub optional: bool,
    pub default_features: bool,
    pub features: Vec<String>,
    pub req: String,
    /// declared as a registry dependency, but replaced through `[patch]`
    pub patched: bool,
}

#[derive(Clone, Debug)]
pub struct Pkg {
    pub name: String,
    pub version: String,
    pub src: Src,
    pub lib: Lib,
    pub decls: Vec<Decl>,
    /// explicit `[features]`
    pub features: BTreeMap<String, Vec<String>>,
}

/// features requested for a member
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Select {
    All,
    Default,
    /// features, and whether `default` is on
    Some(Vec<String>, bool),
}

#[derive(Clone, Debug)]
pub struct World {
    pub pkgs: Vec<Pkg>,
    /// indices of the workspace members, all with a path source
    pub members: Vec<usize>,
    /// the package of the manifest cargo was run for, unless that is virtual
    pub root: Option<usize>,
    pub select: BTreeMap<usize, Select>,
    pub ws_root: String,
    pub windows: bool,
    /// if not empty, `cargo metadata --filter-platform`
    pub filter_platform: Vec<String>,
}

pub fn crates_io() -> String {
    "registry+https://github.com/rust-lang/crates.io-index".into()
}

impl Pkg {
    pub fn lib_name(&self) -> String {
        match &self.lib.name {
            Some(n) => n.clone(),
            None => self.name.replace('-', "_"),
        }
    }

    pub fn has_lib(&self) -> bool {
        !self.lib.kinds.is_empty()
    }

    pub fn toml_name<'a>(&'a self, d: &'a Decl, w: &'a World) -> &'a str {
        d.rename.as_deref().unwrap_or(&w.pkgs[d.to].name)
    }
}

impl World {
    pub fn toml(&self, d: &Decl) -> String {
        d.rename
            .clone()
            .unwrap_or_else(|| self.pkgs[d.to].name.clone())
    }

    pub fn extern_name(&self, d: &Decl) -> String {
        match &d.rename {
            Some(r) => r.replace('-', "_"),
            None => self.pkgs[d.to].lib_name(),
        }
    }

    /// optional dependencies that are referred to as `dep:` somewhere, and so have no implicit feature
    fn hidden(&self, p: usize) -> BTreeSet<String> {
        self.pkgs[p]
            .features
            .values()
            .flatten()
            .filter_map(|v| v.strip_prefix("dep:").map(|s| s.to_string()))
            .collect()
    }

    /// Every feature of a package, with the implicit ones, as cargo metadata lists them
    pub fn all_features(&self, p: usize) -> BTreeMap<String, Vec<String>> {
        let mut f = self.pkgs[p].features.clone();
        let hidden = self.hidden(p);
        for d in &self.pkgs[p].decls {
            if d.optional {
                let t = self.toml(d);
                if !hidden.contains(&t) && !f.contains_key(&t) {
                    f.insert(t.clone(), vec![format!("dep:{t}")]);
                }
            }
        }
        f
    }
}

#[derive(Clone, Copy, Debug)]
pub struct GenOpts {
    pub min: usize,
    pub max: usize,
    pub git: bool,
    pub plats: bool,
    pub windows: bool,
    /// the same name in the manifest for different packages, under different kinds/platforms
    pub shared_toml: bool,
    /// renames that shadow the name of another package
    pub shadow: bool,
    /// make libraries rename themselves
    pub lib_rename: bool,
    /// only what cargo accepts when the world is written to disk with path dependencies
    pub path_only: bool,
    pub dense_features: bool,
    /// replaced sources
    pub patch: bool,
    /// how likely a declaration is of a package declared before, for a platform, optional, and how likely a
    /// feature of an optional dependency is a weak one
    pub same: u32,
    pub plat: u32,
    pub optional: u32,
    pub weak: u32,
    /// many declarations and features for a package
    pub wide: bool,
    /// conditions that cargo itself evaluates
    pub evaluated: bool,
}

impl Default for GenOpts {
    fn default() -> Self {
        Self {
            min: 2,
            max: 11,
            git: true,
            plats: true,
            windows: true,
            shared_toml: true,
            shadow: true,
            lib_rename: true,
            path_only: false,
            dense_features: false,
            patch: true,
            same: 22,
            plat: 32,
            optional: 40,
            weak: 55,
            wide: false,
            evaluated: false,
        }
    }
}

const NAMES: [&str; 28] = [
    "a",
    "b",
    "foo",
    "foo-bar",
    "foo_baz",
    "serde",
    "serde_derive",
    "tokio",
    "log",
    "cc",
    "libc",
    "windows-sys",
    "ring",
    "rand",
    "rand_core",
    "x1",
    "md-5",
    "zstd-sys",
    "A",
    "Inflector",
    "ab",
    "a-b",
    "net2",
    "hyper-util",
    "std",
    "core-foundation",
    "foo_bar",
    "a_b",
];

const FEATS: [&str; 18] = [
    "std",
    "alloc",
    "serde",
    "full",
    "extra",
    "b-x",
    "c_y",
    "f1",
    "f2",
    "f3",
    "1st",
    "with.dot",
    "plus+one",
    "Upper",
    "foo",
    "default-tls",
    "no_default",
    "dep",
];

const VERSIONS: [&str; 12] = [
    "0.1.0",
    "0.2.3",
    "1.0.0",
    "1.2.3",
    "2.0.0-rc.1",
    "3.0.0-alpha.2+meta",
    "4.0.0+build.5",
    "0.0.7",
    "10.20.30",
    "0.10.0",
    "0.9.1",
    "5.0.0-beta",
];

const BRANCHES: [&str; 8] = [
    "main",
    "feature/x",
    "release-1.0",
    "a#b",
    "v1+x",
    "user/name@1",
    "dev,2",
    "under_score.z",
];

/// the part of a version a caret requirement holds fixed
fn compat_class(v: &str) -> String {
    let v = krates::semver::Version::parse(v).unwrap();
    if v.major > 0 {
        format!("{}", v.major)
    } else if v.minor > 0 {
        format!("0.{}", v.minor)
    } else {
        format!("0.0.{}", v.patch)
    }
}

fn gen_req(r: &mut Rng, v: &str, versionless_ok: bool) -> String {
    let ver = krates::semver::Version::parse(v).unwrap();
    let pre = !ver.pre.is_empty();
    let base = {
        let mut b = ver.clone();
        b.build = Default::default();
        b.to_string()
    };
    if versionless_ok && r.pct(35) {
        return "*".into();
    }
    match r.below(6) {
        0 => format!("={base}"),
        1 if !pre => "*".into(),
        2 if !pre => format!(">={}.{}.0", ver.major, ver.minor),
        3 if !pre => format!("~{}.{}", ver.major, ver.minor),
        4 => format!(">={base}, <100.0.0"),
        _ => format!("^{base}"),
    }
}

fn hexrev(r: &mut Rng) -> String {
    let mut s = String::new();
    while s.len() < 40 {
        s.push_str(&format!("{:016x}", r.next()));
    }
    s.truncate(40);
    s
}

pub fn gen_world(r: &mut Rng, o: &GenOpts) -> World {
    let n = r.range(o.min, o.max);
    let windows = o.windows && !o.path_only && r.pct(8);
    let ws_root: String = if windows {
        r.pick(&["D:/a/ws", "C:/Users/me/proj", "C:/Users/J. Doe/proj"])
            .to_string()
    } else {
        r.pick(&[
            "/work/ws",
            "/home/u/my-proj",
            "/w",
            "/home/u/my projects/é",
            "/srv/50% #1 (a+b)[x]",
        ])
        .to_string()
    };

    let n_path = if o.path_only {
        n
    } else {
        r.range(1, n.min(1 + n / 2))
    };

    let mut w = World {
        pkgs: Vec::new(),
        members: Vec::new(),
        root: None,
        select: BTreeMap::new(),
        ws_root: ws_root.clone(),
        windows,
        filter_platform: Vec::new(),
    };

    let regs = [
        crates_io(),
        crates_io(),
        crates_io(),
        crates_io(),
        "registry+https://example.com/my-index".to_string(),
        "sparse+https://sparse.example.com/index/".to_string(),
    ];
    // A few git repositories
    let mut repos: Vec<(String, GitRef, String)> = (0..3)
        .map(|_| {
            let url = r
                .pick(&[
                    "https://github.com/org/foo",
                    "https://github.com/org/foo-bar.git",
                    "ssh://git@example.com/team/serde",
                    "https://gitlab.com/g/sub/mono",
                ])
                .to_string();
            let rev = hexrev(r);
            let refr = match r.below(5) {
                0 | 1 => GitRef::Default,
                2 => GitRef::Branch(r.pick(&BRANCHES).to_string()),
                3 => GitRef::Tag(r.pick(&["v1.0", "rel/2.0", "1.0.0"]).to_string()),
                _ => GitRef::Rev(rev[..7].to_string()),
            };
            (url, refr, rev)
        })
        .collect();

    // one revision for each reference
    let mut seen = BTreeSet::new();
    repos.retain(|(u, g, _)| seen.insert((u.clone(), g.clone())));

    let root_in_ws_root = r.pct(30);

    // identities
    for i in 0..n {
        for attempt in 0.. {
            let name = if !w.pkgs.is_empty() && r.pct(22) {
                r.pick(&w.pkgs).name.clone()
            } else {
                r.pick(&NAMES).to_string()
            };
            let name = if attempt > 12 {
                format!("{name}{i}")
            } else {
                name
            };
            let version = r.pick(&VERSIONS).to_string();
            let src = if i < n_path {
                if i == 0 && root_in_ws_root {
                    Src::Path {
                        dir: ws_root.clone(),
                    }
                } else {
                    let d = match r.below(5) {
                        0 => name.clone(),
                        1 => format!("crates/{name}"),
                        2 => r
                            .pick(&[
                                format!("v1.0/{name}"),
                                format!("{name}.rs"),
                                format!("{name}-1.x"),
                                format!("my {name}"),
                                format!("{name}@1"),
                                format!("Cargo.toml.d/{name}"),
                            ])
                            .clone(),
                        _ => format!("p{i}"),
                    };
                    Src::Path {
                        dir: format!("{ws_root}/{d}"),
                    }
                }
            } else if o.git && r.pct(28) {
                let (url, refr, rev) = r.pick(&repos).clone();
                Src::Git { url, refr, rev }
            } else {
                Src::Registry {
                    url: r.pick(&regs).clone(),
                }
            };

            let clash = w.pkgs.iter().any(|p| {
                if let (Src::Path { dir: a }, Src::Path { dir: b }) = (&p.src, &src) {
                    return a == b || (p.name == name && p.version == version);
                }
                if p.name != name || p.src != src {
                    // two revisions of one git reference cannot be
                    return false;
                }
                match &src {
                    Src::Git { .. } => true,
                    _ => compat_class(&p.version) == compat_class(&version),
                }
            });
            if clash {
                continue;
            }

            let lib = Lib {
                name: (o.lib_rename && r.pct(14)).then(|| {
                    match r.below(3) {
                        0 => format!("{}_lib", name.replace('-', "_")),
                        1 => r.pick(&NAMES).replace('-', "_"),
                        _ => name.replace(['-', '_'], ""),
                    }
                    .replace("std", "stdx")
                }),
                kinds: match r.below(20) {
                    0 | 1 => vec!["proc-macro"],
                    2 => vec!["cdylib", "rlib"],
                    3 => vec!["rlib"],
                    4 if i != 0 => vec![],
                    5 => vec!["lib", "cdylib", "staticlib"],
                    6 => vec!["dylib"],
                    _ => vec!["lib"],
                },
            };
            w.pkgs.push(Pkg {
                name,
                version,
                src,
                lib,
                decls: vec![],
                features: BTreeMap::new(),
            });
            break;
        }
    }

    // members: path packages; a path package may also live outside of the workspace
    for i in 0..n_path {
        // cargo does not take two members of one name
        let twin = w.members.iter().any(|m| w.pkgs[*m].name == w.pkgs[i].name);
        if !twin && (i == 0 || r.pct(60)) {
            w.members.push(i);
        }
    }

    let mut platpool: Vec<Plat> = (0..4).map(|_| cfgx::gen_plat(r)).collect();
    if r.pct(25) {
        platpool[0] = cfgx::near_plat(r, &platpool[1]);
    }
    if o.evaluated {
        // for cargo it is on, with a warning that it should not be used
        for p in &mut platpool {
            while p.to_string().contains("debug_assertions") {
                *p = cfgx::gen_plat(r);
            }
        }
    }

    for p in (0..n).rev() {
        gen_decls(r, o, &mut w, p, false, &platpool);
        gen_features(r, o, &mut w, p);
    }
    for p in 0..n {
        if r.pct(if w.members.contains(&p) { 60 } else { 15 }) {
            gen_decls(r, o, &mut w, p, true, &platpool);
        }
    }

    // selection
    for &m in &w.members.clone() {
        let s = match r.below(10) {
            0..=3 => Select::Default,
            4..=6 => Select::All,
            _ => {
                let all: Vec<String> = w.all_features(m).into_keys().collect();
                let k = r.below(3);
                let mut v = vec![];
                if !all.is_empty() {
                    for _ in 0..k {
                        v.push(r.pick(&all).clone());
                    }
                }
                Select::Some(v, r.pct(50))
            }
        };
        w.select.insert(m, s);
    }

    w.root = match &w.pkgs[0].src {
        Src::Path { dir } if *dir == w.ws_root => Some(0),
        _ if r.pct(35) => Some(*r.pick(&w.members)),
        _ => None,
    };
    if o.plats && r.pct(6) {
        w.filter_platform = vec![r.pick(cfgx::targets()).triple.to_string()];
    }
    w
}

fn allowed_target(w: &World, p: usize, q: usize) -> bool {
    match (&w.pkgs[p].src, &w.pkgs[q].src) {
        (Src::Path { .. }, _) => true,
        (_, Src::Path { .. }) => false,
        (Src::Git { .. }, _) => true,
        (Src::Registry { .. }, Src::Registry { .. }) => true,
        _ => false,
    }
}

fn gen_decls(r: &mut Rng, o: &GenOpts, w: &mut World, p: usize, dev: bool, platpool: &[Plat]) {
    let n = w.pkgs.len();
    let is_member = w.members.contains(&p);
    let cand: Vec<usize> = (0..n)
        .filter(|&q| if dev { is_member || q > p } else { q > p })
        .filter(|&q| allowed_target(w, p, q) || (o.patch && r.pct(8)))
        .collect();
    if cand.is_empty() {
        return;
    }
    let k = if o.wide && r.pct(15) {
        r.range(20, 90)
    } else if dev {
        r.range(1, 2)
    } else {
        r.range(
            0,
            if o.same > 40 {
                6
            } else {
                4.min(cand.len() + 1)
            },
        )
    };
    for _ in 0..k {
        let prev: Vec<usize> = w.pkgs[p].decls.iter().map(|d| d.to).collect();
        let q = if !prev.is_empty() && r.pct(o.same) {
            *r.pick(&prev)
        } else {
            *r.pick(&cand)
        };
        let kind = if dev {
            Kind::Dev
        } else if r.pct(22) {
            Kind::Build
        } else {
            Kind::Normal
        };
        if !dev && q <= p {
            continue;
        }
        let plat = (o.plats && r.pct(o.plat)).then(|| r.pick(platpool).clone());
        let platkey = plat.as_ref().map(|p| p.to_string());

        // the name in the manifest: the same for each declaration of the same package
        let same = w.pkgs[p].decls.iter().find(|d| d.to == q);
        let rename = if let Some(d) = same {
            d.rename.clone()
        } else if r.pct(16) {
            Some(match r.below(if o.shadow { 4 } else { 2 }) {
                0 => format!("{}-alias", w.pkgs[q].name),
                1 => format!("{}_renamed", w.pkgs[q].name.replace('-', "_")),
                2 => r.pick(&w.pkgs).name.clone(),
                _ => r.pick(&NAMES).to_string(),
            })
        } else {
            None
        };
        let mut rename = rename.filter(|x| x != &w.pkgs[q].name);
        if rename.is_none() && r.pct(4) && w.pkgs[q].lib.name.is_none() {
            // `foo = { package = "foo" }`
            rename = Some(w.pkgs[q].name.clone());
        }

        let patched = !allowed_target(w, p, q)
            || (o.patch && !matches!(w.pkgs[q].src, Src::Registry { .. }) && r.pct(10));

        let mut ok = false;
        for attempt in 0..2 {
            let toml = rename.clone().unwrap_or_else(|| w.pkgs[q].name.clone());
            let ext = match &rename {
                Some(x) => x.replace('-', "_"),
                None => w.pkgs[q].lib_name(),
            };
            // declarations of other packages that clash with this
            let bad = w.pkgs[p].decls.iter().any(|d| {
                let t = w.toml(d);
                let same_table =
                    d.kind == kind && d.plat.as_ref().map(|p| p.to_string()) == platkey;
                if d.to == q {
                    return same_table;
                }
                if t == toml {
                    let referred = || {
                        w.pkgs[p].features.values().flatten().any(|v| {
                            v.split_once('/')
                                .is_some_and(|(x, _)| x.trim_end_matches('?') == t)
                        })
                    };
                    // cargo wants the same source for each of them
                    let (a, b) = (&w.pkgs[d.to].src, &w.pkgs[q].src);
                    return same_table
                        || !o.shared_toml
                        || matches!(b, Src::Path { .. })
                        || a != b
                        || d.patched != patched
                        || (dev && referred());
                }
                w.extern_name(d) == ext || t.replace('-', "_") == toml.replace('-', "_")
            });
            if !bad {
                ok = true;
                break;
            }
            if attempt == 0 && same.is_none() {
                rename = Some(format!("{}-alt{q}", w.pkgs[q].name));
            } else {
                break;
            }
        }
        if !ok {
            continue;
        }

        // metadata does not tell which one it is then
        let same_name = |q: usize| {
            w.pkgs[p]
                .decls
                .iter()
                .any(|d| d.to != q && w.pkgs[d.to].name == w.pkgs[q].name)
        };
        let vague = w.pkgs[p]
            .decls
            .iter()
            .any(|d| d.to == p && d.patched && d.rename.is_some());
        if (q == p && patched && rename.is_some() && same_name(p))
            || (vague && q != p && w.pkgs[q].name == w.pkgs[p].name)
        {
            continue;
        }

        let named_default = r.pct(10);
        let qf: Vec<String> = w
            .all_features(q)
            .into_keys()
            .filter(|f| named_default || f != "default")
            .collect();
        let mut features = Vec::new();
        if !qf.is_empty() && r.pct(45) {
            for _ in 0..r.range(1, 2) {
                let f = r.pick(&qf).clone();
                if !features.contains(&f) || r.pct(20) {
                    features.push(f);
                }
            }
        }
        let req = gen_req(
            r,
            &w.pkgs[q].version,
            !patched && !matches!(w.pkgs[q].src, Src::Registry { .. }),
        );
        let d = Decl {
            to: q,
            rename,
            kind,
            plat,
            optional: kind != Kind::Dev && r.pct(o.optional),
            default_features: r.pct(75),
            features,
            req,
            patched,
        };
        w.pkgs[p].decls.push(d);
    }
}

fn gen_features(r: &mut Rng, o: &GenOpts, w: &mut World, p: usize) {
    let tomls: BTreeSet<String> = w.pkgs[p].decls.iter().map(|d| w.toml(d)).collect();
    let opt: Vec<String> = w.pkgs[p]
        .decls
        .iter()
        .filter(|d| d.optional)
        .map(|d| w.toml(d))
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
    let hidden: Vec<String> = opt.iter().filter(|_| r.pct(45)).cloned().collect();
    let visible: Vec<String> = opt
        .iter()
        .filter(|x| !hidden.contains(x))
        .cloned()
        .collect();

    let mut names: Vec<String> = Vec::new();
    if r.pct(50) {
        names.push("default".into());
    }
    for h in &hidden {
        if r.pct(50) {
            names.push(h.clone());
        }
    }
    let k = if o.dense_features {
        r.range(2, 6)
    } else {
        r.range(0, 4)
    };
    for _ in 0..k {
        names.push(r.pick(&FEATS).to_string());
    }
    if o.wide && r.pct(15) {
        for i in 0..r.range(20, 90) {
            names.push(format!("w{i}"));
        }
    }
    if !hidden.is_empty() && names.is_empty() {
        names.push("f1".into());
    }
    // a feature may have the name of a dependency, as long as that is not optional
    for t in &tomls {
        if r.pct(8) {
            names.push(t.clone());
        }
    }
    names.retain(|x| !opt.contains(x) || hidden.contains(x));
    names.sort();
    names.dedup();
    if names.is_empty() {
        if hidden.is_empty() {
            return;
        }
        names.push("needs-dep".into());
    }

    let to_default = r.pct(10);
    let simple: Vec<String> = names
        .iter()
        .chain(&visible)
        .filter(|x| to_default || *x != "default")
        .cloned()
        .collect();
    // (toml name, features every package behind that name has)
    let mut subs: Vec<(String, Vec<String>, bool)> = Vec::new();
    for t in &tomls {
        let mut common: Option<BTreeSet<String>> = None;
        for d in &w.pkgs[p].decls {
            if &w.toml(d) == t {
                let f: BTreeSet<String> = w.all_features(d.to).into_keys().collect();
                common = Some(match common {
                    None => f,
                    Some(c) => c.intersection(&f).cloned().collect(),
                });
            }
        }
        let v: Vec<String> = common.unwrap_or_default().into_iter().collect();
        subs.push((t.clone(), v, opt.contains(t)));
    }

    let mut feats: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for n in &names {
        let mut v: Vec<String> = Vec::new();
        for _ in 0..r.range(0, 4) {
            let x = match r.below(10) {
                0..=2 if !simple.is_empty() => r.pick(&simple).clone(),
                3..=4 if !hidden.is_empty() => format!("dep:{}", r.pick(&hidden)),
                _ => {
                    if subs.is_empty() {
                        continue;
                    }
                    let (t, fs, is_opt) = r.pick(&subs);
                    if fs.is_empty() {
                        continue;
                    }
                    let f = r.pick(fs);
                    if *is_opt && r.pct(o.weak) {
                        format!("{t}?/{f}")
                    } else {
                        format!("{t}/{f}")
                    }
                }
            };
            if &x != n && !v.contains(&x) {
                v.push(x);
            }
        }
        feats.insert(n.clone(), v);
    }
    for h in &hidden {
        let d = format!("dep:{h}");
        if !feats.values().any(|v| v.contains(&d)) {
            let key = if feats.contains_key(h) {
                h.clone()
            } else {
                r.pick(&names).clone()
            };
            feats.get_mut(&key).unwrap().push(d);
        }
    }
    // an explicit feature with the name of a dependency has to mention that dependency through `dep:`, which
    // the loop above has guaranteed; feature cycles are fine for cargo, direct self reference is not
    w.pkgs[p].features = feats;
}

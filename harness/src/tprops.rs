//! Monitors for the parts that read text: package ids, package specs and features.

use crate::obs::guard;
use crate::rng::Rng;
use crate::runner::Stats;
use krates::cm::PackageId;
use krates::{Feature, Kid, ParsedFeature, PkgSpec};
use serde_json::{Value, json};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};

type R = Result<(), String>;

const NAMES: &[&str] = &[
    "a",
    "b",
    "serde",
    "serde_json",
    "foo-bar",
    "foo_bar",
    "Foo",
    "x1",
    "crates-io",
    "_x",
    "1abc",
    "cargo",
    "index",
    "foo",
    "foo-",
    "fo",
    "aB-c_9",
    "git",
    "v1",
    "repo",
];
const VERSIONS: &[&str] = &[
    "0.0.0",
    "1.0.0",
    "1.0.1",
    "1.0.10",
    "1.0.2",
    "10.0.0",
    "2.0.0",
    "0.1.0-alpha.1",
    "1.0.0-rc.1+build.5",
    "1.0.0+zstd.1.5",
    "0.0.1-0.a-b",
    "1.0.0-beta",
    "1.0.0+7",
    "18446744073709551615.0.0",
];

pub fn name(r: &mut Rng) -> String {
    if r.pct(75) {
        return r.pick(NAMES).to_string();
    }
    let n = r.range(1, 8);
    (0..n)
        .map(|_| *r.pick(b"abcxyzABZ0189-_") as char)
        .collect()
}

fn version(r: &mut Rng) -> String {
    if r.pct(70) {
        return r.pick(VERSIONS).to_string();
    }
    let mut s = format!("{}.{}.{}", r.below(30), r.below(30), r.below(30));
    if r.pct(25) {
        s += r.pick(&["-alpha", "-alpha.1", "-rc.1.x", "--", "-0"]);
    }
    if r.pct(25) {
        s += r.pick(&["+1", "+a.b-c", "+00"]);
    }
    s
}

/// a branch or tag, which may have anything that git allows
fn git_ref(r: &mut Rng) -> String {
    let n = r.range(1, 12);
    (0..n)
        .map(|_| *r.pick(b"abcdefXYZ0123456789---__..////!\"#$%&'()*+,;<=>@]`{|}") as char)
        .collect()
}

/// what can appear in the query of a url without being encoded, see `form_urlencoded`
fn encode_query(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'*' => {
                o.push(b as char)
            }
            _ => o += &format!("%{b:02X}"),
        }
    }
    o
}

fn host(r: &mut Rng) -> String {
    r.pick(&[
        "github.com",
        "example.com",
        "git.example.com:8080",
        "git@host.org",
        "localhost",
        "127.0.0.1:80",
    ])
    .to_string()
}

fn path(r: &mut Rng, last: Option<&str>) -> String {
    let mut v: Vec<String> = (0..r.range(0, 3))
        .map(|_| match r.below(6) {
            0 => "a+b".into(),
            1 => "my%20dir".into(),
            2 => "v1.0@x".into(),
            3 => "C:".into(),
            _ => name(r),
        })
        .collect();
    v.push(match last {
        Some(l) => l.to_string(),
        None => name(r),
    });
    v.join("/")
}

#[derive(Clone, Debug)]
pub struct PkgId {
    pub name: String,
    pub version: String,
    /// kind+url with the query as it is written in manifests
    pub source: String,
    /// the source as it is in the stable format
    pub encoded: String,
    pub rev: Option<String>,
    pub last: String,
    /// what comes after the kind, without the query
    pub url: String,
    pub git: bool,
    pub path: bool,
}

pub fn pkg_id(r: &mut Rng) -> PkgId {
    let n = name(r);
    let version = version(r);
    let same = r.pct(50);
    let mut last = if same { n.clone() } else { name(r) };
    let (mut query, mut equery) = (String::new(), String::new());
    let (kind, url, rev) = match r.below(10) {
        0..=3 => {
            let p = path(r, Some(&last));
            ("path", format!("file:///{p}"), None)
        }
        4..=6 => {
            if r.pct(40) {
                last += ".git";
            }
            let p = path(r, Some(&last));
            let scheme = *r.pick(&["https", "ssh", "git", "http", "file"]);
            let url = format!("{scheme}://{}/{p}", host(r));
            if r.pct(70) {
                let k = *r.pick(&["branch", "tag", "rev"]);
                let v = if r.pct(50) { git_ref(r) } else { name(r) };
                query = format!("?{k}={v}");
                equery = format!("?{k}={}", encode_query(&v));
                if r.pct(15) {
                    equery = equery.replace("%2F", "%2f").replace("%2C", "%2c");
                }
            }
            let hex: String = (0..40)
                .map(|_| *r.pick(b"0123456789abcdef") as char)
                .collect();
            ("git", url, Some(hex))
        }
        _ => {
            let (k, u) = *r.pick(&[
                ("registry", "https://github.com/rust-lang/crates.io-index"),
                ("registry", "https://dl.example.com/index"),
                ("sparse", "https://index.crates.io/"),
                ("sparse", "https://sparse.example.com/a/index/"),
            ]);
            last = u.rsplit('/').next().unwrap().to_string();
            (k, u.to_string(), None)
        }
    };
    PkgId {
        name: n,
        version,
        source: format!("{kind}+{url}{query}"),
        encoded: format!("{kind}+{url}{equery}"),
        rev,
        last,
        url,
        git: kind == "git",
        path: kind == "path",
    }
}

impl PkgId {
    pub fn opaque(&self) -> String {
        let rev = self
            .rev
            .as_ref()
            .map(|r| format!("#{r}"))
            .unwrap_or_default();
        format!("{} {} ({}{rev})", self.name, self.version, self.source)
    }

    /// as printed by cargo since 1.77
    pub fn stable(&self) -> String {
        if self.last == self.name {
            format!("{}#{}", self.encoded, self.version)
        } else {
            format!("{}#{}@{}", self.encoded, self.name, self.version)
        }
    }

    /// the name is always allowed
    pub fn stable_full(&self) -> String {
        format!("{}#{}@{}", self.encoded, self.name, self.version)
    }
}

fn kid(s: &str) -> Result<Kid, String> {
    guard(|| {
        Kid::from(PackageId {
            repr: s.to_string(),
        })
    })
    .map_err(|p| format!("panic for id '{s}': {p}"))
}

fn hash(k: &Kid) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

/// what a kid has to tell
type Triple = (String, String, String);

fn check_kid(s: &str, p: &PkgId) -> Result<(Kid, Triple), String> {
    let k = kid(s)?;
    let want = (p.name.clone(), p.version.clone(), p.source.clone());
    let got = (
        k.name().to_string(),
        k.version().to_string(),
        k.source().to_string(),
    );
    if got != want {
        return Err(format!(
            "id '{s}' is taken apart as {got:?} instead of {want:?}"
        ));
    }
    if !s.contains('%') && k.to_string() != s {
        return Err(format!("id '{s}' is displayed as '{k}'"));
    }
    if k.to_string() != k.repr {
        return Err(format!(
            "id '{s}' is displayed as '{k}', but is '{}'",
            k.repr
        ));
    }
    let dbg = format!("{k:?}");
    if !dbg.contains(&format!("{:?}", p.name)) || !dbg.contains(&format!("{:?}", p.version)) {
        return Err(format!("id '{s}' has the debug output '{dbg}'"));
    }
    Ok((k, want))
}

pub fn kids(seed: u64, st: &mut Stats) -> R {
    let mut r = Rng::new(seed);
    let base = pkg_id(&mut r);
    let mut v: Vec<(Kid, Triple)> = Vec::new();
    let mut strs = Vec::new();
    for i in 0..8 {
        // alike ids, since only those tell something about the order
        let mut p = if i == 0 || r.pct(60) {
            base.clone()
        } else {
            pkg_id(&mut r)
        };
        if i > 0 {
            match r.below(5) {
                0 => p.version = version(&mut r),
                1 => {
                    p.name = name(&mut r);
                    if p.path && r.pct(50) {
                        p.name = p.last.clone();
                    }
                }
                2 if p.rev.is_some() => {
                    p.rev = Some("0123456789abcdef0123456789abcdef01234567".into())
                }
                3 => {
                    let q = pkg_id(&mut r);
                    p = PkgId {
                        name: p.name,
                        version: p.version,
                        ..q
                    };
                }
                _ => {}
            }
        }
        let s = match r.below(4) {
            0 | 1 => p.stable(),
            2 => p.stable_full(),
            _ => p.opaque(),
        };
        // the stable form has encoded sources that are only decoded for git
        st.hit(match (s.contains(' '), p.git, p.path) {
            (true, ..) => "opaque ids",
            (_, true, _) if p.encoded.contains('%') => "stable git ids with an encoded reference",
            (_, true, _) => "stable git ids",
            (_, _, true) => "stable path ids",
            _ => "stable registry ids",
        });
        v.push(check_kid(&s, &p)?);
        strs.push(s);
    }
    st.print(strs.join("|").as_bytes());
    st.sample(|| json!(strs));

    // order, equality and hash
    for (i, (a, ta)) in v.iter().enumerate() {
        for (j, (b, tb)) in v.iter().enumerate() {
            let c = a.cmp(b);
            st.hit("pairs compared");
            if c != ta.cmp(tb) {
                return Err(format!(
                    "'{}' and '{}' compare as {c:?}, but name, version and source as {:?}",
                    strs[i],
                    strs[j],
                    ta.cmp(tb)
                ));
            }
            if a.partial_cmp(b) != Some(c)
                || (a < b) != (c == Ordering::Less)
                || b.cmp(a) != c.reverse()
            {
                return Err(format!(
                    "the order of '{}' and '{}' is not consistent",
                    strs[i], strs[j]
                ));
            }
            if (a == b) != (c == Ordering::Equal) || (a != b) == (a == b) {
                return Err(format!(
                    "'{}' and '{}' compare as {c:?}, but a == b is {}",
                    strs[i],
                    strs[j],
                    a == b
                ));
            }
            if a == b && hash(a) != hash(b) {
                return Err(format!(
                    "'{}' and '{}' are equal, but have different hashes",
                    strs[i], strs[j]
                ));
            }
            if i != j && a == b {
                st.hit("equal ids");
                if strs[i] != strs[j] {
                    st.hit("equal ids that are written differently");
                }
            }
        }
        let c = a.clone();
        if c != *a
            || c.repr != a.repr
            || c.name() != a.name()
            || c.version() != a.version()
            || c.source() != a.source()
        {
            return Err(format!("the clone of '{}' differs", strs[i]));
        }
    }
    // as key of sets
    let set: BTreeSet<&Kid> = v.iter().map(|(k, _)| k).collect();
    let triples: BTreeSet<&Triple> = v.iter().map(|(_, t)| t).collect();
    let state = std::collections::hash_map::RandomState::new();
    let _ = state.hash_one(&v[0].0);
    let hset: HashSet<&Kid> = v.iter().map(|(k, _)| k).collect();
    if set.len() != triples.len() || hset.len() != triples.len() {
        return Err(format!(
            "{} different packages, but {} in an ordered and {} in a hash set: {strs:?}",
            triples.len(),
            set.len(),
            hset.len()
        ));
    }
    let sorted: Vec<(&str, &str, &str)> = set
        .iter()
        .map(|k| (k.name(), k.version(), k.source()))
        .collect();
    let want: Vec<(&str, &str, &str)> = triples
        .iter()
        .map(|t| (t.0.as_str(), t.1.as_str(), t.2.as_str()))
        .collect();
    if sorted != want {
        return Err(format!(
            "not sorted by name, version and source: {sorted:?}"
        ));
    }
    Ok(())
}

// package specs

#[derive(Debug, PartialEq, Eq)]
struct Spec {
    name: String,
    version: Option<semver::Version>,
    url: Option<String>,
}

use krates::semver;

fn valid_name(n: &str) -> bool {
    n.chars()
        .all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')
}

/// The grammar of <https://doc.rust-lang.org/cargo/reference/pkgid-spec.html> with full versions; `None`: no spec
fn ref_spec(s: &str) -> Option<Spec> {
    let (url, frag) = if s.contains('/') {
        let full = if s.contains("://") {
            s.to_string()
        } else {
            format!("cargo://{s}")
        };
        let (u, f) = match full.split_once('#') {
            Some((u, f)) => (u.to_string(), Some(f.to_string())),
            None => (full, None),
        };
        // a url needs a path that does not end with a slash
        let (_, rest) = u.rsplit_once("://")?;
        let last = match rest.rsplit_once('/') {
            Some((_, l)) if !l.is_empty() => l.to_string(),
            _ => return None,
        };
        (Some((u, last)), f)
    } else {
        (None, Some(s.to_string()))
    };
    let (name, version) = match (&url, frag) {
        (_, Some(f)) => match f.split_once([':', '@']) {
            Some((n, v)) => (n.to_string(), Some(v.parse().ok()?)),
            None => match &url {
                Some((_, last)) => {
                    // a name starts with a letter, and a version does not
                    if f.chars().next()?.is_alphabetic() {
                        (f, None)
                    } else {
                        (last.clone(), Some(f.parse().ok()?))
                    }
                }
                None => (f, None),
            },
        },
        (Some((_, last)), None) => (last.clone(), None),
        (None, None) => unreachable!(),
    };
    valid_name(&name).then_some(Spec {
        name,
        version,
        url: url.map(|u| u.0),
    })
}

fn spec_text(r: &mut Rng) -> (String, &'static str) {
    let sep = *r.pick(&[":", "@"]);
    let url = |r: &mut Rng| -> String {
        let n = name(r);
        let own = r.pct(60);
        let p = path(r, own.then_some(n.as_str()));
        if r.pct(25) {
            return format!("{}/{p}", r.pick(&["crates.io", "github.com", "a"]));
        }
        let scheme = *r.pick(&["https", "ssh", "git", "file", "http"]);
        if scheme == "file" {
            return format!("file:///{p}");
        }
        format!("{scheme}://{}/{p}", host(r))
    };
    match r.below(12) {
        0 => (name(r), "name"),
        1 | 2 => (
            format!("{}{sep}{}", name(r), version(r)),
            "name and version",
        ),
        3 => (url(r), "url"),
        4 => (format!("{}#{}", url(r), version(r)), "url and version"),
        5 => (format!("{}#{}", url(r), name(r)), "url and name"),
        6 | 7 => (
            format!("{}#{}{sep}{}", url(r), name(r), version(r)),
            "url, name and version",
        ),
        8 | 9 => {
            // something changed in a proper spec
            let (s, _) = spec_text(r);
            let mut c: Vec<char> = s.chars().collect();
            for _ in 0..r.range(1, 2) {
                let i = r.below(c.len() + 1);
                let x = *r.pick(&[
                    ':', '@', '#', '/', '.', '-', '?', '=', ' ', 'é', '\u{0}', '9', 'a', '+', '%',
                ]);
                match r.below(3) {
                    0 => c.insert(i, x),
                    1 if i < c.len() => c[i] = x,
                    _ if i < c.len() => {
                        c.remove(i);
                    }
                    _ => c.push(x),
                }
            }
            (c.into_iter().collect(), "changed")
        }
        _ => {
            let n = r.range(0, 7);
            let s = (0..n)
                .map(|_| {
                    *r.pick(&[
                        "a",
                        "foo",
                        "1",
                        "1.2.3",
                        "://",
                        ":",
                        "@",
                        "#",
                        "/",
                        "//",
                        "https",
                        "-",
                        "_",
                        ".",
                        "?",
                        "é",
                        "ß1",
                        " ",
                        "+",
                        "\u{1F600}",
                        "crates.io",
                        "1.0",
                        "%2F",
                        "#a@1.0.0",
                    ])
                })
                .collect();
            (s, "tokens")
        }
    }
}

pub fn spec_parse(seed: u64, st: &mut Stats) -> R {
    let mut r = Rng::new(seed);
    for _ in 0..16 {
        let (s, kind) = spec_text(&mut r);
        st.extra_evals += 1;
        let got =
            guard(|| s.parse::<PkgSpec>()).map_err(|p| format!("panic for spec '{s}': {p}"))?;
        let want = ref_spec(&s);
        let ok = kind != "changed" && kind != "tokens";
        if want.as_ref().is_some_and(|w| w.name.is_empty()) {
            // neither cargo nor the documentation know of such
            st.hit("specs with empty name, not judged");
            continue;
        }
        st.print(s.as_bytes());
        match (got, want) {
            (Ok(g), Some(w)) => {
                let g = Spec {
                    name: g.name,
                    version: g.version,
                    url: g.url,
                };
                if g != w {
                    return Err(format!("spec '{s}' is read as {g:?} instead of {w:?}"));
                }
                st.hit(if ok {
                    kind
                } else {
                    "accepted, made from pieces"
                });
            }
            (Err(krates::Error::InvalidPkgSpec(_)), None) => {
                st.hit("rejected");
            }
            (Err(e), None) => {
                return Err(format!("spec '{s}' is rejected with another error: {e}"));
            }
            (Ok(g), None) => return Err(format!("'{s}' is no spec, but is read as {g:?}")),
            (Err(e), Some(w)) => return Err(format!("spec '{s}' is {w:?}, but is rejected: {e}")),
        }
        st.sample(|| json!(s));
    }
    Ok(())
}

fn package(p: &PkgId, id: &str, source: Option<String>) -> Result<krates::Package, String> {
    serde_json::from_value(json!({
        "name": p.name, "version": p.version, "id": id, "source": source, "dependencies": [], "targets": [], "features": {},
        "manifest_path": "/x/Cargo.toml",
    }))
    .map_err(|e| format!("package does not deserialize: {e}"))
}

pub fn spec_match(seed: u64, st: &mut Stats) -> R {
    let mut r = Rng::new(seed);
    let mut p = pkg_id(&mut r);
    // spec urls have no query, and the specs of packages whose url ends with a slash can not be written
    let opaque = r.pct(50);
    let id = if opaque { p.opaque() } else { p.stable() };
    let source = (!p.path).then(|| {
        let s = if opaque || r.pct(50) {
            &p.source
        } else {
            &p.encoded
        };
        match &p.rev {
            Some(h) => format!("{s}#{h}"),
            None => s.clone(),
        }
    });
    let k = package(&p, &id, source.clone())?;
    for _ in 0..12 {
        st.extra_evals += 1;
        let mut name_ok = true;
        let n = if r.pct(75) {
            p.name.clone()
        } else {
            let mut o = match r.below(4) {
                0 => p.name.replace('-', "_"),
                1 => p.name[..p.name.len() - 1].to_string(),
                2 => format!("{}x", p.name),
                _ => name(&mut r),
            };
            if o.is_empty() {
                o = "q".into();
            }
            name_ok = o == p.name;
            o
        };
        let (v, v_ok) = if r.pct(40) {
            (None, true)
        } else if r.pct(65) {
            (Some(p.version.clone()), true)
        } else {
            let o = match r.below(4) {
                0 => format!("{}+x", p.version.split('+').next().unwrap()),
                1 => p.version.split(['-', '+']).next().unwrap().to_string(),
                2 => format!("{}-pre", p.version.split(['-', '+']).next().unwrap()),
                _ => version(&mut r),
            };
            let ok = o == p.version;
            (Some(o), ok)
        };
        let (u, u_ok) = if r.pct(30) {
            (None, true)
        } else if r.pct(65) {
            (Some(p.url.clone()), true)
        } else {
            let base = p.url.clone();
            let o = match r.below(8) {
                0 => base[..base.len() - 1].to_string(),
                1 => format!("{base}x"),
                2 => p.source.clone(),
                3 => base.replacen("https://", "http://", 1),
                4 => format!("{base}/{}", p.name),
                5 => base.rsplit_once('/').unwrap().0.to_string(),
                6 => base.to_uppercase(),
                _ => pkg_id(&mut r).url,
            };
            let ok = o == p.url;
            (Some(o), ok)
        };
        let want = name_ok && v_ok && u_ok;
        let spec = PkgSpec {
            name: n,
            version: v
                .as_ref()
                .map(|v| v.parse().map_err(|e| format!("harness: {v}: {e}")))
                .transpose()?,
            url: u.clone(),
        };
        let got = guard(|| spec.matches(&k))
            .map_err(|e| format!("panic for {spec:?} and '{id}': {e}"))?;
        if got != want {
            return Err(format!(
                "{spec:?} {} package '{id}' with source {source:?}",
                if got { "matches" } else { "does not match" }
            ));
        }
        st.print(format!("{spec:?}{id}").as_bytes());
        st.hit(match (want, &u) {
            (true, Some(_)) if p.path => "matches with the url of a path",
            (true, Some(_)) if p.source.contains('?') => {
                "matches with a url without the git reference"
            }
            (true, Some(_)) => "matches with url",
            (true, None) => "matches without url",
            _ => "no match",
        });
        if name_ok && v_ok && !u_ok {
            st.hit("no match only for the url");
        }
        if name_ok && !v_ok && u_ok {
            st.hit("no match only for the version");
        }
        // the same spec, written out
        if let Some(u) = &u
            && !u.ends_with('/')
            && u.contains("://")
            && !u.contains('?')
            && !u.contains('#')
            && ref_spec(&format!("{u}#a")).is_some()
        {
            let text = match &spec.version {
                Some(v) => format!("{u}#{}@{v}", spec.name),
                None => format!("{u}#{}", spec.name),
            };
            // digits can start a name, but a fragment that does is a version
            if spec.version.is_some() || spec.name.starts_with(|c: char| c.is_alphabetic()) {
                match text.parse::<PkgSpec>() {
                    Ok(s) => {
                        if s.matches(&k) != want {
                            return Err(format!(
                                "'{text}' {} package '{id}'",
                                if want { "does not match" } else { "matches" }
                            ));
                        }
                        st.hit("written specs");
                    }
                    Err(e) => return Err(format!("'{text}' is rejected: {e}")),
                }
            }
        }
    }
    // a spec does not depend on the format of the id
    p.version = version(&mut r);
    st.sample(|| json!([id, source]));
    Ok(())
}

// features

fn feature_name(r: &mut Rng) -> String {
    let n = r.range(1, 9);
    let mut s: String = (0..n)
        .map(|_| {
            *r.pick(&[
                'a',
                'b',
                'd',
                'e',
                'p',
                'Z',
                '0',
                '9',
                '-',
                '_',
                '+',
                '.',
                'é',
                'ß',
                '日',
                '\u{10400}',
            ])
        })
        .collect();
    if r.pct(15) {
        s = r
            .pick(&["dep", "default", "depend", "de", "dep-x", "depx"])
            .to_string();
    }
    s
}

pub fn features(seed: u64, st: &mut Stats) -> R {
    let mut r = Rng::new(seed);
    for _ in 0..8 {
        st.extra_evals += 1;
        let k = if r.pct(15) {
            feature_name(&mut r)
        } else {
            name(&mut r)
        };
        let f = feature_name(&mut r);
        let (text, want) = match r.below(4) {
            0 => (f.clone(), Feature::Simple(&f)),
            1 => (format!("dep:{k}"), Feature::Krate(&k)),
            2 => (
                format!("{k}/{f}"),
                Feature::Strong {
                    krate: &k,
                    feature: &f,
                },
            ),
            _ => (
                format!("{k}?/{f}"),
                Feature::Weak {
                    krate: &k,
                    feature: &f,
                },
            ),
        };
        let got = guard(|| {
            let p = ParsedFeature::from(text.as_str());
            if format!("{p:?}") != text {
                return Err(format!("feature '{text}' has the debug output '{p:?}'"));
            }
            Ok(p.feat())
        })
        .map_err(|p| format!("panic for feature '{text}': {p}"))??;
        if got != want {
            return Err(format!(
                "feature '{text}' is read as {got:?} instead of {want:?}"
            ));
        }
        st.hit(match want {
            Feature::Simple(_) => "features",
            Feature::Krate(_) => "dependencies",
            Feature::Strong { .. } => "features of dependencies",
            Feature::Weak { .. } => "weak features",
        });
        st.print(text.as_bytes());
        st.sample(|| json!(text));
    }
    // anything at all is read without a panic, and only takes away what marks the kind
    let n = r.range(0, 6);
    let s: String = (0..n)
        .map(|_| {
            *r.pick(&[
                "dep:", "?/", "/", "?", ":", "a", "é", "日本", "dep", " ", "", "x?/y",
            ])
        })
        .collect();
    let (text, len) = guard(|| {
        let p = ParsedFeature::from(s.as_str());
        match p.feat() {
            Feature::Simple(x) => (x.to_string(), x.len()),
            Feature::Krate(k) => (format!("dep:{k}"), k.len()),
            Feature::Strong { krate, feature } => {
                (format!("{krate}/{feature}"), krate.len() + feature.len())
            }
            Feature::Weak { krate, feature } => {
                (format!("{krate}?/{feature}"), krate.len() + feature.len())
            }
        }
    })
    .map_err(|p| format!("panic for feature '{s}': {p}"))?;
    if text != s || len > s.len() {
        return Err(format!("feature '{s}' is taken apart as '{text}'"));
    }
    Ok(())
}

pub fn no_input(_: u64) -> Value {
    Value::Null
}

//! Monitors for the metadata types: what is read from json, written to it, and told by the accessors.

use crate::obs::guard;
use crate::rng::Rng;
use crate::runner::Stats;
use krates::cm;
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;

type R = Result<(), String>;

// what the types say, as json with every field of the format

fn o<T>(v: &Option<T>, f: impl Fn(&T) -> Value) -> Value {
    v.as_ref().map_or(Value::Null, f)
}

fn strs(v: &[String]) -> Value {
    json!(v)
}

fn tk(k: &cm::TargetKind) -> &'static str {
    use cm::TargetKind as K;
    match k {
        K::Bench => "bench",
        K::Bin => "bin",
        K::CustomBuild => "custom-build",
        K::CDyLib => "cdylib",
        K::DyLib => "dylib",
        K::Example => "example",
        K::Lib => "lib",
        K::ProcMacro => "proc-macro",
        K::RLib => "rlib",
        K::StaticLib => "staticlib",
        K::Test => "test",
    }
}

fn ct(k: &cm::CrateType) -> &'static str {
    use cm::CrateType as K;
    match k {
        K::Bin => "bin",
        K::CDyLib => "cdylib",
        K::DyLib => "dylib",
        K::Lib => "lib",
        K::ProcMacro => "proc-macro",
        K::RLib => "rlib",
        K::StaticLib => "staticlib",
    }
}

fn ed(e: &cm::Edition) -> &'static str {
    match e {
        cm::Edition::E2015 => "2015",
        cm::Edition::E2018 => "2018",
        cm::Edition::E2021 => "2021",
        cm::Edition::E2024 => "2024",
    }
}

fn dk(k: &cm::DependencyKind) -> Value {
    match k {
        cm::DependencyKind::Normal => Value::Null,
        cm::DependencyKind::Development => json!("dev"),
        cm::DependencyKind::Build => json!("build"),
    }
}

fn v_target(t: &cm::Target) -> Value {
    json!({
        "name": t.name,
        "kind": t.kind.iter().map(tk).collect::<Vec<_>>(),
        "crate_types": t.crate_types.iter().map(ct).collect::<Vec<_>>(),
        "required-features": strs(&t.required_features),
        "src_path": t.src_path.as_str(),
        "edition": ed(&t.edition),
        "doctest": t.doctest,
        "test": t.test,
        "doc": t.doc,
    })
}

fn v_dep(d: &cm::Dependency) -> Value {
    json!({
        "name": d.name,
        "source": o(&d.source, |s| json!(s)),
        "req": d.req.to_string(),
        "kind": dk(&d.kind),
        "optional": d.optional,
        "uses_default_features": d.uses_default_features,
        "features": strs(&d.features),
        "target": o(&d.target, |s| json!(s)),
        "rename": o(&d.rename, |s| json!(s)),
        "registry": o(&d.registry, |s| json!(s)),
        "path": o(&d.path, |s| json!(s.as_str())),
    })
}

fn v_pkg(p: &cm::Package) -> Value {
    json!({
        "name": p.name,
        "version": p.version.to_string(),
        "authors": strs(&p.authors),
        "id": p.id.repr,
        "source": o(&p.source, |s| json!(s.repr)),
        "description": o(&p.description, |s| json!(s)),
        "dependencies": p.dependencies.iter().map(v_dep).collect::<Vec<_>>(),
        "license": o(&p.license, |s| json!(s)),
        "license_file": o(&p.license_file, |s| json!(s.as_str())),
        "targets": p.targets.iter().map(v_target).collect::<Vec<_>>(),
        "features": p.features,
        "manifest_path": p.manifest_path.as_str(),
        "categories": strs(&p.categories),
        "keywords": strs(&p.keywords),
        "readme": o(&p.readme, |s| json!(s.as_str())),
        "repository": o(&p.repository, |s| json!(s)),
        "homepage": o(&p.homepage, |s| json!(s)),
        "documentation": o(&p.documentation, |s| json!(s)),
        "edition": ed(&p.edition),
        "metadata": p.metadata,
        "links": o(&p.links, |s| json!(s)),
        "publish": o(&p.publish, |s| json!(s)),
        "default_run": o(&p.default_run, |s| json!(s)),
        "rust_version": o(&p.rust_version, |s| json!(s.to_string())),
    })
}

fn v_node(n: &cm::Node) -> Value {
    json!({
        "id": n.id.repr,
        "deps": n.deps.iter().map(|d| json!({
            "name": d.name,
            "pkg": d.pkg.repr,
            "dep_kinds": d.dep_kinds.iter().map(|k| json!({
                "kind": dk(&k.kind),
                "target": o(&k.target, |s| json!(s)),
            })).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
        "dependencies": n.dependencies.iter().map(|i| &i.repr).collect::<Vec<_>>(),
        "features": strs(&n.features),
    })
}

pub fn v_meta(m: &cm::Metadata) -> Value {
    json!({
        "packages": m.packages.iter().map(v_pkg).collect::<Vec<_>>(),
        "workspace_members": m.workspace_members.iter().map(|i| &i.repr).collect::<Vec<_>>(),
        "workspace_default_members": o(&m.workspace_default_members.0, |v| json!(v.iter().map(|i| &i.repr).collect::<Vec<_>>())),
        "resolve": o(&m.resolve, |r| json!({
            "nodes": r.nodes.iter().map(v_node).collect::<Vec<_>>(),
            "root": o(&r.root, |i| json!(i.repr)),
        })),
        "workspace_root": m.workspace_root.as_str(),
        "target_directory": m.target_directory.as_str(),
        "metadata": m.workspace_metadata,
        "version": m.version,
    })
}

// documents

/// A field of a document, the value that is written and the one it stands for
struct Gen<'a> {
    r: &'a mut Rng,
    /// leave out what may be left out
    sparse: bool,
    omitted: u64,
    unknown: u64,
    /// objects with required fields, as paths
    required: Vec<(Vec<String>, &'static str)>,
    at: Vec<String>,
}

fn text(r: &mut Rng) -> String {
    let n = r.range(0, 8);
    (0..n)
        .map(|_| {
            *r.pick(&[
                'a',
                'Z',
                '0',
                ' ',
                '"',
                '\\',
                '/',
                '\n',
                '\t',
                '\r',
                '\u{0}',
                '\u{7f}',
                'é',
                '日',
                '\u{2028}',
                '\u{10FFFF}',
                '{',
                '}',
                '[',
                ']',
                ':',
                ',',
                '\'',
                '<',
                '&',
                '-',
                '_',
            ])
        })
        .collect()
}

fn any_value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth > 3 { 7 } else { 10 }) {
        0 => Value::Null,
        1 => json!(r.pct(50)),
        2 => json!(r.next()),
        3 => json!(-((r.next() >> 1) as i64)),
        4 => json!((r.next() as i32) as f64 / 64.0),
        5 | 6 => json!(text(r)),
        7 | 8 => Value::Array((0..r.below(4)).map(|_| any_value(r, depth + 1)).collect()),
        _ => Value::Object(
            (0..r.below(4))
                .map(|_| (text(r), any_value(r, depth + 1)))
                .collect(),
        ),
    }
}

fn vers(r: &mut Rng) -> String {
    r.pick(&[
        "0.1.0",
        "1.2.3",
        "0.0.0-alpha.1",
        "1.0.0+build.7",
        "10.20.30-rc.1+x",
        "4294967296.0.1",
    ])
    .to_string()
}

impl Gen<'_> {
    fn list(&mut self, max: usize, f: impl Fn(&mut Rng) -> Value) -> Value {
        let n = self.r.below(max + 1);
        Value::Array((0..n).map(|_| f(self.r)).collect())
    }

    fn texts(&mut self) -> Value {
        self.list(3, |r| json!(text(r)))
    }

    fn opt(&mut self, f: impl Fn(&mut Rng) -> Value) -> Value {
        if self.r.pct(45) {
            Value::Null
        } else {
            f(self.r)
        }
    }

    /// An object of required fields, and of others that can be left out for a default. The first is as written, the other
    /// what it has to be read as
    fn object(
        &mut self,
        required: Vec<(&'static str, (Value, Value))>,
        optional: Vec<(&'static str, (Value, Value), Value)>,
    ) -> (Value, Value) {
        let mut w: Vec<(String, Value)> = Vec::new();
        let mut e = Map::new();
        for (k, (a, b)) in required {
            self.required.push((self.at.clone(), k));
            w.push((k.into(), a));
            e.insert(k.into(), b);
        }
        for (k, (a, b), default) in optional {
            if self.sparse && self.r.pct(50) {
                self.omitted += 1;
                e.insert(k.into(), default);
            } else {
                w.push((k.into(), a));
                e.insert(k.into(), b);
            }
        }
        // fields of other cargo versions
        while self.r.pct(20) {
            let k = format!(
                "{}{}",
                self.r.pick(&[
                    "x-",
                    "build_",
                    "é",
                    "Name",
                    "package",
                    "pkgs",
                    "required_features",
                    ""
                ]),
                self.r.below(9)
            );
            if !w.iter().any(|(o, _)| *o == k) {
                w.push((k, any_value(self.r, 0)));
                self.unknown += 1;
            }
        }
        self.r.shuffle(&mut w);
        (Value::Object(w.into_iter().collect()), Value::Object(e))
    }

    fn within<T>(&mut self, k: impl Into<String>, f: impl FnOnce(&mut Self) -> T) -> T {
        self.at.push(k.into());
        let t = f(self);
        self.at.pop();
        t
    }

    fn objects(
        &mut self,
        k: &str,
        max: usize,
        f: impl Fn(&mut Self) -> (Value, Value),
    ) -> (Value, Value) {
        let n = self.r.below(max + 1);
        let (mut a, mut b) = (vec![], vec![]);
        for i in 0..n {
            let (x, y) = self.within(k, |g| g.within(i.to_string(), &f));
            a.push(x);
            b.push(y);
        }
        (Value::Array(a), Value::Array(b))
    }

    fn target(&mut self) -> (Value, Value) {
        let name = s2(json!(text(self.r)));
        let kinds = s2(self.list(3, |r| {
            json!(*r.pick(&[
                "bench",
                "bin",
                "custom-build",
                "cdylib",
                "dylib",
                "example",
                "lib",
                "proc-macro",
                "rlib",
                "staticlib",
                "test"
            ]))
        }));
        let types = s2(self.list(3, |r| {
            json!(*r.pick(&[
                "bin",
                "cdylib",
                "dylib",
                "lib",
                "proc-macro",
                "rlib",
                "staticlib"
            ]))
        }));
        let rf = s2(self.texts());
        let src = s2(json!(text(self.r)));
        let edition = s2(json!(*self.r.pick(&["2015", "2018", "2021", "2024"])));
        let b: Vec<_> = (0..3).map(|_| s2(json!(self.r.pct(50)))).collect();
        self.object(
            vec![("name", name), ("kind", kinds), ("src_path", src)],
            vec![
                ("crate_types", types, json!([])),
                ("required-features", rf, json!([])),
                ("edition", edition, json!("2015")),
                ("doctest", b[0].clone(), json!(true)),
                ("test", b[1].clone(), json!(true)),
                ("doc", b[2].clone(), json!(true)),
            ],
        )
    }

    fn kind(&mut self) -> (Value, Value) {
        match self.r.below(5) {
            0 => (json!("normal"), Value::Null),
            1 | 2 => s2(Value::Null),
            3 => s2(json!("dev")),
            _ => s2(json!("build")),
        }
    }

    fn dep(&mut self) -> (Value, Value) {
        let name = s2(json!(text(self.r)));
        let req = s2(json!(*self.r.pick(&[
            "*",
            "^1.2.3",
            "=0.1.0-alpha.1",
            ">=1, <2",
            "~0.3",
            "^0",
            ">0.1, <=2.0.0"
        ])));
        let b: Vec<_> = (0..2).map(|_| s2(json!(self.r.pct(50)))).collect();
        let f = s2(self.texts());
        let kind = self.kind();
        let t: Vec<_> = (0..5).map(|_| s2(self.opt(|r| json!(text(r))))).collect();
        self.object(
            vec![
                ("name", name),
                ("req", req),
                ("optional", b[0].clone()),
                ("uses_default_features", b[1].clone()),
                ("features", f),
            ],
            vec![
                ("kind", kind, Value::Null),
                ("source", t[0].clone(), Value::Null),
                ("target", t[1].clone(), Value::Null),
                ("rename", t[2].clone(), Value::Null),
                ("registry", t[3].clone(), Value::Null),
                ("path", t[4].clone(), Value::Null),
            ],
        )
    }

    fn pkg(&mut self) -> (Value, Value) {
        let name = s2(json!(text(self.r)));
        let version = s2(json!(vers(self.r)));
        let id = s2(json!(text(self.r)));
        let deps = self.objects("dependencies", 3, Self::dep);
        let targets = self.objects("targets", 3, Self::target);
        let features = s2(Value::Object(
            (0..self.r.below(4))
                .map(|_| {
                    (
                        text(self.r),
                        Value::Array((0..self.r.below(3)).map(|_| json!(text(self.r))).collect()),
                    )
                })
                .collect(),
        ));
        let mp = s2(json!(text(self.r)));
        let t: Vec<_> = (0..10).map(|_| s2(self.opt(|r| json!(text(r))))).collect();
        let l: Vec<_> = (0..3).map(|_| s2(self.texts())).collect();
        let publish = match self.r.below(3) {
            0 => s2(Value::Null),
            1 => s2(json!([])),
            _ => s2(self.texts()),
        };
        let meta = s2(any_value(self.r, 0));
        let edition = s2(json!(*self.r.pick(&["2015", "2018", "2021", "2024"])));
        let rv = match self.r.below(5) {
            0 => s2(Value::Null),
            1 => (json!("1"), json!("1.0.0")),
            2 => (json!("1.56"), json!("1.56.0")),
            3 => s2(json!("1.70.1")),
            _ => (json!("0.0"), json!("0.0.0")),
        };
        self.object(
            vec![
                ("name", name),
                ("version", version),
                ("id", id),
                ("dependencies", deps),
                ("targets", targets),
                ("features", features),
                ("manifest_path", mp),
            ],
            vec![
                ("source", t[0].clone(), Value::Null),
                ("description", t[1].clone(), Value::Null),
                ("license", t[2].clone(), Value::Null),
                ("license_file", t[3].clone(), Value::Null),
                ("readme", t[4].clone(), Value::Null),
                ("repository", t[5].clone(), Value::Null),
                ("homepage", t[6].clone(), Value::Null),
                ("documentation", t[7].clone(), Value::Null),
                ("links", t[8].clone(), Value::Null),
                ("default_run", t[9].clone(), Value::Null),
                ("authors", l[0].clone(), json!([])),
                ("categories", l[1].clone(), json!([])),
                ("keywords", l[2].clone(), json!([])),
                ("publish", publish, Value::Null),
                ("metadata", meta, Value::Null),
                ("edition", edition, json!("2015")),
                ("rust_version", rv, Value::Null),
            ],
        )
    }

    fn node_dep(&mut self) -> (Value, Value) {
        let name = s2(json!(text(self.r)));
        let pkg = s2(json!(text(self.r)));
        let kinds = self.objects("dep_kinds", 3, |g| {
            let kind = g.kind();
            let target = s2(g.opt(|r| json!(text(r))));
            g.object(
                vec![],
                vec![("kind", kind, Value::Null), ("target", target, Value::Null)],
            )
        });
        self.object(
            vec![("name", name), ("pkg", pkg)],
            vec![("dep_kinds", kinds, json!([]))],
        )
    }

    fn node(&mut self) -> (Value, Value) {
        let id = s2(json!(text(self.r)));
        let dependencies = s2(self.texts());
        let deps = self.objects("deps", 3, Self::node_dep);
        let features = s2(self.texts());
        self.object(
            vec![("id", id), ("dependencies", dependencies)],
            vec![("deps", deps, json!([])), ("features", features, json!([]))],
        )
    }

    fn resolve(&mut self) -> (Value, Value) {
        self.within("resolve", |g| {
            let nodes = g.objects("nodes", 3, Self::node);
            let root = s2(g.opt(|r| json!(text(r))));
            g.object(vec![("nodes", nodes), ("root", root)], vec![])
        })
    }

    fn meta(&mut self) -> (Value, Value) {
        let packages = self.objects("packages", 3, Self::pkg);
        let members = s2(self.texts());
        let defaults = s2(self.texts());
        let resolve = if self.r.pct(20) {
            s2(Value::Null)
        } else {
            self.resolve()
        };
        let root = s2(json!(text(self.r)));
        let target = s2(json!(text(self.r)));
        let meta = s2(any_value(self.r, 0));
        let version = s2(json!(self.r.below(3)));
        self.object(
            vec![
                ("packages", packages),
                ("workspace_members", members),
                ("workspace_root", root),
                ("target_directory", target),
            ],
            vec![
                ("workspace_default_members", defaults, Value::Null),
                ("resolve", resolve, Value::Null),
                ("metadata", meta, Value::Null),
                ("version", version, json!(0)),
            ],
        )
    }
}

/// written as it is read
fn s2(v: Value) -> (Value, Value) {
    (v.clone(), v)
}

/// json with the space and escapes that any printer may choose
fn print(v: &Value, r: &mut Rng, out: &mut String) {
    let ws = |r: &mut Rng, out: &mut String| {
        while r.pct(8) {
            out.push(*r.pick(&[' ', '\t', '\n', '\r']));
        }
    };
    ws(r, out);
    match v {
        Value::String(s) => print_str(s, r, out),
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                print(x, r, out);
            }
            ws(r, out);
            out.push(']');
        }
        Value::Object(m) => {
            let mut es: Vec<_> = m.iter().collect();
            r.shuffle(&mut es);
            out.push('{');
            for (i, (k, x)) in es.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(r, out);
                print_str(k, r, out);
                ws(r, out);
                out.push(':');
                print(x, r, out);
            }
            ws(r, out);
            out.push('}');
        }
        v => *out += &v.to_string(),
    }
    ws(r, out);
}

fn print_str(s: &str, r: &mut Rng, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => *out += "\\\"",
            '\\' => *out += "\\\\",
            c if (c as u32) < 0x20 || r.pct(4) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    *out += &format!("\\u{u:04x}");
                }
            }
            '/' if r.pct(30) => *out += "\\/",
            c => out.push(c),
        }
    }
    out.push('"');
}

fn diff(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let keys: std::collections::BTreeSet<_> = x.keys().chain(y.keys()).collect();
            keys.into_iter().find_map(|k| {
                let at = format!("{at}.{k}");
                match (x.get(k), y.get(k)) {
                    (Some(p), Some(q)) => diff(p, q, &at),
                    (p, q) => Some(format!("{at}: {p:?} instead of {q:?}")),
                }
            })
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x
            .iter()
            .zip(y)
            .enumerate()
            .find_map(|(i, (p, q))| diff(p, q, &format!("{at}[{i}]"))),
        _ if a == b => None,
        _ => Some(format!("{at}: {a} instead of {b}")),
    }
}

fn no_diff(what: &str, got: &Value, want: &Value) -> R {
    match diff(got, want, "$") {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {d}")),
    }
}

struct Made {
    written: Value,
    want: Value,
    required: Vec<(Vec<String>, &'static str)>,
    omitted: u64,
    unknown: u64,
}

fn document(seed: u64) -> Made {
    let mut r = Rng::new(seed);
    let sparse = r.pct(60);
    let mut g = Gen {
        r: &mut r,
        sparse,
        omitted: 0,
        unknown: 0,
        required: vec![],
        at: vec![],
    };
    let (written, want) = g.meta();
    let (omitted, unknown) = (g.omitted, g.unknown);
    let required = g.required;
    Made {
        written,
        want,
        required,
        omitted,
        unknown,
    }
}

pub fn describe(seed: u64) -> Value {
    document(seed).written
}

fn at<'v>(v: &'v mut Value, p: &[String]) -> Option<&'v mut Value> {
    p.iter().try_fold(v, |v, k| match v {
        Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?),
        Value::Object(m) => m.get_mut(k),
        _ => None,
    })
}

pub fn deserialize(seed: u64, st: &mut Stats) -> R {
    let d = document(seed);
    let mut r = Rng::new(seed ^ 0x5151);
    let mut text = String::new();
    print(&d.written, &mut r, &mut text);
    st.print(text.as_bytes());
    st.add("optional fields left out", d.omitted);
    st.add("fields of other versions", d.unknown);
    let n = |k: &str| d.want[k].as_array().map_or(0, |a| a.len() as u64);
    st.add("packages", n("packages"));
    st.add(
        "nodes",
        d.want["resolve"]["nodes"]
            .as_array()
            .map_or(0, |a| a.len() as u64),
    );
    st.sample(|| d.written.clone());
    let err = |e: serde_json::Error| format!("does not deserialize: {e}");
    // borrowed, owned and from a tree
    let ways: [(&str, Box<dyn Fn() -> Result<cm::Metadata, String>>); 4] = [
        (
            "from_str",
            Box::new(|| serde_json::from_str(&text).map_err(err)),
        ),
        (
            "from_slice",
            Box::new(|| serde_json::from_slice(text.as_bytes()).map_err(err)),
        ),
        (
            "from_reader",
            Box::new(|| serde_json::from_reader(text.as_bytes()).map_err(err)),
        ),
        (
            "MetadataCommand::parse",
            Box::new(|| cm::MetadataCommand::parse(&text).map_err(|e| e.to_string())),
        ),
    ];
    for (w, f) in ways.iter() {
        let m = guard(f)
            .map_err(|p| format!("panic in {w}: {p}"))?
            .map_err(|e| format!("{w}: {e}"))?;
        no_diff(w, &v_meta(&m), &d.want)?;
    }
    let m: cm::Metadata = guard(|| serde_json::from_value(d.written.clone()))
        .map_err(|p| format!("panic in from_value: {p}"))?
        .map_err(err)?;
    no_diff("from_value", &v_meta(&m), &d.want)?;
    // a clone is the same
    no_diff("clone", &v_meta(&m.clone()), &d.want)?;

    // without one of the fields cargo always had
    if let Some((p, k)) = (!d.required.is_empty()).then(|| r.pick(&d.required)) {
        let mut v = d.written.clone();
        if let Some(Value::Object(m)) = at(&mut v, p) {
            m.remove(*k);
            let res = guard(|| serde_json::from_str::<cm::Metadata>(&v.to_string()).map(|_| ()))
                .map_err(|e| format!("panic without {p:?} {k}: {e}"))?;
            if res.is_ok() {
                return Err(format!("deserializes without the field {p:?} {k}"));
            }
            st.hit("required fields left out");
        }
    }
    // a value of another type
    let mut v = d.written.clone();
    let mut path = Vec::new();
    let mut cur = &d.want;
    loop {
        match cur {
            _ if path.iter().any(|l| l == "metadata") => break,
            Value::Object(m) if !m.is_empty() => {
                let keys: Vec<_> = m.keys().collect();
                let k = r.pick(&keys).to_string();
                cur = &m[&k];
                path.push(k);
            }
            Value::Array(a) if !a.is_empty() => {
                let i = r.below(a.len());
                cur = &a[i];
                path.push(i.to_string());
            }
            _ => break,
        }
    }
    if path.iter().all(|l| l != "metadata")
        && let Some(x) = at(&mut v, &path)
    {
        *x = match x {
            Value::String(_) => json!(*r.pick(&[1, 0])),
            Value::Bool(_) | Value::Number(_) => json!("true"),
            Value::Array(_) => json!({"a": 1}),
            _ => json!([true]),
        };
        let res = guard(|| serde_json::from_str::<cm::Metadata>(&v.to_string()).map(|_| ()))
            .map_err(|e| format!("panic with another type at {path:?}: {e}"))?;
        if res.is_ok() {
            return Err(format!(
                "deserializes with a value of another type at {path:?}: {x:?}",
                x = at(&mut v, &path)
            ));
        }
        st.hit("values of another type");
    }
    // cut off somewhere
    let cut = (0..text.len())
        .rev()
        .skip(r.below(text.len()))
        .find(|i| text.is_char_boundary(*i))
        .unwrap_or(0);
    let head = &text[..cut];
    let res = guard(|| serde_json::from_str::<cm::Metadata>(head).map(|_| ()))
        .map_err(|e| format!("panic for a cut document: {e}"))?;
    if res.is_ok() && !text[cut..].trim().is_empty() {
        return Err(format!("a document cut off after {cut} bytes deserializes"));
    }
    st.hit("documents cut off");

    // rust versions
    for (s, want) in [
        ("1.2-beta", None),
        ("1.2.3+x", None),
        ("1.2.3-0", None),
        ("", None),
        ("1.2.3.4", None),
        ("x", None),
        ("1.", None),
        ("01.2", None),
    ]
    .iter()
    .chain([&("1.83", Some((1, 83, 0)))])
    {
        let p: Result<cm::Package, _> = serde_json::from_value(json!({
            "name": "a", "version": "1.0.0", "id": "a", "dependencies": [], "targets": [], "features": {}, "manifest_path": "x",
            "rust_version": s,
        }));
        let got = p
            .ok()
            .map(|p| p.rust_version.map(|v| (v.major, v.minor, v.patch)));
        if got != want.map(Some) {
            return Err(format!("rust version '{s}' is read as {got:?}"));
        }
    }
    for (k, bad) in [
        ("edition", json!("2020")),
        ("edition", json!(2021)),
        ("kind", json!(["Lib"])),
        ("crate_types", json!(["test"])),
    ] {
        let mut t = json!({"name": "a", "kind": ["lib"], "src_path": "x", "edition": "2021", "crate_types": ["lib"]});
        t[k] = bad.clone();
        if serde_json::from_value::<cm::Target>(t).is_ok() {
            return Err(format!("a target with {k} {bad} deserializes"));
        }
    }
    for bad in ["Normal", "development", "", "Dev"] {
        if serde_json::from_value::<cm::DependencyKind>(json!(bad)).is_ok() {
            return Err(format!("the dependency kind '{bad}' deserializes"));
        }
    }
    Ok(())
}

#[cfg(feature = "serialize")]
pub fn serialize(seed: u64, st: &mut Stats) -> R {
    let d = document(seed);
    let m: cm::Metadata = serde_json::from_value(d.written.clone())
        .map_err(|e| format!("does not deserialize: {e}"))?;
    let text = guard(|| serde_json::to_string(&m))
        .map_err(|p| format!("panic: {p}"))?
        .map_err(|e| format!("does not serialize: {e}"))?;
    st.print(text.as_bytes());
    st.sample(|| d.written.clone());
    let pretty =
        serde_json::to_string_pretty(&m).map_err(|e| format!("does not serialize: {e}"))?;
    let tree = serde_json::to_value(&m).map_err(|e| format!("does not serialize: {e}"))?;
    for (w, t) in [
        ("to_string", text.clone()),
        ("to_string_pretty", pretty),
        ("to_value", tree.to_string()),
    ] {
        let back: cm::Metadata = serde_json::from_str(&t)
            .map_err(|e| format!("what {w} writes does not deserialize: {e}"))?;
        no_diff(&format!("round trip through {w}"), &v_meta(&back), &d.want)?;
        let again =
            serde_json::to_string(&back).map_err(|e| format!("does not serialize again: {e}"))?;
        if again != text {
            return Err(format!(
                "what {w} writes is written in another way after it was read"
            ));
        }
        st.hit("round trips");
    }
    // what is written has the names cargo uses: every field that is written is one that is read
    let mut known = d.want.clone();
    normal(&mut known);
    let mut written = tree.clone();
    normal(&mut written);
    no_diff("written fields", &written, &known)?;
    // no key twice, which parsers take differently
    dup_keys(&text)?;
    // parts on their own
    for p in &m.packages {
        let back: cm::Package =
            serde_json::from_str(&serde_json::to_string(p).map_err(|e| e.to_string())?)
                .map_err(|e| format!("package: {e}"))?;
        no_diff("package", &v_pkg(&back), &v_pkg(p))?;
        st.hit("packages");
        for x in &p.dependencies {
            let back: cm::Dependency =
                serde_json::from_str(&serde_json::to_string(x).map_err(|e| e.to_string())?)
                    .map_err(|e| format!("dependency: {e}"))?;
            no_diff("dependency", &v_dep(&back), &v_dep(x))?;
            st.hit("dependencies");
        }
        for x in &p.targets {
            let back: cm::Target =
                serde_json::from_str(&serde_json::to_string(x).map_err(|e| e.to_string())?)
                    .map_err(|e| format!("target: {e}"))?;
            no_diff("target", &v_target(&back), &v_target(x))?;
            st.hit("targets");
        }
    }
    for n in m.resolve.iter().flat_map(|r| &r.nodes) {
        let back: cm::Node =
            serde_json::from_str(&serde_json::to_string(n).map_err(|e| e.to_string())?)
                .map_err(|e| format!("node: {e}"))?;
        no_diff("node", &v_node(&back), &v_node(n))?;
        st.hit("nodes");
    }
    Ok(())
}

/// Fields that are null are the same as ones that are missing, and kinds are written by name or as null
#[cfg(feature = "serialize")]
fn normal(v: &mut Value) {
    match v {
        Value::Object(m) => {
            // free form
            let meta = m.remove("metadata");
            m.retain(|_, x| !x.is_null());
            if m.get("kind").is_some_and(|k| k == "normal") {
                m.remove("kind");
            }
            for x in m.values_mut() {
                normal(x);
            }
            if let Some(x) = meta.filter(|x| !x.is_null()) {
                m.insert("metadata".into(), x);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(normal),
        _ => {}
    }
}

#[cfg(feature = "serialize")]
fn dup_keys(text: &str) -> R {
    struct Seen;
    impl<'de> serde::de::Deserialize<'de> for Seen {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct V;
            impl<'de> serde::de::Visitor<'de> for V {
                type Value = Seen;
                fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("json")
                }
                fn visit_bool<E>(self, _: bool) -> Result<Seen, E> {
                    Ok(Seen)
                }
                fn visit_i64<E>(self, _: i64) -> Result<Seen, E> {
                    Ok(Seen)
                }
                fn visit_u64<E>(self, _: u64) -> Result<Seen, E> {
                    Ok(Seen)
                }
                fn visit_f64<E>(self, _: f64) -> Result<Seen, E> {
                    Ok(Seen)
                }
                fn visit_str<E>(self, _: &str) -> Result<Seen, E> {
                    Ok(Seen)
                }
                fn visit_unit<E>(self) -> Result<Seen, E> {
                    Ok(Seen)
                }
                fn visit_seq<A: serde::de::SeqAccess<'de>>(
                    self,
                    mut a: A,
                ) -> Result<Seen, A::Error> {
                    while a.next_element::<Seen>()?.is_some() {}
                    Ok(Seen)
                }
                fn visit_map<A: serde::de::MapAccess<'de>>(
                    self,
                    mut a: A,
                ) -> Result<Seen, A::Error> {
                    let mut keys = std::collections::BTreeSet::new();
                    while let Some((k, _)) = a.next_entry::<String, Seen>()? {
                        if !keys.insert(k.clone()) {
                            return Err(serde::de::Error::custom(format!(
                                "key '{k}' is written twice"
                            )));
                        }
                    }
                    Ok(Seen)
                }
            }
            d.deserialize_any(V)
        }
    }
    serde_json::from_str::<Seen>(text)
        .map(|_| ())
        .map_err(|e| e.to_string())
}

// accessors

/// Identifiers, sources and paths that are nearly, but not quite equal
fn related_ids(r: &mut Rng, st: &mut Stats) -> R {
    const IDS: &[&str] = &[
        "a",
        "a#1",
        "a#1.0.0",
        "a#1.0.0-rc",
        "A#1.0.0",
        "path+file:///w/a#1.0.0",
        "path+file:///w/a#1.0.0-rc.1",
        "path+file:///w/a#a@1.0.0",
        "path+file:///w/aa#1.0.0",
        "path+file:///w#a@1.0.0",
        "a 1.0.0 (path+file:///w/a)",
        "a 1.0.0 (path+file:///w/a b)",
        "a 1.0.0",
        "",
        " ",
        "é",
    ];
    const CRATES_IO: &str = "registry+https://github.com/rust-lang/crates.io-index";
    const SOURCES: &[&str] = &[
        CRATES_IO,
        "registry+https://github.com/rust-lang/crates.io-index/",
        "registry+https://github.com/rust-lang/crates.io-index#a",
        "registry+https://github.com/rust-lang/crates.io-index-fork",
        "https://github.com/rust-lang/crates.io-index",
        "sparse+https://index.crates.io/",
        "registry+http://github.com/rust-lang/crates.io-index",
        "git+https://github.com/rust-lang/crates.io-index",
        "Registry+https://github.com/rust-lang/crates.io-index",
        "",
    ];
    const PATHS: &[&str] = &[
        "/w/Cargo.toml",
        "/w/a/Cargo.toml",
        "/ww/Cargo.toml",
        "/W/Cargo.toml",
        "/Cargo.toml",
        "w/Cargo.toml",
        "/w/cargo.toml",
        "/w/a/w/Cargo.toml",
        "/w/Cargo.toml/Cargo.toml",
    ];
    let mut ids = IDS.to_vec();
    r.shuffle(&mut ids);
    let mut paths = PATHS.to_vec();
    r.shuffle(&mut paths);
    let n = r.range(1, 7);
    let some = |r: &mut Rng, pct: u32| -> Vec<&str> {
        // also of packages that are not there, and more than once
        let mut v: Vec<&str> = ids[..n + 2]
            .iter()
            .filter(|_| r.pct(pct))
            .copied()
            .collect();
        if !v.is_empty() && r.pct(20) {
            v.push(v[0]);
        }
        r.shuffle(&mut v);
        v
    };
    let (members, defaults) = (some(r, 60), some(r, 40));
    let root = r.pct(75).then(|| ids[r.below(n + 1)]);
    let no_deps = r.pct(40);
    let sources: Vec<Option<&str>> = (0..n)
        .map(|_| r.pct(70).then(|| *r.pick(SOURCES)))
        .collect();
    let packages: Vec<Value> = (0..n)
        .map(|i| {
            json!({
                "name": "a", "version": "1.0.0", "id": ids[i], "source": sources[i], "dependencies": [], "targets": [],
                "features": {}, "manifest_path": paths[i],
            })
        })
        .collect();
    let ws_root = *r.pick(&["/w", "/w/", "/", "/ww", "/w/a", "w", "/x"]);
    let v = json!({
        "packages": packages, "workspace_members": members, "workspace_default_members": defaults,
        "workspace_root": ws_root, "target_directory": "/t", "version": 1,
        "resolve": if no_deps { Value::Null } else { json!({"nodes": [], "root": root}) },
    });
    let m: cm::Metadata =
        serde_json::from_value(v.clone()).map_err(|e| format!("does not deserialize: {e}: {v}"))?;
    let names =
        |v: Vec<&cm::Package>| -> Vec<String> { v.iter().map(|p| p.id.repr.clone()).collect() };
    let want = |l: &[&str]| -> Vec<String> {
        ids[..n]
            .iter()
            .filter(|i| l.contains(i))
            .map(|i| i.to_string())
            .collect()
    };
    for (what, got, want) in [
        ("workspace", names(m.workspace_packages()), want(&members)),
        (
            "default",
            names(m.workspace_default_packages()),
            want(&defaults),
        ),
    ] {
        if got.iter().collect::<std::collections::BTreeSet<_>>() != want.iter().collect()
            || got.len() != want.len()
        {
            return Err(format!(
                "the {what} packages are {got:?} instead of {want:?}: {v}"
            ));
        }
    }
    let got = m.root_package().map(|p| p.id.repr.as_str());
    let want = if no_deps {
        let mp = format!("{}/Cargo.toml", ws_root.trim_end_matches('/'));
        (0..n).find(|i| paths[*i] == mp).map(|i| ids[i])
    } else {
        root.filter(|x| ids[..n].contains(x))
    };
    if got != want {
        return Err(format!(
            "the root package is {got:?} instead of {want:?}: {v}"
        ));
    }
    for (i, id) in ids[..n].iter().enumerate() {
        let p = &m[&cm::PackageId {
            repr: id.to_string(),
        }];
        if p.id.repr != *id || p.manifest_path != paths[i] {
            return Err(format!("indexing with '{id}' gives '{}'", p.id));
        }
        if p.source.as_ref().map(|s| s.is_crates_io()) != sources[i].map(|s| s == CRATES_IO) {
            return Err(format!("source {:?} is from crates.io, or not", sources[i]));
        }
    }
    let unknown = cm::PackageId {
        repr: ids[n].to_string(),
    };
    if guard(|| m[&unknown].name.clone()).is_ok() {
        return Err(format!("there is a package '{}': {v}", ids[n]));
    }
    st.hit("documents with related ids");
    Ok(())
}

pub fn accessors(seed: u64, st: &mut Stats) -> R {
    let c = crate::graph::gen_case(seed, crate::gencfg::Focus::None);
    let mut r = Rng::new(seed ^ 0xacce);
    let mut v: Value = serde_json::from_str(&c.text).map_err(|e| e.to_string())?;
    let rw = &c.rw;
    // default members are a part of the members
    let members: Vec<String> = rw.members.iter().map(|m| rw.pkgs[*m].id.clone()).collect();
    let defaults: Option<Vec<String>> = (!r.pct(25)).then(|| {
        members
            .iter()
            .filter(|_| r.pct(60))
            .cloned()
            .collect::<Vec<_>>()
    });
    match &defaults {
        Some(d) => v["workspace_default_members"] = json!(d),
        None => {
            v.as_object_mut()
                .unwrap()
                .remove("workspace_default_members");
        }
    }
    let no_deps = r.pct(35);
    if no_deps {
        v["resolve"] = Value::Null;
    }
    let m: cm::Metadata =
        serde_json::from_value(v.clone()).map_err(|e| format!("does not deserialize: {e}"))?;
    st.print(format!("{no_deps}{defaults:?}{}", c.text).as_bytes());
    let ids = |v: &[&cm::Package]| -> Vec<String> { v.iter().map(|p| p.id.repr.clone()).collect() };

    let got = guard(|| m.root_package().map(|p| p.id.repr.clone()))
        .map_err(|p| format!("panic in root_package: {p}"))?;
    let want = if no_deps {
        let mp = format!("{}/Cargo.toml", rw.ws_root.trim_end_matches('/'));
        st.hit("root packages without a resolve graph");
        rw.pkgs
            .iter()
            .find(|p| p.manifest_path == mp)
            .map(|p| p.id.clone())
    } else {
        rw.root.map(|p| rw.pkgs[p].id.clone())
    };
    if !(no_deps && rw.ws_root.contains('\\')) {
        if got != want {
            return Err(format!(
                "the root package is {got:?} instead of {want:?} (without resolve: {no_deps})"
            ));
        }
        st.hit(if got.is_some() {
            "root packages"
        } else {
            "no root package"
        });
    }

    let mut got = ids(&m.workspace_packages());
    let mut want = members.clone();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!(
            "the workspace packages are {got:?} instead of {want:?}"
        ));
    }
    st.add("workspace packages", got.len() as u64);
    if let Some(d) = &defaults {
        let mut got = ids(&m.workspace_default_packages());
        let mut want = d.clone();
        got.sort();
        want.sort();
        if got != want {
            return Err(format!(
                "the default packages are {got:?} instead of {want:?}"
            ));
        }
        let slice: Vec<&str> = m
            .workspace_default_members
            .iter()
            .map(|i| i.repr.as_str())
            .collect();
        if slice != *d {
            return Err(format!(
                "the default members are {slice:?} instead of {d:?}"
            ));
        }
        st.add("default packages", got.len() as u64);
    } else {
        if guard(|| m.workspace_default_packages().len()).is_ok() {
            return Err("default packages of metadata that has none".into());
        }
        st.hit("no default members");
    }
    for p in &m.packages {
        if m[&p.id].id != p.id || !std::ptr::eq(&m[&p.id], p) {
            return Err(format!(
                "metadata indexed with '{}' is '{}'",
                p.id, m[&p.id].id
            ));
        }
        if p.id.to_string() != p.id.repr {
            return Err(format!("id '{}' is displayed as '{}'", p.id.repr, p.id));
        }
        if let Some(s) = &p.source {
            if s.is_crates_io()
                != (s.repr == "registry+https://github.com/rust-lang/crates.io-index")
                || s.to_string() != s.repr
            {
                return Err(format!(
                    "source '{}' is displayed as {s}, crates.io: {}",
                    s.repr,
                    s.is_crates_io()
                ));
            }
            st.hit(if s.is_crates_io() {
                "sources that are crates.io"
            } else {
                "other sources"
            });
        }
    }
    related_ids(&mut r, st)?;
    let no = cm::PackageId {
        repr: "no such".into(),
    };
    if guard(|| m[&no].name.clone()).is_ok() {
        return Err("metadata indexed with an unknown id".into());
    }

    // files of a package
    let mut p = m.packages[r.below(m.packages.len())].clone();
    let dir = *r.pick(&["/a/b", "/", "/a b/é", ""]);
    p.manifest_path = format!("{}/Cargo.toml", dir.trim_end_matches('/')).into();
    if dir.is_empty() {
        p.manifest_path = "Cargo.toml".into();
    }
    for f in [
        None,
        Some("LICENSE"),
        Some("docs/LICENSE"),
        Some("../README.md"),
        Some("/abs/README"),
    ] {
        p.license_file = f.map(|f| f.into());
        p.readme = f.map(|f| f.into());
        let want = f.map(|f| {
            if f.starts_with('/') || dir.is_empty() {
                f.to_string()
            } else {
                format!("{}/{f}", dir.trim_end_matches('/'))
            }
        });
        for (w, got) in [("license", p.license_file()), ("readme", p.readme())] {
            if got.as_ref().map(|g| g.as_str()) != want.as_deref() {
                return Err(format!(
                    "{w} file {f:?} of the package in '{dir}' is {got:?}"
                ));
            }
        }
        st.hit("files of packages");
    }

    // kinds of targets
    const KINDS: &[&str] = &[
        "bench",
        "bin",
        "custom-build",
        "cdylib",
        "dylib",
        "example",
        "lib",
        "proc-macro",
        "rlib",
        "staticlib",
        "test",
    ];
    let mut ks: Vec<&str> = KINDS.iter().filter(|_| r.pct(30)).copied().collect();
    r.shuffle(&mut ks);
    let t: cm::Target = serde_json::from_value(json!({"name": "x", "kind": ks, "src_path": "x"}))
        .map_err(|e| e.to_string())?;
    for (k, got) in [
        ("lib", t.is_lib()),
        ("bin", t.is_bin()),
        ("example", t.is_example()),
        ("test", t.is_test()),
        ("bench", t.is_bench()),
        ("custom-build", t.is_custom_build()),
        ("proc-macro", t.is_proc_macro()),
    ] {
        if got != ks.contains(&k) {
            return Err(format!("a target of the kinds {ks:?} is {k}: {got}"));
        }
    }
    st.hit("kinds of targets");
    for k in KINDS {
        let got = k
            .parse::<cm::TargetKind>()
            .map_err(|e| format!("target kind: {e}"))?;
        if tk(&got) != *k {
            return Err(format!("target kind '{k}' is {got:?}"));
        }
    }
    for k in [
        "bin",
        "cdylib",
        "dylib",
        "lib",
        "proc-macro",
        "rlib",
        "staticlib",
    ] {
        let got = k
            .parse::<cm::CrateType>()
            .map_err(|e| format!("crate type: {e}"))?;
        if ct(&got) != k {
            return Err(format!("crate type '{k}' is {got:?}"));
        }
    }
    let eds = ["2015", "2018", "2021", "2024"];
    let mut all = Vec::new();
    for e in eds {
        let got: cm::Edition = e.parse().map_err(|e| format!("edition: {e}"))?;
        if ed(&got) != e || got.as_str() != e || got.to_string() != e {
            return Err(format!("edition '{e}' is {got:?}, displayed as {got}"));
        }
        all.push(got);
    }
    if !all.is_sorted() || all.windows(2).any(|w| w[0] == w[1]) || cm::Edition::default() != all[0]
    {
        return Err("editions are not ordered by year".into());
    }
    for s in ["", "Lib", "2019", "library", "procmacro", " lib"] {
        if s.parse::<cm::TargetKind>().is_ok()
            || s.parse::<cm::CrateType>().is_ok()
            || s.parse::<cm::Edition>().is_ok()
        {
            return Err(format!("'{s}' is read as kind, type or edition"));
        }
    }
    use krates::DepKind as D;
    for (k, s, d, ds) in [
        (cm::DependencyKind::Normal, "normal", D::Normal, ""),
        (cm::DependencyKind::Development, "dev", D::Dev, "dev"),
        (cm::DependencyKind::Build, "build", D::Build, "build"),
    ] {
        if k.to_string() != s || D::from(k) != d || d.to_string() != ds {
            return Err(format!(
                "dependency kind {k:?} is displayed as {k}, and is {:?}",
                D::from(k)
            ));
        }
        for o in [
            cm::DependencyKind::Normal,
            cm::DependencyKind::Development,
            cm::DependencyKind::Build,
        ] {
            if (d == o) != (k == o) {
                return Err(format!("{d:?} == {o:?} is {}", d == o));
            }
        }
    }
    st.sample(|| json!({"members": members, "defaults": defaults, "without resolve": no_deps}));
    let _ = BTreeMap::<u8, u8>::new();
    Ok(())
}

//! Monitors for running cargo: the command line that is made, and what becomes of the output. A stand-in that this binary
//! itself is (see `fake`) takes the place of cargo, records how it was called, and prints what the case tells it to.

use crate::obs::guard;
use crate::rng::Rng;
use crate::runner::Stats;
use krates::cm::MetadataCommand;
use krates::{Cmd, LockOptions};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

type R = Result<(), String>;

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0))
        .collect()
}

/// cargo's stand-in: only ever reads and writes in the directory it is given
pub fn fake() -> ! {
    use std::io::Write;
    let Some(dir) = std::env::var_os("KV_FAKE_DIR") else {
        std::process::exit(99);
    };
    let dir = PathBuf::from(dir);
    let args: Vec<String> = std::env::args_os()
        .skip(1)
        .map(|a| hex(a.as_bytes()))
        .collect();
    let env: BTreeMap<String, String> = std::env::vars_os()
        .filter(|(k, _)| k.as_bytes().starts_with(b"KVX") || k == "CARGO")
        .map(|(k, v)| (hex(k.as_bytes()), hex(v.as_bytes())))
        .collect();
    let cwd = std::env::current_dir()
        .map(|d| hex(d.as_os_str().as_bytes()))
        .unwrap_or_default();
    let n = std::fs::read_dir(&dir).map_or(0, |d| d.count());
    let _ = std::fs::write(
        dir.join(format!("log{n}")),
        json!({"args": args, "env": env, "cwd": cwd}).to_string(),
    );
    let out = std::fs::read(dir.join("out")).unwrap_or_default();
    let err = std::fs::read(dir.join("err")).unwrap_or_default();
    let code: i32 = std::fs::read_to_string(dir.join("code"))
        .ok()
        .and_then(|c| c.parse().ok())
        .unwrap_or(0);
    // in turns, both can be more than a pipe holds
    let (mut o, mut e) = (std::io::stdout().lock(), std::io::stderr().lock());
    let (mut a, mut b) = (&out[..], &err[..]);
    while !a.is_empty() || !b.is_empty() {
        let n = b.len().min(50_000);
        let _ = e.write_all(&b[..n]);
        b = &b[n..];
        let n = a.len().min(30_000);
        let _ = o.write_all(&a[..n]);
        a = &a[n..];
    }
    let _ = o.flush();
    if code < 0 {
        // ended by a signal
        std::process::abort();
    }
    std::process::exit(code);
}

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let base = std::env::var_os("KV_WORK").map_or_else(std::env::temp_dir, PathBuf::from);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = base.join(format!("kvx-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d.canonicalize().expect("scratch directory"))
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn set_env(k: &str, v: Option<&OsStr>) {
    // SAFETY: the only other thread is the watchdog, which does not use the environment
    unsafe {
        match v {
            Some(v) => std::env::set_var(k, v),
            None => std::env::remove_var(k),
        }
    }
}

#[derive(Debug)]
struct Call {
    args: Vec<OsString>,
    env: BTreeMap<OsString, OsString>,
    cwd: PathBuf,
}

fn calls(dir: &Path) -> Vec<Call> {
    let os = |v: &Value| OsString::from_vec(unhex(v.as_str().unwrap_or("")));
    let mut v = Vec::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if !e.file_name().as_bytes().starts_with(b"log") {
            continue;
        }
        let Ok(j) = serde_json::from_slice::<Value>(&std::fs::read(e.path()).unwrap_or_default())
        else {
            continue;
        };
        v.push(Call {
            args: j["args"].as_array().into_iter().flatten().map(os).collect(),
            env: j["env"]
                .as_object()
                .into_iter()
                .flatten()
                .map(|(k, v)| (OsString::from_vec(unhex(k)), os(v)))
                .collect(),
            cwd: os(&j["cwd"]).into(),
        });
    }
    v
}

/// How cargo reads the command line
#[derive(Debug, Default, PartialEq, Eq)]
struct Line {
    format_version: Vec<String>,
    features: BTreeSet<String>,
    all_features: bool,
    no_default_features: bool,
    no_deps: bool,
    frozen: bool,
    locked: bool,
    offline: bool,
    manifest_path: Option<PathBuf>,
    others: Vec<String>,
}

fn read_line(args: &[OsString]) -> Result<Line, String> {
    let mut l = Line::default();
    let mut it = args.iter();
    if it.next().is_none_or(|a| a != "metadata") {
        return Err(format!("cargo is not called for metadata: {args:?}"));
    }
    while let Some(a) = it.next() {
        let s = a.to_string_lossy().into_owned();
        let (flag, val) = match s.split_once('=') {
            Some((f, v)) if f.starts_with("--") => (f.to_string(), Some(OsString::from(v))),
            _ => (s.clone(), None),
        };
        let mut value = || {
            val.clone()
                .or_else(|| it.next().cloned())
                .ok_or_else(|| format!("{flag} has no value: {args:?}"))
        };
        match flag.as_str() {
            "--format-version" => l
                .format_version
                .push(value()?.to_string_lossy().into_owned()),
            "--features" | "-F" => {
                l.features.extend(
                    value()?
                        .to_string_lossy()
                        .split([',', ' '])
                        .filter(|f| !f.is_empty())
                        .map(|f| f.to_string()),
                );
            }
            "--manifest-path" => {
                if l.manifest_path.replace(value()?.into()).is_some() {
                    return Err(format!("two manifest paths: {args:?}"));
                }
            }
            "--all-features" => l.all_features = true,
            "--no-default-features" => l.no_default_features = true,
            "--no-deps" => l.no_deps = true,
            "--frozen" => l.frozen = true,
            "--locked" => l.locked = true,
            "--offline" => l.offline = true,
            _ => l.others.push(s),
        }
    }
    Ok(l)
}

/// options that are not one of those above
fn others(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for _ in 0..r.below(4) {
        match r.below(6) {
            0 => v.extend([
                "--filter-platform".into(),
                "x86_64-unknown-linux-gnu".into(),
            ]),
            1 => v.extend(["--color".into(), "never".into()]),
            2 => v.push("--quiet".into()),
            3 => v.extend(["--config".into(), "net.retry=\"a b\"".into()]),
            4 => v.push("-Zunstable-options".into()),
            _ => v.push(format!("--x{}=é $HOME `x`", r.below(5))),
        }
    }
    v
}

fn feature(r: &mut Rng) -> String {
    r.pick(&[
        "a",
        "b",
        "serde",
        "dep/x",
        "krate/feat-ure",
        "default",
        "a_b",
        "p?/q",
        "z",
        "A",
        "1",
        "feat.ure",
        "plus+",
    ])
    .to_string()
}

fn rel_path(r: &mut Rng) -> PathBuf {
    let mut p = PathBuf::new();
    for _ in 0..r.below(4) {
        p.push(OsStr::from_bytes(match r.below(8) {
            0 => b"a b",
            1 => "é".as_bytes(),
            2 => b"x\xff",
            3 => b"-dash",
            4 => b".",
            5 => b"$d'q\"",
            _ => b"dir",
        }));
    }
    p
}

fn lexical(p: &Path) -> PathBuf {
    p.components()
        .filter(|c| *c != std::path::Component::CurDir)
        .collect()
}

pub fn command(seed: u64, st: &mut Stats) -> R {
    let mut r = Rng::new(seed);
    let s = Scratch::new();
    let real = r.pct(12);
    let fake_dir = s.0.join("fake");
    let tree = s.0.join("tree");
    std::fs::create_dir_all(&fake_dir).map_err(|e| e.to_string())?;
    std::fs::create_dir_all(&tree).map_err(|e| e.to_string())?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    set_env("KV_FAKE_DIR", Some(fake_dir.as_os_str()));

    // which cargo
    let bin = s.0.join("bin");
    std::fs::create_dir_all(&bin).map_err(|e| e.to_string())?;
    std::os::unix::fs::symlink(&exe, bin.join("cargo")).map_err(|e| e.to_string())?;
    std::os::unix::fs::symlink(&exe, bin.join("my cargo")).map_err(|e| e.to_string())?;
    std::os::unix::fs::symlink(&exe, bin.join("env-cargo")).map_err(|e| e.to_string())?;
    let old_path = std::env::var_os("PATH");
    let env_cargo = r.pct(60).then(|| bin.join("env-cargo"));
    set_env("CARGO", env_cargo.as_ref().map(|p| p.as_os_str()));
    set_env("PATH", Some(bin.as_os_str()));
    let res = command_in(&mut r, st, &fake_dir, &tree, &bin, env_cargo, real);
    set_env("PATH", old_path.as_deref());
    set_env("CARGO", None);
    set_env("KV_FAKE_DIR", None);
    let _ = std::env::set_current_dir("/");
    res
}

fn command_in(
    r: &mut Rng,
    st: &mut Stats,
    fake_dir: &Path,
    tree: &Path,
    bin: &Path,
    env_cargo: Option<PathBuf>,
    real: bool,
) -> R {
    let mut want = Line {
        format_version: vec!["1".into()],
        ..Line::default()
    };
    let cargo_path = r.pct(50).then(|| bin.join("my cargo"));
    let program = cargo_path
        .clone()
        .or(env_cargo.clone())
        .unwrap_or_else(|| PathBuf::from("cargo"));
    st.hit(match (&cargo_path, &env_cargo) {
        (Some(_), _) => "cargo from its path",
        (None, Some(_)) => "cargo from the environment",
        _ => "cargo from the search path",
    });
    // paths, relative to the directory of this process or absolute
    std::env::set_current_dir(tree).map_err(|e| e.to_string())?;
    let path = |r: &mut Rng| {
        let p = rel_path(r);
        if r.pct(50) { tree.join(p) } else { p }
    };
    let manifest = r.pct(55).then(|| path(r).join("Cargo.toml"));
    let cwd = r.pct(50).then(|| path(r));
    let mut env: BTreeMap<OsString, OsString> = BTreeMap::new();

    let plain = r.pct(30);
    let mdc = if !plain {
        // krates' own command
        let mut cmd = Cmd::new();
        // any order of calls
        let mut steps: Vec<u8> = (0..8).collect();
        r.shuffle(&mut steps);
        for s in steps {
            match s {
                0 => {
                    if let Some(p) = &cargo_path {
                        if r.pct(15) {
                            // the last one counts
                            cmd.cargo_path("/decoy/of/the/harness/Cargo.toml");
                        }
                        cmd.cargo_path(p);
                    }
                }
                1 => {
                    if let Some(p) = &manifest {
                        if r.pct(15) {
                            // the last one counts
                            cmd.manifest_path("/decoy/of/the/harness/Cargo.toml");
                        }
                        cmd.manifest_path(p);
                    }
                }
                2 => {
                    if let Some(p) = &cwd {
                        if r.pct(15) {
                            // the last one counts
                            cmd.current_dir("/decoy/of/the/harness/Cargo.toml");
                        }
                        cmd.current_dir(p);
                    }
                }
                3 => {
                    if r.pct(40) {
                        cmd.no_default_features();
                        want.no_default_features = true;
                    }
                }
                4 => {
                    if r.pct(40) {
                        cmd.all_features();
                        want.all_features = true;
                        if r.pct(20) {
                            cmd.all_features();
                        }
                    }
                }
                5 => {
                    for _ in 0..r.below(3) {
                        let fs: Vec<String> = (0..r.below(4)).map(|_| feature(r)).collect();
                        want.features.extend(fs.iter().cloned());
                        cmd.features(fs);
                    }
                }
                6 => {
                    for _ in 0..r.below(3) {
                        let (frozen, locked, offline) = (r.pct(50), r.pct(50), r.pct(50));
                        cmd.lock_opts(LockOptions {
                            frozen,
                            locked,
                            offline,
                        });
                        (want.frozen, want.locked, want.offline) = (frozen, locked, offline);
                    }
                }
                _ => {
                    for _ in 0..r.below(3) {
                        let o = others(r);
                        want.others.extend(o.iter().cloned());
                        cmd.other_options(o);
                    }
                }
            }
        }
        let dbg = format!("{cmd:?}");
        guard(move || MetadataCommand::from(cmd)).map_err(|p| format!("panic for {dbg}: {p}"))?
    } else {
        let mut m = MetadataCommand::new();
        use krates::cm;
        if let Some(p) = &cargo_path {
            m.cargo_path(p);
        }
        if let Some(p) = &manifest {
            if r.pct(15) {
                m.manifest_path("/decoy/of/the/harness/Cargo.toml");
            }
            m.manifest_path(p);
        }
        if let Some(p) = &cwd {
            // only krates' own command takes an empty path
            m.current_dir(if p.as_os_str().is_empty() {
                Path::new(".")
            } else {
                p
            });
        }
        if r.pct(40) {
            m.no_deps();
            want.no_deps = true;
        }
        let _ = cm::DependencyKind::Normal;
        if r.pct(50) {
            want.others = others(r);
            m.other_options(vec!["--gone".to_string()]);
            m.other_options(want.others.clone());
        }
        for _ in 0..r.below(3) {
            let k = OsString::from(match r.below(8) {
                // which cargo runs is said by other things
                0 => "CARGO".to_string(),
                _ => format!("KVX{}", r.below(3)),
            });
            let v = OsString::from(*r.pick(&["", "a b", "é", "x=y"]));
            m.env(k.clone(), v.clone());
            env.insert(k, v);
        }
        m
    };
    let mdc = if r.pct(30) { mdc.clone() } else { mdc };

    let c = mdc.cargo_command();
    let args: Vec<OsString> = c.get_args().map(|a| a.to_owned()).collect();
    if c.get_program() != program.as_os_str() {
        return Err(format!(
            "the program is {:?} instead of {program:?}",
            c.get_program()
        ));
    }
    let got_cwd = c.get_current_dir().map(|p| p.to_owned());
    let mut got_env: BTreeMap<OsString, OsString> = BTreeMap::new();
    for (k, v) in c.get_envs() {
        let Some(v) = v else {
            return Err(format!("variable {k:?} is removed from the environment"));
        };
        got_env.insert(k.to_owned(), v.to_owned());
    }
    judge(
        &args,
        got_cwd.as_deref(),
        tree,
        &want,
        manifest.as_deref(),
        cwd.as_deref(),
        plain,
    )?;
    if got_env != env {
        return Err(format!("the environment is {got_env:?} instead of {env:?}"));
    }
    st.print(
        format!("{args:?}{got_cwd:?}{manifest:?}")
            .replace(&*tree.to_string_lossy(), "")
            .as_bytes(),
    );
    st.hit(if plain {
        "metadata commands"
    } else {
        "commands"
    });
    st.add("features given", want.features.len() as u64);
    st.add("other options given", want.others.len() as u64);
    match (&manifest, &cwd) {
        (Some(_), Some(_)) => st.hit("manifest path and working directory"),
        (Some(m), _) if m.is_absolute() => st.hit("absolute manifest path"),
        (Some(_), _) => st.hit("relative manifest path"),
        (_, Some(_)) => st.hit("working directory"),
        _ => st.hit("neither manifest path nor working directory"),
    }
    st.sample(|| json!(args.iter().map(|a| a.to_string_lossy()).collect::<Vec<_>>()));

    if real {
        for p in [manifest.as_ref().and_then(|m| m.parent()), cwd.as_deref()]
            .into_iter()
            .flatten()
        {
            std::fs::create_dir_all(lexical(&tree.join(p))).map_err(|e| e.to_string())?;
        }
        std::fs::write(fake_dir.join("code"), "7").map_err(|e| e.to_string())?;
        std::fs::write(fake_dir.join("err"), "no").map_err(|e| e.to_string())?;
        match guard(|| mdc.exec()) {
            Ok(Err(krates::cm::Error::CargoMetadata { stderr })) if stderr == "no" => {}
            Ok(x) => return Err(format!("the command returned {x:?}")),
            Err(p) => return Err(format!("panic: {p}")),
        }
        let cs = calls(fake_dir);
        let [call] = &cs[..] else {
            return Err(format!("cargo was called {} times", cs.len()));
        };
        // the process sees what the command says
        judge(
            &call.args,
            Some(&call.cwd),
            tree,
            &want,
            manifest.as_deref(),
            cwd.as_deref(),
            plain,
        )?;
        if call.args != args {
            return Err(format!(
                "cargo was called with {:?}, but the command has {args:?}",
                call.args
            ));
        }
        if let Some(c) = &env_cargo {
            env.entry("CARGO".into()).or_insert_with(|| c.into());
        }
        if call.env != env {
            return Err(format!(
                "the environment of cargo was {:?} instead of {env:?}",
                call.env
            ));
        }
        st.hit("commands that were run");
    }
    Ok(())
}

fn judge(
    args: &[OsString],
    got_cwd: Option<&Path>,
    tree: &Path,
    want: &Line,
    manifest: Option<&Path>,
    cwd: Option<&Path>,
    plain: bool,
) -> R {
    let mut got = read_line(args)?;
    let eff = lexical(&tree.join(got_cwd.unwrap_or(Path::new(""))));
    let gm = got.manifest_path.take();
    if got != *want {
        return Err(format!(
            "cargo is called with {got:?} instead of {want:?}: {args:?}"
        ));
    }
    match manifest {
        Some(m) => {
            let Some(gm) = gm else {
                return Err(format!(
                    "the manifest path {m:?} is not given to cargo: {args:?}"
                ));
            };
            // relative to where cargo runs
            let wanted = if plain {
                lexical(&eff.join(m))
            } else {
                lexical(&tree.join(m))
            };
            if lexical(&eff.join(&gm)) != wanted {
                return Err(format!(
                    "the manifest is {gm:?} in {eff:?} instead of {wanted:?}"
                ));
            }
            // cargo has to run in the directory of the manifest for its configuration
            if !plain && Some(&*eff) != wanted.parent() {
                return Err(format!(
                    "cargo runs in {eff:?}, but the manifest is {wanted:?}"
                ));
            }
        }
        None => {
            if let Some(gm) = gm {
                return Err(format!(
                    "a manifest path {gm:?} is given to cargo, though none was set"
                ));
            }
        }
    }
    if manifest.is_none() || plain {
        let w = lexical(&tree.join(cwd.unwrap_or(Path::new(""))));
        if eff != w {
            return Err(format!("cargo runs in {eff:?} instead of {w:?}"));
        }
    }
    Ok(())
}

// what comes of the output

fn noise(r: &mut Rng, lines: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..lines {
        v.extend_from_slice(
            r.pick(&[
                "    Blocking waiting for file lock on package cache",
                "warning: {\"a\": 1}",
                " {\"packages\":[]}",
                "",
                "[1, 2]",
                "é 日本",
                "null",
                "\u{1b}[33mwarning\u{1b}[0m",
                "x{",
            ])
            .as_bytes(),
        );
        v.extend_from_slice(r.pick(&["\n", "\n", "\r\n"]).as_bytes());
    }
    v
}

pub fn exec(seed: u64, st: &mut Stats) -> R {
    let s = Scratch::new();
    set_env("KV_FAKE_DIR", Some(s.0.as_os_str()));
    let res = exec_in(&s.0, seed, st);
    set_env("KV_FAKE_DIR", None);
    res
}

#[derive(Debug, PartialEq, Eq, Clone)]
enum Want {
    Json,
    Utf8,
    ErrUtf8,
    NoJson,
    BadJson,
    Failed(String),
    Io,
}

fn exec_in(dir: &Path, seed: u64, st: &mut Stats) -> R {
    let mut r = Rng::new(seed);
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let c = crate::graph::gen_case(seed ^ 0xe8ec, crate::gencfg::Focus::Any);
    let doc = c.text.to_string();
    let big = r.pct(12);
    let mut out = Vec::new();
    let mut err = Vec::new();
    let mut code = 0;
    let n = if big { 9000 } else { r.below(4) };
    let before = noise(&mut r, n);
    let n = if big { 9000 } else { r.below(4) };
    let mut text = noise(&mut r, n);
    if r.pct(40) {
        text.extend_from_slice(b"error: failed");
    }
    err.append(&mut text);
    let mut want = match r.below(14) {
        0..=5 => {
            out.extend(&before);
            out.extend_from_slice(doc.as_bytes());
            if r.pct(70) {
                out.extend_from_slice(r.pick(&[&b"\n"[..], b"\r\n"]));
                let k = r.below(3);
                out.extend(noise(&mut r, k));
                if r.pct(20) {
                    out.extend_from_slice(b"{ not json\n");
                }
            }
            Want::Json
        }
        6 => {
            out.extend(&before);
            Want::NoJson
        }
        7 => {
            out.extend(&before);
            let cut = (1..doc.len())
                .rev()
                .nth(r.below(doc.len() - 1))
                .unwrap_or(1);
            let cut = (1..=cut)
                .rev()
                .find(|i| doc.is_char_boundary(*i))
                .unwrap_or(1);
            out.extend_from_slice(&doc.as_bytes()[..cut]);
            out.push(b'\n');
            Want::BadJson
        }
        8 => {
            out.extend_from_slice(
                r.pick(&["{}\n", "{\"packages\":[]}\n", "{\"packages\":1}", "{"])
                    .as_bytes(),
            );
            Want::BadJson
        }
        9 => {
            out.extend(&before);
            out.extend_from_slice(b"x\xff\xfe\n");
            if r.pct(50) {
                out.extend_from_slice(doc.as_bytes());
            }
            Want::Utf8
        }
        10 | 11 => {
            // the status decides, whatever is printed
            if r.pct(50) {
                out.extend_from_slice(doc.as_bytes());
            }
            if r.pct(20) {
                out.extend_from_slice(b"\xff");
            }
            code = *r.pick(&[1, 101, 2, 255, -1]);
            Want::Failed(String::from_utf8_lossy(&err).into_owned())
        }
        12 => {
            code = 101;
            err.extend_from_slice(b"\xc3(");
            Want::ErrUtf8
        }
        _ => {
            out.extend_from_slice(doc.as_bytes());
            Want::Io
        }
    };
    std::fs::write(dir.join("out"), &out).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("err"), &err).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("code"), code.to_string()).map_err(|e| e.to_string())?;
    let mut path = exe;
    let mut cwd = dir.to_path_buf();
    if want == Want::Io {
        match r.below(3) {
            0 => path = dir.join("missing"),
            1 => path = dir.join("out"),
            _ => cwd = dir.join("missing"),
        }
    }
    let mut verbose = r.pct(10);
    if big {
        verbose = false;
    }
    if verbose && matches!(want, Want::Failed(_) | Want::ErrUtf8) {
        // the output is shown instead
        want = Want::Failed(String::new());
    }
    let make = |v: bool| {
        let mut m = MetadataCommand::new();
        m.cargo_path(&path).current_dir(&cwd).verbose(v);
        m
    };

    st.print(&[&out[..], b"|", &err, &[code as u8]].concat());
    st.hit(match &want {
        Want::Json => "json found",
        Want::Utf8 => "output is not utf-8",
        Want::ErrUtf8 => "error output is not utf-8",
        Want::NoJson => "no json",
        Want::BadJson => "broken json",
        Want::Failed(_) => "cargo fails",
        Want::Io => "cargo does not start",
    });
    if big {
        st.hit("more output than pipes hold");
    }
    let fits = |got: &Result<krates::Metadata, krates::cm::Error>| -> R {
        use krates::cm::Error as E;
        let ok = match (got, &want) {
            (Ok(m), Want::Json) => {
                let direct: krates::Metadata =
                    serde_json::from_str(&doc).map_err(|e| e.to_string())?;
                if crate::jprops::v_meta(m) != crate::jprops::v_meta(&direct) {
                    return Err("the metadata is not that of the document cargo printed".into());
                }
                true
            }
            (Err(E::Utf8(_)), Want::Utf8)
            | (Err(E::ErrUtf8(_)), Want::ErrUtf8)
            | (Err(E::NoJson), Want::NoJson)
            | (Err(E::Json(_)), Want::BadJson)
            | (Err(E::Io(_)), Want::Io) => true,
            (Err(E::CargoMetadata { stderr }), Want::Failed(s)) => stderr == s,
            _ => false,
        };
        if !ok {
            let g = match got {
                Ok(_) => "metadata".to_string(),
                Err(e) => format!("{e:?}").chars().take(300).collect(),
            };
            let w: String = format!("{want:?}").chars().take(300).collect();
            return Err(format!(
                "running cargo gives {g} instead of {w} (exit {code})"
            ));
        }
        if let Err(e) = got {
            let shown = e.to_string();
            if let E::CargoMetadata { stderr } = e
                && !shown.contains(stderr)
            {
                return Err("the error does not show what cargo wrote".into());
            }
            use std::error::Error;
            if shown.is_empty()
                || e.source().is_some() != !matches!(e, E::CargoMetadata { .. } | E::NoJson)
            {
                return Err(format!(
                    "the error is displayed as '{shown}', with source {:?}",
                    e.source()
                ));
            }
        }
        Ok(())
    };
    let got = guard(|| make(verbose).exec()).map_err(|p| format!("panic: {p}"))?;
    fits(&got)?;
    let n = calls(dir).len();
    if n != usize::from(want != Want::Io) {
        return Err(format!("cargo was called {n} times"));
    }
    if verbose {
        return Ok(());
    }
    // the same through the builder
    let mut cmd = Cmd::new();
    cmd.cargo_path(&path).current_dir(&cwd);
    let b = c.cfg.builder();
    let mut filtered = Vec::new();
    let built = guard(|| {
        b.build::<krates::Package, krates::Edge, _>(cmd, |p: krates::Package| filtered.push(p))
    })
    .map_err(|p| format!("panic in build: {p}"))?;
    match built {
        Err(krates::Error::Metadata(e)) => {
            let outer = krates::Error::Metadata(e);
            use std::error::Error;
            if outer.source().is_none() || outer.to_string().is_empty() {
                return Err("the error of the builder has no source".into());
            }
            let krates::Error::Metadata(e) = outer else {
                unreachable!()
            };
            fits(&Err(e))?;
            if !filtered.is_empty() {
                return Err("packages are filtered out of no metadata".into());
            }
            st.hit("builds that fail");
        }
        Err(krates::Error::NoRootKrates) if want == Want::Json => {
            if !crate::model::expect(&c.rw, &c.cfg).present.is_empty() {
                return Err("no root crates, though there are".into());
            }
        }
        Err(e) => return Err(format!("the builder fails: {e}")),
        Ok(k) => {
            if want != Want::Json {
                return Err(format!("a graph is built from {want:?}"));
            }
            let o = crate::obs::observe(&c.rw, &k, &filtered)?;
            let (_, run) = crate::graph::run_expected(&c)?;
            let Some(run) = run else {
                return Err("a graph is built even though no root crate is left".into());
            };
            if run.o != o {
                return Err("the graph differs from that of the metadata on its own".into());
            }
            st.hit("graphs built");
        }
    }
    Ok(())
}

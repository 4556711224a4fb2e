//! The properties, and how each is run.

use crate::dprops as d;
use crate::gencfg::Focus;
use crate::gprops as g;
use crate::iprops as i;
use crate::jprops as j;
use crate::runner::{Prop, Stats};
use crate::tprops as t;
use crate::xprops as x;
use serde_json::Value;

const WORLD: &str = "package worlds drawn at random (members, registries, git, path, renames, kinds, targets, features) and \
resolved as cargo does, printed as the json of cargo metadata in both id formats and any order, 2.5% real metadata documents; \
random builder configuration. Non-trivial: the graph has a link and more than one crate; distinct by the observed graph";

fn graph(
    id: &'static str,
    run: fn(u64, &mut Stats) -> Result<(), String>,
    describe: fn(u64) -> Value,
    need: &'static [&'static str],
) -> Prop {
    Prop {
        id,
        run,
        describe: Some(describe),
        quick: 200_000,
        thorough: 6_000_000,
        rule: WORLD,
        need,
        assumptions: &[
            "the simulated cargo resolver and printer agree with cargo (C30 compares them with the real one)",
            "cfg-expr evaluates cfg() as rustc does (its tables are compared with rustc's where C06 uses them)",
        ],
        jobs: 8,
    }
}

fn text(
    id: &'static str,
    run: fn(u64, &mut Stats) -> Result<(), String>,
    quick: u64,
    rule: &'static str,
    need: &'static [&'static str],
) -> Prop {
    Prop {
        id,
        run,
        describe: None,
        quick,
        thorough: quick * 40,
        rule,
        need,
        assumptions: &[],
        jobs: 8,
    }
}

fn any(s: u64) -> Value {
    crate::graph::describe(s, Focus::Any)
}

pub fn all() -> &'static [Prop] {
    static P: std::sync::OnceLock<Vec<Prop>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        vec![
            graph(
                "C01",
                g::completeness,
                any,
                &["crates", "optional dependencies turned on"],
            ),
            graph(
                "C02",
                g::soundness,
                any,
                &[
                    "crates",
                    "optional dependencies left off",
                    "declarations cut by target",
                    "declarations cut by kind",
                    "declarations cut by exclusion",
                    "weak features without effect",
                ],
            ),
            graph(
                "C03",
                g::features,
                any,
                &["features", "features off", "weak features applied"],
            ),
            graph(
                "C04",
                g::links,
                any,
                &[
                    "normal links",
                    "dev links",
                    "build links",
                    "links with target",
                    "links with feature",
                ],
            ),
            graph(
                "C05",
                g::filter_callback,
                any,
                &[
                    "packages accounted for",
                    "crates filtered out",
                    "other callbacks",
                ],
            ),
            graph(
                "C06",
                g::targets,
                |s| crate::graph::describe(s, Focus::Targets),
                &[
                    "cfg expressions that hold",
                    "cfg expressions that do not hold",
                    "triples that match",
                    "triples that do not match",
                    "cases without the feature 'targets' of krates",
                ],
            ),
            graph(
                "C07",
                g::ignore_kind,
                |s| crate::graph::describe(s, Focus::Ignore),
                &[
                    "declarations cut by kind",
                    "links of workspace crates",
                    "links of other crates",
                ],
            ),
            graph(
                "C08",
                g::exclude,
                |s| crate::graph::describe(s, Focus::Exclude),
                &[
                    "packages excluded",
                    "exclusions with url",
                    "exclusions with version",
                ],
            ),
            graph(
                "C09",
                g::roots,
                |s| crate::graph::describe(s, Focus::Roots),
                &[
                    "selected crates: some members",
                    "selected crates: all members",
                    "root package",
                    "workspace of a root package",
                    "virtual workspace",
                    "workspaces on disk",
                    "workspaces on disk, behind a link",
                    "selected crates by relative path",
                    "selected crates by path with '..'",
                    "selected crates by link to their directory",
                    "selected crates that are not on disk",
                ],
            ),
            graph(
                "C10",
                g::lookup,
                any,
                &[
                    "identifiers found",
                    "identifiers not found",
                    "features found",
                    "features not found",
                    "workspace members",
                ],
            ),
            graph(
                "C11",
                g::direct,
                any,
                &["direct dependencies", "direct dependents"],
            ),
            graph(
                "C12",
                g::resolved,
                any,
                &[
                    "declarations resolved",
                    "declarations without package",
                    "crates with several packages of one name",
                ],
            ),
            graph(
                "C13",
                g::krates_filtered,
                any,
                &[
                    "crates left out",
                    "crates kept",
                    "equal to a graph without the kind",
                ],
            ),
            graph(
                "C14",
                g::order,
                any,
                &["repeated runs", "shuffled documents"],
            ),
            graph(
                "C15",
                g::id_formats,
                |_| Value::Null,
                &["identifiers compared", "pairs of graphs"],
            ),
            text(
                "C16",
                t::kids,
                1_000_000,
                "eight related package ids per case, in the opaque and the stable format with encoded git references; all pairs \
compared. Distinct by the ids",
                &[
                    "opaque ids",
                    "stable git ids with an encoded reference",
                    "stable path ids",
                    "stable registry ids",
                    "equal ids that are written differently",
                ],
            ),
            Prop {
                describe: Some(j::describe),
                ..text(
                    "C17",
                    j::deserialize,
                    90_000,
                    "random documents of the metadata format with every field, optional ones left out, fields of other versions, \
any order, space and escapes, read in five ways; then without a required field, with a value of another type, and cut off. \
Distinct by the text",
                    &[
                        "optional fields left out",
                        "fields of other versions",
                        "packages",
                        "nodes",
                        "required fields left out",
                        "values of another type",
                        "documents cut off",
                    ],
                )
            },
            #[cfg(feature = "serialize")]
            Prop {
                describe: Some(j::describe),
                ..text(
                    "C18",
                    j::serialize,
                    120_000,
                    "random metadata with every field, written in three ways, read and compared, and its parts on their own. \
Distinct by what is written",
                    &["round trips", "packages", "dependencies", "targets", "nodes"],
                )
            },
            text(
                "C29",
                j::accessors,
                180_000,
                "metadata of simulated workspaces with and without resolve graph and default members, and each of the kinds, \
types, and editions. Distinct by the document",
                &[
                    "root packages",
                    "root packages without a resolve graph",
                    "no root package",
                    "workspace packages",
                    "default packages",
                    "no default members",
                    "sources that are crates.io",
                    "other sources",
                    "files of packages",
                    "kinds of targets",
                    "documents with related ids",
                ],
            ),
            text(
                "C19",
                t::spec_parse,
                1_500_000,
                "specs written from parts, the same with random changes, and random sequences of the tokens of specs; compared \
with a parser of the documented grammar. Distinct by the text",
                &[
                    "name",
                    "name and version",
                    "url",
                    "url and version",
                    "url and name",
                    "url, name and version",
                    "accepted, made from pieces",
                    "rejected",
                ],
            ),
            text(
                "C20",
                t::spec_match,
                1_000_000,
                "a package of any source in either id format, and specs that agree with it in all, or all but one part; as values and \
written out. Distinct by spec and package",
                &[
                    "matches with the url of a path",
                    "matches with a url without the git reference",
                    "matches with url",
                    "matches without url",
                    "no match only for the url",
                    "no match only for the version",
                    "written specs",
                ],
            ),
            text(
                "C27",
                t::features,
                1_000_000,
                "feature values composed from crate and feature names, and any sequence of the marks. Distinct by the text",
                &[
                    "features",
                    "dependencies",
                    "features of dependencies",
                    "weak features",
                ],
            ),
            text(
                "C21",
                x::command,
                96_000,
                "commands configured in any order with any paths; the command line is read as cargo does. One of eight is run with a \
stand-in for cargo that records how it is called. Distinct by the command line",
                &[
                    "cargo from its path",
                    "cargo from the environment",
                    "cargo from the search path",
                    "metadata commands",
                    "commands",
                    "features given",
                    "other options given",
                    "manifest path and working directory",
                    "absolute manifest path",
                    "relative manifest path",
                    "working directory",
                    "commands that were run",
                ],
            ),
            text(
                "C22",
                x::exec,
                18_000,
                "a stand-in for cargo that prints a document among other lines, none, a broken one, text that is not utf-8, or much, \
fails, is ended by a signal or can not be started; run through the command and the builder. Distinct by what is printed",
                &[
                    "json found",
                    "output is not utf-8",
                    "error output is not utf-8",
                    "no json",
                    "broken json",
                    "cargo fails",
                    "cargo does not start",
                    "more output than pipes hold",
                    "builds that fail",
                    "graphs built",
                ],
            ),
            graph(
                "C23",
                i::index,
                i::describe_index,
                &[
                    "packages compared",
                    "features taken from the index",
                    "features of old entries",
                    "features the index has differently",
                    "packages the index does not know",
                    "packages from elsewhere",
                ],
            ),
            Prop {
                quick: 120_000,
                thorough: 1_500_000,
                rule: "metadata without resolve graph, without anything, without a root left, with features that are on but not \
declared; chains, cycles, ladders and fans of up to 3000 crates or features. Every query on the nodes of what is built. Distinct by \
the document",
                ..graph(
                    "C24",
                    i::total,
                    i::describe_total,
                    &[
                        "empty documents",
                        "documents without resolve graph",
                        "documents without root left",
                        "documents with undeclared features",
                        "shapes",
                        "shapes of more than 500 crates or 300 features",
                        "queries",
                    ],
                )
            },
            graph(
                "C25",
                g::feature_nodes,
                any,
                &[
                    "feature nodes linked to their crate",
                    "edges between features",
                    "features turned on by features",
                ],
            ),
            graph(
                "C26",
                g::search,
                any,
                &[
                    "names with several matches",
                    "requirements with match",
                    "requirements without match",
                ],
            ),
            graph(
                "C28",
                g::monotone,
                any,
                &[
                    "crates removed",
                    "links removed",
                    "targets",
                    "one target less",
                    "one more kind ignored",
                    "one more package excluded",
                    "only the root package",
                ],
            ),
            Prop {
                describe: Some(d::describe),
                thorough: 120_000,
                ..text(
                    "C30",
                    d::real,
                    2_400,
                    "random workspaces written to disk, with registries as vendored directories; read by the real cargo through the \
command of krates with a random configuration, and by cargo tree for one target and a choice of kinds. Non-trivial: the graph has a \
link and more than one crate; distinct by the seed of the workspace",
                    &[
                        "documents equal to the ones of the simulation",
                        "documents for one platform",
                        "crates",
                        "links",
                        "features",
                        "trees compared",
                        "crates cargo uses",
                        "features cargo turns on",
                    ],
                )
            },
            graph(
                "C31",
                g::custom_types,
                any,
                &["nodes compared", "edges compared", "dot graphs"],
            ),
        ]
    })
}

pub fn find(id: &str) -> Option<&'static Prop> {
    all().iter().find(|p| p.id == id)
}

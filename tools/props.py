"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/props.py, in /verif)."""
import json, os

B = "src/builder.rs"
L = "src/lib.rs"
S = "src/pkgspec.rs"
FEAT = "src/builder/features.rs"
IDX = "src/builder/index.rs"
CM = "src/cm.rs"
DE = "src/cm/de.rs"
SER = "src/cm/ser.rs"
CMD = "src/cm/cmd.rs"
ERR = "src/cm/errors.rs"

ORACLE = ("Differential runtime monitoring: the real builder runs on randomly generated package worlds (resolved by a simulated cargo) "
          "and on real metadata, and every graph it returns is compared with an independent reference model. ")
WORLDS = ("Holds on the executions of one run (counts in the evidence), not for all inputs. Trusts the simulated resolver and "
          "metadata printer, which C30 compares with the real cargo. ")

P = []
def prop(id, title, statement, over, text, why, files, mech, obs, tech, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, obs=obs, tech=tech, note=note))

prop("C01", "Every crate the build would use under the filters is in the graph",
 "A graph built from cargo metadata has every package that cargo's rules reach from the selected root crates over dependencies that the "
 "configured kinds, scopes, targets and exclusions leave. This includes optional dependencies that any enabled feature turns on: by 'dep:x', "
 "by the feature of the same name, by 'x/f', transitively, through renames, and from other crates.",
 ["inputs", "configurations"], "for every metadata document cargo prints for a resolvable workspace and every builder configuration",
 "The tests look at a few fixed workspaces under a few filters; a crate can go missing for any combination of renames, kinds, targets and features.",
 [B, FEAT], [("worklist over packages and features", "Builder::build_with_metadata"), ("feature grammar", FEAT)],
 ["Krates::krates", "Krates::graph"],
 "runtime monitor: crate set of each graph against a reference activation model, on generated worlds and real metadata",
 ORACLE + WORLDS)

prop("C02", "The graph has no crate the build would not use under the filters",
 "Every crate of the graph is a selected root or is reached from one over dependencies that the configured kinds, scopes, targets and exclusions "
 "leave and that cargo activates: an optional dependency that no enabled feature turns on (a weak 'x?/f' does not) is not there, and neither is what only it needs. "
 "Every crate node can be reached from a root crate along the edges of the graph.",
 ["inputs", "configurations"], "for every metadata document cargo prints for a resolvable workspace and every builder configuration",
 "Superfluous crates only show for particular combinations of inactive optional dependencies, weak features and filters; the tests hold a few snapshots.",
 [B, FEAT], [("worklist, weak feature handling", "Builder::build_with_metadata")], ["Krates::krates", "Krates::graph"],
 "runtime monitor: crate set and reachability of each graph against a reference activation model",
 ORACLE + WORLDS)

prop("C03", "The enabled features of every crate are exactly those that get turned on",
 "The features reported for a crate in the graph are those that cargo resolved for it if it is a root, and else those that the crates in the graph that remain "
 "under the filters turn on: the features and default features of their kept dependency declarations, 'x/f' and 'x?/f' of their own enabled features, and all "
 "features these enable in turn. No feature is added for a declaration that is filtered out, and a feature of a dependency is never attributed to the crate that names it.",
 ["inputs", "configurations"], "for every metadata document cargo prints and every builder configuration, for every crate of the graph",
 "Snapshots cover a few feature sets; the set is a fixpoint over the whole graph that depends on every filter and on the order in which crates are visited.",
 [B, FEAT, L], [("feature propagation", "Builder::build_with_metadata"), ("lookup", "Krates::get_enabled_features")],
 ["Krates::get_enabled_features", "Node::Krate features"],
 "runtime monitor: feature sets of each crate node against a fixpoint reference model",
 ORACLE + WORLDS + "One known finding: the feature that only stands for an optional dependency is not listed when only 'x/f' turns it on.")

prop("C04", "Links between crates carry exactly the kept dependency declarations",
 "Between two crates of the graph there is a link, directly or through a node for a requested feature, for each kept and activated dependency declaration: it has the kind "
 "(normal, dev, build) and the target condition of that declaration, and leads to the features that it requests. There are no other dependency links, and none is doubled.",
 ["inputs", "configurations"], "for every metadata document cargo prints and every builder configuration, for every pair of crates",
 "Declarations of one crate under several kinds, targets, renames and versions interact; the tests have few of them.",
 [B], [("matching of resolved dependencies with declarations, edge insertion", "Builder::build_with_metadata")], ["Krates::graph edges", "Krates::get_deps"],
 "runtime monitor: multiset of edges of each graph against the links of a reference model",
 ORACLE + WORLDS)

prop("C05", "Each package is in the graph or reported as filtered, exactly once",
 "When a graph is built, each package of the metadata is either a crate of the graph or passed to the filter callback, never both, never twice, and its data is "
 "unchanged. The graph is the same whatever callback is used.",
 ["inputs", "configurations"], "for every metadata document and every builder configuration",
 "The tests only compare the names of filtered crates for a few configurations.",
 [B], [("partition of packages into nodes and filtered crates", "Builder::build_with_metadata"), ("callback", "OnFilter")], ["OnFilter::filtered", "Krates::krates"],
 "runtime monitor: conservation of packages between metadata, graph and filter callback",
 "Every package of every run is accounted for by identity and by content. " + WORLDS)

prop("C06", "Target filters keep exactly the dependencies that can apply to a target",
 "With include_targets, a dependency for a platform is kept if and only if its condition can hold for at least one given target: a plain triple has to equal the target's, and a cfg() "
 "expression has to be true for a single target with its properties and the target features given for it; conditions on anything else are false. "
 "Dependencies without platform are kept, and if no target is given so are all others but those whose condition is false by its literals and empty lists alone, such as cfg(any()) and cfg(false).",
 ["inputs", "configurations"], "for every cfg expression, triple, list of targets and target features, with and without the built-in target table",
 "tests/cfg.rs has a handful of expressions and targets; the meaning of all/any/not over known and unknown predicates is combinatorial.",
 [B], [("evaluation of expressions", "TargetFilter::eval, TargetFilter::matches_triple")], ["Krates::krates", "Krates::graph edges"],
 "runtime monitor: dependencies kept for random cfg expressions and targets against a separate evaluator",
 ORACLE + "The properties of targets are those of rustc's target specs for the triples used. ")

prop("C07", "ignore_kind drops exactly the links of that kind within its scope",
 "ignore_kind(kind, scope) removes the dependencies of that kind of workspace members (Workspace), of all other crates (NonWorkspace), or of both (All), and nothing else; several calls add up. "
 "Whether a crate belongs to the workspace is decided by the workspace members of the metadata, not by the chosen roots.",
 ["inputs", "configurations"], "for every metadata document and every combination of kinds and scopes",
 "tests/kind.rs checks single kinds on one workspace.",
 [B], [("ignored kinds", "Builder::ignore_kind, Builder::build_with_metadata")], ["Krates::krates", "Krates::graph edges"],
 "runtime monitor: graphs with ignored kinds against a reference model", ORACLE + WORLDS)

prop("C08", "Excluded packages and all links to them are absent, others unaffected",
 "A package that matches an exclusion (by name, version and url, as given) is never a crate of the graph, even as a root, no link leads to it, and its dependencies are only there if something else needs them. "
 "Packages that match no exclusion are not affected in any other way.",
 ["inputs", "configurations"], "for every metadata document and every list of package specs",
 "tests/exclude.rs has three fixed specs on one workspace.",
 [B, S], [("exclusion", "Builder::exclude, Builder::build_with_metadata"), ("matching", "PkgSpec::matches")], ["Krates::krates", "OnFilter::filtered"],
 "runtime monitor: graphs with exclusions against a reference model", ORACLE + WORLDS)

prop("C09", "The root crates are those that were selected",
 "Without selection the root is the root package of the metadata, or all workspace members if there is none or workspace(true) is given. With include_workspace_crates the roots are exactly the members whose "
 "directory or manifest is named, or all members if only the workspace root is named; if no root is left, building fails with an error that says so.",
 ["inputs", "configurations"], "for every workspace and every list of manifest or directory paths",
 "tests/workspace.rs tries a few selections in one workspace.",
 [B], [("root selection", "Builder::include_workspace_crates, Builder::build_with_metadata")], ["Krates::krates", "Krates::workspace_members", "Error::NoRootKrates"],
 "runtime monitor: crate set for random root selections against a reference model, plus real directories", ORACLE + WORLDS)

prop("C10", "Lookups find exactly what is in the graph, in sorted order",
 "Crates are ordered by name, version and source, without duplicates, and the crate nodes come first in the graph. nid_for_kid, node_for_kid, get_node, get_enabled_features and indexing find a crate, or a feature of a crate, "
 "by its identifier if and only if it is in the graph, and agree with each other; len, krates, workspace_members and workspace_root agree with the graph and the metadata.",
 ["inputs", "configurations"], "for every graph and every identifier, known or unknown, and every feature name",
 "The tests look up a few known crates; a wrong order only shows for particular sets of names, versions and sources.",
 [L], [("binary search over ordered nodes", "Krates::nid_for_kid, Krates::get_node")], ["Krates::nid_for_kid", "Krates::node_for_kid", "Krates::get_node", "Krates::get_enabled_features", "Krates::workspace_members"],
 "runtime monitor: every lookup on every graph against a linear scan", WORLDS)

prop("C11", "Direct dependencies and dependents mirror the links between crates",
 "direct_dependents of a crate gives exactly the crates with a link to it, also through requested features, and direct_dependencies gives every crate a crate links to, each once, with its own node and data, and none that no path through features leads to. "
 "Both agree with each other for links the declarations stand for.",
 ["inputs", "configurations"], "for every graph and every node",
 "Two snapshots of one graph; features between crates make paths of any length.",
 [L], [("traversal through feature nodes", "Krates::direct_dependencies, Krates::direct_dependents")], ["Krates::direct_dependencies", "Krates::direct_dependents"],
 "runtime monitor: both queries for every node against the links of the graph", WORLDS + "One known finding: crates that are only reached over a feature of a dependency are given as well.")

prop("C12", "resolved_dependency gives the package of that very declaration",
 "For each dependency declaration of a crate in the graph, resolved_dependency gives the package that cargo resolved this declaration to, if the declaration is kept under the filters, also with renames, several versions of "
 "one package, or several packages of one name; it gives nothing for other declarations, indices out of range, and nodes that are no crates.",
 ["inputs", "configurations"], "for every graph, every crate and every index of a declaration",
 "One test on one workspace; the mapping is by position and depends on renames, duplicates and filters.",
 [L, B], [("dependency mapping", "Krates::resolved_dependency, Builder::build_with_metadata")], ["Krates::resolved_dependency"],
 "runtime monitor: every declaration of every crate against the resolution the world was made with", ORACLE + WORLDS)

prop("C13", "krates_filtered leaves out crates only depended upon by the given kind",
 "krates_filtered(kind) gives every crate that a graph built with that kind ignored everywhere would have, and none that can only be reached from the workspace members over links of that kind. "
 "The result is ordered as the crates of the graph, without duplicates.",
 ["inputs", "configurations"], "for every graph and every kind",
 "One snapshot for one kind.",
 [L], [("traversal that skips a kind", "Krates::krates_filtered")], ["Krates::krates_filtered"],
 "runtime monitor: result bounded from both sides by reference graphs", WORLDS + "One known finding: crates that features or members that are no roots keep are given as well, unlike in a graph built with the kind ignored.")

prop("C14", "The graph does not depend on the order of its input, nor on the run",
 "Building twice from the same metadata gives identical graphs, with equal node and edge indices. Metadata whose packages, nodes, dependencies, targets and features are listed in any other order, and builder options given in any other order, give the same crates, order, features, links and resolved dependencies.",
 ["inputs", "configurations"], "for every metadata document and every permutation of its lists and object keys",
 "No test permutes its input; random hash seeds and visiting order can change a result without failing a snapshot.",
 [B], [("ordered maps and final sort", "Builder::build_with_metadata")], ["Krates::graph", "OnFilter::filtered"],
 "runtime monitor: metamorphic comparison of repeated and permuted builds", WORLDS)

prop("C15", "Old and new package id formats give the same graph",
 "For the same workspace, metadata with the opaque package ids of cargo before 1.77 and with the stable ids after it gives the same crates, order, features, links, resolved dependencies and filtered packages. "
 "The identifiers of one package in the two formats are equal and have the same name, version and source.",
 ["inputs", "configurations"], "for every workspace with registry, git (branch, tag, rev) and path packages and every configuration",
 "One pair of documents of one workspace.",
 [L, B], [("identifier parsing", "Kid::from"), ("dependency matching by url and path", B)], ["Krates::graph", "Kid"],
 "runtime monitor: differential comparison of the two formats of each generated world", WORLDS)

prop("C16", "Identifiers are parsed faithfully; their order, equality, hash agree",
 "A crate identifier made from a package id of either format has exactly the name, version and source that the id states, with git references decoded. Comparison is a total order by the text of name, then version, then source, whatever the format; equality is the same as comparing equal, and equal identifiers hash equally.",
 ["inputs"], "for every package id in either format, and every pair and triple of them",
 "A unit test converts a list of ids; the laws are over all pairs.",
 [L], [("identifier parsing and comparison", "Kid")], ["Kid::name", "Kid::version", "Kid::source", "Ord", "Eq", "Hash"],
 "runtime monitor: parts and laws checked on all pairs of generated ids", "Ids are written from known parts, which are the oracle. Holds for the ids of one run.")

prop("C17", "Reading cargo metadata keeps every field, and rejects broken documents",
 "Each field of a metadata document, in any order of keys and with fields of other versions of cargo present, is read with exactly its value and with cargo's default where it may be left out, from text, bytes, a reader or a json value alike. "
 "Documents that lack a required field, have a value of another type or are cut off are errors, not panics or guesses.",
 ["inputs"], "for every document of the cargo metadata format",
 "The tests deserialize a few files and never compare all fields.",
 [DE, CM], [("hand-written deserializers", DE)], ["Metadata and all its public fields"],
 "runtime monitor: every field of generated documents against the values they were written from; fault injection on documents", "The generator knows all fields of the format; fields krates does not have are not looked at.")

prop("C18", "Serialized metadata reads back as the same metadata",
 "With the 'serialize' feature, metadata written as json reads back with every field equal, whatever optional parts it has, alone or as part of the document; writing it again gives the same text. What is written uses the field names and spellings of cargo.",
 ["inputs"], "for every metadata value",
 "Nothing in the tests serializes metadata.",
 [SER, DE], [("hand-written serializers", SER)], ["serde_json::to_value of Metadata and its parts"],
 "runtime monitor: round trips of generated metadata, compared field by field", "Checked on the values of one run, with and without each optional part.")

prop("C19", "Package specs are accepted and parsed as documented",
 "Every string of the documented package spec grammar is accepted and gives exactly the name, version and url it states, and every other string is an error. Version requirements that are not full versions are errors.",
 ["inputs"], "for every string",
 "A list of examples in a unit test.",
 [S], [("parser", "PkgSpec::from_str")], ["PkgSpec fields", "FromStr error"],
 "runtime monitor: parser compared with a reference parser of the grammar on generated and mutated strings", "The empty name and non-ascii percent escapes are outside.")

prop("C20", "A package spec matches a package only if all its given parts agree",
 "A package spec matches a package if and only if the name is equal, the version is equal if it has one, and the url is that of the source of the package if it has one, for registry, git and path packages and both id formats; the git reference or kind of the source does not matter.",
 ["inputs"], "for every spec and every package",
 "A few examples of registry packages.",
 [S], [("matching", "PkgSpec::matches")], ["PkgSpec::matches"],
 "runtime monitor: matches of specs made to agree or differ in one part", "The packages are generated from known parts; see C08 for use as exclusions.")

prop("C21", "The configured command is exactly the cargo metadata call it stands for",
 "The cargo command made from any sequence of options runs the configured cargo, else the one in CARGO, else cargo, with the subcommand metadata and format version 1, and passes exactly the configured features, default or all features, lock options, other options and environment. "
 "It works on exactly the configured manifest: with a manifest path given to Cmd it runs in the directory of the manifest, else in the configured directory, and the last path and directory given win. Nothing that is configured is lost, doubled or merged with something else.",
 ["inputs", "configurations", "histories"], "for every sequence of calls to the builders of the command",
 "No test looks at the command line.",
 [B, CMD], [("conversion of the command", "From<Cmd> for MetadataCommand"), ("command line", "MetadataCommand::cargo_command")], ["MetadataCommand::cargo_command", "a stand-in cargo that records its call"],
 "runtime monitor: argv, directory and environment recorded by a stand-in cargo and parsed as cargo does", "Command lines are compared by their meaning, not by the order of options.")

prop("C22", "Running cargo gives its metadata, or an error that tells why not",
 "Running the command gives the metadata in the first line of cargo's output that starts a json object, whatever other lines there are and however much is printed on both streams; if cargo fails, is killed, cannot be started, prints no or broken json or text that is not utf-8, the matching error is returned with cargo's error output. It never hangs, panics or gives a partial result.",
 ["inputs", "fault_sequences"], "for every output, exit status and way to fail of the cargo process",
 "Tests only run a cargo that succeeds.",
 [CMD, ERR, B], [("execution", "MetadataCommand::exec"), ("parsing", "MetadataCommand::parse")], ["MetadataCommand::exec result", "Builder::build result"],
 "runtime monitor with fault injection: outcome of a scripted stand-in for cargo against its script", "Process faults: exit codes, signals, missing and non-executable files, broken and large output.")

prop("C23", "Features that metadata lacks are taken from the index, and only those",
 "With a crates.io index, each crates.io package gets the features of its own version in the index that its metadata lacks, and 'x = [\"dep:x\"]' for each x that its features mention but neither declares. "
 "Features the metadata has, packages from elsewhere, and packages or versions the index does not know stay as they are. "
 "The index is asked once for all packages that may need it, and the graph is the one that metadata with all features gives.",
 ["inputs", "configurations"], "for every metadata document, subset of its features that is missing, and index",
 "One test has an index, with the features of real crates; it tries no other version, source or conflicting entry.",
 [IDX, B], [("merge", "fix_features"), ("query of the index", "Builder::build_with_metadata")],
 ["Builder::with_crates_io_index", "Package::features", "Krates::graph"],
 "runtime monitor: graphs and packages of metadata with features moved to an index compared with those of the whole metadata and a reference merge", ORACLE + WORLDS)

prop("C24", "Builds and queries end in a result or the documented error",
 "Building from metadata that cargo can print gives a graph, NoResolveGraph exactly if it has no resolve graph, or NoRootKrates exactly if no root crate is left; it and every query on any node of the result return without panic, hang or exhausted stack. "
 "This holds for chains, cycles, ladders and fans of thousands of crates or features, and for metadata whose enabled features are not all declared, where the graph has what the declared ones turn on.",
 ["inputs", "configurations"], "for every metadata document and configuration, however deep, wide or degenerate",
 "The tests never reach these sizes, cycles or errors.",
 [B, L, ERR], [("worklist", "Builder::build_with_metadata"), ("errors", "Error::NoResolveGraph, Error::NoRootKrates")],
 ["Builder::build_with_metadata", "Krates"],
 "runtime monitor: crash, hang and stack monitors and exact results on degenerate metadata and large shapes, with a sweep over all queries",
 "Sizes up to 3000 crates or features, in threads with 2 MiB of stack. Metadata that cargo can not print (packages without node, invalid versions) is left out. " + WORLDS)

prop("C25", "Feature nodes are linked exactly as the features of the crates",
 "Each feature node belongs to a crate of the graph, is enabled for it, and has one edge to that crate. Edges between feature nodes stand for a feature that turns on another, of the same crate or of a dependency, and every edge from or to a feature node stands for something the manifests or the enabled features state.",
 ["inputs", "configurations"], "for every metadata document and every configuration, for every feature node",
 "Snapshots of a few graphs.",
 [B], [("feature nodes and edges", "Builder::build_with_metadata")], ["Krates::graph", "Node::Feature"],
 "runtime monitor: structural rules on every node and edge of each graph, and agreement with the reference model", WORLDS + "One known finding: features of renamed optional dependencies and of dependencies with one name can lead to feature nodes without a crate.")

prop("C26", "Searches by name and version find exactly the matching crates",
 "krates_by_name gives exactly the crates with that name, and search_matches exactly those that also satisfy the version requirement, each with its own node index and data, in ascending order.",
 ["inputs", "configurations"], "for every graph, name and version requirement",
 "A few searches in one graph; neighbours in name order and prefixes are not tried.",
 [L], [("range search over ordered nodes", "Krates::search_matches, Krates::krates_by_name")], ["Krates::search_matches", "Krates::krates_by_name"],
 "runtime monitor: searches for names in, next to and outside the graph against a linear scan", WORLDS)

prop("C27", "Feature values are split as cargo does",
 "A value in a feature list is read as a dependency ('dep:x'), a feature of a dependency ('x/f'), a weak one ('x?/f') or a feature of the crate itself, with exactly these names, for every string.",
 ["inputs"], "for every string",
 "A unit test has one of each.",
 [FEAT], [("parser", "ParsedFeature::from")], ["ParsedFeature::feat"],
 "runtime monitor: parser compared with a reference on generated strings", "Plain function of a string; holds for the strings of one run.")

prop("C28", "More restrictions never add crates, links or features",
 "If a configuration is restricted further (one more kind ignored, package excluded, or target list introduced or shortened, or only the root package instead of the workspace) the new graph has no crate, link or feature of a non-root crate that the former did not have.",
 ["inputs", "configurations", "histories"], "for every metadata document and every chain of restrictions",
 "No test compares two configurations.",
 [B], [("filters", "Builder::build_with_metadata")], ["Krates::krates", "Krates::graph"],
 "runtime monitor: metamorphic comparison along chains of restrictions", "Independent of the reference model. " + WORLDS)

prop("C29", "Accessors of metadata agree with its data",
 "Root package, workspace packages, default packages, lookups by id, paths of license and readme, the crates.io test of a source, and the kind and crate type predicates and conversions of a target give exactly what the fields of the metadata state, for metadata with and without resolve graph and default members.",
 ["inputs"], "for every metadata document",
 "The tests use root_package and packages of one workspace.",
 [CM], [("accessors", CM)], ["Metadata::root_package", "Metadata::workspace_packages", "Metadata::workspace_default_packages", "Package", "Source", "Target", "Edition"],
 "runtime monitor: every accessor on generated metadata against the values it was written from", "Checked on the values of one run.")

prop("C30", "Graphs of real workspaces agree with what the real cargo resolves and uses",
 "For every workspace the installed cargo accepts, running the command of krates and building from it gives the graph which the configuration and the manifests on disk determine: crates, links, features and resolved declarations. Every crate that cargo itself uses for a target and a choice of kinds, with every feature cargo turns on in it, is in the graph that is built for that target and those kinds.",
 ["inputs", "configurations"], "for every workspace on disk, target, choice of kinds and of features",
 "The tests read recorded metadata of a few workspaces, and never compare with what cargo does.",
 [B, L], [("command", "Cmd, Builder::build"), ("resolution", "Builder::build_with_metadata")], ["Builder::build", "Cmd", "cargo metadata", "cargo tree"],
 "runtime monitor: the real cargo run on generated workspaces; cargo metadata and cargo tree as oracles of the graph", "Path, registry (vendored) and workspace packages; cargo as installed. Holds for the workspaces of one run.")

prop("C31", "Own node and edge types and the dot output carry the same graph",
 "A graph built with any own node and edge type has the same nodes, edges, order and queries as with the built-in ones, where each node is made from its own package and each edge from its own link. The text and dot forms of nodes and edges state name, version, feature and kind of what they stand for.",
 ["inputs", "configurations"], "for every metadata document and every configuration",
 "Two doc examples; no comparison between types.",
 [B, L], [("conversions", "Builder::build_with_metadata"), ("Display", L)], ["Krates<N, E>::graph", "Display", "petgraph::dot::Dot"],
 "runtime monitor: graphs with recording node and edge types compared with the plain ones", WORLDS)

NOT_APPLICABLE = []

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["obs"], "hook_needed": None},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./check.sh build",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["tech"],
            "level": "exploration",
            "level_note": p["note"].strip(),
        } for p in P],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks: everything is observed at the public API. Known findings and repairs: known-findings.txt.",
    }
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")

main()

From d4124f876587b734e07aa2bae4fe5f5046d9eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 01/20] fix: Don't add features of dependencies to the enabled
 features of the crate that references them

---
 src/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 46cc0e4..cce02f7 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1803,9 +1803,9 @@ impl Builder {
                         });
 
                         // Ensure that all of the subfeatures enabled by the parent feature are added to the
-                        // flat list of enabled features for the crate
+                        // flat list of enabled features for the crate, unless the feature is one of a dependency
                         if let crate::Node::Krate { features, .. } = &mut graph[kind] {
-                            if !features.contains(&feat_name) {
+                            if sub_feat.kid == pid && !features.contains(&feat_name) {
                                 features.insert(feat_name.clone());
                                 feature_stack.push(feat_name);
                             }
-- 
2.43.0


From 3561ec90d894f2de07999d5b8ec7915f8e8c8306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 02/20] fix: Don't match path packages with package specs that
 have the url of another source

---
 src/pkgspec.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pkgspec.rs b/src/pkgspec.rs
index 9488370..659d9a4 100644
--- a/src/pkgspec.rs
+++ b/src/pkgspec.rs
@@ -23,14 +23,19 @@ impl PkgSpec {
             }
         }
 
-        let Some((url, src)) = self
-            .url
-            .as_ref()
-            .zip(krate.source.as_ref().map(|s| s.repr.as_str()))
-        else {
+        let Some(url) = &self.url else {
             return true;
         };
 
+        // Path packages don't have a source, but it is part of their id
+        let kid;
+        let src = if let Some(source) = &krate.source {
+            source.repr.as_str()
+        } else {
+            kid = crate::Kid::from(krate.id.clone());
+            kid.source()
+        };
+
         let begin = src.find('+').map_or(0, |i| i + 1);
         let end = src.find('?').or_else(|| src.find('#')).unwrap_or(src.len());
 
-- 
2.43.0


From def95df0f622a566d4a2a7e034e6f99ffcbb9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 03/20] fix: Deserialize metadata without a resolve graph, as
 printed with --no-deps

---
 src/cm/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cd72f44..cec0986 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -91,7 +91,7 @@ map!(Metadata, map, {
             "packages" => packages = Some(tri!(map.next_value())),
             "workspace_members" => workspace_members = Some(tri!(map.next_value())),
             "workspace_default_members" => workspace_default_members = Some(tri!(map.next_value())),
-            "resolve" => resolve = Some(tri!(map.next_value())),
+            "resolve" => resolve = tri!(map.next_value()),
             "workspace_root" => workspace_root = Some(tri!(map.next_value())),
             "target_directory" => target_directory = Some(tri!(map.next_value())),
             "metadata" => workspace_metadata = tri!(map.next_value()),
-- 
2.43.0


From 62b3b4f6cffc586ab71b23d8cb91b9f69ce73692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 04/20] fix: Don't panic if the resolve graph has no nodes

---
 src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index cce02f7..fbb76cb 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -830,7 +830,10 @@ impl Builder {
 
         // We need to establish if the package ids are in the opaque or stable format as
         // it changes how git sources are compared
-        let is_opaque = resolved.nodes[0].id.repr.splitn(3, ' ').count() == 3;
+        let is_opaque = resolved
+            .nodes
+            .first()
+            .is_some_and(|node| node.id.repr.splitn(3, ' ').count() == 3);
 
         let mut nodes: Vec<_> = resolved
             .nodes
-- 
2.43.0


From 942187e084fa20bbccfaecac420c070753341548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 05/20] fix: Hash the same parts of a Kid that are compared

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 67e6751..cedac65 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,7 +252,10 @@ impl fmt::Display for Kid {
 
 impl std::hash::Hash for Kid {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        state.write(self.repr.as_bytes());
+        // Only the components are compared, opaque git ids have a revision which is not part of them
+        self.name().hash(state);
+        self.version().hash(state);
+        self.source().hash(state);
     }
 }
 
-- 
2.43.0


From 4a9a9fb600b3b02067b55a4c04c0e3576ed18e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 06/20] fix: Serialize the required features of a target with
 the name they are deserialized from

---
 src/cm/ser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cm/ser.rs b/src/cm/ser.rs
index 48b8cc9..9dfac40 100644
--- a/src/cm/ser.rs
+++ b/src/cm/ser.rs
@@ -151,14 +151,13 @@ map!(Target, map, self, {
         name,
         kind,
         crate_types,
-        required_features,
         src_path,
         edition,
         doctest,
-        doctest,
         test,
         doc
     );
+    entry!(map, self, required_features, "required-features");
 });
 
 impl Serialize for Edition {
-- 
2.43.0


From 30cb6084b7d79e494a12ed7f907e774b8355aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 07/20] fix: Match resolved dependencies to their declaration
 by the name of the package, and the rename only if there is one

---
 src/builder.rs | 107 +++++++++++++++++++++++++------------------------
 1 file changed, 54 insertions(+), 53 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index fbb76cb..a8ea1bb 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -800,6 +800,56 @@ impl Builder {
             false
         }
 
+        /// Finds the declarations in the crate's manifest that could be the one of the resolved dependency
+        ///
+        /// The name of a declaration is always the one of the package, and if the crate renames it, that is the name the
+        /// dependency is resolved with
+        fn declarations<'krate>(
+            krate: &'krate crate::Package,
+            rdep: &NodeDep,
+            dk: &DepKindInfo,
+        ) -> Vec<(usize, &'krate cm::Dependency)> {
+            let has_prelease = !rdep.version.pre.is_empty();
+
+            let mut decls: Vec<_> = krate
+                .dependencies
+                .iter()
+                .enumerate()
+                .filter(|(_, dep)| {
+                    if dk.kind != dep.kind || dep.name != rdep.pkg.name() {
+                        return false;
+                    }
+
+                    if let Some(rename) = &dep.rename {
+                        if !pkg_name_equals(&rdep.name, rename) {
+                            return false;
+                        }
+                    }
+
+                    // Handle case where a dependency may not have a version requirement, which
+                    // typically happens in the case of non-registry dependencies that use a pre-release
+                    // semver, if the version _is_ a prelease it will never match the empty
+                    // requirement. Note this will pass through eg. path dependencies that don't specify a
+                    // version, but those should be rejected during source comparison if matching against eg. a registry crate
+                    if !((has_prelease && dep.req.comparators.is_empty())
+                        || dep.req.matches(&rdep.version))
+                    {
+                        return false;
+                    }
+
+                    crate::targets_eq(&dk.cfg, &dep.target)
+                })
+                .collect();
+
+            // The requirement of a declaration that is not renamed can be loose enough to also match the version of
+            // one that is
+            if decls.iter().any(|(_, dep)| dep.rename.is_some()) {
+                decls.retain(|(_, dep)| dep.rename.is_some());
+            }
+
+            decls
+        }
+
         #[derive(Debug)]
         struct Node {
             id: Kid,
@@ -1275,7 +1325,6 @@ impl Builder {
                     uses_default_features: bool,
                 }
 
-                let maybe_real_name = pkg.name();
                 let strong = features.is_some();
 
                 // If there are multiple versions of the same package we use the
@@ -1292,9 +1341,6 @@ impl Builder {
                 // mean there could be a situation where a single crate _could_
                 // be referenced with 0.0.x versions, but...I'll fix that if
                 // someone reports an issue
-                let rdep_version = &rdep.version;
-                let has_prelease = !rdep_version.pre.is_empty();
-
                 let edges = rdep.dep_kinds.iter().filter_map(|dk| {
                         let mask = match dk.kind {
                             DepKind::Normal => 0x1,
@@ -1307,57 +1353,12 @@ impl Builder {
                             return None;
                         }
 
-                        let multiple_candidates = krate.dependencies.iter().filter(|dep| {
-                            if dk.kind != dep.kind {
-                                return false;
-                            }
+                        let candidates = declarations(krate, rdep, dk);
+                        let multiple_candidates = candidates.len() > 1;
 
-                            // Crates can rename the dependency package themselves
-                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
-                            if maybe_real_name != dname && !dep_names_match(dname, rdep) {
-                                return false;
-                            }
-
-                            // Handle case where a dependency may not have a version requirement, which
-                            // typically happens in the case of non-registry dependencies that use a pre-release
-                            // semver, if the version _is_ a prelease it will never match the empty
-                            // requirement
-                            if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
-                                return false;
-                            }
-
-                            crate::targets_eq(&dk.cfg, &dep.target)
-                        }).count() > 1;
-
-                        let Some((dep_index, dep)) = krate
-                            .dependencies
-                            .iter()
-                            .enumerate()
+                        let Some((dep_index, dep)) = candidates
+                            .into_iter()
                             .find(|(_, dep)| {
-                                if dk.kind != dep.kind {
-                                    return false;
-                                }
-
-
-                                // Crates can rename the dependency package themselves
-                                let dname = dep.rename.as_deref().unwrap_or(&dep.name);
-                                if maybe_real_name != dname && !dep_names_match(dname, rdep) {
-                                    return false;
-                                }
-
-                                // Handle case where a dependency may not have a version requirement, which
-                                // typically happens in the case of non-registry dependencies that use a pre-release
-                                // semver, if the version _is_ a prelease it will never match the empty
-                                // requirement. Note this will pass through eg. path dependencies that don't specify a
-                                // version, but those should be rejected during source comparison if matching against eg. a registry crate
-                                if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
-                                    return false;
-                                }
-
-                                if !crate::targets_eq(&dk.cfg, &dep.target) {
-                                    return false;
-                                }
-
                                 if !multiple_candidates {
                                     return true;
                                 }
-- 
2.43.0


From 627f27ddc902e774ea927fb27717c17a86f5287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 08/20] fix: Don't activate optional dependencies with weak
 features if the dependency is already in the graph

---
 src/builder.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index a8ea1bb..567fe2e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1272,13 +1272,21 @@ impl Builder {
                     let rdep_node = get_rnode(&ndep.pkg);
                     let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
-                    if is_weak && !pn.deps.contains_key(&ndep.pkg) {
+                    if is_weak {
                         let feature = rdep_node.feature_index(feature.unwrap());
-                        krate_features
-                            .pending_weak
-                            .entry(&ndep.pkg)
-                            .or_default()
-                            .insert(feature);
+
+                        // Weak features never activate the dependency, even if there are declarations of it that are
+                        // not yet part of the graph
+                        if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                            visit_stack.push_with_feature(&ndep.pkg, feature);
+                            dep.features.insert(feature);
+                        } else {
+                            krate_features
+                                .pending_weak
+                                .entry(&ndep.pkg)
+                                .or_default()
+                                .insert(feature);
+                        }
                         continue;
                     }
 
-- 
2.43.0


From 5e524fd415ab301463f609486ccd0d488ac8283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 09/20] fix: Resolve the dependencies named by features by
 their name in the manifest

---
 src/builder.rs | 155 +++++++++++++++----------------------------------
 1 file changed, 48 insertions(+), 107 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 567fe2e..f914697 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -609,16 +609,6 @@ impl Builder {
     {
         let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;
 
-        // Crates can rename their lib target via
-        // [lib]
-        // name = "ihateyou"
-        // which will be the name that appears in the resolved node graph unless the dependent also renames it. This
-        // case is super rare, but we need to handle it to prevent crates being pruned from the graph due to not matching
-        // a <actual-crate-name>/feature to the resolve node
-        struct Renames<'p> {
-            inner: BTreeMap<&'p str, Vec<(&'p semver::Version, &'p str)>>,
-        }
-
         #[inline]
         fn pkg_name_equals(krate: &str, human: &str) -> bool {
             krate.len() == human.len()
@@ -628,58 +618,6 @@ impl Builder {
                     .all(|(a, b)| a == b || a == '_' && b == '-')
         }
 
-        impl<'p> Renames<'p> {
-            #[inline]
-            fn maybe_insert(&mut self, pkg: &'p crate::Package) {
-                let Some(targ) = pkg
-                    .targets
-                    .iter()
-                    .find(|tar| tar.kind.contains(&cm::TargetKind::Lib))
-                else {
-                    return;
-                };
-
-                if pkg_name_equals(&targ.name, &pkg.name) {
-                    return;
-                }
-
-                let v = self.inner.entry(&pkg.name).or_default();
-
-                if let Err(i) = v.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version)) {
-                    v.insert(i, (&pkg.version, &targ.name));
-                }
-            }
-
-            #[inline]
-            fn resolve_feature<'n>(
-                &self,
-                feature_krate_name: &str,
-                rnode: &'n Node,
-            ) -> Option<&'n NodeDep> {
-                rnode.deps.iter().find(|rdep| {
-                    if pkg_name_equals(&rdep.name, feature_krate_name) {
-                        return true;
-                    }
-
-                    if feature_krate_name != rdep.pkg.name() {
-                        return false;
-                    }
-
-                    self.inner.get(rdep.pkg.name()).is_some_and(|renames| {
-                        let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version))
-                        else {
-                            return false;
-                        };
-                        renames[i].1 == rdep.name
-                    })
-                })
-            }
-        }
-
-        let mut renames = Renames {
-            inner: Default::default(),
-        };
-
         let mut packages: Vec<_> = md
             .packages
             .into_iter()
@@ -700,10 +638,6 @@ impl Builder {
             }
         }
 
-        for (_, pkg) in &packages {
-            renames.maybe_insert(pkg);
-        }
-
         let mut workspace_members: Vec<_> =
             md.workspace_members.into_iter().map(Kid::from).collect();
         workspace_members.sort();
@@ -1257,57 +1191,64 @@ impl Builder {
                         }
                     };
 
-                    // Note that we don't care about the package name here, as cargo resolves feature by the manifest
-                    // name for the package only, since it's possible to have multiple versions of the same crate that
-                    // each need a unique name
+                    // Cargo resolves features by the manifest name for the package only, since it's possible to have
+                    // multiple versions of the same crate that each need a unique name. The resolved name can't be used
+                    // for this, packages can also rename their `lib` target
+                    // [lib]
+                    // name = "ihateyou"
+                    // which is the name they are then resolved with unless they are _also_ renamed in the dependent.
                     //
-                    // ...except we do have to care! While the above is the **overwhelming** majority of cases, packages
-                    // can also rename their `lib` target, which will mean that the resolved nodes use that name,
-                    // unless they are _also_ renamed in the dependent, but the package name is used in the crate's
-                    // dependencies.
-                    let Some(ndep) = renames.resolve_feature(krate_name, rnode) else {
-                        continue;
-                    };
+                    // The same name can be used for different packages if they are of different kinds or for different
+                    // targets, the feature then applies to all of them
+                    let ndeps = rnode.deps.iter().filter(|ndep| {
+                        ndep.dep_kinds.iter().any(|dk| {
+                            declarations(krate, ndep, dk).iter().any(|(_, dep)| {
+                                dep.rename.as_deref().unwrap_or(&dep.name) == krate_name
+                            })
+                        })
+                    });
 
-                    let rdep_node = get_rnode(&ndep.pkg);
-                    let is_weak = matches!(pf.feat(), Feature::Weak { .. });
+                    for ndep in ndeps {
+                        let rdep_node = get_rnode(&ndep.pkg);
+                        let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
-                    if is_weak {
-                        let feature = rdep_node.feature_index(feature.unwrap());
+                        if is_weak {
+                            let feature = rdep_node.feature_index(feature.unwrap());
 
-                        // Weak features never activate the dependency, even if there are declarations of it that are
-                        // not yet part of the graph
-                        if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
-                            visit_stack.push_with_feature(&ndep.pkg, feature);
-                            dep.features.insert(feature);
-                        } else {
-                            krate_features
-                                .pending_weak
-                                .entry(&ndep.pkg)
-                                .or_default()
-                                .insert(feature);
+                            // Weak features never activate the dependency, even if there are declarations of it that are
+                            // not yet part of the graph
+                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                                visit_stack.push_with_feature(&ndep.pkg, feature);
+                                dep.features.insert(feature);
+                            } else {
+                                krate_features
+                                    .pending_weak
+                                    .entry(&ndep.pkg)
+                                    .or_default()
+                                    .insert(feature);
+                            }
+                            continue;
                         }
-                        continue;
-                    }
 
-                    if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
-                        deps.entry(&ndep.pkg)
+                        if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
+                            deps.entry(&ndep.pkg)
+                                .or_insert_with(|| (ndep, Some(BTreeSet::new())))
+                                .1
+                                .as_mut()
+                                .unwrap()
+                                .append(&mut pending);
+                        }
+
+                        let feats = deps
+                            .entry(&ndep.pkg)
                             .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                             .1
                             .as_mut()
-                            .unwrap()
-                            .append(&mut pending);
-                    }
+                            .unwrap();
 
-                    let feats = deps
-                        .entry(&ndep.pkg)
-                        .or_insert_with(|| (ndep, Some(BTreeSet::new())))
-                        .1
-                        .as_mut()
-                        .unwrap();
-
-                    if let Some(feature) = feature {
-                        feats.insert(rdep_node.feature_index(feature));
+                        if let Some(feature) = feature {
+                            feats.insert(rdep_node.feature_index(feature));
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 766db8706c929b4dc3613a2946fe221ce98dbdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 10/20] fix: Enable the feature with the name of an optional
 dependency along with the features of the dependency

---
 src/builder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index f914697..484e3dc 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1180,6 +1180,21 @@ impl Builder {
                 for sf in fs {
                     let pf = ParsedFeature::from(sf.as_str());
 
+                    // A feature of an optional dependency also enables the feature with the name of the dependency, which
+                    // only matters if that does more than the implicit one
+                    if let Feature::Strong { krate: dep, .. } = pf.feat()
+                        && krate.features.get(dep).is_some_and(|feats| {
+                            feats
+                                .iter()
+                                .any(|feat| feat.strip_prefix("dep:") != Some(dep))
+                        })
+                        && krate.dependencies.iter().any(|decl| {
+                            decl.optional && decl.rename.as_deref().unwrap_or(&decl.name) == dep
+                        })
+                    {
+                        visit_stack.push_with_feature(pid, rnode.feature_index(dep));
+                    }
+
                     let (krate_name, feature) = match pf.feat() {
                         Feature::Simple(feat) => {
                             visit_stack.push_with_feature(pid, rnode.feature_index(feat));
-- 
2.43.0


From 17e82b3e8e4009123a4d465b5ed2c499a4637b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 11/20] fix: Don't look up dependencies named by features in
 dependencies of a crate on itself

---
 src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 484e3dc..5fb794f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1018,7 +1018,8 @@ impl Builder {
 
             let get_dep_id = |dep_name: &str| -> Option<&Kid> {
                 rnode.deps.iter().find_map(|ndep| {
-                    if dep_names_match(dep_name, ndep) {
+                    // Crates can depend on themselves for their tests
+                    if ndep.pkg != *pid && dep_names_match(dep_name, ndep) {
                         Some(&ndep.pkg)
                     } else {
                         None
-- 
2.43.0


From e71f44c1e1abdbe4d0286ebd3180db772f35bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 12/20] fix: Decode the source of stable git package ids that
 also have the name of the package

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cedac65..0f58da6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,9 +106,7 @@ impl From<PackageId> for Kid {
                 [name, version, source]
             } else {
                 let mut vmn = repr.rfind('#')?;
-                let (name, version) = if let Some(split) = repr[vmn..].find('@') {
-                    ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
-                } else {
+                let (name, version) = {
                     let begin = repr.rfind('/')? + 1;
                     let end = if repr.starts_with("git+") {
                         // Unfortunately the stable format percent encodes the source url in the metadata, and since
@@ -211,7 +209,11 @@ impl From<PackageId> for Kid {
                         vmn
                     };
 
-                    ((begin, end), (vmn + 1, repr.len()))
+                    if let Some(split) = repr[vmn..].find('@') {
+                        ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
+                    } else {
+                        ((begin, end), (vmn + 1, repr.len()))
+                    }
                 };
 
                 [name, version, (0, vmn)]
-- 
2.43.0


From 63a1e99a337208fac1254bb0bb0bb08fd3b5db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 13/20] fix: Deserialize rust versions that only have the major
 component

---
 src/cm/de.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cec0986..a1c4311 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -423,7 +423,7 @@ impl<'de> Deserialize<'de> for Source {
 /// > it cannot include semver operators or pre-release identifiers.
 ///
 /// [`semver::Version`] however requires three components. This function takes
-/// care of appending `.0` if the provided version number only has two components
+/// care of appending `.0` if the provided version number has less than three components
 /// and ensuring that it does not contain a pre-release version or build metadata.
 fn deserialize_rust_version<E: Error>(mut buf: String) -> Result<semver::Version, E> {
     for c in buf.chars() {
@@ -436,9 +436,12 @@ fn deserialize_rust_version<E: Error>(mut buf: String) -> Result<semver::Version
         }
     }
 
-    if buf.matches('.').count() == 1 {
+    match buf.matches('.').count() {
+        // cargo also accepts and prints only the major version, e.g. 1 -> 1.0.0
+        0 => buf.push_str(".0.0"),
         // e.g. 1.0 -> 1.0.0
-        buf.push_str(".0");
+        1 => buf.push_str(".0"),
+        _ => {}
     }
 
     Version::parse(&buf).map_err(E::custom)
-- 
2.43.0


From d8c8f4188da44e96661d8477a5988c25ba632c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:19 +0000
Subject: [PATCH 14/20] fix: Dependencies of a crate on itself that are renamed

Cargo ignores the rename when it resolves the name of such a dependency, which could then not be found among the
dependencies of the crate.
---
 src/builder.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 5fb794f..2117cfc 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -754,10 +754,12 @@ impl Builder {
                         return false;
                     }
 
-                    if let Some(rename) = &dep.rename {
-                        if !pkg_name_equals(&rdep.name, rename) {
-                            return false;
-                        }
+                    // Cargo ignores the rename if the crate depends on itself
+                    if let Some(rename) = &dep.rename
+                        && rdep.pkg.repr != krate.id.repr
+                        && !pkg_name_equals(&rdep.name, rename)
+                    {
+                        return false;
                     }
 
                     // Handle case where a dependency may not have a version requirement, which
-- 
2.43.0


From 6cec04b23d563089b00ccf478150e60a308ed8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:00 +0000
Subject: [PATCH 15/20] fix: Features named as a dependency that are enabled by
 its features, if they have no parts

As those with other parts, they are enabled by 'x/f' along with the dependency.
---
 src/builder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 2117cfc..0cfc345 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1184,12 +1184,10 @@ impl Builder {
                     let pf = ParsedFeature::from(sf.as_str());
 
                     // A feature of an optional dependency also enables the feature with the name of the dependency, which
-                    // only matters if that does more than the implicit one
+                    // only matters if that is not the implicit one
                     if let Feature::Strong { krate: dep, .. } = pf.feat()
                         && krate.features.get(dep).is_some_and(|feats| {
-                            feats
-                                .iter()
-                                .any(|feat| feat.strip_prefix("dep:") != Some(dep))
+                            feats.len() != 1 || feats[0].strip_prefix("dep:") != Some(dep)
                         })
                         && krate.dependencies.iter().any(|decl| {
                             decl.optional && decl.rename.as_deref().unwrap_or(&decl.name) == dep
-- 
2.43.0


From e22c130dffb5fefaf4e24fcf385ff9dffdc29991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 16/20] fix: Tell the dependencies of a crate on itself apart
 by their path

The name of a dependency of a crate on itself says nothing about the declaration, so one that is renamed to another
version of the same package could be taken for it.
---
 src/builder.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 0cfc345..554dd13 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -777,9 +777,22 @@ impl Builder {
                 })
                 .collect();
 
-            // The requirement of a declaration that is not renamed can be loose enough to also match the version of
-            // one that is
-            if decls.iter().any(|(_, dep)| dep.rename.is_some()) {
+            if rdep.pkg.repr == krate.id.repr {
+                // The name says nothing about the declaration if it can be renamed, but the path does
+                let is_krate = |dep: &cm::Dependency| {
+                    dep.path
+                        .as_ref()
+                        .is_some_and(|path| compare_paths(path, rdep.pkg.source()))
+                };
+
+                if decls.iter().any(|(_, dep)| is_krate(dep)) {
+                    decls.retain(|(_, dep)| is_krate(dep));
+                } else if decls.iter().any(|(_, dep)| dep.rename.is_none()) {
+                    decls.retain(|(_, dep)| dep.rename.is_none());
+                }
+            } else if decls.iter().any(|(_, dep)| dep.rename.is_some()) {
+                // The requirement of a declaration that is not renamed can be loose enough to also match the version of
+                // one that is
                 decls.retain(|(_, dep)| dep.rename.is_some());
             }
 
-- 
2.43.0


From 0d30ca63ced246512aace6dee3c2bd7a30de63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 17/20] fix: Select all workspace members when the workspace is
 behind a link

include_workspace_crates canonicalizes the path it is given, but the workspace
root of the metadata it was compared with was not.
---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 554dd13..6337a87 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -666,10 +666,15 @@ impl Builder {
                     roots.extend(workspace_members.iter());
                 }
             } else {
+                // The filters are canonicalized if possible, so the manifest they
+                // are compared with needs to be as well
+                let ws_manifest = md.workspace_root.as_std_path().join("Cargo.toml");
+                let ws_manifest = ws_manifest.canonicalize().unwrap_or(ws_manifest);
+
                 // If the filters only contain 1 path, and it is the path to a
                 // workspace toml, then we disregard the filters
                 if self.workspace_filters.len() == 1
-                    && Some(md.workspace_root.as_ref()) == self.workspace_filters[0].parent()
+                    && ws_manifest.parent() == self.workspace_filters[0].parent()
                 {
                     roots.extend(workspace_members.iter());
                 } else {
-- 
2.43.0


From ab1db38936990e4a7c2b15113f8f8f955fe38d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 18/20] fix: Compare the decoded path of a package with the one
 of a dependency

The path of a package id is part of a url, so spaces and other characters are
percent encoded, while those of a dependency are not.
---
 src/builder.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 6337a87..11cc430 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1815,12 +1815,43 @@ impl Builder {
     }
 }
 
+/// Decodes the characters that can't be part of a url, in whatever is not valid nothing is decoded
+fn percent_decode(encoded: &str) -> std::borrow::Cow<'_, str> {
+    fn decode(encoded: &str) -> Option<String> {
+        let mut decoded = Vec::with_capacity(encoded.len());
+        let mut bytes = encoded.bytes();
+
+        while let Some(byte) = bytes.next() {
+            decoded.push(if byte == b'%' {
+                let mut digit = || char::from(bytes.next()?).to_digit(16);
+                (digit()? * 16 + digit()?) as u8
+            } else {
+                byte
+            });
+        }
+
+        String::from_utf8(decoded).ok()
+    }
+
+    if encoded.contains('%')
+        && let Some(decoded) = decode(encoded)
+    {
+        decoded.into()
+    } else {
+        encoded.into()
+    }
+}
+
 #[inline]
 fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
     let Some(rpath) = src.strip_prefix("path+file://") else {
         return false;
     };
 
+    // The path of a package id is part of a url, unlike the one of a dependency
+    let rpath = percent_decode(rpath);
+    let rpath = rpath.as_ref();
+
     // Due to the various terrible ways Windows can do paths, we only try to handle the
     // common case
     if dpath.starts_with("/") {
-- 
2.43.0


From 895b005ef236f8740b9faa9b14a10fa330754df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 19/20] fix: Don't add two links for a feature that a
 dependency requests twice

---
 src/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 11cc430..c3d4090 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1492,7 +1492,11 @@ impl Builder {
                     {
                         let feat_index = rdep_node.feature_index(feat);
                         visit_stack.push_with_feature(pkg, feat_index);
-                        features.push(feat_index);
+
+                        // A feature can be listed more than once, eg. the default one
+                        if !features.contains(&feat_index) {
+                            features.push(feat_index);
+                        }
                     }
 
                     let edge = DependencyEdge {
-- 
2.43.0


From f2484d794fc62ab2930609274274bde6cbd97df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 20/20] fix: Evaluate the boolean literals in cfg expressions

---
 src/builder.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index c3d4090..cdda31f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -237,6 +237,15 @@ struct TargetFilter {
     features: Vec<String>,
 }
 
+/// The value of `cfg(true)` and `cfg(false)`, which are just flags as far as cfg-expr is concerned
+fn boolean_literal(predicate: &cfg_expr::Predicate<'_>) -> Option<bool> {
+    match predicate {
+        cfg_expr::expr::Predicate::Flag("true") => Some(true),
+        cfg_expr::expr::Predicate::Flag("false") => Some(false),
+        _ => None,
+    }
+}
+
 impl TargetFilter {
     fn eval(&self, predicate: &cfg_expr::Predicate<'_>) -> bool {
         match predicate {
@@ -255,7 +264,7 @@ impl TargetFilter {
             }
             // We *could* warn here about an invalid expression, but
             // presumably cargo will be responsible for that, so don't bother
-            _ => false,
+            _ => boolean_literal(predicate).unwrap_or(false),
         }
     }
 
@@ -1410,8 +1419,8 @@ impl Builder {
                                 // only edge was the cfg(any()).
 
                                 // We can't just do an eval and always return true, as that then would cause any
-                                // not() expressions to evaluate to false
-                                if expr.predicates().count() == 0 && !expr.eval(|_| true) {
+                                // not() expressions to evaluate to false, so only the boolean literals are known
+                                if expr.eval(boolean_literal) == Some(false) {
                                     return None;
                                 }
                             }
-- 
2.43.0


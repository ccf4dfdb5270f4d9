From f1e1b44971e7b405a74dee5d9ac79f2ddb2f6269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:50 +0000
Subject: [PATCH 01/33] fix: ignore hidden descendants when inserting a subtree
 with git move --insert

---
 git-branchless-move/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 86b081d..0e7d650 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -439,9 +439,10 @@ pub fn r#move(
                         .clone();
                     dag.query_heads(head_component)?
                 };
-                let source_heads: CommitSet = dag
-                    .query_heads(dag.query_descendants(source_oids.clone())?)?
-                    .union(&exact_head);
+                let source_descendants = dag.query_descendants(source_oids.clone())?;
+                let source_descendants = dag.filter_visible_commits(source_descendants)?;
+                let source_heads: CommitSet =
+                    dag.query_heads(source_descendants)?.union(&exact_head);
                 match dag.commit_set_to_vec(&source_heads)?.as_slice() {
                     [oid] => *oid,
                     _ => {
-- 
2.43.0


From ae2e21dd393c76d1b6ff5f965296db5c55c6d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:30 +0000
Subject: [PATCH 02/33] fix: keep file when a directory is replaced with a file
 of the same name

---
 git-branchless-lib/src/git/tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/tree.rs b/git-branchless-lib/src/git/tree.rs
index 96865bf..27cdc37 100644
--- a/git-branchless-lib/src/git/tree.rs
+++ b/git-branchless-lib/src/git/tree.rs
@@ -440,7 +440,12 @@ pub fn hydrate_tree(
             .map_err(Error::FindTree)?
             .ok_or(Error::FindHydratedTree(new_entry_oid))?;
         if new_entry_tree.is_empty() {
-            remove_entry_if_exists(&mut builder, &dir_name)?;
+            // If the entry isn't a directory, then there's nothing to remove
+            // from it. (In particular, a directory may have been replaced with a
+            // file of the same name.)
+            if existing_dir_entry.is_some() {
+                remove_entry_if_exists(&mut builder, &dir_name)?;
+            }
         } else {
             builder
                 .insert(&dir_name, new_entry_oid.inner, git2::FileMode::Tree.into())
-- 
2.43.0


From a406ec7754ce39ee3ac2579df0295635af815989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:30 +0000
Subject: [PATCH 03/33] fix: apply file deletions when squashing one commit
 into another

---
 git-branchless-lib/src/git/repo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 387f5a2..2d8a578 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1605,7 +1605,8 @@ impl Repo {
                         Ok(Some(entry)) => {
                             Some((path.clone(), Some((entry.get_oid(), entry.get_filemode()))))
                         }
-                        Ok(None) | Err(_) => None,
+                        Ok(None) => Some((path.clone(), None)),
+                        Err(_) => None,
                     })
                     .collect::<HashMap<_, _>>()
             }
-- 
2.43.0


From 9790659b9067c132517c00fbd21d43d5c97aa362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:30 +0000
Subject: [PATCH 04/33] fix: refuse to squash commits into a public commit
 without --force-rewrite

---
 git-branchless-move/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 0e7d650..5887ea3 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -283,6 +283,12 @@ pub fn r#move(
             } else {
                 commits_to_move
             };
+            let commits_to_move = if fixup {
+                // The destination commit itself is rewritten.
+                commits_to_move.union(&CommitSet::from(dest_oid))
+            } else {
+                commits_to_move
+            };
 
             match RebasePlanPermissions::verify_rewrite_set(&dag, build_options, &commits_to_move)?
             {
-- 
2.43.0


From 11a017d06c7de5c5d27975e7e849271e5d3632c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:30 +0000
Subject: [PATCH 05/33] fix: don't squash hidden descendants with git move
 --fixup

---
 git-branchless-move/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/git-branchless-move/src/lib.rs b/git-branchless-move/src/lib.rs
index 5887ea3..76dd402 100644
--- a/git-branchless-move/src/lib.rs
+++ b/git-branchless-move/src/lib.rs
@@ -305,6 +305,7 @@ pub fn r#move(
         for source_root in dag.commit_set_to_vec(&source_roots)? {
             if fixup {
                 let commits = dag.query_descendants(CommitSet::from(source_root))?;
+                let commits = dag.filter_visible_commits(commits)?;
                 let commits = dag.commit_set_to_vec(&commits)?;
                 for commit in commits.iter() {
                     builder.fixup_commit(*commit, dest_oid)?;
-- 
2.43.0


From 47f306e9ebadaaa8815498e4d0ce6d639f57dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:43 +0000
Subject: [PATCH 06/33] fix: keep directory in destination when rebased commit
 deletes file of the same name

---
 git-branchless-lib/src/git/repo.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 2d8a578..0c791e9 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1344,7 +1344,7 @@ impl Repo {
         let dehydrated_target_commit =
             self.dehydrate_commit(target_commit, changed_paths.as_slice(), false)?;
 
-        let rebased_index =
+        let mut rebased_index =
             self.cherry_pick_commit(&dehydrated_patch_commit, &dehydrated_target_commit, 0)?;
         let rebased_tree = {
             if rebased_index.has_conflicts() {
@@ -1397,6 +1397,13 @@ impl Repo {
 
                 return Err(CreateCommitFastError::MergeConflict { conflicting_paths });
             }
+            let rebased_index_tree = {
+                let tree_oid = rebased_index
+                    .inner
+                    .write_tree_to(&self.inner)
+                    .map_err(CreateCommitFastError::Git)?;
+                self.find_tree_or_fail(make_non_zero_oid(tree_oid))?
+            };
             let rebased_entries: HashMap<PathBuf, Option<(NonZeroOid, FileMode)>> =
                 changed_pathbufs
                     .into_iter()
@@ -1419,11 +1426,17 @@ impl Repo {
                                 oid: MaybeZeroOid::NonZero(oid),
                                 file_mode,
                             }) => Some((oid, file_mode)),
-                            None => None,
+                            // If there's no file at this path, there might still
+                            // be a directory, which has to be kept.
+                            None => match rebased_index_tree.get_path(&changed_path) {
+                                Ok(Some(entry)) => Some((entry.get_oid(), entry.get_filemode())),
+                                Ok(None) => None,
+                                Err(err) => return Err(Error::ReadTree(err)),
+                            },
                         };
-                        (changed_path, value)
+                        Ok((changed_path, value))
                     })
-                    .collect();
+                    .collect::<Result<_>>()?;
             let rebased_tree_oid =
                 hydrate_tree(self, Some(&target_commit.get_tree()?), rebased_entries)
                     .map_err(CreateCommitFastError::HydrateTree)?;
-- 
2.43.0


From c29512d07d89fe0b18908aab8c4a7a18c55afcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:17 +0000
Subject: [PATCH 07/33] fix: report a conflict when a rebased commit adds files
 under a path which is a file in the destination

---
 git-branchless-lib/src/git/repo.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 0c791e9..a51f15a 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1333,10 +1333,32 @@ impl Repo {
             };
         }
 
-        let changed_pathbufs = self
-            .get_paths_touched_by_commit(patch_commit)?
-            .into_iter()
-            .collect_vec();
+        let changed_pathbufs = {
+            let mut result = self.get_paths_touched_by_commit(patch_commit)?;
+
+            // If one of the directories containing a changed path is a file in
+            // the target commit, then it needs to take part in the merge as
+            // well, so that it's reported as a conflict rather than overwritten.
+            let target_tree = target_commit.get_tree()?;
+            let parent_paths: HashSet<PathBuf> = result
+                .iter()
+                .flat_map(|path| path.ancestors().skip(1))
+                .filter(|path| !path.as_os_str().is_empty())
+                .map(|path| path.to_path_buf())
+                .collect();
+            for parent_path in parent_paths {
+                match target_tree
+                    .get_path(&parent_path)
+                    .map_err(Error::ReadTree)?
+                {
+                    Some(entry) if entry.get_filemode() != FileMode::Tree => {
+                        result.insert(parent_path);
+                    }
+                    Some(_) | None => {}
+                }
+            }
+            result.into_iter().collect_vec()
+        };
         let changed_paths = changed_pathbufs.iter().map(PathBuf::borrow).collect_vec();
 
         let dehydrated_patch_commit =
-- 
2.43.0


From 368cab4f71ca75fae561a10a0905a6424f75ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:33 +0000
Subject: [PATCH 08/33] fix: don't create new versions of already-rewritten
 commits when restacking

---
 git-branchless-lib/src/core/rewrite/plan.rs | 44 ++++++++++++++++++++-
 git-branchless/src/commands/restack.rs      | 18 +++++++++
 2 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/plan.rs b/git-branchless-lib/src/core/rewrite/plan.rs
index e4a652f..10e2aa2 100644
--- a/git-branchless-lib/src/core/rewrite/plan.rs
+++ b/git-branchless-lib/src/core/rewrite/plan.rs
@@ -361,7 +361,14 @@ impl<'a> ConstraintGraph<'a> {
     /// of a referred-to commit. This adds enough information to the constraint
     /// graph that it now represents the actual end-state commit graph that we
     /// want to create, not just a list of constraints.
-    fn add_descendant_constraints(&mut self, effects: &Effects) -> eyre::Result<()> {
+    ///
+    /// Commits in `commits_to_skip` are only included if some other descendant
+    /// commit has to be rebased on top of them.
+    fn add_descendant_constraints(
+        &mut self,
+        effects: &Effects,
+        commits_to_skip: &CommitSet,
+    ) -> eyre::Result<()> {
         let (effects, _progress) = effects.start_operation(OperationType::ConstrainCommits);
         let _effects = effects;
 
@@ -376,6 +383,24 @@ impl<'a> ConstraintGraph<'a> {
             let descendants = self.dag.query_descendants(commits_to_move.clone())?;
             let descendants = descendants.difference(&commits_to_move);
             let descendants = self.dag.filter_visible_commits(descendants)?;
+            let descendants = {
+                let dest_oids: CommitSet = self.parents().into_iter().collect();
+                let commits_to_skip = descendants
+                    .intersection(commits_to_skip)
+                    .difference(&dest_oids);
+                let mut included = descendants.difference(&commits_to_skip);
+                loop {
+                    let needed = self
+                        .dag
+                        .query_parents(included.clone())?
+                        .intersection(&commits_to_skip)
+                        .difference(&included);
+                    if self.dag.set_is_empty(&needed)? {
+                        break included;
+                    }
+                    included = included.union(&needed);
+                }
+            };
             let descendant_oids = self.dag.commit_set_to_vec(&descendants)?;
             for descendant_oid in descendant_oids {
                 let parents = self.dag.query_parent_names(descendant_oid)?;
@@ -567,6 +592,10 @@ pub struct RebasePlanBuilder<'a> {
     /// with.
     replacement_commits: HashMap<NonZeroOid, NonZeroOid>,
 
+    /// Commits which shouldn't be rebased merely because one of their ancestors
+    /// is rebased.
+    commits_to_skip: CommitSet,
+
     /// Cache mapping from commit OID to the paths changed in the diff for that
     /// commit. The value is `None` if the commit doesn't have an associated
     /// diff (i.e. is a merge commit).
@@ -730,6 +759,7 @@ impl<'a> RebasePlanBuilder<'a> {
             permissions,
             initial_constraints: Default::default(),
             replacement_commits: Default::default(),
+            commits_to_skip: CommitSet::empty(),
             touched_paths_cache: Default::default(),
         }
     }
@@ -1077,6 +1107,14 @@ impl<'a> RebasePlanBuilder<'a> {
         Ok(())
     }
 
+    /// Don't rebase the provided commits only because one of their ancestors
+    /// is being rebased. They'll still be rebased if there's an explicit
+    /// instruction to do so, or if some other commit has to be rebased on top
+    /// of them.
+    pub fn skip_descendants(&mut self, commits: CommitSet) {
+        self.commits_to_skip = self.commits_to_skip.union(&commits);
+    }
+
     /// Instruct the rebase planner to replace the commit at `original_oid` with the commit at
     /// `replacement_oid`.
     pub fn replace_commit(
@@ -1126,7 +1164,9 @@ impl<'a> RebasePlanBuilder<'a> {
                 state.constraints.get_constraints_sorted_for_debug(),
             );
         }
-        state.constraints.add_descendant_constraints(&effects)?;
+        state
+            .constraints
+            .add_descendant_constraints(&effects, &self.commits_to_skip)?;
         if *dump_rebase_constraints {
             // For test: don't print to `effects.get_output_stream()`, as it will
             // be suppressed.
diff --git a/git-branchless/src/commands/restack.rs b/git-branchless/src/commands/restack.rs
index 0b6c728..308ca44 100644
--- a/git-branchless/src/commands/restack.rs
+++ b/git-branchless/src/commands/restack.rs
@@ -144,6 +144,24 @@ fn restack_commits(
             }
         };
         let mut builder = RebasePlanBuilder::new(dag, permissions);
+
+        // Commits which were already rewritten have been replaced by their newer
+        // versions, so don't create further versions of them just because
+        // they're descendants of a commit to restack.
+        let abandoned_commits: CommitSet = rebases
+            .iter()
+            .flat_map(|rebase| rebase.abandoned_child_oids.iter().copied())
+            .collect();
+        let obsolete_descendants = dag
+            .query_descendants(abandoned_commits)?
+            .intersection(&dag.query_obsolete_commits());
+        builder.skip_descendants(
+            dag.commit_set_to_vec(&obsolete_descendants)?
+                .into_iter()
+                .filter(|oid| find_rewrite_target(event_replayer, event_cursor, *oid).is_some())
+                .collect(),
+        );
+
         for RebaseInfo {
             dest_oid,
             abandoned_child_oids,
-- 
2.43.0


From 7318f897378e5a443e655977ac8ea99be41e2260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:27 +0000
Subject: [PATCH 09/33] fix: never delete the main branch when hiding its
 commit

---
 git-branchless-lib/src/core/rewrite/execute.rs | 9 ++-------
 git-branchless/src/commands/hide.rs            | 3 +++
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/execute.rs b/git-branchless-lib/src/core/rewrite/execute.rs
index 876a6dd..653bbea 100644
--- a/git-branchless-lib/src/core/rewrite/execute.rs
+++ b/git-branchless-lib/src/core/rewrite/execute.rs
@@ -100,13 +100,8 @@ pub fn move_branches<'a>(
                                 MaybeZeroOid::NonZero(target_oid)
                             }
                             None => {
-                                let mut main_branch_reference =
-                                    repo.get_main_branch()?.into_reference();
-                                if let Err(err) = main_branch_reference.delete() {
-                                    branch_move_err = Some(eyre::eyre!(err));
-                                    break 'outer;
-                                }
-                                MaybeZeroOid::Zero
+                                warn!(?reference_name, "Not deleting main branch");
+                                continue;
                             }
                         };
                         branch_moves.push((*old_oid, target_oid, reference_name));
diff --git a/git-branchless/src/commands/hide.rs b/git-branchless/src/commands/hide.rs
index 32a20df..dcf2b61 100644
--- a/git-branchless/src/commands/hide.rs
+++ b/git-branchless/src/commands/hide.rs
@@ -121,6 +121,8 @@ pub fn hide(
         )?;
     }
 
+    // The main branch is never deleted.
+    let main_branch_name = repo.get_main_branch()?.get_reference_name()?;
     let mut abandoned_branches: Vec<String> = commits
         .iter()
         .filter_map(|commit| {
@@ -129,6 +131,7 @@ pub fn hide(
                 .get(&commit.get_oid())
         })
         .flatten()
+        .filter(|branch_name| **branch_name != main_branch_name)
         .map(|branch_name| CategorizedReferenceName::new(branch_name).render_suffix())
         .collect();
     if !abandoned_branches.is_empty() {
-- 
2.43.0


From caa7e1d91e3d051edae7fead2cf3d8572cab7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:24 +0000
Subject: [PATCH 10/33] fix: record branch changes made by git undo in the
 event log

Undo created and deleted branches through libgit2, which doesn't invoke the
reference-transaction hook. The event log therefore kept the locations from
before the undo, and undoing again moved branches to places which didn't
correspond to any previous state of the repository.
---
 git-branchless-undo/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/git-branchless-undo/src/lib.rs b/git-branchless-undo/src/lib.rs
index 4dc39dc..00a1064 100644
--- a/git-branchless-undo/src/lib.rs
+++ b/git-branchless-undo/src/lib.rs
@@ -882,6 +882,8 @@ fn undo_events(
             } => match repo.find_reference(ref_name)? {
                 Some(mut reference) => {
                     reference.delete().wrap_err("Applying `RefUpdateEvent`")?;
+                    // `libgit2` doesn't invoke the `reference-transaction` hook.
+                    event_log_db.add_events(vec![event.clone()])?;
                 }
                 None => {
                     writeln!(
@@ -909,6 +911,7 @@ fn undo_events(
             } => {
                 // Create or update the given reference.
                 repo.create_reference(ref_name, *new_oid, true, "branchless undo")?;
+                event_log_db.add_events(vec![event.clone()])?;
             }
 
             Event::WorkingCopySnapshot { .. } => {
-- 
2.43.0


From ccd841d44fbf16b639158e79b2702672cd364063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:24 +0000
Subject: [PATCH 11/33] fix: record the previous location of a forcibly-updated
 branch

Git passes an all-zero old value to the reference-transaction hook when a
reference is updated regardless of its current value, as with git branch -f or
git checkout -B. The update was recorded as the creation of the branch, so that
undoing it deleted the branch. Look up the old value in the branch's reflog.
---
 git-branchless-hook/src/lib.rs     | 50 ++++++++++++++++++++++++++++--
 git-branchless-lib/src/git/repo.rs | 28 +++++++++++++++++
 2 files changed, 76 insertions(+), 2 deletions(-)

diff --git a/git-branchless-hook/src/lib.rs b/git-branchless-hook/src/lib.rs
index f4c8348..724dd36 100644
--- a/git-branchless-hook/src/lib.rs
+++ b/git-branchless-hook/src/lib.rs
@@ -495,6 +495,51 @@ mod reference_transaction {
             other => other,
         }
     }
+
+    /// Git doesn't provide the old value when updating a reference regardless
+    /// of its current value (e.g. with `git branch -f`), in which case it looks
+    /// like the reference was newly created. Look up the actual old value in
+    /// the reflog.
+    #[instrument]
+    pub fn fix_forced_reference_update(
+        repo: &Repo,
+        parsed_line: ParsedReferenceTransactionLine,
+    ) -> ParsedReferenceTransactionLine {
+        let ParsedReferenceTransactionLine {
+            ref_name,
+            old_value,
+            new_value,
+        } = parsed_line;
+        let old_value = match (&old_value, &new_value) {
+            (
+                ReferenceTarget::Direct {
+                    oid: MaybeZeroOid::Zero,
+                },
+                ReferenceTarget::Direct {
+                    oid: new_oid @ MaybeZeroOid::NonZero(_),
+                },
+            ) if ref_name.as_str().starts_with("refs/heads/") => {
+                match repo.get_latest_reference_update(&ref_name) {
+                    Ok(Some((reflog_old_oid, reflog_new_oid))) if reflog_new_oid == *new_oid => {
+                        ReferenceTarget::Direct {
+                            oid: reflog_old_oid,
+                        }
+                    }
+                    Ok(_) => old_value,
+                    Err(err) => {
+                        warn!(?err, ?ref_name, "Could not read reflog");
+                        old_value
+                    }
+                }
+            }
+            _ => old_value,
+        };
+        ParsedReferenceTransactionLine {
+            ref_name,
+            old_value,
+            new_value,
+        }
+    }
 }
 
 /// Handle Git's `reference-transaction` hook.
@@ -503,8 +548,8 @@ mod reference_transaction {
 #[instrument]
 fn hook_reference_transaction(effects: &Effects, transaction_state: &str) -> eyre::Result<()> {
     use reference_transaction::{
-        fix_packed_reference_oid, parse_reference_transaction_line, read_packed_refs_file,
-        ParsedReferenceTransactionLine,
+        fix_forced_reference_update, fix_packed_reference_oid, parse_reference_transaction_line,
+        read_packed_refs_file, ParsedReferenceTransactionLine,
     };
 
     if transaction_state != "committed" {
@@ -550,6 +595,7 @@ fn hook_reference_transaction(effects: &Effects, transaction_state: &str) -> eyr
              }| !should_ignore_ref_updates(ref_name),
         )
         .map(|parsed_line| fix_packed_reference_oid(&repo, &packed_references, parsed_line))
+        .map(|parsed_line| fix_forced_reference_update(&repo, parsed_line))
         .collect();
     if parsed_lines.is_empty() {
         return Ok(());
diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index a51f15a..5ca60bc 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -710,6 +710,34 @@ impl Repo {
         }
     }
 
+    /// Get the values of the given reference immediately before and after its
+    /// latest update, as per its reflog. Returns `None` if there is no reflog.
+    #[instrument]
+    pub fn get_latest_reference_update(
+        &self,
+        name: &ReferenceName,
+    ) -> Result<Option<(MaybeZeroOid, MaybeZeroOid)>> {
+        let make_err = |source| Error::FindReference {
+            source,
+            name: name.clone(),
+        };
+        if !self
+            .inner
+            .reference_has_log(name.as_str())
+            .map_err(make_err)?
+        {
+            return Ok(None);
+        }
+        let reflog = self.inner.reflog(name.as_str()).map_err(make_err)?;
+        let result = reflog.get(0).map(|entry| {
+            (
+                MaybeZeroOid::from(entry.id_old()),
+                MaybeZeroOid::from(entry.id_new()),
+            )
+        });
+        Ok(result)
+    }
+
     /// Set the `HEAD` reference directly to the provided `oid`. Does not touch
     /// the working copy.
     #[instrument]
-- 
2.43.0


From 262f0f4ea9a2e755d070f580a915da6985992307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:41 +0000
Subject: [PATCH 12/33] fix: keep working copy up to date when restacking the
 checked-out branch

When the branch pointed to by HEAD had been left behind on an obsolete commit,
git restack moved it to the new version of the commit underneath HEAD, without
updating the index and the working copy. The differences between the two
versions were then shown as staged changes.
---
 git-branchless/src/commands/restack.rs | 42 ++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/git-branchless/src/commands/restack.rs b/git-branchless/src/commands/restack.rs
index 308ca44..88e1b1f 100644
--- a/git-branchless/src/commands/restack.rs
+++ b/git-branchless/src/commands/restack.rs
@@ -59,7 +59,7 @@ use std::collections::{HashMap, HashSet};
 use std::fmt::Write;
 use std::time::SystemTime;
 
-use lib::core::check_out::CheckOutCommitOptions;
+use lib::core::check_out::{check_out_commit, CheckOutCommitOptions, CheckoutTarget};
 use lib::core::repo_ext::RepoExt;
 use lib::try_exit_code;
 use lib::util::{ExitCode, EyreExitOr};
@@ -78,7 +78,7 @@ use lib::core::rewrite::{
     BuildRebasePlanOptions, ExecuteRebasePlanOptions, ExecuteRebasePlanResult,
     MergeConflictRemediation, RebasePlanBuilder, RebasePlanPermissions, RepoPool, RepoResource,
 };
-use lib::git::{GitRunInfo, NonZeroOid, Repo};
+use lib::git::{GitRunInfo, MaybeZeroOid, NonZeroOid, Repo, ResolvedReferenceInfo};
 
 #[instrument(skip(commits))]
 fn restack_commits(
@@ -263,6 +263,30 @@ fn restack_branches(
             "No abandoned branches to restack."
         )?;
     } else {
+        // Avoid moving the branch which `HEAD` points to, or else the index will
+        // show a lot of changes in the working copy.
+        let head_info = repo.get_head_info()?;
+        let checked_out_branch = match &head_info {
+            ResolvedReferenceInfo {
+                oid: Some(old_oid),
+                reference_name: Some(reference_name),
+            } => match rewritten_oids.get(old_oid) {
+                Some(MaybeZeroOid::NonZero(new_oid))
+                    if repo.find_commit_or_fail(*new_oid)?.get_tree_oid()
+                        == repo.find_commit_or_fail(*old_oid)?.get_tree_oid() =>
+                {
+                    // The working copy doesn't have to be updated.
+                    None
+                }
+                Some(_) => {
+                    repo.detach_head(&head_info)?;
+                    Some(reference_name.clone())
+                }
+                None => None,
+            },
+            _ => None,
+        };
+
         move_branches(
             effects,
             git_run_info,
@@ -270,6 +294,20 @@ fn restack_branches(
             options.event_tx_id,
             &rewritten_oids,
         )?;
+
+        if let Some(reference_name) = checked_out_branch {
+            if repo.find_reference(&reference_name)?.is_some() {
+                try_exit_code!(check_out_commit(
+                    effects,
+                    git_run_info,
+                    repo,
+                    event_log_db,
+                    options.event_tx_id,
+                    Some(CheckoutTarget::Reference(reference_name)),
+                    &options.check_out_commit_options,
+                )?);
+            }
+        }
         writeln!(effects.get_output_stream(), "Finished restacking branches.")?;
     }
     Ok(Ok(()))
-- 
2.43.0


From d172f810ec5d39e22262b04cfb7f10082a45b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:59 +0000
Subject: [PATCH 13/33] fix: keep unhidden and undone commits reachable

Commits which become visible again through unhide or undo may have lost
their garbage collection reference in the meantime, so that a later
`git gc` could delete them while they were still visible.
---
 git-branchless-undo/src/lib.rs      | 18 ++++++++++++++----
 git-branchless/src/commands/hide.rs |  6 ++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/git-branchless-undo/src/lib.rs b/git-branchless-undo/src/lib.rs
index 00a1064..c0e8b28 100644
--- a/git-branchless-undo/src/lib.rs
+++ b/git-branchless-undo/src/lib.rs
@@ -40,6 +40,7 @@ use lib::core::dag::{CommitSet, Dag};
 use lib::core::effects::Effects;
 use lib::core::eventlog::{Event, EventCursor, EventLogDb, EventReplayer, EventTransactionId};
 use lib::core::formatting::{Glyphs, Pluralize, StyledStringBuilder};
+use lib::core::gc::mark_commit_reachable;
 use lib::core::node_descriptors::{
     BranchesDescriptor, CommitMessageDescriptor, CommitOidDescriptor,
     DifferentialRevisionDescriptor, ObsolescenceExplanationDescriptor, Redactor,
@@ -918,10 +919,19 @@ fn undo_events(
                 // Should be handled as the checkout target already.
             }
 
-            Event::CommitEvent { .. }
-            | Event::ObsoleteEvent { .. }
-            | Event::UnobsoleteEvent { .. }
-            | Event::RewriteEvent { .. } => {
+            Event::CommitEvent { commit_oid, .. }
+            | Event::UnobsoleteEvent { commit_oid, .. }
+            | Event::RewriteEvent {
+                new_commit_oid: MaybeZeroOid::NonZero(commit_oid),
+                ..
+            } => {
+                // The reference may have been garbage-collected while the commit
+                // was hidden.
+                mark_commit_reachable(repo, *commit_oid)?;
+                event_log_db.add_events(vec![event.clone()])?;
+            }
+
+            Event::ObsoleteEvent { .. } | Event::RewriteEvent { .. } => {
                 event_log_db.add_events(vec![event.clone()])?;
             }
         }
diff --git a/git-branchless/src/commands/hide.rs b/git-branchless/src/commands/hide.rs
index dcf2b61..82d5441 100644
--- a/git-branchless/src/commands/hide.rs
+++ b/git-branchless/src/commands/hide.rs
@@ -11,6 +11,7 @@ use lib::core::effects::Effects;
 use lib::core::eventlog::{CommitActivityStatus, Event};
 use lib::core::eventlog::{EventLogDb, EventReplayer};
 use lib::core::formatting::{Glyphs, Pluralize};
+use lib::core::gc::mark_commit_reachable;
 use lib::core::repo_ext::RepoExt;
 use lib::core::rewrite::move_branches;
 use lib::git::{CategorizedReferenceName, GitRunInfo, MaybeZeroOid, NonZeroOid, Repo};
@@ -241,6 +242,11 @@ pub fn unhide(
             commit_oid: commit.get_oid(),
         })
         .collect();
+    for commit in commits.iter() {
+        // The reference may have been garbage-collected while the commit was
+        // hidden.
+        mark_commit_reachable(&repo, commit.get_oid())?;
+    }
     event_log_db.add_events(events)?;
 
     let cursor = event_replayer.make_default_cursor();
-- 
2.43.0


From 6c07ccbc183960b94a875fbbacfdb830b9b462b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:59 +0000
Subject: [PATCH 14/33] fix: do not record intermediate commits of interactive
 rebases

A commit picked and then amended during the same rebase (`fixup`, `squash`
or `reword` in the todo list) was recorded as a new commit when the rebase
finished, and stayed visible although it had been replaced.
---
 .../src/core/rewrite/rewrite_hooks.rs         | 60 +++++++++++++++----
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/rewrite_hooks.rs b/git-branchless-lib/src/core/rewrite/rewrite_hooks.rs
index 9566930..18b7bde 100644
--- a/git-branchless-lib/src/core/rewrite/rewrite_hooks.rs
+++ b/git-branchless-lib/src/core/rewrite/rewrite_hooks.rs
@@ -58,6 +58,33 @@ fn read_deferred_commits(repo: &Repo) -> eyre::Result<Vec<NonZeroOid>> {
     Ok(commit_oids)
 }
 
+/// Keep only those of the deferred commits which are part of the result of the
+/// rebase.
+fn remove_intermediate_commits(
+    repo: &Repo,
+    deferred_commit_oids: Vec<NonZeroOid>,
+    rewritten_oids: impl Iterator<Item = MaybeZeroOid>,
+) -> eyre::Result<Vec<NonZeroOid>> {
+    let result_oids: HashSet<NonZeroOid> = rewritten_oids
+        .filter_map(Option::<NonZeroOid>::from)
+        .chain(repo.get_head_info()?.oid)
+        .collect();
+    let mut commit_oids = Vec::new();
+    for commit_oid in deferred_commit_oids {
+        let mut is_part_of_result = result_oids.contains(&commit_oid);
+        for result_oid in result_oids.iter() {
+            if is_part_of_result {
+                break;
+            }
+            is_part_of_result = repo.find_merge_base(commit_oid, *result_oid)? == Some(commit_oid);
+        }
+        if is_part_of_result {
+            commit_oids.push(commit_oid);
+        }
+    }
+    Ok(commit_oids)
+}
+
 #[instrument(skip(stream))]
 fn read_rewritten_list_entries(
     stream: &mut impl Read,
@@ -148,19 +175,6 @@ pub fn hook_post_rewrite(
     let event_log_db = EventLogDb::new(&conn)?;
     let event_tx_id = event_log_db.make_transaction_id(now, "hook-post-rewrite")?;
 
-    {
-        let deferred_commit_oids = read_deferred_commits(&repo)?;
-        let commit_events = deferred_commit_oids
-            .into_iter()
-            .map(|commit_oid| Event::CommitEvent {
-                timestamp,
-                event_tx_id,
-                commit_oid,
-            })
-            .collect_vec();
-        event_log_db.add_events(commit_events)?;
-    }
-
     let (rewritten_oids, rewrite_events) = {
         let rewritten_oids = read_rewritten_list_entries(&mut stdin().lock())?;
         let events = rewritten_oids
@@ -178,6 +192,26 @@ pub fn hook_post_rewrite(
         (rewritten_oids_map, events)
     };
 
+    {
+        // Some of the commits may only have been intermediate results, which
+        // were themselves amended later in the same rebase (such as for
+        // `reword` or `fixup` commands).
+        let deferred_commit_oids = remove_intermediate_commits(
+            &repo,
+            read_deferred_commits(&repo)?,
+            rewritten_oids.values().copied(),
+        )?;
+        let commit_events = deferred_commit_oids
+            .into_iter()
+            .map(|commit_oid| Event::CommitEvent {
+                timestamp,
+                event_tx_id,
+                commit_oid,
+            })
+            .collect_vec();
+        event_log_db.add_events(commit_events)?;
+    }
+
     let message_rewritten_commits = Pluralize {
         determiner: None,
         amount: rewritten_oids.len(),
-- 
2.43.0


From eb52f2eab77d84be8baa80c81ca7699123b605d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:40 +0000
Subject: [PATCH 15/33] fix: amend and snapshot symlinks and file type changes

Git reports a change between a regular file and a symlink as a type change,
which was ignored. The contents stored for a symlink were those of its
target file instead of its target path, or none at all for a dangling one.
A file replaced with a directory made the operation fail.
---
 git-branchless-lib/src/git/repo.rs   | 27 ++++++++++++++++++++++++---
 git-branchless-lib/src/git/status.rs |  4 +++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 5ca60bc..7f6aed8 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -460,6 +460,27 @@ impl AmendFastOptions<'_> {
     }
 }
 
+/// Read the contents which Git would store for the given path: those of the
+/// file itself, or the target in the case of a symlink. Returns `None` if there
+/// is neither a file nor a symlink at that path.
+fn read_file_or_symlink(path: &Path) -> std::io::Result<Option<Vec<u8>>> {
+    let metadata = match std::fs::symlink_metadata(path) {
+        Ok(metadata) => metadata,
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => return Ok(None),
+        // One of the parent directories might have been replaced with a file.
+        Err(_) if path.ancestors().skip(1).any(|parent| parent.is_file()) => return Ok(None),
+        Err(err) => return Err(err),
+    };
+    if metadata.is_dir() {
+        Ok(None)
+    } else if metadata.is_symlink() {
+        let target = std::fs::read_link(path)?;
+        Ok(Some(Vec::from_path_lossy(&target).into_owned()))
+    } else {
+        Ok(Some(std::fs::read(path)?))
+    }
+}
+
 /// Wrapper around `git2::Repository`.
 pub struct Repo {
     pub(super) inner: git2::Repository,
@@ -1260,9 +1281,9 @@ impl Repo {
                 path: path.to_path_buf(),
             })?
             .join(path);
-        let contents = match std::fs::read(&path) {
-            Ok(contents) => contents,
-            Err(err) if err.kind() == std::io::ErrorKind::NotFound => return Ok(None),
+        let contents = match read_file_or_symlink(&path) {
+            Ok(Some(contents)) => contents,
+            Ok(None) => return Ok(None),
             Err(err) => {
                 return Err(Error::CreateBlobFromPath {
                     source: err.into(),
diff --git a/git-branchless-lib/src/git/status.rs b/git-branchless-lib/src/git/status.rs
index 72ba336..e01d9e2 100644
--- a/git-branchless-lib/src/git/status.rs
+++ b/git-branchless-lib/src/git/status.rs
@@ -45,7 +45,9 @@ impl From<u8> for FileStatus {
     fn from(status: u8) -> Self {
         match status {
             b'.' => FileStatus::Unmodified,
-            b'M' => FileStatus::Modified,
+            // A type change (`T`) is a change between e.g. a regular file and a
+            // symlink.
+            b'M' | b'T' => FileStatus::Modified,
             b'A' => FileStatus::Added,
             b'D' => FileStatus::Deleted,
             b'R' => FileStatus::Renamed,
-- 
2.43.0


From a86ad282c8461a6691a214297c2b37dab1137441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:40 +0000
Subject: [PATCH 16/33] fix: restore snapshot index when a file was replaced
 with a directory

The directory's tree was passed to `git update-index` in place of a file,
which adds its files under wrong names.
---
 git-branchless-lib/src/core/check_out.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/git-branchless-lib/src/core/check_out.rs b/git-branchless-lib/src/core/check_out.rs
index 546a098..725c403 100644
--- a/git-branchless-lib/src/core/check_out.rs
+++ b/git-branchless-lib/src/core/check_out.rs
@@ -12,8 +12,8 @@ use tracing::instrument;
 
 use crate::core::config::get_auto_switch_branches;
 use crate::git::{
-    update_index, CategorizedReferenceName, GitRunInfo, MaybeZeroOid, NonZeroOid, ReferenceName,
-    Repo, Stage, UpdateIndexCommand, WorkingCopySnapshot,
+    update_index, CategorizedReferenceName, FileMode, GitRunInfo, MaybeZeroOid, NonZeroOid,
+    ReferenceName, Repo, Stage, UpdateIndexCommand, WorkingCopySnapshot,
 };
 use crate::try_exit_code;
 use crate::util::EyreExitOr;
@@ -299,7 +299,11 @@ pub fn restore_snapshot(
             let changed_paths = repo.get_paths_touched_by_commit(commit)?;
             for path in changed_paths {
                 let tree = commit.get_tree()?;
-                let tree_entry = tree.get_path(&path)?;
+                // If there's a directory at this path now, then the files in it
+                // are listed separately.
+                let tree_entry = tree
+                    .get_path(&path)?
+                    .filter(|tree_entry| tree_entry.get_filemode() != FileMode::Tree);
 
                 let is_deleted = tree_entry.is_none();
                 if is_deleted {
-- 
2.43.0


From 7b90173fd4c3b1fbf46ff07a7e9f75a62670e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:54 +0000
Subject: [PATCH 17/33] fix: restore all stages of merge conflicts from
 snapshots

Index stages which were identical to the checked-out commit, or which were
added before another stage of the same path was removed, were lost when
restoring a snapshot.
---
 git-branchless-lib/src/core/check_out.rs | 56 +++++++++++++++---------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/git-branchless-lib/src/core/check_out.rs b/git-branchless-lib/src/core/check_out.rs
index 725c403..3696944 100644
--- a/git-branchless-lib/src/core/check_out.rs
+++ b/git-branchless-lib/src/core/check_out.rs
@@ -1,5 +1,6 @@
 //! Handle checking out commits on disk.
 
+use std::collections::HashSet;
 use std::ffi::{OsStr, OsString};
 use std::fmt::Write;
 use std::time::{SystemTime, UNIX_EPOCH};
@@ -289,38 +290,51 @@ pub fn restore_snapshot(
 
     // Check out the staged changes.
     let update_index_script = {
-        let mut commands = Vec::new();
-        for (stage, commit) in [
-            (Stage::Stage0, &snapshot.commit_stage0),
-            (Stage::Stage1, &snapshot.commit_stage1),
-            (Stage::Stage2, &snapshot.commit_stage2),
-            (Stage::Stage3, &snapshot.commit_stage3),
+        let staged_paths = repo.get_paths_touched_by_commit(&snapshot.commit_stage0)?;
+        // A path with merge conflicts is different from `HEAD` in at least one
+        // of these stages, but not necessarily in all of them.
+        let mut conflicted_paths = HashSet::new();
+        for commit in [
+            &snapshot.commit_stage1,
+            &snapshot.commit_stage2,
+            &snapshot.commit_stage3,
         ] {
-            let changed_paths = repo.get_paths_touched_by_commit(commit)?;
-            for path in changed_paths {
-                let tree = commit.get_tree()?;
+            conflicted_paths.extend(repo.get_paths_touched_by_commit(commit)?);
+        }
+
+        let mut delete_commands = Vec::new();
+        let mut update_commands = Vec::new();
+        for (stage, commit, paths) in [
+            (Stage::Stage0, &snapshot.commit_stage0, &staged_paths),
+            (Stage::Stage1, &snapshot.commit_stage1, &conflicted_paths),
+            (Stage::Stage2, &snapshot.commit_stage2, &conflicted_paths),
+            (Stage::Stage3, &snapshot.commit_stage3, &conflicted_paths),
+        ] {
+            let tree = commit.get_tree()?;
+            for path in paths {
                 // If there's a directory at this path now, then the files in it
                 // are listed separately.
                 let tree_entry = tree
-                    .get_path(&path)?
+                    .get_path(path)?
                     .filter(|tree_entry| tree_entry.get_filemode() != FileMode::Tree);
-
-                let is_deleted = tree_entry.is_none();
-                if is_deleted {
-                    commands.push(UpdateIndexCommand::Delete { path: path.clone() })
-                }
-
-                if let Some(tree_entry) = tree_entry {
-                    commands.push(UpdateIndexCommand::Update {
-                        path,
+                match tree_entry {
+                    Some(tree_entry) => update_commands.push(UpdateIndexCommand::Update {
+                        path: path.clone(),
                         stage,
                         mode: tree_entry.get_filemode(),
                         oid: tree_entry.get_oid(),
-                    })
+                    }),
+                    None => delete_commands.push(UpdateIndexCommand::Delete { path: path.clone() }),
                 }
             }
         }
-        commands
+
+        // Deleting a path removes it from all stages, so it has to happen
+        // before the path is added to any of them.
+        delete_commands
+            .into_iter()
+            .chain(update_commands)
+            .collect_vec()
     };
     let index = repo.get_index()?;
     update_index(
-- 
2.43.0


From 09ecaf35ddaaf87555c1a803ae53033ecbc88866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:31 +0000
Subject: [PATCH 18/33] fix: do not hang when `git status` prints header lines

With `status.showStash` set and a stash present, the first line of the status
output is a header, and the parser never advanced past it.
---
 git-branchless-lib/src/git/repo.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 7f6aed8..fe5f1d7 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1081,7 +1081,13 @@ impl Repo {
                     line
                 }
                 // Skip header lines
-                b'#' => continue,
+                b'#' => {
+                    status_bytes
+                        .by_ref()
+                        .take_while(not_null_terminator)
+                        .for_each(drop);
+                    continue;
+                }
                 _ => {
                     return Err(Error::UnknownStatusLinePrefix {
                         prefix: *line_prefix,
-- 
2.43.0


From 306baa33336e80dbc82f7fcd97e597127e1a2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:54 +0000
Subject: [PATCH 19/33] fix: capture the right file mode for sources of copies
 and renames

The working copy snapshot used the file mode of the destination for the
source of a copy (with `status.renames=copies`), and for a path which was
renamed and replaced with a file of another type.
---
 git-branchless-lib/src/git/snapshot.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/git-branchless-lib/src/git/snapshot.rs b/git-branchless-lib/src/git/snapshot.rs
index ca958e5..0276d74 100644
--- a/git-branchless-lib/src/git/snapshot.rs
+++ b/git-branchless-lib/src/git/snapshot.rs
@@ -321,12 +321,17 @@ branchless: automated working copy snapshot
                 // entry in the tree will also be unchanged.
                 entry.working_copy_status.is_changed() || entry.index_status.is_changed()
             })
-            .flat_map(|entry| {
-                entry
-                    .paths()
-                    .into_iter()
-                    .map(|path| (path, entry.working_copy_file_mode))
+            .flat_map(|entry| entry.paths().into_iter().map(move |path| (path, entry)))
+            // The source of a copy has its own entry if it changed at all.
+            .filter(|(path, entry)| {
+                entry.path == *path
+                    || (entry.index_status != FileStatus::Copied
+                        && entry.working_copy_status != FileStatus::Copied)
             })
+            // The source of a rename can also be the path of another entry,
+            // which then determines its file mode.
+            .sorted_by_key(|(path, entry)| entry.path == *path)
+            .map(|(path, entry)| (path, entry.working_copy_file_mode))
             .collect();
         let num_changes = changed_paths.len();
 
-- 
2.43.0


From b65bb2df4ed55f324cc1074d1e3673516e115f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:05 +0000
Subject: [PATCH 20/33] fix: switch back to the previous commit in record
 --stash on a detached HEAD

HEAD is already at the new commit when the target to check out is determined,
so `git record --stash` stayed there unless a branch was checked out. Use the
new commit's parent.
---
 git-branchless-record/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/git-branchless-record/src/lib.rs b/git-branchless-record/src/lib.rs
index 166f653..912be3c 100644
--- a/git-branchless-record/src/lib.rs
+++ b/git-branchless-record/src/lib.rs
@@ -214,7 +214,11 @@ fn record(
             ResolvedReferenceInfo {
                 oid: Some(oid),
                 reference_name: _,
-            } => Some(CheckoutTarget::Oid(oid)),
+            } => repo
+                .find_commit_or_fail(oid)?
+                .get_parent_oids()
+                .first()
+                .map(|parent_oid| CheckoutTarget::Oid(*parent_oid)),
             _ => None,
         };
         if stash && checkout_target.is_some() {
-- 
2.43.0


From 70ed4822b1d3f2c570f6374bb6a9c42e72908840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:05 +0000
Subject: [PATCH 21/33] fix: insert the recorded commit, not HEAD, in record
 --insert --stash

With `--stash`, HEAD is back at the previous commit when the children are
moved. The siblings of that commit were moved on top of it, and the new commit
was not inserted at all.
---
 git-branchless-record/src/lib.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/git-branchless-record/src/lib.rs b/git-branchless-record/src/lib.rs
index 912be3c..1324c85 100644
--- a/git-branchless-record/src/lib.rs
+++ b/git-branchless-record/src/lib.rs
@@ -168,8 +168,9 @@ fn record(
         try_exit_code!(git_run_info.run_direct_no_wrapping(Some(event_tx_id), &args)?);
     }
 
+    let head_info = repo.get_head_info()?;
+    let recorded_oid = head_info.oid;
     if detach || stash {
-        let head_info = repo.get_head_info()?;
         if let ResolvedReferenceInfo {
             oid: Some(oid),
             reference_name: Some(reference_name),
@@ -243,7 +244,8 @@ fn record(
             effects,
             git_run_info,
             now,
-            event_tx_id
+            event_tx_id,
+            recorded_oid,
         )?);
     }
 
@@ -425,6 +427,7 @@ fn insert_before_siblings(
     git_run_info: &GitRunInfo,
     now: SystemTime,
     event_tx_id: EventTransactionId,
+    recorded_oid: Option<NonZeroOid>,
 ) -> EyreExitOr<()> {
     // Reopen the repository since references may have changed.
     let repo = Repo::from_dir(&git_run_info.working_directory)?;
@@ -433,16 +436,9 @@ fn insert_before_siblings(
     let references_snapshot = repo.get_references_snapshot()?;
     let event_replayer = EventReplayer::from_event_log_db(effects, &repo, &event_log_db)?;
     let event_cursor = event_replayer.make_default_cursor();
-    let head_info = repo.get_head_info()?;
-    let head_oid = match head_info {
-        ResolvedReferenceInfo {
-            oid: Some(head_oid),
-            reference_name: _,
-        } => head_oid,
-        ResolvedReferenceInfo {
-            oid: None,
-            reference_name: _,
-        } => {
+    let head_oid = match recorded_oid {
+        Some(head_oid) => head_oid,
+        None => {
             return Ok(Ok(()));
         }
     };
-- 
2.43.0


From c60814fb7fe7937ac31d0666153badb4de5b9662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:33 +0000
Subject: [PATCH 22/33] fix: only treat '++ reword' at the beginning of a line
 as a marker

The text of a message may mention the marker, in which case rewording was
refused or, if the mention was followed by the commit's own hash, the text
before it was lost.
---
 git-branchless-reword/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/git-branchless-reword/src/lib.rs b/git-branchless-reword/src/lib.rs
index ef53ad4..14801e2 100644
--- a/git-branchless-reword/src/lib.rs
+++ b/git-branchless-reword/src/lib.rs
@@ -584,16 +584,20 @@ fn parse_bulk_edit_message(
 
     let message = match commits {
         // For single commits, add the marker line, but only if the user hasn't already done so.
-        [only_commit] if !message.contains("++ reword") => {
+        [only_commit] if !message.lines().any(|line| line.starts_with("++ reword")) => {
             format!("++ reword {}\n{}", only_commit.get_short_oid()?, message)
         }
         _ => message,
     };
 
-    // split the bulk message into (hash, msg) tuples
+    // split the bulk message into (hash, msg) tuples; only a marker at the beginning of a line
+    // starts a new commit's message
+    let message = message.trim_start();
     let msgs = message
-        .split("++ reword")
-        .filter_map(|msg| msg.split_once('\n'))
+        .strip_prefix("++ reword")
+        .unwrap_or(message)
+        .split("\n++ reword")
+        .map(|msg| msg.split_once('\n').unwrap_or((msg, "")))
         .map(|(hash, msg)| (hash.trim(), msg));
 
     let mut duplicates = Vec::new();
-- 
2.43.0


From 5c84a88a777ac729b59e9d523f5e1b38c9063c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:33 +0000
Subject: [PATCH 23/33] fix: abort bulk rewording when one of the messages is
 empty

The instructions in the editor say that an empty message aborts the rewording,
but a commit whose section was emptied lost its message.
---
 git-branchless-reword/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/git-branchless-reword/src/lib.rs b/git-branchless-reword/src/lib.rs
index 14801e2..8401a72 100644
--- a/git-branchless-reword/src/lib.rs
+++ b/git-branchless-reword/src/lib.rs
@@ -552,6 +552,14 @@ fn prepare_messages(
         });
     }
 
+    if parsed_messages
+        .messages
+        .values()
+        .any(|message| message.trim().is_empty())
+    {
+        return Ok(PrepareMessagesResult::EmptyMessage);
+    }
+
     Ok(PrepareMessagesResult::Succeeded {
         messages: parsed_messages.messages,
     })
-- 
2.43.0


From a7ae691e176fa5c1ba21de1381c2bdc0045fd180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:33 +0000
Subject: [PATCH 24/33] fix: abort rewording when the editor fails

Like Git, treat a failing editor (such as :cq in vi) as a request to abort
instead of using whatever the edited file contains.
---
 git-branchless-reword/src/dialoguer_edit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/git-branchless-reword/src/dialoguer_edit.rs b/git-branchless-reword/src/dialoguer_edit.rs
index 660969e..eb4aac5 100644
--- a/git-branchless-reword/src/dialoguer_edit.rs
+++ b/git-branchless-reword/src/dialoguer_edit.rs
@@ -142,7 +142,14 @@ impl Editor {
             .spawn()?
             .wait()?;
 
-        if rv.success() && self.require_save && ts >= fs::metadata(f.path())?.modified()? {
+        if !rv.success() {
+            return Err(io::Error::new(
+                io::ErrorKind::Other,
+                format!("the editor failed: {rv}"),
+            ));
+        }
+
+        if self.require_save && ts >= fs::metadata(f.path())?.modified()? {
             return Ok(None);
         }
 
-- 
2.43.0


From b13fee5592e479f71ff6d6fa9a82737289f013a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:57 +0000
Subject: [PATCH 25/33] fix: keep local commits on the main branch when its tip
 is already upstream

When syncing a main branch whose topmost local commit was already applied
upstream, the main branch was pointed at the upstream version even though
earlier local commits were not applied there.
---
 .../src/core/rewrite/execute.rs               | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/git-branchless-lib/src/core/rewrite/execute.rs b/git-branchless-lib/src/core/rewrite/execute.rs
index 653bbea..a2ff3b6 100644
--- a/git-branchless-lib/src/core/rewrite/execute.rs
+++ b/git-branchless-lib/src/core/rewrite/execute.rs
@@ -21,6 +21,24 @@ use crate::util::{ExitCode, EyreExitOr};
 
 use super::plan::RebasePlan;
 
+/// Find the rewritten version of the closest ancestor which was not itself dropped by the rewrite,
+/// following only first parents.
+fn find_rewritten_ancestor(
+    repo: &Repo,
+    rewritten_oids_map: &HashMap<NonZeroOid, MaybeZeroOid>,
+    oid: NonZeroOid,
+) -> eyre::Result<Option<NonZeroOid>> {
+    let mut commit = repo.find_commit_or_fail(oid)?;
+    while let Some(parent) = commit.get_parents().into_iter().next() {
+        match rewritten_oids_map.get(&parent.get_oid()) {
+            Some(MaybeZeroOid::NonZero(new_oid)) => return Ok(Some(*new_oid)),
+            Some(MaybeZeroOid::Zero) => commit = parent,
+            None => break,
+        }
+    }
+    Ok(None)
+}
+
 /// Given a list of rewritten OIDs, move the branches attached to those OIDs
 /// from their old commits to their new commits. Invoke the
 /// `reference-transaction` hook when done.
@@ -82,11 +100,17 @@ pub fn move_branches<'a>(
                 for reference_name in names {
                     if reference_name == &main_branch_name {
                         // Hack? Never delete the main branch. We probably got here by syncing the
-                        // main branch with the upstream version, but all main branch commits were
-                        // skipped. For a regular branch, we would delete the branch, but for the
-                        // main branch, we should update it to point directly to the upstream
-                        // version.
-                        let target_oid = match main_branch.get_upstream_branch_target()? {
+                        // main branch with the upstream version, but the topmost main branch
+                        // commits were skipped. For a regular branch, we would delete the branch,
+                        // but for the main branch, we should update it to point to the last commit
+                        // which wasn't skipped, or directly to the upstream version if there is
+                        // none.
+                        let target_oid =
+                            match find_rewritten_ancestor(repo, rewritten_oids_map, *old_oid)? {
+                                Some(target_oid) => Some(target_oid),
+                                None => main_branch.get_upstream_branch_target()?,
+                            };
+                        let target_oid = match target_oid {
                             Some(target_oid) => {
                                 if let Err(err) = repo.create_reference(
                                     &main_branch_name,
-- 
2.43.0


From 8909e54717d3ce0f3da48c0621c7326b551ddb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:41 +0000
Subject: [PATCH 26/33] fix: record the fast-forward of the main branch in the
 event log

When syncing with --pull while the main branch is not checked out, the main
branch is updated without invoking any hook, so that git undo did not restore
it.
---
 git-branchless/src/commands/sync.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/git-branchless/src/commands/sync.rs b/git-branchless/src/commands/sync.rs
index 5106c18..fc28cd3 100644
--- a/git-branchless/src/commands/sync.rs
+++ b/git-branchless/src/commands/sync.rs
@@ -16,7 +16,7 @@ use git_branchless_revset::{check_revset_syntax, resolve_commits};
 use lib::core::config::get_restack_preserve_timestamps;
 use lib::core::dag::{sorted_commit_set, union_all, CommitSet, Dag};
 use lib::core::effects::{Effects, OperationType, WithProgress};
-use lib::core::eventlog::{EventLogDb, EventReplayer};
+use lib::core::eventlog::{Event, EventLogDb, EventReplayer};
 use lib::core::formatting::{Pluralize, StyledStringBuilder};
 use lib::core::rewrite::{
     execute_rebase_plan, BuildRebasePlanError, BuildRebasePlanOptions, ExecuteRebasePlanOptions,
@@ -234,6 +234,20 @@ fn execute_main_branch_sync_plan(
                 true,
                 "sync",
             )?;
+            if local_main_branch_oid != Some(upstream_main_branch_oid) {
+                // No hook is invoked for the above, so record the update here.
+                event_log_db.add_events(vec![Event::RefUpdateEvent {
+                    timestamp: execute_options
+                        .now
+                        .duration_since(SystemTime::UNIX_EPOCH)?
+                        .as_secs_f64(),
+                    event_tx_id: execute_options.event_tx_id,
+                    ref_name: local_main_branch_reference_name,
+                    old_oid: local_main_branch_oid.into(),
+                    new_oid: upstream_main_branch_oid.into(),
+                    message: None,
+                }])?;
+            }
         }
 
         return Ok(Ok(()));
-- 
2.43.0


From 8b0d1665a43cf6bcbd2414feedca1a290796f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:35 +0000
Subject: [PATCH 27/33] fix: resolve a relative core.hooksPath against the
 working copy

Like Git does. Otherwise, git branchless init installs the hooks in the wrong
place when invoked in a subdirectory, and rewrites carried out in a
subdirectory do not invoke the hooks, so that they are not recorded.
---
 git-branchless-init/src/lib.rs        | 6 ++++++
 git-branchless-lib/src/core/config.rs | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/git-branchless-init/src/lib.rs b/git-branchless-init/src/lib.rs
index 5097e68..1ed4c75 100644
--- a/git-branchless-init/src/lib.rs
+++ b/git-branchless-init/src/lib.rs
@@ -258,6 +258,12 @@ fn install_hooks(effects: &Effects, git_run_info: &GitRunInfo, repo: &Repo) -> e
 
     let default_hooks_dir = get_default_hooks_dir(repo)?;
     if hooks_dir != default_hooks_dir {
+        let hooks_dir = match repo.get_working_copy_path() {
+            Some(working_copy_path) => hooks_dir
+                .strip_prefix(working_copy_path)
+                .unwrap_or(&hooks_dir),
+            None => &hooks_dir,
+        };
         writeln!(
             effects.get_output_stream(),
             "\
diff --git a/git-branchless-lib/src/core/config.rs b/git-branchless-lib/src/core/config.rs
index 248525a..5533d98 100644
--- a/git-branchless-lib/src/core/config.rs
+++ b/git-branchless-lib/src/core/config.rs
@@ -54,7 +54,14 @@ pub fn get_main_worktree_hooks_dir(
     let hooks_path = if result.exit_code.is_success() {
         let path = String::from_utf8(result.stdout)
             .context("Decoding git config output for hooks path")?;
-        PathBuf::from(path.strip_suffix('\n').unwrap_or(&path))
+        let path = PathBuf::from(path.strip_suffix('\n').unwrap_or(&path));
+        // Git resolves a relative path with respect to the root of the working
+        // copy (where the hooks are run), not to the current directory.
+        let parent_repo = repo.open_worktree_parent_repo()?;
+        match parent_repo.as_ref().unwrap_or(repo).get_working_copy_path() {
+            Some(working_copy_path) => working_copy_path.join(path),
+            None => path,
+        }
     } else {
         get_default_hooks_dir(repo)?
     };
-- 
2.43.0


From 408adba7988e92131b3ecc762678557ad0e18e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:35 +0000
Subject: [PATCH 28/33] fix: uninstall from the main repository when invoked in
 a worktree

Like installing does. Otherwise, the hooks of a repository with hooks_multi
were not uninstalled.
---
 git-branchless-init/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/git-branchless-init/src/lib.rs b/git-branchless-init/src/lib.rs
index 1ed4c75..5186dbe 100644
--- a/git-branchless-init/src/lib.rs
+++ b/git-branchless-init/src/lib.rs
@@ -667,6 +667,7 @@ fn command_init(
 #[instrument]
 fn command_uninstall(effects: &Effects, git_run_info: &GitRunInfo) -> EyreExitOr<()> {
     let repo = Repo::from_current_dir()?;
+    let repo = repo.open_worktree_parent_repo()?.unwrap_or(repo);
     let readonly_config = repo.get_readonly_config().wrap_err("Getting repo config")?;
     delete_isolated_config(effects, &repo, readonly_config.into_config())?;
     uninstall_hooks(effects, git_run_info, &repo)?;
-- 
2.43.0


From 8e6f4ea24bda4fa9caa5dc36f63199ad3a706ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:21 +0000
Subject: [PATCH 29/33] fix: show merge commits with omitted parents exactly
 once in the smartlog

A merge commit was rendered once underneath each shown ancestor when one of
its parents was omitted. When its first parent was omitted and had no shown
ancestor, it was not rendered at all, and neither were its descendants. Render
it underneath the first of its links, and treat the others as merge links.
---
 git-branchless-smartlog/src/lib.rs | 70 ++++++++++++++----------------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/git-branchless-smartlog/src/lib.rs b/git-branchless-smartlog/src/lib.rs
index e3b3bdc..81e6414 100644
--- a/git-branchless-smartlog/src/lib.rs
+++ b/git-branchless-smartlog/src/lib.rs
@@ -44,7 +44,7 @@ pub use render::{render_graph, SmartlogOptions};
 use git_branchless_revset::resolve_commits;
 
 mod graph {
-    use std::collections::HashMap;
+    use std::collections::{HashMap, HashSet};
 
     use lib::core::gc::mark_commit_reachable;
     use tracing::instrument;
@@ -214,34 +214,24 @@ mod graph {
         for child_oid in non_main_node_oids {
             let parent_vertices = dag.query_parent_names(CommitVertex::from(*child_oid))?;
 
-            // Find immediate parent-child links.
-            match parent_vertices.as_slice() {
-                [] => {}
-                [first_parent_vertex, merge_parent_vertices @ ..] => {
-                    if dag.set_contains(&graph_vertices, first_parent_vertex.clone())? {
-                        let first_parent_oid = NonZeroOid::try_from(first_parent_vertex.clone())?;
-                        immediate_links.push((*child_oid, first_parent_oid, false));
+            // The child is rendered underneath the first of its links. Any
+            // further links are merge links.
+            let mut linked_oids: HashSet<NonZeroOid> = HashSet::new();
+            for parent_vertex in parent_vertices {
+                // Find immediate parent-child links.
+                if dag.set_contains(&graph_vertices, parent_vertex.clone())? {
+                    let parent_oid = NonZeroOid::try_from(parent_vertex)?;
+                    let is_merge_link = !linked_oids.is_empty();
+                    if linked_oids.insert(parent_oid) {
+                        immediate_links.push((*child_oid, parent_oid, is_merge_link));
                     }
-                    for merge_parent_vertex in merge_parent_vertices {
-                        if dag.set_contains(&graph_vertices, merge_parent_vertex.clone())? {
-                            let merge_parent_oid =
-                                NonZeroOid::try_from(merge_parent_vertex.clone())?;
-                            immediate_links.push((*child_oid, merge_parent_oid, true));
-                        }
-                    }
-                }
-            }
-
-            // Find non-immediate ancestor links.
-            for excluded_parent_vertex in parent_vertices {
-                if dag.set_contains(&graph_vertices, excluded_parent_vertex.clone())? {
                     continue;
                 }
 
-                // Find the nearest ancestor that is included in the graph and
-                // also on the same branch.
+                // Find non-immediate ancestor links: the nearest ancestor that
+                // is included in the graph and also on the same branch.
 
-                let parent_set = CommitSet::from(excluded_parent_vertex);
+                let parent_set = CommitSet::from(parent_vertex);
                 let merge_base = dag.query_gca_one(dag.main_branch_commit.union(&parent_set))?;
 
                 let path_to_main_branch = match merge_base {
@@ -251,9 +241,11 @@ mod graph {
                 let nearest_branch_ancestor =
                     dag.query_heads_ancestors(path_to_main_branch.intersection(&graph_vertices))?;
 
-                let ancestor_oids = dag.commit_set_to_vec(&nearest_branch_ancestor)?;
-                for ancestor_oid in ancestor_oids.iter() {
-                    non_immediate_links.push((*ancestor_oid, *child_oid, false));
+                for ancestor_oid in dag.commit_set_to_vec(&nearest_branch_ancestor)? {
+                    let is_merge_link = !linked_oids.is_empty();
+                    if linked_oids.insert(ancestor_oid) {
+                        non_immediate_links.push((ancestor_oid, *child_oid, is_merge_link));
+                    }
                 }
             }
         }
@@ -267,17 +259,19 @@ mod graph {
         }
 
         for (ancestor_oid, descendent_oid, is_merge_link) in non_immediate_links.iter() {
-            let distance = dag.set_count(
-                &dag.query_range(
-                    CommitSet::from(*ancestor_oid),
-                    CommitSet::from(*descendent_oid),
-                )?
-                .difference(&vec![*ancestor_oid, *descendent_oid].into_iter().collect()),
-            )?;
-            graph.get_mut(descendent_oid).unwrap().ancestor_info = Some(AncestorInfo {
-                oid: *ancestor_oid,
-                distance,
-            });
+            if !is_merge_link {
+                let distance = dag.set_count(
+                    &dag.query_range(
+                        CommitSet::from(*ancestor_oid),
+                        CommitSet::from(*descendent_oid),
+                    )?
+                    .difference(&vec![*ancestor_oid, *descendent_oid].into_iter().collect()),
+                )?;
+                graph.get_mut(descendent_oid).unwrap().ancestor_info = Some(AncestorInfo {
+                    oid: *ancestor_oid,
+                    distance,
+                });
+            }
             graph
                 .get_mut(ancestor_oid)
                 .unwrap()
-- 
2.43.0


From 959721cd97997724c05b13b5e6f96baabbd3aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:44 +0000
Subject: [PATCH 30/33] fix: explain hidden commits as of the requested event
 in the smartlog

With `--event-id`, whether and why a commit was hidden was described as of the
present, so that a commit could be shown as visible and at the same time as
manually hidden.
---
 git-branchless-smartlog/src/lib.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/git-branchless-smartlog/src/lib.rs b/git-branchless-smartlog/src/lib.rs
index 81e6414..ebdcb70 100644
--- a/git-branchless-smartlog/src/lib.rs
+++ b/git-branchless-smartlog/src/lib.rs
@@ -828,10 +828,7 @@ pub fn smartlog(
         &mut [
             &mut CommitOidDescriptor::new(true)?,
             &mut RelativeTimeDescriptor::new(&repo, SystemTime::now())?,
-            &mut ObsolescenceExplanationDescriptor::new(
-                &event_replayer,
-                event_replayer.make_default_cursor(),
-            )?,
+            &mut ObsolescenceExplanationDescriptor::new(&event_replayer, event_cursor)?,
             &mut BranchesDescriptor::new(
                 &repo,
                 &head_info,
-- 
2.43.0


From 063d90f7cb116aa22e311ce264483db96c412998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:16 +0000
Subject: [PATCH 31/33] fix: drop folded commits whose result is empty

When folding a commit into its parent left nothing of the parent, only the
parent was dropped. The folded commit stayed behind on top of the dropped
one, as an abandoned commit.
---
 git-branchless-lib/src/core/rewrite/execute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/git-branchless-lib/src/core/rewrite/execute.rs b/git-branchless-lib/src/core/rewrite/execute.rs
index a2ff3b6..5f55d46 100644
--- a/git-branchless-lib/src/core/rewrite/execute.rs
+++ b/git-branchless-lib/src/core/rewrite/execute.rs
@@ -718,6 +718,10 @@ mod in_memory {
                     {
                         rewritten_oids.insert(*original_commit_oid, MaybeZeroOid::Zero);
                         maybe_set_skipped_head_new_oid(*original_commit_oid, current_oid);
+                        for commit_oid in commits_to_apply_oids {
+                            rewritten_oids.insert(*commit_oid, MaybeZeroOid::Zero);
+                            maybe_set_skipped_head_new_oid(*commit_oid, current_oid);
+                        }
 
                         writeln!(
                             effects.get_output_stream(),
-- 
2.43.0


From 857f7ddde44eb6fac640f9b899c418e8715bd7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:08 +0000
Subject: [PATCH 32/33] fix: record no change when a forced update leaves a
 branch where it was

`git rebase --abort` sets the branch regardless of its value, which the
reference-transaction hook recorded as the creation of the branch (or as its
last change once more).  `git undo` then deleted the branch, or moved it back.
---
 git-branchless-hook/src/lib.rs | 38 ++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/git-branchless-hook/src/lib.rs b/git-branchless-hook/src/lib.rs
index 724dd36..fcc8083 100644
--- a/git-branchless-hook/src/lib.rs
+++ b/git-branchless-hook/src/lib.rs
@@ -195,6 +195,7 @@ mod reference_transaction {
     use lazy_static::lazy_static;
     use tracing::{instrument, warn};
 
+    use lib::core::eventlog::{Event, EventLogDb};
     use lib::git::{MaybeZeroOid, ReferenceName, Repo};
 
     /// A reference target parsed from a reference line.
@@ -496,13 +497,39 @@ mod reference_transaction {
         }
     }
 
+    /// Determine if the given value is the one which was last recorded for the
+    /// reference in the event log.
+    fn is_recorded_value(
+        event_log_db: &EventLogDb,
+        name: &ReferenceName,
+        value: MaybeZeroOid,
+    ) -> bool {
+        match event_log_db.get_events() {
+            Ok(events) => {
+                events.iter().rev().find_map(|event| match event {
+                    Event::RefUpdateEvent {
+                        ref_name, new_oid, ..
+                    } if ref_name == name => Some(*new_oid),
+                    _ => None,
+                }) == Some(value)
+            }
+            Err(err) => {
+                warn!(?err, ?name, "Could not read event log");
+                false
+            }
+        }
+    }
+
     /// Git doesn't provide the old value when updating a reference regardless
     /// of its current value (e.g. with `git branch -f`), in which case it looks
     /// like the reference was newly created. Look up the actual old value in
-    /// the reflog.
+    /// the reflog. If the reference already had the new value (e.g. with `git
+    /// rebase --abort`), then there's no reflog entry for this update, so look
+    /// at the value which was last recorded in the event log beforehand.
     #[instrument]
     pub fn fix_forced_reference_update(
         repo: &Repo,
+        event_log_db: &EventLogDb,
         parsed_line: ParsedReferenceTransactionLine,
     ) -> ParsedReferenceTransactionLine {
         let ParsedReferenceTransactionLine {
@@ -519,6 +546,13 @@ mod reference_transaction {
                     oid: new_oid @ MaybeZeroOid::NonZero(_),
                 },
             ) if ref_name.as_str().starts_with("refs/heads/") => {
+                if is_recorded_value(event_log_db, &ref_name, *new_oid) {
+                    return ParsedReferenceTransactionLine {
+                        ref_name,
+                        old_value: new_value.clone(),
+                        new_value,
+                    };
+                }
                 match repo.get_latest_reference_update(&ref_name) {
                     Ok(Some((reflog_old_oid, reflog_new_oid))) if reflog_new_oid == *new_oid => {
                         ReferenceTarget::Direct {
@@ -595,7 +629,7 @@ fn hook_reference_transaction(effects: &Effects, transaction_state: &str) -> eyr
              }| !should_ignore_ref_updates(ref_name),
         )
         .map(|parsed_line| fix_packed_reference_oid(&repo, &packed_references, parsed_line))
-        .map(|parsed_line| fix_forced_reference_update(&repo, parsed_line))
+        .map(|parsed_line| fix_forced_reference_update(&repo, &event_log_db, parsed_line))
         .collect();
     if parsed_lines.is_empty() {
         return Ok(());
-- 
2.43.0


From e3daa1aaa5ecf56308578f79b94bf6234a5a94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:23 +0000
Subject: [PATCH 33/33] fix: look at the worktree, not the main working copy,
 in git test fix --strategy worktree

Commands in a linked worktree which is not an ancestor of the current
directory were run in the current directory instead. As a result, fixes
made in the worktree were dropped, and uncommitted deletions in the main
working copy were recorded as fixes.
---
 git-branchless-lib/src/git/repo.rs | 5 +++++
 git-branchless-lib/src/git/run.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index fe5f1d7..a53bfa4 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -542,6 +542,11 @@ impl Repo {
         self.inner.path().join("rebase-merge")
     }
 
+    /// Whether this repository is a linked worktree of another repository.
+    pub(crate) fn is_worktree(&self) -> bool {
+        self.inner.is_worktree()
+    }
+
     /// Get the path to the working copy for this repository. If the repository
     /// is bare (has no working copy), returns `None`.
     pub fn get_working_copy_path(&self) -> Option<PathBuf> {
diff --git a/git-branchless-lib/src/git/run.rs b/git-branchless-lib/src/git/run.rs
index b484690..14f376e 100644
--- a/git-branchless-lib/src/git/run.rs
+++ b/git-branchless-lib/src/git/run.rs
@@ -271,9 +271,13 @@ impl GitRunInfo {
             // This workaround may result in slightly incorrect hook behavior,
             // as the current working directory may be a subdirectory of the
             // root of the working tree.
+            //
+            // The working copy of a linked worktree doesn't contain its `.git`
+            // directory, so it isn't affected, and commands may be run in it
+            // from elsewhere (such as by `git test`).
             .map(|working_copy| {
                 // Both paths are already "canonicalized".
-                if !self.working_directory.starts_with(&working_copy) {
+                if !repo.is_worktree() && !self.working_directory.starts_with(&working_copy) {
                     self.working_directory.clone()
                 } else {
                     working_copy
-- 
2.43.0


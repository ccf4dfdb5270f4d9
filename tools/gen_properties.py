#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Moving commits yields exactly the requested commit graph",
  "After a successful move of subtrees, of whole stacks or of exactly-named commits, with or without insertion before the destination's children, the visible commits form exactly the requested graph: the moved commits sit on the destination, unmoved children of exactly-named commits close up onto their nearest unmoved ancestor, and every other parent/child relation is unchanged. No visible commit is lost, duplicated or left behind in both old and new form, and commits that did not need to change keep their identity.",
  ["inputs", "histories"], "every commit graph, every choice of sources, destination and move mode",
  "The result depends on the combination of graph shape, overlap between sources and destination, hidden commits and the move mode; tests sample a few dozen hand-drawn graphs.",
  ["git-branchless-move/src/lib.rs", "git-branchless-lib/src/core/rewrite/plan.rs", "git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-lib/src/core/dag.rs"],
  [("constraint collection and plan building", "git-branchless-lib/src/core/rewrite/plan.rs RebasePlanBuilder"), ("command front end", "git-branchless-move/src/lib.rs")],
  ["commit graph of visible commits after the command (git objects, `git query`)"])
p("C02", "Squashing commits combines their changes and loses nothing",
  "After a successful move with squashing (`--fixup`), the destination's new version contains the destination's own changes plus every change (additions, edits, mode changes and deletions) of each squashed commit, the destination keeps its message and author, and the squashed commits are no longer visible. Every other visible commit survives with its own changes on the corresponding parent.",
  ["inputs", "histories"], "every commit graph, every squash source set and destination, every kind of file change in the squashed commits",
  "Squashing combines ordering constraints with content merging; deletions, mode changes and non-adjacent sources interact and are not enumerated by tests.",
  ["git-branchless-move/src/lib.rs", "git-branchless-lib/src/core/rewrite/plan.rs", "git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-lib/src/git/repo.rs"],
  [("fixup constraints", "git-branchless-lib/src/core/rewrite/plan.rs fixup handling"), ("tree squashing", "git-branchless-lib/src/git/repo.rs amend_fast")],
  ["trees, messages and parents of visible commits after the command"])
p("C03", "Rewritten commits carry over their changes and metadata exactly",
  "When a commit is rewritten onto a new parent without conflict, the new version's files equal the new parent's files with exactly the original commit's changes applied: additions, deletions, edits, mode changes, symlinks and file/directory replacements. Its message, author identity and author date are those of the original, and when both sides changed the same path incompatibly the operation reports a conflict instead of guessing.",
  ["inputs"], "every triple of trees (old parent, commit, new parent) and every commit metadata",
  "The space of tree triples (paths x kinds x which side changed) is combinatorial; tests use a handful of single-file edits.",
  ["git-branchless-lib/src/git/repo.rs", "git-branchless-lib/src/git/tree.rs", "git-branchless-lib/src/core/rewrite/execute.rs"],
  [("fast cherry-pick", "git-branchless-lib/src/git/repo.rs cherry_pick_fast"), ("tree hydration", "git-branchless-lib/src/git/tree.rs hydrate_tree"), ("commit creation", "git-branchless-lib/src/core/rewrite/execute.rs rebase_in_memory")],
  ["tree, message, author of rewritten commits"])
p("C04", "Branches and the checked-out commit follow rewritten commits",
  "When commits are rewritten, every local branch that pointed at a rewritten commit points at its new version, every branch that pointed elsewhere does not move, and no branch is created or deleted unless the commit itself disappeared. The checked-out commit becomes the new version of what was checked out, on the same branch if a branch was checked out, with a working copy that matches it; other references such as tags do not move.",
  ["inputs", "histories", "configurations"], "every commit graph, branch placement, checked-out position and rewriting command",
  "Which branch moves where depends on graph, several branches per commit, detached or attached HEAD and skipped commits; tests cover isolated combinations.",
  ["git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-lib/src/core/rewrite/rewrite_hooks.rs", "git-branchless-lib/src/core/check_out.rs"],
  [("branch moving", "git-branchless-lib/src/core/rewrite/execute.rs move_branches"), ("HEAD update", "git-branchless-lib/src/core/rewrite/execute.rs check_out_updated_head")],
  ["refs, HEAD, index, working tree after the command"])
p("C05", "A conflicting or refused rewrite leaves the repository unchanged",
  "If a rewriting command (move, restack, sync, reword, amend-restack, record-insert) meets a merge conflict without being asked to resolve it, or refuses the request, then all branches, the checked-out commit, the index, the working copy and the set of visible commits of the part that failed are exactly as before, no operation is left in progress, and the failure is reported. When one sync handles several stacks, a conflict in one does not disturb the others, and aborting a conflicting rebase that was started on request restores the earlier state.",
  ["inputs", "histories", "fault_sequences"], "every position of the conflict in every stack shape, every refusing command",
  "The conflict can occur after any number of successfully rewritten commits and in any of several stacks; tests put it in one place.",
  ["git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-move/src/lib.rs", "git-branchless/src/commands/sync.rs", "git-branchless/src/commands/restack.rs"],
  [("in-memory rebase", "git-branchless-lib/src/core/rewrite/execute.rs rebase_in_memory / execute_rebase_plan")],
  ["refs, HEAD, index, working tree, visible commits, exit code"])
p("C06", "Public commits are never rewritten unless forced",
  "Without the explicit force option, no rewriting command (move in any mode, reword, amend, test fix) ever rewrites a commit that is reachable from the main branch: the main branch and all its commits stay as they are and the command refuses. With the force option the same request is carried out.",
  ["inputs", "histories"], "every commit graph, every command and every argument that would touch a public commit directly or through descendants",
  "Public commits can be reached indirectly (through descendants, merges, default arguments); tests check one or two direct requests.",
  ["git-branchless-lib/src/core/rewrite/plan.rs", "git-branchless-move/src/lib.rs", "git-branchless-reword/src/lib.rs", "git-branchless/src/commands/amend.rs"],
  [("permission check", "git-branchless-lib/src/core/rewrite/plan.rs verify_rewrite_set")],
  ["main branch, public commits, exit code"])
p("C07", "In-memory and on-disk rebases give the same result",
  "For any conflict-free request, performing the rewrite in memory and performing it on disk produce the same commits (parents, files, messages, authors), the same branches, the same checked-out commit and the same set of visible commits.",
  ["inputs", "configurations"], "every commit graph and move request that both execution modes support",
  "The two modes share only the plan; agreement must hold for every plan, including squashes, skipped and empty commits.",
  ["git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-lib/src/core/rewrite/plan.rs", "git-branchless-lib/src/core/rewrite/rewrite_hooks.rs"],
  [("in-memory execution", "execute.rs in_memory"), ("on-disk execution", "execute.rs on_disk"), ("todo-list hooks", "rewrite_hooks.rs")],
  ["graph, trees, refs, HEAD, visible commits of both runs"])
p("C08", "Restacking leaves no visible commit on an obsolete parent",
  "After commits have been rewritten in any order and number of steps, restacking moves every visible commit whose parent was rewritten, with everything on top of it, onto the newest version of that parent, keeps its changes, and moves branches left on rewritten commits to the newest version. Commits already replaced by a newer version do not come back, and afterwards nothing further is abandoned, so that a second restack does nothing.",
  ["histories", "inputs"], "every commit graph and every sequence of amend / reword / hide / move rewrites",
  "Chains of rewrites, rewrites of already abandoned commits and deletions combine; tests use one or two fixed histories.",
  ["git-branchless/src/commands/restack.rs", "git-branchless-lib/src/core/rewrite/evolve.rs"],
  [("abandoned children", "evolve.rs find_abandoned_children"), ("rewrite target", "evolve.rs find_rewrite_target"), ("restack loop", "restack.rs")],
  ["visible commit graph, branches after restack"])
p("C09", "Commit visibility and past references are a function of the event history",
  "At every point of the recorded event history, a commit is active, hidden or unknown according to the last event that mentions it, and every reference has the value given by the last update recorded before that point; moving through the history by events or by whole transactions in either direction visits exactly the recorded states. Ignored references never influence the result.",
  ["histories"], "every event sequence and every cursor position and movement",
  "The result must hold for all interleavings of rewrites, hides, unhides, commits and reference updates, including repeated and contradictory ones.",
  ["git-branchless-lib/src/core/eventlog.rs"],
  [("event replay", "eventlog.rs EventReplayer"), ("cursors", "eventlog.rs make_cursor / advance_cursor_by_transaction")],
  ["visibility status, reference snapshot, events since cursor"])
p("C10", "The event log keeps every event, in order, under concurrent writers",
  "Events written to the log are read back completely, unaltered and in the order written; events of one transaction stay under one transaction id, and different transactions get different ids. When several processes write at the same time, under every interleaving each process's events are all present and in its own order, and none is torn.",
  ["schedules", "histories"], "every interleaving of writer processes at their file operations, every event sequence",
  "Interleavings of independent processes on the database cannot be forced by ordinary tests.",
  ["git-branchless-lib/src/core/eventlog.rs", "git-branchless-lib/src/core/repo_ext.rs"],
  [("transactional append", "eventlog.rs add_events"), ("transaction ids", "eventlog.rs make_transaction_id")],
  ["event log contents read back"])
p("C11", "Everything done with plain Git is recorded",
  "After any sequence of plain Git commands in an initialised repository (commit, amend, branch creation, deletion and forced moves, checkout, reset, merge, cherry-pick, revert, rebase; as far as Git runs hooks for them), the recorded history reproduces the current position of every branch and of HEAD, every commit created is visible unless it was rewritten, and every rewrite performed by Git is recorded as a rewrite of the old commit into the new one.",
  ["histories"], "every sequence of Git commands up to a bound from several start states",
  "Hooks receive different inputs for each Git command and combination (packed refs, renames, rebases); tests cover single commands.",
  ["git-branchless-hook/src/lib.rs", "git-branchless-lib/src/core/rewrite/rewrite_hooks.rs", "git-branchless-lib/src/core/eventlog.rs"],
  [("reference-transaction hook", "git-branchless-hook/src/lib.rs"), ("post-commit / post-rewrite hooks", "git-branchless-hook/src/lib.rs, rewrite_hooks.rs")],
  ["event log vs actual refs, visible commits"])
p("C12", "Undo returns the repository to the state before the last operation",
  "After any sequence of operations, undoing restores all branches, the checked-out commit and the set of visible commits to what they were before the last recorded operation, without losing any commit; performing undo again reverses the undo, and never moves to a state that did not exist.",
  ["histories"], "every sequence of operations (git-branchless commands, and git commands under `git branchless wrap`: commit, amend, move, hide, unhide, branch creation/update/deletion, restack, reword, checkout) up to a bound, with undo after each prefix",
  "Undo must invert every possible transaction in every context; tests undo a few selected operations.",
  ["git-branchless-undo/src/lib.rs", "git-branchless-lib/src/core/eventlog.rs"],
  [("event inversion", "git-branchless-undo/src/lib.rs undo_events"), ("cursor by transaction", "eventlog.rs advance_cursor_by_transaction")],
  ["refs, HEAD, visible commits before the operation and after undo"])
p("C13", "Garbage collection never removes a commit that is still in use",
  "After any history of operations, running the tool's garbage collection followed by Git's own pruning keeps every commit that is visible, on a branch, checked out, or an ancestor of such a commit, with all of its files; only commits that have been hidden or replaced may disappear, and the visible graph is the same before and after.",
  ["histories"], "every sequence of operations followed by collection and pruning",
  "Which commits are protected depends on the whole history of hiding, unhiding and rewriting.",
  ["git-branchless-lib/src/core/gc.rs", "git-branchless-hook/src/lib.rs"],
  [("reachability references", "gc.rs mark_commit_reachable / gc")],
  ["objects present after `git gc --prune=now`, visible commits"])
p("C14", "A working-copy snapshot restores exactly what was captured",
  "Restoring a working-copy snapshot brings back the checked-out commit and branch and, for every tracked path, the index entry (including the several stages of an unresolved conflict) and the on-disk contents, mode and kind (regular, executable, symlink, absent) captured when it was taken, whatever the state of the working copy at the time of restoring; taking a snapshot changes nothing and untracked files are left alone.",
  ["inputs", "histories"], "every combination of committed, staged, unstaged and conflicted state per path, and every state restored from",
  "The per-path state space (absent / modified / mode / symlink / staged / conflicted) multiplied over paths is never enumerated by tests.",
  ["git-branchless-lib/src/git/snapshot.rs", "git-branchless-lib/src/git/index.rs", "git-branchless-lib/src/core/check_out.rs", "git-branchless/src/commands/snapshot.rs", "git-branchless-lib/src/git/repo.rs"],
  [("snapshot creation", "snapshot.rs create"), ("snapshot restore", "check_out.rs restore_snapshot"), ("status parsing", "git-branchless-lib/src/git/status.rs")],
  ["index, working tree, HEAD after restore"])
p("C15", "Amend records exactly the intended changes and disturbs nothing else",
  "Amending makes the current commit's files equal to its old files with exactly the staged changes applied, or, if nothing is staged, exactly all tracked working-copy changes: edits, additions, deletions, renames, mode changes and symlinks. The message and author are kept, the working copy's contents on disk do not change, untracked files and unselected changes remain as they were, and descendants are rebased onto the amended commit (or keep their own contents when reparenting is requested).",
  ["inputs"], "every combination of per-path committed / staged / working-copy states and every descendant shape",
  "Path-state combinations are combinatorial; tests cover single modified files.",
  ["git-branchless/src/commands/amend.rs", "git-branchless-lib/src/git/repo.rs", "git-branchless-lib/src/git/status.rs", "git-branchless-lib/src/git/tree.rs"],
  [("fast amend", "repo.rs amend_fast"), ("amend command", "commands/amend.rs")],
  ["tree of the amended commit, index, working tree, descendants"])
p("C16", "Hiding and unhiding affect exactly the named commits",
  "Hiding makes exactly the named commits (and with the recursive option their visible descendants) not visible, except where they remain needed as ancestors of other visible commits, branches or HEAD, deletes only branches on hidden commits, and never changes commits or the working copy. Unhiding the same commits makes exactly those visible again.",
  ["inputs", "histories"], "every commit graph, branch placement, selection and option, from every prior hidden set",
  "Selection, branches, ancestors and previous hiding interact.",
  ["git-branchless/src/commands/hide.rs", "git-branchless-lib/src/core/dag.rs"],
  [("hide / unhide", "commands/hide.rs"), ("visibility", "dag.rs query_visible_heads")],
  ["visible commits, branches, HEAD"])
p("C17", "Revset expressions denote the documented commit sets",
  "Every revset expression evaluates to the set its operators and functions are documented to denote over the visible commit graph (union, intersection, difference, ranges, ancestors, descendants, parents, children, siblings, roots, heads, nth parent and ancestor, draft, public, main, stack, branches, merges, message, path and author patterns, aliases), with the documented precedence and string quoting. Results are the same however the expression is spelled equivalently and printed in topological order.",
  ["inputs", "programs"], "every expression up to a size bound over every small commit graph and visibility assignment",
  "Operators compose and interact with hidden commits and merges; tests evaluate a few expressions on a few graphs.",
  ["git-branchless-revset/src/builtins.rs", "git-branchless-revset/src/eval.rs", "git-branchless-revset/src/grammar.lalrpop", "git-branchless-revset/src/pattern.rs", "git-branchless-lib/src/core/dag.rs", "git-branchless-query/src/lib.rs"],
  [("evaluation", "eval.rs, builtins.rs"), ("parsing", "grammar.lalrpop"), ("graph queries", "dag.rs")],
  ["output of `git query`"])
p("C18", "The smartlog shows exactly the commits and relations that exist",
  "The smartlog lists each requested visible commit exactly once, plus HEAD, the main branch and the needed branching points, draws a commit below another as its child only if it is its descendant, marks main, hidden and current commits as such, states the true number of omitted commits, and lists the right branches at each commit; showing it changes neither references nor visibility.",
  ["inputs", "histories"], "every small commit graph, visibility assignment, HEAD position and selection",
  "Graph layout is tested with snapshots of particular repositories only.",
  ["git-branchless-smartlog/src/lib.rs", "git-branchless-lib/src/core/node_descriptors.rs"],
  [("graph construction", "git-branchless-smartlog/src/lib.rs build_graph"), ("rendering", "git-branchless-smartlog/src/lib.rs render")],
  ["smartlog output"])
p("C19", "Searching for the first bad commit always finds the true boundary",
  "For every commit graph and every consistent assignment of good/bad/unknown results, each search strategy terminates, tests each commit at most once, never asks about a commit whose result is already implied, and ends with bounds that separate exactly the known-good ancestors from the known-bad descendants with no untested candidate between them. Contradictory results are reported as errors and leave the earlier results intact.",
  ["inputs", "schedules"], "every small graph, result assignment, strategy and order in which results arrive",
  "Results may arrive in any order from parallel workers; property tests sample orders and graphs.",
  ["scm-bisect/src/search.rs", "scm-bisect/src/basic.rs"],
  [("search", "search.rs Search::search / notify"), ("strategies", "basic.rs BasicStrategy")],
  ["bounds and next-to-search of the search"])
p("C20", "Parallel test workers run every job exactly once and always finish",
  "With any number of workers and any timing of job submission, resubmission, completion, failure and shutdown, every submitted job is run exactly once, jobs withdrawn before being started are not run, every result is delivered, and all workers exit after shutdown: no deadlock, no lost job, no duplicate run.",
  ["schedules"], "all interleavings of workers and the submitting thread",
  "Interleavings at lock granularity cannot be forced by unit tests.",
  ["git-branchless-test/src/worker.rs"],
  [("work queue", "worker.rs WorkQueue"), ("worker loop", "worker.rs worker")],
  ["jobs executed, results delivered, termination"])
p("C21", "Running tests on commits reports true results and restores everything",
  "`git test` runs the command once on the exact contents of each selected commit and reports pass, fail, skip or abort according to that commit's own exit code, for both execution strategies, any number of jobs and any search mode. A cached result is reused only for the same contents and command and never for an incomplete run; afterwards the checked-out commit, branches, working copy and visible commits are as before, and applying fixes changes only the fixed contents and keeps all other commits.",
  ["inputs", "histories", "configurations"], "every assignment of outcomes to commits, strategy, job count, search mode and cache state",
  "Outcome assignments and cached/partial states multiply; tests use fixed scripts.",
  ["git-branchless-test/src/lib.rs", "git-branchless-test/src/worker.rs", "git-branchless-lib/src/git/test.rs"],
  [("test runner", "git-branchless-test/src/lib.rs run_tests / event_loop"), ("result cache", "git-branchless-test/src/lib.rs make_test_files")],
  ["reported results, exit code, repository state"])
p("C22", "Navigation goes exactly to the requested commit",
  "`git next` and `git prev` with a number, all-the-way, by-branch or oldest/newest choice move to exactly the commit that many steps along visible children or parents, stop where no further step exists, refuse without moving when the choice is ambiguous or no step is possible, and otherwise change nothing but the checked-out commit. `git switch` moves to the commit its argument denotes.",
  ["inputs", "histories"], "every small commit graph, start position, visibility assignment and option combination",
  "Ambiguity, hidden commits, merges and branches interact per step.",
  ["git-branchless-navigation/src/lib.rs", "git-branchless-lib/src/core/check_out.rs"],
  [("advance", "git-branchless-navigation/src/lib.rs advance"), ("switch", "git-branchless-navigation/src/lib.rs switch")],
  ["HEAD, refs, exit code"])
p("C23", "Sync puts every stack on the up-to-date main branch",
  "After a sync, the local main branch is fast-forwarded to its upstream when it has no local commits, and each selected local stack is rebased as a whole onto the main branch, dropping only commits already applied there; stacks that conflict stay exactly where they were, and nothing else moves.",
  ["inputs", "histories"], "every arrangement of stacks, upstream progress, already-applied commits and conflicts",
  "Several stacks, upstream states and conflict positions combine.",
  ["git-branchless/src/commands/sync.rs", "git-branchless-lib/src/core/rewrite/plan.rs"],
  [("sync", "commands/sync.rs"), ("duplicate detection", "plan.rs patch ids")],
  ["refs, visible commit graph, trees"])
p("C24", "Submit pushes exactly the selected branches and never clobbers others' work",
  "Submitting updates exactly those remote branches that belong to the selected commits and already exist remotely (and with the create option also those that do not), to exactly the local branch's commit; branches already up to date, unselected branches and the main branch are not touched, a dry run changes nothing, and a remote branch that someone else has updated in the meantime is only overwritten when its current value was fetched first.",
  ["inputs", "histories"], "every combination of local / remote / tracking states per branch, selection and option",
  "Per-branch state combinations and races with other pushers are not enumerated by tests.",
  ["git-branchless-submit/src/lib.rs", "git-branchless-submit/src/branch_forge.rs"],
  [("classification", "git-branchless-submit/src/lib.rs submit"), ("branch forge", "git-branchless-submit/src/branch_forge.rs")],
  ["refs of the remote, reported names, exit code"])
p("C25", "Recording a commit captures the right changes in the right place",
  "`git record` commits exactly the staged changes, or all tracked changes if nothing is staged, on top of the current commit; with the create, detach, stash and insert options the named branch, the previous branch, the checked-out commit and the former children end up exactly where documented, and no other branch, commit or file changes.",
  ["inputs", "histories"], "every combination of staged / unstaged state, HEAD attachment, children and options",
  "Option and state combinations interact.",
  ["git-branchless-record/src/lib.rs"],
  [("record", "git-branchless-record/src/lib.rs record / insert_before_siblings")],
  ["refs, HEAD, graph, trees, working copy"])
p("C26", "Reword changes only commit messages",
  "Rewording gives each named commit exactly the supplied message (as Git would clean it up) and leaves its files, author and position, the order and content of all descendants, branches and the checked-out commit otherwise unchanged; aborted, empty, incomplete or mismatched edits change nothing at all.",
  ["inputs"], "every commit graph, selection of commits and edited message text",
  "Message parsing for several commits at once and selections inside a graph combine.",
  ["git-branchless-reword/src/lib.rs"],
  [("message parsing", "git-branchless-reword/src/lib.rs parse_bulk_edit_message"), ("plan", "git-branchless-reword/src/lib.rs reword")],
  ["messages, trees, graph, refs"])
p("C27", "A crash at any moment loses no work and can be recovered from",
  "If the process is killed at any point of any operation, every commit that was visible or on a branch before remains intact in the repository, branches point at either their old or their new commit, the event log stays readable, and subsequent commands (smartlog, query, undo, retrying the operation) work.",
  ["crash_points"], "every file-system modification of the operation as a crash point",
  "Unit tests never stop the process between two writes.",
  ["git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-lib/src/core/eventlog.rs", "git-branchless-lib/src/core/gc.rs", "git-branchless-undo/src/lib.rs", "git-branchless/src/commands/amend.rs"],
  [("ordering of effects", "execute.rs post_rebase_in_memory"), ("log transactions", "eventlog.rs add_events")],
  ["objects, refs, readability of the log, result of retry"])
p("C28", "Initialisation preserves the user's hooks and is idempotent",
  "Initialising keeps every line of the user's existing hooks outside its own marked section in place and executable, installs exactly one working section per hook however often it is run, and uninstalling removes exactly that section's effect, leaving the user's hooks, branches, commits, settings and aliases otherwise as they were.",
  ["inputs", "histories"], "every arrangement of existing hook contents and every sequence of init / uninstall",
  "Hook contents and repeated runs combine.",
  ["git-branchless-init/src/lib.rs"],
  [("hook editing", "git-branchless-init/src/lib.rs update_between_lines"), ("config include", "git-branchless-init/src/lib.rs create_isolated_config")],
  ["hook files, config, behaviour of hooks"])
p("C29", "Tree construction applies exactly the requested path changes",
  "Building a tree from a base tree and a set of path changes yields exactly the base with those paths added, replaced or removed, at any depth and including file/directory replacement and emptied directories; restricting a tree to a set of paths keeps exactly those paths, and the reported set of changed paths between two trees is exactly the set of paths whose contents or modes differ.",
  ["inputs"], "every pair of small trees and every set of path changes",
  "Nesting, removal and replacement combine exponentially.",
  ["git-branchless-lib/src/git/tree.rs"],
  [("hydrate", "tree.rs hydrate_tree"), ("dehydrate", "tree.rs dehydrate_tree"), ("changed paths", "tree.rs get_changed_paths_between_trees")],
  ["resulting tree objects"])
p("C30", "Uncommitted changes are never lost",
  "Whatever command is run with uncommitted changes present (move, restack, sync, amend, reword, hide, next, prev, switch, undo, test, record), afterwards every staged or unstaged change and every untracked file is still present in the working copy or index, or was committed as requested, or the command refused before touching anything; undo, which puts back the working copy of the earlier state, brings the changes back when it is itself undone; discarding happens only when explicitly forced.",
  ["inputs", "histories"], "every kind of uncommitted state (staged, unstaged, both, deleted, mode, untracked, overlapping or not with the target) times every command",
  "The product of dirty states and commands is not covered by tests.",
  ["git-branchless-lib/src/core/check_out.rs", "git-branchless-lib/src/core/rewrite/execute.rs", "git-branchless-test/src/lib.rs", "git-branchless-navigation/src/lib.rs"],
  [("checkout", "check_out.rs check_out_commit"), ("on-disk refusal", "execute.rs on_disk")],
  ["index, working tree before and after"])
p("C31", "Repairing forgets exactly what no longer exists",
  "When commits or branches known to the recorded history have vanished from the repository behind the tool's back, `git branchless repair` reports exactly those; by default it changes nothing, and with `--no-dry-run` it records exactly those commits as hidden and exactly those branches as deleted. Everything that still exists stays visible or hidden as it was, branches, the checked-out commit and files are not touched, earlier events are kept, and afterwards the recorded branches and the visible commits agree with the repository.",
  ["histories", "inputs"], "every set of vanished commits and branches, every hidden or rewritten set and every checked-out position",
  "Whether something is forgotten wrongly depends on the combination of what vanished, what is hidden or rewritten and where branches are; the tests remove one commit and one branch.",
  ["git-branchless/src/commands/repair.rs", "git-branchless-lib/src/core/eventlog.rs"],
  [("detection and repair", "git-branchless/src/commands/repair.rs repair"), ("recorded references", "git-branchless-lib/src/core/eventlog.rs get_references_snapshot")],
  ["output, event log, references, visible commits, recorded branches in the smartlog"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements can be diffed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "The published RRDP view is consistent at every instant",
  "At every instant (during a sync, during the notification delay, and after a run that was killed or failed at any point) the notification file in the RRDP directory, once one exists, is a complete well-formed RFC 8182 notification, and every snapshot and delta it lists exists under the RRDP directory at the path given by its URI with exactly the listed SHA-256. This assumes a source that never re-uses a file URI for different content, but does hold when a source goes back to an earlier session, whatever the cleanup, delta-limit and delay settings are, and when the staging and RRDP directories are on different file systems.",
  ["crash_points", "histories", "fault_sequences", "configurations"],
  "every point between two file system operations of every run, over every history of source updates, session changes, failures, kills and configuration values",
  "The tests look at a few paths after complete runs of one fixed four-step history; no test looks at the directory while a run is in progress, after a kill or an I/O error, or after a session comes back, and none checks hashes.",
  ["src/process.rs", "src/rrdp.rs", "src/file_ops.rs"],
  [("new files first, notification last", "src/process.rs process()"), ("temporary file and rename", "src/rrdp.rs write_notification"), ("deprecate, clean", "src/rrdp.rs clean / deltas_deprecate_before"), ("move with copy fallback", "src/file_ops.rs move_file")],
  ["files under --rrdp-dir, read between any two file system calls of the process"],
  [("snapshot, deltas, deprecated_files", "what is published and what awaits removal", "src/rrdp.rs RrdpState")])

p("C02", "A successful sync publishes exactly the source's content",
  "After a run that exits successfully, the published notification has the source's session and serial, lists the source's snapshot and a gap-free run of the source's deltas ending at that serial, all byte-identical to the source's files and named by URIs under the public notification URI's base. Within the configured limit the listed deltas include all that the source lists and that were already published or are newer than what was published before (after a first sync or a session change: all the source lists), and none that the source does not list.",
  ["inputs", "histories", "configurations"],
  "every valid source content and URI layout, and every history of updates, trims, session changes and syncs that skip serials",
  "The tests check the existence of a handful of file names for four fixed repositories; they never compare bytes, hashes, session, serial or the delta list.",
  ["src/rrdp.rs", "src/fetch.rs", "src/process.rs"],
  [("staging", "src/rrdp.rs update_staged, snapshot_stage, deltas_stage"), ("notification assembly", "src/rrdp.rs make_notification_file"), ("URI mapping", "src/rrdp.rs SourceMappings")],
  ["notification and files under --rrdp-dir after exit 0, against the source"])

p("C03", "Corrupt, missing or unparsable source files are never published",
  "If any snapshot or delta that a run has to fetch is missing, is answered with an error, has another SHA-256 than the notification says, is not parsable as RFC 8182 XML, or carries another session or serial than announced, the run exits with an error and the published notification, the files it lists and the current rsync tree stay exactly as they were. Once the source serves correct files again, the next run succeeds and publishes them, whatever the failed runs left in the staging area.",
  ["inputs", "fault_sequences", "histories"],
  "every corruption (truncation, bit flip, swap, removal, HTTP error, short body, 304, ...) of any subset of files, in any order over successive runs",
  "No test has a corrupt, missing or malformed file; all sources in test-resources are good.",
  ["src/fetch.rs", "src/rrdp.rs", "src/rsync.rs"],
  [("hash check on fetch", "src/fetch.rs FetchSource::fetch"), ("re-use of staged files", "src/fetch.rs Fetcher::retrieve_file"), ("parse check", "src/rrdp.rs staging")],
  ["exit status; --rrdp-dir and --rsync-dir before and after"])

p("C04", "Unacceptable notifications are refused without effect",
  "A source notification that is not complete well-formed RFC 8182 XML (only a missing version attribute is tolerated), that has (within the configured delta limit) gaps or duplicates in its deltas, whose serial is lower than the published one in the same session, or that lists a file outside the base of the notification URI is refused: the run exits with an error, and the published RRDP and rsync content and the recorded state stay as they were. A later valid notification is then accepted as if the refused one had never been seen.",
  ["inputs", "histories"],
  "every malformed or non-conforming notification at any point of any history of syncs",
  "No test feeds a malformed, gapped, regressing or foreign notification.",
  ["src/rrdp.rs", "src/fetch.rs"],
  [("gap check and serial comparison", "src/rrdp.rs update_staged"), ("base URI check", "src/rrdp.rs SourceMappings::relative, src/fetch.rs FetchMap::source")],
  ["exit status; --rrdp-dir, --rsync-dir and state files before and after"])

p("C05", "The current rsync tree is exactly the published snapshot",
  "After a successful sync with rsync enabled, the tree at 'current' holds exactly one file per object of the published snapshot, with exactly that object's bytes, at the path of its rsync URI below the module (or at host/module/path when hosts are to be included), and nothing else; an empty snapshot gives an empty directory. This holds after any history of earlier syncs, failed or killed runs, and changes of options between runs that bring new content.",
  ["inputs", "histories", "configurations", "crash_points"],
  "every snapshot content and every history of syncs, including interrupted ones",
  "The tests check that a few directories exist and the mtime of four files; they never compare the tree to the snapshot and never after an interrupted run.",
  ["src/rsync.rs", "src/process.rs"],
  [("snapshot to files", "src/rsync.rs RsyncFromSnapshotWriter"), ("revision directories", "src/rsync.rs update_from_rrdp_state")],
  ["--rsync-dir/current/ after exit 0, against the source's object set"])

p("C06", "rsync clients always see one complete, unchanging revision",
  "Once 'current' exists in the rsync directory, at every instant (also during a run, and after a run that was killed or failed at any point) it resolves to a directory that holds exactly the complete object set of one single source snapshot. The content of a directory that 'current' has pointed to is never altered afterwards; it is only removed as a whole when its retention time is over.",
  ["crash_points", "histories", "fault_sequences"],
  "every point between two file system operations, over every history of updates, session changes and returns, kills, failures and reruns",
  "The tests inspect the rsync directory only after complete runs, never during one or after an interrupted one.",
  ["src/rsync.rs"],
  [("symlink replaced by rename", "src/rsync.rs symlink_current_to_new_revision_dir"), ("revision state", "src/rsync.rs RsyncDirState")],
  ["--rsync-dir/current, read between any two file system calls of the process"])

p("C07", "rsync modification times depend only on the object content",
  "For every object in the current rsync tree that decodes as what its extension says, the modification time is the certificate's notBefore for .cer, the thisUpdate for .crl, and the signing time (or else the embedded certificate's notBefore) for any other, signed, object. It does not depend on when, where or in how many runs the object was synchronised.",
  ["inputs", "histories"],
  "every RPKI object of every type and date, synchronised at any time, any number of times, by any number of servers",
  "One test checks four files of one snapshot through an internal writer; no test compares two runs or servers or covers other types.",
  ["src/rsync.rs"],
  [("mtime from content", "src/rsync.rs fix_since")],
  ["mtime of files under --rsync-dir/current after exit 0, against an independent DER reader"])

p("C08", "Superseded content stays available for the cleanup-after time",
  "A snapshot or delta that was listed by the published notification, and a directory that was the current rsync tree, stay in place and unchanged until at least the configured cleanup-after seconds after the moment they stopped being published. This holds over every history of syncs, including session changes, returns to an earlier session, a notification delay, and reruns after a failed or killed run.",
  ["histories", "configurations", "fault_sequences"],
  "every history of syncs at arbitrary times with any cleanup-after and delay values",
  "One fixed history with one sleep and one cleanup-after value; no session return, rerun, delay, or other setting.",
  ["src/rrdp.rs", "src/rsync.rs"],
  [("deprecation times", "src/rrdp.rs DeprecatedFile, src/rsync.rs DeprecatedRsyncRevision"), ("clean", "src/rrdp.rs clean, src/rsync.rs clean_old")],
  ["--rrdp-dir and --rsync-dir over histories in virtual time"])

p("C09", "Expired content is removed, and nothing else ever is",
  "Every successful sync that brings new content leaves no snapshot or delta file, no directory emptied by their removal, and no rsync revision directory that has been unpublished for more than cleanup-after seconds (after an interrupted run the time may count from the next complete one, and directories that are already empty may stay). No run ever removes or alters a file or directory in the RRDP or rsync directory that krill-sync did not put there (other than what someone else puts into one of its own revision directories), nor any that is currently published.",
  ["histories", "configurations", "inputs"],
  "every history of syncs at arbitrary times, cleanup-after values and directory contents",
  "One fixed history checks three removed paths; no foreign files, no returning sessions, no other layouts.",
  ["src/rrdp.rs", "src/rsync.rs", "src/file_ops.rs"],
  [("clean", "src/rrdp.rs clean, src/rsync.rs clean_old"), ("removal of empty parents", "src/file_ops.rs remove_file_and_empty_parent_dirs")],
  ["--rrdp-dir and --rsync-dir over histories in virtual time"])

p("C10", "Every interrupted run is recovered by the next run",
  "After a run that was killed between any two of its operations, or whose operations failed (no space, I/O error, permission, short write) at any point, the next undisturbed run with the source available succeeds without manual intervention. It then leaves the same published RRDP and rsync content as if the interruption had not happened (possibly listing more of the deltas that the source lists).",
  ["crash_points", "fault_sequences", "histories"],
  "every operation of a run as kill or failure point, also repeatedly, and with the source moving on in between",
  "No test interrupts a run or injects a failure.",
  ["src/rrdp.rs", "src/rsync.rs", "src/file_ops.rs", "src/fetch.rs"],
  [("state written by temporary file and rename", "src/file_ops.rs, RrdpState::persist, RsyncDirState::persist"), ("left-over temporary names", "src/rsync.rs symlink_current_to_new_revision_dir"), ("staged files checked again", "src/fetch.rs retrieve_file")],
  ["exit status and content of --rrdp-dir/--rsync-dir after the recovering run"])

p("C11", "Without a change at the source a run changes nothing",
  "If, after a successful run, the session and serial of the source notification are those already published, another run exits successfully, fetches nothing but the notification, and leaves every file and link in the RRDP and rsync directories as they were, and the recorded state with the same content, including the files' modification times. This holds however often it is repeated, whatever time has passed, and whatever else in the notification file's formatting or listed deltas changed.",
  ["histories", "inputs"],
  "every reachable state followed by any number of runs with an unchanged session and serial",
  "No test runs twice against the same serial.",
  ["src/rrdp.rs", "src/process.rs"],
  [("serial comparison", "src/rrdp.rs update_staged"), ("early return", "src/process.rs process")],
  ["file system calls of the run; --rrdp-dir, --rsync-dir and state before and after; requests seen by the source server"])

p("C12", "At most one run is active per state directory",
  "Of any number of runs started on the same state directory, at most one at any time gets past start-up; every other exits with an error that says another process holds the lock, and changes and fetches nothing. The lock is held until the very end of the run and freed when the holder ends in whatever way, kill and failure included, so that a later run is never blocked by a finished one or by anything it started.",
  ["schedules", "crash_points"],
  "every overlap of any number of processes, at every point of the active one, and every way for it to end",
  "No test starts the program at all: the tests call the library function, which takes no lock.",
  ["src/main.rs", "src/config.rs"],
  [("lock file held for the whole of main", "src/main.rs try_main, lock")],
  ["exit status, stderr and file system calls of competing processes while one is stopped at each of its operations"])

p("C13", "All effects stay inside the configured directories",
  "Whatever URIs and content the source delivers, every file or directory a run creates, changes, renames or removes lies inside the configured state, RRDP and rsync directories (by default the latter two lie in the state directory; the RRDP files and rsync tree of the source only under their respective directories), and none at all in the rsync directory when rsync is disabled. A snapshot, delta or object URI whose path would lead elsewhere (dot segments, empty segments, absolute paths, in any URI component) makes the run fail without anything being published.",
  ["inputs", "configurations"],
  "every snapshot, delta and object URI a source can deliver, and every combination of directory options",
  "All URIs in the tests are plain; effects outside the directories are never looked for.",
  ["src/rrdp.rs", "src/rsync.rs", "src/config.rs", "src/file_ops.rs"],
  [("relative path of a URI", "src/rrdp.rs SourceMappings::relative"), ("object path", "src/rsync.rs RsyncFromSnapshotWriter::publish"), ("directory defaults", "src/config.rs post_configure")],
  ["every mutating file system call of the process (recorded and refused when outside)"])

p("C14", "Rejecting validation gates every publication",
  "With TALs configured and invalid content to be rejected, no run ever publishes source content for which the validation of exactly that content under the TALs reports an issue or does not reach the source repository, however recently or with whatever outcome earlier content was validated; such a run exits with an error and leaves RRDP, rsync and recorded state as they were. Content without issues is published; without rejection, issues in the content never prevent publication.",
  ["histories", "inputs", "configurations"],
  "every sequence of valid and invalid source contents at arbitrary times, through deltas and through snapshots, with and without cached validation data",
  "One test validates one fixed good repository once through the library; the gate is never exercised.",
  ["src/rrdp.rs", "src/validation/validator.rs", "src/process.rs"],
  [("pre_validate before apply", "src/rrdp.rs pre_validate, src/process.rs"), ("refresh of staged data", "src/validation/validator.rs initialise_staging_data, get_latest")],
  ["exit status; --rrdp-dir and --rsync-dir before and after"],
  [("validator", "cached repository data kept in the state", "src/rrdp.rs RrdpState")])

p("C15", "Validation flags every invalid object and no valid one",
  "For a repository published under a TAL, validation reports an issue if a manifest or CRL of any valid CA in it is missing, undecodable, not validly signed, expired, stale or revoked, or a listed object is missing or differs from its manifest hash, or if a listed certificate, router certificate, ROA or ASPA is undecodable, wrongly signed, expired, revoked or claims resources its issuer does not have. It reports none for a repository in which all of these are in order, at any depth of the CA hierarchy.",
  ["inputs"],
  "every CA tree and every single defect in any object of any type in it",
  "One fixed good repository is validated, and not even its report is looked at.",
  ["src/validation/validator.rs", "src/validation/tal.rs", "src/validation/report.rs"],
  [("top down validation", "src/validation/validator.rs validate_tree_at"), ("TA check", "src/validation/tal.rs validate_at")],
  ["accept or reject verdict (exit status) for generated RPKI trees with one known defect"])

p("C16", "Pre-validation scripts see the staged content before anyone else",
  "On a run with new content every configured script is run exactly once, in the configured order and also after another one failed, at a time when the complete new notification, snapshot and new deltas are staged and nothing published has changed yet. If any script fails and invalid content is to be rejected, the run exits with an error with nothing published changed; if it is not, or all succeed, the content is published.",
  ["configurations", "inputs", "histories"],
  "any number of scripts with any exit status, output or signal, in any history",
  "No test configures a script.",
  ["src/process.rs"],
  [("script loop", "src/process.rs process")],
  ["records written by the scripts themselves; exit status; published directories"])

p("C17", "Data comes only from the mapped source over verified TLS",
  "Every notification, snapshot and delta is requested only from the location its public URI maps to (the source base when one is given, the public URI otherwise), with the path below the base unchanged. Without --insecure, data from a server whose certificate does not verify for its name is never accepted: the run fails with nothing published changed; with --insecure it is accepted.",
  ["configurations", "inputs", "fault_sequences"],
  "every combination of mapping, URI, certificate (valid, self-signed, wrong name, expired) and mode",
  "Two tests map one path; no test makes any TLS connection.",
  ["src/fetch.rs", "src/config.rs"],
  [("TLS mode", "src/fetch.rs FetchSource::fetch, src/config.rs post_configure"), ("URI mapping", "src/fetch.rs FetchMap::source, resolve_source")],
  ["requests received by local TLS servers; exit status; published directories"])

p("C18", "The configured delta limit is honoured",
  "With a limit of N, any N from 0 up, the notification written by a run lists at most N deltas, namely the newest; the limit never makes a run fail nor hides the snapshot, and it may be changed, added or removed between runs. Deltas beyond the limit are not fetched.",
  ["configurations", "histories", "inputs"],
  "every limit, changed arbitrarily between runs, over every length and history of delta lists",
  "The tests always use the limit 3 and only see that some files exist.",
  ["src/rrdp.rs", "src/config.rs"],
  [("limit before staging", "src/rrdp.rs update_staged")],
  ["published notification after each run; requests to the source"])

p("C19", "The notification delay separates new files from notification",
  "With a notification delay of D seconds, on every run with new content all new snapshot and delta files are in place in the RRDP directory, complete, at least D seconds before the notification file changes, and during that time the old notification and every file it lists stay available. Without a delay there is no waiting.",
  ["configurations", "schedules", "histories"],
  "every delay, together with every cleanup-after value and history",
  "The tests use a delay of 0 and look only after the run.",
  ["src/rrdp.rs", "src/process.rs"],
  [("delay before writing", "src/rrdp.rs write_notification")],
  ["--rrdp-dir over the virtual time of a run"])

p("C20", "Relying parties stay in sync through the published deltas",
  "For a source whose deltas and snapshots agree, a relying party that holds the content of any earlier published serial of the session and finds a delta path in the published notification ends up, by applying exactly these deltas, with exactly the objects of the published snapshot. As long as the source lists the needed deltas (and the limit allows), the published notification offers such a path from the previously published serial.",
  ["histories", "inputs"],
  "every history of publications, updates and withdrawals with syncs at arbitrary serials and relying parties at arbitrary earlier states",
  "No test applies a published delta.",
  ["src/rrdp.rs"],
  [("delta selection and cutoff", "src/rrdp.rs deltas_stage, deltas_deprecate_before")],
  ["published notification, snapshot and deltas, applied by an independent relying party model"])

p("C21", "The exit status and messages tell the truth",
  "A run exits with status 0 only if the published RRDP and rsync content is then that of the source's current notification; whenever an operation needed for that failed (any file system operation that fails for lack of space, permission or I/O, any failed fetch), it exits with a nonzero status and a message on standard error. A failed clean-up of old content or of a time stamp may be reported without counting as failure.",
  ["fault_sequences", "inputs"],
  "every operation of a run as the failing one, with every error",
  "No test lets anything fail; main is never run.",
  ["src/main.rs", "src/process.rs", "src/file_ops.rs"],
  [("error propagation", "src/process.rs, src/main.rs main")],
  ["exit status, stderr and published content after each injected failure"])

p("C22", "No input makes a run crash or hang",
  "Whatever the source, the configured TALs' repositories, the state on disk and the command line arguments contain (malformed, hostile, huge nesting, looping certificate chains), a run ends by itself with status 0 or 1: it never panics, is never ended by a signal, and never exhausts its stack or loops for ever.",
  ["inputs", "configurations"],
  "every byte content of notification, snapshot, delta, TAL, certificate and repository objects and state files, and every option value",
  "The tests use only well-formed input.",
  ["src/validation/validator.rs", "src/rrdp.rs", "src/rsync.rs", "src/util.rs"],
  [("errors as results", "all"), ("loop detection", "src/validation/validator.rs validate_tree_at")],
  ["exit status and stderr of the process"])

p("C23", "Offline validation contacts no third party repository",
  "With offline validation no request is made for repository data of any repository but the source repository (which is read from the staged files); what was cached of others in an earlier run is used instead. Without it, data of another repository in the tree is fetched when missing and is fetched at most once per run.",
  ["configurations", "histories", "inputs"],
  "every CA tree over several repositories, with any cached data",
  "One test runs an offline validation where there is no other repository.",
  ["src/validation/validator.rs"],
  [("offline switch", "src/validation/validator.rs get_latest")],
  ["requests received by local TLS servers"])
p("C24", "What is published can be read by the servers that serve it",
  "Every published file has at least the read permissions that the umask of the process leaves, and every directory of it (from the RRDP or rsync directory on, where krill-sync made them) at least the read and search permissions; none has a write permission which the umask excludes. This does not depend on the permissions of the source's own files, on whether staging is on another file system, on earlier runs or on failures.",
  ["configurations", "histories", "faults"],
  "every umask, permissions of source files, location of staging, history of runs, failing system calls",
  "The tests never look at permissions; they run under one umask and as the user who reads.",
  ["src/file_ops.rs", "src/rrdp.rs", "src/rsync.rs"],
  [("files written", "src/file_ops.rs write_buf"), ("files moved between file systems", "src/file_ops.rs"), ("revision directories", "src/rsync.rs")],
  ["mode of every published file and directory between operations and after runs"])
p("C25", "What version 0.3.1 left on disk is taken up after an upgrade",
  "With a state directory, RRDP directory and rsync directory as the released version 0.3.1 leaves them: while the source has nothing new, a run fetches only the notification and touches nothing that is published; when it has, it is published as always; the files and rsync directories that 0.3.1 has on record as unused, and those that were in use until now, stay for the cleanup-after time and are removed by the first run with new content after it; and what 0.3.1 cached for validation is used by offline validation.",
  ["histories", "configurations"],
  "every history of version 0.3.1 and of the source before and after the upgrade, layouts and options",
  "The one test that reads a recorded state file fails already (it is of a still older version), and no test continues from one.",
  ["src/rrdp.rs", "src/rsync.rs", "src/validation/validator.rs"],
  [("RRDP state", "src/rrdp.rs RrdpState::recover"), ("rsync state", "src/rsync.rs RsyncDirState::recover"), ("cached validation data", "src/validation/validator.rs VisitedRepositories")],
  ["opens and requests, fingerprints of all published and superseded items before and after each run"])
p("C26", "What goes wrong is reported by name, and what is in order is not",
  "Every invalid object of the source repository that validation comes to is named by its URI in what a run prints (problems of a manifest or CRL by the URI of either): as warning when the content is published all the same, as error when it is rejected; no valid object is. When validation does not come to the source repository at all, that is said. A failed pre-validation script is named as an error, with what it wrote to its standard error; one that ended well is not. A run that refuses a source file names it. A run with nothing to complain about prints nothing by default, and with --quiet a run that publishes prints no warnings.",
  ["inputs", "configurations"],
  "every CA tree with any combination of defects, scripts with any endings, corrupt source files, verbosity",
  "The tests never look at what is printed; one looks at a report of one real repository.",
  ["src/rrdp.rs", "src/process.rs", "src/config.rs", "src/validation/validator.rs", "src/validation/report.rs"],
  [("report of issues", "src/rrdp.rs pre_validate"), ("scripts", "src/process.rs process"), ("levels", "src/config.rs initialize_logging"), ("issues", "src/validation/validator.rs")],
  ["levels and names in the output of every run"])
p("C27", "Disk use stays bounded: nothing accumulates over any number of syncs",
  "After every run that succeeds with new content, none of the snapshots and deltas that were staged for it or for earlier runs that failed, were rejected or were killed, and none of the directories made for them, is left in the state directory outside the RRDP and rsync directories. Over any number of successful syncs of content of the same size, with the clean-up time passing, the number and size of the files and directories in the state, RRDP and rsync directories (the recorded state included) do not grow. (What a killed run had already moved to the RRDP or rsync directory is not covered.)",
  ["histories", "faults", "crash points"],
  "every history of syncs, failures, rejections and interruptions; cycles of syncs of constant size",
  "The tests run two or three syncs and look at the published directories only.",
  ["src/process.rs", "src/rrdp.rs", "src/rsync.rs", "src/file_ops.rs"],
  [("staging area", "src/process.rs process; src/config.rs staging_dir"), ("RRDP clean-up", "src/rrdp.rs clean"), ("rsync clean-up", "src/rsync.rs clean_old"), ("removal", "src/file_ops.rs remove_file_and_empty_parent_dirs")],
  ["all files, directories and bytes in the configured directories after each run"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

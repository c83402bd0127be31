SETUP = "gcc --version > /dev/null && python3 mc/run.py --help > /dev/null"
NOTES = ("Every check copies /repo/zielen as it is, builds a small LD_PRELOAD "
         "shim (virtual clock, operation counting, fault and schedule "
         "control) and explores the real program in a scratch directory as "
         "an unprivileged user. No hooks in /repo. See DESIGN.md.")
NOT_APPLICABLE = []
NOTE = ("Exhaustive within the bound stated in DESIGN.md and the evidence; "
        "trusts {} and the shim.")

PROPERTIES = []


def add(**k):
    PROPERTIES.append(k)


add(id="C01",
    title="A sync is the three-way merge of both directories",
    statement="After a sync, the local and the remote directory show the same "
    "files: every addition, modification, deletion, rename, change of type "
    "and empty directory made on either side since the last sync is on both "
    "sides, a change wins over a deletion, and nothing else has changed "
    "(contents, modes, mtimes, link targets). What was deleted locally but "
    "was only stored remotely is in the trash, intact.",
    over=["histories", "configurations"],
    bound="All histories of user operations on both sides between syncs, for "
    "all storage limits.",
    why="The tests check single functions with a few hand-made trees; no test "
    "runs a whole sync, and the combinations of changes on both sides with "
    "what an earlier sync left behind are a product of histories.",
    files=["zielen/commands/sync.py", "zielen/filelogic.py",
           "zielen/userdata.py", "zielen/fstools.py", "zielen/profile.py"],
    mechanism=[("compute_added/compute_modified/compute_deleted",
                "zielen/filelogic.py"),
               ("update_remote/update_local", "zielen/filelogic.py"),
               ("SyncCommand.main", "zielen/commands/sync.py")],
    technique="explicit-state exploration of the real sync against a "
    "reference merge model",
    level="model_checking",
    note=NOTE.format("the 200-line reference merge"))

add(id="C02",
    title="A sync conflict never loses either version of a file",
    statement="If a file was changed on both sides since the last sync, then "
    "after the sync the more recently modified version has the name of the "
    "file and the other version is kept, intact, under a conflict name next "
    "to it, in both directories. No earlier conflict file or other existing "
    "file is overwritten by that. Identical versions are no conflict.",
    over=["inputs", "histories"],
    bound="All names, kinds and orders of the two changes, all occupied "
    "conflict names, and repeated conflicts.",
    why="Tests cover one conflict of two plain files with different mtimes.",
    files=["zielen/filelogic.py", "zielen/utils.py"],
    mechanism=[("handle_conflicts, handle_type_conflicts, _conflict_path",
                "zielen/filelogic.py"),
               ("timestamp_path", "zielen/utils.py")],
    technique="exhaustive enumeration of conflicts on the real sync against "
    "a reference merge model",
    level="model_checking", note=NOTE.format("the reference merge"))

add(id="C03",
    title="A sync with nothing to do changes nothing",
    statement="Right after a sync, further syncs change neither directory, "
    "nor the trash, nor which files are kept locally; changing the storage "
    "limit there and back again leads back to the same state.",
    over=["histories", "configurations"],
    bound="All histories before the sync, and all configurations.",
    why="No test syncs twice; stability depends on what every earlier "
    "operation left in both databases.",
    files=["zielen/commands/sync.py", "zielen/filelogic.py"],
    mechanism=[("prioritize_files/prioritize_dirs", "zielen/filelogic.py"),
               ("last sync times", "zielen/profile.py")],
    technique="exhaustive enumeration of operation/configuration histories "
    "of the real sync, fixpoint check",
    level="model_checking", note=NOTE.format("the reference merge"))

add(id="C04",
    title="Local files are the best choice by priority within the limit",
    statement="After a sync the disk usage of the synced files and stand-ins "
    "in the local directory is within the storage limit, and the files kept "
    "are those that the documented greedy selection picks: whole directories "
    "first and then files, by priority (divided by size if so configured), "
    "ties by path. New local files, also copies made because of a conflict, "
    "start with the highest priority there is if so configured and with zero "
    "otherwise; files keep their priority when their contents change. "
    "Every other file is a link to the remote file.",
    over=["inputs", "configurations"],
    bound="All priorities, sizes, trees, limits and settings.",
    why="The tests use one tree with one set of priorities per function.",
    files=["zielen/filelogic.py", "zielen/profile.py",
           "zielen/commands/sync.py"],
    mechanism=[("prioritize_files, prioritize_dirs, update_local",
                "zielen/filelogic.py"),
               ("priorities in the closure table", "zielen/profile.py")],
    technique="exhaustive enumeration of priorities x limits x trees on the "
    "real sync against a reference selection",
    level="model_checking", note=NOTE.format("the reference selection"))

add(id="C05",
    title="Exclusion follows the documented patterns of each client",
    statement="A file or directory is excluded if and only if it or one of "
    "its parents matches a pattern as documented in the man page. Excluded "
    "files stay in the local directory or are copied to it, are removed from "
    "the remote directory once every client excludes them, and until then are "
    "kept in sync. Changing patterns at any time loses no file, and files that "
    "are no longer excluded are synced again.",
    over=["inputs", "histories", "configurations"],
    bound="All patterns and trees, and all interleavings of edits, pattern "
    "changes and syncs of two clients.",
    why="The tests use a few patterns and never change them or have a second "
    "client.",
    files=["zielen/profile.py", "zielen/userdata.py", "zielen/filelogic.py",
           "zielen/commands/sync.py", "zielen/commands/init.py"],
    mechanism=[("ProfileExcludeFile._glob", "zielen/profile.py"),
               ("RemoteSyncDir.check_excluded", "zielen/userdata.py"),
               ("rm_excluded_files, rm_local_files", "zielen/filelogic.py")],
    technique="explicit-state depth-first search over the real syncs of two "
    "clients with state hashing, and exhaustive enumeration of a pattern "
    "grammar against a reference matcher", level="model_checking",
    note=NOTE.format("the reference matcher and the closing conditions"))

add(id="C07",
    title="Clients that share a remote directory converge",
    statement="However edits on any client and in the remote directory and "
    "syncs of the clients are interleaved, each sync merges what changed "
    "since that client's own last sync. Once the edits stop, syncing every "
    "client in turn makes all of them show the same files, and then nothing "
    "changes any more.",
    over=["histories", "configurations"],
    bound="All interleavings of edits and syncs of two clients.",
    why="No test has a second client.",
    files=["zielen/commands/sync.py", "zielen/filelogic.py",
           "zielen/userdata.py"],
    mechanism=[("lastsync stamps of the remote database",
                "zielen/userdata.py"),
               ("compute_modified/compute_deleted", "zielen/filelogic.py")],
    technique="explicit-state depth-first search over the real syncs of two "
    "clients with state hashing, against a reference merge model",
    level="model_checking", note=NOTE.format("the reference merge"))

add(id="C08",
    title="An interrupted sync loses nothing and the next sync completes it",
    statement="If a sync is killed at any point, even in the middle of a "
    "write, or ended by a signal, then no contents of a file that the user or "
    "another client had are lost, no torn or partial file is visible under a "
    "synced name, and no file is duplicated under a conflict name that isn't "
    "one. After the next sync both directories are what they would have been "
    "without the interruption, also if the user or another client changed "
    "something in between.",
    over=["crash_points", "histories", "configurations"],
    bound="All points in a sync at which it can be interrupted, for all "
    "histories before and after.",
    why="No test interrupts anything.",
    files=["zielen/commands/sync.py", "zielen/filelogic.py",
           "zielen/fstools.py", "zielen/containerbase.py",
           "zielen/userdata.py", "zielen/profile.py", "zielen/cli.py"],
    mechanism=[("copy_file/transfer_tree/symlink_tree via temporary files",
                "zielen/fstools.py"),
               ("commit order at the end of SyncCommand.main",
                "zielen/commands/sync.py"),
               ("JSONFile.write", "zielen/containerbase.py")],
    technique="exhaustive enumeration of crash points, torn writes and "
    "signals in the real sync, each followed by recovery, against the "
    "reference merge", level="fault_enumeration",
    note=NOTE.format("the recovery oracle"))

add(id="C19",
    title="Failing file system operations are reported and lose nothing",
    statement="If any operation on a file system fails during a sync (no "
    "space, no permission, I/O error), once or from then on, then the sync "
    "either succeeds with the same result or ends with an error; it never "
    "reports success for something it hasn't done, never loses or tears a "
    "file, and the next sync without failures completes it.",
    over=["fault_sequences", "histories", "configurations"],
    bound="All operations of a sync and all errors they can return.",
    why="No test makes an operation fail.",
    files=["zielen/commands/sync.py", "zielen/filelogic.py",
           "zielen/fstools.py", "zielen/containerbase.py",
           "zielen/userdata.py", "zielen/profile.py"],
    mechanism=[("copy_file/transfer_tree/symlink_tree", "zielen/fstools.py"),
               ("_rm_files, trash_files", "zielen/filelogic.py")],
    technique="exhaustive enumeration of failing operations in the real sync "
    "with recovery, against the reference merge", level="fault_enumeration",
    note=NOTE.format("the recovery oracle"))

add(id="C22",
    title="A remote directory that disappears costs nothing",
    statement="If the remote directory isn't there when a sync starts or "
    "disappears at any point of it, with or without an empty mount point left "
    "behind, then the sync, unless it's already done, ends with an error "
    "message (it doesn't crash) and deletes nothing in the local directory "
    "because of that; once the remote directory is back, the next sync "
    "completes it. The same goes for reset (with -n it doesn't need the remote "
    "directory); an init that this happens to is completed by running it again. Nothing "
    "is ever written into an empty mount point "
    "that is in place of the remote directory.",
    over=["fault_sequences", "histories", "configurations"],
    bound="All points of a command at which the remote directory can "
    "disappear.",
    why="No test has a remote directory that disappears.",
    files=["zielen/commands/sync.py", "zielen/filelogic.py",
           "zielen/userdata.py", "zielen/containerbase.py"],
    mechanism=[("RemoteSyncDir.safe_path", "zielen/userdata.py"),
               ("checks of util_dir", "zielen/filelogic.py")],
    technique="exhaustive enumeration of the point of disappearance in the "
    "real sync with recovery, against the reference merge",
    level="fault_enumeration", note=NOTE.format("the recovery oracle"))

add(id="C23",
    title="Commands of several clients that run at once don't interfere",
    statement="If two clients run commands on the same remote directory at "
    "once, then each command either does what it would have done if they had "
    "been run one after the other or ends with an error that says that "
    "another operation is taking place, and at least one of them succeeds. "
    "The files and databases are those of one of the two orders.",
    over=["schedules", "histories", "configurations"],
    bound="All interleavings of two commands.",
    why="No test runs two commands at once.",
    files=["zielen/commands/sync.py", "zielen/commands/init.py",
           "zielen/commands/reset.py", "zielen/commands/emptytrash.py",
           "zielen/containerbase.py", "zielen/userdata.py"],
    mechanism=[("SyncDBFile.lock", "zielen/containerbase.py"),
               ("use of remote_dir.lock", "zielen/commands/sync.py")],
    technique="stateless exploration of all schedules of two real processes "
    "up to a preemption bound under a controlled scheduler, against the "
    "serial outcomes", level="model_checking",
    note=NOTE.format("the comparison with serial outcomes"))

add(id="C24",
    title="What the user changes while a sync is running is not lost",
    statement="If the user edits, makes, moves or deletes a file in the local "
    "or remote directory at any point of a running sync, then that sync "
    "succeeds or ends with an error, and the next syncs complete it. Every "
    "content that exists both when the edit is made right before the sync and "
    "right after it exists afterwards, and files which that edit doesn't "
    "concern are what they are in both of these cases.",
    over=["schedules", "histories", "configurations"],
    bound="All points of a sync at which the edit can happen.",
    why="No test changes files during a sync.",
    files=["zielen/commands/sync.py", "zielen/filelogic.py",
           "zielen/fstools.py", "zielen/userdata.py"],
    mechanism=[("SyncDir.has_changed", "zielen/userdata.py"),
               ("FilesManager.update_local", "zielen/filelogic.py"),
               ("copy_file", "zielen/fstools.py")],
    technique="exhaustive enumeration of the interleavings of one user edit "
    "with the operations of the real sync under a controlled scheduler, "
    "against the two serial outcomes", level="model_checking",
    note=NOTE.format("the comparison with serial outcomes"))

add(id="C06",
    title="Deleted files stay in the trash for as long as configured",
    statement="A file or directory that a sync moves to the trash gets a name "
    "of its own there, replaces nothing and keeps its contents. Syncs remove "
    "it from the trash when the cleanup period has passed since it was "
    "deleted, never earlier, and not at all if the period is negative, "
    "whatever its own times were and also if the sync that deleted it was "
    "killed. empty-trash removes all that is in the trash and nothing else, "
    "and can be repeated if it is killed.",
    over=["histories", "crash_points", "configurations"],
    bound="All sets of deleted and trashed names; all sequences of deletions, "
    "waits and syncs; all crash points.",
    why="Unit tests trash single files with fixed names and times and never "
    "kill the process.",
    files=["zielen/filelogic.py", "zielen/commands/emptytrash.py",
           "zielen/fstools.py"],
    mechanism=[("FilesManager.trash_files", "zielen/filelogic.py"),
               ("FilesManager.cleanup_trash", "zielen/filelogic.py"),
               ("update_mtime", "zielen/fstools.py")],
    technique="exhaustive enumeration of names in the trash, of bounded "
    "histories with a virtual clock and of all crash points of the real sync "
    "and empty-trash commands", level="model_checking",
    note=NOTE.format("the ages of the files in the trash"))

add(id="C26",
    title="Any file name that the file system allows is synced like any other",
    statement="Files, directories and links whose names have spaces, control "
    "characters, wildcards, quotes, a leading dash, bytes that aren't valid "
    "unicode, the maximum length or the names of files that the program uses "
    "itself in the remote directory are synced, conflict, are deleted, moved "
    "to the trash and excluded by an escaped pattern like those with ordinary "
    "names, and are never confused with similar names.",
    over=["inputs", "histories", "configurations"],
    bound="All names of a list of kinds of unusual names; all pairs of "
    "operations on both sides.",
    why="All tests use plain ASCII names.",
    files=["zielen/containerbase.py", "zielen/userdata.py",
           "zielen/profile.py", "zielen/filelogic.py", "zielen/utils.py"],
    mechanism=[("SyncDBFile._get_path_id", "zielen/containerbase.py"),
               ("add_suffix", "zielen/utils.py"),
               ("SyncDir.scan_paths", "zielen/userdata.py"),
               ("ProfileExcludeFile._glob", "zielen/profile.py")],
    technique="explicit-state exploration of the real sync against a "
    "reference merge model", level="model_checking",
    note=NOTE.format("the reference merge"))

add(id="C13",
    title="The local database is a tree of paths, priorities and locations",
    statement="After any sequence of additions, removals, priority and "
    "location updates, every query of the local database gives what a plain "
    "tree of paths would: files below a directory are found, moved and removed "
    "with it, and the priority of a directory is the sum, its location the "
    "conjunction, of what is directly in it. Changes are seen by others when "
    "they're committed and are undone if they aren't, and paths with equal "
    "hashes are never confused.",
    over=["histories", "inputs"],
    bound="All sequences of operations up to a depth, for all sets of "
    "colliding paths.",
    why="Unit tests check single operations on one small tree without "
    "collisions; the tables are a product of all earlier operations.",
    files=["zielen/containerbase.py", "zielen/profile.py"],
    mechanism=[("ProfileDBFile.add_paths, _update_priority, _update_local",
                "zielen/profile.py"),
               ("SyncDBFile._get_path_id", "zielen/containerbase.py")],
    technique="explicit-state exploration of the real database code, with the "
    "bytes of the database file as the state, against a reference tree",
    level="model_checking", note=NOTE.format("the reference tree, SQLite"))

add(id="C14",
    title="The remote database is a tree of paths and sync times",
    statement="After any sequence of additions, removals and updates of sync "
    "times, every query of the remote database gives what a plain tree of "
    "paths would: what is below a directory, what is a directory, and exactly "
    "the files that were synced after a given time. Changes are seen by others "
    "when they're committed and are undone if they aren't, and paths with "
    "equal hashes are never confused.",
    over=["histories", "inputs"],
    bound="All sequences of operations up to a depth, for all sets of "
    "colliding paths.",
    why="Unit tests check single operations on one small tree without "
    "collisions; the tables are a product of all earlier operations.",
    files=["zielen/containerbase.py", "zielen/userdata.py"],
    mechanism=[("RemoteDBFile.add_paths, get_paths", "zielen/userdata.py"),
               ("SyncDBFile._get_path_id", "zielen/containerbase.py")],
    technique="explicit-state exploration of the real database code, with the "
    "bytes of the database file as the state, against a reference tree",
    level="model_checking", note=NOTE.format("the reference tree, SQLite"))

add(id="C09",
    title="An interrupted init is completed by running it again",
    statement="If init is killed or fails at any point, no content that was in "
    "either directory is lost, and running init again, with the same arguments "
    "or with only the name where it says so, completes it: the result and "
    "that of the syncs after it is what an uninterrupted init gives. What the "
    "user edits, adds or removes between the two is not overwritten or undone.",
    over=["crash_points", "fault_sequences", "configurations"],
    bound="All points of init, all ways to initialize.",
    why="No test interrupts init; the state that it leaves behind is different "
    "for each of some hundred operations.",
    files=["zielen/commands/init.py", "zielen/profile.py",
           "zielen/fstools.py"],
    mechanism=[("InitCommand.main",
                "zielen/commands/init.py"),
               ("ProfileInfoFile status", "zielen/profile.py")],
    technique="exhaustive crash-point and fault enumeration on the real init "
    "command, against the uninterrupted run", level="model_checking",
    note=NOTE.format("the comparison with the uninterrupted run"))

add(id="C10",
    title="Init sets up both directories with all files and loses none",
    statement="After init, from a local or a remote directory, with every file "
    "in it in any place and of any kind that can be synced, both directories "
    "show the same files with their contents, modes, mtimes and link targets, "
    "and files that match the exclude patterns and links that point outside of "
    "the directory stay where they are and are not shared. The syncs that "
    "follow change nothing but which files are stored locally.",
    over=["inputs", "configurations"],
    bound="All sets of files up to a size, ways to initialize, limits, exclude "
    "files and states of the other directory.",
    why="Tests of init use one small tree without links, exclude patterns or "
    "limits.",
    files=["zielen/commands/init.py", "zielen/fstools.py",
           "zielen/userdata.py", "zielen/profile.py"],
    mechanism=[("InitCommand.main",
                "zielen/commands/init.py"),
               ("rec_copy, symlink_tree", "zielen/fstools.py")],
    technique="exhaustive enumeration of small worlds on the real init and "
    "sync commands, against a reference of what both sides must show",
    level="model_checking", note=NOTE.format("the reference of the trees"))

add(id="C11",
    title="Reset brings back all files and removes only the profile",
    statement="After reset, the local directory has every file of the remote "
    "directory as a real file except where the user changed, removed or added "
    "files locally, whose versions stay; nothing is left of the profile; files "
    "of other clients stay, and with --keep-remote or --no-retrieve the remote "
    "or local files stay as they are. If reset is killed or fails at any "
    "point, nothing is lost and running it again completes it.",
    over=["histories", "crash_points", "configurations"],
    bound="All pairs of edits since the last sync, for all limits and options; "
    "all points of reset.",
    why="The tests of reset use one tree that was just synced, without edits "
    "or interruptions.",
    files=["zielen/commands/reset.py", "zielen/fstools.py",
           "zielen/profile.py"],
    mechanism=[("ResetCommand.main", "zielen/commands/reset.py"),
               ("Profile.write, ProfileInfoFile status",
                "zielen/profile.py")],
    technique="exhaustive enumeration of pairs of edits and of all crash "
    "points on the real reset command, against a reference of the result",
    level="model_checking", note=NOTE.format("the reference of the result"))

add(id="C15",
    title="The daemon counts every use of a file, once",
    statement="While the daemon runs, each time the user opens a file of the "
    "profile raises the priority of that file, whether it is stored locally or "
    "remotely, by one, once per cooldown period, even if the database is "
    "locked for a while; other files and directories count for nothing. "
    "Priorities decay with the configured half-life, whenever the daemon gets "
    "to do so, and the priority of a directory stays the sum of its contents.",
    over=["schedules", "histories", "configurations"],
    bound="All timings of events, locks and adjustments relative to the "
    "daemon's transactions.",
    why="The daemon has no tests; counting depends on how its threads and the "
    "clock interleave.",
    files=["zielen/daemon.py", "zielen/profile.py"],
    mechanism=[("Daemon.main, _adjust", "zielen/daemon.py"),
               ("ProfileDBFile.increment, adjust_all", "zielen/profile.py")],
    technique="exhaustive enumeration of event timings and lock faults on the "
    "real daemon under a simulated clock, against a reference count",
    level="model_checking", note=NOTE.format("the stand-in for inotify"))

add(id="C16",
    title="The daemon and a sync never undo each other's changes of metadata",
    statement="If a sync runs at any time while the daemon counts opened files "
    "and adjusts priorities, both succeed: every count and exactly one "
    "adjustment is in the database afterwards, with all paths, locations and "
    "the time of the sync as the sync alone would have left them.",
    over=["schedules", "histories"],
    bound="All schedules of the two processes up to a preemption bound.",
    why="No test runs the daemon and a sync at once.",
    files=["zielen/daemon.py", "zielen/profile.py",
           "zielen/containerbase.py", "zielen/commands/sync.py",
           "zielen/filelogic.py"],
    mechanism=[("ProfileInfoFile.write", "zielen/profile.py"),
               ("SyncDBFile transactions", "zielen/containerbase.py"),
               ("Daemon.main, _adjust", "zielen/daemon.py")],
    technique="stateless exploration of all schedules of the daemon's and the "
    "sync's processes up to a preemption bound, against a reference count",
    level="model_checking", note=NOTE.format("the stand-in for inotify"))

add(id="C25",
    title="The daemon syncs at the configured interval, whatever happens",
    statement="While the daemon runs, a sync begins within one of its rounds "
    "whenever the configured interval since the last successful sync has "
    "passed, and never while another one runs; a sync that fails or takes long "
    "delays the next one by no more than itself and the interval, and a changed "
    "interval is heeded without restarting the daemon. What a sync prints as "
    "errors is printed by the daemon.",
    over=["schedules", "histories", "configurations"],
    bound="All histories of outcomes and durations of syncs, ages of the last "
    "one, and times at which the interval is changed.",
    why="The daemon has no tests; when it syncs depends on a history of "
    "outcomes and on the clock.",
    files=["zielen/daemon.py", "zielen/profile.py"],
    mechanism=[("Daemon._sync", "zielen/daemon.py")],
    technique="exhaustive enumeration of bounded histories of the real daemon "
    "under a simulated clock, against the times at which syncs are due",
    level="model_checking", note=NOTE.format("the simulated clock"))

add(id="C12",
    title="Two commands on one profile never run at the same time",
    statement="If two commands that use the same profile (sync, reset, init, "
    "empty-trash) start at any time relative to each other, either one is "
    "refused and changes nothing, or both complete with the effects of running "
    "one after the other; a command that only reads (list, empty-trash) "
    "doesn't crash because of the other, and no file is lost.",
    over=["schedules", "configurations"],
    bound="All schedules of the operations of both commands up to a "
    "preemption bound, for each pair of commands and state of the profile.",
    why="No test runs two processes; which one sees what depends on the "
    "schedule.",
    files=["zielen/commandbase.py", "zielen/commands/init.py",
           "zielen/commands/reset.py", "zielen/commands/list.py",
           "zielen/containerbase.py", "zielen/profile.py"],
    mechanism=[("Command.lock, unlock, setup_profile",
                "zielen/commandbase.py"),
               ("InitCommand.main", "zielen/commands/init.py")],
    technique="stateless exploration of all schedules of two real commands up "
    "to a preemption bound, against the outcomes of the serial orders",
    level="model_checking", note=NOTE.format("the serial reference"))

add(id="C17",
    title="A config file either is refused or means what it says",
    statement="Every config file that is read by a command, made from a "
    "template, or answered at init's prompts is either refused with an error, "
    "before anything changes, or each option has the documented meaning: units "
    "of 1000 or 1024, minutes, hours and days, booleans in any case, defaults "
    "for omitted options, home directories and any way to write a path. A "
    "process that reads the file again forgets the old values. What init "
    "writes is what the template and the user said, comments included.",
    over=["inputs", "histories", "configurations"],
    bound="All values, layouts and orders of options, templates and answers; "
    "all pairs of configs one after the other.",
    why="The tests check a handful of values for single options, and no test "
    "takes them through init and the commands.",
    files=["zielen/profile.py", "zielen/containerbase.py",
           "zielen/commands/init.py"],
    mechanism=[("ProfileConfigFile", "zielen/profile.py"),
               ("ConfigFile.read, write", "zielen/containerbase.py"),
               ("Profile.generate and the properties of options",
                "zielen/profile.py")],
    technique="exhaustive enumeration of a bounded alphabet of config files, "
    "pairs of them, templates and answers on the real program, against a "
    "reference of their meaning",
    level="model_checking", note=NOTE.format("the reference parser"))

add(id="C18",
    title="Symlinks are synced as they are, unless they lead out",
    statement="A symlink of the user that is relative and stays inside the "
    "directory is on both sides with the very same target after a sync, "
    "whether it was made locally or remotely, before or after init, dangling "
    "or not; one that is absolute or leads out of the directory, even one that "
    "comes back by the directory's name, never gets from the local to the "
    "remote directory and stays as it is locally. Deletions of links are "
    "synced, and a reset keeps all of them but links into the remote "
    "directory. (A link that leads out must not replace a synced file.)",
    over=["inputs", "histories", "configurations"],
    bound="All targets of path components, at all depths, made in all ways.",
    why="The tests check three targets, at the top level, of a single "
    "function.",
    files=["zielen/fstools.py", "zielen/filelogic.py", "zielen/userdata.py"],
    mechanism=[("is_unsafe_symlink", "zielen/fstools.py"),
               ("FilesManager.setup_from_local, setup_from_remote, "
                "compute_added", "zielen/filelogic.py")],
    technique="exhaustive enumeration of targets up to a length, places and "
    "ways to make a link, run through the real commands, against a reference",
    level="model_checking", note=NOTE.format("the reference of what leads "
                                             "out"))

add(id="C20",
    title="Commands act on the profile that is meant and on valid directories",
    statement="sync, reset and empty-trash act on exactly the profile whose "
    "name is given or, if there is none, the one whose local directory the "
    "path leads to, however it is written and wherever the command is run; if "
    "there is none or it is unusable, nothing changes. init accepts a name "
    "only if it is valid, and directories only if they exist, are empty or can "
    "be made, as its mode demands, and the local one overlaps, by any path, "
    "neither with the remote one nor with the local directory of another "
    "profile nor with the program's files; a refused init changes nothing, and "
    "an accepted one nothing else.",
    over=["inputs", "configurations"],
    bound="All ways to write paths and names and all relative positions of "
    "directories, next to profiles in all states.",
    why="The tests try a few paths, without other profiles or links.",
    files=["zielen/commandbase.py", "zielen/commands/init.py",
           "zielen/fstools.py", "zielen/profile.py"],
    mechanism=[("Command.select_profile", "zielen/commandbase.py"),
               ("InitCommand._verify_local_dir", "zielen/commands/init.py"),
               ("check_dir", "zielen/fstools.py")],
    technique="exhaustive enumeration of positions of directories and of ways "
    "to write arguments on the real commands, against a reference of what is "
    "meant",
    level="model_checking", note=NOTE.format("the reference of what is meant"))

add(id="C21",
    title="list shows every profile as it is configured",
    statement="Whatever state each profile is in (complete, partially "
    "initialized, half deleted, misconfigured), list prints a well-formed "
    "table with exactly one row for each profile that has a config file, with "
    "the name, directories and limit as configured, and changes nothing.",
    over=["inputs", "configurations"],
    bound="All combinations of states of profiles and texts of options.",
    why="No test runs list; the tests of its table use a few rows.",
    files=["zielen/commands/list.py", "zielen/utils.py",
           "zielen/containerbase.py"],
    mechanism=[("ListCommand.main", "zielen/commands/list.py"),
               ("BoxTable", "zielen/utils.py")],
    technique="exhaustive enumeration of sequences of states of profiles and "
    "of texts on the real command, against the config files",
    level="model_checking", note=NOTE.format("the parser of the table"))

add(id="C27",
    title="A command line is refused without effect or does what it says",
    statement="Whatever the words on the command line are, either they follow "
    "the synopsis of the command and it does exactly what these options say "
    "(in any order, alone or combined), or the command line is refused with a "
    "message and a non-zero exit status and nothing is changed; --help and "
    "--version only print; with -q only errors are printed, with --debug a "
    "stack trace instead of an error message. Where the output "
    "goes, a terminal of whatever width or none, makes no difference to what "
    "is done to the files; the progress bar, which is only shown on a "
    "terminal, fits it, never goes back and ends at 100 percent.",
    over=["inputs", "configurations"],
    bound="All sequences of words up to a length; all widths of terminals of "
    "an alphabet.",
    why="No test calls the command line or has a terminal.",
    files=["zielen/cli.py", "zielen/commands/init.py",
           "zielen/commands/reset.py", "zielen/commands/emptytrash.py",
           "zielen/fstools.py", "zielen/utils.py"],
    mechanism=[("parse_args", "zielen/cli.py"),
               ("def_command", "zielen/cli.py"),
               ("HelpAction", "zielen/cli.py"),
               ("QuietAction", "zielen/cli.py"),
               ("transfer_tree", "zielen/fstools.py"),
               ("ProgressBar", "zielen/utils.py")],
    technique="exhaustive enumeration of sequences of words on the real command "
    "line and of terminals, against a reference of the synopsis",
    level="model_checking", note=NOTE.format("the reference of the synopsis"))

#!/usr/bin/env python3
"""List the fix commits of /repo in known_findings.json."""
import json
import os
import subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (property, start of the commit's subject, what failed)
FIXED = [
 ("C01", "never follow symlinks in the list", "a symlink to a directory was replaced with a copy of the directory's contents"),
 ("C08", "replace transferred files atomically", "a sync killed while it copied left a torn file that the next sync spread"),
 ("C01", "create empty directories", "empty directories and unsynced files: a new local directory was copied with everything in it, including what must not be synced, and empty ones weren't created"),
 ("C01", "allow adding the first file", "the first file added to an empty profile made the sync crash"),
 ("C20", "select a profile by the path", "selecting a profile by the path of its local directory failed"),
 ("C06", "don't overwrite files in the trash", "trashing two files of the same name in one sync lost one of them"),
 ("C06", "don't follow symlinks in the trash", "trashing a link set the mtime of its target, or crashed the sync if it was dangling"),
 ("C06", "a trash cleanup period of zero", "TrashCleanupPeriod=0 never deleted anything"),
 ("C06", "don't delete files from the trash at once", "a sync killed between moving an old file to the trash and updating its mtime left it there with its old mtime, so that the next sync deleted it for good"),
 ("C26", "don't fail if the new name of a file", "a conflict of a file with a name near the limit of 255 bytes, or deleting a second such file, made every sync fail"),
 ("C26", "sync files whose names aren't valid", "a single file with a name that isn't valid UTF-8 made init and every sync crash"),
 ("C26", "don't overwrite the remote database", "a local file or directory called .zielen (a copy of a remote directory) made every sync fail or overwrote remote.db"),
 ("C14", "don't confuse files whose paths have the same hash", "two new paths with colliding hashes added at once lost one of them, and queries and removals of an unknown path with a colliding hash hit the other one"),
 ("C05", "forget excluded files", "a file that had been excluded by all clients stayed in the databases"),
 ("C07", "sync deletions that another client", "a deletion already synced by another client crashed or was undone"),
 ("C01", "don't delete files that have changed", "a file deleted on one side and modified on the other was deleted"),
 ("C08", "replace unneeded local files", "a sync killed between removing a local file and linking it left neither"),
 ("C01", "don't create symlinks to files", "dangling links to files that are not in the remote directory"),
 ("C02", "remove renamed files from", "a renamed conflict file stayed in the remote database"),
 ("C02", "keep both files in a conflict", "a conflict of files with equal mtimes lost one version"),
 ("C02", "don't overwrite an earlier", "a second conflict in the same second overwrote the first conflict file"),
 ("C01", "sync files that have been replaced", "replacing a file with a directory or the reverse crashed the sync or lost data"),
 ("C08", "write the profile info file", "a sync killed while it wrote info.json made the profile unusable"),
 ("C16", "don't lose metadata when", "a sync and the daemon overwrote each other's time of last sync/adjustment"),
 ("C11", "don't lose files if a reset", "an interrupted reset deleted remote files that had not been retrieved"),
 ("C11", "don't overwrite files modified", "a reset overwrote local changes with the remote version"),
 ("C17", "accept booleans", "documented boolean spellings were rejected or misread by case"),
 ("C17", "accept units", "documented units were rejected by case"),
 ("C17", "forget options that were removed", "an option removed from the config file kept its old value"),
 ("C17", "reject a priority half-life", "PriorityHalfLife=0 was accepted and then crashed the daemon"),
 ("C23", "don't let clients sync", "two clients syncing at once lost each other's database updates"),
 ("C22", "don't delete local files if", "a remote directory that disappeared during a sync made it delete all local files"),
 ("C04", "account for the size of excluded", "retrieving excluded files exceeded the storage limit"),
 ("C05", "don't overwrite excluded files", "a new remote file overwrote a local excluded file of the same name"),
 ("C05", "exclude the files of conflicts", "conflict files that match an exclude pattern were treated as synced"),
 ("C07", "don't mark remote files as modified", "files that had not changed were seen as modified by other clients, which undid deletions and made spurious conflicts"),
 ("C23", "don't empty the trash or reset", "a sync crashed or remote files were lost if another client emptied the trash or reset at once"),
 ("C09", "allow resuming an initialization", "an initialization killed early could neither be resumed nor started again"),
 ("C11", "reset profiles in which files", "a reset crashed if a file and a directory had replaced each other"),
 ("C05", "don't crash or ignore exclude patterns", "a dangling symlink or a symlink to a directory that matches an exclude pattern made every sync crash, and no pattern matched in a local directory with brackets in its path"),
 ("C05", "forget excluded directories", "two clients that exclude the same directory made and removed it in the remote directory for ever, and links to nothing were left behind"),
 ("C24", "don't lose changes made during a sync", "edits that the user made while a sync was running were overwritten, deleted or never synced"),
 ("C09", "register files already moved when resuming", "files that a killed init had already replaced with links weren't in the database after it was resumed, so that deletions of them were undone"),
 ("C09", "don't overwrite new local files when resuming", "resuming init --add-remote overwrote files that the user had made meanwhile"),
 ("C09", "don't write through the symlink of a file that became", "resuming init replaced a remote file with a link to itself"),
 ("C09", "commit the databases before an initialization", "init killed at its end left an initialized profile with an empty database"),
 ("C11", "don't crash if a profile is incomplete", "list, sync and reset crashed after an interrupted reset or init"),
 ("C12", "lock a profile before reading it", "an init or a reset that raced another command deleted the other's profile, or commands crashed on or used a profile that had just been deleted"),
 ("C21", "list profiles that have incomplete config", "list crashed if the config file of any profile was missing or lacked an option"),
 ("C20", "refuse a local directory that overlaps with the remote", "init accepted a local directory inside its remote directory or the reverse, and moved the database into the files it describes"),
 ("C17", "expand the home directory before", "the path ~/../x became the relative path x"),
 ("C17", "use the default of a boolean option that is blank", "UseTrash= was accepted and disabled the trash"),
 ("C17", "refuse a template in which an optional", "a template with SyncInterval= made an initialized profile in which every command failed"),
 ("C20", "don't crash if a new directory can't be made", "init crashed for a directory below a file or in place of a dangling symlink"),
 ("C18", "don't sync symlinks that leave the directory by its name", "a link ../L1/a in L1 was synced, although it leads out of the remote directory"),
 ("C22", "don't write into an empty mount point", "a remote directory that was unmounted during a sync (e.g. L1/a edited) left copies of local files in the empty mount point"),
 ("C04", "keep the priority of files in a conflict", "the winner of a conflict lost its priority, and the conflict copy of a local file was not inflated"),
 ("C22", "report a remote directory that disappears", "a sync or reset crashed with a traceback if the remote directory disappeared while it listed directories or wrote the database"),
 ("C21", "allow directories whose paths aren't valid", "a config file with a path that isn't valid UTF-8 made every command crash, list included"),
]
log = subprocess.check_output(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
    text=True).splitlines()
log = [x.split(" ", 1) for x in log if " fix: " in x]
used, out = set(), []
for prop, start, what in FIXED:
    hits = [h for h, s in log if s.startswith("fix: " + start)]
    assert len(hits) == 1, (start, hits)
    used.add(hits[0])
    out.append("fixed: property={} {} {}".format(prop, hits[0], what))
missing = [x for x in log if x[0] not in used]
assert not missing, missing
path = os.path.join(VERIF, "known_findings.json")
with open(path) as f:
    data = json.load(f)
data["fixed"] = out
with open(path, "w") as f:
    json.dump(data, f, indent=1)
    f.write("\n")

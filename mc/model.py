"""Reference model of one sync, as a user would describe it.

Trees are {relative path: node}.  Nodes:
    ("d",)                        directory
    ("f", content, mtime, mode)   regular file
    ("l", target, mtime)          symlink that may be synced
    ("u", target)                 symlink that may not (absolute or escaping)
    ("r",)                        local stand-in for the remote file
"""
import os
import re


def parents(path):
    while "/" in path:
        path = path.rpartition("/")[0]
        yield path


def is_file(node):
    return node is not None and node[0] != "d"


class Merge:
    """What a sync must turn the two directories into.

    base: the remote tree as it was after this client's last sync.
    placeholders: paths that were stand-ins after this client's last sync.
    excluded: local paths that match the client's exclude patterns.
    """

    def __init__(self, base, local, remote, placeholders=(), use_trash=True,
                 excluded=()):
        self.base, self.local, self.remote = base, local, remote
        excluded = set(excluded)
        self.files = {}          # path -> surviving node
        self.conflicts = []      # (path, losing node)
        self.dirs = set()
        self.local_only = {}     # local nodes that are never synced
        self.trash = []          # (path, {relative path: node})
        self.may_trash = []      # the same; may or may not be in the trash
        self.deleted = set()

        changed_r = set()
        local_from = {}
        for p in set(base) | set(local) | set(remote):
            b, l, r = base.get(p), local.get(p), remote.get(p)
            if not is_file(b):
                b = None
            if is_file(l):
                if l[0] == "u" or (p in excluded and b is None):
                    self.local_only[p] = l
                    l = None
            else:
                l = None
            if not is_file(r):
                r = None
            if b is None:
                lc, rc = l is not None, r is not None
            else:
                lc = l is not None and l[0] != "r" and l != b
                rc = r is not None and r != b
            if l is not None and l[0] == "r":
                lc = False
            if rc:
                changed_r.add(p)
            if lc and rc:
                self._conflict(p, l, r)
            elif lc:
                self.files[p] = l
            elif rc:
                self.files[p] = r
            elif l is not None and r is not None:
                self.files[p] = r
            elif b is not None:
                self.deleted.add(p)
            elif l is not None and l[0] == "r":
                # A stand-in for a file that was never there.
                self.deleted.add(p)

        # Directories, deepest first: those with something in them, and those
        # that weren't deleted.
        cand = ({p for p, n in local.items() if n == ("d",)}
                | {p for p, n in remote.items() if n == ("d",)}
                | {p for p, n in base.items() if n == ("d",)})
        occupied = set()
        for p in list(self.files) + list(self.local_only):
            occupied.update(parents(p))
        for p in excluded:
            if p in local:
                occupied.update(parents(p))
        cand |= {q for p in self.files for q in parents(p)}
        for p in sorted(cand, key=lambda x: -x.count("/")):
            b = base.get(p) == ("d",)
            l = local.get(p) == ("d",)
            r = remote.get(p) == ("d",)
            if l and p in excluded and not r and not b:
                self.local_only[p] = ("d",)
                continue
            if p in occupied or (l and r) or (l and not b) or (r and not b):
                self.dirs.add(p)
                occupied.update(parents(p))
            elif b:
                self.deleted.add(p)

        # A file and a directory can't have the same name.
        for p in list(self.files):
            if p in self.dirs:
                self.conflicts.append((p, self.files.pop(p)))

        # What is removed from the remote directory because the user removed
        # it locally.
        removed = {
            p for p in self.deleted
            if p in remote and p not in self.files and p not in self.dirs}
        removed |= {
            p for p in self.deleted
            if p in remote and p in base
            and (remote[p] == ("d",)) == (base[p] == ("d",))
            and p not in changed_r
            and not (p in self.files and self.files[p] == remote[p])
            and not (p in self.dirs and remote[p] == ("d",))}
        for p in sorted(removed):
            if any(q in removed for q in parents(p)):
                continue
            inside = [q for q in placeholders
                      if q == p or q.startswith(p + "/")]
            tree = {q[len(p) + 1:]: n for q, n in remote.items()
                    if q == p or q.startswith(p + "/")}
            if use_trash and inside:
                self.trash.append((p, tree))
            elif use_trash and any(
                    q and n == ("d",)
                    and not any(x.startswith(q + "/") for x in tree)
                    for q, n in tree.items()):
                # An empty directory doesn't count as kept locally unless it
                # was selected, so that those that have it may not either.
                self.may_trash.append((p, tree))

    def _conflict(self, p, l, r):
        if l[:2] == r[:2] and l[-1 if l[0] == "l" else 2] == r[
                -1 if r[0] == "l" else 2]:
            self.files[p] = l
            return
        lm, rm = l[2], r[2]
        if lm < rm:
            win, lose = r, l
        else:
            win, lose = l, r
        self.files[p] = win
        self.conflicts.append((p, lose))

    def expected(self):
        out = {p: ("d",) for p in self.dirs}
        out.update(self.files)
        return out


def stem_of(name):
    """Patterns for the two parts of a name; a long one may be cut short."""
    stem, ext = os.path.splitext(name)
    if len(os.fsencode(name)) > 200:
        return re.escape(name[:20]) + ".*", ".*"
    return re.escape(stem), re.escape(ext)


def conflict_pattern(path):
    """What the new name of a file in a conflict must look like."""
    head, slash, name = path.rpartition("/")
    stem, ext = stem_of(name)
    return re.compile(
        re.escape(head + slash) + stem
        + r"_conflict-\d{8}-\d{6}(\(\d+\))?" + ext + r"\Z")


def trash_pattern(path):
    name = path.rpartition("/")[2]
    stem, ext = stem_of(name)
    return re.compile(
        stem + r"(\(\d+\))?" + ext + r"\Z")


def diff(expected, actual, limit=6):
    out = []
    for p in sorted(set(expected) | set(actual)):
        if expected.get(p) != actual.get(p):
            out.append("{}: expected {}, found {}".format(
                p, short(expected.get(p)), short(actual.get(p))))
    if len(out) > limit:
        out = out[:limit] + ["... {} more".format(len(out) - limit)]
    return out


def short(node):
    if node is None:
        return "nothing"
    if node[0] == "f" and len(node[1]) > 24:
        return repr(("f", node[1][:16] + b"...", len(node[1])) + node[2:])
    return repr(node)


def match_tree(expected, conflicts, actual, what):
    """Problems with an actual tree, given the expected one and the files that
    must be there under a conflict name."""
    actual = dict(actual)
    extra = {p: n for p, n in actual.items() if p not in expected}
    problems = []
    for path, node in conflicts:
        pattern = conflict_pattern(path)
        for p in sorted(extra):
            if extra[p] == node and pattern.match(p):
                del extra[p]
                del actual[p]
                break
        else:
            problems.append("{}: no conflict file for {} with {}".format(
                what, path, short(node)))
    return problems + [what + ": " + x for x in diff(expected, actual)]


def match_trash(expected, actual, what="trash", spare=(), optional=()):
    """expected: [(path, subtree)]; actual: tree of the new trash entries;
    spare: contents that may be there as well; optional: entries that may."""
    tops = {}
    for p, n in actual.items():
        top, _, rest = p.partition("/")
        tops.setdefault(top, {})[rest] = n
    problems = []

    def bare(sub):
        # The time of trashing replaces the mtime of what is trashed.
        return {q: ((n[:2] + n[3:]) if q == "" and n[0] == "f"
                    else n[:2] if q == "" else n) for q, n in sub.items()}
    for path, sub in expected:
        pattern = trash_pattern(path)
        for top in sorted(tops):
            if pattern.match(top) and bare(tops[top]) == bare(sub):
                del tops[top]
                break
        else:
            problems.append("{}: {} is not there intact".format(what, path))
    for path, sub in optional:
        pattern = trash_pattern(path)
        for top in sorted(tops):
            if pattern.match(top) and bare(tops[top]) == bare(sub):
                del tops[top]
                break
    for top in sorted(tops):
        # Trashing empty directories is harmless.
        if any(n[0] != "d" and n[:2] not in spare
               for n in tops[top].values()):
            problems.append("{}: unexpected {}".format(what, top))
    return problems

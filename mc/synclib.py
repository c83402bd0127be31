"""User operations, observations and oracles shared by the sync checks."""
import os
import stat

import core
import model
from core import Shim


# ------------------------------------------------------------ observation

# Temporary files of the program, which it never treats as the user's.
TEMP_PREFIX = ".zielen-partial"


def scan(root, remote_root=None, skip=()):
    """{relative path: model node}.  With remote_root, links to the same path
    in the remote directory become ("r",) and others that can't be synced
    ("u", target)."""
    out = {}

    def walk(d, rel):
        with os.scandir(d) as it:
            entries = list(it)
        for e in entries:
            r = rel + e.name
            if not rel and e.name in skip:
                continue
            if e.name.startswith(TEMP_PREFIX):
                continue
            st = e.stat(follow_symlinks=False)
            if stat.S_ISLNK(st.st_mode):
                target = os.readlink(e.path)
                if remote_root is not None:
                    if target == remote_root + "/" + r:
                        out[r] = ("r",)
                        continue
                    full = os.path.normpath(os.path.join(
                        os.path.dirname(r), target))
                    if full.startswith("/") or full.split("/")[0] == "..":
                        out[r] = ("u", target)
                        continue
                out[r] = ("l", target, st.st_mtime_ns)
            elif stat.S_ISDIR(st.st_mode):
                out[r] = ("d",)
                walk(e.path, r + "/")
            else:
                with open(e.path, "rb") as f:
                    out[r] = ("f", f.read(), st.st_mtime_ns,
                              stat.S_IMODE(st.st_mode))
    if os.path.isdir(root):
        walk(root, "")
    return out


def local(w, client=1):
    return scan(w.p("L{}".format(client)), w.p("R"))


def remote(w):
    return scan(w.p("R"), None, (".zielen",))


def trash(w):
    return scan(w.p("R/.zielen/Trash"))


def view(loc, rem):
    """The local directory as the user sees it, stand-ins resolved."""
    out = {}
    for p, n in loc.items():
        if n == ("r",):
            n = rem.get(p, ("broken",))
        if n[0] != "u":
            out[p] = n
    return out


class Client:
    """What the harness remembers about a client since its last sync."""

    def __init__(self, w, number=1, use_trash=True):
        self.number, self.use_trash = number, use_trash
        self.capture(w)

    def capture(self, w):
        self.base = remote(w)
        loc = local(w, self.number)
        self.placeholders = {p for p, n in loc.items() if n == ("r",)}

    def copy(self):
        c = Client.__new__(Client)
        c.__dict__.update(self.__dict__)
        return c


class Outcome:
    pass


def sync_and_check(w, client, fail, trail, excluded=None, again=True):
    """Sync a client; compare both directories and the trash with the model;
    sync again and require that nothing changes."""
    loc, rem, tr = local(w, client.number), remote(w), trash(w)
    ex = excluded(w) if excluded else ()
    m = model.Merge(client.base, loc, rem, client.placeholders,
                    client.use_trash, ex)
    res = w.sync(client.number)
    if not res.ok:
        fail("sync-" + res.kind, "sync failed: {}\n{}".format(res, trail))
    problems, after = compare(w, client, m, tr)
    if problems:
        fail("merge", "{}\n{}".format("\n".join(problems), trail))
    if again:
        w.advance()
        before = (after, db_state(w, client.number))
        res = w.sync(client.number)
        if not res.ok:
            fail("resync-" + res.kind,
                 "second sync failed: {}\n{}".format(res, trail))
        now = ((local(w, client.number), remote(w), trash(w)),
               db_state(w, client.number))
        if now != before:
            fail("resync", "a second sync changed something: {}\n{}".format(
                explain_change(before, now), trail))
        after = now[0]
    w.advance()
    client.capture(w)
    return m, after


def explain_change(before, now):
    for name, a, b in zip(("local", "remote", "trash"), before[0], now[0]):
        if a != b:
            return name + " " + "; ".join(model.diff(a, b))
    return "priorities/locations {} -> {}".format(
        [x for x in before[1] if x not in now[1]],
        [x for x in now[1] if x not in before[1]])


def last_sync(w, client=1):
    prof = core.zielen.profile.Profile(w.name(client))
    prof.read()
    prof._db_file.close()
    return prof.last_sync


def compare(w, client, m, old_trash, check_trash=True, spare=()):
    loc, rem = local(w, client.number), remote(w)
    expected = m.expected()
    problems = model.match_tree(expected, m.conflicts, rem, "remote")
    exp_local = dict(expected)
    for p, n in m.local_only.items():
        exp_local.setdefault(p, n)
    visible = {}
    for p, n in loc.items():
        visible[p] = rem.get(p, ("broken",)) if n == ("r",) else n
    problems += model.match_tree(exp_local, m.conflicts, visible, "local")
    new_trash = trash(w)
    kept = {p: n for p, n in new_trash.items() if p in old_trash}
    if kept != old_trash:
        problems += ["trash: " + x for x in model.diff(old_trash, kept)]
    if check_trash:
        problems += model.match_trash(
            m.trash,
            {p: n for p, n in new_trash.items() if p not in old_trash},
            spare=spare, optional=m.may_trash)
    return problems, (loc, rem, new_trash)


def db_state(w, client=1):
    """What the client remembers: (path, directory, priority, kept locally).
    Read through the program's own interface."""
    prof = core.zielen.profile.Profile(w.name(client))
    rows = sorted((p, d.directory, round(d.priority, 9), d.local)
                  for p, d in prof.get_paths().items())
    prof._db_file.close()
    return rows


# -------------------------------------------------------------- operations

class Op:
    def __init__(self, label, func, group=None):
        self.label, self.func, self.group = label, func, group

    def __repr__(self):
        return self.label


def _real(w, side, path):
    """Is there something the op can act upon?"""
    return os.path.lexists(w.p(side + "/" + path))


def op_write(side, path, tag=None):
    """Save new contents the way an editor does: a stand-in is replaced when
    edited locally (the edit of a stand-in goes to the remote file)."""
    def f(w):
        full = w.p(side + "/" + path)
        d = os.path.dirname(full)
        if os.path.isdir(full) and not os.path.islink(full):
            return False
        try:
            os.makedirs(d, exist_ok=True)
        except (FileExistsError, NotADirectoryError):
            return False
        if os.path.islink(full) and not os.path.isfile(full):
            return False
        data = "{}@{}:{:.0f}".format(tag or path, side, Shim.now())
        with open(full, "wb") as fh:
            fh.write(data.encode(errors="replace"))
        return True
    return Op("write {}/{}".format(side, path), f)


def op_replace(side, path, size=None):
    """Write a new file over whatever is there (rename over it)."""
    def f(w):
        full = w.p(side + "/" + path)
        if _real(w, side, path):
            w.rm(side + "/" + path)
        try:
            os.makedirs(os.path.dirname(full), exist_ok=True)
        except (FileExistsError, NotADirectoryError):
            return False
        data = "new {}@{}:{:.0f}".format(path, side, Shim.now()).encode(errors="replace")
        if size:
            data = (data * (size // len(data) + 1))[:size]
        with open(full, "wb") as fh:
            fh.write(data)
        return True
    return Op("replace {}/{}{}".format(
        side, path, " size {}".format(size) if size else ""), f)


def op_rm(side, path):
    def f(w):
        if not _real(w, side, path):
            return False
        w.rm(side + "/" + path)
        return True
    return Op("rm {}/{}".format(side, path), f)


def op_mkdir(side, path):
    def f(w):
        if os.path.lexists(w.p(side + "/" + path)):
            return False
        try:
            os.makedirs(w.p(side + "/" + path))
        except (FileExistsError, NotADirectoryError):
            return False
        return True
    return Op("mkdir {}/{}".format(side, path), f)


def op_link(side, path, target):
    def f(w):
        if _real(w, side, path):
            w.rm(side + "/" + path)
        try:
            os.makedirs(os.path.dirname(w.p(side + "/" + path)),
                        exist_ok=True)
            os.symlink(target, w.p(side + "/" + path))
        except (FileExistsError, NotADirectoryError):
            return False
        return True
    return Op("ln {}/{} -> {}".format(side, path, target), f)


def op_dirify(side, path):
    """Replace a file with a directory that has a file in it."""
    def f(w):
        if not _real(w, side, path):
            return False
        w.rm(side + "/" + path)
        w.write(side + "/" + path + "/q",
                "q@{}:{:.0f}".format(side, Shim.now()).encode(errors="replace"))
        return True
    return Op("dirify {}/{}".format(side, path), f)


def op_move(side, src, dst):
    def f(w):
        if not _real(w, side, src) or _real(w, side, dst):
            return False
        full = w.p(side + "/" + src)
        if os.path.islink(full) or not os.path.isfile(full):
            return False
        if not os.path.isdir(os.path.dirname(w.p(side + "/" + dst))):
            return False
        os.rename(full, w.p(side + "/" + dst))
        os.utime(w.p(side + "/" + dst))
        return True
    return Op("mv {0}/{1} {0}/{2}".format(side, src, dst), f)


def op_touch(side, path):
    def f(w):
        full = w.p(side + "/" + path)
        if not os.path.isfile(full) or os.path.islink(full):
            return False
        os.utime(full)
        return True
    return Op("touch {}/{}".format(side, path), f)


def op_chmod(side, path, mode):
    def f(w):
        full = w.p(side + "/" + path)
        if not os.path.isfile(full) or os.path.islink(full):
            return False
        with open(full, "ab") as fh:
            fh.write(b"+x")
        os.chmod(full, mode)
        return True
    return Op("append+chmod {}/{} {:o}".format(side, path, mode), f)


def op_all(side, label, ops):
    def f(w):
        done = [o.func(w) for o in ops]
        return any(done)
    return Op("{} {}/*".format(label, side), f)


def base_tree(w, side):
    w.write(side + "/a", b"a0" * 10)
    w.write(side + "/d/b.txt", b"b0" * 4096)
    w.write(side + "/d/e/c", b"c0" * 10)
    os.makedirs(w.p(side + "/z"))
    os.symlink("a", w.p(side + "/s"))


def start(w, limit, make=base_tree, sync=True, pace=None, **options):
    """A profile with some files, initialized and synced."""
    w.fresh()
    w.pace = pace or w.pace
    os.makedirs(w.p("L1"))
    os.makedirs(w.p("R"))
    make(w, "L1")
    w.advance()
    r = w.init(1, limit, **options)
    if not r.ok:
        return r
    w.advance()
    if sync:
        r = w.sync(1)
        w.advance()
    return r

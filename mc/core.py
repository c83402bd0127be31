"""Harness core: the scratch world of one worker, the virtual environment, and
the commands of the real program run inside it.

Everything below runs in a worker process that was started as an unprivileged
user with the shim preloaded (see run.py)."""
import atexit
import contextlib
import ctypes
import filecmp
import gc
import io
import os
import shutil
import signal
import sqlite3
import stat
import sys
import traceback
import types
import warnings

warnings.simplefilter("ignore")

T0 = 1000000000.0        # virtual epoch (2001-09-09)
STEP = 1000.0            # virtual seconds between phases of a history

# --------------------------------------------------------------------- shim

_lib = ctypes.CDLL(None)
try:
    _lib.shim_time.argtypes = [ctypes.c_double]
    _lib.shim_now.restype = ctypes.c_double
    _lib.shim_ops.restype = ctypes.c_long
    _lib.shim_fired.restype = ctypes.c_long
    _lib.shim_arm.argtypes = [
        ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    HAVE_SHIM = True
except AttributeError:
    HAVE_SHIM = False

ACT_NONE, ACT_KILL, ACT_TORN, ACT_SIGNAL, ACT_ERRNO, ACT_VANISH = range(6)


class Shim:
    root = staticmethod(lambda p: _lib.shim_root(os.fsencode(p)))
    ignore = staticmethod(lambda p: _lib.shim_ignore(os.fsencode(p)))
    time = staticmethod(lambda t: _lib.shim_time(t))
    now = staticmethod(lambda: _lib.shim_now())
    reset = staticmethod(lambda: _lib.shim_reset())
    ops = staticmethod(lambda: _lib.shim_ops())
    fired = staticmethod(lambda: _lib.shim_fired())
    reads = staticmethod(lambda on: _lib.shim_reads(1 if on else 0))
    log = staticmethod(lambda fd: _lib.shim_log(fd))
    sched = staticmethod(lambda rd, wr, reads: _lib.shim_sched(rd, wr, reads))

    @staticmethod
    def arm(k, act, arg=0, persist=0):
        _lib.shim_arm(k, act, arg, persist)

    @staticmethod
    def vanish(src, dst):
        _lib.shim_vanish(os.fsencode(src), os.fsencode(dst))


# ------------------------------------------------- importing the real code

class _AtExit:
    """Collects what the program registers with atexit, so that "the process
    exits" can be an event of a history."""
    def __init__(self):
        self.funcs = []

    def register(self, func, *args, **kwargs):
        self.funcs.append((func, args, kwargs))
        return func

    def unregister(self, func):
        self.funcs = [x for x in self.funcs if x[0] != func]

    def run(self):
        while self.funcs:
            func, args, kwargs = self.funcs.pop()
            func(*args, **kwargs)


AT_EXIT = _AtExit()


class FakePyinotify(types.ModuleType):
    """Stand-in for pyinotify: the daemon's events come from the explorer."""
    IN_OPEN = 0x20
    IN_CREATE = 0x100
    IN_ACCESS = 0x1
    IN_MODIFY = 0x2
    IN_CLOSE_WRITE = 0x8
    IN_MOVED_TO = 0x80
    IN_ISDIR = 0x40000000


class Watch:
    """What a watch of a directory covers."""

    def __init__(self, path, mask, rec, auto_add):
        self.path = path.rstrip("/")
        self.mask, self.auto_add = mask, auto_add
        # The directories that there are already.
        self.present = {d for d, _, _ in os.walk(self.path)}
        self.known = self.present if rec else {self.path}

    def covers(self, directory, mask):
        """Whether events of files in a directory are seen."""
        if not self.mask & mask:
            return False
        d = directory
        while d not in self.known:
            if (not self.auto_add or d in self.present
                    or len(d) <= len(self.path)):
                return False
            d = os.path.dirname(d)
        return True


zielen = None


def import_program(repo):
    """Import zielen from repo with the harness's seams in place."""
    global zielen
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    fake = FakePyinotify("pyinotify")

    class WatchManager:
        instances = []

        def __init__(self, *a, **k):
            self.watches = []
            WatchManager.instances.append(self)

        def add_watch(self, path, mask, proc_fun=None, rec=False,
                      auto_add=False, do_glob=False, quiet=True,
                      exclude_filter=None):
            for p in [path] if isinstance(path, str) else path:
                self.watches.append(Watch(p, mask, rec, auto_add))

    class ThreadedNotifier:
        instances = []

        def __init__(self, wm, handler=None, *a, **k):
            self.handler = handler if handler is not None else k.get(
                "default_proc_fun")
            self.wm = wm
            self.daemon = False
            ThreadedNotifier.instances.append(self)

        def start(self):
            pass

        def stop(self):
            pass

    class ProcessEvent:
        def __init__(self, *a, **k):
            pass

        def __call__(self, event):
            self.process_default(event)

    class Notifier(ThreadedNotifier):
        pass

    fake.WatchManager = WatchManager
    fake.ThreadedNotifier = ThreadedNotifier
    fake.Notifier = Notifier
    fake.ProcessEvent = ProcessEvent
    sys.modules["pyinotify"] = fake

    atexit.register = AT_EXIT.register
    atexit.unregister = AT_EXIT.unregister
    import zielen as z
    import zielen.cli
    import zielen.daemon
    assert os.path.realpath(z.__file__).startswith(
        os.path.realpath(repo) + os.sep), z.__file__
    zielen = z
    # The version lookup walks the installed distributions on every init.
    import pkg_resources
    real = pkg_resources.get_distribution
    cache = {}

    def cached(name):
        if name not in cache:
            try:
                cache[name] = real(name)
            except Exception:
                cache[name] = types.SimpleNamespace(version="0")
        return cache[name]
    pkg_resources.get_distribution = cached
    return z


# ------------------------------------------------------------------ results

class Result:
    """How a command ended: kind is 'ok', 'error' (an anticipated error,
    reported and non-zero exit) or 'exc' (an uncaught exception)."""
    def __init__(self, kind, detail="", out="", err=""):
        self.kind, self.detail, self.out, self.err = kind, detail, out, err

    @property
    def ok(self):
        return self.kind == "ok"

    def __repr__(self):
        return "{}({})".format(self.kind, self.detail)


class Hang(BaseException):
    """A command of the program took longer than any reasonable time."""


def _on_alarm(signum, frame):
    raise Hang("still running after {} s".format(HANG_SECS))


HANG_SECS = 60


_real_connect = sqlite3.connect
_connections = None


DB_TIMEOUT = None            # how long to wait for a locked database


def _connect(*args, **kwargs):
    if DB_TIMEOUT is not None:
        kwargs["timeout"] = DB_TIMEOUT
    conn = _real_connect(*args, **kwargs)
    if _connections is not None:
        _connections.append(conn)
    return conn


sqlite3.connect = _connect


TTY = None                   # columns of the terminal, if there is one


class _Stdout(io.StringIO):
    """Like the real one, it can't print everything."""
    def isatty(self):
        return TTY is not None

    def write(self, text):
        text.encode("utf-8")
        return super().write(text)


def run_cli(argv, stdin=None):
    """Run the real command line in this process, then let it "exit"."""
    out, err = _Stdout(), io.StringIO()
    old_argv = sys.argv
    old_stdin = sys.stdin
    old_stdout = sys.stdout
    saved = [(s, signal.getsignal(s)) for s in (
        signal.SIGTERM, signal.SIGHUP, signal.SIGINT)]
    # The real program is a new process each time: nothing is cached.
    filecmp.clear_cache()
    sys.argv = ["zielen"] + list(argv)
    sys.stdin = io.StringIO(stdin if stdin is not None else "")
    AT_EXIT.funcs = []
    if TTY is not None:
        os.environ["COLUMNS"] = str(TTY)
    else:
        os.environ.pop("COLUMNS", None)
    global _connections
    _connections = []
    old_alarm = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(HANG_SECS)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                code = zielen.cli.main()
                res = (("ok", "") if not code
                       else ("error", err.getvalue().strip()))
            except SystemExit as e:
                res = (("ok", "") if not e.code else ("error", str(e.code)))
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if "/zielen/" in f.filename] or tb
                res = ("exc", "{}: {} [{} in {}]".format(
                    type(e).__name__, e, os.path.basename(where[-1].filename),
                    where[-1].name))
                e.__traceback__ = None
                del e
            AT_EXIT.run()
    finally:
        # The process ends.
        for conn in _connections:
            conn.close()
        _connections = None
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old_alarm)
        sys.argv = old_argv
        sys.stdin = old_stdin
        sys.stdout = old_stdout
        for s, h in saved:
            signal.signal(s, h)
    if res[0] != "ok":
        gc.collect()
    return Result(res[0], res[1], out.getvalue(), err.getvalue())


# -------------------------------------------------------------------- world

def lnode(path):
    """The node at path, not following links."""
    try:
        st = os.lstat(path)
    except (FileNotFoundError, NotADirectoryError):
        return None
    if stat.S_ISLNK(st.st_mode):
        return ("l", os.readlink(path))
    if stat.S_ISDIR(st.st_mode):
        return ("d",)
    with open(path, "rb") as f:
        return ("f", f.read())


def tree(root, skip=(".zielen",)):
    """{relative path: node} of everything below root."""
    out = {}

    def walk(d, rel):
        with os.scandir(d) as it:
            entries = list(it)
        for e in entries:
            r = rel + e.name
            if not rel and e.name in skip:
                continue
            if e.is_symlink():
                out[r] = ("l", os.readlink(e.path))
            elif e.is_dir():
                out[r] = ("d",)
                walk(e.path, r + "/")
            else:
                with open(e.path, "rb") as f:
                    out[r] = ("f", f.read())
    if os.path.isdir(root):
        walk(root, "")
    return out


def snapshot(root):
    snap = {}

    def walk(d, rel):
        with os.scandir(d) as it:
            entries = list(it)
        for e in entries:
            st = e.stat(follow_symlinks=False)
            r = rel + e.name
            if stat.S_ISLNK(st.st_mode):
                snap[r] = (1, os.readlink(e.path), st.st_mtime_ns)
            elif stat.S_ISDIR(st.st_mode):
                snap[r] = (2, stat.S_IMODE(st.st_mode), st.st_mtime_ns)
                walk(e.path, r + "/")
            else:
                with open(e.path, "rb") as f:
                    snap[r] = (
                        0, stat.S_IMODE(st.st_mode), st.st_mtime_ns, f.read())
    walk(root, "")
    return snap


def wipe(root):
    with os.scandir(root) as it:
        entries = list(it)
    for e in entries:
        if e.is_dir(follow_symlinks=False):
            try:
                shutil.rmtree(e.path)
            except PermissionError:
                for d, dirs, files in os.walk(e.path):
                    os.chmod(d, 0o755)
                shutil.rmtree(e.path)
        else:
            os.unlink(e.path)


def restore(root, snap):
    wipe(root)
    dirs = []
    for rel, v in snap.items():
        p = root + "/" + rel
        if v[0] == 2:
            os.mkdir(p)
            dirs.append((p, v))
        elif v[0] == 1:
            os.symlink(v[1], p)
            os.utime(p, ns=(v[2], v[2]), follow_symlinks=False)
        else:
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o644)
            os.write(fd, v[3])
            if v[1] != 0o644:
                os.fchmod(fd, v[1])
            os.utime(fd, ns=(v[2], v[2]))
            os.close(fd)
    for p, v in reversed(dirs):
        os.chmod(p, v[1])
        os.utime(p, ns=(v[2], v[2]))


class World:
    """One scratch universe: local directories L1, L2, remote directory R,
    the user's home.  All paths are relative to root."""

    def __init__(self, root, tag):
        self.root = root
        self.tag = tag
        self.seq = 0
        os.makedirs(root, exist_ok=True)
        Shim.root(root)
        os.environ["HOME"] = root + "/home"
        os.environ["XDG_CONFIG_HOME"] = root + "/home/.config"
        os.environ["TMPDIR"] = root + "/home"
        os.environ.pop("XDG_DATA_HOME", None)
        self.fresh()

    def fresh(self):
        Shim.reset()
        Shim.time(0.0)
        os.chdir(self.root)
        wipe(self.root)
        Shim.time(T0)
        self.pace = STEP
        os.makedirs(self.root + "/home/.config")
        os.chdir(self.root + "/home")

    # -- time
    def advance(self, secs=None):
        Shim.time(Shim.now() + (self.pace if secs is None else secs))

    def save(self):
        return (Shim.now(), snapshot(self.root), self.pace)

    def load(self, saved):
        Shim.reset()
        os.chdir("/")
        restore(self.root, saved[1])
        Shim.time(saved[0])
        self.pace = saved[2]
        os.chdir(self.root + "/home")

    def p(self, rel):
        return self.root + "/" + rel

    # -- profile names are unique per worker: profiles lock machine-wide
    def name(self, client):
        return "c{}-{}".format(client, self.tag)

    def profile_dir(self, client):
        return self.root + "/home/.config/zielen/profiles/" + self.name(client)

    def write_template(self, client, limit, local=None, remote=None,
                       **options):
        local = local or self.p("L{}".format(client))
        remote = remote or self.p("R")
        lines = ["LocalDir=" + local, "RemoteDir=" + remote,
                 "StorageLimit=" + limit]
        lines += ["{}={}".format(k, v) for k, v in options.items()]
        path = self.p("home/tpl{}".format(client))
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        return path

    def init(self, client, limit="1000KiB", add_remote=False, exclude=None,
             local=None, remote=None, **options):
        tpl = self.write_template(client, limit, local, remote, **options)
        argv = ["init", "-t", tpl]
        if exclude is not None:
            ex = self.p("home/ex{}".format(client))
            with open(ex, "w") as f:
                f.write("".join(line + "\n" for line in exclude))
            argv += ["-e", ex]
        if add_remote:
            argv.append("-a")
        argv.append(self.name(client))
        return run_cli(argv)

    def sync(self, client=1):
        return run_cli(["sync", self.name(client)])

    def set_exclude(self, client, lines):
        with open(self.profile_dir(client) + "/exclude", "w",
                  errors="surrogateescape") as f:
            f.write("".join(line + "\n" for line in lines))

    def set_config(self, client, **options):
        path = self.profile_dir(client) + "/config"
        with open(path) as f:
            lines = [x for x in f.read().splitlines()
                     if x.partition("=")[0] not in options]
        lines += ["{}={}".format(k, v) for k, v in options.items()]
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")

    # -- observations
    def local(self, client=1):
        """Raw local tree; links into the remote directory become ('r', rel)."""
        prefix = self.p("R") + "/"
        out = {}
        for path, node in tree(self.p("L{}".format(client)), ()).items():
            if node[0] == "l" and (node[1] + "/").startswith(prefix):
                out[path] = ("r", node[1][len(prefix):])
            else:
                out[path] = node
        return out

    def remote(self):
        return tree(self.p("R"))

    def view(self, client=1):
        """What the user sees locally: links to the remote are followed."""
        rem = self.remote()
        out = {}
        for path, node in self.local(client).items():
            if node[0] == "r":
                node = rem.get(node[1], ("broken", node[1]))
            out[path] = node
        return out

    def trash(self):
        return tree(self.p("R/.zielen/Trash"), ())

    # -- user operations
    def write(self, rel, data):
        path = self.p(rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)

    def rm(self, rel):
        path = self.p(rel)
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.unlink(path)


def forked(func, *args):
    """Run func in a child; return (exit status, None) or (0, result text)."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(rd)
            text = func(*args)
            os.write(wr, (text or "").encode(errors="backslashreplace"))
            code = 0
        except BaseException:
            try:
                os.write(wr, traceback.format_exc().encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(wr)
    chunks = []
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(rd)
    _, status = os.waitpid(pid, 0)
    code = (os.WEXITSTATUS(status) if os.WIFEXITED(status)
            else 1000 + os.WTERMSIG(status))
    return code, b"".join(chunks).decode("utf-8", "replace")

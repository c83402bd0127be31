"""Scratch worlds for the demonstrations: the real command line, run as an
unprivileged user on directories that are removed afterwards."""
import os
import pwd
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
UID = 61235
MAIN = """
import sys, types
m = types.ModuleType("pyinotify")
class C:
    def __init__(self, *a, **k): pass
m.ProcessEvent = m.WatchManager = m.Notifier = m.ThreadedNotifier = C
for n in ("IN_OPEN", "IN_CREATE", "IN_ACCESS", "IN_MODIFY", "IN_ISDIR"):
    setattr(m, n, 0)
sys.modules["pyinotify"] = m
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv.pop(1))
sys.argv[0] = "zielen"
HOOK = None
import zielen.cli
sys.exit(zielen.cli.main())
"""


def main(func):
    """Run func(world) unprivileged; exit 0 unless it raises."""
    root = tempfile.mkdtemp(prefix="zdemo")
    try:
        os.chmod(root, 0o777)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                if os.getuid() == 0:
                    os.setgroups([])
                    os.setgid(UID)
                    os.setuid(UID)
                func(World(root))
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        status = os.waitpid(pid, 0)[1]
    finally:
        shutil.rmtree(root, ignore_errors=True)
    sys.exit(0 if status == 0 else 1)


class Result:
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err


class World:
    def __init__(self, root):
        self.root = root
        self.tag = os.path.basename(root)
        os.makedirs(self.p("home/.config"))
        for d in ("L1", "L2", "R"):
            os.mkdir(self.p(d))
        self.env = {
            "HOME": self.p("home"), "XDG_CONFIG_HOME": self.p("home/.config"),
            "TMPDIR": self.p("home"), "PATH": os.environ["PATH"],
            "LANG": "C.UTF-8", "TZ": "UTC"}

    def p(self, rel):
        return os.path.join(self.root, rel)

    def name(self, client):
        return "c{}-{}".format(client, self.tag)

    def run(self, *args, main=MAIN, timeout=60, stdin=""):
        p = subprocess.run(
            [sys.executable, "-c", main, REPO] + list(args), env=self.env,
            cwd=self.p("home"), text=True, input=stdin, timeout=timeout,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return Result(p.returncode, p.stdout, p.stderr)

    def ok(self, *args, **k):
        r = self.run(*args, **k)
        assert r.code == 0, (args, r.out, r.err)
        return r

    def init(self, client=1, limit="1000KiB", add=False, exclude=None, **opts):
        tpl = self.p("home/tpl{}".format(client))
        with open(tpl, "w") as f:
            f.write("LocalDir={}\nRemoteDir={}\nStorageLimit={}\n".format(
                self.p("L{}".format(client)), self.p("R"), limit))
            for k, v in opts.items():
                f.write("{}={}\n".format(k, v))
        args = ["init", "-t", tpl]
        if exclude is not None:
            with open(self.p("home/ex"), "w") as f:
                f.write("".join(x + "\n" for x in exclude))
            args += ["-e", self.p("home/ex")]
        if add:
            args.append("-a")
        return self.ok(*args, self.name(client))

    def sync(self, client=1):
        return self.ok("sync", self.name(client))

    def profile_dir(self, client=1):
        return self.p("home/.config/zielen/profiles/" + self.name(client))

    def write(self, rel, text, mtime=None):
        path = self.p(rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.islink(path):
            os.remove(path)
        with open(path, "w") as f:
            f.write(text)
        if mtime is not None:
            os.utime(path, (mtime, mtime))

    def read(self, rel):
        with open(self.p(rel)) as f:
            return f.read()

    def exists(self, rel):
        return os.path.lexists(self.p(rel))

    def contents(self, rel):
        """All contents of files below a directory."""
        out = []
        for d, dirs, files in os.walk(self.p(rel)):
            for x in files:
                full = os.path.join(d, x)
                if os.path.isfile(full) and not full.endswith((
                        ".db", "info.json")):
                    with open(full, errors="replace") as f:
                        out.append(f.read())
        return out

"""Exploration of the two databases, against a plain tree of paths (C13, C14).

A state is the bytes of the database file, so that every operation is one that
a newly started program does. Hash collisions are forced by choosing the hashes
of the paths."""
import hashlib
import itertools
import os
import sqlite3

import core

PATHS = ["a", "b", "d", "d/a", "d/e", "d/e/f"]
real_sha256 = hashlib.sha256
T = 1000.0


class Hashes:
    """Makes the hashes of some paths equal."""
    groups = {}

    class Fake:
        def __init__(self, data=b""):
            self.data = bytes(data)

        def update(self, data):
            self.data += bytes(data)

        def digest(self):
            return real_sha256(Hashes.groups.get(self.data, self.data)
                               ).digest()

        def hexdigest(self):
            return self.digest().hex()

    @classmethod
    def choose(cls, groups):
        cls.groups = {p.encode(): g[0].encode() for g in groups for p in g}
        hashlib.sha256 = cls.Fake


def parent(p):
    return p.rpartition("/")[0]


def ancestors(p):
    out = []
    while "/" in p:
        p = parent(p)
        out.append(p)
    return out


class Tree:
    """What the database is to contain: {path: [directory, value, local]}."""

    def __init__(self, nodes=None, local=True):
        self.nodes = {p: list(v) for p, v in (nodes or {}).items()}
        self.sums = local        # is this the local database?

    def children(self, p):
        return [q for q in self.nodes if parent(q) == p]

    def add(self, files, dirs, value, local=True):
        new = sorted((set(files) | set(dirs)) - set(self.nodes))
        for p in new:
            self.nodes[p] = [p in dirs, value, local]
        for p in set(files) | set(dirs):
            if parent(p):
                self.nodes[parent(p)][0] = True
        self.sum_up(set(files) | set(dirs))

    def rm(self, paths):
        for p in paths:
            self.nodes = {q: v for q, v in self.nodes.items()
                          if q != p and not q.startswith(p + "/")}
        self.sum_up(paths)

    def sum_up(self, paths):
        if not self.sums:
            return
        up = {q for p in paths for q in ancestors(p) if q in self.nodes}
        for q in sorted(up, key=lambda x: -x.count("/")):
            below = [self.nodes[c] for c in self.children(q)]
            self.nodes[q][1] = sum(v[1] for v in below)
            self.nodes[q][2] = bool(below) and all(v[2] for v in below)

    def under(self, root):
        return {p: v for p, v in self.nodes.items()
                if root is None or p == root or p.startswith(root + "/")}

    def key(self):
        return tuple((p, v[0], round(v[1], 6), v[2])
                     for p, v in sorted(self.nodes.items()))


class Step:
    """An operation on the database and on the tree; it's only done if the
    paths in 'needs' are there."""

    def __init__(self, label, needs, on_db, on_tree):
        self.label, self.needs = label, needs
        self.on_db, self.on_tree = on_db, on_tree

    def __repr__(self):
        return self.label


MANY = 24


def many(paths):
    """A scaled up version of some paths: every path that is always a file
    stands for many of them, more than there are in a batch of results."""
    return [q for p in paths for q in (
        [p + str(n) for n in range(MANY)]
        if p in ("a", "b", "d/a", "d/e/f", "x") else [p])]


def adds(values, local, scale=list):
    """What is added: the paths' parents must be there or be added, too."""
    out = []
    batches = [(["a"], []), (["b", "a"], []), ([], ["d"]), (["d"], []),
               (["d/a"], ["d"]), (["d/a"], []), ([], ["d/e"]),
               (["d/e/f"], ["d/e", "d"]), (["d/e/f"], []),
               (["d/e/f", "d/a", "a"], ["d", "d/e"]),
               (["a", "b", "d/a", "d/e"], ["d"])]
    for n, (files, dirs) in enumerate(batches):
        both = set(files) | set(dirs)
        needs = sorted({parent(p) for p in both if parent(p)} - both)
        for k, (value, loc) in enumerate(
                (v, x) for v in values for x in (local or [None])):
            if k and n % 3:
                continue
            out.append((scale(files), scale(dirs), scale(needs), value, loc))
    return out


def local_steps(scale=list):
    out = []
    for files, dirs, needs, value, loc in adds([0, 3], [True, False], scale):
        out.append(Step(
            "add {} {} priority={} local={}".format(files, dirs, value, loc),
            needs,
            lambda db, f=files, d=dirs, v=value, x=loc: db.add_paths(
                f, d, priority=v, local=x),
            lambda t, f=files, d=dirs, v=value, x=loc: t.add(f, d, v, x)))
    for files, dirs in ((["a"], []), (["d/a"], ["d"]), ([], ["d"])):
        files, dirs = scale(files), scale(dirs)

        def inflated(t, f=files, d=dirs):
            t.add(f, d, max([v[1] for v in t.nodes.values() if not v[0]]
                            or [0]))
        out.append(Step(
            "add inflated {} {}".format(files, dirs), [],
            lambda db, f=files, d=dirs: db.add_inflated(f, d), inflated))

    def setter(paths, index, func):
        def f(t):
            for p in paths:
                if p in t.nodes:
                    t.nodes[p][index] = func(t.nodes[p][index])
            t.sum_up(paths)
        return f
    for paths in map(scale, (["a"], ["d/a"], ["a", "d/e/f"])):
        out.append(Step("priority of {} = 5".format(paths), paths,
                        lambda db, p=paths: db.update_paths(p, priority=5),
                        setter(paths, 1, lambda v: 5)))
    for paths in map(scale, (["a"], ["d/a"], ["d/e/f"],
                             ["d", "d/a", "d/e", "d/e/f"])):
        for x in (True, False):
            out.append(Step(
                "local of {} = {}".format(paths, x), paths,
                lambda db, p=paths, x=x: db.update_paths(p, local=x),
                setter(paths, 2, lambda v, x=x: x)))
    for paths in map(scale, (["a"], ["d/a", "a"], ["d/e/f"], ["a", "a"],
                             ["b", "x"])):
        out.append(Step("increment {}".format(paths),
                        [p for p in paths if p[0] != "x"],
                        lambda db, p=paths: db.increment(p, 2),
                        setter(paths, 1, lambda v: v + 2)))

    def halve(t):
        for v in t.nodes.values():
            v[1] *= 0.5
    out.append(Step("adjust", [], lambda db: db.adjust_all(0.5), halve))
    return out + removals(scale)


def removals(scale):
    return [Step("rm {}".format(paths), [],
                 lambda db, p=paths: db.rm_paths(p),
                 lambda t, p=paths: t.rm(p))
            for paths in map(scale, (
                ["a"], ["d"], ["d/e"], ["d/a"], ["d", "d/a"],
                ["d/a", "d/e/f"], ["x"], []))]


def remote_steps(scale=list):
    out = []
    for files, dirs, needs, value, _ in adds([T, T + 1], None, scale):
        out.append(Step(
            "add {} {} lastsync={}".format(files, dirs, value), needs,
            lambda db, f=files, d=dirs, v=value: db.add_paths(
                f, d, lastsync=v),
            lambda t, f=files, d=dirs, v=value: t.add(f, d, v, None)))
    for paths in map(scale, (["a"], ["d/a", "a"], ["d"], ["x"],
                             ["d/e/f", "d/e", "d"])):
        for value in (T, T + 2):
            def update(t, p=paths, v=value):
                for q in p:
                    if q in t.nodes:
                        t.nodes[q][1] = v
            out.append(Step(
                "lastsync of {} = {}".format(paths, value), [],
                lambda db, p=paths, v=value: db.update_paths(p, lastsync=v),
                update))
    return out + removals(scale)


PAIRS = [("a", "b"), ("a", "d"), ("d", "d/a"), ("d/a", "d/e/f"),
         ("d", "d/e")]


def groupings(tier):
    """Sets of paths whose hashes are equal."""
    out = [[]]
    for pair in itertools.combinations(PATHS, 2):
        if tier == "thorough" or pair in PAIRS:
            out.append([list(pair)])
    out.append([["a", "d"], ["d/a", "d/e"]])
    out.append([["a", "b", "d", "d/a", "d/e", "d/e/f"]])
    if tier == "thorough":
        out += [[list(g)] for g in itertools.combinations(PATHS, 3)]
        for g in itertools.combinations(PATHS, 4):
            out += [[[g[0], g[i]], [x for j, x in enumerate(g)
                                    if j not in (0, i)]] for i in (1, 2, 3)]
    return out


class Explorer:
    def __init__(self, ctx, make, steps, is_local, scale=list):
        self.paths = scale(PATHS + ["x", "d/x"])
        self.ctx, self.make, self.steps = ctx, make, steps
        self.is_local = is_local
        self.path = ctx.world.p("home/db")

    def put(self, data):
        for suffix in ("", "-wal", "-shm", "-journal"):
            try:
                os.remove(self.path + suffix)
            except FileNotFoundError:
                pass
        if data is not None:
            with open(self.path, "wb") as f:
                f.write(data)

    def get(self):
        for suffix in ("-wal", "-journal"):
            if os.path.exists(self.path + suffix) and os.path.getsize(
                    self.path + suffix):
                self.ctx.fail("harness", "unsaved data in " + suffix)
        with open(self.path, "rb") as f:
            return f.read()

    def explore(self, groups, first, depth):
        ctx = self.ctx
        Hashes.choose(groups)
        self.put(None)
        db = self.make(self.path)
        db.create()
        db.commit()
        db.close()
        start = (self.get(), Tree(local=self.is_local), [])
        frontier = [start]
        seen = set()
        for level in range(depth):
            following = []
            for data, tree, trail in frontier:
                ctx.check_time()
                todo = self.steps
                if level == 0:
                    todo = [self.steps[first]]
                for step in todo:
                    if any(p not in tree.nodes for p in step.needs):
                        continue
                    new = self.one(data, tree, trail, step, groups,
                                   level + 1 < depth or level == 0)
                    key = new[1].key() + (new[3],)
                    ctx.state((groups, key))
                    if key not in seen:
                        seen.add(key)
                        following.append(new[:3])
            frontier = following

    def one(self, data, tree, trail, step, groups, again):
        ctx = self.ctx
        self.put(data)
        tree = Tree(tree.nodes, self.is_local)
        step.on_tree(tree)
        trail = trail + [step]
        title = "colliding {}: {}".format(groups, trail)
        try:
            db = self.make(self.path)
            if again:
                db.lock()
            step.on_db(db)
            if again:
                self.compare(db, tree, title + " (uncommitted)")
                # Others must not see it before it is committed, and nobody
                # if it never is.
                other = self.make(self.path)
                self.compare(other, trail_tree(trail[:-1], self.is_local),
                             title + " (seen by others)")
                other.close()
                db.close()
                db = self.make(self.path)
                self.compare(db, trail_tree(trail[:-1], self.is_local),
                             title + " (rolled back)")
                step.on_db(db)
            db.commit()
            db.close()
            db = self.make(self.path)
            self.compare(db, tree, title)
            db.close()
        except (sqlite3.Error, KeyError, TypeError, ValueError,
                AttributeError) as e:
            ctx.fail("error", "{!r}\n{}".format(e, title))
        ctx.stats["transitions"] += 1
        ctx.stats["traces"] += 1
        ctx.outcomes[step.label.split()[0]] += 1
        ctx.sample(title, 2)
        data = self.get()
        with_salt = rows(self.path)
        return data, tree, trail, with_salt

    def compare(self, db, tree, title):
        """Every query must give the answer that the tree gives."""
        def same(found, expected, query):
            found = {p: self.values(d) for p, d in found.items()}
            expected = {p: self.expected(v) for p, v in expected.items()}
            if found != expected:
                self.ctx.fail("query", "{}: expected {}, found {}\n{}".format(
                    query, expected, found, title))
        same(db.get_paths(), tree.nodes, "all")
        for p in self.paths:
            same(db.get_paths(root=p), tree.under(p) if p in tree.nodes
                 else {}, "under {}".format(p))
            one = db.get_path_info(p)
            same({} if one is None else {p: one},
                 {p: tree.nodes[p]} if p in tree.nodes else {},
                 "info of {}".format(p))
        for directory in (None, True, False):
            for root in (None, "d"):
                base = {p: v for p, v in tree.under(root).items()
                        if directory is None or v[0] == directory}
                if root and root not in tree.nodes:
                    base = {}
                if self.is_local:
                    for local in (None, True, False):
                        same(db.get_paths(root=root, directory=directory,
                                          local=local),
                             {p: v for p, v in base.items()
                              if local is None or v[2] == local},
                             "root={} directory={} local={}".format(
                                 root, directory, local))
                else:
                    for t in (T - 1, T, T + 0.5, T + 1, T + 2):
                        same(db.get_paths(root=root, directory=directory,
                                          min_lastsync=t),
                             {p: v for p, v in base.items() if v[1] > t},
                             "root={} directory={} min_lastsync={}".format(
                                 root, directory, t))

    def values(self, d):
        if self.is_local:
            return (bool(d.directory), round(d.priority, 6), bool(d.local))
        return (bool(d.directory), d.lastsync)

    def expected(self, v):
        if self.is_local:
            return (bool(v[0]), round(v[1], 6), bool(v[2]))
        return (bool(v[0]), v[1])


def trail_tree(trail, is_local):
    t = Tree(local=is_local)
    for s in trail:
        s.on_tree(t)
    return t


def rows(path):
    """How many rows the tables have, which the queries don't show."""
    conn = sqlite3.connect(path)
    try:
        tables = [r[0] for r in conn.execute(
            "SELECT name FROM sqlite_master WHERE type = 'table'")]
        return tuple(sorted(
            (t, conn.execute("SELECT COUNT(*) FROM {}".format(t)).fetchone()[0])
            for t in tables))
    finally:
        conn.close()

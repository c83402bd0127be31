"""C13: the local database is a tree of paths, whatever their hashes."""
import core
import dblib

ID = "C13"
LEVEL = "model_checking"
RULE = ("every sequence of operations on the database up to the depth, "
        "continued once from each distinct state, for every set of paths "
        "whose hashes collide, and with many files in the "
        "place of each; all queries after each operation, before and "
        "after it is committed, from another connection and after a roll "
        "back. Distinct states are (collisions, contents, rows in tables)")
ASSUMPTIONS = ["paths are added with or after their parent directory",
               "values of directories are set with those of all files in it"]
STEPS = dblib.local_steps()
LARGE = dblib.local_steps(dblib.many)
LARGE_GROUPS = [[], [dblib.many(["a", "d", "d/a"])]]


def depth(tier, groups):
    if tier == "thorough":
        return 5 if len(groups) == 0 else 4
    return 3


def large_depth(tier):
    return 3 if tier == "thorough" else 2


def bound(tier):
    return (
        "{} operations, {} sets of colliding paths, depth {}; with {} files in "
        "the place of each, with or without collisions, depth {}".format(
            len(STEPS), len(dblib.groupings(tier)),
            sorted({depth(tier, g) for g in dblib.groupings(tier)}),
            dblib.MANY, large_depth(tier)))


def jobs(tier):
    return [[g, s] for g in range(len(dblib.groupings(tier)))
            for s in range(len(STEPS))] + [
                ["large", s, g] for s in range(len(LARGE))
                for g in range(len(LARGE_GROUPS))]


def setup(ctx):
    ctx.world.fresh()


def run(ctx, job):
    make = core.zielen.profile.ProfileDBFile
    if job[0] == "large":
        ex = dblib.Explorer(ctx, make, LARGE, True, dblib.many)
        ex.explore(LARGE_GROUPS[job[2]], job[1], large_depth(ctx.tier))
        return
    groups = dblib.groupings(ctx.tier)[job[0]]
    ex = dblib.Explorer(ctx, make, STEPS, True)
    ex.explore(groups, job[1], depth(ctx.tier, groups))

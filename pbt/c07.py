"""A run ends when, and only when, all work is done."""
from . import faults, many, scarce

ID = "C07"
WORKERS = 16
EXAMPLES = {"quick": 3500, "thorough": 80000}
RULE = ("a case is a network of up to 3 sources, up to 6 components in between and any number of receivers, among them sources, programs and "
        "destinations which cannot be opened, started, read or written, programs which end, close or are killed at any time, and some which go "
        "on for a while after everything else is done; every 60th has up to 60 parts most of which fail; every 25th is a network without failures run with few file descriptors; non-trivial: something failed or closed early")
ASSUMPTIONS = ["a run is taken to hang when for 25 seconds nothing in it ran, grew or changed"]


def strategy(tier):
    return scarce.seldom(many.seldom(faults.case("loose", most=6), 60), 25)


def run(case, ctx):
    if "units" in case:
        return many.run(case, ctx)
    if "fds" in case:
        return scarce.run(case, ctx)
    o = faults.run(case, ctx)
    faults.judge_programs(case, o)
    faults.judge_status(case, o)
    faults.judge_data(case, o, ctx)
    return faults.nontrivial(case, o, ctx)

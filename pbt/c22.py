"""Error reports name what failed."""
from . import faults, many
from .fw import Inconclusive

ID = "C22"
WORKERS = 16
EXAMPLES = {"quick": 2600, "thorough": 60000}
RULE = ("a case is a network of up to 3 sources, up to 5 components in between and any number of receivers, among them sources, programs and "
        "destinations which cannot be opened, started, read or written, and programs which close their input early; sources go on until all "
        "that must be closed is closed; every 40th has up to 60 parts most of which fail; non-trivial: something failed or closed early")
ASSUMPTIONS = ["a program with several closed connections reports one of them"]


def strategy(tier):
    return many.seldom(faults.case("paced"), 40)


def run(case, ctx):
    if "units" in case:
        return many.run(case, ctx)
    o = faults.run(case, ctx)
    if o.limit:
        raise Inconclusive("a sender was not told")
    faults.judge_status(case, o)
    faults.judge_report(case, o, ctx)
    return faults.nontrivial(case, o, ctx)

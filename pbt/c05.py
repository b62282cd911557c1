"""Connections of kind T, F and C whose receiver closes early."""
from . import faults

ID = "C05"
WORKERS = 16
EXAMPLES = {"quick": 2600, "thorough": 60000}
RULE = ("a case is a network of up to 3 sources, up to 5 components in between and any number of receivers, among them programs which close "
        "their input at some time (by ending, closing it, or being killed), with every kind of connection anywhere; sources go on until all that "
        "must be closed is closed; non-trivial: something in the network closed early")
ASSUMPTIONS = ["a sender has 20 seconds, during which it writes all the time, to be told", "a sender sees that a connection is closed when it sends, not before"]


def strategy(tier):
    return faults.case("paced", own=False)


def run(case, ctx):
    o = faults.run(case, ctx)
    faults.judge_told(case, o, ctx)
    faults.judge_status(case, o)
    faults.judge_data(case, o, ctx)
    return faults.nontrivial(case, o, ctx)

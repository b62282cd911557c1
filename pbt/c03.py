"""Fan-out copies and fan-in merges whole messages, exactly once."""
from hypothesis import strategies as st
from . import nets

ID = "C03"
WORKERS = 16
EXAMPLES = {"quick": 2600, "thorough": 100000}
RULE = ("a case is an acyclic network of up to about ten components with several inputs and outputs per component, and data for every source; "
        "with up to three more programs which close their input early, or (every 40th) one with up to 40 inputs and outputs or a long way; non-trivial: there is a fan-in or fan-out and at least one message passes")
ASSUMPTIONS = ["programs copy their input as it is (they may read and write it in odd pieces), so tokens can be found again in each drain"]


# Closes its input early, but is never the only one which gets what it gets
leaver = st.fixed_dictionaries({"at": st.integers(0, 60), "how": st.sampled_from(["x", "x", "ci", "k"]), "n": st.sampled_from([0, 1, 5, 200, 3000]),
                                "brk": st.sampled_from(["finish", "consume"])})


def strategy(tier):
    n = nets.net(max_nodes=8 if tier == "quick" else 12)
    s = st.tuples(n, st.one_of(st.just([]), st.lists(leaver, max_size=3))).map(with_leavers)
    return nets.seldom_wide(s)


def with_leavers(t):
    case, leavers = t
    names = {n["name"] for n in case["nodes"]}
    for i, l in enumerate(leavers):
        ports = sorted({(e[0], e[1]) for e in case["edges"] if e[1] != "exit"})
        if not ports:
            break
        u, p = ports[l["at"] % len(ports)]
        v = len(case["nodes"])
        # The name decides which of the connections comes first
        name = ["a", "zz"][l["at"] & 1] + "leaver%d" % i
        if name in names:
            continue
        case["nodes"].append({"t": "launch", "name": name, "op": "leave", "how": l["how"], "n": l["n"], "o": None, "e": None, "end": 0, "us": 0, "sizes": "0"})
        case["edges"].insert(l["at"] % (len(case["edges"]) + 1), [u, p, v, 0, l["brk"]])
    return case


def run(case, ctx):
    cfg, stdin = nets.config(case, ctx)
    r = ctx.process(text(cfg, case), stdin=stdin, fmt=case["fmt"])
    nets.check_run(case, ctx, r)
    l = nets.note(case, ctx)
    if any(n.get("op") == "leave" for n in case["nodes"]):
        ctx.note("with an output which closes early")
    return any(x.startswith("fan") for x in l) and "data none" not in l


def text(cfg, case):
    from . import confgen as cg
    return cg.text_of(cfg, case["fmt"])

"""Junction priorities: what is taken when, given what certainly waits."""
import os, time
from collections import Counter
from hypothesis import strategies as st
from . import confgen as cg, gen
from .fw import Violation, Inconclusive, short, snapshot

ID = "C04"
DRIVER = True
WORKERS = 12
EXAMPLES = {"quick": 9000, "thorough": 300000}
RULE = ("a case is a history of arrivals, ends and receipts at a junction with 2 to 6 inputs of any priorities (or a whole network in which "
        "sources wait for a stalled consumer), in which the first output only moves when the script reads it; non-trivial: two inputs at "
        "least are non-empty and the rules decided the order of at least one message")
ASSUMPTIONS = ["with an output of capacity S, the junction takes message k (from 0) only after k - S messages were received from it"]

PRIOS = [0, 0, 0, 1, 1, 2, -1, -1, 5, 10, 9, 100, -100, 2**31, -2**31, 2**63 - 1, -2**63]


@st.composite
def script_case(draw):
    n = draw(st.integers(2, 6))
    if draw(gen.rare(50)):
        n = draw(st.sampled_from([8, 9, 17, 33]))
    pool = draw(st.lists(st.sampled_from(PRIOS), min_size=1, max_size=3))
    inputs = [draw(st.sampled_from(pool)) for _ in range(n)]
    size = draw(st.sampled_from([1, 1, 2, 3, 8]))
    script, m = [], [0]
    closed = set()

    def send(i, k):
        if i not in closed:
            for _ in range(k):
                script.append(["send", i, m[0]])
                m[0] += 1

    if draw(st.booleans()):
        # Nothing moves until everything has arrived
        send(draw(st.integers(0, n - 1)), size + 2)
        script.append(["settle", 3])
    for _ in range(draw(st.integers(1, 5))):
        for _ in range(draw(st.integers(1, 8))):
            send(draw(st.integers(0, n - 1)), draw(st.sampled_from([1, 1, 1, 2, 3, 6])))
        if draw(st.integers(0, 3)) == 0:
            i = draw(st.integers(0, n - 1))
            if i not in closed:
                closed.add(i)
                script.append(["close", i])
        if draw(st.integers(0, 7)) == 0:
            script.append(["settle", draw(st.sampled_from([1, 3, 8]))])
        sent = m[0]
        got = sum(1 for o in script if o[0] == "recv")
        k = draw(st.integers(0, sent - got)) if sent > got else 0
        script += [["recv"]] * k
    got = sum(1 for o in script if o[0] == "recv")
    # Read the rest one by one, so that it is known what had been received when
    script += [["recv"]] * (m[0] - got)
    outs = draw(st.lists(st.sampled_from("TFC"), min_size=1, max_size=3))
    return {"how": "script", "inputs": inputs, "size": size, "outputs": outs, "script": script}


@st.composite
def net_case(draw):
    n = draw(st.integers(4, 6))
    pool = draw(st.lists(st.sampled_from(PRIOS), min_size=1, max_size=3))
    return {"how": "net", "inputs": [draw(st.sampled_from(pool)) for _ in range(n)], "counts": [draw(st.integers(7, 8)) for _ in range(n)],
            "fill": draw(st.sampled_from([0, 0, 5, 12])), "order": draw(st.integers(0, 5)), "names": draw(st.permutations(list("abcdef"))),
            "kinds": [draw(st.sampled_from(["direct", "direct", "regulator"])) for _ in range(n)]}


def strategy(tier):
    s = script_case()
    return st.integers(0, 39).flatmap(lambda x: net_case() if x == 0 else s)


def run(case, ctx):
    return run_script(case, ctx) if case["how"] == "script" else run_net(case, ctx)


def run_script(case, ctx):
    r = ctx.driver({"cmd": "junction", "inputs": case["inputs"], "outputs": case["outputs"], "size": case["size"], "script": case["script"]})
    if r["stuck"] or not isinstance(r["result"], dict) or "ok" not in r["result"]:
        raise Violation("the junction ended with %s" % short(r["result"]))
    inputs, S = case["inputs"], case["size"]
    sent = {}
    recvs = 0
    for op in case["script"]:
        if op[0] == "send":
            # sent before recv number `recvs` (from 0)
            sent[op[2]] = (op[1], recvs)
        elif op[0] == "recv":
            recvs += 1
    got = r["got"][0]
    for i, g in enumerate(r["got"]):
        if g != got:
            raise Violation("outputs differ: %s and %s" % (short(got), short(g)))
    if Counter(got) != Counter(sent.keys()):
        raise Violation("received %s, sent %s" % (short(got), short(sorted(sent))))
    decided = check_order(got, sent, inputs, S)
    ctx.note("script", "%d inputs" % len(inputs), "priorities %s" % ("equal" if len(set(inputs)) == 1 else "all different" if len(set(inputs)) == len(inputs) else "mixed"),
             "capacity %d" % S, "decided %s" % ("0" if not decided else "< 10" if decided < 10 else "10 and more"))
    return decided > 0


def check_order(got, sent, inputs, S, certain=None):
    """sent: message -> (input, number of receipts before it was sent). Returns how often the rules said something."""
    decided = 0
    pos = {}
    per = {}
    for k, m in enumerate(got):
        i = sent[m][0]
        if per.get(i, -1) > m:
            raise Violation("message %d of input %d after %d" % (m, i, per[i]))
        per[i] = m
        pos[m] = k
    group = Counter(inputs)
    queue = {i: [m for m in sorted(sent) if sent[m][0] == i] for i in range(len(inputs))}
    # At position k of group size g the round may have begun at k - (g - 1), which is after receipt k - (g - 1) - S
    for k, m in enumerate(got):
        i = sent[m][0]
        p = inputs[i]
        before = k - (group[p] - 1) - S
        for j, q in enumerate(inputs):
            if q < p:
                for w in queue[j]:
                    if sent[w][1] >= before:
                        break
                    if pos[w] > k:
                        raise Violation("message %d of input %d (priority %d) taken at %d, before message %d of input %d (priority %d) which waited since receipt %d; order %s" % (
                            m, i, p, k, w, j, q, sent[w][1], short([sent[x][0] for x in got])))
                if queue[j] and pos[queue[j][-1]] > 0:
                    decided += 1
    # Between two messages from one input every input of the same priority, which has something waiting, gets its turn
    last = {}
    for k, m in enumerate(got):
        i = sent[m][0]
        if i in last:
            k1 = last[i]
            for j, q in enumerate(inputs):
                if j == i or q != inputs[i]:
                    continue
                waiting = [w for w in queue[j] if sent[w][1] < k1 - S and pos[w] > k1]
                if waiting:
                    decided += 1
                    if not any(k1 < pos[w] < k for w in waiting):
                        raise Violation("input %d got two turns (at %d and %d) while message %d of input %d, of the same priority, waited since receipt %d; order %s" % (
                            i, k1, k, waiting[0], j, sent[waiting[0]][1], short([sent[x][0] for x in got])))
        last[i] = k
    return decided


# ---------------------------------------------------------------------------------------------- a whole network

BIG = 30000


def run_net(case, ctx):
    """Sources of at most 8 messages wait in front of a junction, the consumer of which has stalled. (No buffers, which may be
    asleep for some seconds before they pass on what has arrived.)"""
    cfg = {"faucet": {}, "connection": {}, "drain": {"d": {"destination": ctx.path("out")}},
           "launch": {"c": {"cmd": ctx.hp, "arg": ["wait:" + ctx.path("go"), "cat::0"]}}}
    conns = []
    for i, p in enumerate(case["inputs"]):
        nm = case["names"][i]
        b = b"".join(b"%d.%d %s\n" % (i, k, b"v" * BIG) for k in range(case["counts"][i]))
        cfg["faucet"][nm] = {"source": ctx.write("src%d" % i, b)}
        mid = {"direct": "", "regulator": "r:%s | " % nm}[case["kinds"][i]]
        if mid.startswith("r"):
            cfg.setdefault("regulator", {})[nm] = {}
        conns.append("f:%s | %s[%d]j:j" % (nm, mid, p))
    if case["fill"]:
        b = b"".join(b"9.%d %s\n" % (k, b"f" * BIG) for k in range(case["fill"]))
        cfg["faucet"]["z"] = {"source": ctx.write("fill", b)}
        conns.append("f:z | [%d]j:j" % -2**63)
    conns.append("j:j | l:c | d:d")
    k = case["order"]
    conns = conns[k % len(conns):] + conns[:k % len(conns)]
    cfg["connection"] = {"k%d" % i: c for i, c in enumerate(conns)}
    ctx.write("pa2.cfg", cg.text_of(cfg, "json"))
    p = ctx.spawn(["process", "--config", ctx.path("pa2.cfg"), "--format", "json"])
    ok = settle(p, sum(os.path.getsize(f["source"]) for f in cfg["faucet"].values()))
    ctx.write("go", b"")
    r = ctx.wait(p)
    if r.rc != 0:
        raise Violation("status %d, %s" % (r.rc, short(r.err)))
    order = []
    for l in ctx.read("out").split(b"\n")[:-1]:
        h = l[:l.index(b" ")].split(b".")
        order.append((int(h[0]), int(h[1])))
    want = Counter((i, k) for i, c in enumerate(case["counts"]) for k in range(c)) + Counter((9, k) for k in range(case["fill"]))
    if Counter(order) != want:
        raise Violation("received %s" % short(order))
    if not ok:
        raise Inconclusive("the network did not come to rest while its consumer waited")
    # Twice (a junction of its own and one for the many inputs) 8 in the channel and one being sent, at most 64 K in the pipe, one
    # being written; and some more, as nothing says that there may not be another component
    free = 2 * 9 + 65536 // BIG + 1 + 3
    group = Counter(case["inputs"])
    decided = 0
    rest = [x for x in order[free:] if x[0] != 9]
    for a in range(len(rest)):
        # Within a round which had begun a message of the same priority may precede
        for b in range(a + 1, len(rest)):
            pa, pb = case["inputs"][rest[a][0]], case["inputs"][rest[b][0]]
            if pb < pa and a >= group[pa]:
                raise Violation("priority %d before %d although both waited: order %s, priorities %s" % (pa, pb, order, case["inputs"]))
            decided += pb > pa
    turns = {}
    for k, (i, _) in enumerate(rest):
        if i in turns:
            for j, q in enumerate(case["inputs"]):
                if j != i and q == case["inputs"][i] and any(x[0] == j for x in rest[k:]) and not any(x[0] == j for x in rest[turns[i]:k]):
                    raise Violation("input %d got two turns while input %d of the same priority waited: order %s, priorities %s" % (i, j, order, case["inputs"]))
        turns[i] = k
    ctx.note("network", "network, priorities decide" if decided else "network, only turns")
    return decided > 0


def settle(p, size, need=4):
    """All sources have been read, and everything is asleep, and uses no processor time, for some time."""
    last, same = None, 0
    for _ in range(400):
        time.sleep(0.025)
        asleep, _ = snapshot(p.pid)
        try:
            with open("/proc/%d/io" % p.pid) as f:
                io = f.read()
        except OSError:
            io = ""
        with open("/proc/%d/stat" % p.pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        sig = (s[11], s[12], io)
        done = io and int(io.split("rchar:")[1].split()[0]) >= size
        same = same + 1 if asleep and done and sig == last else 0
        last = sig
        if same >= need:
            return True
    return False

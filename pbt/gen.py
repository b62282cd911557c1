"""Strategies shared by the checks."""
import re
from hypothesis import strategies as st

TYPES = ["faucet", "drain", "regulator", "junction", "buffer", "launch"]
LETTER = {t: t[0] for t in TYPES}
PORTS = {"O": "out", "E": "err", "X": "exit"}
BRK = {"T": "terminate", "F": "finish", "C": "consume"}
NAME_CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


def rare(one_in):
    return st.integers(0, one_in - 1).map(lambda x: x == one_in // 2)


short_ident = st.one_of(
    st.sampled_from(["a", "b", "x", "in", "out", "A", "a1", "_", "0", "7up", "f", "d", "faucet", "drain", "junction_0", "junction_1",
                     "dyn_drain_0", "T", "E", "C", "node", "graph", "subgraph", "edge", "digraph", "strict", "legend"]),
    st.text(NAME_CHARS, min_size=1, max_size=8))
ident = rare(60).flatmap(lambda x: st.tuples(short_ident, st.sampled_from([9, 32, 64, 255, 256, 1000])).map(lambda t: (t[0] * t[1])[:t[1]]) if x else short_ident)

priority = st.one_of(st.sampled_from([0, 1, 2, -1, 5, 9, 10, 255, -255, 2**31, -2**31, 2**63 - 1, -2**63]), st.integers(-1000, 1000))

# -- the reference reading of a JoinString

_T = "(?:faucet|drain|regulator|junction|buffer|launch|[fdrjbl])"
_N = "[A-Za-z0-9_]+"
_PR = r"(?:\[-?[0-9]+\])"
_PO = r"(?:\[[EOX]\])"
_PI = r" *\|(?:[TCF]\|)? *"
_FULL = re.compile("%s:%s%s?(?:%s%s?%s:%s%s?)*%s%s?%s:%s" % (_T, _N, _PO, _PI, _PR, _T, _N, _PO, _PI, _PR, _T, _N), re.ASCII)
_ITEM = re.compile(r"(?:\[(?P<prio>-?[0-9]+)\])?(?P<type>%s):(?P<name>%s)(?:\[(?P<port>[EOX])\])?" % (_T, _N), re.ASCII)
_PIPE = re.compile(r" *\|(?:(?P<brk>[TCF])\|)? *", re.ASCII)


def parse_join(s):
    """None if it is no JoinString, else its list of {type, name, prio, brk, port}."""
    if s == "":
        return []
    if not _FULL.fullmatch(s):
        return None
    items, pos, brk = [], 0, None
    while True:
        m = _ITEM.match(s, pos)
        prio = None
        if items:
            prio = int(m.group("prio") or "0")
            if not -2**63 <= prio < 2**63:
                return None
        t = m.group("type")
        items.append({"type": next(x for x in TYPES if x == t or x[0] == t), "name": m.group("name"), "prio": prio, "brk": brk,
                      "port": PORTS[m.group("port") or "O"]})
        pos = m.end()
        if pos == len(s):
            items[-1]["port"] = None
            return items
        m = _PIPE.match(s, pos)
        brk = BRK[m.group("brk") or "T"]
        pos = m.end()


def as_objects(items, explicit=True):
    """The same connection as a list of JSON objects, the way pa2 prints it."""
    r = []
    for i, it in enumerate(items):
        o = {"component_type": it["type"], "component_name": it["name"]}
        if i > 0:
            o["breakable"] = it["brk"]
            o["priority"] = it["prio"]
        if it["port"] is not None:
            o["output_port"] = it["port"]
        r.append(o)
    return r


def strip_sets(conn):
    """A printed connection list without the (here always null) connection sets."""
    return [{k: v for k, v in c.items() if k != "connection_set" or v is not None} for c in conn]


# -- generators of connections

@st.composite
def join_items(draw, min_size=2, max_size=6, names=ident, types=None, prios=priority, any_prio=True):
    n = draw(st.integers(min_size, max_size))
    if max_size >= 5 and draw(rare(60)):
        n = draw(st.sampled_from([10, 11, 20, 40]))
    r = []
    for i in range(n):
        r.append({"type": draw(st.sampled_from(types or TYPES)), "name": draw(names),
                  "prio": None if i == 0 else (draw(st.one_of(st.just(0), prios)) if any_prio else 0),
                  "brk": None if i == 0 else draw(st.sampled_from(list(BRK.values()))),
                  "port": None if i == n - 1 else draw(st.sampled_from(["out", "out", "err", "exit"]))})
    return r


@st.composite
def render_join(draw, items):
    """One of the spellings of a list of items."""
    sp = st.sampled_from(["", " ", " ", "  "])
    o = []
    for i, it in enumerate(items):
        if i > 0:
            code = {v: k for k, v in BRK.items()}[it["brk"]]
            plain = it["brk"] == "terminate" and draw(st.booleans())
            o.append(draw(sp) + ("|" if plain else "|%s|" % code) + draw(sp))
            if it["prio"] != 0 or draw(st.integers(0, 5)) == 0:
                z = draw(st.sampled_from(["", "", "", "0", "00"]))
                p = it["prio"]
                o.append("[%s%s%d]" % ("-" if p < 0 else "", z, abs(p)))
        o.append(it["type"] if draw(st.booleans()) else LETTER[it["type"]])
        o.append(":" + it["name"])
        if it["port"] is not None and (it["port"] != "out" or draw(st.booleans())):
            o.append("[%s]" % {v: k for k, v in PORTS.items()}[it["port"]])
    return "".join(o)


@st.composite
def valid_join(draw, **kw):
    return draw(render_join(draw(join_items(**kw))))


MUT = "fdrjbl:[]|TCFEOX -09_aZ\t\n\u00e9.,;\"'{}"


@st.composite
def damaged_join(draw):
    """A JoinString with some damage; often still valid, the reference decides."""
    s = draw(valid_join())
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return draw(st.sampled_from(["[1]", "[E]", " ", "|", "[", "x"])) + s
    if kind == 1:
        return s + draw(st.sampled_from(["[1]", "[E]", "[O]", " ", "|", " |", "| f", "\n", "|T|", "[X]"]))
    if kind == 2:
        return draw(st.sampled_from(["f:a", "drain:x", "", " ", "|", "f:a |", "| f:a", "f:|d:x", "f:a || d:b", "f:a |X| d:b", "f:a |t| d:b",
                                     "f:a |T d:b", "f:a T| d:b", "f:a |T||F| d:b", "f:a > d:b", "f:a , d:b", "f a | d b", "F:a | d:b",
                                     "faucets:a | d:b", "x:a | d:b", "fa:a | d:b", "f::a | d:b", "f:a | [1 ]d:b", "f:a | [ 1]d:b",
                                     "f:a | [+1]d:b", "f:a | [1.5]d:b", "f:a | [1] d:b", "f:a | [--1]d:b", "f:a [O] | d:b", "f:a[o] | d:b",
                                     "f:a[EX] | d:b", "f:a[E][O] | d:b", "f:a[] | d:b", "f:a | []d:b", "f:a | [-]d:b", "f:a-b | d:b",
                                     "f:a | [9223372036854775808]d:b", "f:a | [-9223372036854775809]d:b", "f:a | [99999999999999999999999]d:b",
                                     "f:a | [9223372036854775807]d:b", "f:a | [-9223372036854775808]d:b", "f:a\t| d:b", "f:a |\nd:b",
                                     "f:\u00e9 | d:b", "f:a | d:b | ", "[1]f:a | d:b", "f:a | d:b[O]", "f:a |T| | d:b", "f:a | |T| d:b"]))
    n = draw(st.integers(1, 2))
    for _ in range(n):
        if not s:
            break
        i = draw(st.integers(0, len(s) - 1))
        op = draw(st.integers(0, 3))
        c = draw(st.sampled_from(MUT))
        if op == 0:
            s = s[:i] + s[i + 1:]
        elif op == 1:
            s = s[:i] + c + s[i:]
        elif op == 2:
            s = s[:i] + c + s[i + 1:]
        else:
            j = draw(st.integers(0, len(s) - 1))
            i, j = min(i, j), max(i, j)
            s = s[:i] + s[i:j] * 2 + s[j:] if draw(st.booleans()) else s[:i] + s[j:]
    return s


any_join = st.one_of(valid_join(), damaged_join())


def settings_for(items_list, avoid=()):
    """Settings that make the components of these connections complete."""
    cfg = {}
    for items in items_list:
        for it in items:
            if it["type"] == "faucet":
                cfg.setdefault("faucet", {})[it["name"]] = {"source": ""}
            elif it["type"] == "drain":
                cfg.setdefault("drain", {})[it["name"]] = {"destination": ""}
            elif it["type"] == "launch":
                cfg.setdefault("launch", {})[it["name"]] = {"cmd": "true"}
            elif it["type"] == "regulator":
                cfg.setdefault("regulator", {})[it["name"]] = {}
    return cfg


# -- YAML and JSON text

def yaml_str(s):
    """A double quoted YAML scalar; JSON strings are valid YAML 1.2 but for what serde_yaml reads differently, so escape all."""
    o = ['"']
    for c in s:
        n = ord(c)
        if c == '"':
            o.append('\\"')
        elif c == "\\":
            o.append("\\\\")
        elif 0x20 <= n < 0x7f:
            o.append(c)
        elif n < 0x100:
            o.append("\\x%02x" % n)
        elif n < 0x10000:
            o.append("\\u%04x" % n)
        else:
            o.append("\\U%08x" % n)
    return "".join(o) + '"'


def to_yaml(v, ind=0):
    """Block style YAML."""
    pad = "  " * ind
    if isinstance(v, dict):
        if not v:
            return "{}"
        o = []
        for k, x in v.items():
            if isinstance(x, (dict, list)) and x:
                o.append("%s%s:\n%s" % (pad, yaml_str(k), to_yaml(x, ind + 1)))
            else:
                o.append("%s%s: %s" % (pad, yaml_str(k), to_yaml(x)))
        return "\n".join(o)
    if isinstance(v, list):
        if not v:
            return "[]"
        o = []
        for x in v:
            if isinstance(x, (dict, list)) and x:
                t = to_yaml(x, ind + 1)
                o.append("%s-\n%s" % (pad, t))
            else:
                o.append("%s- %s" % (pad, to_yaml(x)))
        return "\n".join(o)
    if v is None:
        return "~"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, (int, float)):
        return repr(v)
    return yaml_str(v)

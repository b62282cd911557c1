"""Configurations: generators, the reference reading of a document, rendering as JSON and YAML."""
import json
from hypothesis import strategies as st
from . import gen

# Strings as used for ids, sources, arguments: anything a JSON or YAML string can hold (no lone surrogates)
short_text = st.one_of(
    st.sampled_from(["", "-", "_", "a", "x y", "'", '"', "\\", "$HOME", "`id`", "a\nb", "\t", "\r", "\x00", "\x7f", "\u00e9", "\u4e2d", "\U0001f600",
                     "~", "null", "true", "no", "1", "1.5", "0x1f", "{}", "[]", "- a", "a: b", "#c", "%x", "@y", "&a", "*a", "!t", "|", ">",
                     "\ufeff", "\u2028", " lead", "trail ", "--flag", "=", "A=B", "\x1b[0m", "<<", "?", ":", ",", "{{", "%s", "\u0085", "\xa0",
                     "---", "...", "1e3", "2001-01-01", "0o7", "012", ".inf", ".nan", "NULL", "Yes", "off", "y"]),
    st.text(st.characters(blacklist_categories=("Cs",)), max_size=12),
    st.text("abcXYZ019_-./ :\"'\\#", max_size=20))
# As a key a YAML document may have up to 1024 characters, escapes counted as written
wild_text = gen.rare(80).flatmap(lambda x: short_text.map(lambda t: (t * 90)[:90]) if x else short_text)


def value(text):
    """Rarely a long one."""
    return gen.rare(80).flatmap(lambda x: st.tuples(text, st.sampled_from([30, 300, 2000])).map(lambda t: t[0] * t[1]) if x else text)


arg_text = wild_text.filter(lambda s: "\x00" not in s)

DEFAULTS = {"faucet": {}, "regulator": {}, "drain": {}, "launch": {}, "connection": {}}


def normal(cfg):
    """What a document means: the form in which pa2 prints it."""
    r = {k: {} for k in DEFAULTS}
    for k, v in (cfg.get("faucet") or {}).items():
        r["faucet"][k] = {"source": v["source"]}
    for k, v in (cfg.get("drain") or {}).items():
        r["drain"][k] = {"destination": v.get("destination", "-")}
    for k, v in (cfg.get("regulator") or {}).items():
        r["regulator"][k] = {"buffered": v.get("buffered"), "monitored_buffers": v.get("monitored_buffers", [])}
    for k, v in (cfg.get("launch") or {}).items():
        r["launch"][k] = {"cmd": v.get("cmd"), "path": v.get("path"), "env": v.get("env", {}), "arg": v.get("arg", [])}
    for k, v in (cfg.get("connection") or {}).items():
        r["connection"][k] = v if isinstance(v, str) else [norm_conn(c) for c in v]
    return r


def norm_conn(c):
    o = {"component_type": c["component_type"], "component_name": c["component_name"]}
    if "priority" in c:
        o["breakable"] = c.get("breakable", "terminate")
        o["priority"] = c["priority"]
    if "output_port" in c:
        o["output_port"] = c["output_port"]
    o["connection_set"] = c.get("connection_set")
    return o


def same(printed, want):
    return canon_print(printed) == canon_print(want)


def canon_print(c):
    c = dict(c)
    c["connection"] = {k: (v if isinstance(v, str) else [dict({"connection_set": None}, **x) for x in v]) for k, v in c["connection"].items()}
    return json.dumps(c, sort_keys=True)


def many(s, n):
    """Rarely a lot of them."""
    return gen.rare(50).flatmap(lambda x: s(30) if x else s(n))


u63 = st.one_of(st.integers(0, 20), st.integers(0, 5000), st.sampled_from([2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1]))


@st.composite
def launch_cfg(draw, text=wild_text):
    o = {}
    v = value(text)
    for k, s in (("cmd", st.one_of(st.none(), v)), ("path", st.one_of(st.none(), v)),
                 ("env", many(lambda n: st.dictionaries(text, v, max_size=n), 3)), ("arg", many(lambda n: st.lists(v, max_size=n), 4))):
        if draw(st.integers(0, 3)):
            o[k] = draw(s)
    return o


@st.composite
def regulator_cfg(draw, text=wild_text):
    o = {}
    if draw(st.integers(0, 3)):
        o["buffered"] = draw(st.one_of(st.none(), st.tuples(u63, u63).map(list)))
    if draw(st.integers(0, 3)):
        o["monitored_buffers"] = draw(many(lambda n: st.lists(text, max_size=n), 3))
    return o


@st.composite
def conn_objects(draw, names=wild_text, **kw):
    """A list of connection objects, each form possible, fields left out where they have a default."""
    items = draw(gen.join_items(names=names, **kw))
    r = []
    for i, it in enumerate(items):
        o = {"component_type": it["type"], "component_name": it["name"]}
        if i > 0:
            if it["brk"] != "terminate" or draw(st.booleans()):
                o["breakable"] = it["brk"]
            o["priority"] = it["prio"]
        if it["port"] is not None:
            o["output_port"] = it["port"]
        if draw(st.integers(0, 5)) == 0:
            o["connection_set"] = draw(st.one_of(st.none(), st.just("s")))
        keys = draw(st.permutations(list(o)))
        r.append({k: o[k] for k in keys})
    return r


@st.composite
def config(draw, text=wild_text, names=None):
    o = {}
    ids = text if names is None else names
    for k, s in (("faucet", st.builds(lambda s: {"source": s}, value(text))),
                 ("drain", st.one_of(st.just({}), st.builds(lambda s: {"destination": s}, value(text)))),
                 ("regulator", regulator_cfg(text)), ("launch", launch_cfg(text)),
                 ("connection", st.one_of(gen.any_join, conn_objects(names=ids, max_size=4), conn_objects(names=ids, max_size=4), conn_objects(names=ids, max_size=5)))):
        if draw(st.integers(0, 4)) or k == "connection":
            o[k] = draw(many(lambda n: st.dictionaries(ids, s, max_size=n), 3))
    keys = draw(st.permutations(list(o)))
    return {k: o[k] for k in keys}


def text_of(cfg, fmt, style=0):
    if fmt == "json":
        return json.dumps(cfg, ensure_ascii=bool(style & 1), indent=2 if style & 2 else None)
    return gen.to_yaml(cfg)


def yaml_plain(s):
    """Characters which may stand in a YAML document as they are."""
    return all(c in "\t\n\r" or 0x20 <= ord(c) < 0x7f or 0xa0 <= ord(c) < 0xd800 or 0xe000 <= ord(c) < 0xfffe and ord(c) != 0xfeff or ord(c) >= 0x10000 and
               ord(c) & 0xffff < 0xfffe for c in s)


def strings(v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, dict):
        for k, x in v.items():
            yield k
            yield from strings(x)
    elif isinstance(v, list):
        for x in v:
            yield from strings(x)


def opt(name, value):
    """An option with any value: clap takes a separate value that begins with - for an option, and strips = from --x==."""
    return ["--%s=%s" % (name, value)] if value.startswith("-") else ["--" + name, value]

"""Configurations read and printed: JSON and YAML, file and standard input, defaults, all kinds of strings."""
import json
from hypothesis import strategies as st
from . import confgen as cg
from .fw import Violation, short

ID = "C14"
EXAMPLES = {"quick": 20000, "thorough": 400000}
RULE = ("a case is a random configuration (settings with fields left out, null or given, connections as JoinStrings or as objects of "
        "every form, strings of all kinds), given as JSON or YAML by file or standard input; non-trivial: it has at least one entry")
ASSUMPTIONS = ["what pa2 prints is read back as YAML only when every character may stand in YAML unescaped"]


def strategy(tier):
    return st.fixed_dictionaries({"cfg": cg.config(), "fmt": st.sampled_from(["json", "yaml"]), "style": st.integers(0, 3),
                                  "by": st.sampled_from(["stdin", "-", "file", "ext"]), "id": cg.arg_text, "src": cg.arg_text})


def run(case, ctx):
    cfg, fmt = case["cfg"], case["fmt"]
    text = cg.text_of(cfg, fmt, case["style"]).encode("utf8")
    args = ["config"]
    stdin = b""
    if case["by"] == "stdin":
        stdin = text
    elif case["by"] == "-":
        stdin = text
        args += ["--config", "-"]
    else:
        name = "cfg" if case["by"] == "file" else "cfg." + fmt
        args += ["--config", ctx.write(name, text)]
    if fmt == "json" or case["style"] & 1:
        args += ["--format", fmt]
    args += ["faucet"] + cg.opt("id", case["id"]) + ["source", "--", case["src"]]
    want = cg.normal(cfg)
    want["faucet"][case["id"]] = {"source": case["src"]}
    r = ctx.pa2run(args, stdin=stdin)
    if r.rc != 0:
        raise Violation("refused %s document %s: %s" % (fmt, short(text, 1500), short(r.err)))
    got = json.loads(r.out)
    if not cg.same(got, want):
        raise Violation("%s document %s means %s, but was printed as %s" % (fmt, short(text, 1500), cg.canon_print(want), cg.canon_print(got)))
    # read back
    back = ["json"]
    if all(cg.yaml_plain(s) and len(s) < 100 for s in cg.strings(want)):
        back.append("yaml")
        ctx.note("read back as YAML")
    for b in back:
        r2 = ctx.pa2run(["config", "--format", b, "faucet"] + cg.opt("id", case["id"]) + ["source", "--", case["src"]], stdin=r.out)
        if r2.rc != 0:
            raise Violation("what was printed is refused as %s: %s %s" % (b, short(r.out, 1500), short(r2.err)))
        if not cg.same(json.loads(r2.out), want):
            raise Violation("what was printed changed when read as %s: %s then %s" % (b, short(r.out, 1500), short(r2.out, 1500)))
    objs = [c for v in cfg.get("connection", {}).values() if not isinstance(v, str) for c in v]
    ctx.note(fmt, "by " + case["by"], *(["with connection objects"] if objs else []))
    for c in objs:
        ctx.note("object %s" % ("+".join(k for k in ("breakable", "priority", "output_port") if k in c)))
    return any(cfg.get(k) for k in cfg)

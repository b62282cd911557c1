"""Programs are started once, with exactly the configured arguments, directory, environment and input."""
import json, os
from hypothesis import strategies as st
from . import confgen as cg, data
from .fw import Violation, short

ID = "C18"
WORKERS = 16
EXAMPLES = {"quick": 7000, "thorough": 200000}
RULE = ("a case is one to three programs with generated command, arguments, directory, environment and input, started by pa2 with generated "
        "environment, directory and stdin; the program records what it got; non-trivial: some argument, variable, directory or input is set")
ASSUMPTIONS = ["a relative command which contains a slash is not used together with a directory, nor PATH as a variable (what that means is up to the operating system's library)"]

var_name = st.one_of(st.sampled_from(["A", "B", "HOME", "LANG", "PWD", "a b", "\u00e9", "X-Y", "FOO", "BAR", "_", "1", "LD_X", "RUST_LOG", "a.b", "PA2"]),
                     st.text("ABCabc_0 \u00e9", min_size=1, max_size=5)).filter(lambda s: s != "PATH")
plain = cg.arg_text
arg = st.one_of(plain, st.sampled_from(["*", "?", "$(echo x)", "`echo x`", "a|b", "a;b", "a&&b", ">x", "<x", "~", "$HOME", "${A}", "\\n", "--", "-x", "-", "''", '""', "%A%", "{a,b}", "!",
                                        "x" * 5000, "\n", " ", "\t"]))
DIRS = ["sub", "with space", "\u00e9\u4e2d", "sub/deep", "-dash", "$HOME", "link"]


@st.composite
def program(draw):
    return {"cmd": draw(st.sampled_from(["abs", "abs", "abs", "rel", "path", "odd"])), "arg": draw(cg.many(lambda n: st.lists(cg.value(arg).map(lambda s: s[:10000]), max_size=n), 6)), "env": draw(cg.many(lambda n: st.dictionaries(var_name, plain, max_size=n), 4)),
            "path": draw(st.sampled_from([None, None, "abs", "rel", "dot"])), "dir": draw(st.sampled_from(DIRS)),
            "in": draw(st.sampled_from(["none", "none", "empty", "data", "fork"])), "data": draw(data.spec()), "outs": draw(st.sampled_from(["", "O", "E", "X", "OE", "OEX"])),
            "absent": draw(st.booleans())}


def strategy(tier):
    return st.fixed_dictionaries({"programs": st.lists(program(), min_size=1, max_size=3), "env": st.dictionaries(var_name, plain, max_size=4), "bytes": st.booleans(),
                                  "cwd": st.sampled_from([None, None, "sub", "with space"]), "stdin": st.booleans(), "fmt": st.sampled_from(["json", "yaml"]), "by": st.sampled_from(["file", "file", "stdin"])})


def run(case, ctx):
    for d in DIRS[:-1]:
        os.makedirs(ctx.path(d), exist_ok=True)
    os.symlink(ctx.path("sub"), ctx.path("link"))
    bindir = ctx.path("bin")
    os.mkdir(bindir)
    base = ctx.dir if case["cwd"] is None else ctx.path(case["cwd"])
    cfg = {"faucet": {}, "launch": {}, "drain": {"null": {"destination": ""}}, "connection": {}}
    penv = {os.fsencode(k): os.fsencode(v) for k, v in case["env"].items()}
    penv[b"PATH"] = os.fsencode(bindir) + b":/usr/bin:/bin"
    if case["bytes"]:
        penv[b"RAW"] = b"\xff\xfe \x80"
    expect = []
    nontrivial = False
    for i, p in enumerate(case["programs"]):
        nm = "rec%d" % i if p["cmd"] != "odd" else "rec %d '\u00e9\" $x;*" % i
        exe = os.path.join(bindir, nm)
        os.symlink(ctx.hp, exe)
        wd = {None: None, "abs": ctx.path(p["dir"]), "rel": os.path.relpath(ctx.path(p["dir"]), base), "dot": "."}[p["path"]]
        real = os.path.realpath(os.path.join(base, wd or "."))
        cmd = exe
        if p["cmd"] == "rel" and wd is None:
            cmd = os.path.relpath(exe, base)
        elif p["cmd"] == "path":
            cmd = nm
        at = os.path.join(real, cmd) + ".rec"
        s = {"cmd": cmd}
        if p["arg"] or not p["absent"]:
            s["arg"] = p["arg"]
        if p["env"] or not p["absent"]:
            s["env"] = p["env"]
        if wd is not None:
            s["path"] = wd
        cfg["launch"]["p%d" % i] = s
        b = b""
        conn = []
        if p["in"] != "none":
            b = data.make(p["data"], most=300) if p["in"] in ("data", "fork") else b""
            cfg["faucet"]["f%d" % i] = {"source": ctx.write("src%d" % i, b)}
            conn.append("f:f%d | l:p%d" % (i, i))
            if p["in"] == "fork":
                cfg["drain"]["x%d" % i] = {"destination": ""}
                conn.append("f:f%d | d:x%d" % (i, i))
        for o in p["outs"] if conn else p["outs"] or "O":
            cfg["drain"]["n%d%s" % (i, o)] = {"destination": ""}
            conn.append("l:p%d[%s] | d:n%d%s" % (i, o, i, o))
        for k, c in enumerate(conn):
            cfg["connection"]["c%d_%d" % (i, k)] = c
        env = dict(penv)
        env.update({k.encode(): v.encode() for k, v in p["env"].items()})
        expect.append((at, cmd, [cmd] + p["arg"], env, real, b))
        nontrivial = nontrivial or bool(p["arg"] or p["env"] or wd or b)
        ctx.note("command " + p["cmd"], "directory %s" % p["path"], "input " + p["in"])
        if set(p["env"]) & set(case["env"]):
            ctx.note("variable set twice")
    if not any("null" in c for c in cfg["connection"].values()):
        del cfg["drain"]["null"]
    t = cg.text_of(cfg, case["fmt"])
    args = ["process", "--format", case["fmt"]]
    stdin = b"not for any program\n" if case["stdin"] else b""
    args += ["--config", ctx.write("pa2.cfg", t)]
    r = ctx.pa2run(args, stdin=stdin, env=penv, cwd=base)
    if r.rc != 0 or r.out or r.err:
        raise Violation("status %d, stdout %s, stderr %s" % (r.rc, short(r.out), short(r.err)))
    for at, cmd, argv, env, wd, b in expect:
        try:
            with open(at, "rb") as f:
                rec = f.read().decode().split("\n")
        except FileNotFoundError:
            raise Violation("%r was not started in %r" % (cmd, wd))
        if rec.count("START") != 1:
            raise Violation("%r was started %d times" % (cmd, rec.count("START")))
        got = [bytes.fromhex(l[4:]) for l in rec if l.startswith("arg")]
        if got != [a.encode() for a in argv]:
            raise Violation("arguments are %s, configured %s" % (short(got), short(argv)))
        ge = {}
        for l in rec:
            if l.startswith("env "):
                _, k, v = l.split(" ")
                ge[bytes.fromhex(k)] = bytes.fromhex(v)
        if ge != env:
            raise Violation("environment: has %s, expected %s" % (short({k: v for k, v in ge.items() if env.get(k) != v}), short({k: v for k, v in env.items() if ge.get(k) != v})))
        c = [bytes.fromhex(l[4:]) for l in rec if l.startswith("cwd ")]
        if c != [wd.encode()]:
            raise Violation("directory %s, expected %r" % (c, wd))
        i = [bytes.fromhex(l[6:]) for l in rec if l.startswith("stdin ")]
        if i != [b]:
            raise Violation("input %s, expected %s" % (short(i), short(b)))
    return nontrivial

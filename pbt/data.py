"""Generated contents of a source: a small specification, expanded deterministically."""
import random
from hypothesis import strategies as st

STYLES = ["bytes", "lines", "crlf", "newlines", "long", "edge", "mixed", "few", "nul", "literal"]


# lines which do not fit into anything
huge = st.fixed_dictionaries({"style": st.just("huge"), "sizes": st.one_of(
    st.lists(st.sampled_from([0, 1, 300, 4096, 65535, 65536, 70000, 131072, 200000]), min_size=1, max_size=8),
    st.lists(st.sampled_from([0, 300, 70000, 1 << 20, (1 << 20) + 1, 1500000]), min_size=1, max_size=3)).map(lambda l: sorted(l, reverse=True)[:2] + l if sum(l) < 1000000 else l), "tail": st.sampled_from([True, True, False]), "mark": st.sampled_from([2, 3, 2, 0, 2, 0, 2, 2, 3, 1, 4, 5, 6, 7, 8, 9, 10])})


def seldom(rare, usual, n):
    """One in n."""
    return st.integers(0, n - 1).flatmap(lambda k: rare if k == n // 2 + 1 else usual)


def spec(big=False, styles=None):
    n = [st.integers(0, 5), st.integers(2, 60), st.integers(20, 600), st.integers(100, 5000), st.integers(40, 1200), st.integers(10, 300)]
    if big:
        n.append(st.sampled_from([20000, 66000, 66000, 200000]))
    sized = st.fixed_dictionaries({"style": st.sampled_from(styles or STYLES[:-1]), "n": st.one_of(*n), "seed": st.integers(0, 50)})
    return st.one_of(sized, sized, sized,
        st.builds(lambda b: {"style": "literal", "b": b}, st.lists(st.sampled_from(
            [b"a", b"\n", b"\r", b"\r\n", b"\0", b"\xff", b"bc", b"\n\n", b"\r\r\n", b"x" * 253, b"x" * 254, b"x" * 255, b"x" * 256, b"x" * 509, b"x" * 511, "\u00e9".encode(), b"\xef\xbb\xbf", b"\x04", b"\x1a", b"\n" * 20]), min_size=1, max_size=8).map(b"".join)))


def make(s, most=3000):
    """n is about the number of bytes. Not more than about `most` messages."""
    b = expand(s)
    if s["style"] in ("lines", "crlf", "newlines", "few", "nul", "mixed") and b.count(b"\n") > most:
        b = b"\n".join(b.split(b"\n", most)[:most]) + b"\n" + b[-1:]
    return b


def expand(s):
    k = s["style"]
    if k == "literal":
        return s["b"]
    b = expand_(s)
    if k != "huge" and s["seed"] % 5 == 4:
        # what some take for more than bytes
        m = MARKS[s["seed"] // 5 % len(MARKS)]
        b = m + b[len(m):] if s["n"] % 2 else b + m
    return b


MARKS = [b"\xef\xbb\xbf", b"\xff\xfe", b"\x04", b"\x1a", b"\x1b[0m", b"\\n", b"#", b"\r", b"\0", b"\x7fELF"]


def expand_(s):
    k = s["style"]
    if k == "huge":
        b = b"".join((b"%d:" % i + b"0123456789abcdef" * (n // 16 + 1))[:n] + b"\n" for i, n in enumerate(s["sizes"]))
        # what a line ends with
        m = ([b""] + MARKS[::-1])[s.get("mark", 0)]
        return b[:-1] + m + (b"" if s["tail"] else b"\n")
    n = s["n"]
    r = random.Random("%s %d %d" % (k, n, s["seed"]))
    if k == "bytes":
        return r.randbytes(n)
    if k == "lines":
        o = b""
        while len(o) < n:
            o += bytes(r.choice(b"abcdefgh ") for _ in range(min(r.randint(0, 30), max(0, n - len(o))))) + b"\n"
            if len(o) > 4000:
                o = o * (n // len(o) + 1)
        return o[:n] if r.random() < 0.5 else o[:n - 1] + b"\n" if n else b""
    if k == "crlf":
        return bytes(r.choice(b"a\r\n\r\n") for _ in range(n))
    if k == "newlines":
        return r.choice([b"\n", b"\r\n", b"\n\r", b"\r"]) * n
    if k == "long":
        return b"q" * n + (MARKS[s["seed"] // 2 % len(MARKS)] if s["seed"] % 2 else b"") + r.choice([b"", b"\n", b"\r\n", b"\nq"])
    if k == "edge":
        o = b""
        while len(o) < n:
            o += b"e" * (255 * r.randint(1, 3) + r.randint(-3, 1)) + r.choice([b"\n", b"\r\n", b"\r", b"\n\n"])
        return o
    if k == "mixed":
        o = b""
        while len(o) < n:
            o += r.choice([b"", b"a", b"\r", b"xyz", r.randbytes(r.randint(0, 9)), b"m" * r.choice([100, 253, 254, 255, 256, 1000])]) + r.choice([b"\n", b"\r\n", b"\r", b"", b"\n"])
        return o
    if k == "few":
        return b"".join(b"%d\n" % i for i in range(n // 4)) + r.choice([b"", b"x"])
    if k == "nul":
        return bytes(r.choice(b"\0\0\0\n") for _ in range(n))
    raise AssertionError(k)


def messages(b):
    """The messages these bytes are."""
    r = b.split(b"\n")
    o = [x + b"\n" for x in r[:-1]]
    if r[-1]:
        o.append(r[-1])
    return o

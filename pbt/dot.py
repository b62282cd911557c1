"""A strict reader of the DOT language, as far as a directed graph needs it."""
import re

TOKEN = re.compile(r'\s+|(?P<p>->|[{}\[\]=;,:])|(?P<id>[A-Za-z_\x80-\U0010ffff][A-Za-z0-9_\x80-\U0010ffff]*)'
                   r'|(?P<num>-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))|(?P<q>"(?:[^"\\]|\\.)*")', re.S)
KEY = {"node", "edge", "graph", "digraph", "subgraph", "strict"}


class Bad(Exception):
    pass


def tokens(s):
    pos, r, end_num = 0, [], -1
    while pos < len(s):
        m = TOKEN.match(s, pos)
        if not m:
            raise Bad("no token at %r" % s[pos:pos + 40])
        k = m.lastgroup
        if k == "id":
            if pos == end_num:
                raise Bad("badly delimited number before %r" % s[pos:pos + 40])
            t = m.group()
            r.append(("key", t.lower(), t) if t.lower() in KEY else ("id", t, t))
        elif k == "num":
            r.append(("id", m.group(), m.group()))
            end_num = m.end()
        elif k == "q":
            r.append(("q", m.group()[1:-1].replace('\\"', '"'), m.group()[1:-1]))
        elif k:
            r.append(("p", m.group(), None))
        pos = m.end()
    return r


class Sub:
    def __init__(self, id):
        self.id, self.attrs, self.nodes, self.edges, self.subs = id, {}, [], [], []

    def walk(self):
        yield self
        for s in self.subs:
            yield from s.walk()


class P:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0

    def peek(self, *v):
        return self.i < len(self.t) and self.t[self.i][0] in ("p", "key") and self.t[self.i][1] in v

    def take(self, *v):
        if not self.peek(*v):
            raise Bad("expected %s at %s" % (v, self.t[self.i:self.i + 5]))
        self.i += 1

    def opt(self, v):
        if self.peek(v):
            self.i += 1
            return True
        return False

    def id(self):
        if self.i >= len(self.t) or self.t[self.i][0] not in ("id", "q"):
            raise Bad("expected an id at %s" % (self.t[self.i:self.i + 5],))
        self.i += 1
        return self.t[self.i - 1]

    def graph(self):
        strict = self.opt("strict")
        self.take("digraph")
        g = Sub(self.id()[1] if not self.peek("{") else None)
        g.strict = strict
        self.block(g)
        if self.i != len(self.t):
            raise Bad("something after the graph: %s" % (self.t[self.i:self.i + 5],))
        return g

    def attrs(self):
        r = {}
        while self.opt("["):
            while not self.opt("]"):
                k = self.id()
                self.take("=")
                r[k[1]] = text(self.id())
                if not self.opt(","):
                    self.opt(";")
        return r

    def block(self, g):
        self.take("{")
        while not self.opt("}"):
            if self.i >= len(self.t):
                raise Bad("no end")
            if self.opt("subgraph"):
                s = Sub(self.id()[1] if not self.peek("{") else None)
                self.block(s)
                g.subs.append(s)
            elif self.peek("node", "edge", "graph"):
                self.i += 1
                self.attrs()
            else:
                a = self.id()
                if self.opt("="):
                    g.attrs[a[1]] = text(self.id())
                elif self.t[self.i][0] == "p" and self.t[self.i][1] == "->":
                    ends = [a[1]]
                    while self.i < len(self.t) and self.t[self.i][1] == "->" and self.t[self.i][0] == "p":
                        self.i += 1
                        ends.append(self.id()[1])
                    at = self.attrs()
                    g.edges += [(x, y, at) for x, y in zip(ends, ends[1:])]
                else:
                    if self.peek(":"):
                        raise Bad("a port")
                    g.nodes.append((a[1], self.attrs()))
            self.opt(";")


def text(tok):
    """The text a label shows."""
    if tok[0] == "id":
        return tok[1]
    return re.sub(r"\\(.)", lambda m: {"n": "\n<l>", "l": "\n<l>", "r": "\n<r>"}.get(m.group(1), m.group(1) if m.group(1) in '\\"' else "<" + m.group(1) + ">"), tok[2], flags=re.S)


def parse(s):
    return P(s).graph()

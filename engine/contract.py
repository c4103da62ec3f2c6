"""Parser for contract files (/verif/contracts/*.spec).

A contract file names the C++ sources of a translation unit, the WhyML types the C++ types are
mapped to, logical theories, and for each function under contract its pre/postconditions and
loop invariants.  It contains no code of the functions themselves: bodies come from /repo.
"""
import re


class Fn:
    def __init__(self, name):
        self.name = name
        self.cxx = None
        self.cls = {}          # list valued clauses
        self.loops = {}        # index -> dict of clauses
        self.opts = {}

    def get(self, k):
        return self.cls.get(k, [])


class Contract:
    def __init__(self):
        self.sources = []      # lines of the TU
        self.items = []        # ordered: ("raw", text) | ("record",..) | ("omap",..) | ("fn", Fn) | ("use", name)
        self.opts = {}


CL = ("requires", "ensures", "entry", "exit", "raises", "reads")
LCL = ("invariant", "variant", "before", "after", "begin", "end")
OPTS = ("bind", "result", "inline", "overflow", "ghostparam", "alias", "pure", "rec", "variant", "trusted", "opt", "lemma", "bound", "timeout", "ref", "skip", "param", "range")


def macros(lines):
    """macro NAME p1 p2 ... endmacro; expand NAME v1 v2  (textual, $p1 in the body)"""
    out, defs, i = [], {}, 0
    while i < len(lines):
        t = lines[i].split()
        if t[:1] == ["macro"]:
            body = []
            i += 1
            while lines[i].strip() != "endmacro":
                body.append(lines[i])
                i += 1
            defs[t[1]] = (t[2:], body)
        elif t[:1] == ["expand"]:
            toks = re.findall(r'"[^"]*"|\S+', lines[i])[1:]
            ps, body = defs[toks[0]]
            vals = [v[1:-1] if v[0] == '"' else v for v in toks[1:]]
            for ln in body:
                for a, v in sorted(zip(ps, vals), key=lambda x: -len(x[0])):
                    ln = ln.replace("$" + a, v)
                out.append(ln)
        else:
            out.append(lines[i])
        i += 1
    return out


def parse(path):
    c = Contract()
    lines = macros(open(path).read().split("\n"))
    i = 0
    cur = None
    curloop = None

    def lead(s):
        return len(s) - len(s.lstrip())

    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        i += 1
        if not st or st.startswith("#") or st.startswith("//"):
            continue
        if st == "tu":
            while lines[i].strip() != "endtu":
                c.sources.append(lines[i].strip())
                i += 1
            i += 1
            continue
        if st in ("mlw", "mlw client"):
            buf = []
            while lines[i].strip() != "endmlw":
                buf.append(lines[i])
                i += 1
            i += 1
            c.items.append(("raw" if st == "mlw" else "client", "\n".join(buf)))
            continue
        if st.startswith("record ") or st.startswith("omap ") or st.startswith("vec ") or st.startswith("scalar ") \
                or st.startswith("use ") or st.startswith("option ") or st.startswith("abstract ") or st.startswith("arr ")\
                or st.startswith("global ") or st.startswith("enum ") or st.startswith("handle ") or st.startswith("ptr ") or st.startswith("pair ") or st.startswith("harr ") or st.startswith("xfn ") or st.startswith("cmp ") or st.startswith("seg ") or st.startswith("alias "):
            # name "cxx" key value ...
            toks = re.findall(r'"[^"]*"|\{[^}]*\}|\S+', st)
            c.items.append((toks[0], [t[1:-1] if t[0] in '"{' else t for t in toks[1:]]))
            continue
        if st.startswith("fn "):
            cur = Fn(st[3:].strip())
            curloop = None
            c.items.append(("fn", cur))
            continue
        if st == "end" and cur is not None and lead(ln) == 0:
            cur = None
            curloop = None
            continue
        if cur is None:
            raise ValueError("%s:%d: unexpected %r" % (path, i, st))
        # clause; continuation = deeper indentation
        ind = lead(ln)
        buf = [st]
        while i < len(lines) and lines[i].strip() and lead(lines[i]) > ind:
            if re.match(r"(loop \d+)$", st):
                break
            buf.append(lines[i].strip())
            i += 1
        txt = " ".join(b for b in buf if not b.startswith("#"))
        m = re.match(r"(\w+)\s*(.*)$", txt, re.S)
        key, rest = m.group(1), m.group(2)
        if key == "cxx":
            cur.cxx = rest
            curloop = None
        elif key == "loop":
            curloop = cur.loops.setdefault(int(rest), {})
        elif key in LCL and curloop is not None:
            curloop.setdefault(key, []).append(rest)
        elif key in CL:
            cur.cls.setdefault(key, []).append(rest)
        elif key in OPTS:
            cur.opts.setdefault(key, []).append(rest)
        else:
            raise ValueError("%s:%d: unknown clause %r" % (path, i, key))
    return c

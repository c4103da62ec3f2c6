"""Load the clang AST (JSON) of a translation unit and index the declarations that come from /repo.

The AST is produced from /repo's current working tree on every run.
"""
import json, re, subprocess, sys, os

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang++-18"


class Unsupported(Exception):
    """A construct outside the translated subset."""


def run_clang(tu_path, extra=()):
    cmd = [CLANG, "-fsyntax-only", "-std=gnu++17", "-w", "-I" + REPO, *extra,
           "-Xclang", "-ast-dump=json", tu_path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise RuntimeError("clang failed on %s:\n%s" % (tu_path, p.stderr.decode()[-4000:]))
    return p.stdout


FILE_RE = re.compile(rb'(includedFrom": \{\s*)?"file": "([^"]*)"')


def top_chunks(data):
    """Yield (file, jsonbytes) for every top level declaration, without parsing the system headers."""
    start = data.index(b'"inner": [\n    {\n')
    pos = data.index(b"    {\n", start)
    last = b""
    n = len(data)
    while True:
        end = data.find(b"\n    }", pos)
        if end < 0:
            break
        chunk = data[pos:end + 6]
        # own file: the first "file" that appears in this decl's own loc, else inherited
        # the decl's "loc" object precedes everything else
        rng = chunk.find(b'"range"')
        head = chunk[:rng if rng > 0 else 4000]
        own = None
        for m in FILE_RE.finditer(head):
            if not m.group(1):
                own = m.group(2)
        lastm = None
        for m in FILE_RE.finditer(chunk):
            if not m.group(1):
                lastm = m.group(2)
        f = own if own is not None else last
        yield f, chunk
        if lastm is not None:
            last = lastm
        # next
        if data[end + 6:end + 7] == b",":
            pos = data.index(b"    {\n", end + 7)
        else:
            break


DECL_FN = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")
DECL_REC = ("CXXRecordDecl", "ClassTemplateSpecializationDecl")


class AST:
    def __init__(self, tu_path, extra=(), keep=None):
        data = run_clang(tu_path, extra)
        self.tops = []
        keepdirs = [REPO.encode(), tu_path.encode()]
        for f, chunk in top_chunks(data):
            if any(f.startswith(d) for d in keepdirs):
                self.tops.append(json.loads(chunk))
        del data
        self.decl = {}      # id -> node
        self.parent = {}    # id -> parent decl node
        self.defn = {}      # canonical id -> node with body
        self.canon = {}     # id -> canonical id
        self.typedefs = {}  # qualified name -> type string
        for t in self.tops:
            self._index(t, None)
        self._link()

    def _index(self, n, parent):
        k = n.get("kind", "")
        i = n.get("id")
        if i is None or k.endswith("Comment"):
            return
        isdecl = k.endswith("Decl")
        if isdecl:
            self.decl[i] = n
            if "parentDeclContextId" in n:
                self.parent[i] = n["parentDeclContextId"]
            else:
                self.parent[i] = parent
        np = i if isdecl and (k in DECL_REC or k in ("NamespaceDecl", "ClassTemplateDecl", "EnumDecl") or k in DECL_FN or k == "FunctionTemplateDecl") else parent
        for c in n.get("inner", ()):
            if c:
                self._index(c, np)

    def _link(self):
        for i, n in self.decl.items():
            p = n.get("previousDecl")
            self.canon[i] = p if p else i
        for i in list(self.canon):
            seen = set()
            c = i
            while self.canon.get(c, c) != c and c not in seen:
                seen.add(c)
                c = self.canon[c]
            self.canon[i] = c
        for i, n in self.decl.items():
            if n["kind"] in DECL_FN:
                if self.body(n) is not None:
                    self.defn.setdefault(self.canon[i], n)
            if n["kind"] in ("TypedefDecl", "TypeAliasDecl"):
                self.typedefs[self.qname(n)] = n["type"].get("desugaredQualType", n["type"]["qualType"])
            if n["kind"] in DECL_REC and n.get("completeDefinition"):
                pass

    @staticmethod
    def body(fn):
        for c in fn.get("inner", ()):
            if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                return c
        return None

    def parent_of(self, n):
        p = self.parent.get(n.get("id"))
        return self.decl.get(p) if p else None

    def targs(self, n):
        out = []
        pp = self.parent_of(n)
        ps = [c for c in (pp or {}).get("inner", ()) if c.get("kind") in ("NonTypeTemplateParmDecl", "TemplateTypeParmDecl", "TemplateTemplateParmDecl")] \
            if (pp or {}).get("kind") in ("ClassTemplateDecl", "FunctionTemplateDecl") else []
        bools = set(i for i, c in enumerate(ps) if c.get("type", {}).get("qualType") == "bool")
        for c in n.get("inner", ()):
            if c.get("kind") == "TemplateArgument":
                if "type" in c:
                    out.append(c["type"].get("desugaredQualType", c["type"]["qualType"]))
                elif "value" in c:
                    out.append(str(c["value"]) if len(out) not in bools else "false" if str(c["value"]) == "0" else "true")
                elif "decl" in c:
                    out.append(c["decl"].get("name", "?"))
                else:
                    out.append("?")
        return out

    def qname(self, n):
        parts = []
        while n is not None:
            k = n["kind"]
            if k == "ClassTemplateSpecializationDecl":
                parts.append(n.get("name", "") + "<" + ", ".join(self.targs(n)) + ">")
            elif k in ("ClassTemplateDecl", "FunctionTemplateDecl", "LinkageSpecDecl", "TranslationUnitDecl"):
                pass
            elif k in ("NamespaceDecl",) + DECL_REC + DECL_FN + ("EnumDecl", "VarDecl", "FieldDecl", "EnumConstantDecl", "TypedefDecl", "TypeAliasDecl", "ParmVarDecl"):
                if n.get("name"):
                    parts.append(n["name"])
            n = self.parent_of(n)
        return "::".join(reversed(parts))

    def params(self, fn):
        return [c for c in fn.get("inner", ()) if c.get("kind") == "ParmVarDecl"]

    def functions(self):
        """All function definitions, (qualified name, node)."""
        for c, n in self.defn.items():
            # skip bodies inside uninstantiated templates
            if self.in_template_pattern(n):
                continue
            yield self.qname(n), n
            pp = self.parent_of(n)
            if self.targs(n) or pp is not None and pp["kind"] == "FunctionTemplateDecl":
                yield self.qname(n) + "<" + ", ".join(self.targs(n)) + ">", n

    def in_template_pattern(self, n):
        p = n
        while p is not None:
            pp = self.parent_of(p)
            if pp is not None and pp["kind"] in ("ClassTemplateDecl",) and p["kind"] == "CXXRecordDecl":
                return True
            if pp is not None and pp["kind"] == "FunctionTemplateDecl" and p["kind"] in DECL_FN:
                # first child of function template is the pattern
                fns = [c for c in pp.get("inner", ()) if c.get("kind") in DECL_FN]
                if fns and fns[0]["id"] == p["id"]:
                    return True
            if pp is not None and pp["kind"] in ("ClassTemplatePartialSpecializationDecl",):
                return True
            p = pp
        return False

    def definition(self, declid):
        c = self.canon.get(declid, declid)
        return self.defn.get(c)


if __name__ == "__main__":
    import time
    t = time.time()
    a = AST(sys.argv[1])
    print("loaded", time.time() - t, len(a.decl))
    for q, n in a.functions():
        if len(sys.argv) < 3 or sys.argv[2] in q:
            print(q, "|", n["type"]["qualType"], "|", [p["type"] for p in a.params(n)][:3])

"""C++ (clang AST) -> WhyML translation of function bodies.

Every function body is translated from the AST of /repo's current source; contracts come from
/verif/contracts.  What the translation does (see DESIGN.md, "Extraction"):
  * class values become pure records, variables become mutable references to them
  * std::set / std::map become the ordered map theory, iterators into them are keys
  * std::vector / strings / arrays become sequences with bounds obligations
  * callee with a contract -> call; callee without a contract -> inlined
Anything outside of the subset raises Unsupported.
"""
import re
from cxx import AST, Unsupported, DECL_FN, DECL_REC

KEYWORDS = set("""abstract absurd alias any as assert assume at axiom begin break by check clone coinductive constant
continue diverges do done downto else end ensures epsilon exception exists export false float for forall fun function
ghost goal if import in inductive invariant label lemma let match meta module mutable not old partial predicate private
pure raise raises range reads rec ref requires result return returns scope so then theory to true try type use val
variant while with writes""".split())

INT_TYPES = {
    "int": (True, 32), "unsigned int": (False, 32), "short": (True, 16), "unsigned short": (False, 16),
    "long": (True, 64), "unsigned long": (False, 64), "long long": (True, 64), "unsigned long long": (False, 64),
    "char": (True, 8), "signed char": (True, 8), "unsigned char": (False, 8), "wchar_t": (True, 32),
    "size_t": (False, 64), "std::size_t": (False, 64), "ptrdiff_t": (True, 64), "char16_t": (False, 16), "char32_t": (False, 32),
    "int32_t": (True, 32), "uint32_t": (False, 32), "__int_type": (True, 32),
}


def norm(t):
    t = t.strip()
    t = re.sub(r"\b(class|struct|enum) ", "", t)
    while True:
        o = t
        t = t.strip()
        if t.endswith("&"):
            t = t.rstrip("&").strip()
        if t.startswith("const ") and not t.endswith("*"):
            t = t[6:]
        if t.endswith(" const"):
            t = t[:-6]
        if t.startswith("volatile "):
            t = t[9:]
        if t == o:
            return t


def is_ref(t):
    return t.rstrip().endswith("&")


def is_const_ref(t):
    t = t.strip()
    return t.endswith("&") and (t.startswith("const ") or t.rstrip("& ").endswith(" const"))


class Val:
    __slots__ = ("code", "ty", "base", "extra")

    def __init__(self, code, ty, base=None, extra=None):
        self.code, self.ty, self.base, self.extra = code, ty, base, extra


class Place:
    __slots__ = ("root", "path", "ty", "const", "base")

    def __init__(self, root, path, ty, const=False, base=None):
        self.root, self.path, self.ty, self.const, self.base = root, tuple(path), ty, const, base

    def ext(self, el, ty, base=None):
        return Place(self.root, self.path + (el,), ty, self.const, base)

    def container(self):
        return Place(self.root, self.path[:-1], None, self.const)

    def get(self):
        c = self.root
        for el in self.path:
            c = get_el(c, el)
        return c

    def upd(self, newcode):
        return upd(self.root, self.path, newcode)


def get_el(c, el):
    if el[0] == "f":
        return "%s.%s" % (c, el[1])
    if el[0] == "v":
        return "(vget %s %s)" % (c, el[1])
    if el[0] == "m":
        return "(%s.elt_at %s %s)" % (el[1], c, el[2])
    if el[0] == "p":
        return "(pderef %s)" % c
    if el[0] == "h":
        return "(hget %s %s)" % (c, el[1])
    raise Unsupported("path " + str(el))


def upd(cur, path, new):
    if not path:
        return new
    el, rest = path[0], path[1:]
    inner = upd(get_el(cur, el), rest, new)
    if el[0] == "f":
        return "{ %s with %s = %s }" % (cur, el[1], inner)
    if el[0] == "v":
        return "(vset %s %s %s)" % (cur, el[1], inner)
    if el[0] == "m":
        return "(%s.put %s %s %s)" % (el[1], cur, el[2], inner)
    if el[0] == "p":
        return "(Ptr %s)" % inner
    if el[0] == "h":
        return "(hset %s %s %s)" % (cur, el[1], inner)
    raise Unsupported("update path " + str(el))


SIMPLE = re.compile(r"^\(?-?[A-Za-z0-9_'.]+\)?$")


class Translator:
    def __init__(self, ast, contract, local_names=None):
        self.ast = ast
        self.ct = contract
        self.types = {}         # norm cxx -> dict
        self.out = []
        self.fn_by_decl = {}    # canonical id -> Fn
        self.fn_text = {}       # name -> text
        self.fn_err = {}        # name -> reason
        self.fn_locals = {}
        self.fn_funcs = {}
        self.local_names = local_names or {}
        self.globals = {}
        self.records = {}       # qname -> record decl
        self.assumptions = set()
        self.xfn = {}
        self.cmps = {}
        self.segs = {}
        self.bitw = {}
        self.dropped = set()
        self.mutrec = set()
        self.aliases = {it[0]: it[1] for k, it in contract.items if k == "alias"}
        self.opaque = set(x for o in contract.opts.get('opaque', []) for x in o.split())
        for i, n in ast.decl.items():
            if n["kind"] in DECL_REC and n.get("completeDefinition") and not ast.in_template_pattern(n):
                self.records[ast.qname(n)] = n
        for i, n in ast.decl.items():
            if n["kind"] in DECL_REC and n.get("completeDefinition"):
                pass
            elif n["kind"] == "CXXRecordDecl" and not n.get("isImplicit") and not ast.in_template_pattern(n):
                self.records.setdefault(ast.qname(n), n)
            elif n["kind"] == "ClassTemplateSpecializationDecl" and n.get("inner"):
                self.records.setdefault(ast.qname(n), n)
        self.resolve_functions()

    # ---------------------------------------------------------------- functions
    def param_types(self, n):
        return [self.rtype(p["type"], n) for p in self.ast.params(n)]

    def sig(self, n):
        return "%s(%s)" % (self.ast.qname(n), ", ".join(self.full_ptype(p["type"], n) for p in self.ast.params(n)))

    def full_ptype(self, t, scope):
        q = t["qualType"]
        ref = "&" if is_ref(q) else ""
        cst = "const " if is_const_ref(q) else ""
        return cst + self.rtype(t, scope) + ref

    def resolve_functions(self):
        byname = {}
        for q, n in self.ast.functions():
            byname.setdefault(q, []).append(n)
        self.byname = byname
        self.missing = []
        for kind, it in self.ct.items:
            if kind != "fn" or not it.cxx:
                continue
            m = re.match(r"(.*?)\(([^()]*)\)( const)?$", it.cxx)
            if it.cxx.endswith("operator()"):
                m = None
            if m is None or m.group(1).endswith("operator"):
                m2 = re.match(r"(.*operator\(\))(?:\((.*)\))?$", it.cxx)
                name, ps = (m2.group(1), m2.group(2)) if m2 else (it.cxx, None)
            else:
                name, ps = m.group(1), m.group(2)
            cands = byname.get(name, [])
            if ps is not None:
                want = [norm(x) if not x.strip().endswith("*") else norm(x.strip()[:-1]) + " *" for x in split_targs(ps)] if ps.strip() else []
                c2 = []
                for n in cands:
                    have = self.param_types(n)
                    if len(have) == len(want) and all(h == w for h, w in zip(have, want)):
                        c2.append(n)
                if len(c2) != 1:
                    c3 = [n for n in cands if len(self.ast.params(n)) == len(want)]
                    if not c2 and len(c3) == 1:
                        c2 = c3
                cands = c2
                if len(cands) > 1 and m.group(3):
                    cands = [n for n in cands if n["type"]["qualType"].endswith("const")]
                elif len(cands) > 1:
                    cands = [n for n in cands if not n["type"]["qualType"].endswith("const")]
            if len(cands) != 1:
                self.missing.append(it.name)
                self.fn_err[it.name] = "function %s not found (%d candidates)" % (it.cxx, len(cands))
                it.node = None
            else:
                it.node = cands[0]
                self.fn_by_decl[self.ast.canon[cands[0]["id"]]] = it

    # ---------------------------------------------------------------- types
    def tstr(self, t):
        return norm(t.get("desugaredQualType", t["qualType"]))

    def rtype(self, t, scope):
        """Normalised type of a JSON type object, resolving typedefs below references."""
        s = norm(t.get("desugaredQualType", t["qualType"]))
        return self.resolve_name(s, scope)

    def resolve_name(self, s, scope=None):
        if s in self.types or s in INT_TYPES or s in ("bool", "void"):
            return s
        if s in self.aliases:
            return self.resolve_name(self.aliases[s], scope)
        if s in self.records:
            return s
        ptr = ""
        if s.endswith("*"):
            ptr = " *"
            s2 = norm(s[:-1])
            r = self.resolve_name(s2, scope)
            return r + "*" if r + "*" in self.types else r + ptr
        # search scopes
        scopes = []
        p = scope
        while p is not None:
            scopes.append(self.ast.qname(p))
            p = self.ast.parent_of(p)
        for sc in scopes + [""]:
            q = (sc + "::" if sc else "") + s
            if q in self.ast.typedefs:
                return self.resolve_name(norm(self.ast.typedefs[q]), scope)
            if q in self.records or q in self.types:
                return q
        cands = set(norm(v) for k, v in self.ast.typedefs.items() if k.endswith("::" + s))
        if len(cands) == 1:
            c = cands.pop()
            if c != s:
                return self.resolve_name(c, scope)
        rc = [k for k in self.records if k.endswith("::" + s)]
        if len(rc) == 1:
            return rc[0]
        tc = [k for k in self.types if k.endswith("::" + s)]
        if len(tc) == 1:
            return tc[0]
        return s

    def etype(self, node):
        return self.resolve_name(self.tstr(node["type"]), self.curfn)

    def kind(self, ty):
        if ty in INT_TYPES:
            return "int"
        if ty == "bool":
            return "bool"
        if ty == "hptr *":
            return "ptr"
        if ty in self.types:
            return self.types[ty]["kind"]
        if re.match(r"std::_Rb_tree_(const_)?iterator<", ty):
            return "oiter"
        if re.match(r"__gnu_cxx::__normal_iterator<", ty):
            return "viter"
        if ty.endswith("*"):
            return "ptr"
        return None

    def wtype(self, ty):
        k = self.kind(ty)
        if k == "int":
            return "int"
        if k == "bool":
            return "bool"
        if ty == "void":
            return "unit"
        if ty in self.types:
            return self.types[ty]["why"]
        if k == "viter":
            return "int"
        if k == "ptr":
            base = self.types.get(ty)
            return "int"
        if ty in self.records and ty.split("::")[-1] in self.opaque:
            return "int"
        raise Unsupported("type " + ty)

    # ---------------------------------------------------------------- emission helpers
    def emit(self, line):
        if line.startswith("assert") or line.startswith("assume"):
            line = line.replace("(hget ", "(lget ")
        self.lines.append(line)

    def capture(self, f):
        save = self.lines
        self.lines = []
        try:
            r = f()
            got = self.lines
        finally:
            self.lines = save
        return r, got

    def fresh(self, base="t"):
        self.counter += 1
        return "%s_%d" % (base, self.counter)

    def localname(self, name, ty):
        i = len(self.locals)
        cur = self.fname
        want = self.local_names.get(cur)
        self.locals.append((name, ty))
        if want is not None and i < len(want) and want[i][1] == ty and self.rename_ok:
            name = want[i][0]
        if not name:
            name = "anon"
        n = re.sub(r"[^A-Za-z0-9_]", "_", name)
        if n[0].isupper():
            n = "v_" + n
        if n in KEYWORDS or n in ("length", "hs") or n.startswith("__"):
            n = "v_" + n.strip("_")
        if n in self.usednames:
            k = 2
            while "%s_%d" % (n, k) in self.usednames:
                k += 1
            n = "%s_%d" % (n, k)
        self.usednames.add(n)
        return n

    def bind(self, code, base="t"):
        if SIMPLE.match(code) and not code.startswith("("):
            # constants and immutable names need no binding; mutable refs do
            if re.match(r"^-?\d+$", code) or code in self.immutable:
                return code
        n = self.fresh(base)
        self.emit("let %s = %s in" % (n, code))
        self.immutable.add(n)
        return n

    def val(self, x):
        if isinstance(x, Place):
            if x.path and x.path[-1][0] == "pair":
                raise Unsupported("pair value")
            return Val(x.get(), x.ty, x.base)
        return x

    def assign(self, place, code):
        if place.const:
            raise Unsupported("assignment to constant %s" % place.root)
        if place.path and place.path[-1][0] == "pair":
            raise Unsupported("pair assign")
        if place.path and place.path[-1][0] == "f" and place.path[-1][1] in self.bitw:
            code = self.bind(code, "bf")
            self.emit("assert { [@expl:value fits in the bit field] 0 <= %s < %d };" % (code, 1 << self.bitw[place.path[-1][1]]))
        self.emit("%s <- %s;" % (place.root, place.upd(code)))

    # ---------------------------------------------------------------- expressions
    def inner(self, n):
        return [c for c in n.get("inner", ()) if c and not c.get("kind", "").endswith("Comment")]

    def strip(self, n):
        while n["kind"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "FullExpr") or \
                (n["kind"] in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr") and n.get("castKind") in ("NoOp", "LValueToRValue", "FunctionToPointerDecay", "UserDefinedConversion", "ConstructorConversion")):
            n = self.inner(n)[-1]
        return n

    def rv(self, n):
        return self.val(self.ex(n))

    def lv(self, n):
        x = self.ex(n)
        if isinstance(x, Place):
            return x
        # temporary
        nm = self.fresh("tmp")
        self.emit("let ref %s = %s in" % (nm, x.code))
        return Place(nm, (), x.ty, False, x.base)

    def eval_list(self, nodes, modes):
        """Evaluate several operands left to right; freeze earlier ones if later ones have effects."""
        res = []
        for n, m in zip(nodes, modes):
            r, lines = self.capture(lambda: self.ex(n))
            if lines:
                for j, (pm, pr) in enumerate(res):
                    if pm == "v":
                        v = self.val(pr)
                        res[j] = (pm, Val(self.bind(v.code), v.ty, v.base, v.extra))
                self.lines.extend(lines)
            res.append((m, r))
        out = []
        for m, r in res:
            out.append(self.val(r) if m == "v" else r)
        return out

    def ex(self, n):
        k = n["kind"]
        h = getattr(self, "x_" + k, None)
        if h is None:
            raise Unsupported("expression kind " + k)
        return h(n)

    def x_pass(self, n):
        return self.ex(self.inner(n)[-1])

    x_ParenExpr = x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = x_ConstantExpr = x_SubstNonTypeTemplateParmExpr = x_pass

    def x_CXXDefaultArgExpr(self, n):
        raise Unsupported("default argument")

    def x_IntegerLiteral(self, n):
        return Val(str(n["value"]), self.etype(n))

    def x_CharacterLiteral(self, n):
        return Val(str(n["value"]), self.etype(n))

    def x_CXXBoolLiteralExpr(self, n):
        return Val("true" if n["value"] else "false", "bool")

    def x_GNUNullExpr(self, n):
        return Val("null", "nullptr")

    def x_CXXNullPtrLiteralExpr(self, n):
        return Val("null", "nullptr")

    def x_CXXThisExpr(self, n):
        # pointer to the object; represented by the place itself
        p = self.this
        return Val("this", self.etype(n), p, "thisptr")

    def x_DeclRefExpr(self, n):
        rd = n["referencedDecl"]
        i = rd["id"]
        if i in self.env:
            return self.env[i]
        d = self.ast.decl.get(i)
        if rd["kind"] == "EnumConstantDecl":
            return Val(str(self.enum_value(d, rd)), self.etype(n))
        if rd["kind"] == "NonTypeTemplateParmDecl":
            raise Unsupported("template parameter")
        if d is not None and d["kind"] == "VarDecl":
            v = self.const_value(d)
            if v is not None:
                return v
            q = self.ast.qname(d)
            if q in self.globals:
                g = self.globals[q]
                return Place(g["why"], (), g["ty"], True)
        raise Unsupported("reference to %s %s" % (rd["kind"], rd.get("name")))

    def const_value(self, d):
        """constant static members / global constants"""
        seen = [d] + [x for x in self.ast.decl.values() if x["kind"] == "VarDecl" and x.get("previousDecl") == d["id"]]
        if "const" not in d["type"]["qualType"]:
            return None
        for x in seen:
            ii = self.inner(x)
            if ii and x.get("init"):
                try:
                    v, lines = self.capture(lambda: self.rv(ii[0]))
                except Unsupported:
                    return None
                if not lines:
                    return v
        return None

    def enum_value(self, d, rd):
        if d is None:
            raise Unsupported("enum constant " + rd.get("name", "?"))
        p = self.ast.parent_of(d)
        cur = -1
        for c in p.get("inner", ()):
            if c.get("kind") != "EnumConstantDecl":
                continue
            ii = self.inner(c)
            if ii:
                cur = self.const_int(ii[0])
            else:
                cur += 1
            if c["id"] == d["id"]:
                return cur
        raise Unsupported("enum value")

    def const_int(self, n):
        if n["kind"] == "ConstantExpr" and "value" in n:
            return int(n["value"])
        if n["kind"] in ("IntegerLiteral", "CharacterLiteral"):
            return int(n["value"])
        if n["kind"] == "UnaryOperator" and n["opcode"] == "-":
            return -self.const_int(self.inner(n)[0])
        if n["kind"] == "UnaryOperator" and n["opcode"] == "~":
            return ~self.const_int(self.inner(n)[0])
        if n["kind"] == "BinaryOperator":
            a, b = [self.const_int(x) for x in self.inner(n)]
            op = n["opcode"]
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b, "|": lambda: a | b, "&": lambda: a & b}
            if op in f:
                return f[op]()
            if op in ("/", "%") and a >= 0 and b > 0:
                return a // b if op == "/" else a % b
        if n["kind"] in ("ImplicitCastExpr", "ParenExpr", "SubstNonTypeTemplateParmExpr", "CStyleCastExpr", "CXXStaticCastExpr", "ConstantExpr"):
            return self.const_int(self.inner(n)[-1])
        if n["kind"] == "DeclRefExpr":
            d = self.ast.decl.get(n["referencedDecl"]["id"])
            if n["referencedDecl"]["kind"] == "EnumConstantDecl":
                return self.enum_value(d, n["referencedDecl"])
            if d is not None and d["kind"] == "VarDecl" and "const" in d["type"]["qualType"]:
                for x in [d] + [y for y in self.ast.decl.values() if y.get("previousDecl") == d["id"]]:
                    ii = self.inner(x)
                    if ii and x.get("init"):
                        return self.const_int(ii[0])
        raise Unsupported("not a constant")

    def try_const(self, n):
        try:
            return self.const_int(n)
        except Unsupported:
            return None

    # member access
    def x_MemberExpr(self, n):
        obj = self.ex(self.inner(n)[0])
        if n.get("isArrow"):
            obj = self.deref(obj)
        if isinstance(obj, Val) and obj.extra == "pair":
            return obj.base[0] if n["name"] == "first" else obj.base[1]
        if isinstance(obj, Place) and obj.path and obj.path[-1][0] == "pair":
            el = obj.path[-1]
            if n["name"] == "first" and self.types[el[3]].get("rec"):
                return Place(obj.root, obj.path[:-1] + (("m", el[1], el[2]), ("f", self.types[el[3]]["rec"][0])), self.types[el[3]]["keyty"], True)
            if n["name"] == "first":
                if self.types[el[3]].get("keyfn"):
                    raise Unsupported("key of a map ordered by a part of its keys")
                return Val(el[2], self.types[el[3]]["keyty"])
            if n["name"] == "second":
                return Place(obj.root, obj.path[:-1] + (("m", el[1], el[2]),) + ((("f", self.types[el[3]]["rec"][1]),) if self.types[el[3]].get("rec") else ()), self.types[el[3]]["eltty"], obj.const)
        if isinstance(obj, Val):
            t = obj.ty
            if n.get("referencedMemberDecl") in self.ast.decl and self.ast.decl[n["referencedMemberDecl"]]["kind"] == "VarDecl":
                return self.const_value(self.ast.decl[n["referencedMemberDecl"]])
            if t in self.types and self.types[t]["kind"] == "record":
                f = self.field(t, n["name"])
                return Val("%s.%s" % (self.atom(obj.code), f[0]), f[1])
            if t in self.types and self.types[t]["kind"] == "pair":
                w = self.types[t]
                return Val("(%s %s)" % ("fst" if n["name"] == "first" else "snd", self.atom(obj.code)), w["a"] if n["name"] == "first" else w["b"])
            raise Unsupported("member %s of %s" % (n["name"], t))
        d = self.ast.decl.get(n.get("referencedMemberDecl"))
        if d is not None and d["kind"] == "VarDecl":
            v = self.const_value(d)
            if v is not None:
                return v
        if obj.ty in self.types and self.types[obj.ty]["kind"] == "pair":
            w = self.types[obj.ty]
            v = obj.get()
            return Val("(%s %s)" % ("fst" if n["name"] == "first" else "snd", v), w["a"] if n["name"] == "first" else w["b"])
        f = self.field(obj.ty, n["name"])
        return obj.ext(("f", f[0]), f[1])

    def atom(self, c):
        if SIMPLE.match(c) or (c.startswith("(") and c.endswith(")")):
            return c if SIMPLE.match(c) else "(" + c + ")"
        return "(" + c + ")"

    def field(self, ty, name):
        t = self.types.get(ty)
        if t is None or t["kind"] != "record":
            raise Unsupported("field %s of type %s" % (name, ty))
        if name not in t["fields"]:
            raise Unsupported("field %s not modelled in %s" % (name, ty))
        return t["fields"][name]

    def deref(self, x):
        """*x for pointers, iterators, handles."""
        if isinstance(x, Val) and x.extra == "thisptr":
            return x.base
        if isinstance(x, Val) and x.extra == "addr":
            return x.base
        v = self.val(x)
        k = self.kind(v.ty)
        if k == "oiter":
            if v.base is None:
                raise Unsupported("iterator without container")
            t = self.types[v.base.ty]
            key = self.bind("(it_key %s)" % self.atom(v.code), "k")
            if t.get("ismap"):
                return Place(v.base.root, v.base.path + (("pair", t["ns"], key, v.base.ty),), None, v.base.const)
            if t.get("keyonly"):
                self.emit("assert { [@expl:iterator dereferences an element] %s.mem %s %s };" % (t["ns"], v.base.get(), key))
                return Val(key, t["eltty"])
            return Place(v.base.root, v.base.path + (("m", t["ns"], key),), t["eltty"], True)
        if k == "ptr" and v.base is None and v.ty in self.segs:
            v = Val(v.code, v.ty, self.segs[v.ty])
        if k == "viter" or (k == "ptr" and v.base is not None):
            if v.base is None:
                raise Unsupported("iterator without container")
            i = self.bind(v.code, "i")
            if self.kind(v.base.ty) == "harr":
                self.emit("assert { [@expl:array access within bounds] %s <> HNull /\\ 0 <= %s < length (hs %s) };" % (v.base.get(), i, v.base.get()))
                return Place(v.base.root, v.base.path + (("h", i),), self.types[v.base.ty]["eltty"], v.base.const)
            return Place(v.base.root, v.base.path + (("v", i),), self.types[v.base.ty]["eltty"], v.base.const)
        if (self.ownptr(v.ty) or self.refptr(v.ty)) and isinstance(x, Place):
            q = self.bind(v.code, "p")
            self.emit("assert { [@expl:pointer is not null] %s <> Null };" % q)
            return x.ext(("p",), self.types[v.ty]["to"])
        if self.kind(v.ty) == "ptrv":
            return Val(self.bind("(pderef %s)" % self.atom(v.code), "d"), self.types[v.ty]["to"])
        if v.ty in self.types and self.types[v.ty]["kind"] == "handle":
            t = self.types[v.ty]
            if isinstance(x, Place):
                if t.get("mut") == "yes" and not x.const:
                    self.assumptions.add("a change made through a %s is modelled in that handle only, not in others that share the object" % v.ty)
                    return Place(x.root, x.path, t["to"], False)
                return Place(x.root, x.path, t["to"], True)
            return Val(v.code, t["to"])
        raise Unsupported("dereference of " + v.ty)

    # casts
    def cast_int(self, v, frm, to):
        if frm == to or frm not in INT_TYPES or to not in INT_TYPES:
            return Val(v.code, to, v.base)
        fs, fb = INT_TYPES[frm]
        ts, tb = INT_TYPES[to]
        if re.match(r"^\d+$", v.code):
            x = int(v.code)
            if x < (1 << (tb - (1 if ts else 0))):
                return Val(v.code, to)
        if fs == ts and tb >= fb:
            return Val(v.code, to)
        if not fs and ts and tb > fb:
            return Val(v.code, to)
        if fs and not ts and tb >= fb:
            if self.opt("wrapcast"):
                return Val("(wrap_u%d %s)" % (tb, self.atom(v.code)), to)
            return Val("(to_unsigned %s)" % self.atom(v.code), to)
        if self.opt("wrapcast"):
            return Val("(wrap_%s%d %s)" % ("s" if ts else "u", tb, self.atom(v.code)), to)
        if not ts:
            return Val("(trunc_u%d %s)" % (tb, self.atom(v.code)), to)
        # to signed, narrower or same width from unsigned: value must fit
        return Val("(narrow_s%d %s)" % (tb, self.atom(v.code)), to)

    def opt(self, name):
        return name in self.fnopts

    def owned(self, ty):
        """an owning pointer to a heap array, modelled as the sequence of its elements"""
        return ty in self.types and self.types[ty].get("own") == "yes"

    def ownptr(self, ty):
        """a pointer that owns the object it points to"""
        return self.kind(ty) == "ptrv" and self.types[ty].get("own") == "yes"

    def refptr(self, ty):
        """a pointer that is the only way the program reaches the object it points to (assumed, own=ref)"""
        if self.kind(ty) == "ptrv" and self.types[ty].get("own") == "ref":
            self.assumptions.add("the object behind a %s is reached through one pointer only" % ty)
            return True
        return False

    def owns(self, ty):
        return self.kind(ty) == "harr" or self.ownptr(ty)

    def fresh_owner(self, v, ty):
        """a value that may be stored in an owning pointer: newly allocated or null"""
        if v.extra == "null" or v.ty == "nullptr" or v.code == "Null":
            return Val("HNull" if self.kind(ty) == "harr" else "Null", ty)
        if v.extra == "heap":
            return v
        raise Unsupported("owning pointer copied")

    def moved_out(self, r):
        """returning an owning pointer hands it over; it must be a local variable"""
        if isinstance(r, Place) and self.owns(r.ty) and (r.path or r.root == "this"):
            raise Unsupported("owning pointer returned from a data structure")

    def heap_target(self, n):
        """a pointer into an owned array: (place, offset code)"""
        n = self.strip(n)
        while n["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr"):
            n = self.strip(self.inner(n)[0])
        off = "0"
        if n["kind"] == "BinaryOperator" and n["opcode"] == "+":
            l, r = self.inner(n)
            off = self.bind(self.rv(r).code, "off")
            n = self.strip(l)
        p = self.ex(n)
        if not isinstance(p, Place) or self.kind(p.ty) != "harr":
            raise Unsupported("block copy")
        return p, off

    def range_ptr(self, n):
        """an iterator or pointer into a vector or owned array: (place of the container, index code)"""
        v = self.rv(n)
        if self.kind(v.ty) == "harr":
            p = self.ex(n)
            if isinstance(p, Place):
                return p, "0"
        if v.base is None and self.kind(v.ty) == "ptr" and v.ty in self.segs:
            return self.segs[v.ty], self.bind(v.code, "i")
        if v.base is None or self.kind(v.ty) not in ("ptr", "viter"):
            raise Unsupported("iterator range of " + v.ty)
        return v.base, self.bind(v.code, "i")

    def algorithm(self, name, args, n):
        """std::sort, lower_bound, upper_bound, binary_search and find over a vector or array"""
        npos = {"sort": 2}.get(name, 3)
        b, i = self.range_ptr(args[0])
        e, j = self.range_ptr(args[1])
        if b.get() != e.get():
            raise Unsupported("range of two containers")
        elt = self.types[b.ty]["eltty"]
        if len(args) > npos:
            c = self.strip(args[-1])
            while c["kind"] in ("ImplicitCastExpr", "CStyleCastExpr") or (c["kind"] == "UnaryOperator" and c.get("opcode") == "&"):
                c = self.strip(self.inner(c)[0])
            q = self.ast.qname(self.ast.decl.get((c.get("referencedDecl") or {}).get("id"))) if c["kind"] == "DeclRefExpr" else None
        elif self.kind(elt) == "int":
            q = None
        else:
            q = elt + ("::operator==" if name == "find" else "::operator<")
        if q is None and len(args) == npos:
            lt = "int_eq" if name == "find" else "int_lt"
        elif q in self.cmps:
            lt = self.cmps[q]
        else:
            raise Unsupported("comparison function %s" % q)
        self.assumptions.add("assumed contract: std::" + name)
        h = "h" if self.kind(b.ty) == "harr" else "v"
        if name == "sort":
            self.assign(b, "(%s_sort %s %s %s %s)" % (h, lt, self.atom(b.get()), i, j))
            return Val("()", "void")
        v = self.rv(args[2])
        code = "(%s_%s %s %s %s %s %s)" % (h, name, lt, self.atom(b.get()), i, j, self.atom(v.code))
        if name == "binary_search":
            return Val(code, "bool")
        return Val(self.bind(code, "at"), "hptr *" if h == "h" or b.ty.startswith("seg:") else self.etype(n), b)

    def own_value(self, v):
        """the right hand side of an assignment to an owning pointer"""
        if v.extra == "heap":
            return v
        if v.extra == "null" or v.ty == "nullptr":
            return Val("empty", v.ty)
        raise Unsupported("owned array pointer copied")

    def heap_count(self, n, elt):
        """n is sizeof(elt) * count: the count"""
        n = self.strip(n)
        if n["kind"] == "BinaryOperator" and n["opcode"] == "*":
            a, b = self.inner(n)
            for x, y in ((a, b), (b, a)):
                x = self.strip(x)
                if x["kind"] == "UnaryExprOrTypeTraitExpr" and x.get("name") == "sizeof":
                    return self.rv(y)
        raise Unsupported("allocation size")

    def x_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        i = self.inner(n)[0]
        if ck in ("NoOp", "FunctionToPointerDecay", "UserDefinedConversion", "ConstructorConversion"):
            return self.ex(i)
        if ck == "LValueToRValue":
            r = self.ex(i)
            return r
        if ck == "IntegralCast":
            c = self.try_const(i)
            to = self.etype(n)
            if c is not None and to in INT_TYPES:
                ts, tb = INT_TYPES[to]
                if not ts:
                    c %= (1 << tb)
                return Val(str(c) if c >= 0 else "(%d)" % c, to)
            v = self.rv(i)
            if v.ty == "bool":
                return Val("(if %s then 1 else 0)" % v.code, to)
            frm = v.ty
            if frm not in INT_TYPES:
                frm = "unsigned int" if frm in self.types else frm
            return self.cast_int(v, frm, to)
        if ck == "IntegralToBoolean":
            v = self.rv(i)
            return Val("(%s <> 0)" % v.code, "bool")
        if ck == "NullToPointer":
            ty = self.etype(n)
            if self.kind(ty) == "ptrv":
                return Val("Null", ty, None, "null")
            return Val("null", "nullptr", None, "null")
        if ck == "PointerToBoolean":
            v = self.rv(i)
            if self.kind(v.ty) == "harr":
                return Val("(not (h_is_null %s))" % self.atom(v.code), "bool")
            if v.extra in ("thisptr", "addr"):
                return Val("true", "bool")
            if self.kind(v.ty) == "ptrv":
                return Val("(not (is_null %s))" % self.atom(v.code), "bool")
            if self.owned(v.ty):
                return Val("(own_not_null %s)" % self.atom(v.code), "bool")
            return Val("(not_null %s)" % self.atom(v.code), "bool")
        if ck == "BitCast":
            v = self.ex(i)
            if isinstance(v, Place):
                if self.owned(v.ty):
                    return v
                v = self.val(v)
            if v.extra == "heap":
                return v
            raise Unsupported("pointer cast")
        if ck == "ArrayToPointerDecay":
            r = self.ex(i)
            if isinstance(r, Place):
                return Val("0", self.etype(n), r)
            raise Unsupported("array decay")
        if ck in ("UncheckedDerivedToBase", "DerivedToBase"):
            r = self.ex(i)
            return self.upcast(r)
        if ck == "ToVoid":
            return self.ex(i)
        raise Unsupported("cast " + str(ck))

    def upcast(self, r):
        """the base class part of an object whose record keeps it as a field"""
        pl = r.base if isinstance(r, Val) and r.extra in ("addr", "thisptr") else r
        t = self.types.get(pl.ty) if pl is not None else None
        if not t or not t.get("base"):
            return r
        w, bt = t["base"]
        if isinstance(r, Val) and r.extra in ("addr", "thisptr"):
            return Val(r.code, r.ty, pl.ext(("f", w), bt), "addr")
        if isinstance(r, Val):
            return Val("%s.%s" % (self.atom(r.code), w), bt, None, r.extra)
        return r.ext(("f", w), bt)

    x_CXXStaticCastExpr = x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr

    # operators
    def x_UnaryOperator(self, n):
        op = n["opcode"]
        i = self.inner(n)[0]
        if op == "&":
            r = self.ex(i)
            if isinstance(r, Place):
                if r.path and r.path[-1][0] == "v":
                    return Val(r.path[-1][1], self.etype(n), Place(r.root, r.path[:-1], self.arr_type_of(r), r.const))
                return Val("addr", self.etype(n), r, "addr")
            if isinstance(r, Val) and self.kind(self.etype(n)) == "ptrv" and not self.ownptr(self.etype(n)):
                return Val("(Ptr %s)" % self.atom(r.code), self.etype(n))
            raise Unsupported("address of value")
        if op == "*":
            return self.deref(self.ex(i))
        if op in ("++", "--"):
            return self.incdec(self.lv(i), op, n.get("isPostfix"))
        if op == "-":
            c = self.try_const(n)
            if c is not None:
                return Val("(%d)" % c if c < 0 else str(c), self.etype(n))
            v = self.rv(i)
            return Val("(- %s)" % self.atom(v.code), self.etype(n))
        if op == "!":
            v = self.rv(i)
            return Val("(not %s)" % self.atom(v.code), "bool")
        if op == "~":
            c = self.try_const(n)
            if c is not None:
                return Val("(%d)" % c, self.etype(n))
            v = self.rv(i)
            if self.opt("bits") and INT_TYPES.get(v.ty) in ((False, 32), (False, 64)):
                return Val("(bnot_u%d %s)" % (INT_TYPES[v.ty][1], self.atom(v.code)), self.etype(n))
            return Val("(bnot %s)" % self.atom(v.code), self.etype(n))
        raise Unsupported("unary " + op)

    def arr_type_of(self, r):
        # container type of an element place: recompute by walking is not possible in general
        for ty, t in self.types.items():
            if t["kind"] in ("vec", "arr") and t.get("eltty") == r.ty:
                return ty
        return None

    def incdec(self, p, op, postfix):
        k = self.kind(p.ty)
        old = None
        if postfix:
            b = p.base
            old = Val(self.bind(p.get(), "old"), p.ty, b)
        if k == "oiter":
            if p.base is None:
                raise Unsupported("iterator without container")
            ns = self.types[p.base.ty]["ns"]
            self.assign(p, "%s.%s %s %s" % (ns, "next" if op == "++" else "prev", p.base.get(), p.get()))
        elif k in ("int", "viter", "ptr"):
            if k == "int" and not INT_TYPES[p.ty][0] and op == "--":
                self.assign(p, "(usub %s 1)" % p.get())
            elif k == "int":
                self.assign(p, self.arith("+" if op == "++" else "-", p.get(), "1", p.ty))
            else:
                self.assign(p, "%s %s 1" % (p.get(), "+" if op == "++" else "-"))
        else:
            raise Unsupported("++ on " + str(p.ty))
        return old if postfix else p

    def arith(self, op, a, b, ty):
        s, bits = INT_TYPES.get(ty, (True, 32))
        if op == "-" and not s:
            return "(usub %s %s)" % (self.atom(a), self.atom(b))
        if self.opt("overflow"):
            if op in "+-*":
                nm = {"+": "add", "-": "sub", "*": "mul"}[op]
                return "(%s_%s%d %s %s)" % (nm, "s" if s else "u", bits, self.atom(a), self.atom(b))
        else:
            if s:
                self.assumptions.add("signed integer arithmetic treated as mathematical (no overflow)")
            else:
                self.assumptions.add("unsigned addition/multiplication treated as mathematical (no wrap-around); subtraction checked")
        return "(%s %s %s)" % (a, op, b)

    def x_BinaryOperator(self, n):
        op = n["opcode"]
        l, r = self.inner(n)
        if op == ",":
            self.ex(l)
            return self.ex(r)
        if op == "=":
            # builtin assignment
            if self.kind(self.etype(l)) == "harr":
                # a local owning pointer handed over to a data structure: the local may not be used again (it becomes null)
                src = self.ex(r)
                if isinstance(src, Place) and not src.path and src.root != "this" and not src.const:
                    v = self.bind(src.get(), "moved")
                    p = self.lv(l)
                    for k, (o, t) in list(getattr(self, "moved_to", {}).items()):
                        if t.root == p.root and tuple(t.path)[:len(p.path)] == tuple(p.path)[:len(t.path)]:
                            self.env[k] = o          # the data structure's pointer is replaced: the old name is dead
                            del self.moved_to[k]
                    self.assign(p, v)
                    self.assign(src, "HNull")
                    rr = self.strip(r)
                    while rr["kind"] == "ImplicitCastExpr":
                        rr = self.strip(self.inner(rr)[0])
                    if rr["kind"] == "DeclRefExpr" and p.root == "this" and all(x[0] == "f" for x in p.path):
                        # until the end of this block the local name means the moved array
                        did = rr["referencedDecl"]["id"]
                        if self.env.get(did) is not None and self.env[did].root == src.root:
                            self.moved_to = getattr(self, "moved_to", {})
                            self.moved_to[did] = (src, p)
                            self.env[did] = Place(p.root, p.path, src.ty, False)
                    return p
                rvv = self.val(src)
            else:
                rvv = self.rv(r)
            p, lines = self.capture(lambda: self.lv(l))
            if lines:
                if rvv.extra != "null" and rvv.ty != "nullptr":
                    rvv = Val(self.bind(rvv.code), rvv.ty, rvv.base, rvv.extra)
                self.lines.extend(lines)
            self.do_assign(p, rvv, l)
            return p
        if op in ("&&", "||"):
            a = self.rv(l)
            b, lines = self.capture(lambda: self.rv(r))
            bc = b.code
            if lines:
                bc = "(begin %s %s end)" % (" ".join(lines), bc)
            return Val("(%s %s %s)" % (a.code, op, bc), "bool")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            ls, rs = self.strip(l), self.strip(r)
            # identity comparison of objects
            if op in ("==", "!="):
                c = self.identity(ls, rs)
                if c is not None:
                    return Val(c if op == "==" else "(not %s)" % c, "bool")
            a, b = self.eval_list([l, r], "vv")
            if op in ("==", "!=") and (self.kind(a.ty) == "ptrv" or self.kind(b.ty) == "ptrv"):
                if a.code == "Null" or b.code == "Null":
                    o = b if a.code == "Null" else a
                    c = "false" if o.extra in ("addr", "thisptr") else "(is_null %s)" % self.atom(o.code)
                else:
                    c = "(ptr_eq %s %s)" % (self.atom(self.ptrval(a).code), self.atom(self.ptrval(b).code))
                return Val(c if op == "==" else "(not %s)" % c, "bool")
            if a.ty == "nullptr" or b.ty == "nullptr":
                v = b if a.ty == "nullptr" else a
                c = self.null_test(v)
                return Val(c if op == "==" else "(not %s)" % c, "bool")
            if self.kind(a.ty) == "bool":
                if op == "==":
                    return Val("(beq %s %s)" % (self.atom(a.code), self.atom(b.code)), "bool")
                if op == "!=":
                    return Val("(not (beq %s %s))" % (self.atom(a.code), self.atom(b.code)), "bool")
                raise Unsupported("bool order")
            if op == "==":
                return Val("(%s = %s)" % (a.code, b.code), "bool")
            if op == "!=":
                return Val("(%s <> %s)" % (a.code, b.code), "bool")
            return Val("(%s %s %s)" % (a.code, op, b.code), "bool")
        if op == "+" and self.kind(self.etype(l)) == "harr":
            p = self.ex(l)
            if isinstance(p, Place):
                return Val(self.bind(self.rv(r).code, "off"), "hptr *", p)
        a, b = self.eval_list([l, r], "vv")
        return self.binop(op, a, b, l, r, self.etype(n))

    def ptrval(self, v):
        """a pointer as a value: &x and this become Ptr x"""
        if v.extra in ("addr", "thisptr"):
            b = self.val(v.base) if isinstance(v.base, Place) else v.base
            return Val("(Ptr %s)" % self.atom(b.code), v.ty)
        return v

    def null_test(self, v):
        if self.kind(v.ty) == "harr":
            return "(h_is_null %s)" % self.atom(v.code)
        if self.kind(v.ty) == "ptrv":
            return "(is_null %s)" % self.atom(v.code)
        if v.extra in ("thisptr", "addr"):
            return "false"
        t = self.types.get(v.ty)
        if t is not None and "isnull" in t:
            return "(%s %s)" % (t["isnull"], self.atom(v.code))
        raise Unsupported("null test of " + v.ty)

    def identity(self, a, b):
        def addr(x):
            if x["kind"] == "CXXThisExpr":
                return self.this
            if x["kind"] == "UnaryOperator" and x["opcode"] == "&":
                r = self.ex(self.inner(x)[0])
                if isinstance(r, Place):
                    return r
            return None
        if a["kind"] in ("CXXThisExpr",) or b["kind"] == "CXXThisExpr" or \
           (a["kind"] == "UnaryOperator" and a["opcode"] == "&" and b["kind"] == "UnaryOperator" and b["opcode"] == "&"):
            pa, pb = addr(a), addr(b)
            if pa is None or pb is None:
                raise Unsupported("address comparison")
            if pa.root == pb.root and pa.path == pb.path:
                return "true"
            return "(same_object %s %s)" % (self.atom(pa.get()), self.atom(pb.get()))
        return None

    def binop(self, op, a, b, l, r, ty):
        if op in ("+", "-", "*"):
            if self.kind(ty) == "int":
                if a.base is not None and b.base is not None and op == "-":
                    return Val("(%s - %s)" % (a.code, b.code), ty)
                return Val(self.arith(op, a.code, b.code, ty), ty)
            if self.kind(ty) in ("ptr", "viter"):
                base = a.base or b.base
                return Val("(%s %s %s)" % (a.code, op, b.code), ty, base)
            raise Unsupported("arith on " + ty)
        cb = self.try_const(r) if r is not None else None
        ca = self.try_const(l) if l is not None else None
        if self.opt("bits") and op in (">>", "<<", "&", "|", "^") and INT_TYPES.get(ty, (0, 0))[1] in (32, 64):
            sg, nb = INT_TYPES[ty]
            w = "%s%d" % ("s" if sg else "u", nb)
            if op == "<<":
                return Val("(shl_%s %s %s)" % (w, self.atom(a.code), self.atom(b.code)), ty)
            if op == ">>" and cb is None:
                return Val("(shrn_%s %s %s)" % (w, self.atom(a.code), self.atom(b.code)), ty)
            m = cb if cb is not None else ca
            if op == "&" and not (m is not None and m > 0 and (m & (m + 1)) == 0):
                return Val("(band_%s %s %s)" % (w, self.atom(a.code), self.atom(b.code)), ty)
            if op in "|^":
                return Val("(b%s_%s %s %s)" % ("or" if op == "|" else "xor", w, self.atom(a.code), self.atom(b.code)), ty)
        if op == ">>":
            if cb is None:
                return Val("(shr %s %s)" % (self.atom(a.code), self.atom(b.code)), ty)
            return Val("(shr_c %s %d)" % (self.atom(a.code), 1 << cb), ty)
        if op == "<<":
            if cb is None:
                return Val("(shl %s %s)" % (self.atom(a.code), self.atom(b.code)), ty)
            return Val(self.arith("*", a.code, str(1 << cb), ty), ty)
        if op == "&":
            m, x = (cb, a) if cb is not None else (ca, b)
            if m is not None and m >= 0:
                if m == 0:
                    return Val("0", ty)
                lo = (m & -m).bit_length() - 1
                w = m >> lo
                if (w & (w + 1)) == 0:
                    if lo == 0:
                        return Val("(mask_low %s %d)" % (self.atom(x.code), w + 1), ty)
                    return Val("(mask_mid %s %d %d)" % (self.atom(x.code), 1 << lo, w + 1), ty)
            return Val("(band %s %s)" % (self.atom(a.code), self.atom(b.code)), ty)
        if op == "|" and l is not None:
            lo, hi = self.low_bit(l), self.low_bit(r)
            if lo or hi:
                if lo < hi:
                    a, b, lo = b, a, hi
                return Val("(bor_disjoint %s %s %d)" % (self.atom(a.code), self.atom(b.code), 1 << lo), ty)
        if op == "|":
            return Val("(bor %s %s)" % (self.atom(a.code), self.atom(b.code)), ty)
        if op == "^":
            return Val("(bxor %s %s)" % (self.atom(a.code), self.atom(b.code)), ty)
        if op == "/":
            return Val("(cdiv %s %s)" % (self.atom(a.code), self.atom(b.code)), ty)
        if op == "%":
            return Val("(cmod %s %s)" % (self.atom(a.code), self.atom(b.code)), ty)
        raise Unsupported("binary " + op)

    def low_bit(self, n):
        """number of low bits of the value that are zero by construction"""
        n = self.strip(n)
        while n["kind"] == "ImplicitCastExpr" and n.get("castKind") == "IntegralCast":
            n = self.strip(self.inner(n)[0])
        if n["kind"] == "BinaryOperator":
            l, r = self.inner(n)
            if n["opcode"] == "<<":
                return self.try_const(r) or 0
            if n["opcode"] == "|":
                return min(self.low_bit(l), self.low_bit(r))
        c = self.try_const(n)
        if c:
            return (c & -c).bit_length() - 1
        return 0

    def x_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        l, r = self.inner(n)
        b = self.rv(r)
        p = self.lv(l)
        k = self.kind(p.ty)
        if k == "int":
            v = self.binop(op, Val(p.get(), p.ty), b, None, r, p.ty)
            ct = n.get("computeResultType", {}).get("qualType")
            self.assign(p, v.code)
        elif k in ("viter", "ptr"):
            self.assign(p, "(%s %s %s)" % (p.get(), op, b.code))
        elif k == "bool" and op in ("|", "&"):
            self.assign(p, "(%s %s %s)" % (p.get(), "||" if op == "|" else "&&", b.code))
        else:
            raise Unsupported("compound assignment on " + str(p.ty))
        return p

    def x_ConditionalOperator(self, n):
        c, a, b = self.inner(n)
        cv = self.rv(c)
        av, al = self.capture(lambda: self.rv(a))
        bv, bl = self.capture(lambda: self.rv(b))
        ac = av.code if not al else "(begin %s %s end)" % (" ".join(al), av.code)
        bc = bv.code if not bl else "(begin %s %s end)" % (" ".join(bl), bv.code)
        base = av.base if av.base is not None else bv.base
        return Val("(if %s then %s else %s)" % (cv.code, ac, bc), self.etype(n), base)

    def do_assign(self, p, v, node=None):
        if self.owns(p.ty):
            self.assign(p, self.fresh_owner(v, p.ty).code)
            return
        if self.owned(p.ty):
            self.assign(p, self.own_value(v).code)
            return
        if self.kind(p.ty) == "ptrv":
            v = self.ptrval(v)
            self.assign(p, v.code)
            return
        if self.kind(p.ty) in ("oiter", "viter", "ptr"):
            if v.extra in ("addr", "thisptr"):
                raise Unsupported("pointer assignment")
            if p.base is None:
                # record binding of this variable
                for i, b in list(self.env.items()):
                    if isinstance(b, Place) and b.root == p.root and not b.path and not p.path:
                        b.base = v.base
                        p.base = v.base
            elif v.base is not None and (v.base.root, v.base.path) != (p.base.root, p.base.path):
                raise Unsupported("iterator assigned from another container")
        self.assign(p, v.code)

    def x_ArraySubscriptExpr(self, n):
        a, i = self.inner(n)
        av = self.ex(a)
        iv = self.rv(i)
        v = self.val(av)
        if isinstance(av, Place) and self.kind(av.ty) == "harr":
            i = self.bind(iv.code, "i")
            self.emit("assert { [@expl:array access within bounds] %s <> HNull /\\ 0 <= %s < length (hs %s) };" % (av.get(), i, av.get()))
            return av.ext(("h", i), self.types[av.ty]["eltty"])
        if isinstance(av, Place) and self.kind(av.ty) == "arr":
            return av.ext(("v", self.bind(iv.code, "i")), self.types[av.ty]["eltty"])
        if v.base is not None:
            code = iv.code if v.code == "0" else "(%s + %s)" % (v.code, iv.code)
            idx = self.bind(code, "i")
            return Place(v.base.root, v.base.path + (("v", idx),), self.types[v.base.ty]["eltty"], v.base.const)
        raise Unsupported("subscript of " + v.ty)

    # ---------------------------------------------------------------- calls
    def callee(self, n):
        f = self.strip(self.inner(n)[0])
        return f

    def x_CXXMemberCallExpr(self, n):
        f = self.strip(self.inner(n)[0])
        if f["kind"] != "MemberExpr":
            raise Unsupported("member call through " + f["kind"])
        args = self.inner(n)[1:]
        objn = self.inner(f)[0]
        d = self.ast.decl.get(f.get("referencedMemberDecl"))
        so = self.strip(objn)
        if so["kind"] == "MemberExpr" and so.get("name") in self.dropped and f["name"] == "clear":
            self.assumptions.add("field %s is not part of the modelled state (its clearing is not modelled)" % so["name"])
            return Val("()", "void")
        obj = self.ex(objn)
        if f.get("isArrow"):
            obj = self.deref(obj)
        if d is not None and d["kind"] in DECL_FN:
            xf = self.xfn.get(self.ast.qname(d))
            if xf:
                return self.call_x(xf, obj, args, n)
            if obj.ty in self.types and self.types[obj.ty]["kind"] in ("omap", "vec", "arr", "handle"):
                pass
            else:
                return self.call_fn(d, obj, args, n)
        return self.std_method(obj, f["name"], args, n)

    def call_x(self, xf, obj, args, n):
        """call of a function given by an assumed contract (xfn directive)"""
        upd = [x for x in xf.get("upd", "").split(",") if x]
        vals = self.eval_list(args, "".join("l" if str(i) in upd else "v" for i in range(len(args))))
        a = [self.atom(self.val(obj).code)] if obj is not None else []
        a += [self.atom(self.val(v).code) for v in vals]
        self.assumptions.add("assumed contract: " + xf["cxx"])
        if upd:
            # the contract function returns (the result, if ret=yes, and) the new values of the updated places
            places = [obj if u == "this" else vals[int(u)] for u in upd]
            for p in places:
                if not isinstance(p, Place):
                    raise Unsupported("mutating call on value")
            names = [self.fresh("u") for i in range(len(upd) + (xf.get("ret") == "yes"))]
            self.immutable.update(names)
            self.emit("let %s = %s %s in" % (names[0] if len(names) == 1 else "(%s)" % ", ".join(names), xf["why"], " ".join(a) if a else "()"))
            for p, nm in zip(places, names[-len(upd):]):
                if p.const and p.ty in self.mutrec:
                    p = Place(p.root, p.path, p.ty, False, p.base)
                self.assign(p, nm)
            if "snap" in xf and self.fn is not None and "snap" in " ".join(self.fn.opts.get("opt", [])).split():
                self.emit("%s <- %s;" % (xf["snap"], names[-1]))     # a ghost variable that remembers the state after the call
            if xf.get("ret") == "yes":
                return Val(names[0], xf.get("ty") or self.etype(n))
            return places[0] if upd[0] == "this" else Val("()", "void")
        if xf.get("mut"):
            p = obj
            if not isinstance(p, Place):
                raise Unsupported("mutating call on value")
            self.assign(p, "(%s %s)" % (xf["why"], " ".join(a)))
            return p
        return Val("(%s %s)" % (xf["why"], " ".join(a) if a else "()"), xf.get("ty") or self.etype(n))

    def by_qname_fn(self):
        # qualified names of the functions under contract
        if not hasattr(self, "_byq"):
            self._byq = set(re.sub(r"(?<!operator)\(.*$", "", it.cxx) for k, it in self.ct.items if k == "fn" and it.cxx)
        return self._byq

    def x_CXXOperatorCallExpr(self, n):
        f = self.callee(n)
        args = self.inner(n)[1:]
        rd = f.get("referencedDecl", {})
        name = rd.get("name", "")
        d = self.ast.decl.get(rd.get("id"))
        hk = self.types.get(self.etype(args[0]), {}).get("kind") in ("handle", "abstract") if args else False
        if d is not None and d["kind"] in DECL_FN and not (hk and not self.xfn.get(self.ast.qname(d)) and not self.ast.qname(d) in self.by_qname_fn()):
            xf = self.xfn.get(self.ast.qname(d))
            if d["kind"] == "CXXMethodDecl":
                # implicit/defaulted copy assignment
                if not xf and (name == "operator=" and self.ast.definition(d["id"]) is None or d.get("isImplicit")):
                    v = self.rv(args[1])
                    p = self.ex(args[0])
                    self.do_assign(p, v)
                    return p
                obj = self.ex(args[0])
                if xf:
                    return self.call_x(xf, obj, args[1:], n)
                return self.call_fn(d, obj, args[1:], n)
            if xf:
                return self.call_x(xf, None, args, n)
            return self.call_fn(d, None, args, n)
        # standard library operators
        t0 = self.etype(args[0])
        k = self.kind(t0)
        if name in ("operator==", "operator!="):
            a, b = self.eval_list(args, "vv")
            if self.kind(a.ty) == "oiter":
                bs = a.base or b.base
                if bs is None:
                    raise Unsupported("comparison of iterators without container")
                c = "(%s.it_eq %s %s)" % (self.types[bs.ty]["ns"], self.atom(a.code), self.atom(b.code))
            elif self.kind(a.ty) == "viter":
                c = "(%s = %s)" % (a.code, b.code)
            elif a.ty in self.types and "eqfn" in self.types[a.ty]:
                c = "(%s %s %s)" % (self.types[a.ty]["eqfn"], self.atom(a.code), self.atom(b.code))
            else:
                raise Unsupported("operator== on " + a.ty)
            return Val(c if name == "operator==" else "(not %s)" % c, "bool")
        if name in ("operator<", "operator>", "operator<=", "operator>=", "operator-", "operator+") and k == "viter":
            a, b = self.eval_list(args, "vv")
            op = name[8:]
            if op in "+-":
                return Val("(%s %s %s)" % (a.code, op, b.code), self.etype(n), a.base if op == "+" or self.kind(self.etype(n)) == "viter" else None)
            return Val("(%s %s %s)" % (a.code, op, b.code), "bool")
        if name in ("operator<", "operator>", "operator<=", "operator>=") and t0 in self.types and "ltfn" in self.types[t0]:
            a, b = self.eval_list(args, "vv")
            if name in ("operator>", "operator<="):
                a, b = b, a
            if name in ("operator<=", "operator>="):
                return Val("(not (%s %s %s))" % (self.types[t0]["ltfn"], self.atom(a.code), self.atom(b.code)), "bool")
            return Val("(%s %s %s)" % (self.types[t0]["ltfn"], self.atom(a.code), self.atom(b.code)), "bool")
        if name in ("operator++", "operator--"):
            return self.incdec(self.lv(args[0]), name[8:], len(args) > 1)
        if name == "operator*" and len(args) == 1:
            return self.deref(self.ex(args[0]))
        if name == "operator->":
            r = self.ex(args[0])
            pl = self.deref(r)
            return Val("addr", "ptr", pl, "addr") if isinstance(pl, Place) else Val(pl.code, pl.ty, pl, "addr")
        if name == "operator=":
            v = self.rv(args[1])
            p = self.lv(args[0])
            self.do_assign(p, v)
            return p
        if name == "operator+=" :
            p = self.lv(args[0])
            v = self.rv(args[1])
            if self.kind(p.ty) == "vec":
                if self.kind(v.ty) == "int":
                    self.assign(p, "(snoc %s %s)" % (self.atom(p.get()), self.atom(v.code)))
                else:
                    self.assign(p, "(%s ++ %s)" % (p.get(), v.code))
                return p
            if self.kind(p.ty) == "viter":
                self.assign(p, "(%s + %s)" % (p.get(), v.code))
                return p
        if name == "operator[]":
            obj = self.ex(args[0])
            return self.std_method(obj, "operator[]", args[1:], n)
        raise Unsupported("std operator %s on %s" % (name, t0))

    def x_CallExpr(self, n):
        f = self.callee(n)
        args = self.inner(n)[1:]
        rd = f.get("referencedDecl") or {}
        d = self.ast.decl.get(rd.get("id"))
        if f["kind"] == "MemberExpr":
            d = self.ast.decl.get(f.get("referencedMemberDecl"))
        if d is not None and d["kind"] in DECL_FN:
            xf = self.xfn.get(self.ast.qname(d))
            if xf:
                return self.call_x(xf, None, args, n)
            return self.call_fn(d, None, args, n)
        name = rd.get("name")
        if name == "malloc":
            return Val(self.bind("(amalloc %s)" % self.atom(self.heap_count(args[0], None).code), "h"), "void *", None, "heap")
        if name == "realloc":
            p = self.ex(args[0])
            while isinstance(p, Val) and p.extra == "bitcast":
                p = p.base
            if not (isinstance(p, Place) and self.owned(p.ty)):
                raise Unsupported("realloc of " + str(p.ty))
            c = self.heap_count(args[1], None)
            return Val(self.bind("(arealloc %s %s)" % (self.atom(p.get()), self.atom(c.code)), "h"), "void *", None, "heap")
        if name == "free":
            p = self.ex(args[0])
            if not (isinstance(p, Place) and self.owned(p.ty)):
                raise Unsupported("free of " + str(p.ty))
            self.assign(p, "empty")
            return Val("()", "void")
        if name == "memcpy":
            dp, do = self.heap_target(args[0])
            sp, so = self.heap_target(args[1])
            c = self.heap_count(args[2], None)
            self.assign(dp, "hcopy %s %s %s %s %s" % (self.atom(dp.get()), do, self.atom(sp.get()), so, self.atom(c.code)))
            return Val("()", "void")
        if (name == "sort" and len(args) in (2, 3)) or (name in ("lower_bound", "binary_search") and len(args) in (3, 4)) or (name == "find" and len(args) == 3):
            return self.algorithm(name, args, n)
        if name in ("move", "forward"):
            return self.ex(args[0])
        if name == "make_pair":
            a, b = self.eval_list(args, "vv")
            return Val("(%s, %s)" % (a.code, b.code), "pair", (a, b), "pair")
        if name in ("min", "max"):
            a, b = self.eval_list(args, "vv")
            return Val("(%s_int %s %s)" % (name, self.atom(a.code), self.atom(b.code)), a.ty)
        if name == "swap":
            a = self.lv(args[0])
            b = self.lv(args[1])
            va = self.bind(a.get())
            vb = self.bind(b.get())
            self.assign(a, vb)
            self.assign(b, va)
            return Val("()", "void")
        raise Unsupported("call of %s" % name)

    def std_method(self, obj, name, args, n):
        t = self.types.get(obj.ty)
        xf = self.xfn.get("%s::%s" % (obj.ty, name))
        if xf:
            return self.call_x(xf, obj, args, n)
        if t is None:
            raise Unsupported("method %s on type %s" % (name, obj.ty))
        k = t["kind"]
        if k == "omap":
            return self.omap_method(obj, t, name, args, n)
        if k in ("vec", "arr"):
            return self.vec_method(obj, t, name, args, n)
        if k == "handle" and name == "item":
            return self.deref(obj)
        raise Unsupported("method %s on %s" % (name, obj.ty))

    def keyval(self, t, v):
        """key of an element value passed to find/lower_bound/..."""
        if t.get("keyof"):
            return "%s.%s" % (self.atom(v.code), t["keyof"])
        if t.get("keyfn"):
            # a map ordered by a part of the key
            return "(%s %s)" % (t["keyfn"], self.atom(v.code))
        return self.atom(v.code)

    def omap_method(self, obj, t, name, args, n):
        ns = t["ns"]
        if not isinstance(obj, Place):
            nm = self.bind(self.val(obj).code, "cont")
            self.immutable.add(nm)
            obj = Place(nm, (), obj.ty, True)
        place = obj
        oc = self.atom(self.val(obj).code)
        ity = "std::_Rb_tree_const_iterator<>"
        if name in ("begin", "cbegin"):
            return Val("(%s.begin_ %s)" % (ns, oc), ity, place)
        if name in ("end", "cend"):
            return Val("(%s.end_ %s)" % (ns, oc), ity, place)
        if name == "size":
            return Val("(%s.size_ %s)" % (ns, oc), "unsigned long")
        if name == "empty":
            return Val("(%s.is_empty %s)" % (ns, oc), "bool")
        if name in ("lower_bound", "upper_bound", "find", "count"):
            kv = self.keyval(t, self.rv(args[0]))
            oc = self.atom(self.val(obj).code)
            if name == "count":
                return Val("(%s.count %s %s)" % (ns, oc, kv), "unsigned long")
            return Val("(%s.%s %s %s)" % (ns, name, oc, kv), ity, place)
        if name == "insert" and len(args) == 1:
            v = self.rv(args[0])
            return self.omap_insert(obj, t, v)
        if name == "insert" and len(args) == 2 and self.kind(self.etype(args[0])) == "oiter" and self.kind(self.etype(args[1])) == "oiter":
            a, b = self.eval_list(args, "vv")
            if a.base is None or self.types[a.base.ty]["ns"] != ns:
                raise Unsupported("range insert")
            self.assign(obj, "(%s.insert_range %s %s %s %s)" % (ns, oc, self.atom(a.base.get()), self.atom(a.code), self.atom(b.code)))
            return Val("()", "void")
        if name == "insert" and len(args) == 2 and self.kind(self.etype(args[0])) == "oiter":
            # with a hint, which does not change the result
            a, b = self.eval_list(args, "vv")
            self.emit("assert { [@expl:hint of insert is a position of this set] %s.valid %s %s };" % (ns, oc, self.atom(a.code)))
            return self.omap_insert(obj, t, b).base[0]
        if name == "erase":
            if len(args) == 2:
                a, b = self.eval_list(args, "vv")
                self.assign(obj, "(%s.erase_range %s %s %s)" % (ns, oc, self.atom(a.code), self.atom(b.code)))
                return Val(b.code, b.ty, obj)
            a = self.rv(args[0])
            if self.kind(a.ty) == "oiter":
                nx = self.bind("%s.next %s %s" % (ns, oc, self.atom(a.code)))
                self.assign(obj, "(%s.erase_at %s %s)" % (ns, oc, self.atom(a.code)))
                return Val(nx, a.ty, obj)
            kv = self.keyval(t, a)
            self.assign(obj, "(%s.erase_key %s %s)" % (ns, oc, kv))
            return Val("()", "void")
        if name == "clear":
            self.assign(obj, "%s.empty" % ns)
            return Val("()", "void")
        if name == "swap":
            o = self.lv(args[0])
            va = self.bind(obj.get())
            vb = self.bind(o.get())
            self.assign(obj, vb)
            self.assign(o, va)
            return Val("()", "void")
        if name == "operator[]":
            w = self.rv(args[0])
            if t.get("rec"):
                w = Val(self.bind(w.code, "w"), w.ty)
            kv = self.bind(self.keyval(t, w), "k")
            if not isinstance(obj, Place):
                raise Unsupported("operator[] on temporary map")
            if t.get("rec"):
                self.assign(obj, "(%s.touch %s %s %s)" % (ns, self.atom(obj.get()), kv, w.code))
                return obj.ext(("m", ns, kv), None).ext(("f", t["rec"][1]), t["eltty"])
            self.assign(obj, "(%s.touch %s %s)" % (ns, self.atom(obj.get()), kv))
            return obj.ext(("m", ns, kv), t["eltty"])
        raise Unsupported("std::map/set method " + name)

    def omap_insert(self, obj, t, v):
        ns = t["ns"]
        if t.get("ismap"):
            if v.extra == "pair":
                a, b = v.base
                if t.get("rec"):
                    a = Val(self.bind(a.code, "w"), a.ty)
                kc, ec = self.bind(self.keyval(t, a), "k"), self.atom(b.code)
                if t.get("rec"):
                    ec = "{ %s = %s; %s = %s }" % (t["rec"][0], a.code, t["rec"][1], ec)
            elif t.get("rec"):
                raise Unsupported("map insert of " + v.ty)
            elif v.ty in self.types and self.types[v.ty]["kind"] == "pair":
                kc, ec = self.bind(self.keyval(t, Val("(fst %s)" % self.atom(v.code), t["keyty"])), "k"), "(snd %s)" % self.atom(v.code)
            else:
                raise Unsupported("map insert of " + v.ty)
            oc = self.bind(obj.get(), "m")
            self.assign(obj, "(%s.insert_kv %s %s %s)" % (ns, oc, kc, ec))
        else:
            x = self.bind(v.code, "x")
            kc = self.keyval(t, Val(x, v.ty))
            oc = self.bind(obj.get(), "m")
            self.assign(obj, "(%s.insert %s %s)" % (ns, oc, x))
        ity = "std::_Rb_tree_const_iterator<>"
        return Val("pair", "pair", (Val("(At %s)" % self.atom(kc), ity, obj), Val("(not (%s.has %s %s))" % (ns, oc, self.atom(kc)), "bool")), "pair")

    def vec_method(self, obj, t, name, args, n):
        place = obj if isinstance(obj, Place) else None
        oc = self.atom(self.val(obj).code)
        vity = "__gnu_cxx::__normal_iterator<>"
        if name in ("begin", "cbegin", "end", "cend") and place is None:
            place = self.lv_tmp(obj)       # a vector returned by a call: its elements
            oc = self.atom(place.get())
        if name in ("begin", "cbegin"):
            return Val("0", vity, place)
        if name in ("end", "cend"):
            return Val("(length %s)" % oc, vity, place)
        if name in ("size", "length"):
            return Val("(length %s)" % oc, "unsigned long")
        if name == "empty":
            return Val("(length %s = 0)" % oc, "bool")
        if name in ("operator[]", "at"):
            i = self.rv(args[0])
            if place is None:
                place = self.lv_tmp(obj)
            return place.ext(("v", self.bind(i.code, "i")), t["eltty"])
        if name in ("top", "push", "pop"):     # a std::stack is its elements, the top one last
            name = {"top": "back", "push": "push_back", "pop": "pop_back"}[name]
        if name in ("front", "back"):
            i = "0" if name == "front" else "(length %s - 1)" % oc
            if place is None:
                place = self.lv_tmp(obj)
            return place.ext(("v", self.bind(i, "i")), t["eltty"])
        if name == "push_back":
            v = self.rv(args[0])
            self.assign(obj, "(snoc %s %s)" % (self.atom(obj.get()), self.atom(v.code)))
            return Val("()", "void")
        if name == "pop_back":
            self.assign(obj, "(vpop %s)" % self.atom(obj.get()))
            return Val("()", "void")
        if name == "clear":
            self.assign(obj, "empty")
            return Val("()", "void")
        if name == "resize" and len(args) == 2:
            a, b = self.eval_list(args, "vv")
            self.assign(obj, "(vresize %s %s %s)" % (self.atom(obj.get()), self.atom(a.code), self.atom(b.code)))
            return Val("()", "void")
        if name == "reserve":
            self.rv(args[0])
            return Val("()", "void")
        if name == "swap":
            o = self.lv(args[0])
            va = self.bind(obj.get())
            vb = self.bind(o.get())
            self.assign(obj, vb)
            self.assign(o, va)
            return Val("()", "void")
        if name == "erase" and len(args) == 2:
            a, b = self.eval_list(args, "vv")
            self.assign(obj, "(verase %s %s %s)" % (self.atom(obj.get()), self.atom(a.code), self.atom(b.code)))
            return Val(a.code, vity, obj)
        if name == "erase" and len(args) == 1:
            a = self.rv(args[0])
            self.assign(obj, "(verase %s %s (%s + 1))" % (self.atom(obj.get()), self.atom(a.code), a.code))
            return Val(a.code, vity, obj)
        raise Unsupported("vector method " + name)

    def lv_tmp(self, v):
        nm = self.fresh("tmp")
        self.emit("let ref %s = %s in" % (nm, v.code))
        return Place(nm, (), v.ty)

    # ---------------------------------------------------------------- user functions
    def uses_this(self, dn):
        def walk(x):
            return x.get("kind") == "CXXThisExpr" or any(walk(c) for c in x.get("inner", ()) if c)
        return walk(dn)

    def is_const_method(self, d):
        f = self.fn_by_decl.get(self.ast.canon.get(d.get("id"), d.get("id")))
        if f is not None and "mutable" in " ".join(f.opts.get("opt", [])).split():
            return False       # a const method that changes mutable fields
        return d["type"]["qualType"].rstrip().endswith("const") or " const" in d["type"]["qualType"].rsplit(")", 1)[-1]

    def returns_this(self, d):
        """function returning a reference, every return statement of which returns *this"""
        rt = d["type"]["qualType"].split("(")[0].strip()
        if not rt.endswith("&"):
            return False
        dn = self.ast.definition(d["id"])
        if dn is None:
            return False
        rets = []

        def walk(x):
            if x.get("kind") == "ReturnStmt":
                rets.append(x)
            for c in x.get("inner", ()):
                if c:
                    walk(c)
        walk(self.ast.body(dn))
        for r in rets:
            e = self.inner(r)
            if not e:
                return False
            s = self.strip(e[0])
            if s["kind"] == "UnaryOperator" and s["opcode"] == "*" and self.strip(self.inner(s)[0])["kind"] == "CXXThisExpr":
                continue
            # returning the result of another *this-returning function on this
            if s["kind"] == "CXXMemberCallExpr" or s["kind"] == "CXXOperatorCallExpr":
                return False
            return False
        return bool(rets)

    def ret_type(self, d):
        q = d["type"]["qualType"]
        depth = 0
        # return type = text before the parameter list (last top-level paren group)
        m = re.match(r"^(.*?)\s*\(", q)
        rt = m.group(1)
        return rt

    def call_fn(self, d, obj, args, n):
        dn = self.ast.definition(d["id"])
        fn = self.fn_by_decl.get(self.ast.canon.get(d["id"], d["id"]))
        if fn is not None and "inline" not in fn.opts:
            return self.call_contract(fn, fn.node, obj, args, n)
        if dn is None:
            raise Unsupported("no body for " + self.ast.qname(d))
        return self.inline(dn, obj, args, n)

    def param_mode(self, p, scope=None):
        q = p["type"]["qualType"]
        dq = p["type"].get("desugaredQualType", q)
        if is_ref(dq):
            if is_const_ref(dq):
                # a record with mutable fields is changed through references to const
                m = re.match(r"const (?:class |struct )?([\w:]+) ?&$", dq)
                if m and any(c == m.group(1) or c.endswith("::" + m.group(1)) for c in self.mutrec):
                    return "ref"
                return "const"
            return "ref"
        return "val"

    def call_contract(self, fn, dn, obj, args, n, ctor=False):
        params = self.ast.params(dn)
        if len(args) != len(params):
            raise Unsupported("argument count")
        args = [a if a["kind"] != "CXXDefaultArgExpr" else self.inner(p)[0] for a, p in zip(args, params)]
        al = []
        roots = set()
        copyout = []
        static = dn.get("storageClass") == "static" or dn["kind"] == "FunctionDecl"
        hasthis = dn["kind"] in ("CXXMethodDecl", "CXXDestructorDecl") and not static and not ("nothis" in " ".join(fn.opts.get("opt", [])).split() and not self.uses_this(dn))
        self.called.add(fn.name)
        effect = False
        obpl = None
        modes = []
        for a, p in zip(args, params):
            modes.append("p" if self.param_mode(p) == "ref" else "v")
        vals = self.eval_list(args, modes)
        if hasthis:
            if self.is_const_method(dn):
                al.append(self.atom(self.val(obj).code))
                obpl = obj
            else:
                effect = True
                pl = obj if isinstance(obj, Place) else self.lv_tmp(obj)
                if pl.const and "mutable" in " ".join(fn.opts.get("opt", [])).split():
                    pl = Place(pl.root, pl.path, pl.ty, False, pl.base)
                obpl = pl
                al.append(self.ref_arg(pl, roots, copyout))
        for o in fn.opts.get("range", []):
            lhs, rest = o.split("=", 1)
            first = rest.rsplit(" ", 2)[1]
            idx = [j for j, p in enumerate(params) if p.get("name") == first or self.localcall(fn, j) == first]
            if not idx or vals[idx[0]].base is None:
                raise Unsupported("iterator range without a known container")
            al.append(self.atom(self.val(vals[idx[0]].base).code))
        for v, p, m in zip(vals, params, modes):
            if m == "p":
                effect = True
                pl = v if isinstance(v, Place) else self.lv_tmp(v)
                if pl.const and pl.ty in self.mutrec:
                    pl = Place(pl.root, pl.path, pl.ty, False, pl.base)
                al.append(self.ref_arg(pl, roots, copyout))
            else:
                if v.extra in ("addr", "thisptr"):
                    if self.kind(self.rtype(p["type"], dn)) == "ptrv":
                        v = self.ptrval(v)
                    else:
                        v = self.val(v.base)
                al.append(self.atom(v.code))
        for g in fn.opts.get("ghostparam", []):
            # ghostparam name : type = default expression in terms of the caller
            pass
        code = "%s %s" % (fn.name, " ".join(al) if al else "()")
        rt = self.resolve_name(norm(self.ret_type(dn)), dn) if not ctor else None
        rthis = self.returns_this(dn) or "this" in fn.opts.get("result", [])
        base = None
        for r in fn.opts.get("result", []):
            if r.startswith("iter param:"):
                # iterator into a container passed by reference
                base = next(v for v, p in zip(vals, params) if p.get("name") == r[11:])
                rt = "std::_Rb_tree_const_iterator<>" if self.types[base.ty]["kind"] == "omap" else "__gnu_cxx::__normal_iterator<>"
                continue
            if r.startswith("iter "):
                # iterator into a field of this
                base = obpl
                for f in r[5:].split("."):
                    if f != "this":
                        ff = self.field(base.ty, f)
                        base = base.ext(("f", ff[0]), ff[1])
        if rthis or rt == "void":
            self.emit(code + ";")
            self.copy_back(copyout)
            return obpl if rthis else Val("()", "void")
        ty = rt if not ctor else self.ast.qname(self.ast.parent_of(dn))
        if effect:
            r = self.fresh("r")
            self.emit("let %s = %s in" % (r, code))
            self.immutable.add(r)
            self.copy_back(copyout)
            return Val(r, ty, base, "heap" if self.owns(ty) else None)
        if self.owns(ty):
            return Val(self.bind("(%s)" % code, "h"), ty, base, "heap")
        return Val("(%s)" % code, ty, base)

    def localcall(self, fn, j):
        want = self.local_names.get(fn.name)
        return want[j][0] if want and j < len(want) else None

    def ref_arg(self, pl, roots, copyout):
        if pl.const:
            raise Unsupported("mutable reference to constant %s" % pl.root)
        if not pl.path and pl.root not in roots:
            roots.add(pl.root)
            return pl.root
        if pl.root in roots:
            raise Unsupported("aliased reference arguments")
        t = self.fresh("tmp")
        self.emit("let ref %s = %s in" % (t, pl.get()))
        copyout.append((pl, t))
        return t

    def copy_back(self, copyout):
        for pl, t in copyout:
            self.assign(pl, t)

    # inlining
    def inline(self, dn, obj, args, n, ctor_place=None):
        key = self.ast.canon[dn["id"]]
        if key in self.inl_stack or len(self.inl_stack) > 12:
            raise Unsupported("recursive inlining of " + self.ast.qname(dn))
        self.inl_stack.append(key)
        self.inlined.add(self.ast.qname(dn))
        try:
            return self._inline(dn, obj, args, n, ctor_place)
        finally:
            self.inl_stack.pop()

    def _inline(self, dn, obj, args, n, ctor_place):
        params = self.ast.params(dn)
        args = list(args)
        for j, p in enumerate(params):
            if j >= len(args) or args[j]["kind"] == "CXXDefaultArgExpr":
                d = self.inner(p)
                if not d:
                    # default may be on the previous declaration
                    prev = self.ast.decl.get(dn.get("previousDecl"))
                    d = self.inner(self.ast.params(prev)[j]) if prev else []
                if not d:
                    raise Unsupported("default argument")
                if j < len(args):
                    args[j] = d[0]
                else:
                    args.append(d[0])
        modes = ["v" if self.param_mode(p) == "val" else "p" for p in params]
        # a pointer to an owned array passed to a constant function names the array itself
        alias = [m == "v" and self.kind(self.rtype(p["type"], dn)) == "harr" and not self.mutated(dn, p["id"]) and self.is_const_method(dn) for p, m in zip(params, modes)]
        modes = ["p" if al else m for m, al in zip(modes, alias)]
        vals = self.eval_list(args, modes)
        newenv = dict(self.env)
        for p, v, m in zip(params, vals, modes):
            pm = self.param_mode(p)
            ty = self.rtype(p["type"], dn)
            if pm == "val" and isinstance(v, Place) and self.kind(ty) == "harr":
                newenv[p["id"]] = v
            elif pm == "val":
                if isinstance(v, Val) and v.extra in ("addr", "thisptr"):
                    newenv[p["id"]] = v
                    continue
                if self.mutated(dn, p["id"]):
                    nm = self.fresh("a_" + re.sub(r"\W", "", p.get("name", "p")))
                    nm = nm[0].lower() + nm[1:]
                    self.emit("let ref %s = %s in" % (nm, v.code))
                    newenv[p["id"]] = Place(nm, (), ty, False, v.base)
                else:
                    b = self.bind(v.code, "a")
                    newenv[p["id"]] = Val(b, ty, v.base)
            else:
                if isinstance(v, Place):
                    newenv[p["id"]] = v
                else:
                    if v.extra == "pair":
                        newenv[p["id"]] = v
                    else:
                        newenv[p["id"]] = Val(self.bind(v.code, "a"), ty, v.base)
        save = (self.env, self.this, self.rethandler, self.curfn)
        body = self.ast.body(dn)
        rt = self.resolve_name(norm(self.ret_type(dn)), dn)
        rref = is_ref(self.ret_type(dn))
        self.env, self.curfn = newenv, dn
        if obj is not None or ctor_place is not None:
            self.this = ctor_place or (obj if isinstance(obj, Place) else None)
            if self.this is None:
                b = self.bind(obj.code, "o")
                self.this = Place(b, (), obj.ty, True)
        try:
            stmts = [s for s in self.inner(body) if not self.is_noop(s)]
            if ctor_place is not None:
                self.ctor_inits(dn)
            # straight-line body with single final return: substitute
            if stmts and stmts[-1]["kind"] == "ReturnStmt" and not any(self.has_return(s) for s in stmts[:-1]):
                for s in stmts[:-1]:
                    self.stmt(s)
                e = self.inner(stmts[-1])
                if not e:
                    return Val("()", "void")
                r = self.ex(e[0])
                if rref:
                    return r
                v = self.val(r)
                return Val(v.code, rt if self.kind(v.ty) is None else v.ty, v.base, v.extra)
            if not any(self.has_return(s) for s in stmts):
                for s in stmts:
                    self.stmt(s)
                return Val("()", "void")
            if self.returns_this(dn):
                exn = self.fresh("Ret")
                self.emit("exception %s in" % exn)
                self.rethandler = ("exn", exn, None, [])
                _, lines = self.capture(lambda: [self.stmt(s) for s in stmts])
                self.emit("begin try begin %s () end with %s -> () end end;" % (" ".join(lines), exn))
                return self.this
            if rref:
                raise Unsupported("inlined function returning a reference on several paths: " + self.ast.qname(dn))
            exn = self.fresh("Ret")
            bases = []
            if rt == "void":
                self.emit("exception %s in" % exn)
                self.rethandler = ("exn", exn, None, bases)
                _, lines = self.capture(lambda: [self.stmt(s) for s in stmts])
                self.emit("begin try begin %s () end with %s -> () end end;" % (" ".join(lines), exn))
                return Val("()", "void")
            self.rethandler = ("exn", exn, rt, bases)
            _, lines = self.capture(lambda: [self.stmt(s) for s in stmts])
            base = bases[0] if bases else None
            wt = self.rt_why(rt, base)
            self.emit("exception %s %s in" % (exn, wt if SIMPLE.match(wt) else "(" + wt + ")"))
            r = self.fresh("r")
            self.emit("let %s = try begin %s absurd end with %s v -> v end in" % (r, " ".join(lines), exn))
            self.immutable.add(r)
            return Val(r, rt, base)
        finally:
            self.env, self.this, self.rethandler, self.curfn = save

    def rt_why(self, rt, base):
        if self.kind(rt) == "oiter":
            if base is None:
                raise Unsupported("iterator result without container")
            return "iter " + self.types[base.ty]["key"]
        return self.wtype(rt)

    def has_return(self, n):
        if n.get("kind") == "ReturnStmt":
            return True
        return any(self.has_return(c) for c in n.get("inner", ()) if c)

    def mutated(self, fn, pid):
        """is the by-value parameter / local possibly modified?"""
        found = [False]

        def walk(x, cst):
            k = x.get("kind")
            if k == "DeclRefExpr" and x["referencedDecl"]["id"] == pid and not cst:
                found[0] = True
            ii = [c for c in x.get("inner", ()) if c]
            for j, c in enumerate(ii):
                cc = False
                if k == "ImplicitCastExpr" and (x.get("castKind") in ("LValueToRValue", "ArrayToPointerDecay") or
                                                (x.get("castKind") == "NoOp" and x["type"]["qualType"].startswith("const"))):
                    cc = True
                if k == "MemberExpr" and cst:
                    cc = True
                if k == "ParenExpr":
                    cc = cst
                walk(c, cc)
        walk(self.ast.body(fn), False)
        return found[0]

    def is_empty_literal(self, n):
        n = self.strip(n)
        while n.get("kind") == "ImplicitCastExpr":
            n = self.inner(n)[0]
        return n.get("kind") == "StringLiteral" and n.get("value") in ('L""', '""', 'u""', 'U""')

    def x_CXXConstructExpr(self, n):
        ty = self.etype(n)
        args = [a for a in self.inner(n)]
        k = self.kind(ty)
        if k in ("oiter", "viter"):
            if len(args) == 1:
                return self.ex(args[0])
            if not args:
                return Val("(any_iter ())", ty)
        if k == "omap":
            if not args or args[0]["kind"] == "CXXDefaultArgExpr":
                return Val("%s.empty" % self.types[ty]["ns"], ty)
            if len(args) == 1 and self.etype(args[0]) == ty:
                return self.ex(args[0]) if n.get("elidable") else self.rv(args[0])
        if k == "vec":
            real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
            if not real:
                return Val("empty", ty)
            if len(real) == 1 and self.etype(real[0]) == ty:
                return self.rv(real[0])
            if len(real) == 2 and self.kind(self.etype(real[0])) == "int":
                a, b = self.eval_list(real, "vv")
                return Val("(vmake %s %s)" % (self.atom(a.code), self.atom(b.code)), ty)
        if k == "pair" or ty.startswith("std::pair<"):
            if len(args) == 2:
                a, b = self.eval_list(args, "vv")
                return Val("(%s, %s)" % (a.code, b.code), ty, (a, b), "pair")
            if len(args) == 1:
                return self.rv(args[0])
        real = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if k in ("handle", "abstract") and not real and self.types[ty].get("ctor0"):
            return Val(self.types[ty]["ctor0"], ty)
        if k == "abstract" and len(real) == 1 and self.types[ty].get("ctor0") and self.is_empty_literal(real[0]):
            return Val(self.types[ty]["ctor0"], ty)
        if k in ("abstract",) and real and self.types[ty].get("ctor%d" % len(real)) and not (len(real) == 1 and self.etype(real[0]) == ty):
            vs = self.eval_list(real, "v" * len(real))
            return Val("(%s %s)" % (self.types[ty]["ctor%d" % len(real)], " ".join(self.atom(v.code) for v in vs)), ty)
        if k in ("abstract",) and len(real) == 1 and self.etype(real[0]) == ty:
            return self.rv(real[0])
        if k == "handle" and len(real) == 1 and not self.etype(real[0]).endswith("*"):
            return Val(self.rv(real[0]).code, ty)
        if k == "handle" and len(real) in (1, 2):
            # container(pointer, ownership): the value pointed at
            p = self.strip(real[0])
            while p["kind"] == "ImplicitCastExpr":
                p = self.strip(self.inner(p)[0])
            if p["kind"] == "CXXNewExpr":
                ii = [x for x in self.inner(p) if x["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr")]
                if ii:
                    return Val(self.rv(ii[0]).code, ty)
            if p["kind"] == "UnaryOperator" and p.get("opcode") == "&":
                return Val(self.rv(self.inner(p)[0]).code, ty)
            v = self.ex(p) if p["kind"] == "CXXThisExpr" else self.rv(real[0])
            if isinstance(v, Val) and v.extra in ("thisptr", "addr") and v.base is not None:
                return Val(self.val(v.base).code, ty)
            if self.kind(v.ty) == "ptrv":
                return Val("(pderef %s)" % self.atom(v.code), ty)
        if k == "record" or ty in self.records:
            rec = self.records.get(ty)
            if rec is None:
                raise Unsupported("construct " + ty)
            ctors = [c for c in rec.get("inner", ()) if c.get("kind") == "CXXConstructorDecl"]
            ctors += [c for t in rec.get("inner", ()) if t.get("kind") == "FunctionTemplateDecl" for c in t.get("inner", ()) if c.get("kind") == "CXXConstructorDecl"]
            ct = n.get("ctorType", {}).get("qualType")
            cands = [c for c in ctors if c["type"]["qualType"] == ct]
            if not cands:
                cands = [c for c in ctors if len(self.ast.params(c)) == len(args) and norm_fn(c["type"]["qualType"]) == norm_fn(ct)]
            c = cands[0] if cands else None
            if c is None or c.get("isImplicit") or c.get("explicitlyDefaulted") or self.ast.definition(c["id"]) is None:
                if len(args) == 1 and self.etype(args[0]) == ty:
                    return self.rv(args[0])
                if not args:
                    return Val("(any %s)" % self.wtype(ty), ty)
                raise Unsupported("constructor " + str(ct) + " of " + ty)
            fn = self.fn_by_decl.get(self.ast.canon[c["id"]])
            if fn is not None and "inline" not in fn.opts:
                return self.call_contract(fn, fn.node, None, args, n, ctor=True)
            xf = self.xfn.get(self.ast.qname(c))
            dn = self.ast.definition(c["id"])
            tmp = self.fresh("c")
            if k != "record":
                raise Unsupported("construct " + ty)
            self.emit("let ref %s = any %s in" % (tmp, self.wtype(ty)))
            self.inline(dn, None, args, n, ctor_place=Place(tmp, (), ty))
            return Val(tmp, ty)
        raise Unsupported("construct " + ty)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_InitListExpr(self, n):
        """aggregate initialisation of a record, field by field"""
        ty = self.etype(n)
        if self.kind(ty) != "record":
            raise Unsupported("initialiser list of " + ty)
        fl = list(self.types[ty]["fields"].values())
        args = self.inner(n)
        if len(args) != len(fl):
            raise Unsupported("initialiser list of " + ty)
        vs = self.eval_list(args, "v" * len(args))
        return Val("{ %s }" % "; ".join("%s = %s" % (w, v.code) for (w, t), v in zip(fl, vs)), ty)

    def x_CXXNewExpr(self, n):
        ty = self.etype(n)
        if self.kind(ty) == "harr" and n.get("isArray"):
            ii = self.inner(n)
            c = self.rv(ii[0])
            init = self.types[ty].get("init")
            if init:
                # whatever the default constructor ensures of one element holds of every element
                v = self.rv(dict(ii[-1], type={"qualType": self.types[ty]["eltty"]}))
                e = self.bind(v.code, "e")
                self.emit("assert { [@expl:every element is initialised] %s %s };" % (init, e))
                h = self.bind("(hnew %s)" % self.atom(c.code), "h")
                self.emit("assume { forall i. 0 <= i < length (hs %s) -> %s (hs %s)[i] };" % (h, init, h))
                return Val(h, ty, None, "heap")
            return Val(self.bind("(hnew %s)" % self.atom(c.code), "h"), ty, None, "heap")
        if self.kind(ty) == "ptrv" and not n.get("isArray"):
            ii = [x for x in self.inner(n) if x["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr")]
            if ii:
                v = self.rv(ii[0])
                return Val("(Ptr %s)" % self.atom(v.code), ty, None, "heap" if self.ownptr(ty) else None)
        raise Unsupported("new " + ty)

    def x_CXXDeleteExpr(self, n):
        # destruction has no effect on the modelled state; the operand is evaluated
        self.assumptions.add("delete of an object has no effect on the modelled values (ownership is property C17)")
        self.rv(self.inner(n)[0])
        return Val("()", "void")

    def x_CXXTypeidExpr(self, n):
        ii = self.inner(n)
        if not ii:
            raise Unsupported("typeid of a type")
        v = self.rv(ii[0])
        return Val("(typeid_of %s)" % self.atom(v.code), "std::type_info")

    def x_CXXScalarValueInitExpr(self, n):
        return Val("0", self.etype(n))

    def x_ImplicitValueInitExpr(self, n):
        return Val("0", self.etype(n))

    def ctor_inits(self, dn):
        for c in dn.get("inner", ()):
            if c.get("kind") != "CXXCtorInitializer":
                continue
            if "baseInit" in c:
                e = self.inner(c)
                t = self.types[self.this.ty]
                if e and t.get("base"):
                    v = self.rv(e[0])
                    self.assign(self.this.ext(("f", t["base"][0]), t["base"][1]), v.code)
                    continue
                if e:
                    r, lines = self.capture(lambda: self.ex_ignore_base(e[0]))
                    self.lines.extend(lines)
                continue
            f = c.get("anyInit")
            if not f:
                raise Unsupported("constructor initialiser")
            t = self.types[self.this.ty]
            if f["name"] not in t["fields"]:
                continue
            e = self.inner(c)
            v = self.rv(e[0])
            if v.extra in ("addr", "thisptr"):
                v = self.ptrval(v)
            ff = t["fields"][f["name"]]
            if self.owned(ff[1]):
                v = self.own_value(v)
            if self.owns(ff[1]):
                v = self.fresh_owner(v, ff[1])
            self.assign(self.this.ext(("f", ff[0]), ff[1]), v.code)

    def ex_ignore_base(self, e):
        s = self.strip(e)
        if s["kind"] == "CXXConstructExpr" and not self.inner(s):
            return None
        raise Unsupported("base class initialiser")

    # ---------------------------------------------------------------- statements
    def is_noop(self, n):
        k = n["kind"]
        if k == "NullStmt":
            return True
        if k == "CompoundStmt":
            return all(self.is_noop(c) for c in self.inner(n))
        if k == "DoStmt":
            b, c = self.inner(n)[:2]
            return self.is_noop(b) and self.try_bool(c) is False
        if k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and n.get("castKind") == "ToVoid":
            s = self.strip(self.inner(n)[0])
            return self.pure_node(s)
        if k == "DeclStmt":
            return all(c["kind"] in ("StaticAssertDecl", "UsingDirectiveDecl", "TypedefDecl", "TypeAliasDecl") for c in self.inner(n))
        return False

    def pure_node(self, n):
        return n["kind"] in ("IntegerLiteral", "DeclRefExpr", "CXXThisExpr", "MemberExpr", "CXXBoolLiteralExpr", "UnaryExprOrTypeTraitExpr")

    def try_bool(self, n):
        n = self.strip(n)
        if n["kind"] == "ImplicitCastExpr":
            n = self.strip(self.inner(n)[0])
        if n["kind"] == "CXXBoolLiteralExpr":
            return bool(n["value"])
        if n["kind"] == "IntegerLiteral":
            return int(n["value"]) != 0
        return None

    def block(self, n):
        """translate a statement as a nested block; returns text"""
        env = dict(self.env)

        def go():
            if n["kind"] == "CompoundStmt":
                for s in self.inner(n):
                    self.stmt(s)
            else:
                self.stmt(n)
        _, lines = self.capture(go)
        # bindings of iterators made inside survive (base inference), declared names do not matter
        self.env = env
        return "begin %s () end" % "\n".join(lines)

    def stmt(self, n):
        if self.is_noop(n):
            return
        k = n["kind"]
        h = getattr(self, "s_" + k, None)
        if h is not None:
            return h(n)
        # expression statement
        r = self.ex(n)
        if isinstance(r, Val) and r.code not in ("()",) and r.extra is None and not SIMPLE.match(r.code):
            # keep checks of discarded pure calls
            if "(" in r.code:
                self.emit("let _ = %s in" % r.code)
        return None

    def s_CompoundStmt(self, n):
        self.emit(self.block(n) + ";")

    def s_DeclStmt(self, n):
        for d in self.inner(n):
            if d["kind"] == "VarDecl":
                self.vardecl(d)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDirectiveDecl", "StaticAssertDecl", "UsingDecl"):
                pass
            else:
                raise Unsupported("local declaration " + d["kind"])

    def vardecl(self, d):
        q = d["type"].get("desugaredQualType", d["type"]["qualType"])
        ty = self.rtype(d["type"], self.curfn)
        init = self.inner(d)
        if d.get("storageClass") == "static":
            v = self.const_value(d)
            if v is None and ty.split("<")[0].split("::")[-1] in self.opaque or any(ty.endswith("::" + o) or ty == o for o in self.opaque):
                v = Val("0", ty)
            if v is None and init and self.strip(init[0])["kind"] == "CXXConstructExpr":
                v = Val(self.bind(self.rv(init[0]).code, "st"), ty)
                self.assumptions.add("static local %s keeps its initial value" % d.get("name"))
            if v is None:
                raise Unsupported("static local")
            self.env[d["id"]] = v
            return
        if is_ref(q) or is_ref(d["type"]["qualType"]):
            self.locals.append((d.get("name"), ty + "&"))
            r = self.ex(init[0])
            if isinstance(r, Place):
                # freeze: indices already bound by deref/subscript
                self.env[d["id"]] = r
            elif r.extra:
                self.env[d["id"]] = r
            else:
                self.env[d["id"]] = Val(self.bind(r.code, d.get("name", "t")[:12].lower() if d.get("name", "t")[0].isalpha() else "t"), r.ty, r.base)
            return
        k = self.kind(ty)
        if init and d.get("init"):
            v = self.rv(init[0])
            if v.extra == "pair":
                nm = self.localname(d.get("name"), ty)
                a, b = v.base
                ca = self.bind(a.code, nm + "1")
                cb = self.bind(b.code, nm + "2")
                self.env[d["id"]] = Val("pair", ty, (Val(ca, a.ty, a.base), Val(cb, b.ty, b.base)), "pair")
                return
            if v.extra in ("addr", "thisptr"):
                self.env[d["id"]] = v
                self.locals.append((d.get("name"), ty))
                return
            nm = self.localname(d.get("name"), ty)
            if v.ty == "hptr *":
                self.emit("let ref %s = %s in" % (nm, v.code))
                self.env[d["id"]] = Place(nm, (), v.ty, False, v.base)
                return
            if self.owns(ty):
                dq = d["type"].get("desugaredQualType", d["type"]["qualType"])
                if dq.startswith("const ") and self.curfn["kind"] == "CXXMethodDecl" and self.is_const_method(self.curfn):
                    # a look at an object that nothing modifies in this function
                    self.env[d["id"]] = Place(self.bind(v.code, "view"), (), ty, True)
                    return
                v = self.fresh_owner(v, ty)
            if v.code == "empty" and k in ("vec",):
                v = Val("(empty : %s)" % self.wtype(ty), ty)
            self.emit("let ref %s = %s in" % (nm, v.code))
            self.env[d["id"]] = Place(nm, (), ty if self.kind(v.ty) not in ("oiter", "viter", "ptr") or k in ("oiter", "viter", "ptr") else v.ty, False, v.base)
        else:
            nm = self.localname(d.get("name"), ty)
            if k == "oiter":
                raise Unsupported("uninitialised iterator")
            ln = re.search(r"\[(\d+)\]$", ty) if k == "arr" else None
            self.emit("let ref %s = %s in" % (nm, "(anew %s : %s)" % (ln.group(1), self.wtype(ty)) if ln else "any %s" % self.wtype(ty)))
            self.env[d["id"]] = Place(nm, (), ty, False)

    def cond(self, n):
        v, lines = self.capture(lambda: self.rv(n))
        if lines:
            return "(begin %s %s end)" % (" ".join(lines), v.code)
        return v.code

    def s_IfStmt(self, n):
        ii = self.inner(n)
        if n.get("hasVar") or n.get("hasInit"):
            raise Unsupported("if with initialiser")
        cb = self.try_bool(ii[0])
        if cb is True:
            self.emit(self.block(ii[1]) + ";")
            return
        if cb is False:
            if len(ii) > 2:
                self.emit(self.block(ii[2]) + ";")
            return
        c = self.rv(ii[0]).code
        a = self.block(ii[1])
        if len(ii) > 2:
            b = self.block(ii[2])
            self.emit("if %s then %s else %s;" % (c, a, b))
        else:
            self.emit("if %s then %s;" % (c, a))

    def contains(self, n, kind, stop):
        for c in n.get("inner", ()):
            if not c:
                continue
            if c.get("kind") == kind:
                return True
            if c.get("kind") in stop:
                continue
            if self.contains(c, kind, stop):
                return True
        return False

    LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")

    def loop(self, cond, body, inc, dowhile=False):
        idx = self.loopidx
        self.loopidx += 1
        spec = self.fn.loops.get(idx, {})
        self.usedloops.add(idx)
        for b in spec.get("before", []):
            self.emit(b + ";")
        wrap = {"kind": "CompoundStmt", "inner": [body]}
        has_cont = body is not None and self.contains(wrap, "ContinueStmt", self.LOOPS)
        brk = self.fresh("Brk")
        cont = self.fresh("Cont")
        has_brk = body is not None and self.contains(wrap, "BreakStmt", self.LOOPS + ("SwitchStmt",))
        self.loopstack.append((brk, cont))
        savesw = self.inswitch
        self.inswitch = False
        try:
            c = "true" if cond is None else self.cond(cond)
            pre = []
            env = dict(self.env)
            bt = self.block(body)
            inct = ""
            if inc is not None:
                _, il = self.capture(lambda: self.stmt(inc))
                inct = " ".join(il)
        finally:
            self.loopstack.pop()
            self.inswitch = savesw
        inv = ""
        for v in spec.get("invariant", []):
            inv += "invariant { %s }\n" % labelled(v, "loop invariant")
        var = ""
        for v in spec.get("variant", []):
            var += "variant { %s }\n" % v
        if not spec.get("variant"):
            self.novariant.add(idx)
        text = ""
        bb = " ".join(x + ";" for x in spec.get("begin", []))
        be = " ".join(x + ";" for x in spec.get("end", []))
        bodytxt = bt
        if has_cont:
            self.emit("exception %s in" % cont)
            bodytxt = "begin try %s with %s -> () end end" % (bt, cont)
        if dowhile:
            # do body while c
            first = self.fresh("go")
            self.emit("let ref %s = true in" % first)
            w = "while %s do\n%s%s %s %s; %s %s <- %s; () done" % (first, inv, var, bb, bodytxt, be, first, c)
        else:
            w = "while %s do\n%s%s %s %s; %s %s () done" % (c, inv, var, bb, bodytxt, be, inct)
        if has_brk:
            self.emit("exception %s in" % brk)
            w = "begin try %s with %s -> () end end" % (w, brk)
        self.emit(w + ";")
        for b in spec.get("after", []):
            self.emit(b + ";")

    def s_WhileStmt(self, n):
        ii = self.inner(n)
        self.loop(ii[0] if self.try_bool(ii[0]) is not True else None, ii[1], None)

    def s_DoStmt(self, n):
        ii = self.inner(n)
        if self.try_bool(ii[1]) is False and not self.contains(n, "BreakStmt", self.LOOPS) and not self.contains(n, "ContinueStmt", self.LOOPS):
            self.emit(self.block(ii[0]) + ";")
            return
        self.loop(ii[1], ii[0], None, dowhile=True)

    def s_ForStmt(self, n):
        raw = n["inner"]
        init, condvar, cond, inc, body = raw
        env = dict(self.env)

        def go():
            if init:
                self.stmt(init)
            self.loop(cond if cond and self.try_bool(cond) is not True else None, body, inc if inc else None)
        _, lines = self.capture(go)
        self.env = env
        self.emit("begin %s () end;" % "\n".join(lines))

    def s_CXXForRangeStmt(self, n):
        raw = n["inner"]
        # init, range, begin, end, cond, inc, loopvar, body
        init, rng, beg, end, cond, inc, lvar, body = raw
        env = dict(self.env)

        def go():
            if init:
                self.stmt(init)
            self.stmt(rng)
            self.stmt(beg)
            self.stmt(end)
            b = {"kind": "CompoundStmt", "inner": [lvar, body]}
            self.loop(cond, b, inc)
        _, lines = self.capture(go)
        self.env = env
        self.emit("begin %s () end;" % "\n".join(lines))

    def s_BreakStmt(self, n):
        if self.inswitch:
            self.emit("raise %s;" % self.inswitch)
        else:
            self.emit("raise %s;" % self.loopstack[-1][0])

    def s_ContinueStmt(self, n):
        self.emit("raise %s;" % self.loopstack[-1][1])

    def s_ReturnStmt(self, n):
        e = self.inner(n)
        h = self.rethandler
        v = None
        if e:
            r = self.ex(e[0])
            self.moved_out(r)
            if h[0] == "exn" and h[2] is None or h[0] == "top" and h[1] is None:
                # void or *this result: evaluated for effect only
                v = None
            else:
                v = self.val(r)
                if v.extra in ("addr", "thisptr"):
                    if self.kind(self.resolve_name(norm(self.ret_type(self.curfn)), self.curfn)) != "ptrv":
                        raise Unsupported("returning a pointer")
                    v = self.ptrval(v)
        if v is not None and v.extra == "pair" and v.code == "pair":
            v = Val("(%s, %s)" % (v.base[0].code, v.base[1].code), v.ty)
        if h[0] == "exn":
            if v is not None:
                if v.base is not None:
                    h[3].append(v.base)
                self.emit("raise (%s %s);" % (h[1], self.atom(v.code)))
            else:
                self.emit("raise %s;" % h[1])
        else:
            for x in self.fn.get("exit"):
                self.emit(x + ";")
            self.emit("return %s;" % (self.atom(v.code) if v is not None else "()"))

    def s_SwitchStmt(self, n):
        ii = self.inner(n)
        v = self.bind(self.rv(ii[0]).code, "sw")
        body = ii[1]
        # flatten: list of (labels, stmts)
        groups = []

        def add(s):
            if s["kind"] == "CaseStmt":
                c = self.inner(s)
                lab = self.const_int(c[0])
                if len(c) == 3:
                    raise Unsupported("case range")
                if groups and not groups[-1][1] :
                    groups[-1][0].append(lab)
                else:
                    groups.append(([lab], []))
                add(c[-1])
            elif s["kind"] == "DefaultStmt":
                c = self.inner(s)
                if groups and not groups[-1][1]:
                    groups[-1][0].append("default")
                else:
                    groups.append((["default"], []))
                add(c[-1])
            else:
                if not groups:
                    raise Unsupported("statement before case")
                groups[-1][1].append(s)
        for s in self.inner(body):
            add(s)
        alllabs = [l for g in groups for l in g[0] if l != "default"]
        brk = self.fresh("Swb")
        save = self.inswitch
        self.inswitch = brk
        fall = self.fresh("fall")
        env = dict(self.env)

        def go():
            self.emit("let ref %s = false in" % fall)
            for labs, ss in groups:
                cs = []
                for l in labs:
                    if l == "default":
                        cs.append("(" + (" && ".join("%s <> %s" % (v, paren_int(x)) for x in alllabs) or "true") + ")")
                    else:
                        cs.append("%s = %s" % (v, paren_int(l)))
                b = self.block({"kind": "CompoundStmt", "inner": ss})
                self.emit("if %s || %s then begin %s <- true; %s end;" % (fall, " || ".join(cs), fall, b))
        _, lines = self.capture(go)
        self.inswitch = save
        self.env = env
        self.emit("exception %s in" % brk)
        self.emit("begin try begin %s () end with %s -> () end end;" % ("\n".join(lines), brk))

    # ---------------------------------------------------------------- a whole function
    def function(self, fn):
        dn = fn.node
        self.fn = fn
        self.fname = fn.name
        self.curfn = dn
        self.lines = []
        self.counter = 0
        self.env = {}
        self.usednames = set()
        self.immutable = set()
        self.locals = []
        self.rename_ok = True
        self.loopidx = 0
        self.usedloops = set()
        self.novariant = set()
        self.loopstack = []
        self.inswitch = False
        self.inl_stack = [self.ast.canon[dn["id"]]]
        self.inlined = set()
        self.called = set()
        self.fnopts = set(x for o in fn.opts.get("opt", []) for x in o.split()) | set(x for o in self.ct.opts.get("opt", []) for x in o.split())
        static = dn.get("storageClass") == "static"
        if dn.get("previousDecl"):
            pd = self.ast.decl.get(dn["previousDecl"])
            if pd is not None and pd.get("storageClass") == "static":
                static = True
        hasthis = dn["kind"] in ("CXXMethodDecl", "CXXDestructorDecl") and not static and not ("nothis" in " ".join(fn.opts.get("opt", [])).split() and not self.uses_this(dn))
        isctor = dn["kind"] == "CXXConstructorDecl"
        sig = []
        pre = []
        self.this = None
        cls = self.ast.parent_of(dn)
        cty = self.ast.qname(cls) if cls is not None else None
        if hasthis:
            self.usednames.add("this")
            if self.is_const_method(dn):
                sig.append("(this: %s)" % self.wtype(cty))
                self.this = Place("this", (), cty, True)
                self.immutable.add("this")
            else:
                sig.append("(ref this: %s)" % self.wtype(cty))
                self.this = Place("this", (), cty)
        if isctor:
            self.this = Place("this", (), cty)
            self.usednames.add("this")
            pre.append("let ref this = any %s in" % self.wtype(cty))
        binds = {}
        for b in fn.opts.get("bind", []):
            nm, pl = b.split("=", 1)
            binds[nm.strip()] = pl.strip()
        ghosts = []
        for g in fn.opts.get("ghostparam", []):
            sig.append("(" + g + ")")
            self.usednames.add(g.split(":")[0].split()[-1])
        rng = {}
        for o in fn.opts.get("range", []):
            # range NAME=cxxtype first last : the two iterators delimit a part of the sequence NAME
            lhs, rest = o.split("=", 1)
            parts = rest.rsplit(" ", 2)
            rty = parts[0].strip()
            sig.append("(%s: %s)" % (lhs.strip(), self.wtype(rty)))
            self.usednames.add(lhs.strip())
            self.immutable.add(lhs.strip())
            for x in parts[1:]:
                rng[x] = Place(lhs.strip(), (), rty, True)
        ptypes = {}
        for o in fn.opts.get("param", []):
            nm, cty2 = o.split(" ", 1)
            ptypes[nm] = cty2.strip()
        for p in self.ast.params(dn):
            ty = self.rtype(p["type"], dn)
            mode = self.param_mode(p)
            nm = self.localname(p.get("name") or "unnamed", ty)
            if (p.get("name") or "") in ptypes:
                ty = ptypes[p["name"]]
            base = rng.get(p.get("name")) if rng else None
            if rng and base is None:
                for k2, v2 in rng.items():
                    if nm in (k2, "v_" + k2):
                        base = v2
            if nm in binds:
                root, *flds = binds[nm].split(".")
                base = self.this if root == "this" else None
                if base is None:
                    for bb in self.env.values():
                        if isinstance(bb, Place) and bb.root == root:
                            base = bb
                if base is None and root in ptypes:
                    base = Place(root, (), ptypes[root], True)
                if base is None:
                    raise Unsupported("bind " + binds[nm])
                for f in flds:
                    ff = self.field(base.ty, f)
                    base = base.ext(("f", ff[0]), ff[1])
            wt = ("iter " + self.types[base.ty]["key"]) if self.kind(ty) == "oiter" and base is not None else self.wtype(ty)
            if ty.endswith("*") and ty not in self.types and base is None and nm not in fn.opts.get("ref", []):
                # pointer to an object: the object itself (assumed non-null)
                inner = self.resolve_name(norm(ty[:-1]), dn)
                raise Unsupported("pointer parameter " + ty)
            if mode == "ref":
                sig.append("(ref %s: %s)" % (nm, wt))
                self.env[p["id"]] = Place(nm, (), ty, False, base)
            else:
                sig.append("(%s: %s)" % (nm, wt))
                if mode == "val" and self.mutated(dn, p["id"]):
                    pre.append("let ref %s = %s in" % (nm, nm))
                    self.env[p["id"]] = Place(nm, (), ty, False, base)
                else:
                    self.immutable.add(nm)
                    self.env[p["id"]] = Place(nm, (), ty, True, base)
        if not sig:
            sig.append("()")
        rt = self.resolve_name(norm(self.ret_type(dn)), dn)
        rthis = (self.returns_this(dn) if not isctor else False) or "this" in fn.opts.get("result", [])
        rq = self.ret_type(dn)
        if isctor:
            rw = self.wtype(cty)
            self.rethandler = ("top", None)
        elif rthis or rt == "void":
            rw = "unit"
            self.rethandler = ("top", None)
        else:
            rw = None
            for r in fn.opts.get("result", []):
                if r.startswith("iter param:"):
                    base = next(self.env[p["id"]] for p in self.ast.params(dn) if p.get("name") == r[11:])
                    rw = "iter " + self.types[base.ty]["key"] if self.types[base.ty]["kind"] == "omap" else "int"
                    continue
                if r.startswith("iter "):
                    base = self.this
                    for f in r[5:].split("."):
                        if f != "this":
                            ff = self.field(base.ty, f)
                            base = base.ext(("f", ff[0]), ff[1])
                    rw = "iter " + self.types[base.ty]["key"] if self.types[base.ty]["kind"] == "omap" else "int"
                elif r.startswith("type "):
                    rw = r[5:]
            if rw is None:
                rw = self.wtype(rt)
            self.rethandler = ("top", rw)
        body = self.ast.body(dn)
        self.lines = list(pre)
        if self.opt("oldthis"):
            self.emit("let ghost old_this = this in")
        for x in fn.get("entry"):
            self.emit(x if x.rstrip().endswith(" in") else x + ";")
        if isctor:
            self.ctor_inits(dn)
            if self.has_return(body):
                exn = self.fresh("Ret")
                self.emit("exception %s in" % exn)
                self.rethandler = ("exn", exn, None, [])
                t = self.block(body)
                self.emit("begin try %s with %s -> () end end;" % (t, exn))
                body = {"kind": "CompoundStmt", "inner": []}
        stmts = [s for s in self.inner(body) if not self.is_noop(s)]
        final = None
        for j, s in enumerate(stmts):
            if j == len(stmts) - 1 and s["kind"] == "ReturnStmt" and rw != "unit":
                r = self.ex(self.inner(s)[0])
                self.moved_out(r)
                r = self.val(r)
                if r.extra in ("addr", "thisptr"):
                    if self.kind(rt) != "ptrv":
                        raise Unsupported("returning a pointer")
                    r = self.ptrval(r)
                final = r.code
                xs = fn.get("exit")
                if xs:
                    final = self.bind(final, "res")
                    for x in xs:
                        self.emit(x + ";")
            else:
                self.stmt(s)
        if isctor:
            for x in fn.get("exit"):
                self.emit(x + ";")
            final = "this"
        elif rw == "unit":
            for x in fn.get("exit"):
                self.emit(x + ";")
            final = "()"
        elif final is None:
            final = "absurd"
        extra = set(fn.loops) - self.usedloops
        if extra:
            raise Unsupported("loop annotations %s have no loop" % sorted(extra))
        spec = ""
        for r in fn.get("requires"):
            spec += "  requires { %s }\n" % labelled(r, "precondition")
        for r in fn.get("ensures"):
            spec += "  ensures { %s }\n" % labelled(r, "postcondition of " + fn.name)
        for r in fn.opts.get("variant", []):
            spec += "  variant { %s }\n" % r
        if (self.novariant and self.loopidx) or "diverges" in " ".join(fn.opts.get("opt", [])).split():
            spec += "  diverges\n"
        kw = "let rec " if "rec" in fn.opts else "let "
        text = "%s%s %s : %s\n%s=\n%s\n%s\n" % (kw, fn.name, " ".join(sig), rw, spec, "\n".join(self.lines), final)
        self.fn_text[fn.name] = text
        self.fn_locals[fn.name] = list(self.locals)
        self.fn_funcs[fn.name] = (self.ast.qname(dn), sorted(self.inlined), sorted(self.called))
        return text

    # ---------------------------------------------------------------- types from directives
    def do_record(self, a):
        why, cxx = a[0], a[1]
        drop = set()
        over = {}
        base = None
        rest = a[2:]
        while rest:
            if rest[0] == "drop":
                drop |= set(rest[1].split(","))
                rest = rest[2:]
            elif rest[0] == "field":
                nm, ty = rest[1].split(":", 1)
                over[nm.strip()] = ty.strip()
                rest = rest[2:]
            elif rest[0] == "mutable":
                self.mutrec.add(cxx)
                rest = rest[2:]
            elif rest[0] == "base":
                base = (why + "_base", rest[1])
                rest = rest[2:]
            else:
                raise ValueError("record option " + rest[0])
        rec = self.records.get(cxx)
        if rec is None:
            raise Unsupported("class %s not found" % cxx)
        flds = {}
        txt = []
        for c in rec.get("inner", ()):
            if c.get("kind") == "FieldDecl":
                nm = c["name"]
                if nm in drop:
                    self.dropped.add(nm)
                    continue
                try:
                    ty = over.get(nm) or self.rtype(c["type"], rec)
                    self.wtype(ty)
                except Unsupported:
                    continue      # a field of a type without a model: what uses it is outside the verifier's reach
                w = why + "_" + re.sub(r"^m_", "", nm)
                flds[nm] = (w, ty)
                if c.get("isBitfield"):
                    self.bitw[w] = self.const_int(self.inner(c)[0])
                txt.append("%s: %s" % (w, self.wtype(ty)))
        self.types[cxx] = {"kind": "record", "why": why, "fields": flds}
        if base:
            self.types[cxx]["base"] = base
            txt.append("%s: %s" % (base[0], self.wtype(base[1])))
        if not txt:
            txt.append(why + "_unit: int")
        return "type %s = { %s }\n" % (why, "; ".join(txt))


def labelled(txt, default):
    m = re.match(r"^([A-Za-z][\w ,'=<>/+*()-]*?)::\s+(.*)$", txt, re.S)
    if m:
        return "[@expl:%s] %s" % (m.group(1).strip(), m.group(2))
    return "[@expl:%s] %s" % (default, txt)


def paren_int(x):
    return str(x) if x >= 0 else "(%d)" % x


def norm_fn(q):
    return re.sub(r"\s+|noexcept", "", q or "")


def split_targs(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            depth += 1
        if ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

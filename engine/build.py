"""Assemble a WhyML file from a contract file and the current /repo source."""
import os, re, sys, json, hashlib
import contract as C
from cxx import AST, Unsupported, REPO
from tr import Translator, norm, Place

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def lt_subst(txt, ltfun):
    if ltfun is None:
        return re.sub(r"@LT\((\w+),(\w+)\)", r"(\1 < \2)", txt)
    return re.sub(r"@LT\((\w+),(\w+)\)", r"(%s \1 \2)" % ltfun, txt)


class Built:
    pass


def build(spec_path, scratch, baseline=None, only=None):
    ct = C.parse(spec_path)
    prop = os.path.basename(spec_path)[:-5]
    tu = os.path.join(scratch, prop + "_tu.cpp")
    with open(tu, "w") as f:
        for s in ct.sources:
            f.write(s.replace("/repo/", REPO + "/") + "\n")
    for k, a in ct.items:
        if k == "option":
            ct.opts.setdefault(a[0], []).append(" ".join(a[1:]))
    extra = [x for o in ct.opts.get("clang", []) for x in o.split()]
    ast = AST(tu, extra)
    names = {k: v["locals"] for k, v in (baseline or {}).items() if "locals" in v}
    tr = Translator(ast, ct, names)
    out = ["module M\n  use cxxprelude.Prelude\n"]
    tail = []
    b = Built()
    b.trusted = []
    fns = []
    for kind, it in ct.items:
        if kind == "raw":
            out.append(it)
        elif kind == "client":
            tail.append(it)
        elif kind == "use":
            out.append(open(os.path.join(HERE, "theories", it[0] + ".mlw")).read())
        elif kind == "record":
            try:
                out.append("  " + tr.do_record(it))
            except Unsupported as e:
                raise
        elif kind == "abstract":
            d = {"kind": "abstract", "why": it[0]}
            for x in it[2:]:
                kk, v = x.split("=", 1)
                d[kk] = v
            if "decl" in d:
                out.append("  " + d["decl"])
            tr.types[it[1]] = d
        elif kind == "handle":
            tr.types[it[1]] = dict({"kind": "handle", "why": it[0], "to": it[2]}, **dict(x.split("=", 1) for x in it[3:]))
        elif kind == "ptr":
            # ptr why "T" : T* as null-or-value
            tr.types[it[1] + " *"] = dict({"kind": "ptrv", "why": "ptr " + paren(it[0]), "to": it[1]}, **dict(x.split("=", 1) for x in it[2:]))
            tr.types["const " + it[1] + " *"] = tr.types[it[1] + " *"]
        elif kind == "harr":
            # harr eltwhy "pointer type" "element type" : an owning pointer to a heap array, or null
            d = dict({"kind": "harr", "why": "harr " + paren(it[0]), "eltty": it[2]}, **dict(x.split("=", 1) for x in it[3:]))
            tr.types[it[1]] = d
            tr.types["const " + it[1]] = d
        elif kind == "enum":
            tr.types[it[1]] = {"kind": "int", "why": "int"}
            import tr as T
            T.INT_TYPES[it[1]] = (False, 32)
        elif kind == "pair":
            tr.types[it[1]] = {"kind": "pair", "why": it[0], "a": it[2], "b": it[3]}
        elif kind in ("vec", "arr"):
            d = {"kind": kind, "why": "seq " + paren(it[0]), "eltty": it[2]}
            for x in it[3:]:
                kk, v = x.split("=", 1)
                d[kk] = v
            tr.types[it[1]] = d
        elif kind == "omap":
            d = dict(zip(it[2::2], it[3::2]))
            ns, cxx = it[0], it[1]
            key, elt = d["key"], d.get("elt", "unit")
            t = {"kind": "omap", "why": ns + ".t", "ns": ns, "key": paren(key), "keyty": d.get("keyty", "int"), "eltty": d.get("eltty", d.get("keyty", "int") if d.get("keyonly") == "yes" else elt),
                 "keyof": d.get("keyof"), "keyfn": d.get("keyfn"), "ismap": d.get("map") == "yes", "keyonly": d.get("keyonly") == "yes"}
            if d.get("wholekey"):
                # the elements carry the whole of their keys, of which only a part orders them
                t["rec"] = (ns.lower() + "_wkey", ns.lower() + "_wval")
                out.append("  type %s_entry = { %s_wkey : %s; %s_wval : %s }\n" % (ns.lower(), ns.lower(), d["wholekey"], ns.lower(), elt))
                elt = ns.lower() + "_entry"
            txt = open(os.path.join(HERE, "theories/omap.tpl")).read()
            ins = ""
            if t["keyof"]:
                ins = """    let insert (m: t) (x: @E) : t
      ensures { forall j. mem result j <-> (mem m j \\/ j = x.%s) }
      ensures { forall j. mem result j -> get result j = if mem m j then get m j else x }
      ensures { size result = size m + (if mem m x.%s then 0 else 1) }
    = insert_kv m x.%s x
""" % (t["keyof"], t["keyof"], t["keyof"])
            elif t["keyonly"]:
                ins = """    let insert (m: t) (x: @K) : t
      ensures { forall j. mem result j <-> (mem m j \\/ j = x) }
      ensures { size result = size m + (if mem m x then 0 else 1) }
    = insert_kv m x @UNIT
    val insert_range (m src: t) (a b: iter @K) : t
      requires { [@expl:insert of a valid range] valid src a /\\ valid src b }
      ensures { forall j. mem result j <-> (mem m j \\/ (mem src j /\\ at_or_after j a /\\ (match b with End -> true | At y -> @LT(j,y) end))) }
"""
            if t["ismap"] and d.get("default") and t.get("rec"):
                ins += """    let touch (m: t) (k: @K) (w: %s) : t
      ensures { forall j. mem result j <-> (mem m j \\/ j = k) }
      ensures { forall j. mem result j -> get result j = if mem m j then get m j else { %s_wkey = w; %s_wval = %s } }
      ensures { size result = size m + (if mem m k then 0 else 1) }
    = insert_kv m k { %s_wkey = w; %s_wval = %s }
""" % (d["wholekey"], ns.lower(), ns.lower(), d["default"], ns.lower(), ns.lower(), d["default"])
            elif t["ismap"] and d.get("default"):
                ins += """    let touch (m: t) (k: @K) : t
      ensures { forall j. mem result j <-> (mem m j \\/ j = k) }
      ensures { forall j. mem result j -> get result j = if mem m j then get m j else %s }
      ensures { size result = size m + (if mem m k then 0 else 1) }
    = insert_kv m k %s
""" % (d["default"], d["default"])
            txt = txt.replace("@INSERT", ins)
            txt = lt_subst(txt, d.get("lt"))
            txt = txt.replace("@UNIT", "()" if elt == "unit" else "(any @E)")
            txt = txt.replace("@N", ns).replace("@K", paren(key)).replace("@E", paren(elt))
            out.append(txt)
            names_ = [cxx] + [x for x in d.get("also", "").split("|") if x]
            for nn in names_:
                tr.types[nn] = t
            b.trusted.append("std::set/std::map theory instance %s for %s" % (ns, cxx))
        elif kind == "xfn":
            d = {"cxx": it[1], "why": it[0]}
            for x in it[2:]:
                kk, v = x.split("=", 1)
                d[kk] = v
            tr.xfn[it[1]] = d
        elif kind == "cmp":
            tr.cmps[it[1]] = it[0]
        elif kind == "seg":
            # pointers into one constant array: seg NAME "element *" "element"
            tr.types["seg:" + it[1]] = {"kind": "vec", "why": "(seq %s)" % tr.wtype(it[2]), "eltty": it[2]}
            tr.segs[it[1]] = Place(it[0], (), "seg:" + it[1], True)
        elif kind == "global":
            tr.globals[it[1]] = {"why": it[0], "ty": it[2]}
        elif kind in ("option", "alias"):
            pass
        elif kind == "fn":
            if it.cxx is None:
                raise ValueError("fn %s without cxx" % it.name)
            fns.append(it)
            if it.node is None:
                out.append(("stub", it))
                continue
            if "inline" in it.opts:
                continue
            try:
                txt = tr.function(it)
                out.append(("fn", it, txt))
            except Unsupported as e:
                if os.environ.get("TRB"):
                    import traceback
                    traceback.print_exc()
                tr.fn_err[it.name] = str(e)
                out.append(("stub", it))
        else:
            raise ValueError(kind)
    # functions after everything else, callees before callers (source order otherwise)
    rest = [x for x in out if isinstance(x, str)]
    fl = [x for x in out if not isinstance(x, str)]
    byname = {x[1].name: x for x in fl}
    done, order = set(), []

    def visit(x, stack):
        n = x[1].name
        if n in done or n in stack:
            return
        if x[0] == "fn":
            for c in tr.fn_funcs[n][2]:
                if c in byname:
                    visit(byname[c], stack + [n])
        if n not in done:
            done.add(n)
            order.append(x)
    for x in fl:
        visit(x, [])
    out = rest + order + tail
    out.append("end\n")
    b.parts = out
    b.tr = tr
    b.ct = ct
    b.fns = fns
    b.prop = prop
    b.baseline = baseline or {}
    return b


def paren(t):
    return "(%s)" % t if " " in t and not t.startswith("(") else t


def val_of(head):
    txt = re.sub(r"^let (rec )?", "val ", head)
    txt = "\n".join(l for l in txt.split("\n") if not l.startswith("  variant"))
    w = re.findall(r"\(ref (\w+):", head.split("\n")[0])
    if w:
        txt += "\n  writes { %s }" % ", ".join(w)
    return txt + "\n"


def render(b, replace_stub=()):
    """WhyML text; functions in replace_stub (or failed) are emitted without body"""
    res = []
    linemap = []   # (first line, name)
    line = 1
    for p in b.parts:
        if isinstance(p, str):
            txt = p
        elif p[0] == "fn" and p[1].name not in replace_stub:
            txt = p[2]
            linemap.append((line, line + txt.count("\n") + 1, p[1].name))
        elif p[0] == "fn":
            # contract only
            txt = val_of(p[2].split("\n=\n", 1)[0])
        else:
            txt = "(* %s: not extracted: %s *)\n" % (p[1].name, str(b.tr.fn_err.get(p[1].name)).replace("*", "x"))
            head = b.baseline.get(p[1].name, {}).get("head")
            if head:
                txt += val_of(head)
        res.append(txt)
        line += txt.count("\n") + 1
    return "\n".join(res), linemap

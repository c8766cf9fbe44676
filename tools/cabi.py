"""C34: the shipped C headers against the layout and signatures rustc gives the library.

The Rust side comes from the compiler (m68sa/src/layout.rs). From it a C file of redeclarations and
_Static_asserts is generated, one per line, and only type-checked by clang against the headers in
/repo/include/m68000: a line that does not compile is a fact of the interface the header contradicts."""
import json, os, re, subprocess

CC = ["clang", "-fsyntax-only", "-w", "-ferror-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics"]

def clang(args, src=None): return subprocess.run(CC + args, input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def walk(n, out):
    k, name = n.get("kind"), n.get("name")
    if k == "FunctionDecl" and name: out["fns"].setdefault(name, n.get("type", {}).get("qualType"))
    if k == "TypedefDecl" and name: out["typedefs"].add(name)
    if k == "EnumDecl":
        es, val = [], -1
        for e in n.get("inner", []):
            if e.get("kind") != "EnumConstantDecl": continue
            val += 1
            for c in e.get("inner", []):
                v = const(c)
                if v is not None: val = v
            es.append((e["name"], val))
        if es: out["enums"][name or n["id"]] = es
    if k == "RecordDecl" and n.get("completeDefinition"): out["records"][name or n["id"]] = members(n)
    for c in n.get("inner", []): walk(c, out)

def const(n):
    if "value" in n and n.get("kind") in ("ConstantExpr", "IntegerLiteral"): return int(n["value"])
    for c in n.get("inner", []):
        v = const(c)
        if v is not None: return v
    return None

def members(rec):
    """Fields of a record, those of anonymous members included, as the C programmer names them."""
    out, anon = [], {}
    for c in rec.get("inner", []):
        if c.get("kind") == "RecordDecl" and not c.get("name"): anon[c["id"]] = members(c)
        if c.get("kind") == "FieldDecl":
            if c.get("name"): out.append(c["name"])
    for a in anon.values(): out += a
    return out

def snake(s): return "".join(("_" if i and ch.isupper() else "") + ch.lower() for i, ch in enumerate(s))

def check(repo, abi):
    """-> list of (key, what, held) for every obligation."""
    inc = os.path.join(repo, "include/m68000")
    obs = []
    heads = ["m68000.h", "m68000-ffi.h"]
    for h in heads:
        for lang in ("c", "c++"):
            r = clang(["-x", lang, "-I", inc, "-"], '#include "%s"\n' % h)
            first = next((l for l in r.stdout.splitlines() if "error:" in l), "")
            obs.append(("header %s as %s" % (h, lang), "%s does not compile on its own as %s: %s" % (h, lang, first.replace(inc + "/", "")), r.returncode == 0))
    pre = ["#include <stdbool.h>", "#include <stddef.h>", "#include <stdint.h>", '#include "m68000.h"', '#include "m68000-ffi.h"']
    r = subprocess.run(["clang", "-w", "-ferror-limit=0", "-I", inc, "-x", "c", "-", "-fsyntax-only", "-Xclang", "-ast-dump=json"], input="\n".join(pre) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    head = {"fns": {}, "typedefs": set(), "enums": {}, "records": {}}
    walk(json.loads(r.stdout), head)
    lines = list(pre)
    marks = {}
    def must(key, what, code):
        lines.append(code); marks[len(lines)] = (key, what)
    def same(key, what, a, t):
        # char and int8_t are one type to Rust
        forms = [t.replace("SCHAR", s) for s in (["char", "int8_t"] if "SCHAR" in t else [""])]
        # a Rust bool read as a byte is 0 or 1
        if t.strip() == "bool": forms.append("uint8_t")
        must(key, what, "_Static_assert(%s, \"\");" % " || ".join("__builtin_types_compatible_p(%s, %s)" % (a, f) for f in forms))
    types = abi["types"]
    used = set(re.findall(r"\bm68000_\w+_t\b", " ".join(f["type"] for f in abi["fns"])))
    grown = True
    while grown:
        grown = False
        for n in list(used):
            for v in types.get(n, {}).get("variants", []):
                for f in v["fields"]:
                    for m in re.findall(r"\bm68000_\w+_t\b", f["type"]):
                        if m not in used: used.add(m); grown = True
    # every function the library exports, and every one the headers declare
    exported = {}
    for f in abi["fns"]:
        exported[f["symbol"]] = f
        if f["symbol"] != f["name"] and f["name"] in head["fns"]: continue
        key = "function " + f["symbol"]
        if f["symbol"] not in head["fns"]:
            if f["symbol"] == f["name"]: obs.append((key, "%s is exported and not declared in the headers @ %s" % (f["symbol"], f["site"]), False))
            continue
        t = f["type"].replace("FN(", "(", 1)
        same(key, "%s is declared with another type than its definition `%s` @ %s" % (f["symbol"], f["type"].replace("FN", f["symbol"]), f["site"]), "__typeof__(%s)" % f["symbol"], t)
    for n in head["fns"]:
        if n.startswith("m68000_"): obs.append(("function %s exists" % n, "%s is declared in the headers and not exported by the library" % n, n in exported))
    for n, t in sorted(types.items()):
        inhead = n in head["typedefs"]
        if not inhead and n not in used: continue
        if not inhead:
            obs.append(("type " + n, "%s is part of the interface and not declared in the headers" % n, False)); continue
        if t["kind"] == "opaque":
            # behind a pointer only: the headers must not promise a layout
            byval = n in head["records"] or n in head["enums"]
            obs.append(("layout " + n, "%s has fields in the headers and no C layout in %s" % (n, t["rust"]), not byval))
            continue
        tagged = t["kind"] == "enum" and any(v["fields"] for v in t["variants"])
        must("size " + n, "%s is not %d bytes large as %s is" % (n, t["size"], t["rust"]), "_Static_assert(sizeof(%s) == %d, \"\");" % (n, t["size"]))
        must("align " + n, "%s is not aligned to %d as %s is" % (n, t["align"], t["rust"]), "_Static_assert(_Alignof(%s) == %d, \"\");" % (n, t["align"]))
        if t["kind"] in ("struct", "union"):
            for f in t["variants"][0]["fields"]:
                name = ("_" + f["name"]) if f["name"].isdigit() else f["name"]
                fields(must, same, n, name, f, t["rust"])
            extra = set(head["records"].get(n, [])) - {("_" + f["name"]) if f["name"].isdigit() else f["name"] for f in t["variants"][0]["fields"]}
            obs.append(("fields " + n, "%s has the fields %s that %s has not" % (n, sorted(extra), t["rust"]), not extra))
            continue
        en = n + "_Tag" if tagged else n
        consts = dict(head["enums"].get(en, []))
        for v in t["variants"]:
            got = [c for c, x in consts.items() if c.rstrip("_") == v["name"]]
            obs.append(("enumerator %s %s" % (n, v["name"]), "%s %s of %s is %s in the headers and %d in %s" % (en, v["name"], n, [consts[g] for g in got] or "missing", v["value"], t["rust"]), bool(got) and consts[got[0]] == v["value"]))
        extra = {c.rstrip("_") for c in consts} - {v["name"] for v in t["variants"]}
        obs.append(("enumerators " + n, "%s has the enumerators %s that %s has not" % (en, sorted(extra), t["rust"]), not extra))
        if not tagged: continue
        mem = head["records"].get(n, [])
        for v in t["variants"]:
            if not v["fields"]: continue
            s = snake(v["name"])
            m = next((x for x in mem if x.rstrip("_") == s), None)
            if m is None: obs.append(("member %s %s" % (n, s), "%s has no member for %s of %s" % (n, v["name"], t["rust"]), False)); continue
            for f in v["fields"]:
                fields(must, same, n, m if len(v["fields"]) == 1 else "%s._%s" % (m, f["name"]), f, t["rust"] + "::" + v["name"])
    r = clang(["-x", "c", "-std=gnu11", "-Dconst=", "-I", inc, "-"], "\n".join(lines) + "\n")
    bad = {}
    for l in r.stdout.splitlines():
        m = re.match(r"<stdin>:(\d+):\d+: error: (.*)", l)
        if m: bad.setdefault(int(m.group(1)), m.group(2))
    for i, (key, what) in marks.items():
        why = bad.pop(i, None)
        obs.append((key, what + ("" if why is None or "static assertion failed" in why else " (%s)" % why), why is None))
    return obs

def fields(must, same, n, name, f, rust):
    key = "field %s.%s" % (n, name)
    must(key + " offset", "%s.%s is not at offset %d as in %s" % (n, name, f["offset"], rust), "_Static_assert(offsetof(%s, %s) == %d, \"\");" % (n, name, f["offset"]))
    same(key + " type", "%s.%s is not of type %s as in %s" % (n, name, f["type"].replace("SCHAR", "char"), rust), "__typeof__(((%s *)0)->%s)" % (n, name), f["type"])

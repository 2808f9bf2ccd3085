"""Assembles one Verus input file from a unit description (units/*.vrs): the ghost text written
there plus the real items of /repo, lifted mechanically.  What the lifting changes is limited to:
comments and attributes dropped, visibility widened to `pub`, the unit's declared rewrites."""
import hashlib
import os
import re
import shlex

from .rustsrc import RustFile, FnParts, Lost, lex, loops, strip_comments_attrs, match_close, expand

UNITS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units")


def pubify(text):
    """struct/enum text: every field and the item itself public"""
    text = re.sub(r"\bpub\s*\([^)]*\)", "pub", text)
    toks = lex(text)
    ins = []
    # item keyword
    i = 0
    if toks[0].text != "pub":
        ins.append(toks[0].s)
    # struct fields
    kw = [t.text for t in toks[:2]]
    if "struct" in kw:
        for j, t in enumerate(toks):
            if t.text in ("{", "(") and t.kind == "p":
                named = t.text == "{"
                e = match_close(toks, j)
                k = j + 1
                start = True
                depth = 0
                while k < e:
                    if start:
                        if toks[k].text != "pub":
                            ins.append(toks[k].s)
                        start = False
                    if toks[k].kind == "p" and toks[k].text in ("(", "[", "{"):
                        k = match_close(toks, k)
                    elif toks[k].text == "<":
                        depth += 1
                    elif toks[k].text == ">":
                        depth -= 1
                    elif toks[k].text == "," and depth == 0:
                        start = True
                    k += 1
                break
    for p in sorted(ins, reverse=True):
        text = text[:p] + "pub " + text[p:]
    return text


def kvs(words):
    d = {}
    for w in words:
        k, _, v = w.partition("=")
        d[k] = v
    return d


class Unit:
    def __init__(self, name, repo="/repo"):
        self.name, self.repo = name, repo
        self.files = {}
        self.rewrites = []
        self.fns = []       # (qualified name, source path)
        self.items = []
        self.out = []       # emitted lines
        self.hash = hashlib.sha256()
        self.rw_used = {}
        self.vacuity = False

    def file(self, p):
        if p not in self.files:
            self.files[p] = RustFile(os.path.join(self.repo, p))
        return self.files[p]

    def apply(self, text, local=(), body=False):
        for rx, rep, flags in list(local) + self.rewrites:
            text, n = rx.subn(rep, text)
            key = rx.pattern + " ==> " + rep
            self.rw_used[key] = self.rw_used.get(key, 0) + n
            if body and n == 0 and "must" in flags:
                raise Lost(f"rewrite pattern not found: {rx.pattern}")
        return text

    def emit(self, text):
        self.out.extend(text.split("\n"))

    # ------------------------------------------------------------------
    def build(self, vacuity=False):
        self.vacuity = vacuity
        self.process(os.path.join(UNITS, self.name + ".vrs"))
        return "\n".join(self.out) + "\n"

    def process(self, path):
        lines = open(path, encoding="utf-8").read().split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            if not s.startswith("//@"):
                self.out.append(ln)
                i += 1
                continue
            d = s[3:].strip()
            cmd, _, rest = d.partition(" ")
            rest = rest.strip()
            if cmd == "include":
                self.process(os.path.join(UNITS, rest))
            elif cmd in ("rewrite", "rewrite!"):
                self.rewrites.append(self.parse_rw(rest, cmd.endswith("!")))
            elif cmd in ("struct", "enum"):
                self.do_type(cmd, rest)
            elif cmd == "const":
                self.do_const(rest)
            elif cmd == "filesize":
                a, b = rest.split()
                try:
                    n = os.path.getsize(os.path.join(self.repo, a))
                except OSError:
                    n = -1
                if n != int(b):
                    raise Lost(f"{a}: size is {n}, contract assumes {b}")
            elif cmd == "table":
                self.do_table(rest)
            elif cmd == "pairs":
                self.do_pairs(rest)
            elif cmd == "verpairs":
                self.do_verpairs(rest)
            elif cmd == "macros":
                w = rest.split()
                f = self.file(w[0])
                defs = [self.file(x[5:]) for x in w[1:] if x.startswith("defs=")]
                self.files[w[0]] = RustFile(f.path, expand(f.src, [x for x in w[1:] if "=" not in x], f.path, defs))
            elif cmd == "variants":
                # variants FILE ENUM A B C ..: an enum_dispatch enum, each variant standing for the type of its name
                w = rest.split()
                t = strip_comments_attrs(self.file(w[0]).find("enum", w[1]).text)
                have = [p.strip() for p in t[t.index("{") + 1:t.rindex("}")].split(",") if p.strip()]
                if have != w[2:]:
                    raise Lost(f"{w[0]}: the variants of {w[1]} changed")
            elif cmd == "enumnum":
                self.do_enumnum(rest)
            elif cmd == "vernum":
                self.do_vernum(rest)
            elif cmd == "visits":
                from .visits import Visits
                Visits(self).run()
            elif cmd == "expect":
                # token-level check that an item still has the form the assumed contract models
                self.do_expect(rest)
            elif cmd == "fn":
                j = i + 1
                while lines[j].strip() != "//@ end":
                    j += 1
                self.do_fn(rest, lines[i + 1:j])
                i = j
            elif cmd == "#":
                pass
            else:
                raise ValueError(f"bad directive {s} in {path}")
            i += 1

    def parse_rw(self, rest, must=False):
        a, b = rest.split("==>")
        return (re.compile(a.strip(), re.S), b.strip(), {"must"} if must else set())

    def do_type(self, kind, rest):
        w = shlex.split(rest)
        f = self.file(w[0])
        it = f.find(kind, w[1])
        o = kvs(w[2:])
        text = strip_comments_attrs(it.text)
        text = self.apply(text)
        text = pubify(text)
        if "name" in o:
            text = re.sub(rf"\b{w[1]}\b", o["name"], text)
        self.hash.update(text.encode())
        self.items.append(f"{w[0]}::{w[1]}")
        der = o.get("derive", "")
        self.emit(f"// <<{kind} {w[0]} {w[1]}>>")
        if der:
            self.emit(f"#[derive({der})]")
        if "attr" in o:
            self.emit(o["attr"])
        self.emit(text)
        self.emit("// <<>>")
        if "ord" in o:
            # variant order as declared, for the derived PartialOrd
            body = text[text.index("{") + 1:text.rindex("}")]
            names = [re.match(r"\s*(\w+)", p).group(1) for p in body.split(",") if p.strip()]
            self.emit(f"pub open spec fn {o['ord']}(v: {w[1]}) -> int {{ match v {{")
            for n, nm in enumerate(names):
                self.emit(f"    {w[1]}::{nm} => {n},")
            self.emit("} }")

    def do_const(self, rest):
        w = shlex.split(rest)
        f = self.file(w[0])
        o = kvs(w[2:])
        if "::" in w[1]:
            owner, name = w[1].split("::")
            it, _ = f.find_assoc(owner, "const", name)
            text = self.apply(strip_comments_attrs(it.text))
            text = re.sub(r"\bpub\s*\([^)]*\)", "pub", text)
            if not text.startswith("pub"):
                text = "pub " + text
            self.emit(f"impl {owner} {{ {text} }}")
        else:
            it = f.find("const", w[1])
            text = self.apply(strip_comments_attrs(it.text))
            text = re.sub(r"\bpub\s*\([^)]*\)", "pub", text)
            if not text.startswith("pub"):
                text = "pub " + text
            self.emit(text)
        self.hash.update(text.encode())
        self.items.append(f"{w[0]}::{w[1]}")

    def do_table(self, rest):
        """numbers of a (lazy) static table, as a spec sequence: table FILE NAME specname [row]"""
        w = shlex.split(rest)
        f = self.file(w[0])
        toks = f.toks
        for i, t in enumerate(toks):
            if t.text == w[1] and i + 1 < len(toks) and toks[i + 1].text == ":" and toks[i - 1].text in ("ref", "static", "const"):
                j = i
                while toks[j].text != "=":
                    j += 1
                break
        else:
            raise Lost(f"{w[0]}: table {w[1]} not found")
        j += 1
        if toks[j].text == "&":
            j += 1
        if toks[j].text != "[":
            raise Lost(f"{w[0]}: table {w[1]} is not an array literal")
        e = match_close(toks, j)
        if len(w) > 3:
            rows, k = [], j + 1
            while k < e:
                if toks[k].text == "[":
                    rows.append((k, match_close(toks, k)))
                    k = rows[-1][1]
                k += 1
            j, e = rows[int(w[3])]
        nums = [t.text.replace("_", "") for t in toks[j + 1:e] if t.text != ","]
        for n in nums:
            if not re.fullmatch(r"(0x[0-9a-fA-F]+|\d+)(u\d+)?", n):
                raise Lost(f"{w[0]}: table {w[1]} has an entry {n}")
        self.emit(f"// table {w[1]} of {w[0]}")
        self.emit(f"pub open spec fn {w[2]}() -> Seq<u32> {{ seq![" + ", ".join(re.sub(r"u\d+$", "", n) + "u32" for n in nums) + "] }")
        self.hash.update(" ".join(nums).encode())
        self.items.append(f"{w[0]}::{w[1]}")

    def emit_pairs(self, name, a, b, rows):
        self.emit(f"pub open spec fn {name}() -> Seq<({a}, {b})> {{ seq![" + ", ".join(f"({x}, {y})" for x, y in rows) + "] }")
        self.emit(f"pub fn {name}_x() -> (r: Vec<({a}, {b})>) ensures r@ == {name}() {{ let mut r: Vec<({a}, {b})> = Vec::new();")
        for x, y in rows:
            self.emit(f"    r.push(({x}, {y}));")
        self.emit(f"    assert(r@ =~= {name}()); r }}")

    def do_pairs(self, rest):
        """a static list of pairs as a spec sequence and the code building it: pairs FILE NAME specname A B"""
        w = shlex.split(rest)
        f = self.file(w[0])
        toks = f.toks
        for i, t in enumerate(toks):
            if t.text == w[1] and toks[i + 1].text == ":" and toks[i - 1].text in ("ref", "static", "const"):
                break
        else:
            raise Lost(f"{w[0]}: list {w[1]} not found")
        j = i
        while toks[j].text != "=":
            j += 1
        while toks[j].text != "[":
            if toks[j].text == ";":
                raise Lost(f"{w[0]}: list {w[1]} has no array literal")
            j += 1
        e = match_close(toks, j)
        rows, k = [], j + 1
        while k < e:
            if toks[k].text == "(":
                c = match_close(toks, k)
                m = re.fullmatch(r"\( (\w+ :: \w+) , (\w+ :: \w+)( ,)? \)", " ".join(t.text for t in toks[k:c + 1]))
                if not m:
                    raise Lost(f"{w[0]}: list {w[1]} has another kind of entry")
                rows.append((m.group(1).replace(" ", ""), m.group(2).replace(" ", "")))
                k = c
            elif toks[k].text != ",":
                raise Lost(f"{w[0]}: list {w[1]} has another kind of entry")
            k += 1
        self.emit(f"// list {w[1]} of {w[0]}")
        self.emit_pairs(w[2], w[3], w[4], rows)
        self.hash.update(str(rows).encode())
        self.items.append(f"{w[0]}::{w[1]}")

    def do_verpairs(self, rest):
        """the mappings of an impl_custom_version_trait! use: verpairs FILE ENUM specname"""
        w = shlex.split(rest)
        f = self.file(w[0])
        toks = f.toks
        for i, t in enumerate(toks):
            if t.text == "impl_custom_version_trait" and toks[i + 1].text == "!" and toks[i + 3].text == w[1]:
                break
        else:
            raise Lost(f"{w[0]}: versions of {w[1]} not found")
        e = match_close(toks, i + 2)
        body = " ".join(t.text for t in toks[i + 3:e])
        rows = re.findall(r"(\w+) : (\w+)", body)
        it = f.find("enum", w[1])
        num, nxt = {}, 0
        en = strip_comments_attrs(it.text)
        for p in en[en.index("{") + 1:en.rindex("}")].split(","):
            p = re.sub(r"\(\s*\w+::(\w+) as i32\s*\) ([+-]) (\d+)", lambda m: str(num.get(m[1], 0) + int(m[2] + m[3])), p)
            m = re.fullmatch(r"\s*(\w+)\s*(?:=\s*(-?\d+))?\s*", p)
            if not m:
                if p.strip():
                    raise Lost(f"{w[0]}: {w[1]} has variant {p.strip()}")
                continue
            nxt = int(m.group(2)) if m.group(2) else nxt
            num[m.group(1)] = nxt
            nxt += 1
        try:
            rows = [("EngineVersion::" + a, f"{num[b]}i32") for a, b in rows]
        except KeyError as x:
            raise Lost(f"{w[0]}: {w[1]} has no {x}")
        self.emit(f"// mappings of {w[1]} of {w[0]}")
        self.emit(f"pub open spec fn {w[2]}() -> Seq<(EngineVersion, i32)> {{ seq![" + ", ".join(f"({x}, {y})" for x, y in rows) + "] }")
        self.hash.update(str(rows).encode())
        self.items.append(f"{w[0]}::{w[1]}")

    def do_enumnum(self, rest):
        """a fieldless enum of the integer type of its repr with its num_enum conversions: enumnum FILE ENUM"""
        w = shlex.split(rest)
        f = self.file(w[0])
        it = f.find("enum", w[1])
        rp = [f.src[f.toks[x].s:f.toks[y].e] for x, y in it.attrs]
        tys = [m.group(1) for x in rp for m in [re.search(r"repr\s*\(\s*(\w+)", x)] if m]
        ty = tys[0] if tys else "u8"
        en = strip_comments_attrs(it.text)
        rows, nxt = [], 0
        for p in en[en.index("{") + 1:en.rindex("}")].split(","):
            if not p.strip():
                continue
            m = re.fullmatch(r"\s*(\w+)\s*(?:=\s*(-?\d\w*))?\s*", p)
            if not m:
                raise Lost(f"{w[0]}: {w[1]} has variant {p.strip()}")
            nxt = int(m.group(2), 0) if m.group(2) else nxt
            rows.append((m.group(1), nxt))
            nxt += 1
        n = lambda k: f"{k}{ty}" if k >= 0 else f"({k}{ty})"
        self.emit(f"// <<enum {w[0]} {w[1]}>>")
        self.emit("#[derive(Copy, Clone, PartialEq, Eq)]")
        self.emit(f"pub enum {w[1]} {{ " + ", ".join(a for a, _ in rows) + " }")
        self.emit(f"pub open spec fn {w[1]}_n(v: {w[1]}) -> {ty} {{ match v {{ " + ", ".join(f"{w[1]}::{a} => {n(k)}" for a, k in rows) + " } }")
        self.emit(f"impl vstd::std_specs::cmp::PartialEqSpecImpl for {w[1]} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{w[1]}) -> bool {{ *self == *o }} }}")
        self.emit(f"impl {w[1]} {{ pub fn to_{ty}(&self) -> (r: {ty}) ensures r == {w[1]}_n(*self) {{ match self {{ "
                  + ", ".join(f"{w[1]}::{a} => {n(k)}" for a, k in rows) + " } }")
        self.emit(f"pub fn try_from(v: {ty}) -> (r: Result<{w[1]}, Error>) ensures r is Ok ==> {w[1]}_n(r->Ok_0) == v, r is Err ==> (forall|t: {w[1]}| {w[1]}_n(t) != v) {{")
        self.emit("    " + " else ".join(f"if v == {k} {{ Ok({w[1]}::{a}) }}" for a, k in rows) + " else { Err(Error::Any) } } }")
        self.emit("// <<>>")
        self.hash.update(str(rows).encode())
        self.items.append(f"{w[0]}::{w[1]}")

    def do_vernum(self, rest):
        """numbers of custom version enum variants: vernum FILE ENUM VARIANT.."""
        w = shlex.split(rest)
        en = strip_comments_attrs(self.file(w[0]).find("enum", w[1]).text)
        num, nxt = {}, 0
        for p in en[en.index("{") + 1:en.rindex("}")].split(","):
            m = re.fullmatch(r"\s*(\w+)\s*(?:=\s*(-?\d+))?\s*", p)
            if not m:
                nxt = None
                continue
            nxt = int(m.group(2)) if m.group(2) else nxt
            num[m.group(1)] = nxt
            nxt = nxt + 1 if nxt is not None else None
        for v in w[2:]:
            if num.get(v) is None:
                raise Lost(f"{w[0]}: {w[1]}::{v} not found")
            self.emit(f"pub const {w[1]}_{v}: i32 = {num[v]};")
            self.hash.update(f"{v}={num[v]}".encode())
        self.items.append(f"{w[0]}::{w[1]}")

    def do_expect(self, rest):
        a, _, b = rest.partition(" ")
        f = self.file(a)
        if b.strip() and not re.search(b.strip(), " ".join(t.text for t in f.toks)):
            raise Lost(f"{a}: expected form not found: {b.strip()}")

    def do_fn(self, rest, lines):
        w = shlex.split(rest)
        path, owner, name = w[0], w[1], w[2]
        o = kvs(w[3:])
        owner_ = None if owner == "-" else owner
        f = self.file(path)
        it, impl = f.find_fn(owner_, name)
        p = FnParts(f, it)
        q = name if owner_ is None else f"{owner}::{name}"
        body = strip_comments_attrs(p.body_src)
        # sections
        contract, sections, local, cur = [], {}, [], None
        loop_decl, clos, cuts = {}, [], []
        for ln in lines:
            s = ln.strip()
            if s.startswith("//@"):
                d = s[3:].strip()
                cmd, _, r = d.partition(" ")
                if cmd == "loop":
                    ww = r.split()
                    k = int(ww[0])
                    loop_decl[k] = kvs(ww[1:])
                    cur = ("inv", k)
                    sections[cur] = []
                elif cmd == "at":
                    ww = r.split()
                    cur = (ww[0], int(ww[1]) if len(ww) > 1 else 0)
                    sections[cur] = []
                elif cmd in ("rw", "rw!"):
                    local.append(self.parse_rw(r, cmd.endswith("!")))
                elif cmd == "cut":
                    # proof text in front of the one place PAT matches; it may open or close a block that only isolates the proof
                    a, b = r.split(" ==> ", 1)
                    cuts.append((a.strip(), b.strip()))
                elif cmd == "closure":
                    clos.append(kvs(shlex.split(r)))
                else:
                    raise ValueError("bad fn directive " + s)
            elif cur is None:
                contract.append(ln)
            else:
                sections[cur].append(ln)
        # parameter renames: contract text is written with the declared names
        ren = {}
        if "params" in o:
            want = [x for x in o["params"].split(",") if x]
            have = [re.sub(r"\bmut\b", "", a).strip() for a, _ in p.params if a != "self"]
            if len(want) != len(have):
                raise Lost(f"{q}: parameter list changed")
            for a, b in zip(want, have):
                if a != b:
                    ren[a] = b

        def rn(text):
            for a, b in ren.items():
                text = re.sub(rf"(?<![\w.]){a}\b", b, text)
            return text

        if clos:
            body = closures(body, [{k: rn(v) for k, v in c.items()} for c in clos], q)
        for k, (pat, _) in enumerate(cuts):
            ms = list(re.finditer(rn(pat), body, re.S))
            if len(ms) != 1:
                raise Lost(f"{q}: {len(ms)} places like {pat}")
            body = body[:ms[0].start()] + f"vx_cut!({k}); " + body[ms[0].start():]
        body = self.apply(body, local, True)
        ls = loops(body)
        if "loops" not in o:
            if len(ls) != len(loop_decl):
                raise Lost(f"{q}: {len(ls)} loops, contract knows {len(loop_decl)}")
        ins = []  # (offset, text)
        for k, opt in loop_decl.items():
            if k >= len(ls):
                raise Lost(f"{q}: loop {k} is gone")
            L = ls[k]
            if opt.get("kind", L["kind"]) != L["kind"]:
                raise Lost(f"{q}: loop {k} is now a {L['kind']} loop")
            if "hdr" in opt and not re.search(opt["hdr"], L["header"]):
                raise Lost(f"{q}: loop {k} header is now `{L['header']}`")
            if "it" in opt:
                ins.append((L["inpos"], f" {opt['it']}:"))
            inv = rn("\n".join(sections[("inv", k)]))
            ins.append((L["brace"], "\n" + inv + "\n"))
        for (wh, k), txt in sections.items():
            t = "\n" + rn("\n".join(txt)) + "\n"
            if wh == "inv":
                continue
            if wh == "body-start":
                ins.append((1, t))
            elif wh in ("pre-loop", "loop-start", "loop-end", "post-loop"):
                if k >= len(ls):
                    raise Lost(f"{q}: loop {k} is gone")
                L = ls[k]
                pos = {"pre-loop": L["kw"], "loop-start": L["brace"] + 1, "loop-end": L["end"],
                       "post-loop": L["end"] + 1}[wh]
                ins.append((pos, t))
            elif wh == "before-tail":
                pos = tail_pos(body)
                if pos is None:
                    raise Lost(f"{q}: no tail expression")
                ins.append((pos, t))
            else:
                raise ValueError("bad place " + wh)
        if self.vacuity and "novac" not in o:
            ins.append((1, "\n    assert(false); // VACUITY\n"))
        for pos, t in sorted(ins, key=lambda x: -x[0]):
            body = body[:pos] + t + body[pos:]
        # declarations of what a proof does not unfold stay first
        body = re.sub(r"(\s*assert\(false\); // VACUITY\n)((?:\s*hide\([\w:]+\);)+)", r"\2\1", body)
        for k, (_, t) in enumerate(cuts):
            body = body.replace(f"vx_cut!({k}); ", rn(t) + " ")
        gen = self.apply(p.generics, local)
        params = []
        free = o.get("mode") == "free"
        igen, iself, iwhere = "", "", ""
        if impl is not None and impl.kind == "impl":
            igen, tr, iself, iwhere = f.impl_header(impl)
            igen, iself, iwhere = (self.apply(x, local) for x in (igen, iself, iwhere))
        if "self" in o:
            iself = o["self"]
        if "igen" in o:
            igen = o["igen"]
        if "gen" in o:
            gen = o["gen"]
        for a, t in p.params:
            if a == "self":
                if free:
                    t2 = t.replace("mut self", "mut @").replace("self", "@")
                    params.append({"&mut @": f"this: &mut {iself}", "&@": f"this: &{iself}",
                                   "@": f"this: {iself}", "mut @": f"mut this: {iself}"}[t2.strip()])
                else:
                    params.append(t)
            else:
                params.append(f"{self.apply(a, local)}: {self.apply(t, local)}")
        if "ghost" in o:
            params.append(o["ghost"])
        ret = ""
        where = self.apply(" ".join(x for x in [p.where] if x), local)
        if "where" in o:
            where = o["where"]
        if p.ret is not None:
            rt = self.apply(p.ret, local)
            ret = f" -> ({o.get('ret', 'r')}: {rt})"
        newname = o.get("as", name)
        con = rn("\n".join(contract))
        head = f"pub fn {newname}{gen}({', '.join(params)}){ret} {where}"
        if free:
            body = re.sub(r"\bself\b", "this", body)
            if igen and gen:
                gen2 = igen[:-1].rstrip(",") + ", " + gen[1:]
            else:
                gen2 = igen or gen
            head = f"pub fn {newname}{gen2}({', '.join(params)}){ret} {where}"
            head = re.sub(r"\bSelf\b", iself, head)
            body = re.sub(r"\bSelf\b", iself, body)
        self.emit(f"// <<fn {path} {q}>>")
        for a in o.get("attr", "").split(";"):
            if a:
                self.emit(a)
        if not free and impl is not None:
            self.emit(f"impl{igen} {iself} {iwhere} {{")
        self.emit(head)
        self.emit(con)
        self.emit(body)
        if not free and impl is not None:
            self.emit("}")
        self.emit("// <<>>")
        self.hash.update((p.body_src + str(p.params) + str(p.ret)).encode())
        self.fns.append((q, path))


def closures(body, decl, q):
    """gives the closures of a body, in order of appearance, the types and contracts declared for them;
    the closure's own text becomes the body checked against that contract"""
    toks = lex(body)
    found = []
    i = 0
    while i < len(toks):
        t = toks[i]
        prev = toks[i - 1].text if i else ""
        if t.text in ("|", "||") and prev in ("(", ",", "=", "{", ";", "=>", "return", "move"):
            if t.text == "||":
                pat, b = "", i + 1
            else:
                j = i + 1
                while toks[j].text != "|":
                    j = match_close(toks, j) + 1 if toks[j].text in ("(", "[", "{") else j + 1
                pat, b = body[toks[i + 1].s:toks[j].s].strip(), j + 1
            k = b
            if toks[b].text == "{":
                k = match_close(toks, b) + 1
            else:
                while k < len(toks) and toks[k].text not in (",", ")", "]", "}", ";"):
                    k = match_close(toks, k) + 1 if toks[k].text in ("(", "[", "{") else k + 1
            found.append((t.s, toks[k - 1].e, pat, body[toks[b].s:toks[k - 1].e]))
            i = k
        else:
            i += 1
    if len(found) != len(decl):
        raise Lost(f"{q}: {len(found)} closures, contract knows {len(decl)}")
    for (s, e, pat, cb), c in reversed(list(zip(found, decl))):
        lets = ""
        if re.fullmatch(r"\w+", pat):
            lets = f"let {pat} = cx;"
        elif re.fullmatch(r"&\w+", pat):
            lets = f"let {pat[1:]} = *cx;"
        elif re.fullmatch(r"\(([\w, ]+)\)", pat):
            for n, v in enumerate(x.strip() for x in pat[1:-1].split(",")):
                if v and v != "_":
                    lets += f"let {v} = &cx.{n};"
        elif pat and ":" not in pat:
            raise Lost(f"{q}: closure parameter {pat}")
        arg = f"cx: {c['arg']}" if "arg" in c else pat
        text = f"|{arg}| -> ({c['ret']}) "
        if "req" in c:
            text += f"requires {c['req']} "
        text += f"ensures {c['ens']} {{ {lets} {cb} }}"
        if "ghost" in c:
            text += f", Ghost({c['ghost']})"
        body = body[:s] + text + body[e:]
    return body


def tail_pos(body):
    """offset of the tail expression of a block, or None when it ends in `;` / is empty"""
    toks = lex(body)
    i, last = 1, None
    end = len(toks) - 1
    while i < end:
        last = i
        # advance one statement
        j = i
        blocklike = toks[j].text in ("if", "match", "for", "while", "loop", "unsafe", "{")
        while j < end:
            t = toks[j]
            if t.kind == "p" and t.text in ("(", "[", "{"):
                isb = t.text == "{"
                j = match_close(toks, j)
                if isb and blocklike and j + 1 < end and toks[j + 1].text not in ("else", ".", "?", ";") \
                        and toks[j + 1].kind != "p":
                    break
            elif t.text == ";" and t.kind == "p":
                break
            j += 1
        if j >= end:
            return toks[last].s
        i = j + 1
    return None

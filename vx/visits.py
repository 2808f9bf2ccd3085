"""FNameContainer implementations as the compiler sees them: the crates are macro-expanded by rustc on every run and each
`traverse_fnames` body found (derived or written by hand) becomes one function under contract.  What the lifting changes: the type of
every field becomes an opaque type named after its text, `x.traverse_fnames(traverse)` becomes a call of the contract of the same name
for x's type, `self` is passed as `this`."""
import hashlib
import os
import re
import subprocess

from .rustsrc import Lost

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATES = [("unreal_asset_base", "unreal_asset/unreal_asset_base"), ("unreal_asset_properties", "unreal_asset/unreal_asset_properties"),
          ("unreal_asset_kismet", "unreal_asset/unreal_asset_kismet"), ("unreal_asset_exports", "unreal_asset/unreal_asset_exports"),
          ("unreal_asset", "unreal_asset")]


def sources_key(repo):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in ("target", "tests", "assets") and not x.startswith("."))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


def expansions(repo):
    build = os.environ.get("VX_EXPAND_OUT", os.path.join(HERE, ".build", "exp"))
    os.makedirs(build, exist_ok=True)
    key = sources_key(repo)
    kf = os.path.join(build, "key")
    outs = {c: os.path.join(build, c + ".rs") for c, _ in CRATES}
    if not (os.path.exists(kf) and open(kf).read() == key and all(map(os.path.exists, outs.values()))):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(build, "target"), RUSTC_BOOTSTRAP="1")
        env.pop("RUSTFLAGS", None)
        for c, _ in CRATES:
            try:
                p = subprocess.run(["cargo", "rustc", "--offline", "--quiet", "-p", c, "--lib", "--profile", "check", "--", "-Zunpretty=expanded"],
                                   cwd=os.environ.get("VX_EXPAND_DIR", os.path.join(HERE, "harness")), env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                raise Lost(f"{c}: macro expansion timed out")
            if p.returncode != 0 or "FNameContainer" not in p.stdout:
                raise Lost(f"{c}: macro expansion failed: {p.stderr[-300:]}")
            open(outs[c], "w").write(p.stdout)
        open(kf, "w").write(key)
    return {c: open(p).read() for c, p in outs.items()}


MASK = re.compile(r'//[^\n]*|/\*.*?\*/|\bb?r(#*)".*?"\1|"(?:\\.|[^"\\])*"|\'(?:\\(?:x..|u\{[^}]*\}|.)|[^\'\\\n])\'', re.S)


def blank(s):
    """comments dropped, literals blanked, length kept"""
    return MASK.sub(lambda m: re.sub(r"[^\n]", " ", m.group(0)), s)


def close(s, i):
    """index of the bracket matching s[i]"""
    o = s[i]
    c = {"{": "}", "(": ")", "[": "]"}[o]
    d = 0
    for m in re.compile("[" + re.escape(o + c) + "]").finditer(s, i):
        d += 1 if m.group(0) == o else -1
        if d == 0:
            return m.start()
    raise Lost("unbalanced expansion")


def split(s):
    """top-level commas"""
    out, d, cur = [], 0, ""
    prev = ""
    for ch in s:
        if ch in "([{<":
            d += 1
        elif ch in ")]}" or (ch == ">" and prev not in "-="):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
        prev = ch
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def unattr(s):
    while True:
        s = s.strip()
        if not s.startswith("#"):
            return s
        s = s[close(s, s.index("[")) + 1:]


def ty(s):
    s = re.sub(r"\s+", " ", s).strip()
    return re.sub(r"\s*([<>,:&()\[\];])\s*", r"\1", s).replace(",", ", ")


class Decl:
    def __init__(self, kind, name, gen, pos):
        self.kind, self.name, self.gen, self.pos = kind, name, gen, pos
        self.form = "unit"
        self.fields = []      # (name, type)
        self.variants = []    # (name, form, [(name, type)])

    def types(self):
        return [t for _, t in self.fields] + [t for _, _, fs in self.variants for _, t in fs]


def named(s):
    out = []
    for p in split(s):
        p = re.sub(r"^pub(\s*\([^)]*\))?\s+", "", unattr(p))
        n, _, t = p.partition(":")
        out.append((n.strip(), ty(t)))
    return out


def unnamed(s):
    return [(str(i), ty(re.sub(r"^pub(\s*\([^)]*\))?\s+", "", unattr(p)))) for i, p in enumerate(split(s))]


def decls(s):
    out = []
    for m in re.finditer(r"\b(struct|enum|union)\s+(\w+)\s*", s):
        i = m.end()
        gen = ""
        if s[i:i + 1] == "<":
            d, j = 0, i
            while True:
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] not in "-=":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            gen = s[i + 1:j]
            i = j + 1
        n = re.compile(r"[{(;]").search(s, i)
        if not n:
            continue
        d = Decl(m.group(1), m.group(2), gen, m.start())
        if n.group(0) == ";":
            pass
        else:
            inner = s[n.start() + 1:close(s, n.start())]
            if m.group(1) == "enum":
                if n.group(0) != "{":
                    continue
                for v in split(inner):
                    v = unattr(v)
                    vn = re.match(r"\w+", v)
                    if not vn:
                        continue
                    r = v[vn.end():].strip()
                    if r.startswith("("):
                        d.variants.append((vn.group(0), "tuple", unnamed(r[1:close(r, 0)])))
                    elif r.startswith("{"):
                        d.variants.append((vn.group(0), "named", named(r[1:close(r, 0)])))
                    else:
                        d.variants.append((vn.group(0), "unit", []))
            elif n.group(0) == "{":
                d.form, d.fields = "named", named(inner)
            else:
                d.form, d.fields = "tuple", unnamed(inner)
        out.append(d)
    for m in re.finditer(r"\btype\s+(\w+)\s*(?:<[^=;]*>)?\s*=\s*([^;]*);", s):
        d = Decl("type", m.group(1), "", m.start())
        d.fields = [("0", ty(m.group(2)))]
        out.append(d)
    return out


def params(gen):
    """type parameters that may stand for anything (Index and C are bounded by traits no name carrier implements)"""
    out = []
    for p in split(gen):
        n, _, b = p.partition(":")
        n = re.sub(r"^const\s+", "", n.strip())
        if not re.search(r"PackageIndexTrait|\bRead\b|\bFloat\b", b) and not n.startswith("'"):
            out.append(n)
    return out


IMPL = re.compile(r"\bimpl\b(?P<h>[^{;]*?)\bFNameContainer\s+for\b(?P<t>[^{;]*)\{")
FN = re.compile(r"^\s*(?:#\[[^\]]*\]\s*)*fn\s+traverse_fnames\s*<\s*(\w+)\s*:\s*FnMut\(&mut\s+[\w:]*FName\)\s*>\s*\(&mut\s+self\s*,\s*(?:mut\s+)?(\w+)\s*:\s*&mut\s+\1\s*\)\s*\{")


def find_source(repo, crate_dir, name):
    for d, ds, fs in os.walk(os.path.join(repo, crate_dir, "src")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".rs") and re.search(rf"\b(struct|enum)\s+{name}\b", open(os.path.join(d, f), encoding="utf-8").read()):
                return os.path.relpath(os.path.join(d, f), repo)
    return crate_dir + "/src/lib.rs"


def body_of(b, arg):
    """the derived text, calls redirected to the contract"""
    b = re.sub(r"#\[[^\]]*\]", "", b)
    if arg != "traverse" and arg != "_":
        b = re.sub(rf"\b{arg}\b", "traverse", b)
    b = re.sub(r"(?:[\w:]*\bFNameContainer|<[^<>]*as\s+[\w:]*FNameContainer>)::traverse_fnames\(\s*(&mut\s+)?([^,()]+),\s*traverse\s*\)",
               lambda m: ("trav(&mut " if m.group(1) else "trav(") + m.group(2) + ", traverse)", b)
    b = re.sub(r"(\bself(?:\.\w+)+)\.traverse_fnames\(\s*traverse\s*\)", r"trav(&mut \1, traverse)", b)
    b = re.sub(r"\b([A-Za-z_]\w*)\.traverse_fnames\(\s*traverse\s*\)", r"trav(\1, traverse)", b)
    b = re.sub(r"\bself\b", "this", b)
    if re.search(r"traverse_fnames|\b(for|while|loop|unsafe|clone|take|replace|swap)\b|\|", b):
        raise Lost("a traverse_fnames body is written in a way the contract does not cover: " + re.sub(r"\s+", " ", b)[:160])
    return b


class Visits:
    def __init__(self, u):
        self.u = u
        self.exp = {c: blank(s) for c, s in expansions(u.repo).items()}
        self.decls = {c: decls(s) for c, s in self.exp.items()}
        self.byname = {}
        for c, ds in self.decls.items():
            for d in ds:
                self.byname.setdefault(d.name, []).append(d)
        # names reach a type through the declared types of its parts (type arguments are read off the type that gives them)
        reach = {"FName"}
        while True:
            more = {n for n, ds in self.byname.items() if n not in reach and any(self.hits(t, reach) for d in ds for t in d.types())}
            if not more:
                break
            reach |= more
        self.reach = reach
        if "PackageIndex" in reach:
            raise Lost("PackageIndex holds names")
        self.tys = {}
        self.done = set()

    def hits(self, t, reach, d=None):
        ps = set(params(d.gen)) if d else set()      # an argument of a generic type is part of the text of the type that uses it
        t = re.sub(r"\bSharedResourceWeakRef<[^<>]*>|PhantomData<[^<>]*>", "", t)
        return any(w in reach or w in ps for w in re.findall(r"\b[A-Za-z_]\w*\b", t))

    def opaque(self, t, d):
        """opaque type for the field type text t; nameless when no declared part of it leads to FName"""
        if t not in self.tys:
            self.tys[t] = (f"Ty{len(self.tys)}_" + re.sub(r"\W+", "_", t).strip("_")[:40], not self.hits(t, self.reach, d))
            n, less = self.tys[t]
            self.u.emit(f"#[verifier::external_body]\npub struct {n} {{ x: u8 }} // {t}")
            if less:
                self.u.emit(f"pub axiom fn none_{n}() ensures forall|v: {n}| #[trigger] names(v) == nil();")
        return self.tys[t][0]

    def emit_all(self):
        u = self.u
        seen = {}
        for c, cdir in CRATES:
            s = self.exp[c]
            for m in IMPL.finditer(s):
                t = m.group("t")
                if "$" in t:
                    continue
                name = re.match(r"\s*([\w:]+)", t)
                if name is None and t.strip().startswith("&"):
                    kind, nm = "type", ty(t)
                elif name is None:
                    kind, nm = "tuple", ty(t)
                else:
                    kind, nm = "type", name.group(1).split("::")[-1]
                body = s[m.end():close(s, m.end() - 1)]
                f = FN.match(body)
                if not f:
                    raise Lost(f"{nm}: traverse_fnames has another signature")
                b = body[f.end():close(body, f.end() - 1)]
                yield c, cdir, kind, nm, ty(re.sub(r"\bwhere\b.*", "", t, flags=re.S)), f.group(2), b, m.start()

    def run(self):
        u = self.u
        n = 0
        for c, cdir, kind, nm, full, arg, b, pos in self.emit_all():
            base_fname = c == "unreal_asset_base" and nm in ("FName", "Vec", "Box", "Option", "IndexedMap", "SharedResource")
            if base_fname:
                continue          # under contract from their own text, see units/visits.vrs
            u.hash.update((full + b).encode())
            n += 1
            if kind == "tuple":
                self.tuple(cdir, nm, b, arg)
                continue
            cand = [d for d in self.decls[c] if d.name == nm and d.kind in ("struct", "enum") and d.pos < pos]
            if not cand:
                # a leaf: nothing may be visited
                self.leaf(cdir, full, b, arg, n)
                continue
            self.one(c, cdir, cand[-1], b, arg, n)
        if n < 200:
            raise Lost(f"only {n} FNameContainer implementations found")

    def leaf(self, cdir, full, b, arg, n):
        u = self.u
        d = Decl("leaf", full, "", 0)
        o = self.opaque(full, d)
        q = f"FNameContainer for {full}::traverse_fnames"
        path = cdir + "/src/types/fname.rs"
        u.emit(f"// <<fn {path} {q}>>")
        u.emit(f"pub fn leaf{n}(this: &mut {o}, traverse: &mut Visit)")
        u.emit(f"    ensures final(traverse).log() =~= old(traverse).log().add(names(*old(this))), final(traverse).out() =~= old(traverse).out().add(names(*final(this))), kept(*old(this), *final(this)),")
        u.emit("{" + ("\n    assert(false); // VACUITY" if u.vacuity else ""))
        u.emit(f"    proof {{ none_{o}(); kept_same::<{o}>(); }}" if self.tys[full][1] else "")
        u.emit(body_of(b, arg))
        u.emit("}")
        u.emit("// <<>>")
        u.fns.append((q, path))

    def tuple(self, cdir, nm, b, arg):
        u = self.u
        ps = split(nm.strip("()"))
        q = f"FNameContainer for {nm}::traverse_fnames"
        path = cdir + "/src/types/fname.rs"
        u.emit(f"// <<fn {path} {q}>>")
        u.emit(f"pub fn tuple{len(ps)}<{', '.join(ps)}>(this: &mut ({', '.join(ps)},), traverse: &mut Visit)")
        self.contract([(f"old(this).{i}", f"final(this).{i}") for i in range(len(ps))])
        u.emit("{" + ("\n    assert(false); // VACUITY" if u.vacuity else ""))
        u.emit(body_of(b, arg))
        u.emit("}")
        u.emit("// <<>>")
        u.fns.append((q, path))

    def contract(self, pairs, extra=()):
        u = self.u
        u.emit("    ensures")
        a = "".join(f".add(names({x}))" for x, _ in pairs)
        z = "".join(f".add(names({y}))" for _, y in pairs)
        u.emit(f"        final(traverse).log() =~= old(traverse).log(){a},")
        u.emit(f"        final(traverse).out() =~= old(traverse).out(){z},")
        for x, y in pairs:
            u.emit(f"        kept({x}, {y}),")
        for e in extra:
            u.emit(f"        {e},")

    def one(self, c, cdir, d, b, arg, n):
        u = self.u
        q = f"FNameContainer for {d.name}::traverse_fnames"
        path = find_source(u.repo, cdir, d.name)
        hints = []
        T = f"{d.name}_{n}"
        alls = [(nm, t) for nm, t in d.fields] + [(nm, t) for _, _, fs in d.variants for nm, t in fs]
        for t in dict.fromkeys(t for _, t in alls):
            o = self.opaque(t, d)
            hints.append(f"kept_same::<{o}>();")
            if self.tys[t][1]:
                hints.append(f"none_{o}();")
        # the type, its parts opaque
        if d.kind == "struct":
            if d.form == "named":
                u.emit(f"pub struct {T} {{ " + ", ".join(f"pub {f}: {self.opaque(t, d)}" for f, t in d.fields) + " }")
            elif d.form == "tuple":
                u.emit(f"pub struct {T}(" + ", ".join(f"pub {self.opaque(t, d)}" for f, t in d.fields) + ");")
            else:
                u.emit(f"pub struct {T};")
            u.emit(f"// <<fn {path} {q}>>")
            u.emit(f"pub fn f{n}(this: &mut {T}, traverse: &mut Visit)")
            self.contract([(f"old(this).{f}", f"final(this).{f}") for f, _ in d.fields])
        else:
            vs, al, ka = [], [], []
            for v, form, fs in d.variants:
                if form == "unit":
                    vs.append(v)
                    al.append(f"{T}::{v} => nil(),")
                    ka.append(f"({T}::{v}, {T}::{v}) => true,")
                elif form == "tuple":
                    vs.append(f"{v}(" + ", ".join(self.opaque(t, d) for _, t in fs) + ")")
                    xs = [f"x{i}" for i in range(len(fs))]
                    ys = [f"y{i}" for i in range(len(fs))]
                    al.append(f"{T}::{v}({', '.join(xs)}) => nil(){''.join(f'.add(names({x}))' for x in xs)},")
                    ka.append(f"({T}::{v}({', '.join(xs)}), {T}::{v}({', '.join(ys)})) => " + " && ".join(f"kept({x}, {y})" for x, y in zip(xs, ys)) + ",")
                else:
                    vs.append(f"{v} {{ " + ", ".join(f"{f}: {self.opaque(t, d)}" for f, t in fs) + " }")
                    xs = [f"x{i}" for i in range(len(fs))]
                    ys = [f"y{i}" for i in range(len(fs))]
                    px = ", ".join(f"{f}: {x}" for (f, _), x in zip(fs, xs))
                    py = ", ".join(f"{f}: {x}" for (f, _), x in zip(fs, ys))
                    al.append(f"{T}::{v} {{ {px} }} => nil(){''.join(f'.add(names({x}))' for x in xs)},")
                    ka.append(f"({T}::{v} {{ {px} }}, {T}::{v} {{ {py} }}) => " + " && ".join(f"kept({x}, {y})" for x, y in zip(xs, ys)) + ",")
            if len(d.variants) > 1:
                ka.append("_ => false,")
            u.emit(f"pub enum {T} {{ " + ", ".join(vs) + " }")
            u.emit(f"pub open spec fn all{n}(v: {T}) -> Multiset<Name> {{ match v {{")
            u.emit("\n".join(al))
            u.emit("} }")
            u.emit(f"pub open spec fn kept{n}(a: {T}, b: {T}) -> bool {{ match (a, b) {{")
            u.emit("\n".join(ka))
            u.emit("} }")
            u.emit(f"// <<fn {path} {q}>>")
            u.emit(f"pub fn f{n}(this: &mut {T}, traverse: &mut Visit)")
            u.emit(f"    ensures final(traverse).log() =~= old(traverse).log().add(all{n}(*old(this))), final(traverse).out() =~= old(traverse).out().add(all{n}(*final(this))), kept{n}(*old(this), *final(this)),")
        u.emit("{" + ("\n    assert(false); // VACUITY" if u.vacuity else ""))
        u.emit("    proof { " + " ".join(hints) + " }")
        b = body_of(b, arg)
        b = re.sub(r"\bSelf::", T + "::", b)
        if d.kind == "enum":
            # an arm for the variants no other arm names
            pass
        u.emit(b)
        u.emit("}")
        u.emit("// <<>>")
        u.fns.append((q, path))

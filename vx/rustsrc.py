"""A small Rust lexer and item finder, enough to lift items out of a source file by
their syntax-tree position (crate path + impl header + item name), never by line number."""
import re


class Lost(Exception):
    """An item the unit wants is not there (renamed, moved, or reshaped)."""


TOKEN = re.compile(r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<rawstr>b?r(?P<h>\#*)".*?"(?P=h))
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<num>\d[\w]*(?:\.\d[\w]*)?)
  | (?P<id>r\#[A-Za-z_]\w*|[A-Za-z_]\w*)
  | (?P<p>->|=>|::|\.\.=|\.\.\.|\.\.|<<=|>>=|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|.)
""", re.X | re.S)

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


class Tok:
    __slots__ = ("kind", "text", "s", "e")

    def __init__(self, kind, text, s, e):
        self.kind, self.text, self.s, self.e = kind, text, s, e

    def __repr__(self):
        return self.text


def lex(src, keep_comments=False):
    out, i, n = [], 0, len(src)
    while i < n:
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith("/*", j):
                    depth, j = depth + 1, j + 2
                elif src.startswith("*/", j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            if keep_comments:
                out.append(Tok("lc", src[i:j], i, j))
            i = j
            continue
        m = TOKEN.match(src, i)
        k = m.lastgroup
        if k == "h":
            k = "rawstr"
        t = m.group(0)
        # `1..2` must not lex as a float
        if k == "num" and "." in t and (src[m.start() + t.index("."):].startswith("..")):
            t = t[: t.index(".")]
        e = i + len(t)
        if k not in ("ws",) and (keep_comments or k != "lc"):
            out.append(Tok(k, t, i, e))
        i = e
    return out


def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    want, depth = OPEN[toks[i].text], 0
    stack = []
    for j in range(i, len(toks)):
        t = toks[j].text if toks[j].kind == "p" else None
        if t in OPEN:
            stack.append(OPEN[t])
        elif t in CLOSE:
            if not stack or stack.pop() != t:
                raise Lost("unbalanced brackets")
            if not stack:
                return j
    raise Lost("unbalanced brackets")


def skip_angle(toks, i):
    """toks[i] is '<': index just after the matching '>'"""
    depth = 0
    while i < len(toks):
        t = toks[i].text
        if toks[i].kind == "p":
            if t == "<":
                depth += 1
            elif t == ">":
                depth -= 1
            elif t == ">>" or t == ">>=":
                depth -= 2
            elif t in OPEN:
                i = match_close(toks, i)
        i += 1
        if depth <= 0:
            return i
    raise Lost("unbalanced angle brackets")


def norm(s):
    return re.sub(r"\s+", "", s)


class Item:
    def __init__(self, f, kind, name, a, b, body=None, attrs=()):
        self.f, self.kind, self.name, self.a, self.b, self.body = f, kind, name, a, b, body
        self.attrs = attrs  # token index pairs
        self.kw = a  # index of the keyword token

    @property
    def text(self):
        return self.f.src[self.f.toks[self.a].s:self.f.toks[self.b].e]


KW = {"fn", "struct", "enum", "impl", "mod", "trait", "const", "static", "type", "use", "union",
      "macro_rules", "extern"}
MODS = {"pub", "unsafe", "async", "default"}


class RustFile:
    def __init__(self, path, src=None):
        self.path = path
        try:
            self.src = src if src is not None else open(path, encoding="utf-8").read()
        except OSError as e:
            raise Lost(f"source file missing: {path}") from e
        self.toks = lex(self.src)

    def items(self, a=0, b=None):
        """items among tokens a..b at this nesting level"""
        T = self.toks
        b = len(T) if b is None else b
        i, res = a, []
        while i < b:
            attrs = []
            start = i
            while i < b and T[i].text == "#":
                j = i + 1
                if T[j].text == "!":
                    j += 1
                j = match_close(T, j)
                attrs.append((i, j))
                i = j + 1
            if i >= b:
                break
            # modifiers
            k = i
            while k < b:
                if T[k].text == "pub" and k + 1 < b and T[k + 1].text == "(":
                    k = match_close(T, k + 1) + 1
                elif T[k].text in MODS:
                    k += 1
                elif T[k].text == "const" and k + 1 < b and T[k + 1].text in ("fn", "unsafe"):
                    k += 1
                elif T[k].text == "extern" and k + 1 < b and T[k + 1].kind == "str":
                    k += 2
                else:
                    break
            if k >= b:
                break
            t = T[k].text
            if t in KW and T[k].kind == "id":
                if t == "macro_rules":
                    j = k
                    while T[j].text not in OPEN:
                        j += 1
                    j = match_close(T, j)
                    if j + 1 < b and T[j + 1].text == ";":
                        j += 1
                    res.append(Item(self, "macro_rules", T[k + 2].text, i, j, attrs=attrs))
                    i = j + 1
                    continue
                name = T[k + 1].text if t != "impl" else None
                j = k + 1
                body = None
                if t in ("const", "static", "type", "use", "extern"):
                    # up to ';' at depth 0
                    while T[j].text != ";":
                        if T[j].text in OPEN and T[j].kind == "p":
                            j = match_close(T, j)
                        j += 1
                    if t in ("const", "static") and T[k + 1].text == "mut":
                        name = T[k + 2].text
                else:
                    if t == "impl" and T[j].text == "<":
                        j = skip_angle(T, j)
                    while T[j].text not in ("{", ";"):
                        if T[j].text in ("(", "[") and T[j].kind == "p":
                            j = match_close(T, j)
                        j += 1
                    if T[j].text == "{":
                        body = j
                        j = match_close(T, j)
                        if t == "struct" and j + 1 < b and T[j + 1].text == ";":
                            j += 1
                it = Item(self, t, name, i, j, body, attrs)
                it.kw = k
                res.append(it)
                i = j + 1
            else:
                # macro invocation item or stray token
                j = k
                while j < b and T[j].text not in OPEN and T[j].text != ";":
                    j += 1
                if j < b and T[j].text in OPEN:
                    isb = T[j].text == "{"
                    j = match_close(T, j)
                    if j + 1 < b and T[j + 1].text == ";":
                        j += 1
                res.append(Item(self, "other", T[k].text, i, min(j, b - 1), attrs=attrs))
                i = j + 1
        return res

    # ---- lookup -------------------------------------------------------
    def all_items(self):
        """items at top level and inside plain modules (not cfg(test))"""
        out = []

        def walk(a, b):
            for it in self.items(a, b):
                if any("test" in self.src[self.toks[x].s:self.toks[y].e] and "cfg" in self.src[self.toks[x].s:self.toks[y].e]
                       for x, y in it.attrs):
                    continue
                out.append(it)
                if it.kind == "mod" and it.body is not None:
                    walk(it.body + 1, it.b)
        walk(0, len(self.toks))
        return out

    def find(self, kind, name):
        c = [it for it in self.all_items() if it.kind == kind and it.name == name]
        if len(c) != 1:
            raise Lost(f"{kind} {name}: {len(c)} found in {self.path}")
        return c[0]

    def impl_header(self, it):
        """(generics, trait or None, type, where) texts of an impl item"""
        T = self.toks
        j = it.kw + 1
        gen = ""
        if T[j].text == "<":
            k = skip_angle(T, j)
            gen = self.src[T[j].s:T[k - 1].e]
            j = k
        # find ' for ' at angle depth 0
        seg_start, depth, forpos, wherepos = j, 0, None, None
        k = j
        while k < it.body:
            t = T[k].text
            if T[k].kind == "p" and t == "<":
                k = skip_angle(T, k)
                continue
            if T[k].kind == "id" and t == "for" and forpos is None:
                forpos = k
            if T[k].kind == "id" and t == "where":
                wherepos = k
                break
            k += 1
        endt = wherepos if wherepos is not None else it.body
        wh = self.src[T[wherepos].s:T[it.body - 1].e] if wherepos is not None else ""
        if forpos is not None:
            tr = self.src[T[seg_start].s:T[forpos - 1].e]
            ty = self.src[T[forpos + 1].s:T[endt - 1].e]
        else:
            tr, ty = None, self.src[T[seg_start].s:T[endt - 1].e]
        return gen, tr, ty, wh

    def find_fn(self, owner, name):
        """owner: None (free fn), 'Type', 'Trait for Type', or 'trait Trait' ; generics in owner may be omitted"""
        if owner is None:
            return self.find("fn", name), None
        cands = []
        for it in self.all_items():
            if it.kind == "trait" and owner == f"trait {it.name}":
                for f in self.items(it.body + 1, it.b):
                    if f.kind == "fn" and f.name == name:
                        cands.append((f, it))
            if it.kind != "impl":
                continue
            gen, tr, ty, wh = self.impl_header(it)

            def base(x):
                return norm(re.sub(r"<.*>", "", x, flags=re.S))
            full = norm(ty) if tr is None else norm(tr) + "for" + norm(ty)
            short = base(ty) if tr is None else base(tr) + "for" + base(ty)
            if norm(owner).replace(" ", "") in (full, short):
                for f in self.items(it.body + 1, it.b):
                    if f.kind == "fn" and f.name == name:
                        cands.append((f, it))
        if len(cands) != 1:
            raise Lost(f"fn {owner}::{name}: {len(cands)} found in {self.path}")
        return cands[0]

    def find_assoc(self, owner, kind, name):
        cands = []
        for it in self.all_items():
            if it.kind != "impl":
                continue
            gen, tr, ty, wh = self.impl_header(it)
            if norm(owner) in (norm(ty), norm(re.sub(r"<.*>", "", ty, flags=re.S))):
                for f in self.items(it.body + 1, it.b):
                    if f.kind == kind and f.name == name:
                        cands.append((f, it))
        if len(cands) != 1:
            raise Lost(f"{kind} {owner}::{name}: {len(cands)} found in {self.path}")
        return cands[0]


class FnParts:
    """signature pieces of a fn item"""

    def __init__(self, f: RustFile, it: Item):
        T, src = f.toks, f.src
        self.f, self.it = f, it
        if it.body is None:
            raise Lost(f"fn {it.name} has no body")
        j = it.kw + 2
        self.generics = ""
        if T[j].text == "<":
            k = skip_angle(T, j)
            self.generics = src[T[j].s:T[k - 1].e]
            j = k
        if T[j].text != "(":
            raise Lost(f"fn {it.name}: cannot parse signature")
        pe = match_close(T, j)
        self.params = []  # (pattern text, type text) ; self as ('self', full)
        k = j + 1
        while k < pe:
            st = k
            colon = None
            while k < pe and T[k].text != ",":
                t = T[k].text
                if T[k].kind == "p" and t in OPEN:
                    k = match_close(T, k)
                elif T[k].kind == "p" and t == "<":
                    k = skip_angle(T, k) - 1
                elif t == ":" and colon is None:
                    colon = k
                k += 1
            en = k - 1
            if en >= st:
                if colon is None:
                    self.params.append(("self", src[T[st].s:T[en].e]))
                else:
                    self.params.append((src[T[st].s:T[colon - 1].e], src[T[colon + 1].s:T[en].e]))
            k += 1
        k = pe + 1
        self.ret = None
        if T[k].text == "->":
            st = k + 1
            k = st
            while k < it.body and not (T[k].kind == "id" and T[k].text == "where"):
                k += 1
            self.ret = src[T[st].s:T[k - 1].e]
        self.where = src[T[k].s:T[it.body - 1].e] if k < it.body else ""
        self.body_src = src[T[it.body].s:T[it.b].e]  # includes braces


def strip_comments_attrs(text):
    """drop comments and #[..] attributes (used for struct/enum/fn text)"""
    toks = lex(text)
    out, last, i = [], 0, 0
    pieces = []
    while i < len(toks):
        if toks[i].text == "#" and i + 1 < len(toks) and toks[i + 1].text in ("[", "!"):
            j = i + 1
            if toks[j].text == "!":
                j += 1
            if toks[j].text == "[":
                i = match_close(toks, j) + 1
                continue
        pieces.append(toks[i])
        i += 1
    # re-emit preserving original whitespace where comments/attrs were not removed
    res, prev = [], None
    for t in pieces:
        if prev is not None:
            gap = text[prev.e:t.s]
            g = re.sub(r"[^\s]", "", gap) if gap.strip() else gap
            res.append(g if g else ("" if gap == "" else " "))
        res.append(t.text)
        prev = t
    return "".join(res)


def loops(body):
    """positions of loops in a body text: list of dicts kind, kw_start, hdr_start, brace, end (char offsets)"""
    T = lex(body)
    res = []
    for i, t in enumerate(T):
        if t.kind == "id" and t.text in ("for", "while", "loop"):
            if t.text == "for" and i + 1 < len(T) and T[i + 1].text == "<":
                continue  # for<'a>
            j = i + 1
            inpos = None
            while j < len(T) and not (T[j].kind == "p" and T[j].text == "{"):
                if T[j].kind == "p" and T[j].text in ("(", "["):
                    j = match_close(T, j)
                elif t.text == "for" and T[j].kind == "id" and T[j].text == "in" and inpos is None:
                    inpos = T[j].e
                j += 1
            if j >= len(T):
                raise Lost("loop without body")
            e = match_close(T, j)
            st = t.s
            if i >= 2 and T[i - 1].text == ":" and T[i - 2].kind == "life":
                st = T[i - 2].s
            res.append(dict(kind=t.text, kw=st, hdr=t.e, inpos=inpos, brace=T[j].s, end=T[e].s,
                            header=body[t.s:T[j].s].strip()))
    return res


# ---- macro_rules ------------------------------------------------------
def _mparse(T, i, e):
    """macro pattern or template tokens i..e -> element list"""
    out = []
    while i < e:
        t = T[i]
        if t.text == "$" and T[i + 1].text == "(":
            c = match_close(T, i + 1)
            sub = _mparse(T, i + 2, c)
            i = c + 1
            sep = None
            if T[i].text not in ("*", "+", "?"):
                sep = T[i].text
                i += 1
            out.append(("rep", sub, sep, T[i].text))
            i += 1
        elif t.text == "$" and T[i + 1].kind == "id":
            if i + 3 < e + 1 and i + 2 < e and T[i + 2].text == ":" and T[i + 3].kind == "id" and T[i + 3].text in (
                    "ident", "ty", "tt", "expr", "path", "literal", "block", "lifetime", "vis", "pat", "stmt", "item", "meta"):
                out.append(("frag", T[i + 1].text, T[i + 3].text))
                i += 4
            else:
                out.append(("var", T[i + 1].text))
                i += 2
        elif t.kind == "p" and t.text in OPEN:
            c = match_close(T, i)
            out.append(("group", t.text, _mparse(T, i + 1, c)))
            i = c + 1
        else:
            out.append(("tok", t.text))
            i += 1
    return out


class _No(Exception):
    pass


def _mmatch(pat, T, i, e):
    """-> (bindings, next index)"""
    b = {}
    for n, p in enumerate(pat):
        if p[0] == "tok":
            if i >= e or T[i].text != p[1]:
                raise _No()
            i += 1
        elif p[0] == "group":
            if i >= e or T[i].text != p[1]:
                raise _No()
            c = match_close(T, i)
            bb, j = _mmatch(p[2], T, i + 1, c)
            if j != c:
                raise _No()
            b.update(bb)
            i = c + 1
        elif p[0] in ("frag", "var"):
            kind = p[2] if p[0] == "frag" else "tt"
            if i >= e:
                raise _No()
            st = i
            if kind in ("ident", "literal", "lifetime"):
                if kind == "ident" and T[i].kind != "id":
                    raise _No()
                i += 1
            elif kind == "tt":
                i = match_close(T, i) + 1 if T[i].kind == "p" and T[i].text in OPEN else i + 1
            else:
                while i < e and T[i].text not in (",", ";", "=>"):
                    if T[i].kind == "p" and T[i].text in OPEN:
                        i = match_close(T, i) + 1
                    elif T[i].text == "<" and kind in ("ty", "path"):
                        i = skip_angle(T, i)
                    else:
                        i += 1
            if i == st:
                raise _No()
            b[p[1]] = [t.text for t in T[st:i]]
        else:
            rows = []
            while True:
                j = i
                if rows and p[2]:
                    if j >= e or T[j].text != p[2]:
                        break
                    j += 1
                try:
                    bb, j2 = _mmatch(p[1], T, j, e)
                except _No:
                    break
                if j2 == j:
                    break
                rows.append(bb)
                i = j2
                if p[3] == "?":
                    break
            if p[3] == "+" and not rows:
                raise _No()
            names = set()

            def coll(q):
                for x in q:
                    if x[0] in ("frag", "var"):
                        names.add(x[1])
                    elif x[0] == "group":
                        coll(x[2])
                    elif x[0] == "rep":
                        coll(x[1])
            coll(p[1])
            for nm in names:
                b[nm] = ("rows", [r.get(nm) for r in rows])
    return b, i


def _memit(tpl, b, out):
    for p in tpl:
        if p[0] == "tok":
            out.append(p[1])
        elif p[0] == "var" or p[0] == "frag":
            if p[1] not in b:
                out.extend(["$", p[1]])
            else:
                out.extend(b[p[1]])
            if p[0] == "frag":
                out.extend([":", p[2]])
        elif p[0] == "group":
            out.append(p[1])
            _memit(p[2], b, out)
            out.append(OPEN[p[1]])
        else:
            names = set()

            def coll(q):
                for x in q:
                    if x[0] in ("frag", "var"):
                        names.add(x[1])
                    elif x[0] == "group":
                        coll(x[2])
                    elif x[0] == "rep":
                        coll(x[1])
            coll(p[1])
            rows = [b[n][1] for n in names if n in b and isinstance(b[n], tuple)]
            k = max((len(r) for r in rows), default=0)
            for i in range(k):
                if i and p[2]:
                    out.append(p[2])
                bb = dict(b)
                for n in names:
                    if n in b and isinstance(b[n], tuple):
                        bb[n] = b[n][1][i]
                _memit(p[1], bb, out)


def _rules(f, names, rules):
    T = f.toks
    for it in f.items():
        if it.kind == "macro_rules" and it.name in names:
            j = it.kw
            while T[j].text not in OPEN:
                j += 1
            c = match_close(T, j)
            arms, i = [], j + 1
            while i < c:
                e1 = match_close(T, i)
                b0 = e1 + 2
                e2 = match_close(T, b0)
                arms.append((_mparse(T, i + 1, e1), _mparse(T, b0 + 1, e2)))
                i = e2 + 1
                if i < c and T[i].text == ";":
                    i += 1
            rules[it.name] = arms


def expand(src, names, path="?", defs=()):
    """source text with the uses of the named macro_rules macros expanded; defs: further files defining them"""
    rules = {}
    for d in defs:
        _rules(d, names, rules)
    for _ in range(8):
        f = RustFile(path, src)
        _rules(f, names, rules)
        T = f.toks
        skip = [(it.a, it.b) for it in f.items() if it.kind == "macro_rules"]
        edits, i = [], 0
        while i + 2 < len(T):
            z = [b for a, b in skip if a <= i <= b]
            if z:
                i = z[0] + 1
                continue
            if not (T[i].kind == "id" and T[i].text in rules and T[i + 1].text == "!" and T[i + 2].kind == "p" and T[i + 2].text in OPEN):
                i += 1
                continue
            j, c = i + 2, match_close(T, i + 2)
            for pat, tpl in rules[T[i].text]:
                try:
                    b, k = _mmatch(pat, T, j + 1, c)
                    if k < c and T[k].text == "," and k + 1 == c:
                        k += 1
                    if k != c:
                        continue
                except _No:
                    continue
                out = []
                _memit(tpl, b, out)
                text = ""
                for t in out:
                    if text and re.match(r"[\w'\"]", t) and re.search(r"[\w'\"]$", text):
                        text += " "
                    text += " = " if t == "=" else t + ("\n" if t in (";", "{", "}") else " " if t in (",", ":") else "")
                e = c
                if out and out[-1] == "}" and out[0] not in ("match",) and c + 1 < len(T) and T[c + 1].text == ";":
                    e = c + 1
                edits.append((T[i].s, T[e].e, text))
                break
            else:
                raise Lost(f"{path}: use of {T[i].text}! matches no rule")
            i = c + 1
        if not edits:
            return src
        for s, e, t in sorted(edits, reverse=True):
            src = src[:s] + t + src[e:]
    raise Lost(f"{path}: macro expansion does not end")

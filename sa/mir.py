"""Obtain and parse the MIR of /repo's current source.

The MIR is produced by the repository's own toolchain (the pinned nightly) from
the current working tree, in a scratch target directory that is removed again.
Nothing is executed: rustc stops after MIR construction.
"""
import functools, os, re, subprocess, shutil, tempfile, sys
from concurrent.futures import ThreadPoolExecutor

TOOLCHAIN = "nightly-2025-05-01"
REPO = os.environ.get("GPF_REPO", "/repo")


class AnalysisError(Exception):
    """The source could not be analysed at all (build failure etc.)."""


def rustc_dump(repo, flags):
    tmp = tempfile.mkdtemp(prefix="gpf_sa_")
    env = dict(os.environ)
    env.update({
        "HOME": "/root",
        "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", ""),
        "RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never", "CARGO_TARGET_DIR": tmp, "RUSTC_WRAPPER": "",
        "CARGO_INCREMENTAL": "0", "CARGO_PROFILE_DEV_DEBUG": "0",
    })
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "rustc", "--lib", "--offline", "--locked", "--"] + flags + [
        "-Zmir-opt-level=1", "-Awarnings",
        "-Cdebug-assertions=off", "-Coverflow-checks=off",
        "-Ztrim-diagnostic-paths=no"]
    try:
        p = subprocess.run(cmd, cwd=repo, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=600)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if p.returncode != 0:
        raise AnalysisError("cargo rustc failed: " + p.stderr.decode(errors="replace")[-2000:])
    return p.stdout.decode()


def emit_mir(repo=None):
    """MIR text.  rustc's MIR printer lists too few operands of a closure that captures several
    fields of one variable; the complete lists are taken from the second (stable) MIR printer."""
    repo = repo or REPO
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(rustc_dump, repo, ["-Zunpretty=mir", "-Zmir-include-spans=on"])
        b = ex.submit(rustc_dump, repo, ["-Zunpretty=stable-mir"])
        text, st = a.result(), b.result()
    full = {}
    for m in re.finditer(r"^ *(_\d+) = (\{closure@[^}]*\})\(([^\n]*)\);$", st, re.M):
        full.setdefault((m.group(1), m.group(2)), set()).add(m.group(3))

    def fix(m):
        ops = full.get((m.group(2), m.group(3)), ())
        if len(ops) != 1:
            return m.group(0)
        want = ["copy " + x if x[0] in "_(" else x for x in split_top(next(iter(ops)))]
        have = [x.split(": ", 1)[1] for x in split_top(m.group(4))]
        if len(want) <= len(have) or want[:len(have)] != have:
            return m.group(0)
        return "%s%s = %s { %s };" % (m.group(1), m.group(2), m.group(3), ", ".join("c%d: %s" % x for x in enumerate(want)))
    return re.sub(r"^( *)(_\d+) = (\{closure@[^}]*\}) \{ ([^\n]*?) \};", fix, text, flags=re.M)


# --------------------------------------------------------------------------
# text helpers

def split_top(s, sep=","):
    return list(_split_top(s, sep))


@functools.lru_cache(200000)
def _split_top(s, sep):
    """split s at top-level separators, honouring (), [], {}, <>, and strings"""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    instr = False
    while i < n:
        c = s[i]
        if instr:
            cur.append(c)
            if c == "\\":
                cur.append(s[i + 1]); i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True; cur.append(c)
        elif c in "([{<":
            depth += 1; cur.append(c)
        elif c in ")]}":
            depth -= 1; cur.append(c)
        elif c == ">":
            if i > 0 and s[i - 1] in "-=":
                cur.append(c)
            else:
                depth -= 1; cur.append(c)
        elif c == sep and depth == 0:
            out.append("".join(cur).strip()); cur = []
        else:
            cur.append(c)
        i += 1
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


def match_close(s, i):
    """index of the bracket closing the one at s[i]"""
    depth, instr = 0, False
    n = len(s)
    while i < n:
        c = s[i]
        if instr:
            if c == "\\":
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ValueError("unbalanced: " + s)


@functools.lru_cache(400000)
def strip_generics(path):
    """a::B::<X>::c  -> a::B::c ;  B<X> -> B   (top-level angle groups removed).
    Qualified paths  <T as Trait>::m  are left to the caller."""
    out, depth, i = [], 0, 0
    while i < len(path):
        c = path[i]
        if c == "<":
            if depth == 0 and len(out) >= 2 and out[-1] == ":" and out[-2] == ":":
                out.pop(); out.pop()
            depth += 1
        elif c == ">" and not (i > 0 and path[i - 1] in "-="):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


# --------------------------------------------------------------------------
# places / operands / rvalues are parsed to tuples once

def parse_place(s):
    """-> (local, [proj...]) with proj one of
       ('deref',), ('field', i), ('downcast', name), ('index', local),
       ('cindex', k, fromend), ('subslice', a, b, fromend)"""
    s = s.strip()
    p, i = _place(s, 0)
    if i != len(s):
        raise ValueError("place: %r rest %r" % (s, s[i:]))
    return p


def _place(s, i):
    if s[i] == "_":
        m = re.compile(r"_(\d+)").match(s, i)
        local, proj, i = int(m.group(1)), [], m.end()
    elif s[i] == "(":
        if s[i + 1] == "*":
            (local, proj), j = _place(s, i + 2)
            assert s[j] == ")", s
            proj = proj + [("deref",)]
            i = j + 1
        else:
            (local, proj), j = _place(s, i + 1)
            if s.startswith(" as ", j):
                k = match_close(s, i)
                proj = proj + [("downcast", s[j + 4:k])]
                i = k + 1
            elif s[j] == ".":
                m = re.compile(r"\.(\d+): ").match(s, j)
                k = match_close(s, i)
                proj = proj + [("field", int(m.group(1)), s[m.end():k])]
                i = k + 1
            else:
                raise ValueError("place " + s[i:])
    else:
        raise ValueError("place " + s)
    while i < len(s) and s[i] == "[":
        k = match_close(s, i)
        body = s[i + 1:k]
        m = re.fullmatch(r"_(\d+)", body)
        if m:
            proj = proj + [("index", int(m.group(1)))]
        else:
            m = re.fullmatch(r"(-?)(\d+) of (\d+)", body)
            if m:
                proj = proj + [("cindex", int(m.group(2)), m.group(1) == "-")]
            else:
                m = re.fullmatch(r"(\d*):(-?)(\d*)", body)
                if not m:
                    raise ValueError("index " + body)
                proj = proj + [("subslice", int(m.group(1) or 0), int(m.group(3) or 0), m.group(2) == "-" or m.group(3) == "")]
        i = k + 1
    return (local, proj), i


def parse_operand(s):
    s = s.strip()
    if s.startswith("copy "):
        return ("copy", parse_place(s[5:]))
    if s.startswith("move "):
        return ("move", parse_place(s[5:]))
    if s.startswith("const "):
        return ("const", s[6:])
    if re.match(r"[\w<]", s):
        return ("fnitem", s)
    raise ValueError("operand " + s)


MACRO_TRAITS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "index": "Index", "index_mut": "IndexMut"}

BINOPS = {"Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr",
          "Eq", "Lt", "Le", "Ne", "Ge", "Gt", "Cmp", "Offset",
          "AddWithOverflow", "SubWithOverflow", "MulWithOverflow",
          "AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked"}
UNOPS = {"Neg", "Not", "PtrMetadata"}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith(("copy ", "move ", "const ")):
        m = re.fullmatch(r"(.*?) as (.*) \(([A-Za-z]+(?:\(.*\))?)\)", s)
        if m and not s.startswith("const \""):
            return ("cast", parse_operand(m.group(1)), m.group(2), m.group(3))
        return ("use", parse_operand(s))
    if s.startswith("&raw "):
        m = re.match(r"&raw (?:const|mut) (?:\(fake\) )?", s)
        return ("ref", parse_place(s[m.end():]), "raw")
    if s.startswith("&mut "):
        return ("ref", parse_place(s[5:]), "mut")
    if s.startswith("&fake "):
        return ("ref", parse_place(s.split(" ")[-1]), "fake")
    if s.startswith("&"):
        return ("ref", parse_place(s[1:]), "shared")
    if s.startswith("deref_copy "):
        return ("use", ("copy", parse_place(s[len("deref_copy "):])))
    m = re.match(r"([A-Za-z]+)\(", s)
    if m and s.endswith(")") and match_close(s, m.end() - 1) == len(s) - 1:
        op = m.group(1)
        body = s[m.end():-1]
        if op in BINOPS:
            a, b = split_top(body)
            return ("bin", op, parse_operand(a), parse_operand(b))
        if op in UNOPS:
            return ("un", op, parse_operand(body))
        if op == "discriminant":
            return ("discr", parse_place(body))
        if op == "Len":
            return ("len", parse_place(body))
        if op in ("SizeOf", "AlignOf"):
            return ("const_int", 8)
        if op == "ShallowInitBox":
            a, t = split_top(body)
            return ("box", t)
        if op == "CopyForDeref":
            return ("use", ("copy", parse_place(body)))
    if s.startswith("ConstEvalCounter"):
        return ("unit",)
    if s.startswith("["):
        body = s[1:-1]
        parts = split_top(body, ";")
        if len(parts) == 2:
            return ("repeat", parse_operand(parts[0]), parts[1])
        return ("array", [parse_operand(x) for x in split_top(body)])
    if s.startswith("("):
        return ("tuple", [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith("{closure@"):
        k = match_close(s, 0)
        name = s[:k + 1]
        rest = s[k + 1:].strip()
        ops = []
        if rest:
            for f in split_top(rest[1:-1].strip()):
                ops.append(parse_operand(f.split(": ", 1)[1]))
        return ("closure", name, ops)
    # ADT aggregate
    m = re.search(r" \{ ", s)
    if s.endswith("}") and m:
        # find the top-level brace
        i = s.rindex("{")
        depth = 0
        for j in range(len(s) - 1, -1, -1):
            if s[j] == "}":
                depth += 1
            elif s[j] == "{":
                depth -= 1
                if depth == 0:
                    i = j
                    break
        name = s[:i].strip()
        ops, names = [], []
        for f in split_top(s[i + 1:-1].strip()):
            k, v = f.split(": ", 1)
            names.append(k)
            ops.append(parse_operand(v))
        return ("adt", name, ops, names)
    if s.endswith(")"):
        depth = 0
        for j in range(len(s) - 1, -1, -1):
            if s[j] == ")":
                depth += 1
            elif s[j] == "(":
                depth -= 1
                if depth == 0:
                    break
        name = s[:j]
        return ("adt", name, [parse_operand(x) for x in split_top(s[j + 1:-1])], None)
    return ("adt", s, [], None)


CALL_RE = re.compile(r"^(.*) -> (\[.*\]|unwind .*)$")


def parse_stmt(s):
    """one logical line without trailing ';' -> tuple"""
    if s.startswith("goto -> "):
        return ("goto", int(s[len("goto -> bb"):]))
    if s == "return":
        return ("return",)
    if s == "unreachable":
        return ("unreachable",)
    if s.startswith("resume") or s.startswith("terminate"):
        return ("resume",)
    if s.startswith("switchInt("):
        k = match_close(s, len("switchInt"))
        op = parse_operand(s[len("switchInt("):k])
        m = re.search(r"-> \[(.*)\]$", s[k:])
        targets, other = [], None
        for t in m.group(1).split(", "):
            a, b = t.split(": ")
            if a == "otherwise":
                other = int(b[2:])
            else:
                targets.append((int(a), int(b[2:])))
        return ("switch", op, targets, other)
    if s.startswith("assert("):
        k = match_close(s, len("assert"))
        parts = split_top(s[len("assert("):k])
        c = parts[0]
        neg = c.startswith("!")
        m = re.search(r"success: bb(\d+)", s[k:])
        return ("assert", parse_operand(c[1:] if neg else c), neg, int(m.group(1)), parts[1] if len(parts) > 1 else "")
    if s.startswith("drop("):
        m = re.search(r"return: bb(\d+)", s)
        return ("drop", parse_place(s[5:match_close(s, 4)]), int(m.group(1)) if m else None)
    if s.startswith("falseEdge") or s.startswith("falseUnwind"):
        m = re.search(r"bb(\d+)", s)
        return ("goto", int(m.group(1)))
    if s.startswith(("StorageLive", "StorageDead", "nop", "FakeRead", "PlaceMention", "AscribeUserType", "Coverage", "ConstEvalCounter", "Retag", "BackwardIncompatibleDropHint")):
        return None
    if s.startswith("discriminant("):
        m = re.match(r"discriminant\((.*)\) = (\d+)", s)
        return ("setdiscr", parse_place(m.group(1)), int(m.group(2)))
    # assignment or call
    m = CALL_RE.match(s)
    if m:
        body, targ = m.group(1), m.group(2)
        mm = re.search(r"return: bb(\d+)", targ)
        ret = int(mm.group(1)) if mm else None
        i = body.index(" = ")
        dest = parse_place(body[:i])
        call = body[i + 3:]
        # args: last top-level (...) group
        depth = 0
        for j in range(len(call) - 1, -1, -1):
            if call[j] == ")":
                depth += 1
            elif call[j] == "(":
                depth -= 1
                if depth == 0:
                    break
        fn = call[:j].strip()
        args = [parse_operand(x) for x in split_top(call[j + 1:-1])]
        if fn.startswith(("copy ", "move ")):
            fn = parse_operand(fn)
        return ("call", dest, fn, args, ret)
    if s.startswith(("copy_nonoverlapping", "assume(")):
        return None
    i = s.index(" = ")
    return ("assign", parse_place(s[:i]), parse_rvalue(s[i + 3:]))


class Func:
    __slots__ = ("name", "sig", "nargs", "raw", "blocks", "file", "line", "argtypes", "ret",
                 "kind", "locals", "argnames", "_names")

    def __init__(self, name, sig, raw, kind):
        self.name, self.sig, self.raw, self.kind = name, sig, raw, kind
        self.blocks = None
        self.file = None
        self.line = 0
        self.locals = {}
        self.argtypes = []
        self.argnames = {}
        self.ret = ""
        if kind == "fn":
            i = sig.index("(")
            k = match_close(sig, i)
            for a in split_top(sig[i + 1:k]):
                self.argtypes.append(a.split(": ", 1)[1])
            self.ret = sig[k + 1:].strip()
            if self.ret.startswith("->"):
                self.ret = self.ret[2:].strip()
        self.nargs = len(self.argtypes)
        for l in raw:
            m = re.search(r"// (?:return place )?in scope \d+ at ([^:]+):(\d+):", l)
            if not m:
                m = re.search(r"// scope \d+ at ([^:]+):(\d+):", l)
            if m and m.group(1).startswith("src/"):
                self.file, self.line = m.group(1), int(m.group(2))
                break

    def parse(self):
        if self.blocks is not None:
            return self
        blocks, cur = {}, None
        for l in self.raw:
            t = l.strip()
            if not t or t.startswith("//"):
                continue
            m = re.match(r"bb(\d+)(?: \(cleanup\))?: \{", t)
            if m:
                cur = []
                blocks[int(m.group(1))] = cur
                continue
            if cur is None:
                m = re.match(r"let (?:mut )?_(\d+): (.*?);(?:\s|$)", t)
                if m:
                    self.locals[int(m.group(1))] = m.group(2)
                m = re.match(r"debug (\S+) => _(\d+);", t)
                if m:
                    self.argnames.setdefault(int(m.group(2)), m.group(1))
                continue
            if t == "}":
                cur = None
                continue
            line = 0
            m = re.search(r"// scope \d+ at ([^:]+):(\d+):\d+", t)
            if m:
                line = int(m.group(2))
                t = t[:t.rindex("//", 0, m.start() + 2)].strip()
            else:
                m = re.search(r"; +// scope \d+ at no-location$", t)
                if m:
                    t = t[:m.start() + 1]
            if not t.endswith(";"):
                continue
            cur.append([t[:-1], None, line])
        self.blocks = blocks
        return self

    def stmt(self, bb, i):
        e = self.blocks[bb][i]
        if e[1] is None:
            try:
                e[1] = (parse_stmt(e[0]),)
            except Exception as ex:
                raise AnalysisError("cannot parse MIR statement %r in %s: %s" % (e[0], self.name, ex))
        return e[1][0], e[2]


class Program:
    def __init__(self, text, repo=None):
        self.repo = repo or REPO
        self.funcs = {}
        self.closures = {}
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith(("fn ", "const ", "static ", "promoted")) and l.rstrip().endswith("{"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                hdr = l.rstrip()[:-1].strip()
                raw = lines[i + 1:j]
                if l.startswith("fn "):
                    sig = hdr[3:]
                    # name ends at the first '(' that opens the args "(_1:" or "()"
                    m = re.search(r"\((?=_1: |\))", sig)
                    name = sig[:m.start()]
                    f = Func(name, sig[m.start():], raw, "fn")
                else:
                    body = re.sub(r"^(const|static mut|static) ", "", hdr)
                    body = re.sub(r" =$", "", body.strip())
                    # name: type
                    k = _top_colon(body)
                    name, ty = body[:k], body[k + 2:]
                    f = Func(name, ty, raw, "const")
                    f.ret = ty
                if name not in self.funcs:
                    self.funcs[name] = f
                i = j + 1
            else:
                i += 1
        self._index()

    def _index(self):
        """Map every function to canonical names usable at call sites."""
        self.src = {}
        self.by_call = {}      # canonical path (generics stripped) -> Func
        self.trait_impls = {}  # (selftype last segment, trait last, method) -> Func
        self.inherent = {}     # (module path?, type last segment, method) -> Func
        for name, f in self.funcs.items():
            m = re.search(r"<impl at ([^:]+):(\d+):(\d+): (\d+):(\d+)>", name)
            if "{closure#" in name and f.kind == "fn" and name.endswith("}"):
                # key by span of the closure: type printed in arg 1
                t = f.argtypes[0] if f.argtypes else ""
                mm = re.search(r"\{closure@[^}]*\}", t)
                if mm:
                    self.closures[mm.group(0)] = f
            if m:
                prefix = name[:m.start()].rstrip(":")
                rest = name[m.end():]
                trait, ty = self._impl_header(m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5)), prefix, f)
                meth = rest[2:]
                if trait and "$" in trait:
                    trait = MACRO_TRAITS.get(meth, trait)
                if trait:
                    self.trait_impls.setdefault((ty, trait, meth), []).append(f)
                else:
                    self.inherent.setdefault((ty, meth), []).append(f)
                    self.by_call.setdefault(prefix + "::" + ty + "::" + meth, f)
            else:
                self.by_call.setdefault(strip_generics(name), f)
        self._load_enums()

    def _source(self, file):
        if file not in self.src:
            with open(os.path.join(self.repo, file)) as fh:
                self.src[file] = fh.read().split("\n")
        return self.src[file]

    def _impl_header(self, file, l1, c1, l2, c2, prefix, f):
        src = self._source(file)
        if l1 == l2:
            txt = src[l1 - 1][c1 - 1:c2 - 1]
        else:
            txt = src[l1 - 1][c1 - 1:] + " " + " ".join(src[l1:l2 - 1]) + " " + src[l2 - 1][:c2 - 1]
        txt = re.sub(r"\s+", " ", txt).strip()
        if not txt.startswith("impl"):
            # derive: trait name is the text, type is the next struct/enum
            trait = txt.split("::")[-1]
            ty = None
            for k in range(l1 - 1, min(l1 + 12, len(src))):
                m = re.search(r"\b(?:struct|enum)\s+(\w+|\$\w+)", src[k])
                if m:
                    ty = m.group(1)
                    break
            if ty and ty.startswith("$"):
                ty = self._macro_self(f)
            return trait, ty
        body = txt[4:].strip()
        if body.startswith("<"):
            d = 0
            for i, c in enumerate(body):
                if c == "<":
                    d += 1
                elif c == ">" and body[i - 1] not in "-=":
                    d -= 1
                    if d == 0:
                        break
            body = body[i + 1:].strip()
        body = re.split(r"\bwhere\b", body)[0].strip()
        trait, ty = None, body
        # top-level " for "
        d = 0
        for i, c in enumerate(body):
            if c == "<":
                d += 1
            elif c == ">" and body[i - 1] not in "-=":
                d -= 1
            elif d == 0 and body.startswith(" for ", i):
                trait, ty = body[:i].strip(), body[i + 5:].strip()
                break
        if trait:
            trait = strip_generics(trait).split("::")[-1].strip()
        tyl = type_key(ty)
        if "$" in ty:
            tyl = self._macro_self(f, ty)
        return trait, tyl

    def _macro_self(self, f, ty=""):
        # types produced by the element macro: take the first local type in the signature
        for t in list(f.argtypes) + [f.ret]:
            k = type_key(t)
            if k and k[0].isupper() and k not in ("Formatter",) or (k and k.startswith("Vec")):
                return k
        return "?" + f.name.split("::")[0]

    def _load_enums(self):
        self.enums = {}
        self.structs = {}
        for root, _, files in os.walk(os.path.join(self.repo, "src")):
            for fn in files:
                if not fn.endswith(".rs"):
                    continue
                rel = os.path.relpath(os.path.join(root, fn), self.repo)
                txt = "\n".join(self._source(rel))
                txt = re.sub(r"//[^\n]*", "", txt)
                for m in re.finditer(r"\benum\s+(\w+)[^{;]*\{", txt):
                    k = match_close(txt, m.end() - 1)
                    names = []
                    for v in split_top(txt[m.end():k]):
                        v = re.sub(r"#\[[^\]]*\]", "", v).strip()
                        mm = re.match(r"(\w+)", v)
                        if mm:
                            names.append(mm.group(1))
                    self.enums[m.group(1)] = names
                for m in re.finditer(r"\bstruct\s+(\w+)\s*(<[^{;(]*)?\s*(?:where[^{;]*)?\{", txt):
                    k = match_close(txt, m.end() - 1)
                    names = []
                    for v in split_top(txt[m.end():k]):
                        v = re.sub(r"#\[[^\]]*\]", "", v).strip()
                        mm = re.match(r"(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:", v)
                        if mm:
                            names.append(mm.group(1))
                    self.structs[m.group(1)] = names
        self.enums["Option"] = ["None", "Some"]
        self.enums["Result"] = ["Ok", "Err"]
        self.enums["Ordering"] = ["Less", "Equal", "Greater"]


def _top_colon(s):
    d = 0
    for i, c in enumerate(s):
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            d -= 1
        elif d == 0 and c == ":" and s[i + 1] == " ":
            return i
    raise ValueError(s)


@functools.lru_cache(200000)
def type_key(t):
    """last path segment of a type, '&' and generics stripped: used for dispatch"""
    t = t.strip()
    ref = ""
    while True:
        m = re.match(r"&(?:'\w+ )?(?:mut )?", t)
        if not m:
            break
        t = t[m.end():].strip()
        ref += "&"
    if t.startswith("["):
        inner = t[1:-1]
        parts = split_top(inner, ";")
        return "[" + type_key(parts[0]) + "]"
    if t.startswith("("):
        return "(tuple)"
    if t.startswith("{closure"):
        return t
    t2 = strip_generics(t).split("::")[-1].strip()
    if t2 in ("Vec",):
        i = t.find("<")
        if i >= 0:
            args = split_top(t[i + 1:t.rindex(">")])
            return "Vec<" + type_key(args[0]) + ">"
    return t2


if __name__ == "__main__":
    import time
    t = time.time()
    txt = open(sys.argv[1]).read() if len(sys.argv) > 1 else emit_mir()
    print("emit", time.time() - t)
    t = time.time()
    p = Program(txt)
    print("index", time.time() - t, len(p.funcs), len(p.closures))
    t = time.time()
    bad = 0
    for f in p.funcs.values():
        f.parse()
        for b in f.blocks:
            for i in range(len(f.blocks[b])):
                try:
                    f.stmt(b, i)
                except AnalysisError as e:
                    bad += 1
                    if bad < 20:
                        print(e)
    print("parse all", time.time() - t, "bad", bad)
    for k in sorted(p.trait_impls, key=str)[:400]:
        print(k, [x.name[-60:] for x in p.trait_impls[k]][:2])
    print(sorted(p.inherent)[:200])

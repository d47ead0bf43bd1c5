"""Drives the real code of /repo (imported, never copied) and reads its outputs back."""
import os
import re
import shutil
import signal
import sys
import tempfile
import warnings

REPO = os.environ.get("APG_REPO", "/repo")


def setup():
    warnings.filterwarnings("ignore")
    sys.dont_write_bytecode = True
    for p in ("/opt/venv/lib/python3.12/site-packages", REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    import logging
    logging.disable(logging.CRITICAL)
    # the command line loads every generator before any runs (the cFS one makes cgen pack its structures)
    import asn1_parser.main  # noqa: F401


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def attempt(fn, *a, s=20, **k):
    """('ok', value) / ('err', exception) / ('hang', None)"""
    try:
        with limit(s):
            return "ok", fn(*a, **k)
    except Hang:
        return "hang", None
    except RecursionError as e:
        return "err", e
    except (Exception, SystemExit) as e:  # noqa
        return "err", e


def build_texts(ts):
    from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
    return ASN1BundleBuilder.build_from_texts(ts)


def build(b):
    """the bundle of an abstract bundle, from its text (or by the parser's constructors, see fast.py)"""
    from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
    from . import fast
    from .model import texts
    if b.get("via"):
        return build_config(b["via"], b, [m["name"] for m in b["mods"]])
    if fast.FAST:
        with instead_of_parsing(b):
            return ASN1BundleBuilder.build_from_texts([""] * len(b["mods"]))
    return ASN1BundleBuilder.build_from_texts(texts(b))


class instead_of_parsing:
    """within it the parser returns the modules built by fast.py"""

    def __init__(self, b):
        self.b = b

    def __enter__(self):
        from asn1_parser.asn1.parser import Asn1Parser
        from . import fast
        self.old = {k: Asn1Parser.__dict__[k] for k in ("parse_from_text_multimodule", "parse_from_files")}
        for k in self.old:
            setattr(Asn1Parser, k, classmethod(lambda cls, *a, **kw: fast.modules(self.b)))

    def __exit__(self, *a):
        from asn1_parser.asn1.parser import Asn1Parser
        for k, v in self.old.items():
            setattr(Asn1Parser, k, v)


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="apgnet")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def read_dir(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), "rb") as h:
                out[os.path.relpath(os.path.join(r, f), d)] = h.read()
    return out


def config(kind, paths, names, d, msgs=("x",), endian="little-endian", out="o"):
    """the configuration; from text also through the command line, as a user gives it"""
    from asn1_parser.cli import cli_arg_parser as c
    from . import fast
    cosmos = kind == "cosmos"
    if not fast.FAST and names and (msgs or not cosmos) and not any("," in x or x.startswith("-") for x in [*names, *msgs]):
        argv = ["generate-" + kind, *(paths or ["x"]), "--output-dir", d]
        argv += ["--asn1-module", names[0], "--asn1-messages", ",".join(msgs), "--output-file-name", out] if cosmos else ["--asn1-modules", ",".join(names)]
        if kind == "binary":
            argv += ["--endianness", endian]
        p = c.ASN1ArgsParser(c.cli_args_parser().parse_args(argv))
        cfg = getattr(p, f"get_generate_{kind}_config")("")
        return cfg
    if cosmos:
        return c.GenerateCosmosCommandConfig("", paths, names[0] if names else "", list(msgs), out, d)
    if kind == "cfs":
        return c.GenerateCFSCommandConfig("", paths, names, d)
    if kind == "c":
        return c.GenerateCCommandConfig("", paths, names, d)
    return c.GenerateBinaryCommandConfig("", paths, names, d, endian)


def generate(kind, bundle, d, msgs=(), mod=None, endian="little-endian", out="o"):
    names = bundle.get_modules_names()
    cfg = config(kind, [], [mod or names[0]] if kind == "cosmos" else names, d, msgs, endian, out)
    if kind == "cfs":
        from asn1_parser.generators.cfs.generator import CFSGenerator
        CFSGenerator.generate_cfs(cfg, bundle)
    elif kind == "c":
        from asn1_parser.generators.c.generator import CGenerator
        CGenerator.generate_c(cfg, bundle)
    elif kind == "binary":
        from asn1_parser.generators.binary.generator import BinaryGenerator
        BinaryGenerator.generate_binary(cfg, bundle)
    else:
        from asn1_parser.generators.cosmos.generator import COSMOSGenerator
        COSMOSGenerator.generate_cosmos(cfg, bundle)
    return read_dir(d)


def outputs(kind, bundle, **k):
    n = len("".join(bundle.get_modules_names()))
    with Dir() as d:
        if n % 2:
            d = os.path.join(d, "new", "out")       # not there yet
        out = generate(kind, bundle, d, **k)
        if n // 2 % 4 == 0 and kind != "cosmos":
            # over the files of an earlier run (COSMOS appends)
            for f in out:
                with open(os.path.join(d, f), "wb") as old:
                    old.write(b"old contents\n" * (len(out[f]) // 8 + 2))
            out = generate(kind, bundle, d, **k)
        return out


def build_config(kind, b, modules):
    """through the files and the configuration, as the command line does"""
    from . import fast
    from .model import texts
    if fast.FAST:
        with instead_of_parsing(b):
            return _build_config(kind, [], modules)
    return _build_config(kind, texts(b), modules)


def _build_config(kind, ts, modules):
    from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder as B
    from asn1_parser.cli import cli_arg_parser as c
    with Dir() as d:
        paths = []
        for i, t in enumerate(ts):
            p = os.path.join(d, f"{i}.asn1")
            with open(p, "w", encoding="utf8") as f:
                f.write(t)
            paths.append(p)
        try:
            return getattr(B, f"build_from_{kind}_config")(config(kind, paths, modules, d))
        except Exception:
            if ts and not main_rejects(kind, paths, modules, d):
                return None
            raise


def main_rejects(kind, paths, modules, d):
    """what the builder refuses the whole run refuses"""
    import contextlib
    import io
    from asn1_parser import main
    if not modules or any("," in x or x.startswith("-") for x in modules):
        return True
    argv = sys.argv
    sys.argv = ["apg", "generate-" + kind, *paths, "--output-dir", os.path.join(d, "out")]
    sys.argv += ["--asn1-module", modules[0], "--asn1-messages", "x", "--output-file-name", "o"] if kind == "cosmos" else ["--asn1-modules", ",".join(modules)]
    if kind == "binary":
        sys.argv += ["--endianness", "big-endian"]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            main.main()
    except SystemExit as e:
        return e.code not in (None, 0)
    except Exception:
        return True
    finally:
        sys.argv = argv
    return False


# ------------------------------------------------------------------ reading C

def strip_comments(s):
    """as a C compiler reads it: lines that end in a backslash are joined first"""
    s = re.sub(r"\\[ \t]*\n", "", s)
    return re.sub(r'"(?:[^"\\\n]|\\.)*"|/\*.*?(?:\*/|\Z)|//[^\n]*', lambda m: m.group() if m.group()[0] == '"' else " ", s, flags=re.S)


FIELD = re.compile(r"^\s*(\w[\w ]*?)\s+(\w+)\s*(?::\s*(\d+))?\s*(?:\[\s*(\d+)\s*\])?\s*$")
DEF = re.compile(r"typedef\s+struct\s*\{(?P<s>[^{}]*)\}\s*(?P<sa>__attribute__\(\(packed\)\))?\s*(?P<sn>\w+)\s*;"
                 r"|typedef\s+enum\s*\{(?P<e>[^{}]*)\}\s*(?P<ea>__attribute__\(\(packed\)\))?\s*(?P<en>\w+)\s*;"
                 r"|union\s+(?P<un>\w+)\s*\{(?P<u>[^{}]*)\}\s*(?P<ui>\w+)\s*;"
                 r"|typedef\s+(?P<td>[\w ]+?)\s+(?P<tn>\w+)\s*;"
                 r"|(?P<vt>\w+)\s+(?P<vn>\w+)\s*;")


def fields(body):
    out = []
    for f in body.split(";"):
        if f.strip():
            m = FIELD.match(f.strip())
            if not m:
                out.append(("?", f.strip(), None, None))
            else:
                out.append((m.group(1), m.group(2), int(m.group(3)) if m.group(3) else None, int(m.group(4)) if m.group(4) else None))
    return out


class Header:
    """guard, includes, definitions in order, left-over text"""

    def __init__(self, text):
        self.text = text
        lines = text.split("\n")
        self.guard = self.endguard = None
        m = re.match(r"#ifndef (\w+)\n#define (\w+)\n", text)
        if m and m.group(1) == m.group(2):
            self.guard = m.group(1)
        m = re.search(r"#endif // (\w+)\n$", text)
        if m:
            self.endguard = m.group(1)
        s = strip_comments(text)
        self.n_if = len(re.findall(r"^#if", s, flags=re.M))
        self.n_endif = len(re.findall(r"^#endif", s, flags=re.M))
        self.includes = re.findall(r'^#include\s+([<"].*[>"])\s*$', s, flags=re.M)
        self.defines = re.findall(r"^#define (\w+)[ \t]+(\S.*?)[ \t]*$", s, flags=re.M)
        body = re.sub(r"^#.*$", "", s, flags=re.M)
        self.body = body
        self.defs = []
        pos = 0
        rest = ""
        for m in DEF.finditer(body):
            rest += body[pos:m.start()]
            pos = m.end()
            if m.group("sn"):
                self.defs.append(("struct", m.group("sn"), fields(m.group("s")), bool(m.group("sa"))))
            elif m.group("en"):
                self.defs.append(("enum", m.group("en"), [tuple(x.strip() for x in y.split("=")) for y in m.group("e").split(",") if y.strip()], bool(m.group("ea"))))
            elif m.group("un"):
                self.defs.append(("union", m.group("un"), fields(m.group("u")), m.group("ui")))
            elif m.group("td"):
                self.defs.append(("typedef", m.group("tn"), m.group("td"), None))
            else:
                self.defs.append(("var", m.group("vt"), m.group("vn"), None))
        self.rest = (rest + body[pos:]).strip()
        self.text_comments = text

    def names(self):
        return [d[1] for d in self.defs if d[0] != "var"]

    def get(self, name):
        return [d for d in self.defs if d[1] == name and d[0] != "var"]


def read_init(text):
    """[(type, var, nested list)] of a C source; raises ValueError when it cannot be read"""
    s = re.sub(r"^#.*$", "", strip_comments(text), flags=re.M)
    toks = re.findall(r"[\w.+-]+|[{}=,;]", s)
    i = 0
    out = []

    def block():
        nonlocal i
        res = []
        assert toks[i] == "{", toks[i]
        i += 1
        while toks[i] != "}":
            name = toks[i]
            if not name.startswith("."):
                raise ValueError(name)
            if toks[i + 1] != "=":
                raise ValueError(name)
            i += 2
            if toks[i] == "{":
                res.append([name[1:], block()])
            else:
                res.append([name[1:], toks[i]])
                i += 1
            if toks[i] == ",":
                i += 1
            elif toks[i] != "}":
                raise ValueError(toks[i])
        i += 1
        return res
    try:
        while i < len(toks):
            t, v = toks[i], toks[i + 1]
            if toks[i + 2] != "=":
                raise ValueError(toks[i + 2])
            i += 3
            b = block()
            if toks[i] != ";":
                raise ValueError(toks[i])
            i += 1
            out.append((t, v, b))
    except (IndexError, AssertionError) as e:
        raise ValueError(f"unreadable initialiser {e}")
    return out


# ------------------------------------------------------------------ reading COSMOS

ITEM = re.compile(r'^\s+(APPEND_ITEM|APPEND_ID_ITEM|APPEND_ARRAY_ITEM)\s+(\S+)\s+(\d+)\s+(\w+)\s+(?:(\S+)\s+)?"([^"]*)"\s*(\w*)\s*$')


def read_cosmos(text):
    pkts = []
    cur = None
    for ln in text.split("\n"):
        if not ln.strip() or ln.startswith("#"):
            continue
        m = re.match(r'^TELEMETRY (\S+) (\S+) (\w+) "([^"]*)"\s*$', ln)
        if m:
            cur = dict(target=m.group(1), name=m.group(2), order=m.group(3), comment=m.group(4), items=[])
            pkts.append(cur)
            continue
        m = ITEM.match(ln)
        if m:
            cur["items"].append(dict(cmd=m.group(1), name=m.group(2), bits=int(m.group(3)), kind=m.group(4), value=m.group(5) or "", comment=m.group(6),
                                     endian=m.group(7), states=[], limits=None, unit=""))
            continue
        it = cur["items"][-1]
        m = re.match(r"^\s+STATE (\S+)\s+(\S+)\s*$", ln)
        if m:
            it["states"].append((m.group(1), int(m.group(2))))
            continue
        m = re.match(r"^\s+LIMITS DEFAULT 5 ENABLED (\S+) (\S+) (\S+) (\S+)\s*$", ln)
        if m:
            it["limits"] = tuple(float(x) for x in m.groups())
            continue
        m = re.match(r"^\s+UNITS (\S+) (\S+)\s*$", ln)
        if m:
            it["unit"] = m.group(1)
            continue
        raise ValueError("unreadable line " + ln)
    return pkts


# ------------------------------------------------------------------ model snapshot (C15)

def snapshot(obj, seen=None):
    """a deep, cycle-safe picture of everything reachable from the model objects"""
    seen = {} if seen is None else seen
    if obj is None or isinstance(obj, (str, int, float, bool, bytes)):
        return (type(obj).__name__, repr(obj))
    if id(obj) in seen:
        return ("seen", seen[id(obj)])
    seen[id(obj)] = len(seen)
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(snapshot(x, seen) for x in obj))
    if isinstance(obj, (set, frozenset)):
        return ("set", tuple(sorted(repr(x) for x in obj)))
    if isinstance(obj, dict):
        return ("dict", tuple((repr(k), snapshot(v, seen)) for k, v in obj.items()))
    mod = type(obj).__module__
    if mod.startswith("asn1_parser"):
        return (type(obj).__name__, tuple((k, snapshot(v, seen)) for k, v in sorted(vars(obj).items()) if not k.startswith("_tx")))
    return ("opaque", type(obj).__name__)

"""Access to the syntax trees produced by rsx, and rendering of source text with rewrites."""
import json, os, re, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class Unsupported(Exception):
    """The current source cannot be brought into the verified shape (lost anchor, construct)."""


def cargo_env():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:/opt/veriftools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    env["HOME"] = "/root"
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTC_WRAPPER"] = ""
    env["CARGO_TERM_COLOR"] = "never"
    env["RUST_BACKTRACE"] = "0"
    env.pop("CARGO_TARGET_DIR", None)
    return env


def rsx_bin():
    out = os.path.join(BUILD, "rsx", "debug", "rsx")
    srcs = [os.path.join(VERIF, "rsx", "src", "main.rs"), os.path.join(VERIF, "rsx", "Cargo.toml")]
    if not os.path.exists(out) or any(os.path.getmtime(s) > os.path.getmtime(out) for s in srcs):
        r = subprocess.run(["cargo", "build", "--offline", "--target-dir", os.path.join(BUILD, "rsx")],
                           cwd=os.path.join(VERIF, "rsx"), env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("rsx build failed:\n" + r.stdout)
        os.utime(out)
    return out


def children(n):
    return n.get("c") or []


def walk(n):
    yield n
    for c in children(n):
        yield from walk(c)


def walk_fn(n):
    yield from walk(n["body"])


def one(n, role):
    for c in children(n):
        if c.get("r") == role:
            return c
    return None


def many(n, role):
    return [c for c in children(n) if c.get("r") == role]


class Src:
    cache = {}

    def __init__(self, rel):
        self.rel = rel
        self.path = os.path.join(REPO, rel)
        if not os.path.exists(self.path):
            raise Unsupported("missing file " + rel)
        self.b = open(self.path, "rb").read()
        out = subprocess.run([rsx_bin(), self.path], stdout=subprocess.PIPE, check=True).stdout
        t = json.loads(out)[self.path]
        if "error" in t:
            raise Unsupported("cannot parse %s: %s" % (rel, t["error"]))
        self.items = t["items"]

    @classmethod
    def get(cls, rel):
        if rel not in cls.cache:
            cls.cache[rel] = cls(rel)
        return cls.cache[rel]

    def text(self, s, e=None):
        if isinstance(s, dict):
            s, e = s["s"], s["e"]
        elif isinstance(s, (list, tuple)):
            s, e = s
        return self.b[s:e].decode()

    def line(self, s):
        return self.b[:s].count(b"\n") + 1

    def is_test(self, it):
        for a in it.get("attrs") or []:
            if a["path"] == "cfg" and "test" in self.text(a) and "not" not in self.text(a):
                return True
            if a["path"] == "test":
                return True
        return False

    def all_items(self, items=None, mods=()):
        """(modpath, item) for all non-test items, inline modules flattened."""
        for it in (self.items if items is None else items):
            if self.is_test(it):
                continue
            if it["k"] == "mod":
                if it.get("items"):
                    yield from self.all_items(it["items"], mods + (it["name"],))
                continue
            yield mods, it

    def find_item(self, kinds, name):
        for _, it in self.all_items():
            if it["k"] in kinds and it.get("name") == name:
                return it
        raise Unsupported("%s: no item %s" % (self.rel, name))

    def fns(self):
        """All non-test functions: (owner type or None, trait or None, impl node or None, fn)."""
        for _, it in self.all_items():
            if it["k"] == "fn":
                yield None, None, None, it
            elif it["k"] == "impl":
                tr = it["trait"]["name"] if it["trait"] else None
                for f in it["items"]:
                    if f["k"] == "fn" and not self.is_test(f):
                        yield it["self_ty"], tr, it, f
            elif it["k"] == "trait":
                for f in it["items"]:
                    if f["k"] == "fn" and f.get("body"):
                        yield it["name"], None, it, f

    def find_fn(self, path, trait=None, self_text=None):
        owner, _, name = path.rpartition("::")
        for o, tr, im, f in self.fns():
            if f["name"] != name or (o or "") != owner:
                continue
            if trait is not None and tr != trait:
                continue
            if trait is None and tr is not None and any(
                    (o2 or "") == owner and t2 is None and f2["name"] == name for o2, t2, _, f2 in self.fns()):
                continue
            if self_text is not None and im is not None and self_text not in self.text(im["s"], im["brace"]):
                continue
            return Fn(self, o, tr, im, f)
        if owner:
            try:
                out = self.find_fn(owner, trait=trait, self_text=self_text)
            except Unsupported:
                out = None
            for c in children(out.node["body"]) if out else []:
                if c["k"] == "fn" and c["name"] == name:
                    return Fn(self, owner, None, None, c)
        raise Unsupported("%s: no function %s" % (self.rel, path))

    def assoc_const(self, name):
        """An associated constant as a free one."""
        m = re.search(r"\bconst %s: ([\w\[\]<>& ';]+?) = ([^;]+);" % name, self.b.decode())
        if not m:
            raise Unsupported("%s: no constant %s" % (self.rel, name))
        return "const %s: %s = %s;" % (name, m.group(1), m.group(2))

    def const_value(self, name):
        it = self.find_item(("const",), name)
        return self.text(it["c"][0])


class Fn:
    def __init__(self, src, owner, trait, impl, node):
        self.src, self.owner, self.trait, self.impl, self.node = src, owner, trait, impl, node
        self.name = node["name"]

    @property
    def where(self):
        return "%s:%d" % (self.src.rel, self.src.line(self.node["sig"][0]))

    @property
    def qual(self):
        return (self.owner + "::" if self.owner else "") + self.name

    def loops(self):
        return [n for n in walk_fn(self.node) if n["k"] in ("for", "while", "loop")]

    def skeleton(self):
        """Kinds of loops (and of iterator folds) in source order."""
        out = []
        for n in walk_fn(self.node):
            if n["k"] in ("for", "while", "loop"):
                out.append(n["k"])
            elif n["k"] == "mcall" and n["name"] in ITER_LOOPS:
                out.append("." + n["name"])
        return out


ITER_LOOPS = ("fold", "try_fold", "for_each", "retain", "sum", "max_by_key")
DROP_MACROS = ("log::debug", "log::info", "log::warn", "log::error", "log::trace", "debug", "info", "warn", "trace",
               "println", "eprintln", "debug_assert", "debug_assert_eq")

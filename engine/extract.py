"""Extraction of a self-contained piece of the source as plain Rust, for the searches on code whose crate cannot be built here.

Items are taken verbatim, together with everything they refer to by name in the given files (helpers a change adds are found
the same way). Dropped: attributes except derives of std traits, `use` lines, paths into the workspace (items end up in one
module). Provided by the harness instead of the source: the names in `stubs`."""
import re
from rs import *

STD_DERIVES = ("Debug", "Clone", "Copy", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Default")
STD_TRAITS = ("Add", "Sub", "Mul", "Div", "Rem", "AddAssign", "SubAssign", "Sum", "From", "TryFrom", "Default", "PartialEq", "Eq", "PartialOrd", "Ord",
              "Hash", "Deref", "DerefMut", "AsRef", "Neg", "Iterator", "IntoIterator", "Index", "FromIterator", "Extend", "Borrow")

HEADER = """
use std::collections::*;
use std::cmp::*;
use std::convert::*;
use std::fmt;
use std::hash::{Hash as StdHash, Hasher};
use std::iter::{self, FromIterator, Sum, Product};
use std::marker::PhantomData;
use std::ops::*;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;
#[macro_use]
mod log_stub {
    macro_rules! rt_ignore { ($($t:tt)*) => { { let _ = || { let _ = format_args!($($t)*); }; } } }
}
mod log { pub(crate) use rt_ignore as debug; pub(crate) use rt_ignore as info; pub(crate) use rt_ignore as warn; pub(crate) use rt_ignore as error; pub(crate) use rt_ignore as trace; }
mod anyhow {
    pub struct Error(pub String);
    impl std::fmt::Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    pub trait ErrLike: std::fmt::Debug {}
    impl<E: ErrLike> From<E> for Error { fn from(e: E) -> Error { Error(format!("{:?}", e)) } }
    impl ErrLike for std::num::TryFromIntError {}
    pub type Result<T> = std::result::Result<T, Error>;
    macro_rules! anyhow { ($($t:tt)*) => { crate::anyhow::Error(format!($($t)*)) } }
    macro_rules! bail { ($($t:tt)*) => { return Err(crate::anyhow::Error(format!($($t)*)).into()) } }
    pub(crate) use anyhow;
    pub(crate) use bail;
}
"""


class Extract:
    def __init__(self, rels, stubs=(), traits=(), no=(), mods=(), subst=(), derive=None, only_traits=None):
        self.srcs = [Src.get(r) for r in rels]
        self.stubs = set(stubs)
        self.traits = set(STD_TRAITS if only_traits is None else only_traits) | set(traits)
        self.no = set(no)
        self.mods = set(mods)
        self.subst = list(subst)
        self.derive = derive or {}
        self.free, self.impls = {}, []
        for s in self.srcs:
            for _, it in s.all_items():
                if it["k"] == "impl":
                    self.impls.append((s, it))
                elif it["k"] in ("fn", "item_struct", "item_enum", "const", "static", "type", "trait") and it.get("name"):
                    self.free.setdefault(it["name"], (s, it))

    # -- text of one item --------------------------------------------------------------------
    def clean(self, src, it, s, e, enum=False):
        cuts = []
        def attrs(x, keep=()):
            for a in x.get("attrs") or []:
                if a["path"] not in keep:
                    cuts.append((a["s"], a["e"]))
        for f in it.get("fields") or []:
            attrs(f)
        for v in it.get("variants") or []:
            attrs(v, ("default",))
            for f in v["fields"]:
                attrs(f)
        out, pos = [], s
        for a, b in sorted(cuts):
            out.append(src.text(pos, a))
            pos = b
        out.append(src.text(pos, e))
        return "".join(out)

    def item_start(self, it):
        return max([it["s"]] + [a["e"] for a in it.get("attrs") or []])

    def fix(self, t):
        t = re.sub(r"(?m)^\s*use (?:crate|super|self|witnet_\w+)::[^;]*;", "", t)
        t = re.sub(r"(?<![\w:])(?:(?:crate|super|self|witnet_\w+)(?:::[a-z_][a-z_0-9]*(?=::))*::)+(?=[A-Za-z_])", "", t)
        for m in self.mods:
            t = re.sub(r"(?<![\w:.])%s::(?=[A-Za-z_])" % m, "", t)
        for a, b in self.subst:
            t = re.sub(a, b, t)
        return t

    def text_of(self, name):
        src, it = self.free[name]
        t = self.clean(src, it, self.item_start(it), it["e"])
        if it["k"] in ("item_struct", "item_enum"):
            ds = set()
            for a in it["attrs"]:
                if a["path"] == "derive":
                    ds |= set(x.strip().split("::")[-1] for x in src.text(a).split("(", 1)[1].rsplit(")", 1)[0].split(",") if x.strip())
            ds = [d for d in STD_DERIVES if d in ds and d not in self.derive.get(name, {}).get("drop", ())] + list(self.derive.get(name, {}).get("add", ()))
            if ds:
                t = "#[derive(%s)]\n%s" % (", ".join(ds), t.lstrip())
            if name.endswith("Error") and not re.search(r"\benum %s\s*<" % name, t):
                t += "\nimpl anyhow::ErrLike for %s {}" % name
        return self.fix(t)

    def build(self, roots):
        names, methods = [], []              # free item names; (src, impl, item)
        seen, seen_impl_items = set(), set()
        tokens = set()
        texts = {}
        want_methods = set()

        def scan(t):
            t = re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)
            for tok in re.findall(r"[A-Za-z_]\w*", t):
                tokens.add(tok)

        for r in roots:
            if "::" in r:
                want_methods.add(r)
                tokens.add(r.split("::")[0])
            else:
                if r not in self.free:
                    raise Unsupported("extraction: no item " + r)
                tokens.add(r)
        changed = True
        while changed:
            changed = False
            for tok in sorted(tokens):
                if tok in self.free and tok not in seen and tok not in self.stubs:
                    seen.add(tok)
                    names.append(tok)
                    texts[tok] = self.text_of(tok)
                    scan(texts[tok])
                    changed = True
            for s, im in self.impls:
                ty, tr = im["self_ty"], (im["trait"] or {}).get("name")
                if tr is None:
                    if ty not in seen and not any(w.startswith(ty + "::") for w in want_methods):
                        continue
                else:
                    gen = ty in seen or (tr in seen and ty not in self.stubs)
                    # From<X> for a foreign type (e.g. u64) of an included type X
                    if not gen and not (tr in ("From", "TryFrom") and any(x in seen for x in re.findall(r"\w+", s.text(im["trait"]["span"])))):
                        continue
                    if tr not in self.traits and tr not in seen:
                        continue
                    hdr = re.sub(r"\s+", " ", "%s for %s" % (s.text(im["trait"]["span"]), s.text(im["self_span"])))
                    if "%s for %s" % (tr, ty) in self.no or hdr in self.no:
                        continue
                    if tr in ("From", "TryFrom", "Add", "Mul", "Div", "Sub", "PartialEq"):
                        args = [x for x in re.findall(r"[A-Z]\w+", s.text(im["trait"]["span"]))[1:] + [ty]]
                        if any(a in self.free and a not in seen and a not in self.stubs for a in args):
                            continue
                for f in im["items"]:
                    key = (s.rel, f["s"])
                    if key in seen_impl_items or s.is_test(f):
                        continue
                    nm = f.get("name")
                    if tr is None:
                        if "%s::%s" % (ty, nm) in self.no or "%s::%s" % (ty, nm) in self.stubs:
                            continue
                        if nm not in tokens and "%s::%s" % (ty, nm) not in want_methods and "%s::*" % ty not in want_methods:
                            continue
                    seen_impl_items.add(key)
                    t = self.fix(s.text(self.item_start(f), f["e"]))
                    methods.append((s, im, t))
                    scan(t)
                    scan(s.text(im["s"], im["brace"]) if tr else "")
                    changed = True
        out = [texts[n] for n in names]
        byimpl = {}
        for s, im, t in methods:
            byimpl.setdefault((s.rel, im["s"]), (s, im, []))[2].append(t)
        for s, im, ts in byimpl.values():
            out.append("%s{\n%s\n}" % (self.fix(s.text(self.item_start(im), im["brace"])), "\n".join(ts)))
        self.seen = seen
        for w in want_methods:
            ty, _, nm = w.partition("::")
            if nm != "*" and not any(("fn %s" % nm) in t for _, im, t in methods if im["self_ty"] == ty):
                raise Unsupported("extraction: no function " + w)
        return "\n\n".join(out) + "\n"

"""A unit: the Verus files and the search harness of one property."""
import hashlib, json, os, re, subprocess, time
from rs import *
from render import Renderer

PRELUDE = """#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, dead_code, non_snake_case)]
use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::arithmetic::div_mod::*;
use std::collections::{HashMap, HashSet, VecDeque, BTreeMap, BTreeSet};
use std::cmp::Ordering;
use std::hash::Hash as StdHash;
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;
// a failing assert! in the source is a panic: reaching this call with c == false is a failed obligation
fn rt_assert(c: bool) requires c {}
#[verifier::external_body]
fn rt_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
fn rt_string() -> String { String::new() }
"""

LIGHT_PRELUDE = PRELUDE.replace("broadcast use vstd::std_specs::hash::group_hash_axioms;\n", "")


class VFile:
    def __init__(self, name):
        self.name = name
        self.parts = []
        self.fns = []          # functions under contract
        self.probed = set()

    def text(self):
        return "".join(self.parts)


class Unit:
    def __init__(self, pid, probing=False, shard=(0, 1)):
        # shard (i, k): of the vacuity probes, the i-th of every k
        self.id = pid
        self.probing = probing
        self.shard, self.nprobe = shard, 0
        self.files = []
        self.cur = None
        self.notes = set()
        self.assumptions = []
        self.inlinable = None
        self.structure = []
        self.unfounded = []
        self.no_inline = set()
        self.result_fns = set()

    def probes_here(self):
        self.nprobe += 1
        return self.probing and (self.nprobe - 1) % self.shard[1] == self.shard[0]

    # -- files -----------------------------------------------------------------------------------
    def file(self, name, prelude=PRELUDE):
        self.cur = VFile(name)
        self.files.append(self.cur)
        self.cur.parts.append(prelude)
        return self.cur

    def close(self):
        self.cur.parts.append("\n} // verus!\nfn main() {}\n")

    def emit(self, text):
        # PROBE(name) marks the start of a lemma body: its hypotheses must be satisfiable
        def probe(m):
            if self.probes_here():
                self.cur.probed.add(m.group(1))
                return "assert(false);"
            return ""
        had = set(self.cur.probed)
        text = re.sub(r"PROBE\((\w+)\);?", probe, text)
        # a solver of their own: one that has failed is slower afterwards
        for n in self.cur.probed - had:
            text = re.sub(r"((?:pub )?(?:broadcast )?proof fn %s\b)" % n, r"#[verifier::spinoff_prover] \1", text, count=1)
        self.cur.parts.append(text + "\n")

    def src(self, rel):
        return Src.get(rel)

    def may_inline(self, q):
        return (q not in self.no_inline and q.split("::")[-1] not in self.no_inline
                and not any(f["function"] == q for f in self.cur.fns))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # -- items ------------------------------------------------------------------------------------
    def struct_text(self, src, name, derive="", subst=(), attrs="", drop_where=False, pub=True, generics=None, keep_fields=None):
        """A struct or enum definition, verbatim except: attributes dropped, visibility dropped."""
        it = src.find_item(("item_struct", "item_enum"), name)
        s = it["tok"]
        if keep_fields is not None:
            self.notes.add("fields (variants) the functions under contract do not use are left out of the type definitions")
            parts = []
            for f in it.get("fields") or []:
                if f["name"] in keep_fields:
                    parts.append("%s: %s" % (f["name"], src.text(f["ty"])))
            for v in it.get("variants") or []:
                if v["name"] in keep_fields:
                    parts.append(self.cut(src, max([v["s"]] + [a["e"] for a in v["attrs"]]), v["e"], [(a["s"], a["e"], "") for f in v["fields"] for a in f["attrs"]]))
            missing = set(keep_fields) - set(x["name"] for x in (it.get("fields") or []) + (it.get("variants") or []))
            if missing:
                raise Unsupported("%s has no %s" % (name, sorted(missing)))
            t = "%s %s%s { %s }" % (it["k"][5:], name, generics if generics is not None else src.text(it["generics"]) if it.get("generics") else "", ", ".join(parts))
            for pat, rep in subst:
                t = re.sub(pat, rep, t)
            return (("#[derive(%s)]\n" % derive) if derive else "") + attrs + t + "\n"
        cuts = []
        for f in it.get("fields") or []:
            for a in f["attrs"]:
                cuts.append((a["s"], a["e"], ""))
            if f["vis"][1] > f["vis"][0]:
                cuts.append((f["vis"][0], f["vis"][1], ""))
        for v in it.get("variants") or []:
            for a in v["attrs"]:
                cuts.append((a["s"], a["e"], ""))
            for f in v["fields"]:
                for a in f["attrs"]:
                    cuts.append((a["s"], a["e"], ""))
        if generics is not None and it.get("generics"):
            cuts.append((it["generics"][0], it["generics"][1], generics))
        if drop_where and it.get("where"):
            cuts.append((it["where"][0], it["where"][1], ""))
        t = self.cut(src, s, it["e"], cuts)
        for pat, rep in subst:
            t = re.sub(pat, rep, t)
        return (("#[derive(%s)]\n" % derive) if derive else "") + attrs + t + "\n"

    def cut(self, src, s, e, cuts):
        cuts.sort()
        out, pos = [], s
        for a, b, rep in cuts:
            if a < pos:
                continue
            out.append(src.text(pos, a))
            out.append(rep)
            pos = b
        out.append(src.text(pos, e))
        return "".join(out)

    def derives(self, src, name):
        it = src.find_item(("item_struct", "item_enum"), name)
        out = set()
        for a in it["attrs"]:
            if a["path"] == "derive":
                out |= set(x.strip().split("::")[-1] for x in src.text(a).split("(", 1)[1].rsplit(")", 1)[0].split(",") if x.strip())
        return out

    def need_derives(self, src, name, want):
        have = self.derives(src, name)
        if not set(want) <= have:
            raise Unsupported("%s no longer derives %s" % (name, sorted(set(want) - have)))

    def const_text(self, src, name):
        it = src.find_item(("const",), name)
        ty = src.text(it["ty"])
        return "const %s: %s = %s;\n" % (name, ty, src.text(it["c"][0]))

    # -- functions -----------------------------------------------------------------------------------
    def fn(self, src, path, spec="", ret="r", trait=None, self_text=None, name=None, sig_subst=(), subst=(), sig=None, skel=None, mode="verus",
           contract=True, attrs="", pre="", self_as=None, **kw):
        """The text of a function with its contract. Everything not named here is verbatim."""
        f = src if isinstance(src, Fn) else src.find_fn(path, trait=trait, self_text=self_text)
        n = f.node
        if n["async"]:
            raise Unsupported("%s is async" % f.qual)
        if skel is not None and f.skeleton() != list(skel):
            self.structure.append("%s: loops %s, expected %s" % (f.qual, f.skeleton(), list(skel)))
        r = Renderer(self, f, subst=subst, mode=mode, **kw)
        mutself = mode == "verus" and sig is None and n["inputs"] and n["inputs"][0]["self"] and f.src.text(n["inputs"][0]).startswith("mut ")
        if mutself:
            r.subst.append((r"\bself\b", "__self"))
            r.start = "let mut __self = self; " + r.start
        probed = bool(contract) and self.probes_here()
        if probed:
            h = re.match(r"(\s*hide\(\w+\);)*", r.start).end()
            r.start = r.start[:h] + "\nproof { assert(false); }\n" + r.start[h:]
        body = r.render_body()
        self.notes |= r.applied
        if mode == "verus":
            for hooks, used in ((r.before, r.used_before), (r.after, r.used_after)):
                for i, h in enumerate(hooks):
                    if i not in used:
                        self.structure.append("%s: no statement matches %s" % (f.qual, h[0]))
        if mode == "verus" and r.loops and max([-1] + list(r.loops)) >= r.nloop:
            self.structure.append("%s: %d loops rendered, invariants given for loop %d" % (f.qual, r.nloop, max(r.loops)))
        if sig is None:
            s = f.src
            start = n["sig"][0]
            cuts = []
            if n["const"]:
                cuts.append((n["const"][0], n["const"][1], ""))
            if n["output"] is not None and ret:
                cuts.append((n["output"][0], n["output"][1], "(%s: %s)" % (ret, s.text(n["output"]))))
            if name:
                cuts.append((n["ident"][0], n["ident"][1], name))
            if n.get("where"):
                cuts.append((n["where"][0], n["where"][1], ""))
            sig = self.cut(s, start, n["sig"][1], cuts)
            for pat, rep in list(subst) + list(sig_subst):
                sig = re.sub(pat, rep, sig)
            if mutself:
                sig = sig.replace("mut self", "self", 1)
        if contract:
            self.cur.fns.append(dict(function=f.qual, where=f.where, verus=(name or f.name)))
        if probed:
            self.cur.probed.add(name or f.name)
        if spec and not spec.lstrip().startswith(("requires", "ensures", "no_unwind", "returns", "opens", "decreases")):
            spec = "ensures " + spec
        if probed:
            attrs = "#[verifier::spinoff_prover] " + attrs
        return "%s%s%s\n    %s\n{%s}\n" % (pre, attrs, sig, spec, body)

    def emit_fn(self, *a, **kw):
        self.emit_raw(self.fn(*a, **kw))

    def emit_raw(self, t):
        self.cur.parts.append(t + "\n")

    def emit_impl(self, head, fns):
        self.cur.parts.append("impl%s {\n%s\n}\n" % (head, "\n".join(fns)))


# ---------------------------------------------------------------------------------------------------
VERIFY_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
               "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
               "possible bit shift underflow/overflow", "recommendation not met", "loop ensures not satisfied", "unwind",
               "cannot show", "could not prove", "not satisfied", "possible ")


def run_verus(path, rlimit=30, timeout=300, extra=(), errors=4):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", str(errors), "--triggers-mode", "silent", "--num-threads", "6", "--rlimit", str(rlimit)] + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return dict(status="timeout", stderr="timeout after %d s" % timeout, wall=time.time() - t0, cmd=cmd, functions=[], verified=0, errors=0, smt_ms=0)
    res = dict(stderr=p.stderr, wall=time.time() - t0, cmd=cmd, functions=[], verified=0, errors=0, smt_ms=0)
    try:
        j = json.loads(p.stdout)
    except Exception:
        res["status"] = "unsupported"
        return res
    vr = j.get("verification-results", {})
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    smt = j.get("times-ms", {}).get("smt", {})
    res["smt_ms"] = smt.get("smt-run", 0)
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            res["functions"].append(dict(name=f["function"], mode=f.get("mode:", ""), ms=f.get("time-micros", 0) / 1000.0, ok=f["success"]))
    if vr.get("success"):
        res["status"] = "proved"
    elif vr.get("encountered-vir-error") or "verified" not in vr or (vr.get("errors", 0) == 0):
        res["status"] = "unsupported"
    elif re.search(r"Resource limit|rlimit", p.stderr) and not [m for m in re.findall(r"^error(?:\[\w+\])?: (.*)$", p.stderr, re.M)
                                                              if "rlimit" not in m and not m.startswith("aborting")]:
        res["status"] = "rlimit"
    else:
        res["status"] = "failed"
    return res


def failed_obligations(res, text):
    """[(message, generated line number, source text of that line)] from Verus' diagnostics."""
    out = []
    lines = text.split("\n")
    for m in re.finditer(r"^error(?:\[\w+\])?: (.*)\n\s+--> [^:\n]+:(\d+):(\d+)", res["stderr"], re.M):
        msg, ln = m.group(1), int(m.group(2))
        if msg.startswith("aborting"):
            continue
        out.append((msg, ln, lines[ln - 1].strip() if ln <= len(lines) else ""))
    return out


def enclosing_fn(text, ln):
    best = ""
    for i, l in enumerate(text.split("\n")[:ln]):
        m = re.match(r"\s*(?:pub )?(?:proof |spec |broadcast |const |open |closed )*fn (\w+)", l)
        if m:
            best = m.group(1)
    return best

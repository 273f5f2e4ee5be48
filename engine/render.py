"""Rendering of functions: verbatim source text, with contracts inserted and listed rewrites applied."""
import re
from rs import *


class Renderer:
    def __init__(self, unit, fn, loops=None, before=None, after=None, start="", end="", rewrites=(), subst=(),
                 known=(), inline=True, keep_macros=(), ret=None, mode="verus", desugar=(), cty=None):
        self.u, self.fn, self.src = unit, fn, fn.src
        self.loops = loops or {}
        self.before, self.after = list(before or []), list(after or [])
        self.start, self.end = start, end
        self.rewrites = list(rewrites)
        self.subst = list(subst)
        self.known = set(known)
        self.inline = inline
        self.keep_macros = set(keep_macros)
        self.mode = mode
        self.desugar = set(desugar)
        self.collect_vec, self.ret_nodes = True, {}
        self.cty = cty
        self.closures = {}
        self.nloop = 0
        self.holes = []
        self.applied = set()
        self.stack = []
        self.used_before, self.used_after = set(), set()

    # -- holes protect inserted specification text from the substitutions -------------------
    def hole(self, text):
        if not text:
            return ""
        self.holes.append(text)
        return "\x01%d\x02" % (len(self.holes) - 1)

    def fill(self, text):
        for _ in range(4):
            text = re.sub("\x01(\\d+)\x02", lambda m: self.holes[int(m.group(1))], text)
        return text

    def sub(self, text):
        for pat, rep in self.subst:
            text = re.sub(pat, rep, text)
        return text

    # -- generic rendering -------------------------------------------------------------------
    def ordered(self, n):
        cs = list(children(n))
        cs.sort(key=lambda c: c["s"])
        return cs

    def r(self, n):
        for rw in self.rewrites:
            t = rw(n, self)
            if t is not None:
                return t
        m = getattr(self, "r_" + n["k"], None)
        if m:
            t = m(n)
            if t is not None:
                return t
        return self.default(n)

    def r_fn(self, n):
        # a function inside of a function, under a contract of its own
        if self.mode == "verus" and any(f["function"] == "%s::%s" % (self.fn.qual, n["name"]) for f in self.u.cur.fns):
            self.applied.add("functions inside of functions are taken out of them")
            return ""
        return None

    def default(self, n):
        pos, out = n["s"], []
        for c in self.ordered(n):
            if c["s"] < pos:
                continue
            out.append(self.src.text(pos, c["s"]))
            out.append(self.r(c))
            pos = c["e"]
        out.append(self.src.text(pos, n["e"]))
        return "".join(out)

    def rest_of(self, n, first_child_end):
        """text of n after byte offset"""
        return self.src.text(first_child_end, n["e"])

    # -- statements --------------------------------------------------------------------------
    def r_block(self, n):
        pos, out = n["s"], []
        for c in self.ordered(n):
            out.append(self.src.text(pos, c["s"]))
            raw = self.src.text(c)
            pre = post = ""
            for i, (pat, txt) in enumerate(self.before):
                if re.match(pat, raw, re.S):
                    self.used_before.add(i)
                    pre += self.hole(txt) + "\n"
            for i, (pat, txt) in enumerate(self.after):
                if re.match(pat, raw, re.S):
                    self.used_after.add(i)
                    post += "\n" + self.hole(txt)
            t = self.r(c)
            if post and c["k"] == "stmt_expr" and not c["semi"] and c is self.ordered(n)[-1]:
                t = "let __ret = %s;%s\n__ret" % (t, post)
                post = ""
            out.append(pre + t + post)
            pos = c["e"]
        out.append(self.src.text(pos, n["e"]))
        return "".join(out)

    def is_dropped(self, n):
        if self.mode != "verus":
            return False
        return n["path"] in DROP_MACROS and n["path"] not in self.keep_macros

    def r_stmt_macro(self, n):
        if self.is_dropped(n):
            self.applied.add("drop statement macro %s!" % n["path"])
            return ""
        return self.r_macro(n) if n["path"] in ("assert", "assert_eq", "panic", "unreachable") else None

    def r_macro(self, n):
        if self.is_dropped(n):
            self.applied.add("drop macro %s!" % n["path"])
            return "()"
        if self.mode != "verus":
            return None
        semi = ";" if n["k"] == "stmt_macro" else ""
        if n["path"] in ("panic", "unreachable", "unimplemented", "todo"):
            self.applied.add("panic!(..) becomes a call whose precondition is false (a panic is an obligation)")
            return "return rt_panic();" if semi else "rt_panic()"
        if n["path"] == "format":
            self.applied.add("format!(..) becomes an arbitrary string (texts of messages are not part of the property)")
            return "rt_string()" + semi
        if n["path"] == "assert" and children(n):
            self.applied.add("assert!(c, ..) becomes a call whose precondition is c (a panic is an obligation)")
            return "rt_assert(%s)%s" % (self.r(children(n)[0]), semi)
        if n["path"] == "assert_eq" and len(children(n)) >= 2:
            a, b = children(n)[:2]
            self.applied.add("assert_eq!(a, b) becomes a call whose precondition is a == b (a panic is an obligation)")
            return "rt_assert(%s == %s)%s" % (self.r(a), self.r(b), semi)
        return None

    # -- loops -------------------------------------------------------------------------------
    def loop_spec(self):
        k = self.nloop
        self.nloop += 1
        return k, dict(self.loops.get(k, {}))

    def ret_type(self, tail):
        """The type of an error whose success type nothing else fixes."""
        o = self.fn.node["output"]
        t = o if isinstance(o, str) else self.src.text(o)
        t = re.sub(r"^\s*->\s*", "", t or "")
        return self.hole(": " + t) if tail.lstrip().startswith("Err(") and re.match(r"(\w+::)*Result<", t) else ""

    def no_break(self, sp, body):
        """Without a break, what holds except at one holds always."""
        if sp.get("inv_except_break") and not re.search(r"\bbreak\b", body):
            sp = dict(sp, inv=", ".join(x.strip().rstrip(",") for x in (sp.get("inv", ""), sp["inv_except_break"]) if x.strip()))
            del sp["inv_except_break"]
        return sp

    def mk_for(self, pat, it, body_inner, k, sp, label=""):
        """body_inner: text between the braces."""
        if "ref_pat" in self.desugar and pat.startswith("(") and re.search(r"&\s*\w+\b(?!\s*mut)", pat):
            for v in re.findall(r"&\s*(\w+)", pat):
                body_inner = "let %s = *%s; " % (v, v) + body_inner
            pat = re.sub(r"&\s*(\w+)", r"\1", pat)
            self.applied.add("for (a, &b) in it becomes for (a, b) in it with let b = *b")
        inv = ""
        sp = self.no_break(sp, body_inner)
        if sp.get("inv_except_break"):
            inv += "\n    invariant_except_break " + sp["inv_except_break"].strip().rstrip(",") + ",\n"
        if sp.get("inv"):
            inv += "\n    invariant " + sp["inv"].strip().rstrip(",") + ",\n"
        if sp.get("ensures"):
            inv += "\n    ensures " + sp["ensures"].strip().rstrip(",") + ",\n"
        if sp.get("dec"):
            inv += "    decreases " + sp["dec"] + "\n"
        bind = ""
        if sp.get("bind"):
            bind = "let %s = %s; " % (sp["bind"], it)
            it = sp["bind"]
        name = (sp.get("iter") or "it%d" % k) + ": " if self.mode == "verus" and (sp.get("inv") or sp.get("iter")) else ""
        return "%s%s%sfor %s in %s%s %s{ %s %s %s }%s" % (
            bind, self.hole(sp.get("before", "")), label, pat, self.hole(name), it, self.hole(inv), self.hole(sp.get("start", "")), body_inner,
            self.hole(sp.get("end", "")), self.hole(sp.get("after", "")))

    def inner(self, b):
        """Rendered block without its braces."""
        t = self.r(b).strip()
        assert t[0] == "{" and t[-1] == "}", t
        return t[1:-1]

    # -- iterator pipelines ------------------------------------------------------------------
    STAGES = ("filter", "map", "filter_map", "cloned", "copied", "inspect", "fuse", "flatten")

    def pipeline(self, it):
        """(base iterator node, [(stage, closure)])"""
        stages = []
        while it["k"] == "mcall" and it["name"] in self.STAGES and it["name"] in self.desugar:
            args = many(it, "arg")
            c = self.closure_of(args[0]) if args else None
            if args and c is None and it["name"] == "map" and args[0]["k"] == "path":
                c = args[0]
            elif args and c is not None and it["name"] == "filter_map" and not stages and self.escapes(one(c, "body")) and not self.has_try(one(c, "body")):
                pass    # early returns of the last stage become continue (see staged)
            elif args and (c is None or self.escapes(one(c, "body"))):
                break
            stages.insert(0, (it["name"], c))
            it = one(it, "recv")
        return it, stages

    def has_try(self, n):
        return any(m["k"] == "try" for m in self.walk_nc(n))

    def r_return(self, n):
        f = self.ret_nodes.get(id(n))
        if f is None:
            return None
        return f(self.r(children(n)[0]) if children(n) else "()")

    def staged(self, stages, pat, body, k, end=""):
        """(loop pattern, loop body) of a loop over a pipeline."""
        if not stages:
            return pat, body
        e = "__e%d" % k
        pre, post = "", ""
        named = "let __o%d = %%s; %s if let Some(%s) = __o%d" % (k, self.hole("let ghost __g%d = __o%d;" % (k, k)), e, k)
        kept = lambda x: (named if self.loops.get(k, {}).get("named") else "if let Some(" + e + ") = %s") % x
        for name, c in stages:
            self.applied.add("iterator stage .%s(..) becomes the corresponding statement of the loop body" % name)
            if c is not None and c["k"] == "path":
                cp, cb = "__y", self.src.text(c) + "(__y)"
            elif c is not None:
                for m in self.walk_nc(one(c, "body")):
                    if m["k"] == "return":
                        self.applied.add("return v in the closure of the last .filter_map(..) becomes: handle v, then continue")
                        self.ret_nodes[id(m)] = lambda x: "{ %s { let %s = %s; %s } %s continue; }" % (kept(x), pat, e, body, end)
                cp, cb = self.src.text(c["inputs"][0]), self.r(one(c, "body"))
            if name == "inspect":
                pre += "{ %s %s; } " % (self.bindref(cp, e), cb)
            elif name == "filter":
                pre += "if { %s %s } { " % (self.bindref(cp, e), cb)
                post = " }" + post
            elif name == "map":
                mr = re.match(r"^&\s*(\w+)$", cp)
                pre += "let %s = { let %s = %s%s; %s }; " % (e, mr.group(1) if mr else cp, "*" if mr else "", e, cb)
            elif name == "filter_map":
                pre += kept("{ let %s = %s; %s }" % (cp, e, cb)) + " { "
                post = " }" + post
            elif name == "fuse":
                pass    # over an iterator that stays at its end
            elif name == "flatten":
                pre += "if let Some(%s) = %s { " % (e, e)
                post = " }" + post
            elif name in ("cloned", "copied"):
                pre += "let %s = %s.clone(); " % (e, e)
            else:
                raise Unsupported("iterator stage " + name)
        return e, pre + "let %s = %s; %s" % (pat, e, body) + post

    def strip_into(self, it):
        return it

    def r_for(self, n):
        if self.mode != "verus":
            return None
        k, sp = self.loop_spec()
        label = "'%s: " % n["label"] if n.get("label") else ""
        it = one(n, "iter")
        pat = self.src.text(one(n, "pat"))
        t = self.src.text(it)
        m = re.match(r"^(.*)\.iter_mut\(\)\s*(\.rev\(\))?$", t, re.S) or re.match(r"^&mut\s+([\w.]+)()$", t)
        if m and "iter_mut" in self.desugar:
            self.applied.add("for p in v.iter_mut()[.rev()] becomes an index loop with let p = &mut v[i]")
            base = m.group(1).strip()
            body = self.inner(one(n, "body"))
            i = "__i%d" % k
            if m.group(2):
                return "let mut %s: usize = %s.len(); " % (i, base) + self.mk_while(
                    "while %s > 0" % i, "%s = %s - 1; let %s = &mut %s[%s]; %s" % (i, i, pat, base, i, body), sp, label)
            # the increment comes before the body so that `continue` keeps its meaning
            return "let mut %s: usize = 0; " % i + self.mk_while(
                "while %s < %s.len()" % (i, base), "%s = %s + 1; let %s = &mut %s[%s - 1]; %s" % (i, i, pat, base, i, body), sp, label)
        base, stages = self.pipeline(it)
        ix = self.index_base(base)
        its = None
        if not ix:
            its = self.iter_text(base, sp, k)
        pat, body = self.staged(stages, pat, self.inner(one(n, "body")), k, self.hole(sp.get("end", "")))
        if sp.get("indexed"):
            return self.copied_loop(its, pat, body, k, sp, label)
        if ix:
            return self.index_loop(ix, pat, body, k, sp, label)
        return self.mk_for(pat, its, body, k, sp, label)

    def copied_loop(self, its, pat, body, k, sp, label=""):
        """Loop over a list of copyable items by index, so that the body may `continue`."""
        self.applied.add("a for loop over a list of copyable items becomes an index loop")
        i, v = "__i%d" % k, "__v%d" % k
        return "let %s = %s; let mut %s: usize = 0; " % (v, its, i) + self.mk_while(
            "while %s < %s.len()" % (i, v), "let %s = %s[%s]; %s = %s + 1; %s" % (pat, v, i, i, i, body), sp, label)

    def iter_text(self, base, sp, k):
        """What loop k goes over. A fixed replacement has to say what it stands for."""
        its = self.r(base)
        f = sp.get("iter_as")
        if not f:
            return its
        if sp.get("iter_of") or f("x.iter()", base, self) == f("y.iter()", base, self):
            if re.sub(r"\s+", "", self.src.text(base)) not in [re.sub(r"\s+", "", x) for x in sp.get("iter_of", [])]:
                note = "%s: loop %d goes over %s" % (self.fn.qual, k, re.sub(r"\s+", " ", self.src.text(base)))
                self.u.structure.append(note)
                # the replacement says nothing about this text, so nothing proved with it counts
                self.u.unfounded.append(note)
        return f(its, base, self)

    def index_base(self, base):
        """X.iter()[.enumerate()][.rev()] over a place X, when index loops are asked for."""
        if "index" not in self.desugar:
            return None
        m = re.match(r"^([\w.\[\]]+?)\s*\.iter\(\)((?:\s*\.(?:rev|enumerate)\(\))*)$", self.src.text(base), re.S)
        if not m:
            m2 = re.match(r"^&\s*([\w.]+)$", self.src.text(base))
            return (m2.group(1), False, False) if m2 else None
        mods = re.findall(r"rev|enumerate", m.group(2))
        if mods in ([], ["rev"], ["enumerate"], ["enumerate", "rev"]):
            return m.group(1), "rev" in mods, "enumerate" in mods
        raise Unsupported("iterator " + self.src.text(base))

    def index_loop(self, ix, pat, body, k, sp, label=""):
        """Loop over the elements of X by index: same elements, same order."""
        x, rev, enum = ix
        i, j = "__i%d" % k, "__j%d" % k
        self.applied.add("loops over x.iter()[.enumerate()][.rev()] become index loops with let p = &x[i]")
        val = "(%s, &%s[%s])" % (j, x, j) if enum else "&%s[%s]" % (x, j)
        if rev:
            return "let mut %s: usize = %s.len(); " % (i, x) + self.mk_while(
                "while %s > 0" % i, "%s = %s - 1; let %s = %s; let %s = %s; %s" % (i, i, j, i, pat, val, body), sp, label)
        return "let mut %s: usize = 0; " % i + self.mk_while(
            "while %s < %s.len()" % (i, x), "let %s = %s; %s = %s + 1; let %s = %s; %s" % (j, i, i, i, pat, val, body), sp, label)

    def r_while(self, n):
        if self.mode != "verus":
            return None
        k, sp = self.loop_spec()
        label = "'%s: " % n["label"] if n.get("label") else ""
        return self.mk_while("while " + self.r(one(n, "cond")), self.inner(one(n, "body")), sp, label)

    def mk_while(self, head, body, sp, label=""):
        inv = ""
        sp = self.no_break(sp, body)
        if sp.get("inv_except_break"):
            inv += "\n    invariant_except_break " + sp["inv_except_break"].strip().rstrip(",") + ",\n"
        if sp.get("inv"):
            inv += "\n    invariant " + sp["inv"].strip().rstrip(",") + ",\n"
        if sp.get("ensures"):
            inv += "\n    ensures " + sp["ensures"].strip().rstrip(",") + ",\n"
        if sp.get("dec"):
            inv += "    decreases " + sp["dec"] + "\n"
        attr = self.hole(sp.get("attr", ""))
        return "%s%s%s%s %s{ %s %s %s }%s" % (self.hole(sp.get("before", "")), attr, label, head, self.hole(inv), self.hole(sp.get("start", "")), body,
                                         self.hole(sp.get("end", "")), self.hole(sp.get("after", "")))

    def r_loop(self, n):
        if self.mode != "verus":
            return None
        k, sp = self.loop_spec()
        label = "'%s: " % n["label"] if n.get("label") else ""
        return self.mk_while("loop", self.inner(one(n, "body")), sp, label)

    def cty_hole(self):
        t = self.loops.get(self.nloop, {}).get("cty", self.cty)
        return self.hole(": " + t if t else "")

    # -- iterator desugaring -----------------------------------------------------------------
    def closure_of(self, a):
        while a["k"] in ("paren", "group"):
            a = children(a)[0]
        if a["k"] == "path" and a["path"] in getattr(self, "closures", {}):
            return self.closures[a["path"]]
        return a if a["k"] == "closure" else None

    def consumer(self, n, pat, body, before="", after="", whole=False):
        """Loop over the receiver of n (or over n itself)."""
        k, sp = self.loop_spec()
        base, stages = self.pipeline(n if whole else one(n, "recv"))
        ix = self.index_base(base)
        mm = re.match(r"^([\w.\s]+?)\s*\.iter_mut\(\)$", self.src.text(base)) if "map_iter_mut" in self.desugar else None
        if not ix and not mm:
            it = self.iter_text(base, sp, k)
        pat, body = self.staged(stages, pat, body(k) if callable(body) else body, k, self.hole(sp.get("end", "")))
        if mm:
            self.applied.add("a loop over map.iter_mut() becomes a loop over its keys with value map.get_mut(key)")
            x = re.sub(r"\s+", "", mm.group(1))
            body = "let __k%d = &__ks%d[__i%d]; __i%d = __i%d + 1; let %s = (__k%d, get_mut_in(&mut %s, __k%d).unwrap()); %s" % (k, k, k, k, k, pat, k, x, k, body)
            return "{ let __ks%d = map_keys_vec(&%s); let mut __i%d: usize = 0; %s %s %s }" % (k, x, k, before, self.mk_while("while __i%d < __ks%d.len()" % (k, k), body, sp), after)
        if ix:
            return "{ %s %s %s }" % (before, self.index_loop(ix, pat, body, k, sp), after)
        if sp.get("indexed"):
            return "{ %s %s %s }" % (before, self.copied_loop(it, pat, body, k, sp), after)
        return "{ %s %s %s }" % (before, self.mk_for(pat, it, body, k, sp), after)

    def r_mcall(self, n):
        if self.mode == "verus":
            args = many(n, "arg")
            if "tail_list" in self.desugar and n["name"] in self.STAGES + ("sorted_by_key",) and self.is_tail(n) and self.pipeline(n)[1]:
                self.applied.add("an iterator that a function returns becomes the list of its elements")
                return self.consumer(n, "__x", "__c.push(__x);", "let mut __c%s = Vec::new();" % self.cty_hole(), "__c", whole=True)
            if n["name"] in self.desugar:
                if n["name"] == "fold" and len(args) == 2 and self.closure_of(args[1]):
                    c = self.closure_of(args[1])
                    acc, p = c["inputs"]
                    accn = re.sub(r"^mut\s+", "", self.src.text(acc))
                    accname = accn.split(":")[0].strip()
                    self.applied.add("it.fold(init, |acc, x| e) becomes { let mut acc = init; for x in it { acc = e; } acc }")
                    init = self.r(args[0])
                    if not re.match(r"^\w+$", accname):
                        return self.consumer(n, self.src.text(p), lambda k: "__acc = { let %s = __acc; %s };" % (accn, self.r(one(c, "body"))),
                                             "let mut __acc%s = %s;" % (self.cty_hole(), init), "__acc")
                    return self.consumer(n, self.src.text(p), lambda k: "%s = %s;" % (accname, self.r(one(c, "body"))),
                                         "let mut %s = %s;" % (accn, init), accname)
                if n["name"] == "try_fold" and len(args) == 2 and self.closure_of(args[1]):
                    c = self.closure_of(args[1])
                    m = re.match(r"^([\w.]+?)\s*\.iter_mut\(\)\s*\.rev\(\)$", self.src.text(one(n, "recv")), re.S)
                    if not m and not self.escapes(one(c, "body")) and len(c["inputs"]) == 2:
                        self.applied.add("it.try_fold(init, |acc, x| e) over Result or Option becomes a loop left when e is an error or None")
                        acc, p = [self.src.text(x) for x in c["inputs"]]
                        h = self.cty_hole()
                        bad, bad2, good = ("None", "None", "Some") if re.match(r"\s*Option\b", self.loops.get(self.nloop, {}).get("cty", self.cty) or "") else ("Err(__e)", "Err(__e)", "Ok")
                        return self.consumer(n, p, lambda k: "match __acc { %s => { __acc = %s; %s break; } %s(%s) => { __acc = %s; } }" % (bad, bad2, self.hole(self.loops.get(k, {}).get("brk", "")), good, acc, self.r(one(c, "body"))),
                                             "let mut __acc%s = %s(%s);" % (h, good, self.r(args[0])), "__acc")
                    if not m or self.escapes(one(c, "body")):
                        raise Unsupported("try_fold over " + self.src.text(one(n, "recv")))
                    self.applied.add("v.iter_mut().rev().try_fold(init, |acc, m| e) over Option becomes a backward index loop left when e is None")
                    acc, p = [self.src.text(x) for x in c["inputs"]]
                    k, sp = self.loop_spec()
                    x, i = m.group(1), "__i%d" % k
                    body = self.r(one(c, "body"))
                    return "{ let mut __acc = Some(%s); let mut %s: usize = %s.len(); %s __acc }" % (self.r(args[0]), i, x, self.mk_while(
                        "while %s > 0" % i, "%s = %s - 1; let %s = match __acc { Some(__a) => __a, None => { break; } }; let %s = &mut %s[%s]; __acc = %s; "
                        "if __acc.is_none() { %s break; }" % (i, i, acc, p, x, i, body, self.hole(sp.get("brk", ""))), sp))
                if n["name"] == "for_each" and len(args) == 1 and self.closure_of(args[0]):
                    c = self.closure_of(args[0])
                    self.applied.add("it.for_each(|x| e) becomes for x in it { e; }")
                    return self.consumer(n, self.src.text(c["inputs"][0]), lambda k: self.r(one(c, "body")) + ";")
                if n["name"] == "retain" and len(args) == 1 and self.closure_of(args[0]) and len(self.closure_of(args[0])["inputs"]) == 2:
                    c = self.closure_of(args[0])
                    if self.escapes(one(c, "body")):
                        raise Unsupported("retain closure with early exit")
                    self.applied.add("map.retain(|k, v| c) becomes a loop over its keys: take the value out, evaluate c, put it back if c")
                    k, sp = self.loop_spec()
                    recv = self.r(one(n, "recv"))
                    kp, vp = [self.src.text(x) for x in c["inputs"]]
                    shared = recv if re.match(r"^\w+$", recv) and recv in self.ref_params() else "&" + recv
                    body = self.r(one(c, "body"))
                    return "{ let __ks%d = map_keys_vec(%s); %s }" % (k, shared, self.mk_for(
                        "__k%d" % k, "__ks%d" % k,
                        "let mut __v%d = %s.remove(&__k%d).unwrap(); let __keep%d = { let %s = &__k%d; let %s = &mut __v%d; %s }; if __keep%d { %s.insert(__k%d, __v%d); }"
                        % (k, recv, k, k, kp, k, vp, k, body, k, recv, k, k), k, sp))
                if n["name"] == "max_by_key" and len(args) == 1 and self.closure_of(args[0]) and not self.escapes(one(self.closure_of(args[0]), "body")):
                    c = self.closure_of(args[0])
                    self.applied.add("it.max_by_key(key) becomes a loop keeping the last element whose key is not below the best so far")
                    kp = re.sub(r"^&\s*", "", self.src.text(c["inputs"][0]))
                    ref = "" if self.src.text(c["inputs"][0]).startswith("&") else "&"
                    kb = self.r(one(c, "body"))
                    key = lambda x: "{ let %s = %s%s; %s }" % (kp, ref, x, kb)
                    return self.consumer(n, "__x", lambda k: "let __up = match __best { None => true, Some(__b) => { let __kn = %s; let __kb = %s; __kn >= __kb } }; if __up { __best = Some(__x); }"
                                         % (key("__x"), key("__b")), "let mut __best%s = None;" % self.cty_hole(), "__best")
                if n["name"] == "sorted_by_key" and len(args) == 1 and self.closure_of(args[0]) and not self.escapes(one(self.closure_of(args[0]), "body")):
                    c = self.closure_of(args[0])
                    self.applied.add("it.sorted_by_key(key) becomes keyed_sort over the list of pairs of key and element")
                    return self.consumer(n, "__x", lambda k: "let __key = { let %s = &__x; %s }; __c.push((__key, __x));" % (self.src.text(c["inputs"][0]), self.r(one(c, "body"))),
                                         "let mut __c%s = Vec::new();" % self.cty_hole(), "keyed_sort(__c)")
                if n["name"] in ("position", "any", "all") and len(args) == 1 and self.closure_of(args[0]) and not self.escapes(one(self.closure_of(args[0]), "body")):
                    c = self.closure_of(args[0])
                    pt = self.src.text(c["inputs"][0])
                    if n["name"] == "position":
                        self.applied.add("it.position(p) becomes a loop with a counter, left at the first element that satisfies p")
                        return self.consumer(n, pt, lambda k: "if %s { __r = Some(__n); %s break; } __n = __n + 1;" % (self.r(one(c, "body")), self.hole(self.loops.get(k, {}).get("brk", ""))),
                                             "let mut __n: usize = 0; let mut __r: Option<usize> = None;", "__r")
                    neg = n["name"] == "all"
                    self.applied.add("it.%s(p) becomes a loop left at the first element that %s p" % (n["name"], "fails" if neg else "satisfies"))
                    return self.consumer(n, pt, lambda k: "if %s(%s) { __r = %s; %s break; }" % ("!" if neg else "", self.r(one(c, "body")), "false" if neg else "true", self.hole(self.loops.get(k, {}).get("brk", ""))),
                                         "let mut __r: bool = %s;" % ("true" if neg else "false"), "__r")
                if n["name"] == "next" and not args and self.pipeline(one(n, "recv"))[1]:
                    self.applied.add("pipeline.next() becomes a loop left at the first element that passes the stages")
                    return self.consumer(n, "__x", lambda k: "__r = Some(__x); break;", "let mut __r%s = None;" % self.cty_hole(), "__r")
                if n["name"] == "collect" and not args:
                    ty = self.src.text(n)[len(self.src.text(one(n, "recv"))):]
                    if "collect_set" in self.desugar or "collect" in self.desugar and re.search(r"::\s*<\s*HashSet\b", ty):
                        self.applied.add("it.collect() into a HashSet becomes { let mut s = HashSet::new(); for x in it { s.insert(x); } s }")
                        return self.consumer(n, "__x", lambda k: "__c.insert(__x);", "let mut __c%s = HashSet::new();" % self.cty_hole(), "__c")
                    if "collect_res" in self.desugar and re.search(r"::\s*<\s*Result\b", ty):
                        self.applied.add("it.collect() into a Result of a Vec becomes a loop left at the first error")
                        return self.consumer(n, "__x", lambda k: "match __x { Ok(__y) => { __c.push(__y); } Err(__e) => { __bad = Some(__e); %s break; } }" % self.hole(self.loops.get(k, {}).get("brk", "")),
                                             "let mut __c%s = Vec::new(); let mut __bad = None;" % self.cty_hole(), "match __bad { None => Ok(__c), Some(__e) => Err(__e) }")
                    if "collect_map" in self.desugar and re.search(r"::\s*<\s*(BTreeMap|HashMap)\b", ty):
                        self.applied.add("it.collect() into a map becomes { let mut m = new(); for (k, v) in it { m.insert(k, v); } m }")
                        return self.consumer(n, "(__k, __v)", lambda k: "__c.insert(__k, __v);", "let mut __c%s = %s::new();" % (self.cty_hole(), re.search(r"::\s*<\s*(BTreeMap|HashMap)\b", ty).group(1)), "__c")
                    if self.collect_vec:
                        self.applied.add("it.collect() into a Vec becomes { let mut v = Vec::new(); for x in it { v.push(x); } v }")
                        return self.consumer(n, "__x", lambda k: "__c.push(__x);", "let mut __c%s = Vec::new();" % self.cty_hole(), "__c")
            if "opt_" + n["name"] in self.desugar and args:
                t = self.opt_stage(n, args)
                if t is not None:
                    return t
            t = self.try_inline(n)
            if t is not None:
                return t
        return None

    OPT = dict(map="match {r} {{ Some({p}) => Some({b}), None => None }}", and_then="match {r} {{ Some({p}) => {b}, None => None }}",
               unwrap_or_else="match {r} {{ Some(__x) => __x, None => {b} }}", ok_or_else="match {r} {{ Some(__x) => Ok(__x), None => Err({b}) }}",
               map_or="match {r} {{ Some({p}) => {b}, None => {d} }}", or_else="match {r} {{ Some(__x) => Some(__x), None => {b} }}",
               is_some_and="match {r} {{ Some({p}) => {b}, None => false }}", map_err="match {r} {{ Ok(__x) => Ok(__x), Err({p}) => Err({b}) }}",
               res_map="match {r} {{ Ok({p}) => Ok({b}), Err(__x) => Err(__x) }}", res_and_then="match {r} {{ Ok({p}) => {b}, Err(__x) => Err(__x) }}",
               res_unwrap_or_else="match {r} {{ Ok(__x) => __x, Err({p}) => {b} }}", res_or_else="match {r} {{ Ok(__x) => Ok(__x), Err({p}) => {b} }}",
               res_map_or="match {r} {{ Ok({p}) => {b}, Err(_) => {d} }}",
               filter="match {r} {{ Some(__x) => {{ if {{ {q} {b} }} {{ Some(__x) }} else {{ None }} }} None => None }}")

    RESULT_FNS = ("try_from", "try_into", "parse", "map_err", "ok_or", "ok_or_else")

    def is_result(self, e):
        while e["k"] in ("paren", "group"):
            e = children(e)[0]
        if e["k"] == "mcall":
            if e["name"] == "collect" and re.search(r"::\s*<\s*Result\b", self.src.text(e)[len(self.src.text(one(e, "recv"))):]):
                return True
            return e["name"] in self.RESULT_FNS or e["name"] in self.u.result_fns or (e["name"] in ("map", "and_then", "or_else", "cloned", "copied") and self.is_result(one(e, "recv")))
        if e["k"] == "call":
            f = one(e, "func")
            return f["k"] == "path" and (f["path"].split("::")[-1] in self.RESULT_FNS or f["path"].split("::")[-1] in self.u.result_fns)
        if e["k"] == "if":
            t = one(e, "then")
            while t is not None and t["k"] not in ("call", "mcall", "if", "paren", "group"):
                c = children(t)
                t = c[-1] if c and t["k"] in ("block", "stmt", "stmt_expr", "expr_stmt") else None
            return t is not None and self.is_result(t)
        return False

    def bindref(self, pat, x):
        """let pat = &x"""
        m = re.match(r"^&\s*(\w+)$", pat)
        return "let %s = %s;" % (m.group(1), x) if m else "let %s = &%s;" % (pat, x)

    def opt_stage(self, n, args):
        c = self.closure_of(args[-1])
        key = "res_" + n["name"] if "res_" + n["name"] in self.OPT and self.is_result(one(n, "recv")) else n["name"]
        self.applied.add("option.%s(closure) becomes the corresponding match" % n["name"])
        if c is None:
            f = args[-1]
            if f["k"] == "path" and n["name"] in ("map", "map_err", "and_then"):
                return "(%s)" % self.OPT[key].format(r=self.r(one(n, "recv")), p="__y", b=self.src.text(f) + "(__y)", d="")
            return None
        if self.escapes(one(c, "body")):
            return None
        ps = [self.src.text(x).split(":")[0] for x in c["inputs"]]
        d = self.r(args[0]) if n["name"] == "map_or" else ""
        return "(%s)" % self.OPT[key].format(r=self.r(one(n, "recv")), p=ps[0] if ps else "", q=self.bindref(ps[0] if ps else "_", "__x"), b=self.r(one(c, "body")), d=d)

    def r_if(self, n):
        """if a && let p = e && b { T } without else becomes nested ifs."""
        if self.mode != "verus":
            return None
        def conj(e):
            if e["k"] == "binary" and self.src.text(*e["op"]) == "&&":
                return conj(one(e, "lhs")) + conj(one(e, "rhs"))
            return [e]
        cs = conj(one(n, "cond"))
        if len(cs) < 2 or not any(c["k"] == "let" for c in cs):
            return None
        el = one(n, "else")
        if el is not None:
            self.applied.add("if a && let p = e { .. } else { .. } becomes if a { if let p = e { .. } else { .. } } else { .. }")
            if any(x["k"] in ("for", "while", "loop") for x in self.walk_nc(el)):
                raise Unsupported("let chain with a loop in its else")
            e = " else { %s }" % self.r(el)
        else:
            self.applied.add("if a && let p = e { .. } becomes if a { if let p = e { .. } }")
            e = ""
        return "".join("if %s { " % self.r(c) for c in cs) + self.inner(one(n, "then")) + (" }" + e) * len(cs)

    def ref_params(self):
        out = set()
        for i in self.fn.node["inputs"]:
            if i.get("pat") and self.src.text(i["ty"]).lstrip().startswith("&"):
                out.add(self.src.text(i["pat"]))
        return out

    def r_match(self, n):
        if self.mode != "verus":
            return None
        arms = many(n, "arm")
        if "slice_match" in self.desugar and any(self.src.text(one(a, "pat")).startswith("&[") for a in arms):
            sc = self.r([c for c in children(n) if c["k"] != "arm" and c.get("r") != "arm"][0])
            self.applied.add("match on slice patterns &[a, b] becomes tests on the length and reads by index")
            out = ""
            for a in arms:
                pat = self.src.text(one(a, "pat"))
                m = re.match(r"^&\[([\w\s,]*)\]$", pat)
                if one(a, "guard"):
                    raise Unsupported("slice pattern with guard")
                if m:
                    names = [x.strip() for x in m.group(1).split(",") if x.strip()]
                    out += "if __s.len() == %d { %s %s } else " % (len(names), " ".join("let %s = __s[%d];" % (x, i) for i, x in enumerate(names)), self.r(one(a, "body")))
                elif re.match(r"^\w+$", pat):
                    return "{ let __s = %s; %s { let %s = __s; %s } }" % (sc, out, pat, self.r(one(a, "body")))
                else:
                    raise Unsupported("slice pattern " + pat)
        if "guard_mut" not in self.desugar:
            return None
        if not any(one(a, "guard") for a in arms):
            return None
        sc = self.src.text([c for c in children(n) if c["k"] != "arm" and c.get("r") != "arm"][0])
        if not re.search(r"\.(back|front|get)_mut\(", sc):
            return None
        self.applied.add("match with guards on x.back_mut() becomes a chain of tests on x.back()")
        shared = re.sub(r"\.(back|front|get)_mut\(", r".\1(", sc)
        out, closed = "", False
        for a in arms:
            pat = self.src.text(one(a, "pat"))
            g = one(a, "guard")
            body = self.r(one(a, "body"))
            if pat.strip() == "_" and not g:
                out += "{ %s }" % body
                closed = True
                break
            out += "if (match %s { %s => %s, _ => false }) { match %s { %s => { %s } _ => rt_panic() } } else " % (
                shared, pat, self.r(g) if g else "true", sc, pat, body)
        return out if closed else out + "{ rt_panic() }"

    def r_local(self, n):
        """A local closure is inlined at its calls."""
        i = one(n, "init")
        if self.mode == "verus" and "closure" in self.desugar and i is not None and i["k"] == "closure":
            nm = self.src.text(one(n, "pat"))
            if re.match(r"^\w+$", nm) and not self.escapes(one(i, "body")):
                self.closures[nm] = i
                self.applied.add("a local closure is inlined at its calls")
                return ""
        return None

    def r_call(self, n):
        if self.mode == "verus" and self.closures:
            f = one(n, "func")
            if f["k"] == "path" and f["path"] in self.closures:
                c = self.closures[f["path"]]
                args = many(n, "arg")
                return "{ %s %s }" % (" ".join("let %s = %s;" % (self.src.text(p), self.r(a)) for p, a in zip(c["inputs"], args)), self.r(one(c, "body")))
        if self.mode == "verus":
            return self.try_inline(n)
        return None

    # -- inlining of helpers without contracts -------------------------------------------------
    def resolve(self, n):
        if n["k"] == "call":
            f = one(n, "func")
            if f["k"] != "path":
                return None
            parts = f["path"].split("::")
            name = parts[-1]
            owner = None
            if len(parts) == 2 and (parts[0] == "Self" or parts[0][0].isupper()):
                owner = self.cur_owner() if parts[0] == "Self" else parts[0]
            elif len(parts) >= 2 and parts[0] not in ("self", "crate", "super"):
                return None
            cands = [(o, t, im, g) for o, t, im, g in self.src.fns() if g["name"] == name and o == owner]
            recv = None
        else:
            name = n["name"]
            recv = one(n, "recv")
            rt = self.src.text(recv)
            owner = self.cur_owner() if rt == "self" else None
            cands = [(o, t, im, g) for o, t, im, g in self.src.fns()
                     if g["name"] == name and o is not None and t is None and (owner is None or o == owner)
                     and g["inputs"] and g["inputs"][0]["self"]]
            if owner is None and len(cands) > 1:
                return None
            if owner is None and not re.match(r"^[\w.]+$", rt):
                return None
        if len(cands) != 1:
            return None
        o, t, im, g = cands[0]
        q = (o + "::" if o else "") + name
        if q in self.known or name in self.known or t is not None:
            return None
        if q in [x[0] for x in self.stack] or g is self.fn.node:
            return None  # recursion
        return q, o, g, recv

    def cur_owner(self):
        return self.stack[-1][1] if self.stack else self.fn.owner

    def try_inline(self, n):
        if not self.inline:
            return None
        res = self.resolve(n)
        if res is None:
            return None
        q, o, g, recv = res
        if not self.u.may_inline(q):
            return None
        for m in walk(g["body"]):
            if m["k"] in ("await", "async"):
                raise Unsupported("helper %s is async" % q)
        esc = self.escapes(g["body"])
        as_try = esc and n is getattr(self, "_try_child", None) and not any(
            m["k"] == "return" and not (children(m) and self.src.text(children(m)[0]).startswith("Err"))
            for m in self.walk_nc(g["body"]))
        as_tail = esc and self.is_tail(n)
        args = many(n, "arg")
        ins = list(g["inputs"])
        pre = ""
        if ins and ins[0]["self"]:
            selfin = ins.pop(0)
            if recv is None:
                return None
            rt = self.src.text(recv)
            if rt != "self":
                return None
        if len(ins) != len(args):
            return None
        self.applied.add("inline helper %s" % q)
        pats, tys, vals = [], [], []
        generic = any(p["kind"] != "lifetime" for p in g["gparams"])
        for i, a in zip(ins, args):
            pats.append(self.src.text(i["pat"]))
            ty = self.src.text(i["ty"])
            if "impl " in ty:
                generic = True
            ty = re.sub(r"'\w+\s*", "", ty)
            tys.append(ty)
            vals.append(self.r(a))
        self.stack.append((q, o))
        if esc and not as_try and not as_tail:
            body = self.noreturn(self.ordered(g["body"]), q)
        else:
            body = self.inner(g["body"])
        self.stack.pop()
        if o is not None and o != self.fn.owner:
            body = re.sub(r"\bSelf\b", o, body)
        if not pats:
            return "{ %s }" % body
        asc = "" if generic else ": (%s,)" % ", ".join(tys)
        return "{ let (%s,)%s = (%s,); %s }" % (", ".join(pats), asc, ", ".join(vals), body)

    def walk_nc(self, n):
        """walk, not entering closures"""
        yield n
        for c in children(n):
            if c["k"] != "closure":
                yield from self.walk_nc(c)

    def is_tail(self, n):
        """n is the value of the function under contract (not of an inlined helper)."""
        if self.stack:
            return False
        def tails(e):
            if e["k"] == "block":
                st = self.ordered(e)
                if st and st[-1]["k"] == "stmt_expr" and not st[-1]["semi"]:
                    yield from tails(children(st[-1])[0])
            elif e["k"] == "eblock":
                yield from tails(children(e)[0])
            elif e["k"] == "if":
                yield from tails(one(e, "then"))
                if one(e, "else"):
                    yield from tails(one(e, "else"))
            elif e["k"] == "match":
                for a in many(e, "arm"):
                    yield from tails(one(a, "body"))
            else:
                yield e
        if any(t is n for t in tails(self.fn.node["body"])):
            return True
        for m in self.walk_nc(self.fn.node["body"]):
            if m["k"] == "return" and children(m) and children(m)[0] is n:
                return True
        return False

    def r_try(self, n):
        c = children(n)[0]
        if self.mode == "verus" and c["k"] in ("call", "mcall"):
            old = getattr(self, "_try_child", None)
            self._try_child = c
            t = self.r(c)
            self._try_child = old
            return "(%s)%s" % (t, self.src.text(c["e"], n["e"])) if t.startswith("{") else t + self.src.text(c["e"], n["e"])
        return None

    def noreturn(self, stmts, q):
        """Statements with early returns as one expression text (if c { return X } rest -> if c { X } else { rest })."""
        out = []
        for i, st in enumerate(stmts):
            e = children(st)[0] if st["k"] == "stmt_expr" else None
            if not self.escapes(st):
                out.append(self.r(st))
                continue
            if e is not None and e["k"] == "return":
                out.append(self.r(children(e)[0]) if children(e) else "()")
                return " ".join(out)
            if e is not None and e["k"] == "if":
                last = i == len(stmts) - 1
                th = self.noreturn(self.ordered(one(e, "then")), q)
                els = one(e, "else")
                if els is None and not last and self.ends_return(one(e, "then")):
                    out.append("if %s { %s } else { %s }" % (self.r(one(e, "cond")), th, self.noreturn(stmts[i + 1:], q)))
                    return " ".join(out)
                if last and els is not None:
                    eb = children(els)[0] if els["k"] == "eblock" else None
                    el = self.noreturn(self.ordered(eb), q) if eb else self.noreturn([dict(k="stmt_expr", semi=False, s=els["s"], e=els["e"], c=[els])], q)
                    out.append("if %s { %s } else { %s }" % (self.r(one(e, "cond")), th, el))
                    return " ".join(out)
            if st["k"] == "local" and one(st, "else") is not None:
                eb = one(st, "else")
                eb = children(eb)[0] if eb["k"] == "eblock" else eb
                if self.ends_return(eb):
                    out.append("if let %s = %s { %s } else { %s }" % (
                        self.src.text(one(st, "pat")), self.r(one(st, "init")), self.noreturn(stmts[i + 1:], q),
                        self.noreturn(self.ordered(eb), q)))
                    return " ".join(out)
            raise Unsupported("helper %s has an early exit the engine cannot inline" % q)
        return " ".join(out)

    def ends_return(self, b):
        st = self.ordered(b)
        return bool(st) and st[-1]["k"] == "stmt_expr" and children(st[-1])[0]["k"] == "return"

    def escapes(self, b):
        def go(n):
            if n["k"] == "closure":
                return False
            if n["k"] in ("return", "try"):
                return True
            return any(go(c) for c in children(n))
        return go(b)

    # -- whole function ------------------------------------------------------------------------
    def body(self):
        b = self.fn.node["body"]
        t = self.inner(b)
        if self.end:
            st = self.ordered(b)
            if st and st[-1]["k"] == "stmt_expr" and not st[-1]["semi"] and self.fn.node["output"] is not None:
                # recompute with the tail bound to a name
                last = st[-1]
                # the tail was rendered last: find it by rendering again is unsafe (loop numbering); do it textually
                k = self.nloop
                tail = self.tail_text
                idx = t.rfind(tail)
                t = t[:idx] + "let __ret" + self.ret_type(tail) + " = " + tail + ";\n" + self.hole(self.end) + "\n__ret\n"
            else:
                t = t + "\n" + self.hole(self.end)
        return self.hole(self.start) + t

    def render_body(self):
        # remember the rendered text of the tail expression
        b = self.fn.node["body"]
        st = self.ordered(b)
        self.tail_text = None
        if st:
            last = st[-1]
            orig = self.r

            def spy(n):
                t = orig(n)
                if n is last:
                    self.tail_text = t
                return t
            self.r = spy
        t = self.body()
        return self.fill(self.sub(t))

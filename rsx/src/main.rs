//! rsx: prints the syntax tree of Rust files as JSON with byte spans, so that the
//! Python engine can cut items out of /repo verbatim and insert contracts at
//! syntax-determined places.  It never prints code itself.
use serde_json::{json, Map, Value};
use syn::spanned::Spanned;
use syn::*;

fn rg<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}
fn node<T: Spanned>(k: &str, t: &T) -> Map<String, Value> {
    let (s, e) = rg(t);
    let mut m = Map::new();
    m.insert("k".into(), json!(k));
    m.insert("s".into(), json!(s));
    m.insert("e".into(), json!(e));
    m
}
fn span<T: Spanned>(t: &T) -> Value {
    let (s, e) = rg(t);
    json!([s, e])
}
fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
fn attrs(a: &[Attribute]) -> Value {
    Value::Array(
        a.iter()
            .map(|x| json!({"s": rg(x).0, "e": rg(x).1, "path": path_str(x.path())}))
            .collect(),
    )
}
fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        _ => String::new(),
    }
}
fn pat(p: &Pat) -> Value {
    let k = match p {
        Pat::Ident(_) => "ident",
        Pat::Tuple(_) => "tuple",
        Pat::TupleStruct(_) => "tuplestruct",
        Pat::Struct(_) => "struct",
        Pat::Path(_) => "path",
        Pat::Wild(_) => "wild",
        Pat::Reference(_) => "ref",
        Pat::Type(_) => "type",
        Pat::Or(_) => "or",
        Pat::Lit(_) => "lit",
        Pat::Slice(_) => "slice",
        Pat::Range(_) => "range",
        Pat::Paren(_) => "paren",
        _ => "other",
    };
    let mut m = node(&format!("pat_{k}"), p);
    match p {
        Pat::Ident(i) => {
            m.insert("name".into(), json!(i.ident.to_string()));
            m.insert("mut".into(), json!(i.mutability.is_some()));
            m.insert("by_ref".into(), json!(i.by_ref.is_some()));
            if let Some((_, sp)) = &i.subpat {
                m.insert("c".into(), json!([pat(sp)]));
            }
        }
        Pat::Tuple(t) => {
            m.insert("c".into(), t.elems.iter().map(pat).collect());
        }
        Pat::TupleStruct(t) => {
            m.insert("path".into(), json!(path_str(&t.path)));
            m.insert("c".into(), t.elems.iter().map(pat).collect());
        }
        Pat::Struct(t) => {
            m.insert("path".into(), json!(path_str(&t.path)));
            m.insert("c".into(), t.fields.iter().map(|f| pat(&f.pat)).collect());
        }
        Pat::Reference(r) => {
            m.insert("c".into(), json!([pat(&r.pat)]));
        }
        Pat::Type(t) => {
            m.insert("c".into(), json!([pat(&t.pat)]));
            m.insert("ty".into(), span(&t.ty));
        }
        Pat::Or(t) => {
            m.insert("c".into(), t.cases.iter().map(pat).collect());
        }
        Pat::Slice(t) => {
            m.insert("c".into(), t.elems.iter().map(pat).collect());
        }
        Pat::Paren(t) => {
            m.insert("c".into(), json!([pat(&t.pat)]));
        }
        _ => {}
    }
    Value::Object(m)
}
fn role(mut v: Value, r: &str) -> Value {
    v.as_object_mut().unwrap().insert("r".into(), json!(r));
    v
}
fn mac(m0: &Macro, m: &mut Map<String, Value>) {
    m.insert("path".into(), json!(path_str(&m0.path)));
    let (s, e) = match &m0.delimiter {
        MacroDelimiter::Paren(p) => (p.span.open().byte_range().end, p.span.close().byte_range().start),
        MacroDelimiter::Brace(p) => (p.span.open().byte_range().end, p.span.close().byte_range().start),
        MacroDelimiter::Bracket(p) => (p.span.open().byte_range().end, p.span.close().byte_range().start),
    };
    m.insert("args_span".into(), json!([s, e]));
    if let Ok(args) = m0.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
        m.insert("c".into(), args.iter().map(|a| role(expr(a), "arg")).collect());
    } else if let Ok(mm) = m0.parse_body_with(|i: parse::ParseStream| {
        // matches!(expr, pat)
        let e: Expr = i.parse()?;
        i.parse::<Token![,]>()?;
        let _rest: proc_macro2::TokenStream = i.parse()?;
        Ok(e)
    }) {
        m.insert("c".into(), json!([role(expr(&mm), "arg")]));
    }
}
fn block(b: &Block) -> Value {
    let mut m = node("block", b);
    m.insert("c".into(), b.stmts.iter().map(stmt).collect());
    Value::Object(m)
}
fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => {
            let mut m = node("local", l);
            let mut c = vec![role(pat(&l.pat), "pat")];
            if let Some(i) = &l.init {
                c.push(role(expr(&i.expr), "init"));
                if let Some((_, d)) = &i.diverge {
                    c.push(role(expr(d), "else"));
                }
            }
            m.insert("c".into(), json!(c));
            Value::Object(m)
        }
        Stmt::Item(i) => item(i),
        Stmt::Expr(e, semi) => {
            let mut m = node("stmt_expr", s);
            m.insert("semi".into(), json!(semi.is_some()));
            m.insert("c".into(), json!([expr(e)]));
            Value::Object(m)
        }
        Stmt::Macro(mc) => {
            let mut m = node("stmt_macro", mc);
            m.insert("semi".into(), json!(mc.semi_token.is_some()));
            mac(&mc.mac, &mut m);
            Value::Object(m)
        }
    }
}
fn expr(e: &Expr) -> Value {
    let mut m;
    match e {
        Expr::Array(x) => {
            m = node("array", e);
            m.insert("c".into(), x.elems.iter().map(expr).collect());
        }
        Expr::Assign(x) => {
            m = node("assign", e);
            m.insert("c".into(), json!([role(expr(&x.left), "lhs"), role(expr(&x.right), "rhs")]));
        }
        Expr::Binary(x) => {
            m = node("binary", e);
            m.insert("op".into(), span(&x.op));
            m.insert("c".into(), json!([role(expr(&x.left), "lhs"), role(expr(&x.right), "rhs")]));
        }
        Expr::Block(x) => {
            m = node("eblock", e);
            m.insert("label".into(), json!(x.label.as_ref().map(|l| l.name.ident.to_string())));
            m.insert("c".into(), json!([block(&x.block)]));
        }
        Expr::Unsafe(x) => {
            m = node("unsafe", e);
            m.insert("c".into(), json!([block(&x.block)]));
        }
        Expr::Async(x) => {
            m = node("async", e);
            m.insert("c".into(), json!([block(&x.block)]));
        }
        Expr::Await(x) => {
            m = node("await", e);
            m.insert("c".into(), json!([expr(&x.base)]));
        }
        Expr::Break(x) => {
            m = node("break", e);
            m.insert("label".into(), json!(x.label.as_ref().map(|l| l.ident.to_string())));
            m.insert("c".into(), x.expr.iter().map(|b| expr(b)).collect());
        }
        Expr::Continue(x) => {
            m = node("continue", e);
            m.insert("label".into(), json!(x.label.as_ref().map(|l| l.ident.to_string())));
        }
        Expr::Call(x) => {
            m = node("call", e);
            let mut c = vec![role(expr(&x.func), "func")];
            c.extend(x.args.iter().map(|a| role(expr(a), "arg")));
            m.insert("c".into(), json!(c));
        }
        Expr::Cast(x) => {
            m = node("cast", e);
            m.insert("ty".into(), span(&x.ty));
            m.insert("c".into(), json!([expr(&x.expr)]));
        }
        Expr::Closure(x) => {
            m = node("closure", e);
            m.insert("move".into(), json!(x.capture.is_some()));
            m.insert("inputs".into(), x.inputs.iter().map(pat).collect());
            m.insert(
                "bars".into(),
                json!([x.or1_token.span.byte_range().start, x.or2_token.span.byte_range().end]),
            );
            m.insert(
                "output".into(),
                match &x.output {
                    ReturnType::Default => Value::Null,
                    ReturnType::Type(_, t) => span(t),
                },
            );
            m.insert("c".into(), json!([role(expr(&x.body), "body")]));
        }
        Expr::Field(x) => {
            m = node("field", e);
            m.insert(
                "name".into(),
                json!(match &x.member {
                    Member::Named(i) => i.to_string(),
                    Member::Unnamed(i) => i.index.to_string(),
                }),
            );
            m.insert("c".into(), json!([expr(&x.base)]));
        }
        Expr::ForLoop(x) => {
            m = node("for", e);
            m.insert("label".into(), json!(x.label.as_ref().map(|l| l.name.ident.to_string())));
            m.insert(
                "c".into(),
                json!([role(pat(&x.pat), "pat"), role(expr(&x.expr), "iter"), role(block(&x.body), "body")]),
            );
        }
        Expr::While(x) => {
            m = node("while", e);
            m.insert("label".into(), json!(x.label.as_ref().map(|l| l.name.ident.to_string())));
            m.insert("c".into(), json!([role(expr(&x.cond), "cond"), role(block(&x.body), "body")]));
        }
        Expr::Loop(x) => {
            m = node("loop", e);
            m.insert("label".into(), json!(x.label.as_ref().map(|l| l.name.ident.to_string())));
            m.insert("c".into(), json!([role(block(&x.body), "body")]));
        }
        Expr::Group(x) => {
            m = node("group", e);
            m.insert("c".into(), json!([expr(&x.expr)]));
        }
        Expr::If(x) => {
            m = node("if", e);
            let mut c = vec![role(expr(&x.cond), "cond"), role(block(&x.then_branch), "then")];
            if let Some((_, b)) = &x.else_branch {
                c.push(role(expr(b), "else"));
            }
            m.insert("c".into(), json!(c));
        }
        Expr::Index(x) => {
            m = node("index", e);
            m.insert("c".into(), json!([role(expr(&x.expr), "base"), role(expr(&x.index), "idx")]));
        }
        Expr::Let(x) => {
            m = node("let", e);
            m.insert("c".into(), json!([role(pat(&x.pat), "pat"), role(expr(&x.expr), "init")]));
        }
        Expr::Lit(x) => {
            m = node("lit", e);
            if let Lit::Int(i) = &x.lit {
                m.insert("int".into(), json!(i.base10_digits()));
            }
        }
        Expr::Macro(x) => {
            m = node("macro", e);
            mac(&x.mac, &mut m);
        }
        Expr::Match(x) => {
            m = node("match", e);
            let mut c = vec![role(expr(&x.expr), "scrut")];
            for a in &x.arms {
                let mut am = node("arm", a);
                let mut ac = vec![role(pat(&a.pat), "pat")];
                if let Some((_, g)) = &a.guard {
                    ac.push(role(expr(g), "guard"));
                }
                ac.push(role(expr(&a.body), "body"));
                am.insert("c".into(), json!(ac));
                am.insert("r".into(), json!("arm"));
                c.push(Value::Object(am));
            }
            m.insert("c".into(), json!(c));
        }
        Expr::MethodCall(x) => {
            m = node("mcall", e);
            m.insert("name".into(), json!(x.method.to_string()));
            m.insert("name_span".into(), span(&x.method));
            m.insert("dot".into(), json!(x.dot_token.span.byte_range().start));
            let mut c = vec![role(expr(&x.receiver), "recv")];
            c.extend(x.args.iter().map(|a| role(expr(a), "arg")));
            m.insert("c".into(), json!(c));
        }
        Expr::Paren(x) => {
            m = node("paren", e);
            m.insert("c".into(), json!([expr(&x.expr)]));
        }
        Expr::Path(x) => {
            m = node("path", e);
            m.insert("path".into(), json!(path_str(&x.path)));
        }
        Expr::Range(x) => {
            m = node("range", e);
            m.insert("incl".into(), json!(matches!(x.limits, RangeLimits::Closed(_))));
            let mut c = vec![];
            if let Some(a) = &x.start {
                c.push(role(expr(a), "lo"));
            }
            if let Some(a) = &x.end {
                c.push(role(expr(a), "hi"));
            }
            m.insert("c".into(), json!(c));
        }
        Expr::Reference(x) => {
            m = node("ref", e);
            m.insert("mut".into(), json!(x.mutability.is_some()));
            m.insert("c".into(), json!([expr(&x.expr)]));
        }
        Expr::Repeat(x) => {
            m = node("repeat", e);
            m.insert("c".into(), json!([expr(&x.expr), expr(&x.len)]));
        }
        Expr::Return(x) => {
            m = node("return", e);
            m.insert("c".into(), x.expr.iter().map(|b| expr(b)).collect());
        }
        Expr::Struct(x) => {
            m = node("struct", e);
            m.insert("path".into(), json!(path_str(&x.path)));
            let mut c: Vec<Value> = x
                .fields
                .iter()
                .map(|f| {
                    let mut v = role(expr(&f.expr), "fieldinit");
                    let o = v.as_object_mut().unwrap();
                    o.insert(
                        "field".into(),
                        json!(match &f.member {
                            Member::Named(i) => i.to_string(),
                            Member::Unnamed(i) => i.index.to_string(),
                        }),
                    );
                    o.insert("short".into(), json!(f.colon_token.is_none()));
                    v
                })
                .collect();
            if let Some(r) = &x.rest {
                c.push(role(expr(r), "rest"));
            }
            m.insert("c".into(), json!(c));
        }
        Expr::Try(x) => {
            m = node("try", e);
            m.insert("c".into(), json!([expr(&x.expr)]));
        }
        Expr::Tuple(x) => {
            m = node("tuple", e);
            m.insert("c".into(), x.elems.iter().map(expr).collect());
        }
        Expr::Unary(x) => {
            m = node("unary", e);
            m.insert("c".into(), json!([expr(&x.expr)]));
        }
        _ => {
            m = node("other", e);
        }
    }
    Value::Object(m)
}
fn generics(g: &Generics, m: &mut Map<String, Value>) {
    if let (Some(a), Some(b)) = (&g.lt_token, &g.gt_token) {
        m.insert("generics".into(), json!([a.span.byte_range().start, b.span.byte_range().end]));
    } else {
        m.insert("generics".into(), Value::Null);
    }
    let gp: Vec<Value> = g
        .params
        .iter()
        .map(|p| match p {
            GenericParam::Type(t) => json!({"kind": "type", "name": t.ident.to_string(), "span": span(p)}),
            GenericParam::Lifetime(t) => {
                json!({"kind": "lifetime", "name": t.lifetime.ident.to_string(), "span": span(p)})
            }
            GenericParam::Const(t) => json!({"kind": "const", "name": t.ident.to_string(), "span": span(p)}),
        })
        .collect();
    m.insert("gparams".into(), json!(gp));
    m.insert(
        "where".into(),
        g.where_clause.as_ref().map(|w| span(w)).unwrap_or(Value::Null),
    );
}
fn sig(s: &Signature, m: &mut Map<String, Value>) {
    m.insert("name".into(), json!(s.ident.to_string()));
    m.insert("ident".into(), span(&s.ident));
    m.insert("sig".into(), span(s));
    m.insert("const".into(), json!(s.constness.map(|c| span(&c))));
    m.insert("async".into(), json!(s.asyncness.is_some()));
    generics(&s.generics, m);
    let ins: Vec<Value> = s
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => {
                json!({"self": true, "ref": r.reference.is_some(), "mut": r.mutability.is_some(), "s": rg(r).0, "e": rg(r).1})
            }
            FnArg::Typed(t) => {
                json!({"self": false, "pat": pat(&t.pat), "ty": span(&t.ty), "s": rg(t).0, "e": rg(t).1})
            }
        })
        .collect();
    m.insert("inputs".into(), json!(ins));
    m.insert(
        "paren".into(),
        json!([s.paren_token.span.open().byte_range().start, s.paren_token.span.close().byte_range().end]),
    );
    m.insert(
        "output".into(),
        match &s.output {
            ReturnType::Default => Value::Null,
            ReturnType::Type(_, t) => span(t),
        },
    );
}
fn item(i: &Item) -> Value {
    let mut m;
    match i {
        Item::Fn(f) => {
            m = node("fn", i);
            m.insert("attrs".into(), attrs(&f.attrs));
            m.insert("vis".into(), span(&f.vis));
            sig(&f.sig, &mut m);
            m.insert("body".into(), block(&f.block));
        }
        Item::Struct(x) => {
            m = node("item_struct", i);
            m.insert("name".into(), json!(x.ident.to_string()));
            m.insert("attrs".into(), attrs(&x.attrs));
            m.insert("vis".into(), span(&x.vis));
            m.insert("tok".into(), json!(x.struct_token.span.byte_range().start));
            generics(&x.generics, &mut m);
            m.insert(
                "fields".into(),
                x.fields
                    .iter()
                    .map(|f| {
                        json!({"name": f.ident.as_ref().map(|i| i.to_string()), "ty": span(&f.ty), "s": rg(f).0, "e": rg(f).1,
                               "vis": span(&f.vis), "attrs": attrs(&f.attrs)})
                    })
                    .collect(),
            );
        }
        Item::Enum(x) => {
            m = node("item_enum", i);
            m.insert("name".into(), json!(x.ident.to_string()));
            m.insert("attrs".into(), attrs(&x.attrs));
            m.insert("vis".into(), span(&x.vis));
            m.insert("tok".into(), json!(x.enum_token.span.byte_range().start));
            generics(&x.generics, &mut m);
            m.insert(
                "variants".into(),
                x.variants
                    .iter()
                    .map(|v| {
                        json!({"name": v.ident.to_string(), "s": rg(v).0, "e": rg(v).1, "attrs": attrs(&v.attrs),
                        "fields": v.fields.iter().map(|f| json!({"attrs": attrs(&f.attrs), "s": rg(f).0, "e": rg(f).1})).collect::<Vec<_>>()})
                    })
                    .collect(),
            );
        }
        Item::Impl(x) => {
            m = node("impl", i);
            m.insert("attrs".into(), attrs(&x.attrs));
            m.insert("self_ty".into(), json!(ty_name(&x.self_ty)));
            m.insert("self_span".into(), span(&x.self_ty));
            m.insert(
                "trait".into(),
                x.trait_
                    .as_ref()
                    .map(|(_, p, _)| json!({"name": p.segments.last().unwrap().ident.to_string(), "span": span(p)}))
                    .unwrap_or(Value::Null),
            );
            m.insert("brace".into(), json!(x.brace_token.span.open().byte_range().start));
            generics(&x.generics, &mut m);
            m.insert(
                "items".into(),
                x.items
                    .iter()
                    .map(|ii| match ii {
                        ImplItem::Fn(f) => {
                            let mut n = node("fn", ii);
                            n.insert("attrs".into(), attrs(&f.attrs));
                            n.insert("vis".into(), span(&f.vis));
                            sig(&f.sig, &mut n);
                            n.insert("body".into(), block(&f.block));
                            Value::Object(n)
                        }
                        ImplItem::Const(c) => {
                            let mut n = node("const", ii);
                            n.insert("name".into(), json!(c.ident.to_string()));
                            n.insert("attrs".into(), attrs(&c.attrs));
                            Value::Object(n)
                        }
                        ImplItem::Type(c) => {
                            let mut n = node("type", ii);
                            n.insert("name".into(), json!(c.ident.to_string()));
                            n.insert("attrs".into(), attrs(&c.attrs));
                            Value::Object(n)
                        }
                        _ => Value::Object(node("other", ii)),
                    })
                    .collect(),
            );
        }
        Item::Trait(x) => {
            m = node("trait", i);
            m.insert("name".into(), json!(x.ident.to_string()));
            m.insert("attrs".into(), attrs(&x.attrs));
            m.insert(
                "items".into(),
                x.items
                    .iter()
                    .map(|ii| match ii {
                        TraitItem::Fn(f) => {
                            let mut n = node("fn", ii);
                            n.insert("attrs".into(), attrs(&f.attrs));
                            sig(&f.sig, &mut n);
                            n.insert("body".into(), f.default.as_ref().map(block).unwrap_or(Value::Null));
                            Value::Object(n)
                        }
                        _ => Value::Object(node("other", ii)),
                    })
                    .collect(),
            );
        }
        Item::Mod(x) => {
            m = node("mod", i);
            m.insert("name".into(), json!(x.ident.to_string()));
            m.insert("attrs".into(), attrs(&x.attrs));
            m.insert(
                "items".into(),
                x.content.as_ref().map(|(_, v)| v.iter().map(item).collect()).unwrap_or(Value::Null),
            );
        }
        Item::Const(x) => {
            m = node("const", i);
            m.insert("name".into(), json!(x.ident.to_string()));
            m.insert("attrs".into(), attrs(&x.attrs));
            m.insert("ty".into(), span(&x.ty));
            m.insert("c".into(), json!([expr(&x.expr)]));
        }
        Item::Static(x) => {
            m = node("static", i);
            m.insert("name".into(), json!(x.ident.to_string()));
            m.insert("attrs".into(), attrs(&x.attrs));
        }
        Item::Type(x) => {
            m = node("type", i);
            m.insert("name".into(), json!(x.ident.to_string()));
            m.insert("attrs".into(), attrs(&x.attrs));
        }
        Item::Use(x) => {
            m = node("use", i);
            m.insert("attrs".into(), attrs(&x.attrs));
        }
        Item::Macro(x) => {
            m = node("item_macro", i);
            m.insert("attrs".into(), attrs(&x.attrs));
        }
        _ => {
            m = node("other_item", i);
        }
    }
    Value::Object(m)
}
fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let as_expr = args.first().map(|a| a == "--fn").unwrap_or(false);
    if as_expr {
        args.remove(0);
    }
    let mut out = Map::new();
    for a in &args {
        let src = std::fs::read(a).expect("read");
        let src = String::from_utf8(src).expect("utf8");
        match syn::parse_file(&src) {
            Ok(f) => {
                let items: Vec<Value> = f.items.iter().map(item).collect();
                out.insert(a.clone(), json!({"items": items}));
            }
            Err(e) => {
                out.insert(a.clone(), json!({"error": e.to_string()}));
            }
        }
    }
    println!("{}", Value::Object(out));
}

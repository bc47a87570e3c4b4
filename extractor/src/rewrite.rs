use crate::printer::{print, Marks};
use crate::{die, norm, Ctx, FnDirective};
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use std::fs;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- lookup

fn load(ctx: &Ctx, file: &str) -> File {
    let p = ctx.repo.join(file);
    let text = fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("{p:?}: {e}")));
    parse_file(&text).unwrap_or_else(|e| die(&format!("{p:?}: {e}")))
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = norm(&a.to_token_stream().to_string());
        t.contains("cfg(test)") || t.contains("#[test]") || t.contains("finquant_verif")
    })
}

fn all_items<'a>(items: &'a [Item], out: &mut Vec<&'a Item>) {
    for it in items {
        match it {
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, inner)) = &m.content {
                    all_items(inner, out);
                }
            }
            Item::Mod(_) => {}
            _ => {
                out.push(it);
                match it {
                    Item::Fn(f) if !is_test(&f.attrs) => inner_items(&f.block, out),
                    Item::Impl(im) if !is_test(&im.attrs) => {
                        for ii in &im.items {
                            if let ImplItem::Fn(f) = ii { inner_items(&f.block, out); }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
}
/// functions declared inside a function body
fn inner_items<'a>(b: &'a Block, out: &mut Vec<&'a Item>) {
    for s in &b.stmts {
        if let Stmt::Item(it @ Item::Fn(f)) = s { out.push(it); inner_items(&f.block, out); }
    }
}

fn find_fn(file: &File, path: &str) -> Option<(Signature, Block)> {
    let mut items = vec![];
    all_items(&file.items, &mut items);
    if let Some(name) = path.strip_prefix("fn ") {
        for it in &items {
            if let Item::Fn(f) = it {
                if f.sig.ident == name.trim() && !is_test(&f.attrs) {
                    return Some((f.sig.clone(), (*f.block).clone()));
                }
            }
        }
        return None;
    }
    let (head, name) = path.rsplit_once("::")?;
    let name = name.trim();
    let head = norm(head);
    for it in &items {
        match it {
            Item::Trait(t) if head == format!("trait{}", t.ident) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if f.sig.ident == name {
                            return f.default.clone().map(|b| (f.sig.clone(), b));
                        }
                    }
                }
            }
            Item::Impl(im) => {
                let st = norm(&im.self_ty.to_token_stream().to_string());
                let h = match &im.trait_ {
                    Some((_, p, _)) => format!("impl{}for{}", norm(&p.to_token_stream().to_string()), st),
                    None => format!("impl{st}"),
                };
                if h == head {
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            if f.sig.ident == name {
                                return Some((f.sig.clone(), f.block.clone()));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

/// any function of that name in the file (for helper inlining); unique or none
fn find_helper(file: &File, name: &str) -> Option<(Signature, Block)> {
    let mut items = vec![];
    all_items(&file.items, &mut items);
    let mut found = vec![];
    for it in &items {
        match it {
            Item::Fn(f) if f.sig.ident == name && !is_test(&f.attrs) => found.push((f.sig.clone(), (*f.block).clone())),
            Item::Trait(t) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                found.push((f.sig.clone(), b.clone()));
                            }
                        }
                    }
                }
            }
            Item::Impl(im) => {
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            found.push((f.sig.clone(), f.block.clone()));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if found.len() == 1 {
        found.pop()
    } else {
        None
    }
}

// ---------------------------------------------------------------- types

struct TypeMap<'a> {
    ctx: &'a Ctx,
}
impl VisitMut for TypeMap<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = norm(&t.to_token_stream().to_string());
        for (a, b) in &self.ctx.types {
            if *a == s {
                *t = parse_str(b).unwrap_or_else(|e| die(&format!("type {b}: {e}")));
                return;
            }
        }
        if self.ctx.float && s == "f64" {
            *t = parse_quote!(R);
            return;
        }
        visit_mut::visit_type_mut(self, t);
        // crate::a::b::T -> T
        if let Type::Path(p) = t {
            strip_path(&mut p.path);
        }
    }
}

fn strip_path(p: &mut Path) {
    if p.leading_colon.is_none() && p.segments.len() > 1 {
        let first = p.segments[0].ident.to_string();
        if matches!(first.as_str(), "crate" | "super" | "std" | "self" | "chrono" | "core") {
            let segs: Vec<PathSegment> = p
                .segments
                .iter()
                .cloned()
                .skip_while(|s| {
                    let t = s.ident.to_string();
                    t.chars().next().map(|c| c.is_lowercase()).unwrap_or(false) && t != "f64"
                })
                .collect();
            if segs.is_empty() {
                let last = p.segments.last().unwrap().clone();
                p.segments = std::iter::once(last).collect();
            } else {
                p.segments = segs.into_iter().collect();
            }
        }
    }
}

// ---------------------------------------------------------------- items

pub fn emit_item(ctx: &mut Ctx, file: &str, path: &str, derive: &str) -> String {
    let f = load(ctx, file);
    let mut items = vec![];
    all_items(&f.items, &mut items);
    let (kind, name) = path.split_once(' ').unwrap_or_else(|| die("bad //@item path"));
    for it in items {
        match it {
            Item::Enum(e) if kind == "enum" && e.ident == name => {
                let mut e = e.clone();
                e.attrs.clear();
                for v in &mut e.variants {
                    v.attrs.clear();
                    for fl in v.fields.iter_mut() {
                        fl.attrs.clear();
                    }
                }
                e.vis = parse_quote!(pub);
                TypeMap { ctx }.visit_item_enum_mut(&mut e);
                ctx.report.push(format!("item {file} enum {name}"));
                return format!("{derive}\n{}\n", print(e.to_token_stream(), &Marks { loops: Default::default(), texts: vec![] }));
            }
            Item::Struct(s) if kind == "struct" && s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                for fl in s.fields.iter_mut() {
                    fl.attrs.clear();
                    fl.vis = parse_quote!(pub);
                }
                s.vis = parse_quote!(pub);
                TypeMap { ctx }.visit_item_struct_mut(&mut s);
                ctx.report.push(format!("item {file} struct {name}"));
                return format!("{derive}\n{}\n", print(s.to_token_stream(), &Marks { loops: Default::default(), texts: vec![] }));
            }
            Item::Const(c) if kind == "const" && c.ident == name => {
                let mut c = c.clone();
                c.attrs.clear();
                // emitted as a nullary exec function whose contract is its own value
                let mut texts = vec![];
                let mut ids = Ids::default();
                let flags = BTreeSet::new();
                let mut rw = Rw::new(ctx, &f, &mut ids, &mut texts, &flags);
                let mut e = (*c.expr).clone();
                rw.visit_expr_mut(&mut e);
                let mut ty = (*c.ty).clone();
                TypeMap { ctx }.visit_type_mut(&mut ty);
                let m = Marks { loops: Default::default(), texts };
                let isf = norm(&c.ty.to_token_stream().to_string()) == "f64";
                ctx.report.push(format!("item {file} const {name}"));
                ctx.consts.insert(name.to_string());
                if isf {
                    let v = float_spec(&c.expr).unwrap_or_else(|| die(&format!("const {name}: not a float literal")));
                    return format!(
                        "pub open spec fn spec_{name}() -> real {{ {v} }}\npub fn const_{name}() -> (r: R) ensures r@ == spec_{name}() {{ {} }}\n",
                        print(e.to_token_stream(), &m)
                    );
                }
                return format!("pub const {name}: {} = {};\n", print(ty.to_token_stream(), &m), print(e.to_token_stream(), &m));
            }
            _ => {}
        }
    }
    die(&format!("item not found: {file} {path}"))
}

/// `//@table file NAME`: a static array of integer literals becomes a spec
/// sequence `NAME_spec()` and `NAME[i]` a call whose contract is indexing it
pub fn emit_table(ctx: &mut Ctx, r: &str) -> String {
    let (file, name) = r.trim().split_once(' ').unwrap_or_else(|| die("bad //@table"));
    let (file, name) = (file.trim(), name.trim());
    let f = load(ctx, file);
    let mut items = vec![];
    all_items(&f.items, &mut items);
    for it in items {
        let (id, ty, ex) = match it {
            Item::Static(s) => (&s.ident, &s.ty, &s.expr),
            Item::Const(s) => (&s.ident, &s.ty, &s.expr),
            _ => continue,
        };
        if id != name {
            continue;
        }
        let (Type::Array(ta), Expr::Array(ea)) = (&**ty, &**ex) else { die(&format!("table {name}: not an array literal")) };
        let et = norm(&ta.elem.to_token_stream().to_string());
        let n = norm(&ta.len.to_token_stream().to_string());
        let mut v = vec![];
        for e in &ea.elems {
            match e {
                Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => v.push(i.base10_digits().to_string()),
                _ => die(&format!("table {name}: not an integer literal")),
            }
        }
        if n != v.len().to_string() {
            die(&format!("table {name}: length"));
        }
        ctx.report.push(format!("item {file} table {name} ({} entries)", v.len()));
        return format!(
            "pub open spec fn {name}_len() -> int {{ {n} }}\npub open spec fn {name}_spec() -> Seq<int> {{ seq![{}] }}\n#[verifier::external_body]\npub fn {name}_at(i: usize) -> (r: {et}) requires i < {n} ensures r == {name}_spec()[i as int] {{ unimplemented!() }}\n",
            v.join(", ")
        );
    }
    die(&format!("item not found: {file} table {name}"))
}

fn float_spec(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => Some(real_text(f.base10_digits())),
        Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => Some(format!("(-{})", float_spec(expr)?)),
        Expr::Paren(p) => float_spec(&p.expr),
        _ => None,
    }
}

/// decimal text -> exact rational over Verus `real`
pub fn real_text(d: &str) -> String {
    let d = d.replace('_', "");
    let (m, e) = match d.find(|c| c == 'e' || c == 'E') {
        Some(p) => (d[..p].to_string(), d[p + 1..].parse::<i32>().unwrap_or_else(|_| die("float literal"))),
        None => (d.clone(), 0),
    };
    let (ip, fp) = match m.split_once('.') {
        Some((a, b)) => (a.to_string(), b.trim_end_matches('0').to_string()),
        None => (m, String::new()),
    };
    let digits = format!("{ip}{fp}");
    let digits = digits.trim_start_matches('0');
    let digits = if digits.is_empty() { "0" } else { digits };
    let exp = e - fp.len() as i32;
    if digits == "0" {
        "0real".into()
    } else if exp >= 0 {
        format!("{digits}{}real", "0".repeat(exp as usize))
    } else {
        format!("({digits}real/1{}real)", "0".repeat((-exp) as usize))
    }
}

// ---------------------------------------------------------------- functions

#[derive(Default)]
struct Ids {
    loops: usize,
    closures: usize,
    tmp: usize,
}

pub fn emit_fn(ctx: &mut Ctx, d: &FnDirective) -> String {
    let file = load(ctx, &d.file);
    let (sig, mut block) = find_fn(&file, &d.path).unwrap_or_else(|| die(&format!("function not found: {} {}", d.file, d.path)));
    let raw_body = block.to_token_stream().to_string();

    // signature
    let mut params = String::new();
    let mut prologue = TokenStream::new();
    let mut mut_self = false;
    let mut pi = 0;
    for inp in &sig.inputs {
        if !params.is_empty() {
            params.push_str(", ");
        }
        match inp {
            FnArg::Receiver(r) => {
                let t = if d.flags.contains("self-by-ref") {
                    quote!(&self)
                } else if let (Some(_), m) = (&r.reference, r.mutability.is_some()) {
                    if m { quote!(&mut self) } else { quote!(&self) }
                } else if r.mutability.is_some() {
                    mut_self = true;
                    quote!(self)
                } else {
                    quote!(self)
                };
                params.push_str(&t.to_string().replace(' ', "").replace("&mutself", "&mut self"));
            }
            FnArg::Typed(pt) => {
                let mut ty = (*pt.ty).clone();
                TypeMap { ctx }.visit_type_mut(&mut ty);
                let tys = print(ty.to_token_stream(), &nomarks());
                let pn: Option<(String, bool)> = match &*pt.pat {
                    Pat::Ident(pid) => Some((pid.ident.to_string(), pid.mutability.is_some())),
                    _ => None,
                };
                let want = match &d.params {
                    Some(ps) => ps.get(pi).cloned().unwrap_or_else(|| die(&format!("{}: parameter count changed", d.path))),
                    None => pn.clone().map(|x| x.0).unwrap_or_else(|| format!("__p{pi}")),
                };
                params.push_str(&format!("{want}: {tys}"));
                let w = Ident::new(&want, Span::call_site());
                match pn {
                    Some((n, m)) if n == want && !m => {}
                    // a `&mut` parameter keeps its place under the contract's name: rename it throughout the body
                    Some((n, false)) if matches!(&*pt.ty, Type::Reference(r) if r.mutability.is_some()) && rename_ok(&block, &n, &want) => {
                        RenameVar { from: n, to: w }.visit_block_mut(&mut block);
                    }
                    _ => {
                        let pat = &pt.pat;
                        prologue.extend(quote!(let #pat = #w;));
                    }
                }
                pi += 1;
            }
        }
    }
    if let Some(ps) = &d.params {
        if ps.len() != pi {
            die(&format!("{}: parameter count changed", d.path));
        }
    }
    let retty = match (&d.retty, &sig.output) {
        (Some(t), _) => Some(t.clone()),
        (None, ReturnType::Default) => None,
        (None, ReturnType::Type(_, t)) => {
            let mut t = (**t).clone();
            TypeMap { ctx }.visit_type_mut(&mut t);
            Some(print(t.to_token_stream(), &nomarks()))
        }
    };

    // body
    for (a, b) in &d.subst {
        let mut s = Subst { from: a.clone(), to: parse_str(b).unwrap_or_else(|e| die(&format!("subst {b}: {e}"))), n: 0 };
        s.visit_block_mut(&mut block);
        if s.n == 0 {
            die(&format!("{}: lost anchor: substitution `{a}` matches nothing", d.path));
        }
    }
    if !d.locals.is_empty() {
        LocalTypes(&d.locals).visit_block_mut(&mut block);
    }
    let self_name = sig.ident.to_string();
    if !d.flags.contains("no-inline") {
        let mut inl = Inliner { known: &ctx.known, file: &file, depth: 0, stack: vec![self_name.clone()], n: 0, fail: None };
        inl.visit_block_mut(&mut block);
        if let Some(f) = inl.fail {
            die(&f);
        }
        if inl.n > 0 {
            ctx.report.push(format!("inlined {} helper call(s) in {}", inl.n, d.path));
        }
    }
    let mut ids = Ids::default();
    let mut texts: Vec<String> = vec![];
    {
        let mut rw = Rw::new(ctx, &file, &mut ids, &mut texts, &d.flags);
        rw.closure_specs = d.closures.clone();
        let mut refs = Refs(BTreeSet::new());
        for inp in &sig.inputs {
            if let FnArg::Typed(pt) = inp {
                if let (Pat::Ident(p), Type::Reference(_)) = (&*pt.pat, &*pt.ty) {
                    refs.0.insert(p.ident.to_string());
                }
            }
        }
        visit::Visit::visit_block(&mut refs, &block);
        rw.refs = refs.0;
        rw.visit_block_mut(&mut block);
    }
    // types of the accumulators the rewriting introduced
    if d.locals.keys().any(|k| k.starts_with("__")) {
        LocalTypes(&d.locals.iter().filter(|(k, _)| k.starts_with("__")).map(|(a, b)| (a.clone(), b.clone())).collect()).visit_block_mut(&mut block);
    }
    // ghost text at call sites
    for (name, text) in &d.sites {
        texts.push(text.clone());
        let n = texts.len() - 1;
        let mut s = Site { name: name.clone(), mark: n, n: 0 };
        s.visit_block_mut(&mut block);
        if s.n == 0 {
            die(&format!("{}: lost anchor: site `{name}`", d.path));
        }
    }
    if !d.retproof.trim().is_empty() {
        texts.push(d.retproof.clone());
        let n = texts.len() - 1;
        let mark = format_ident!("__VTEXT_{}", n);
        let r = Ident::new(&d.ret, Span::call_site());
        let mut ex = Exit { mark: mark.clone(), ret: r.clone() };
        ex.visit_block_mut(&mut block);
        if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
            block.stmts.pop();
            let b: Block = parse_quote!({ let #r = #e; #mark; #r });
            block.stmts.extend(b.stmts);
        }
    }
    for k in d.loops.keys() {
        if *k >= ids.loops {
            die(&format!("{}: lost anchor: loop {k} (body has {} loops)", d.path, ids.loops));
        }
    }
    let annotated = d.loops.len();
    if ids.loops > annotated {
        die(&format!("{}: {} loops but {annotated} annotated", d.path, ids.loops));
    }
    // a `mut self` receiver: Verus takes the parameter immutable and a mutable copy
    if mut_self {
        RenameVar { from: "self".into(), to: format_ident!("__me") }.visit_block_mut(&mut block);
        prologue.extend(quote!(let mut __me = self;));
    }
    let marks = Marks { loops: d.loops.clone(), texts };
    let stmts = &block.stmts;
    let body = print(quote!(#prologue #(#stmts)*), &marks);
    let name = d.name.clone().unwrap_or(self_name.clone());
    let ret = match retty {
        Some(t) => format!(" -> ({}: {})", d.ret, t),
        None => String::new(),
    };
    // a type parameter bound by a Fn trait is bound by the trait that specifies it
    let mut sig = sig.clone();
    for (a, b) in &d.bounds {
        let mut hit = false;
        // `-`: //@type gives the parameter one model type, so it goes
        if b == "-" {
            let n = sig.generics.params.len();
            sig.generics.params = sig.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == a)).cloned().collect();
            if sig.generics.params.len() == n { die(&format!("{}: lost anchor: type parameter `{a}`", d.path)); }
            continue;
        }
        for p in sig.generics.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                if t.ident == a {
                    t.bounds.clear();
                    t.bounds.push(parse_str(b).unwrap_or_else(|e| die(&format!("bound {b}: {e}"))));
                    hit = true;
                }
            }
        }
        if !hit { die(&format!("{}: lost anchor: type parameter `{a}`", d.path)); }
    }
    let gens = if sig.generics.params.is_empty() { String::new() } else { print(sig.generics.to_token_stream(), &nomarks()) };
    ctx.report.push(format!("fn {} {} loops={} bytes={}", d.file, d.path, ids.loops, raw_body.len()));
    let f = format!(
        "// extracted: {} {}\npub fn {name}{gens}({params}){ret}\n{}\n{{\n{}\n{body}\n}}\n",
        d.file, d.path, d.spec, d.entry
    );
    if d.into.is_empty() {
        f
    } else {
        let (hd, is_trait) = (d.into.clone(), d.into.contains(" for "));
        let f = if is_trait { f.replacen("pub fn", "fn", 1) } else { f };
        if hd.contains('{') {
            format!("{hd}\n{f}}}\n")
        } else {
            format!("{hd} {{\n{f}}}\n")
        }
    }
}

fn nomarks() -> Marks {
    Marks { loops: Default::default(), texts: vec![] }
}

/// no binding of `n` in the body, and `want` not mentioned there
fn rename_ok(b: &Block, n: &str, want: &str) -> bool {
    struct Look<'a>(&'a str, &'a str, bool);
    impl<'a, 'b> visit::Visit<'b> for Look<'a> {
        fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) {
            if p.ident == self.0 || p.ident == self.1 { self.2 = false; }
            visit::visit_pat_ident(self, p);
        }
        fn visit_expr_path(&mut self, p: &'b syn::ExprPath) {
            if p.path.is_ident(self.1) { self.2 = false; }
        }
    }
    let mut l = Look(n, want, true);
    visit::Visit::visit_block(&mut l, b);
    l.2
}
struct RenameVar { from: String, to: Ident }
impl VisitMut for RenameVar {
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() && matches!(&f.expr, Expr::Path(p) if p.path.is_ident(&self.from)) {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() && p.path.is_ident(&self.from) {
            let i = self.to.clone();
            p.path = parse_quote!(#i);
        }
    }
}
struct Subst {
    from: String,
    to: Expr,
    n: usize,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if norm(&e.to_token_stream().to_string()) == self.from {
            *e = self.to.clone();
            self.n += 1;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Site {
    name: String,
    mark: usize,
    n: usize,
}
impl VisitMut for Site {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mark = format_ident!("__VTEXT_{}", self.mark);
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            let simple = matches!(s, Stmt::Local(_) | Stmt::Expr(Expr::Call(_) | Expr::MethodCall(_) | Expr::Assign(_) | Expr::Return(_) | Expr::Try(_) | Expr::Binary(_), _));
            // of a match or an if, the part that is evaluated first
            let head = match &s {
                Stmt::Expr(Expr::Match(m), _) => Some(m.expr.to_token_stream()),
                Stmt::Expr(Expr::If(i), _) => Some(i.cond.to_token_stream()),
                _ => None,
            };
            let simple = simple || head.is_some();
            let t = norm(&head.unwrap_or_else(|| s.to_token_stream()).to_string());
            if simple && t.contains(&norm(&self.name)) {
                self.n += 1;
                out.push(parse_quote!(#mark;));
            }
            out.push(s);
        }
        b.stmts = out;
    }
}

struct Exit {
    mark: Ident,
    ret: Ident,
}
impl VisitMut for Exit {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            if let Some(x) = &r.expr {
                let (m, n) = (&self.mark, &self.ret);
                *e = parse_quote!({ let #n = #x; #m; return #n; });
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

// ---------------------------------------------------------------- inlining of unknown helpers

struct Inliner<'a> {
    known: &'a BTreeSet<String>,
    file: &'a File,
    depth: usize,
    stack: Vec<String>,
    n: usize,
    fail: Option<String>,
}

struct HasReturn(bool);
impl<'a> syn::visit::Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// `return e;` in tail position of every branch -> `e`
fn tail_returns(b: &mut Block) {
    let n = b.stmts.len();
    // if c { return x; } rest  ==>  if c { x } else { rest }
    for i in 0..n {
        let is_guard = match &b.stmts[i] {
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && i + 1 < n => {
                matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
            }
            _ => false,
        };
        if is_guard {
            let rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
            if let Some(Stmt::Expr(Expr::If(mut f), _)) = b.stmts.pop() {
                let blk: Block = Block { brace_token: Default::default(), stmts: rest };
                f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }))));
                b.stmts.push(Stmt::Expr(Expr::If(f), None));
            }
            break;
        }
    }
    if let Some(last) = b.stmts.last_mut() {
        match last {
            Stmt::Expr(e, semi) => {
                if let Expr::Return(r) = e {
                    if let Some(x) = r.expr.take() {
                        *e = *x;
                        *semi = None;
                    }
                }
                tail_expr(e);
            }
            _ => {}
        }
    }
}
fn tail_expr(e: &mut Expr) {
    match e {
        Expr::If(f) if f.else_branch.is_some() => {
            tail_returns(&mut f.then_branch);
            if let Some((_, x)) = &mut f.else_branch {
                tail_expr(x);
            }
        }
        Expr::Block(b) => tail_returns(&mut b.block),
        Expr::Match(m) => {
            for a in &mut m.arms {
                if let Expr::Return(r) = &mut *a.body {
                    if let Some(x) = r.expr.take() {
                        *a.body = *x;
                    }
                }
                tail_expr(&mut a.body);
            }
        }
        _ => {}
    }
}

impl Inliner<'_> {
    fn inline(&mut self, name: &str, args: Vec<Expr>) -> Option<Expr> {
        if self.known.contains(name) || self.stack.iter().any(|s| s == name) || self.depth > 6 {
            return None;
        }
        let (sig, mut b) = find_helper(self.file, name)?;
        let mut pats = vec![];
        for i in &sig.inputs {
            match i {
                FnArg::Receiver(_) => {}
                FnArg::Typed(t) => pats.push(t.clone()),
            }
        }
        if pats.len() != args.len() {
            return None;
        }
        tail_returns(&mut b);
        let mut h = HasReturn(false);
        syn::visit::Visit::visit_block(&mut h, &b);
        if h.0 {
            self.fail = Some(format!("cannot inline helper {name}: early return"));
            return None;
        }
        self.depth += 1;
        self.stack.push(name.to_string());
        self.visit_block_mut(&mut b);
        self.stack.pop();
        self.depth -= 1;
        self.n += 1;
        // evaluate all arguments before any parameter comes into scope
        let mut st = TokenStream::new();
        let n0 = self.n;
        for (k, a) in args.iter().enumerate() {
            let t = format_ident!("__a{}_{}", n0, k);
            let ty = &pats[k].ty;
            st.extend(quote!(let #t: #ty = #a;));
        }
        for (k, p) in pats.iter().enumerate() {
            let t = format_ident!("__a{}_{}", n0, k);
            let pp = &p.pat;
            st.extend(quote!(let #pp = #t;));
        }
        let stm = &b.stmts;
        Some(parse_quote!({ #st #(#stm)* }))
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let rep = match e {
            Expr::MethodCall(m) if norm(&m.receiver.to_token_stream().to_string()) == "self" => {
                let (n, a) = (m.method.to_string(), m.args.iter().cloned().collect());
                self.inline(&n, a)
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let lower = n.chars().next().unwrap().is_lowercase();
                    let q = p.path.segments.len();
                    let selfq = q == 2 && p.path.segments[0].ident == "Self";
                    if lower && (q == 1 || selfq) {
                        let a = c.args.iter().cloned().collect();
                        self.inline(&n, a)
                    } else {
                        None
                    }
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(r) = rep {
            *e = r;
        }
    }
}

// ---------------------------------------------------------------- the rewrite catalogue

enum It {
    Slice(Expr, bool),
    SliceMut(Expr),          // base, by value (Copy)
    Range(Expr, Expr, bool),
    Enumerate(Box<It>),
    Zip(Box<It>, Box<It>),
    Windows(Expr, Expr),
    Map(Box<It>, ExprClosure),
    Copied(Box<It>),
    Skip(Box<It>, Expr),
    Take(Box<It>, Expr),
    Rev(Box<It>),
    Days(Expr),
}

struct Rw<'a> {
    ctx: &'a Ctx,
    #[allow(dead_code)]
    file: &'a File,
    ids: &'a mut Ids,
    texts: &'a mut Vec<String>,
    flags: &'a BTreeSet<String>,
    closure_specs: std::collections::BTreeMap<usize, String>,
    refs: BTreeSet<String>,
}

/// type annotations for locals whose type Verus must know before rustc infers it
struct LocalTypes<'a>(&'a std::collections::BTreeMap<String, String>);
impl VisitMut for LocalTypes<'_> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Ident(p) = &l.pat {
            if let Some(t) = self.0.get(&p.ident.to_string()) {
                let t: Type = parse_str(t).unwrap_or_else(|e| die(&format!("//@local: {e}")));
                let p = p.clone();
                l.pat = Pat::Type(parse_quote!(#p: #t));
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
}
/// names bound to references: parameters of reference type, `let x = &e`
struct Refs(BTreeSet<String>);
impl<'a> visit::Visit<'a> for Refs {
    fn visit_local(&mut self, l: &'a Local) {
        let (n, t) = match &l.pat {
            Pat::Ident(p) => (Some(p.ident.to_string()), None),
            Pat::Type(pt) => (if let Pat::Ident(p) = &*pt.pat { Some(p.ident.to_string()) } else { None }, Some(&*pt.ty)),
            _ => (None, None),
        };
        if let Some(n) = n {
            let r = matches!(t, Some(Type::Reference(_))) || (t.is_none() && matches!(&l.init, Some(i) if matches!(&*i.expr, Expr::Reference(_))));
            if r { self.0.insert(n); } else { self.0.remove(&n); }
        }
        visit::visit_local(self, l);
    }
}

impl<'a> Rw<'a> {
    fn new(ctx: &'a Ctx, file: &'a File, ids: &'a mut Ids, texts: &'a mut Vec<String>, flags: &'a BTreeSet<String>) -> Self {
        Rw { ctx, file, ids, texts, flags, closure_specs: Default::default(), refs: Default::default() }
    }
    fn loop_mark(&mut self) -> (Ident, usize) {
        let k = self.ids.loops;
        self.ids.loops += 1;
        (format_ident!("__VLOOP_{}", k), k)
    }
    fn verbatim(&mut self, t: String) -> Ident {
        self.texts.push(t);
        format_ident!("__VEXPR_{}", self.texts.len() - 1)
    }

    fn source(&self, e: &Expr) -> Option<It> {
        match e {
            Expr::Paren(p) => self.source(&p.expr),
            Expr::Range(r) => {
                let inc = matches!(r.limits, RangeLimits::Closed(_));
                Some(It::Range((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone(), inc))
            }
            Expr::Reference(r) if r.mutability.is_none() => Some(It::Slice((*r.expr).clone(), false)),
            Expr::Reference(r) => Some(It::SliceMut((*r.expr).clone())),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let rc = &m.receiver;
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => Some(It::Slice((**rc).clone(), false)),
                    ("iter_mut", 0) => Some(It::SliceMut((**rc).clone())),
                    ("into_iter", 0) => match self.source(rc) {
                        Some(x) if !matches!(x, It::Slice(_, true)) => Some(x),
                        _ => Some(It::Slice((**rc).clone(), true)),
                    },
                    ("iter_days", 0) => Some(It::Days((**rc).clone())),
                    ("enumerate", 0) => Some(It::Enumerate(Box::new(self.source(rc)?))),
                    ("copied", 0) | ("cloned", 0) => Some(It::Copied(Box::new(self.source(rc)?))),
                    ("rev", 0) => Some(It::Rev(Box::new(self.source(rc)?))),
                    ("zip", 1) => Some(It::Zip(Box::new(self.source(rc)?), Box::new(self.zip_arg(&m.args[0])))),
                    ("windows", 1) => Some(It::Windows((**rc).clone(), m.args[0].clone())),
                    ("skip", 1) => Some(It::Skip(Box::new(self.source(rc)?), m.args[0].clone())),
                    ("take", 1) => Some(It::Take(Box::new(self.source(rc)?), m.args[0].clone())),
                    ("map", 1) => match &m.args[0] {
                        Expr::Closure(c) => Some(It::Map(Box::new(self.source(rc)?), c.clone())),
                        _ => None,
                    },
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn zip_arg(&self, e: &Expr) -> It {
        self.source(e).unwrap_or_else(|| It::Slice(e.clone(), false))
    }

    /// (prelude, length expr, element at index)
    fn compile(&mut self, it: &It) -> (TokenStream, TokenStream, Box<dyn Fn(TokenStream) -> TokenStream>) {
        let t = self.ids.tmp;
        self.ids.tmp += 1;
        match it {
            It::Slice(b, val) => {
                let s = format_ident!("__s{}", t);
                let val = *val;
                let s2 = s.clone();
                (
                    quote!(let #s = &#b;),
                    quote!(#s.len()),
                    Box::new(move |i| if val { quote!(#s2[#i]) } else { quote!(&#s2[#i]) }),
                )
            }
            It::SliceMut(b) => {
                let (b, b2) = (b.clone(), b.clone());
                (quote!(), quote!(#b.len()), Box::new(move |i| quote!(&mut #b2[#i])))
            }
            It::Range(a, b, inc) => {
                let s = format_ident!("__lo{}", t);
                let e = format_ident!("__hi{}", t);
                let s2 = s.clone();
                let len = if *inc {
                    quote!((if #s <= #e { #e - #s + 1 } else { 0 }))
                } else {
                    quote!((if #s <= #e { #e - #s } else { 0 }))
                };
                (quote!(let #s = #a; let #e = #b;), len, Box::new(move |i| quote!((#s2 + #i))))
            }
            It::Enumerate(x) => {
                let (p, l, f) = self.compile(x);
                (p, l, Box::new(move |i| { let v = f(i.clone()); quote!((#i, #v)) }))
            }
            It::Copied(x) => {
                let (p, l, f) = self.compile(x);
                (p, l, Box::new(move |i| { let v = f(i); quote!((*(#v))) }))
            }
            It::Zip(x, y) => {
                let (p1, l1, f1) = self.compile(x);
                let (p2, l2, f2) = self.compile(y);
                (
                    quote!(#p1 #p2),
                    quote!((if #l1 <= #l2 { #l1 } else { #l2 })),
                    Box::new(move |i| { let a = f1(i.clone()); let b = f2(i); quote!((#a, #b)) }),
                )
            }
            It::Windows(b, n) => {
                let s = format_ident!("__s{}", t);
                let s2 = s.clone();
                let n2 = n.clone();
                (
                    quote!(let #s = &#b;),
                    quote!((if #s.len() >= #n { #s.len() - #n + 1 } else { 0 })),
                    Box::new(move |i| quote!(vstd::slice::slice_subrange(#s2.vsl(), #i, #i + #n2))),
                )
            }
            It::Map(x, c) => {
                let (p, l, f) = self.compile(x);
                let pat = c.inputs[0].clone();
                let body = c.body.clone();
                (p, l, Box::new(move |i| { let v = f(i); quote!({ let #pat = #v; #body }) }))
            }
            It::Skip(x, n) => {
                let (p, l, f) = self.compile(x);
                let s = format_ident!("__sk{}", t);
                let s2 = s.clone();
                (
                    quote!(#p let #s: usize = #n;),
                    quote!((if #l >= #s { #l - #s } else { 0 })),
                    Box::new(move |i| f(quote!((#i + #s2)))),
                )
            }
            It::Take(x, n) => {
                let s = format_ident!("__tk{}", t);
                if let It::Days(b) = &**x {
                    let d = format_ident!("__d{}", t);
                    let d2 = d.clone();
                    return (
                        quote!(let #d = #b; let #s: usize = #n;),
                        quote!(#s),
                        Box::new(move |i| quote!(nth_day(#d2, #i))),
                    );
                }
                let (p, l, f) = self.compile(x);
                (quote!(#p let #s: usize = #n;), quote!((if #l <= #s { #l } else { #s })), f)
            }
            It::Rev(x) => {
                let (p, l, f) = self.compile(x);
                let n = format_ident!("__rn{}", t);
                let n2 = n.clone();
                (quote!(#p let #n: usize = #l;), quote!(#n), Box::new(move |i| f(quote!((#n2 - 1 - #i)))))
            }
            It::Days(_) => die("unbounded iter_days"),
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let src = self.source(&f.expr).or_else(|| match &*f.expr {
            Expr::Path(p) if matches!(&*f.pat, Pat::Reference(_)) || p.path.get_ident().is_some_and(|i| self.refs.contains(&i.to_string())) => Some(It::Slice((*f.expr).clone(), false)),
            Expr::Path(_) | Expr::Field(_) => Some(It::Slice((*f.expr).clone(), true)),
            _ => None,
        })?;
        let pat = &f.pat;
        let label = &f.label;
        let stmts = &f.body.stmts;
        let (mark, k) = self.loop_mark();
        let kk = format_ident!("__k{}", k);
        let nn = format_ident!("__n{}", k);
        if let It::Range(a, b, inc) = &src {
            let cmp = if *inc { quote!(<=) } else { quote!(<) };
            return Some(parse_quote!({
                let mut #kk = #a;
                let #nn = #b;
                #label while #kk #cmp #nn { #mark; let #pat = #kk; #kk = #kk + 1; #(#stmts)* }
            }));
        }
        let (pre, len, el) = self.compile(&src);
        let e = el(quote!(#kk));
        Some(parse_quote!({
            #pre
            let #nn: usize = #len;
            let mut #kk: usize = 0;
            #label while #kk < #nn { #mark; let #pat = #e; #kk = #kk + 1; #(#stmts)* }
        }))
    }

    fn consumer(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !matches!(name.as_str(), "sum" | "collect" | "all" | "any" | "fold" | "position" | "find" | "rfind" | "for_each" | "product" | "count") {
            return None;
        }
        let mut rc = &*m.receiver;
        let mut filt: Option<ExprClosure> = None;
        let mut cuts = false;
        if let Expr::MethodCall(fm) = rc {
            if fm.method == "filter" || fm.method == "take_while" {
                if let Some(Expr::Closure(c)) = fm.args.first() {
                    filt = Some(c.clone());
                    cuts = fm.method == "take_while";
                    rc = &fm.receiver;
                }
            }
        }
        let src = self.source(rc)?;
        let src = if name == "rfind" { It::Rev(Box::new(src)) } else { src };
        let (mark, k) = self.loop_mark();
        let kk = format_ident!("__k{}", k);
        let nn = format_ident!("__n{}", k);
        let acc = format_ident!("__acc{}", k);
        let (pre, len, el) = self.compile(&src);
        let e = el(quote!(#kk));
        let head = quote!(#pre let #nn: usize = #len; let mut #kk: usize = 0;);
        let clos = |i: usize| -> Option<ExprClosure> {
            match m.args.get(i) {
                Some(Expr::Closure(c)) => Some(c.clone()),
                _ => None,
            }
        };
        let step = |inner: TokenStream| -> TokenStream {
            match &filt {
                Some(c) => {
                    let p = &c.inputs[0];
                    let b = &c.body;
                    if cuts { return quote!(let __x = #e; let __keep = { let #p = &__x; #b }; if !__keep { break; } #kk = #kk + 1; #inner); }
                    quote!(let __x = #e; #kk = #kk + 1; let __keep = { let #p = &__x; #b }; if __keep { #inner })
                }
                None => quote!(let __x = #e; #kk = #kk + 1; #inner),
            }
        };
        let is_f = norm(&m.to_token_stream().to_string()).contains("f64") || self.flags.contains("float-sums");
        Some(match name.as_str() {
            "sum" => {
                let z = if self.ctx.float && is_f { quote!(0.0) } else { quote!(0) };
                let s = step(quote!(#acc = #acc + __x;));
                parse_quote!({ #head let mut #acc = #z; while #kk < #nn { #mark; #s } #acc })
            }
            "product" => {
                let z = if self.ctx.float && is_f { quote!(1.0) } else { quote!(1) };
                let s = step(quote!(#acc = #acc * __x;));
                parse_quote!({ #head let mut #acc = #z; while #kk < #nn { #mark; #s } #acc })
            }
            "count" => {
                let s = step(quote!(#acc = #acc + 1;));
                parse_quote!({ #head let mut #acc: usize = 0; while #kk < #nn { #mark; #s } #acc })
            }
            "collect" if collects_result_call(m) => {
                let s = step(quote!(match __x { Ok(__v) => { #acc.push(__v); } Err(__e) => { return Err(__e); } }));
                parse_quote!({ #head let mut #acc = Vec::new(); while #kk < #nn { #mark; #s } #acc })
            }
            "collect" => {
                let s = step(quote!(#acc.push(__x);));
                parse_quote!({ #head let mut #acc = Vec::new(); while #kk < #nn { #mark; #s } #acc })
            }
            "fold" => {
                let init = &m.args[0];
                if let Some(Expr::Path(f)) = m.args.get(1) {
                    let s = step(quote!(#acc = #f(#acc, __x);));
                    return Some(parse_quote!({ #head let mut #acc = #init; while #kk < #nn { #mark; #s } #acc }));
                }
                let c = clos(1)?;
                let (p0, p1, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                let s = step(quote!(#acc = { let #p0 = #acc; let #p1 = __x; #b };));
                parse_quote!({ #head let mut #acc = #init; while #kk < #nn { #mark; #s } #acc })
            }
            "all" | "any" => {
                let c = clos(0)?;
                let (p, b) = (&c.inputs[0], &c.body);
                let (init, test) = if name == "all" { (quote!(true), quote!(!__t)) } else { (quote!(false), quote!(__t)) };
                let s = step(quote!(let __t = { let #p = __x; #b }; if #test { #acc = __t; break; }));
                parse_quote!({ #head let mut #acc = #init; while #kk < #nn { #mark; #s } #acc })
            }
            "position" => {
                let c = clos(0)?;
                let (p, b) = (&c.inputs[0], &c.body);
                let s = step(quote!(let __t = { let #p = __x; #b }; if __t { #acc = Some(#kk - 1); break; }));
                parse_quote!({ #head let mut #acc: Option<usize> = None; while #kk < #nn { #mark; #s } #acc })
            }
            "find" | "rfind" => {
                let c = clos(0)?;
                let (p, b) = (&c.inputs[0], &c.body);
                let s = step(quote!(let __t = { let #p = &__x; #b }; if __t { #acc = Some(__x); break; }));
                parse_quote!({ #head let mut #acc = None; while #kk < #nn { #mark; #s } #acc })
            }
            "for_each" => {
                let c = clos(0)?;
                let (p, b) = (&c.inputs[0], &c.body);
                let s = step(quote!({ let #p = __x; #b };));
                parse_quote!({ #head while #kk < #nn { #mark; #s } })
            }
            _ => return None,
        })
    }
}

/// the values two indices are compared by: `|a, b| v[*a].partial_cmp(&v[*b]).unwrap()`
fn indexed_order(e: &Expr) -> Option<Expr> {
    let Expr::Closure(c) = e else { return None };
    if c.inputs.len() != 2 { return None; }
    let (a, b) = (norm(&c.inputs[0].to_token_stream().to_string()), norm(&c.inputs[1].to_token_stream().to_string()));
    let mut x = &*c.body;
    while let Expr::MethodCall(m) = x {
        let equal = m.method == "unwrap_or" && norm(&m.args.to_token_stream().to_string()).ends_with("Ordering::Equal");
        if equal || m.method == "unwrap" && m.args.is_empty() { x = &m.receiver; } else { break; }
    }
    let Expr::MethodCall(m) = x else { return None };
    if !["partial_cmp", "total_cmp", "cmp"].contains(&m.method.to_string().as_str()) || m.args.len() != 1 { return None; }
    let Expr::Reference(r) = &m.args[0] else { return None };
    let side = |e: &Expr| -> Option<(Expr, String)> {
        let Expr::Index(i) = e else { return None };
        let Expr::Unary(u) = &*i.index else { return None };
        Some(((*i.expr).clone(), norm(&u.expr.to_token_stream().to_string())))
    };
    let ((u, p), (v, q)) = (side(&m.receiver)?, side(&r.expr)?);
    (p == a && q == b && norm(&u.to_token_stream().to_string()) == norm(&v.to_token_stream().to_string())).then_some(u)
}
fn has_word(t: &proc_macro2::TokenTree, w: &str) -> bool {
    match t {
        proc_macro2::TokenTree::Ident(i) => i == w,
        proc_macro2::TokenTree::Group(g) => g.stream().into_iter().any(|t| has_word(&t, w)),
        _ => false,
    }
}
fn collects_result_call(m: &ExprMethodCall) -> bool {
    m.method == "collect" && m.turbofish.as_ref().is_some_and(|t| norm(&t.to_token_stream().to_string()).starts_with("::<Result<"))
}
fn collects_result(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if collects_result_call(m))
}
/// the field a key closure projects out: its index or name
fn key_of(p: &Pat, body: &Expr) -> Option<String> {
    let mut b = body;
    loop {
        match b {
            Expr::Paren(x) => b = &x.expr,
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => b = &u.expr,
            Expr::Reference(r) => b = &r.expr,
            Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => b = &m.receiver,
            Expr::Block(x) if x.block.stmts.len() == 1 => match &x.block.stmts[0] { Stmt::Expr(e, None) => b = e, _ => return None },
            _ => break,
        }
    }
    let mut p = p;
    loop {
        match p {
            Pat::Reference(r) => p = &r.pat,
            Pat::Paren(r) => p = &r.pat,
            Pat::Type(t) => p = &t.pat,
            _ => break,
        }
    }
    match (p, b) {
        (Pat::Tuple(t), Expr::Path(x)) => {
            let id = x.path.get_ident()?.to_string();
            t.elems.iter().position(|q| matches!(q, Pat::Ident(i) if i.ident == id)).map(|i| i.to_string())
        }
        (Pat::Ident(i), Expr::Field(f)) => match strip_paren(&f.base) {
            Expr::Path(x) if x.path.get_ident().is_some_and(|q| *q == i.ident) => Some(f.member.to_token_stream().to_string()),
            _ => None,
        },
        _ => None,
    }
}
fn sort_key(c: &ExprClosure) -> Option<String> {
    if c.inputs.len() == 1 {
        return key_of(&c.inputs[0], &c.body);
    }
    let mut b = &*c.body;
    if let Expr::Block(x) = b {
        if let [Stmt::Expr(e, None)] = &x.block.stmts[..] { b = e }
    }
    if let Expr::MethodCall(u) = b {
        let equal = u.method == "unwrap_or" && norm(&u.args.to_token_stream().to_string()).ends_with("Ordering::Equal");
        if equal || matches!(u.method.to_string().as_str(), "unwrap" | "expect") { b = &u.receiver }
    }
    if let Expr::MethodCall(m) = b {
        if matches!(m.method.to_string().as_str(), "cmp" | "partial_cmp" | "total_cmp") {
            let (x, y) = (key_of(&c.inputs[0], &m.receiver)?, key_of(&c.inputs[1], &m.args[0])?);
            return (x == y).then_some(x);
        }
    }
    None
}
fn has_ref_pat(p: &Pat) -> bool {
    struct F(bool);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_pat_reference(&mut self, p: &'a syn::PatReference) {
            if !matches!(*p.pat, Pat::Wild(_)) { self.0 = true; }
        }
    }
    let mut f = F(false);
    syn::visit::Visit::visit_pat(&mut f, p);
    f.0
}
struct SplitRefs<'a>(Vec<(Ident, Pat)>, &'a mut usize);
impl VisitMut for SplitRefs<'_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            let i = format_ident!("__r{}", *self.1);
            *self.1 += 1;
            self.0.push((i.clone(), (*r.pat).clone()));
            *p = parse_quote!(#i);
        } else {
            visit_mut::visit_pat_mut(self, p);
        }
    }
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        e => e,
    }
}
fn simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => simple_place(&f.base),
        Expr::Paren(p) => simple_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple_place(&u.expr),
        Expr::Index(i) => simple_place(&i.expr) && no_calls(&i.index),
        _ => false,
    }
}
fn no_calls(e: &Expr) -> bool {
    struct C(bool);
    impl<'a> syn::visit::Visit<'a> for C {
        fn visit_expr_call(&mut self, _: &'a ExprCall) { self.0 = true; }
        fn visit_expr_method_call(&mut self, _: &'a ExprMethodCall) { self.0 = true; }
    }
    let mut c = C(false);
    syn::visit::Visit::visit_expr(&mut c, e);
    !c.0
}

fn pat_idents(p: &Pat, out: &mut Vec<Ident>) {
    struct V<'b>(&'b mut Vec<Ident>);
    impl<'a> syn::visit::Visit<'a> for V<'_> {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.ident.to_string().chars().next().unwrap().is_lowercase() {
                self.0.push(p.ident.clone());
            }
        }
    }
    syn::visit::Visit::visit_pat(&mut V(out), p);
}

impl VisitMut for Rw<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        TypeMap { ctx: self.ctx }.visit_type_mut(t);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            match s {
                // inner `const X: T = e;` -> `let X: T = e;`
                Stmt::Item(Item::Const(c)) => {
                    let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                    out.push(parse_quote!(let #i: #t = #e;));
                }
                Stmt::Item(Item::Use(_)) => {}
                // under contract or inlined like any other helper of the file
                Stmt::Item(Item::Fn(_)) => {}
                Stmt::Item(i) => die(&format!("unsupported inner item {}", i.to_token_stream())),
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    match n.as_str() {
                        "println" | "eprintln" | "debug_assert" | "debug_assert_eq" | "print" => {}
                        _ => {
                            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                            out.push(Stmt::Expr(e, m.semi_token));
                        }
                    }
                }
                Stmt::Local(mut l) if l.init.as_ref().map(|i| i.diverge.is_some()).unwrap_or(false) => {
                    let init = l.init.take().unwrap();
                    let (e, d) = (init.expr, init.diverge.unwrap().1);
                    let mut ids = vec![];
                    pat_idents(&l.pat, &mut ids);
                    let p = &l.pat;
                    if ids.len() == 1 {
                        let i = &ids[0];
                        out.push(parse_quote!(let #i = match #e { #p => #i, _ => #d };));
                    } else {
                        out.push(parse_quote!(let (#(#ids),*) = match #e { #p => (#(#ids),*), _ => #d };));
                    }
                }
                // `let (i, &(a, b)) = e` -> `let (i, r) = e; let (a, b) = *r`
                Stmt::Local(mut l) if has_ref_pat(&l.pat) => {
                    let mut split = SplitRefs(vec![], &mut self.ids.tmp);
                    split.visit_pat_mut(&mut l.pat);
                    let parts = split.0;
                    out.push(Stmt::Local(l));
                    for (r, mut p) in parts {
                        let mut e: Expr = parse_quote!(*#r);
                        while let Pat::Reference(q) = p { e = parse_quote!(*#e); p = *q.pat; }
                        out.push(parse_quote!(let #p = #e;));
                    }
                }
                // if let P = e && c { A } [else { B }]  in statement position handled in visit_expr
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- pre-order rewrites
        if let Expr::Group(g) = e {
            *e = (*g.expr).clone();
        }
        match e {
            Expr::ForLoop(f) if matches!(&*f.expr, Expr::MethodCall(m) if m.method == "chain" && m.args.len() == 1) && f.label.is_none() && !f.body.to_token_stream().into_iter().any(|t| has_word(&t, "break")) => {
                // one source after the other
                let Expr::MethodCall(m) = &*f.expr else { unreachable!() };
                let (a, b, p, body) = (&m.receiver, &m.args[0], &f.pat, &f.body);
                *e = parse_quote!({ for #p in #a #body for #p in #b #body });
                self.visit_expr_mut(e);
                return;
            }
            Expr::ForLoop(f) => {
                if let Some(mut n) = self.for_loop(&f.clone()) {
                    // the produced block already carries its own loop mark
                    if let Expr::Block(b) = &mut n {
                        self.visit_block_inner(&mut b.block);
                    }
                    *e = n;
                    return;
                }
                die(&format!("unsupported for-loop source: {}", f.expr.to_token_stream()));
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                    *e = parse_quote!(#lab loop { match #x { #p => #b _ => { break; } } });
                    self.visit_expr_mut(e);
                    return;
                }
                let first = w.body.stmts.first().map(|s| s.to_token_stream().to_string()).unwrap_or_default();
                if !first.starts_with("__VLOOP_") {
                    let (mark, _) = self.loop_mark();
                    w.body.stmts.insert(0, parse_quote!(#mark;));
                }
            }
            Expr::Loop(w) => {
                let first = w.body.stmts.first().map(|s| s.to_token_stream().to_string()).unwrap_or_default();
                if !first.starts_with("__VLOOP_") {
                    let (mark, _) = self.loop_mark();
                    w.body.stmts.insert(0, parse_quote!(#mark;));
                }
            }
            // xs.map(|x| ..?..).collect::<Result<_>>()? : the first error leaves the function, as `?` on the collected result does
            Expr::Try(t) if collects_result(&t.expr) => {
                if let Expr::MethodCall(m) = &*t.expr {
                    let mc = m.clone();
                    if let Some(mut n) = self.consumer(&mc) {
                        if let Expr::Block(b) = &mut n {
                            self.visit_block_inner(&mut b.block);
                        }
                        *e = n;
                        return;
                    }
                }
            }
            // an error text is an error text: `"..".to_string()` where strings are abstract
            Expr::MethodCall(m) if m.method == "to_string" && matches!(&*m.receiver, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) && self.ctx.types.iter().any(|t| t.0 == "String" && t.1 == "Str") => {
                *e = parse_quote!(fmt_str());
                return;
            }
            Expr::MethodCall(m) if collects_result_call(m) => die("collect::<Result<..>>() not followed by `?`"),
            Expr::MethodCall(m) => {
                let mc = m.clone();
                if let Some(mut n) = self.consumer(&mc) {
                    if let Expr::Block(b) = &mut n {
                        self.visit_block_inner(&mut b.block);
                    }
                    *e = n;
                    return;
                }
            }
            Expr::If(f) => {
                // let chains
                if let Expr::Binary(b) = &*f.cond {
                    if matches!(b.op, BinOp::And(_)) && has_let(&f.cond) {
                        let mut parts = vec![];
                        flatten_and(&f.cond, &mut parts);
                        let els: Expr = match &f.else_branch {
                            Some((_, x)) => (**x).clone(),
                            None => parse_quote!({}),
                        };
                        let th = f.then_branch.clone();
                        let mut cur: Expr = parse_quote!(#th);
                        let mut first = true;
                        for p in parts.iter().rev() {
                            let c2 = cur.clone();
                            let blk: Block = if first {
                                th.clone()
                            } else {
                                parse_quote!({ #c2 })
                            };
                            first = false;
                            cur = match &els {
                                Expr::If(_) => parse_quote!(if #p #blk else #els),
                                _ => parse_quote!(if #p #blk else #els),
                            };
                        }
                        *e = cur;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);

        // ---- post-order rewrites
        let new: Option<Expr> = match e {
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) if self.ctx.float => {
                let t = real_text(f.base10_digits());
                let m = self.verbatim(format!("rlit(Ghost({t}))"));
                Some(parse_quote!(#m))
            }
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if self.ctx.float && i.suffix() == "f64" => {
                let m = self.verbatim(format!("rlit(Ghost({}real))", i.base10_digits()));
                Some(parse_quote!(#m))
            }
            Expr::Cast(c) if self.ctx.float && norm(&c.ty.to_token_stream().to_string()) == "R" => {
                let x = &c.expr;
                Some(parse_quote!(ToR::to_r(#x)))
            }
            Expr::Cast(c) if self.ctx.float && self.flags.contains("float-casts") => {
                let x = &c.expr;
                let f = format_ident!("cast_{}", norm(&c.ty.to_token_stream().to_string()));
                Some(parse_quote!(#f(#x)))
            }
            Expr::Path(p) if self.ctx.float && p.path.segments.len() == 2 && p.path.segments[0].ident == "f64" && !self.ctx.rename_calls.contains_key(&norm(&p.path.to_token_stream().to_string())) && p.path.segments[1].ident.to_string().chars().any(|c| c.is_lowercase()) => {
                let i = &p.path.segments[1].ident;
                Some(parse_quote!(R::#i))
            }
            Expr::Path(p) if p.path.segments.len() == 2 && self.ctx.float && p.path.segments[0].ident == "f64" && p.path.segments[1].ident.to_string().chars().all(|c| !c.is_lowercase()) => {
                let f = format_ident!("r_{}", p.path.segments[1].ident.to_string().to_lowercase());
                Some(parse_quote!(#f()))
            }
            Expr::Path(p) if p.path.segments.len() == 1 && self.ctx.consts.contains(&p.path.segments[0].ident.to_string()) && self.ctx.float => {
                let f = format_ident!("const_{}", p.path.segments[0].ident);
                Some(parse_quote!(#f()))
            }
            Expr::Index(ix) if self.ctx.tables.contains(&norm(&ix.expr.to_token_stream().to_string())) => {
                let f = format_ident!("{}_at", norm(&ix.expr.to_token_stream().to_string()));
                let i = &ix.index;
                Some(parse_quote!(#f(#i)))
            }
            Expr::Path(p) if self.ctx.rename_calls.get(&norm(&p.path.to_token_stream().to_string())).is_some_and(|f| !f.starts_with('.')) => {
                let f: Expr = parse_str(&self.ctx.rename_calls[&norm(&p.path.to_token_stream().to_string())]).unwrap();
                Some(f)
            }
            Expr::Binary(b) if self.ctx.boolbits && matches!(b.op, BinOp::BitOr(_) | BinOp::BitAnd(_)) => {
                let op: BinOp = if matches!(b.op, BinOp::BitOr(_)) { parse_quote!(||) } else { parse_quote!(&&) };
                let (l, r) = (&b.left, &b.right);
                Some(parse_quote!(((#l) #op (#r))))
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(parse_quote!(+)),
                    BinOp::SubAssign(_) => Some(parse_quote!(-)),
                    BinOp::MulAssign(_) => Some(parse_quote!(*)),
                    BinOp::DivAssign(_) => Some(parse_quote!(/)),
                    _ => None,
                };
                match op {
                    Some(op) if simple_place(&b.left) => {
                        let (l, r) = (&b.left, &b.right);
                        let l2 = match &**l { Expr::Unary(_) => quote!((#l)), x => quote!(#x) };
                        Some(parse_quote!(#l = #l2 #op (#r)))
                    }
                    _ => None,
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "format" => Some(parse_quote!(fmt_str())),
                    "matches" => {
                        struct MM(Expr, Pat, Option<Expr>);
                        impl parse::Parse for MM {
                            fn parse(i: parse::ParseStream) -> Result<Self> {
                                let e = i.parse()?;
                                i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                                let _ = i.parse::<Option<Token![,]>>()?;
                                Ok(MM(e, p, g))
                            }
                        }
                        let MM(x, p, g) = m.mac.parse_body().unwrap_or_else(|e| die(&format!("matches!: {e}")));
                        let mut r: Expr = match g {
                            Some(g) => parse_quote!((match #x { #p if #g => true, _ => false })),
                            None => parse_quote!((match #x { #p => true, _ => false })),
                        };
                        self.visit_expr_mut(&mut r);
                        Some(r)
                    }
                    "assert" => {
                        let a: Vec<Expr> = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).unwrap_or_else(|e| die(&format!("assert!: {e}"))).into_iter().collect();
                        let mut c = a[0].clone();
                        self.visit_expr_mut(&mut c);
                        Some(parse_quote!(runtime_assert(#c)))
                    }
                    "assert_eq" => {
                        let a: Vec<Expr> = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).unwrap_or_else(|e| die(&format!("assert_eq!: {e}"))).into_iter().collect();
                        let (mut x, mut y) = (a[0].clone(), a[1].clone());
                        self.visit_expr_mut(&mut x);
                        self.visit_expr_mut(&mut y);
                        Some(parse_quote!(runtime_assert(#x == #y)))
                    }
                    "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(never())),
                    "vec" => {
                        // vec![e; n] / vec![a, b]
                        struct Rep(Expr, Expr);
                        impl parse::Parse for Rep {
                            fn parse(i: parse::ParseStream) -> Result<Self> {
                                let a = i.parse()?;
                                i.parse::<Token![;]>()?;
                                let b = i.parse()?;
                                Ok(Rep(a, b))
                            }
                        }
                        if let Ok(Rep(mut a, mut b)) = m.mac.parse_body() {
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            Some(parse_quote!(vec_rep(#a, #b)))
                        } else {
                            let a: Vec<Expr> = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).unwrap_or_else(|e| die(&format!("vec!: {e}"))).into_iter().collect();
                            let mut items = vec![];
                            for mut x in a {
                                self.visit_expr_mut(&mut x);
                                items.push(x);
                            }
                            Some(parse_quote!({ let mut __v = Vec::new(); #(__v.push(#items);)* __v }))
                        }
                    }
                    _ => die(&format!("unsupported macro {n}!")),
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let rc = &m.receiver;
                match name.as_str() {
                    "ok_or_else" | "ok_or" => {
                        let x: Expr = match &m.args[0] {
                            Expr::Closure(c) => (*c.body).clone(),
                            Expr::Path(_) if name == "ok_or_else" => { let f = &m.args[0]; parse_quote!(#f()) }
                            e => e.clone(),
                        };
                        Some(parse_quote!((match #rc { Some(__v) => Ok(__v), None => Err(#x) })))
                    }
                    "is_none_or" | "is_some_and" if matches!(&m.args[0], Expr::Closure(_)) => {
                        let Expr::Closure(c) = &m.args[0] else { unreachable!() };
                        let (p, x) = (&c.inputs[0], &c.body);
                        let none: Expr = if name == "is_none_or" { parse_quote!(true) } else { parse_quote!(false) };
                        match p {
                            Pat::Reference(q) => { let q = &q.pat; Some(parse_quote!((match #rc { None => #none, Some(__v) => { let #q = *__v; #x } }))) }
                            _ => Some(parse_quote!((match #rc { None => #none, Some(#p) => #x }))),
                        }
                    }
                    "is_multiple_of" if matches!(&m.args[0], Expr::Lit(_)) => { let x = &m.args[0]; Some(parse_quote!((#rc % #x == 0))) }
                    "unwrap_or" if self.flags.contains("opt-combinators") => {
                        let x = &m.args[0];
                        Some(parse_quote!({ let __o = #rc; let __d = #x; match __o { Some(__v) => __v, None => __d } }))
                    }
                    "unwrap_or_else" if self.flags.contains("opt-combinators") => match &m.args[0] {
                        Expr::Closure(c) => { let x = &c.body; Some(parse_quote!((match #rc { Some(__v) => __v, None => #x }))) }
                        _ => None,
                    },
                    "map" if self.flags.contains("opt-combinators") => match &m.args[0] {
                        Expr::Closure(c) => { let (p, x) = (&c.inputs[0], &c.body); Some(parse_quote!((match #rc { Some(#p) => Some(#x), None => None }))) }
                        _ => None,
                    },
                    "and_then" if self.flags.contains("opt-combinators") => match &m.args[0] {
                        Expr::Closure(c) => { let (p, x) = (&c.inputs[0], &c.body); Some(parse_quote!((match #rc { Some(#p) => #x, None => None }))) }
                        _ => None,
                    },
                    // Result::map(Option::unwrap)
                    "map" if matches!(&m.args[0], Expr::Path(p) if norm(&p.path.to_token_stream().to_string()) == "Option::unwrap") =>
                        Some(parse_quote!((match #rc { Ok(__v) => Ok(__v.unwrap()), Err(__e) => Err(__e) }))),
                    // sorts and searches by a field: one contract per key
                    // indices ordered by the values they point at
                    "sort_by" if m.args.first().and_then(indexed_order).is_some() => {
                        let b = m.args.first().and_then(indexed_order).unwrap();
                        Some(parse_quote!(sort_by_index(&mut #rc, &#b)))
                    }
                    "min_by" | "max_by" if m.args.first().and_then(indexed_order).is_some() && matches!(strip_paren(rc), Expr::Range(_)) => {
                        let b = m.args.first().and_then(indexed_order).unwrap();
                        match strip_paren(rc) {
                            Expr::Range(rg) => match (&rg.start, &rg.end) {
                                (Some(lo), Some(hi)) => {
                                    let f = format_ident!("{}_index", name);
                                    let hi: Expr = if matches!(rg.limits, RangeLimits::Closed(_)) { parse_quote!(#hi + 1) } else { (**hi).clone() };
                                    Some(parse_quote!(#f(#lo, #hi, &#b)))
                                }
                                _ => None,
                            },
                            _ => None,
                        }
                    }
                    "sort_by_key" | "sort_unstable_by_key" | "sort_by" | "sort_unstable_by" => match m.args.first() {
                        Some(Expr::Closure(c)) => match sort_key(c) {
                            Some(k) => { let f = format_ident!("sort_by_key_{}", k); Some(parse_quote!(#f(&mut #rc))) }
                            None if c.inputs.len() == 1 => { let x = &m.args[0]; Some(parse_quote!(sort_by_fn(&mut #rc, #x))) }
                            None => die(&format!("unsupported sort key: {}", c.to_token_stream())),
                        },
                        Some(x @ Expr::Verbatim(_)) if name.contains("_key") => Some(Expr::Verbatim(quote!(sort_by_fn(&mut #rc, #x)))),
                        _ => None,
                    },
                    "binary_search_by_key" => match (m.args.first(), m.args.get(1)) {
                        (Some(x), Some(Expr::Closure(c))) => match key_of(&c.inputs[0], &c.body) {
                            Some(k) => { let f = format_ident!("search_by_key_{}", k); Some(parse_quote!(#f(&#rc, #x))) }
                            None => die(&format!("unsupported search key: {}", c.to_token_stream())),
                        },
                        _ => None,
                    },
                    "map_err" => match &m.args[0] {
                        Expr::Closure(c) => { let (p, x) = (&c.inputs[0], &c.body); Some(parse_quote!((match #rc { Ok(__v) => Ok(__v), Err(#p) => Err(#x) }))) }
                        _ => None,
                    },
                    "contains" if m.args.len() == 1 && matches!(strip_paren(rc), Expr::Range(_)) => {
                        // (a..=b).contains(&x)
                        let mut r = &**rc;
                        if let Expr::Paren(p) = r { r = &p.expr; }
                        if let (Expr::Range(rg), Expr::Reference(x)) = (r, &m.args[0]) {
                            if let (Some(a), Some(b)) = (&rg.start, &rg.end) {
                                let x = &x.expr;
                                let cmp: BinOp = if matches!(rg.limits, RangeLimits::Closed(_)) { parse_quote!(<=) } else { parse_quote!(<) };
                                Some(parse_quote!({ let __c = #x; #a <= __c && __c #cmp #b }))
                            } else { None }
                        } else { None }
                    }
                    "push_str" | "to_string" | "to_owned" if self.flags.contains("strings-opaque") => Some(parse_quote!(fmt_str())),
                    n if self.ctx.rename_calls.contains_key(&format!(".{n}")) => {
                        let f = &self.ctx.rename_calls[&format!(".{n}")];
                        let a = &m.args;
                        Some(match (f.strip_prefix("&mut "), f.strip_prefix("&")) {
                            (Some(f), _) => { let f: Expr = parse_str(f).unwrap(); parse_quote!(#f(&mut #rc, #a)) }
                            (_, Some(f)) => { let f: Expr = parse_str(f).unwrap(); parse_quote!(#f(&#rc, #a)) }
                            _ => { let f: Expr = parse_str(f).unwrap(); parse_quote!(#f(#rc, #a)) }
                        })
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = norm(&p.path.to_token_stream().to_string());
                    if let Some(f) = self.ctx.rename_calls.get(&s) {
                        let a = &c.args;
                        if let Some(n) = f.strip_prefix('.') {
                            let (g, n) = (&c.func, format_ident!("{}", n));
                            Some(parse_quote!(#g.#n(#a)))
                        } else {
                            let f: Expr = parse_str(f).unwrap();
                            Some(parse_quote!(#f(#a)))
                        }
                    } else if s.starts_with("Error::") && c.args.len() == 1 && matches!(&c.args[0], Expr::MethodCall(m) if ["to_string", "to_owned", "into"].contains(&m.method.to_string().as_str()) && matches!(&*m.receiver, Expr::Lit(_))) {
                        // the text of an error message is dropped
                        let f = &c.func;
                        Some(parse_quote!(#f(fmt_str())))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::Closure(c) => {
                let k = self.ids.closures;
                self.ids.closures += 1;
                match self.closure_specs.get(&k) {
                    Some(h) => {
                        let h = h.clone();
                        let body = &c.body;
                        // parameters the contract names differently are bound to the closure's own patterns
                        let names: Vec<String> = h.split('|').nth(1).map_or(vec![], |p| split_top(p).iter().map(|x| x.split(':').next().unwrap_or("").trim().to_string()).collect());
                        let mut binds = quote!();
                        for (n, p) in names.iter().zip(c.inputs.iter()) {
                            let p = match p { Pat::Type(t) => &*t.pat, p => p };
                            if p.to_token_stream().to_string() != *n {
                                let n = format_ident!("{}", n);
                                binds = quote!(#binds let #p = #n;);
                            }
                        }
                        let m = self.verbatim(h);
                        let ts = quote!(#m { #binds #body });
                        Some(Expr::Verbatim(ts))
                    }
                    None => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }

    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

impl Rw<'_> {
    fn visit_block_inner(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
    }
}

fn split_top(p: &str) -> Vec<String> {
    let (mut d, mut out) = (0, vec![String::new()]);
    for c in p.chars() {
        match c { '(' | '<' | '[' => d += 1, ')' | '>' | ']' => d -= 1, _ => {} }
        if c == ',' && d == 0 { out.push(String::new()) } else { out.last_mut().unwrap().push(c) }
    }
    out
}
fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => has_let(&b.left) || has_let(&b.right),
        _ => false,
    }
}
fn flatten_and(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) && has_let(e) => {
            flatten_and(&b.left, out);
            flatten_and(&b.right, out);
        }
        _ => out.push(e.clone()),
    }
}

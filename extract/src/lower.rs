//! Mechanical translation of a Rust function of /repo into Verus-accepted Rust.
//! Every rewrite is listed in DESIGN.md ("What the extraction changes").
use crate::overlay::{FnOv, StructOv};
use crate::{find_fn, printer, Ctx};
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Info {
    pub line: usize,
    pub loops: String,
    pub inlined: Vec<String>,
}

type Res<T> = std::result::Result<T, String>;

fn unsup<T>(m: &str) -> Res<T> {
    Err(format!("unsupported: {}", m))
}

fn pe(s: &str) -> Expr {
    parse_str(s).unwrap_or_else(|e| panic!("overlay-error bad expr {}: {}", s, e))
}

// ---------------------------------------------------------------- tokens
fn toks_eq(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Group(x), TokenTree::Group(y)) => {
            x.delimiter() == y.delimiter() && {
                let xs: Vec<_> = x.stream().into_iter().collect();
                let ys: Vec<_> = y.stream().into_iter().collect();
                xs.len() == ys.len() && xs.iter().zip(ys.iter()).all(|(p, q)| toks_eq(p, q))
            }
        }
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => false,
        _ => a.to_string() == b.to_string(),
    }
}

fn subst_tokens(ts: TokenStream, from: &[TokenTree], to: &TokenStream, hits: &mut usize) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if i + from.len() <= v.len() && (0..from.len()).all(|k| toks_eq(&v[i + k], &from[k])) {
            out.extend(to.clone());
            i += from.len();
            *hits += 1;
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst_tokens(g.stream(), from, to, hits));
                ng.set_span(g.span());
                out.extend(std::iter::once(TokenTree::Group(ng)));
            }
            t => out.extend(std::iter::once(t.clone())),
        }
        i += 1;
    }
    out
}

fn apply_substs(ts: TokenStream, substs: &[(String, String)]) -> Res<TokenStream> {
    let mut ts = ts;
    for (a, b) in substs {
        let from: Vec<TokenTree> = a.parse::<TokenStream>().map_err(|e| format!("overlay-error subst {}: {}", a, e))?.into_iter().collect();
        let to: TokenStream = b.parse().map_err(|e| format!("overlay-error subst {}: {}", b, e))?;
        let mut hits = 0;
        ts = subst_tokens(ts, &from, &to, &mut hits);
    }
    Ok(ts)
}

// ---------------------------------------------------------------- clean
struct Clean {
    err: Option<String>,
}

fn is_log_macro(p: &Path) -> bool {
    let n = p.segments.last().unwrap().ident.to_string();
    let first = p.segments.first().unwrap().ident.to_string();
    first == "log" || matches!(n.as_str(), "println" | "print" | "eprintln" | "eprint" | "debug" | "info" | "warn" | "trace")
}

fn macro_expr(m: &Macro) -> Res<Option<Expr>> {
    let n = m.path.segments.last().unwrap().ident.to_string();
    if is_log_macro(&m.path) {
        return Ok(None);
    }
    let args: Vec<Expr> = m
        .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        .map(|p| p.into_iter().collect())
        .unwrap_or_default();
    match n.as_str() {
        "assert" | "debug_assert" => {
            let c = &args[0];
            Ok(Some(parse_quote!(rt_assert(#c))))
        }
        "assert_eq" | "debug_assert_eq" => {
            let (a, b) = (&args[0], &args[1]);
            Ok(Some(parse_quote!(rt_assert(#a == #b))))
        }
        "assert_ne" => {
            let (a, b) = (&args[0], &args[1]);
            Ok(Some(parse_quote!(rt_assert(#a != #b))))
        }
        "panic" | "unreachable" | "todo" | "unimplemented" => Ok(Some(parse_quote!(rt_panic()))),
        "format" => Ok(Some(parse_quote!(opaque_string()))),
        "vec" => Ok(Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() }))),
        "matches" => Ok(Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() }))),
        _ => unsup(&format!("macro {}!", n)),
    }
}

fn attr_drop(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = quote!(#a).to_string();
        s.contains("feature") && !s.contains("not") || s.contains("test") || s.contains("hybridcvrp_verif")
    })
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        _ => &[],
    }
}

struct PassArgs {
    v: Vec<(String, syn::punctuated::Punctuated<Expr, Token![,]>)>,
}
impl VisitMut for PassArgs {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let (name, args) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), &mut m.args),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => (p.path.segments.last().unwrap().ident.to_string(), &mut c.args),
                _ => return,
            },
            _ => return,
        };
        for (k, a) in &self.v {
            if *k == name {
                args.extend(a.iter().cloned());
            }
        }
    }
}
impl VisitMut for Clean {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(m) => {
                    if attr_drop(&m.attrs) {
                        continue;
                    }
                    match macro_expr(&m.mac) {
                        Ok(None) => {}
                        Ok(Some(e)) => out.push(Stmt::Expr(e, m.semi_token)),
                        Err(e) => self.err = Some(e),
                    }
                }
                Stmt::Expr(ref e, _) if attr_drop(expr_attrs(e)) => {}
                Stmt::Expr(Expr::Macro(ref m), semi) => match macro_expr(&m.mac) {
                    Ok(None) => {}
                    Ok(Some(e)) => out.push(Stmt::Expr(e, semi)),
                    Err(e) => self.err = Some(e),
                },
                Stmt::Local(mut l) => {
                    if attr_drop(&l.attrs) {
                        continue;
                    }
                    l.attrs.clear();
                    out.push(Stmt::Local(l));
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(Item::Const(c)) => {
                    let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                    out.push(parse_quote!(let #i: #t = #e;));
                }
                s => out.push(s),
            }
        }
        // a diverging tail statement takes the type of the block
        if let Some(Stmt::Expr(Expr::Call(c), semi)) = out.last_mut() {
            if quote!(#c).to_string() == "rt_panic ()" {
                *semi = None;
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            match macro_expr(&m.mac) {
                Ok(Some(ne)) => {
                    if let Expr::Macro(mm) = &ne {
                        // vec![..] : keep, but visit the arguments
                        let n = mm.mac.path.segments.last().unwrap().ident.to_string();
                        if n == "vec" {
                            // vec![a; n]  -> __vec_rep(a, n) ; vec![a,b] -> __vec_lit(a,b)
                            let ts = mm.mac.tokens.clone();
                            if let Ok(r) = parse2::<ExprRepeat>(quote!([#ts])) {
                                let (a, l) = (&r.expr, &r.len);
                                *e = parse_quote!(__vec_rep(#a, #l));
                            } else if let Ok(r) = parse2::<ExprArray>(quote!([#ts])) {
                                let el = r.elems;
                                *e = parse_quote!(__vec_lit(#el));
                            }
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    *e = ne;
                }
                Ok(None) => *e = parse_quote!(()),
                Err(er) => self.err = Some(er),
            }
        }
        if let Expr::Unsafe(u) = e {
            let b = &u.block;
            *e = parse_quote!(#b);
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

// flatten `{ stmts }` produced by unsafe at the block tail
fn flatten_block(b: &mut Block) {
    if b.stmts.len() == 1 {
        if let Stmt::Expr(Expr::Block(eb), _) = &b.stmts[0] {
            if eb.label.is_none() && eb.attrs.is_empty() {
                let inner = eb.block.stmts.clone();
                b.stmts = inner;
                flatten_block(b);
            }
        }
    }
}

// ---------------------------------------------------------------- helper inlining
struct Inliner<'a> {
    files: Vec<(String, &'a File)>,
    known: &'a HashSet<String>,
    self_ty: Option<String>,
    depth: usize,
    done: Vec<String>,
    err: Option<String>,
    counter: usize,
}

/// turn early returns into structured if/else; Err if not possible
fn structure_returns(stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
    let mut out: Vec<Stmt> = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                match r.expr {
                    Some(e) => out.push(Stmt::Expr(*e, None)),
                    None => {}
                }
                return Some(out);
            }
            Stmt::Expr(Expr::If(mut i), semi) if has_return(&Stmt::Expr(Expr::If(i.clone()), None)) => {
                if has_return_expr(&i.cond) {
                    return None;
                }
                let rest: Vec<Stmt> = it.collect();
                let then_ret = always_returns(&i.then_branch.stmts);
                let else_stmts: Vec<Stmt> = match &i.else_branch {
                    None => vec![],
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => b.block.stmts.clone(),
                        o => vec![Stmt::Expr(o.clone(), None)],
                    },
                };
                let tail = rest.is_empty() && semi.is_none();
                let mut th = i.then_branch.stmts.clone();
                if !then_ret && !tail {
                    th.extend(rest.clone());
                }
                let th = structure_returns(th)?;
                let mut el = else_stmts.clone();
                if !always_returns(&el) && !tail {
                    el.extend(rest);
                }
                let el = structure_returns(el)?;
                i.then_branch.stmts = th;
                let eb: Block = Block { brace_token: Default::default(), stmts: el };
                i.else_branch = Some((Default::default(), Box::new(parse_quote!(#eb))));
                out.push(Stmt::Expr(Expr::If(i), None));
                return Some(out);
            }
            s => {
                if has_return(&s) {
                    return None;
                }
                out.push(s);
            }
        }
    }
    Some(out)
}

fn always_returns(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => {
            always_returns(&i.then_branch.stmts)
                && match &i.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => always_returns(&b.block.stmts),
                        Expr::If(_) => always_returns(&[Stmt::Expr((**e).clone(), None)]),
                        _ => false,
                    },
                    None => false,
                }
        }
        _ => false,
    }
}

struct RetFinder(bool);
impl<'a> visit::Visit<'a> for RetFinder {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn has_return(s: &Stmt) -> bool {
    let mut f = RetFinder(false);
    visit::Visit::visit_stmt(&mut f, s);
    f.0
}
fn has_return_expr(s: &Expr) -> bool {
    let mut f = RetFinder(false);
    visit::Visit::visit_expr(&mut f, s);
    f.0
}

struct SelfSub(Expr);
impl VisitMut for SelfSub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Index(i) => is_place(&i.expr) && (is_place(&i.index) || matches!(&*i.index, Expr::Lit(_))),
        _ => false,
    }
}

fn rename_locals_stmt(stmts: &mut Vec<Stmt>, map: &HashMap<String, Ident>) {
    struct R<'a>(&'a HashMap<String, Ident>);
    impl<'a> VisitMut for R<'a> {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
                if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) {
                    p.path.segments[0].ident = n.clone();
                }
            }
        }
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            if let Some(n) = self.0.get(&p.ident.to_string()) {
                p.ident = n.clone();
            }
            visit_mut::visit_pat_ident_mut(self, p);
        }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            visit_mut::visit_field_value_mut(self, f);
            if f.colon_token.is_none() {
                // shorthand: make explicit
                if let Expr::Path(_) = &f.expr {
                    f.colon_token = Some(Default::default());
                }
            }
        }
    }
    for s in stmts.iter_mut() {
        R(map).visit_stmt_mut(s);
    }
}

struct BindNames(Vec<String>);
impl<'a> visit::Visit<'a> for BindNames {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().unwrap().is_lowercase() || n.starts_with('_') {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}

impl<'a> Inliner<'a> {
    fn try_inline(&mut self, name: &str, ty: Option<&str>, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.known.contains(name) || self.depth > 4 {
            return None;
        }
        let mut found = None;
        for (_, f) in &self.files {
            let q = match ty {
                Some(t) => format!("{}::{}", t, name),
                None => name.to_string(),
            };
            if let Some(x) = find_fn(f, &q) {
                found = Some(x);
                break;
            }
        }
        let f = found?;
        let has_recv = f.sig.receiver().is_some();
        if has_recv != recv.is_some() {
            return None;
        }
        let mut block = f.block.clone();
        let mut c = Clean { err: None };
        c.visit_block_mut(&mut block);
        flatten_block(&mut block);
        let stmts = match structure_returns(block.stmts) {
            Some(s) => s,
            None => {
                self.err = Some(format!("unsupported: helper {} has early returns in loops", name));
                return None;
            }
        };
        let mut stmts = stmts;
        self.counter += 1;
        let k = self.counter;
        // hygiene: rename locals of the helper
        let mut names = BindNames(vec![]);
        for s in &stmts {
            visit::Visit::visit_stmt(&mut names, s);
        }
        let mut map: HashMap<String, Ident> = HashMap::new();
        let mut pre: Vec<Stmt> = vec![];
        let params: Vec<&FnArg> = f.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).collect();
        if params.len() != args.len() {
            return None;
        }
        for (p, a) in params.iter().zip(args.iter()) {
            if let FnArg::Typed(pt) = p {
                if let Pat::Ident(pi) = &*pt.pat {
                    let m = &pi.mutability;
                    // a reference handed on by name keeps that name (a binding would move it)
                    if let (Type::Reference(_) | Type::Ptr(_), Expr::Path(p), None) = (&*pt.ty, a, m) {
                        if let Some(id) = p.path.get_ident() {
                            map.insert(pi.ident.to_string(), id.clone());
                            continue;
                        }
                    }
                    let nn = format_ident!("{}__h{}", pi.ident, k);
                    map.insert(pi.ident.to_string(), nn.clone());
                    pre.push(parse_quote!(let #m #nn = #a;));
                } else {
                    self.err = Some("unsupported: helper parameter pattern".into());
                    return None;
                }
            }
        }
        for n in names.0 {
            map.entry(n.clone()).or_insert_with(|| format_ident!("{}__h{}", n, k));
        }
        rename_locals_stmt(&mut stmts, &map);
        if let Some(r) = recv {
            let r2 = strip_ref(r);
            for s in stmts.iter_mut() {
                SelfSub(r2.clone()).visit_stmt_mut(s);
            }
        }
        self.done.push(name.to_string());
        pre.extend(stmts);
        let b = Block { brace_token: Default::default(), stmts: pre };
        let mut e: Expr = parse_quote!(#b);
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Some(e)
    }
}

fn strip_ref(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) => (*r.expr).clone(),
        Expr::Paren(p) => strip_ref(&p.expr),
        e => e.clone(),
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    let n = segs.last().unwrap().clone();
                    let r = if segs.len() == 1 {
                        if n.chars().next().unwrap().is_uppercase() {
                            None
                        } else {
                            self.try_inline(&n, None, None, args)
                        }
                    } else if segs[segs.len() - 2] == "Self" {
                        let t = self.self_ty.clone();
                        self.try_inline(&n, t.as_deref(), None, args)
                    } else if segs[segs.len() - 2].chars().next().unwrap().is_lowercase() {
                        self.try_inline(&n, None, None, args)
                    } else {
                        let t = segs[segs.len() - 2].clone();
                        self.try_inline(&n, Some(&t), None, args)
                    };
                    if let Some(r) = r {
                        *e = r;
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident("self") {
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        let t = self.self_ty.clone();
                        let recv = (*m.receiver).clone();
                        if let Some(r) = self.try_inline(&n, t.as_deref(), Some(&recv), args) {
                            *e = r;
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- raw-pointer heap
/// Pointers become `Ptr` values (which vector, which index); `(*p).f` becomes `<heap>.node(p).f`,
/// an assignment `(*p).f = v` becomes `<heap>.node_mut(p).f = v`.
struct Heap {
    heap: Expr,
    alias: Vec<HashMap<String, Expr>>,  // `let u = &*p;`: name -> pointer expr
    places: Vec<HashMap<String, Expr>>, // `let m = &<heap>.ctx...;`: name -> place
    n: usize,
    err: Option<String>,
}

const NODE_FIELDS: [&str; 10] =
    ["successor", "predecessor", "route", "number", "angle", "position", "last_tested", "cum_distance", "cum_load", "delta_removal"];
const ROUTE_FIELDS: [&str; 11] = [
    "index", "num_customers", "last_modified", "last_tested_swap_star", "sector", "distance", "load", "overload", "cost", "start_depot", "end_depot",
];

fn field_name(f: &ExprField) -> String {
    match &f.member {
        Member::Named(i) => i.to_string(),
        Member::Unnamed(i) => i.index.to_string(),
    }
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}

impl Heap {
    fn same(&self, e: &Expr) -> bool {
        e.to_token_stream().to_string() == self.heap.to_token_stream().to_string()
    }
    fn single(e: &Expr) -> Option<String> {
        if let Expr::Path(p) = e {
            if p.path.segments.len() == 1 {
                return Some(p.path.segments[0].ident.to_string());
            }
        }
        None
    }
    fn look(v: &[HashMap<String, Expr>], e: &Expr) -> Option<Expr> {
        let n = Self::single(e)?;
        v.iter().rev().find_map(|s| s.get(&n).cloned())
    }
    /// `<heap>.ctx.a.b`
    fn ctx_place(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::Field(f) => (field_name(f) == "ctx" && self.same(unparen(&f.base))) || self.ctx_place(&f.base),
            p => Self::look(&self.places, p).is_some(),
        }
    }
    /// `<heap>.nodes[i]` and the like: the pointer to that element
    fn element(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::Index(ix) = unparen(e) {
            if let Expr::Field(f) = unparen(&ix.expr) {
                if self.same(unparen(&f.base)) {
                    let func = match field_name(f).as_str() {
                        "nodes" => "node_ptr",
                        "start_depots" => "start_ptr",
                        "end_depots" => "end_ptr",
                        "routes" => "route_ptr",
                        _ => return None,
                    };
                    let mut i = (*ix.index).clone();
                    self.visit_expr_mut(&mut i);
                    let h = self.heap.clone();
                    let id = format_ident!("{}", func);
                    return Some(parse_quote!(#h.#id(#i)));
                }
            }
        }
        None
    }
    /// If `e` denotes a heap object (`*p`, an alias, an element), return the pointer expression
    fn object(&mut self, e: &Expr) -> Option<Expr> {
        match unparen(e) {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                let inner = unparen(&u.expr);
                if let Some(p) = Self::look(&self.alias, inner) {
                    return Some(p);
                }
                let mut p = inner.clone();
                self.visit_expr_mut(&mut p);
                Some(p)
            }
            Expr::Reference(r) => self.object(&r.expr),
            p @ Expr::Path(_) => Self::look(&self.alias, p),
            p @ Expr::Index(_) => self.element(p),
            _ => None,
        }
    }
    fn kind(f: &str) -> Option<bool> {
        if NODE_FIELDS.contains(&f) {
            Some(false)
        } else if ROUTE_FIELDS.contains(&f) {
            Some(true)
        } else {
            None
        }
    }
    /// (pointer, is route, field) of a heap place
    fn place(&mut self, e: &Expr) -> Option<(Expr, bool, Ident)> {
        if let Expr::Field(f) = unparen(e) {
            let name = field_name(f);
            let kind = Self::kind(&name)?;
            let p = self.object(&f.base)?;
            return Some((p, kind, format_ident!("{}", name)));
        }
        None
    }
    fn read(&self, p: &Expr, route: bool, f: &Ident) -> Expr {
        let h = &self.heap;
        if route {
            parse_quote!(#h.route(#p).#f)
        } else {
            parse_quote!(#h.node(#p).#f)
        }
    }
    fn write(&mut self, p: Expr, route: bool, f: &Ident, v: Expr) -> Expr {
        let h = self.heap.clone();
        self.n += 1;
        let (q, x, w) = (format_ident!("__q{}", self.n), format_ident!("__x{}", self.n), format_ident!("__w{}", self.n));
        let m = if route { format_ident!("route_mut") } else { format_ident!("node_mut") };
        parse_quote!({ let #x = #v; let #q = #p; let #w = #h.#m(#q); #w.#f = #x; })
    }
}

impl VisitMut for Heap {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.alias.push(HashMap::new());
        self.places.push(HashMap::new());
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    let nm = pi.ident.to_string();
                    if let Expr::Reference(r) = unparen(&init.expr) {
                        if let Some(p) = match unparen(&r.expr) {
                            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.object(&r.expr),
                            ix @ Expr::Index(_) => self.element(ix),
                            _ => None,
                        } {
                            // alias `let u = &*p;`: the pointer value is frozen
                            let tmp = format_ident!("__p_{}", nm);
                            out.push(parse_quote!(let #tmp = #p;));
                            self.alias.last_mut().unwrap().insert(nm, parse_quote!(#tmp));
                            continue;
                        }
                        if self.ctx_place(&r.expr) {
                            let mut p = unparen(&r.expr).clone();
                            self.visit_expr_mut(&mut p);
                            self.places.last_mut().unwrap().insert(nm, p);
                            continue;
                        }
                    }
                    // shadowing by an ordinary local
                    visit_mut::visit_stmt_mut(self, &mut s);
                    for sc in self.alias.iter_mut().chain(self.places.iter_mut()) {
                        sc.remove(&nm);
                    }
                    out.push(s);
                    continue;
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
        self.alias.pop();
        self.places.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Assign(a) => {
                let l = (*a.left).clone();
                if let Some((p, k, f)) = self.place(&l) {
                    let mut v = (*a.right).clone();
                    self.visit_expr_mut(&mut v);
                    *e = self.write(p, k, &f, v);
                    return;
                }
            }
            Expr::Binary(b) => {
                let op = match b.op {
                    BinOp::AddAssign(_) => Some(BinOp::Add(Default::default())),
                    BinOp::SubAssign(_) => Some(BinOp::Sub(Default::default())),
                    BinOp::MulAssign(_) => Some(BinOp::Mul(Default::default())),
                    _ => None,
                };
                if let Some(op) = op {
                    let l = (*b.left).clone();
                    if let Some((p, k, f)) = self.place(&l) {
                        let mut v = (*b.right).clone();
                        self.visit_expr_mut(&mut v);
                        let cur = self.read(&p, k, &f);
                        *e = self.write(p, k, &f, parse_quote!(#cur #op (#v)));
                        return;
                    }
                }
            }
            Expr::Field(_) => {
                let f = e.clone();
                if let Some((p, k, f)) = self.place(&f) {
                    *e = self.read(&p, k, &f);
                    return;
                }
            }
            // a reference to a scalar field: to a copy of it, so that no borrow of the heap stays alive
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Some((p, k, f)) = self.place(&r.expr.clone()) {
                    if f != "sector" {
                        let v = self.read(&p, k, &f);
                        *e = parse_quote!(&{ #v });
                        return;
                    }
                }
            }
            Expr::Path(_) => {
                if let Some(p) = Self::look(&self.places, e) {
                    *e = p;
                    return;
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                // `.sector.reset()` / `.sector.extend(x)`: the receiver is written
                if let Some((p, k, f)) = self.place(&m.receiver.clone()) {
                    if matches!(n.as_str(), "reset" | "extend") {
                        let mut pre: Vec<Stmt> = vec![];
                        let mut args: Vec<Expr> = vec![];
                        for a in m.args.iter() {
                            let mut a = a.clone();
                            self.visit_expr_mut(&mut a);
                            self.n += 1;
                            let x = format_ident!("__x{}", self.n);
                            pre.push(parse_quote!(let #x = #a;));
                            args.push(parse_quote!(#x));
                        }
                        self.n += 1;
                        let (q, w) = (format_ident!("__q{}", self.n), format_ident!("__w{}", self.n));
                        let h = self.heap.clone();
                        let g = if k { format_ident!("route_mut") } else { format_ident!("node_mut") };
                        let id = m.method.clone();
                        *e = parse_quote!({ #(#pre)* let #q = #p; let #w = #h.#g(#q); #w.#f.#id(#(#args),*); });
                        return;
                    }
                }
                // `x.get_mut(..).f(args)` with arguments that read the heap: the arguments (pure reads) first
                let through = matches!(unparen(&m.receiver), Expr::MethodCall(r) if r.method == "get_mut");
                if through && !m.args.is_empty() {
                    self.visit_expr_mut(&mut m.receiver);
                    let mut pre: Vec<Stmt> = vec![];
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                        self.n += 1;
                        let x = format_ident!("__x{}", self.n);
                        pre.push(parse_quote!(let #x = #a;));
                        *a = parse_quote!(#x);
                    }
                    let m = m.clone();
                    *e = parse_quote!({ #(#pre)* #m; });
                    return;
                }
                if (n == "is_depot" || n == "is_empty") && m.args.is_empty() {
                    let base = (*m.receiver).clone();
                    if let Some(p) = self.object(&base) {
                        let h = self.heap.clone();
                        *e = if n == "is_depot" { parse_quote!(#h.node(#p).is_depot()) } else { parse_quote!(#h.route(#p).is_empty()) };
                        return;
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.last().unwrap().ident == "null_mut" {
                        *e = parse_quote!(Ptr::Null);
                        return;
                    }
                }
            }
            // `&mut self.nodes[i] as *mut LinkNode`, `alias as *mut LinkNode`
            Expr::Cast(c) => {
                if let Type::Ptr(_) = &*c.ty {
                    let inner = (*c.expr).clone();
                    if let Some(p) = self.object(&inner) {
                        *e = p;
                        return;
                    }
                    self.err = Some("unsupported: raw pointer cast".into());
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- loops
#[derive(Clone)]
enum Op {
    Rev,
    Enumerate,
    Skip(Expr),
    Take(Expr),
    Map(ExprClosure),
    Filter(ExprClosure),
    FilterMap(ExprClosure),
    Deref,
    Zip(Expr),
    Nop,
}

enum Base {
    Range(Expr, Expr, bool),
    Vec(Expr, char), // 'r' ref, 'm' mut, 'v' value
}

struct Loops<'a> {
    ov: &'a FnOv,
    next: usize,
    skel: Vec<String>,
    depth: usize,
    err: Option<String>,
    inject: bool,
    ty_hint: Option<Type>,
    calls: Vec<String>,
}

fn closure_of(e: &Expr) -> Option<ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c.clone()),
        _ => None,
    }
}

/// comparator closure `|p0, p1| k0.partial_cmp(&k1).unwrap()` -> (p0, k0, p1, k1)
fn cmp_keys(c: &ExprClosure) -> Res<(Pat, Expr, Pat, Expr)> {
    if c.inputs.len() != 2 {
        return unsup("comparator");
    }
    let mut b: Expr = (*c.body).clone();
    loop {
        match b {
            Expr::Paren(p) => b = *p.expr,
            Expr::Group(p) => b = *p.expr,
            Expr::Block(ref bl) if bl.block.stmts.len() == 1 => match &bl.block.stmts[0] {
                Stmt::Expr(e, None) => b = e.clone(),
                _ => return unsup("comparator body"),
            },
            Expr::MethodCall(ref m) if matches!(m.method.to_string().as_str(), "unwrap" | "expect") => b = (*m.receiver).clone(),
            Expr::MethodCall(ref m) if m.method == "reverse" => {
                let mut c2 = c.clone();
                c2.body = m.receiver.clone();
                let (p0, k0, p1, k1) = cmp_keys(&c2)?;
                // reversed: a <= b in the result order iff key(b) <= key(a)
                return Ok((p0, k1, p1, k0));
            }
            Expr::MethodCall(ref m) if m.args.len() == 1 && matches!(m.method.to_string().as_str(), "partial_cmp" | "cmp" | "total_cmp") => {
                let mut k1 = m.args[0].clone();
                while let Expr::Reference(r) = &k1 {
                    k1 = (*r.expr).clone();
                }
                return Ok((c.inputs[0].clone(), (*m.receiver).clone(), c.inputs[1].clone(), k1));
            }
            _ => return unsup("comparator body"),
        }
    }
}

/// `x.m()` inside a key becomes `x.m_spec()`
struct KeySpec;
impl VisitMut for KeySpec {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        m.method = format_ident!("{}_spec", m.method);
    }
    // `v[i]` on a vector becomes `v.view()[i as int]`
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Index(x) = e {
            let (v, i) = (&x.expr, &x.index);
            *e = parse_quote!(#v.view()[(#i) as int]);
        }
    }
}
fn pat_name(p: &Pat) -> Res<Ident> {
    match p {
        Pat::Ident(i) => Ok(i.ident.clone()),
        Pat::Reference(r) => pat_name(&r.pat),
        Pat::Paren(r) => pat_name(&r.pat),
        Pat::Type(t) => pat_name(&t.pat),
        _ => unsup("comparator pattern"),
    }
}

/// `v.sort_by(cmp)` -> `sort_by_spec(&mut v, Ghost(|a, b| key(a) <= key(b)))`; `it.sorted_by(cmp)` is collected into a vector first
pub struct Sorts {
    pub n: usize,
    pub k: usize,
    pub tys: std::collections::BTreeMap<usize, String>,
    pub err: Option<String>,
}
impl Sorts {
    fn lower(&mut self, v: &Expr, c: &Expr) -> Expr {
        let r = closure_of(c).ok_or("unsupported: sort_by without closure".to_string()).and_then(|c| {
            let (p0, mut k0, p1, mut k1) = cmp_keys(&c)?;
            KeySpec.visit_expr_mut(&mut k0);
            KeySpec.visit_expr_mut(&mut k1);
            let (a, b) = (pat_name(&p0)?, pat_name(&p1)?);
            let ty: Type = parse_str(self.tys.get(&self.k).map(|s| s.as_str()).unwrap_or("_")).map_err(|_| "overlay-error @sort type".to_string())?;
            self.k += 1;
            Ok(parse_quote!(sort_by_spec(&mut #v, Ghost(|#a: #ty, #b: #ty| (#k0).to_r_spec() <= (#k1).to_r_spec()))))
        });
        match r {
            Ok(e) => e,
            Err(m) => {
                self.err = Some(m);
                v.clone()
            }
        }
    }
}
/// takes `P.sorted_by(c)` out of a chain
struct TakeSorted(Option<(Expr, Expr)>, Ident);
impl VisitMut for TakeSorted {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.0.is_some() {
            return;
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "sorted_by" && m.args.len() == 1 {
                self.0 = Some(((*m.receiver).clone(), m.args[0].clone()));
                let v = &self.1;
                *e = parse_quote!(#v.into_iter());
                return;
            }
            self.visit_expr_mut(&mut m.receiver);
        }
    }
}
impl VisitMut for Sorts {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let v = format_ident!("__sv{}", self.n);
            let mut t = TakeSorted(None, v.clone());
            match &mut s {
                Stmt::Expr(e, _) => t.visit_expr_mut(e),
                Stmt::Local(l) => {
                    if let Some(i) = &mut l.init {
                        t.visit_expr_mut(&mut i.expr);
                    }
                }
                _ => {}
            }
            if let Some((p, c)) = t.0 {
                self.n += 1;
                out.push(parse_quote!(let mut #v = #p.collect::<Vec<_>>();));
                let call = self.lower(&parse_quote!(#v), &c);
                out.push(Stmt::Expr(call, Some(Default::default())));
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if m.args.len() == 1 && matches!(m.method.to_string().as_str(), "sort_by" | "sort_unstable_by") {
                let v = (*m.receiver).clone();
                let a = m.args[0].clone();
                *e = self.lower(&v, &a);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

const ADAPTERS: [&str; 12] = ["iter", "iter_mut", "into_iter", "rev", "enumerate", "skip", "take", "map", "filter", "filter_map", "copied", "cloned"];

/// split a chain into (base, ops); None when not an iterator chain we know
fn chain(e: &Expr, top_for: bool) -> Option<(Base, Vec<Op>)> {
    let mut ops: Vec<Op> = vec![];
    let mut cur = unparen(e).clone();
    let mut kind: Option<char> = None;
    let mut saw = false;
    loop {
        match cur.clone() {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let a0 = m.args.first().cloned();
                let base_kind_known = kind.is_some();
                if base_kind_known {
                    // `.iter()` already seen: the rest is the base
                    break;
                }
                match n.as_str() {
                    "iter" if m.args.is_empty() => {
                        kind = Some('r');
                        saw = true;
                    }
                    "iter_mut" if m.args.is_empty() => {
                        kind = Some('m');
                        saw = true;
                    }
                    "into_iter" if m.args.is_empty() => {
                        saw = true;
                        if let Expr::Range(_) = unparen(&m.receiver) {
                            ops.push(Op::Nop);
                        } else {
                            kind = Some('v');
                        }
                    }
                    "rev" => ops.push(Op::Rev),
                    "enumerate" => ops.push(Op::Enumerate),
                    "skip" => ops.push(Op::Skip(a0?)),
                    "take" => ops.push(Op::Take(a0?)),
                    "map" => ops.push(Op::Map(closure_of(&a0?)?)),
                    "filter" => ops.push(Op::Filter(closure_of(&a0?)?)),
                    "filter_map" => ops.push(Op::FilterMap(closure_of(&a0?)?)),
                    "copied" | "cloned" => ops.push(Op::Deref),
                    "zip" => ops.push(Op::Zip(a0?)),
                    _ => break,
                }
                cur = unparen(&m.receiver).clone();
            }
            _ => break,
        }
    }
    ops.reverse();
    let base = match (&cur, kind) {
        (Expr::Range(r), None) => {
            let lo = r.start.as_ref()?;
            let hi = r.end.as_ref()?;
            Base::Range((**lo).clone(), (**hi).clone(), matches!(r.limits, RangeLimits::Closed(_)))
        }
        (_, Some(k)) => {
            // slices `&v[..n]` / `v[a..b].iter()`
            Base::Vec(cur.clone(), k)
        }
        (Expr::Reference(r), None) if top_for => Base::Vec((*r.expr).clone(), if r.mutability.is_some() { 'm' } else { 'r' }),
        (_, None) if top_for && !saw && ops.is_empty() => {
            if let Expr::Path(_) | Expr::Field(_) = &cur {
                Base::Vec(cur.clone(), 'v')
            } else {
                return None;
            }
        }
        _ => return None,
    };
    Some((base, ops))
}

struct Lowered {
    setup: Vec<Stmt>,
    cond: Expr,
    bind: Vec<Stmt>, // index increment, item computation (may `continue`)
    item: Expr,
    src_desc: String,
}

fn bind_pat(pat: &Pat, item: &Expr, out: &mut Vec<Stmt>) {
    match pat {
        Pat::Paren(p) => bind_pat(&p.pat, item, out),
        Pat::Wild(_) => {}
        Pat::Type(t) => {
            let (p, ty) = (&t.pat, &t.ty);
            out.push(parse_quote!(let #p: #ty = #item;));
        }
        Pat::Reference(r) => match unparen(item) {
            Expr::Reference(ir) => bind_pat(&r.pat, &ir.expr, out),
            _ => {
                let d: Expr = parse_quote!(*#item);
                bind_pat(&r.pat, &d, out)
            }
        },
        Pat::Tuple(t) => {
            if let Expr::Tuple(it) = unparen(item) {
                if it.elems.len() == t.elems.len() {
                    for (p, i) in t.elems.iter().zip(it.elems.iter()) {
                        bind_pat(p, i, out);
                    }
                    return;
                }
            }
            // destructure by field
            for (k, p) in t.elems.iter().enumerate() {
                let ix = Index::from(k);
                let base: Expr = unparen(item).clone();
                let f: Expr = match &base {
                    Expr::Reference(r) => {
                        let (b, m) = (&r.expr, &r.mutability);
                        parse_quote!(&#m #b.#ix)
                    }
                    b => parse_quote!((#b).#ix),
                };
                bind_pat(p, &f, out);
            }
        }
        p => out.push(parse_quote!(let #p = #item;)),
    }
}

impl<'a> Loops<'a> {
    fn lower_source(&mut self, k: usize, base: Base, ops: &[Op]) -> Res<Lowered> {
        let i = format_ident!("__i{}", k);
        let mut setup: Vec<Stmt> = vec![];
        let mut bind: Vec<Stmt> = vec![];
        let mut desc = String::new();
        // reverse?
        let mut rev = false;
        let mut skip: Option<Expr> = None;
        let mut take: Option<Expr> = None;
        // leading positional ops (rev/skip/take before any map/filter)
        let mut rest: Vec<Op> = vec![];
        let mut positional = true;
        let mut filtered = false;
        let mut enum_off = false;
        for o in ops {
            match o {
                Op::Nop => {}
                Op::Rev => {
                    if rev || take.is_some() || (skip.is_some()) || rest.iter().any(|o| matches!(o, Op::Filter(_) | Op::FilterMap(_))) {
                        return unsup("rev after skip/take/filter");
                    }
                    rev = true;
                }
                Op::Skip(e) => {
                    if !positional || skip.is_some() || take.is_some() || rev {
                        return unsup("skip position");
                    }
                    skip = Some(e.clone());
                }
                Op::Take(e) => {
                    if filtered {
                        rest.push(o.clone());
                    } else if take.is_some() || rev {
                        return unsup("take position");
                    } else {
                        take = Some(e.clone());
                    }
                }
                Op::Enumerate => {
                    if skip.is_some() && !filtered {
                        enum_off = true;
                    }
                    rest.push(o.clone());
                }
                Op::Map(_) | Op::Filter(_) | Op::FilterMap(_) => {
                    positional = false;
                    filtered |= !matches!(o, Op::Map(_));
                    rest.push(o.clone());
                }
                Op::Deref | Op::Zip(_) => rest.push(o.clone()),
            }
        }
        if rev && rest.iter().any(|o| matches!(o, Op::Enumerate)) {
            // v.iter().enumerate().rev() is fine (index = position); rev().enumerate() is not
            let pr = ops.iter().position(|o| matches!(o, Op::Rev)).unwrap();
            let pn = ops.iter().position(|o| matches!(o, Op::Enumerate)).unwrap();
            if pr < pn {
                return unsup("rev().enumerate()");
            }
        }
        let mut item: Expr;
        let cond: Expr;
        let lo_name = format_ident!("__s{}", k);
        let hi_name = format_ident!("__e{}", k);
        match base {
            Base::Range(lo, hi, closed) => {
                desc.push_str("range");
                if skip.is_some() || take.is_some() {
                    return unsup("skip/take on range");
                }
                setup.push(parse_quote!(let #lo_name = #lo;));
                setup.push(parse_quote!(let #hi_name = #hi;));
                if rev {
                    if closed {
                        return unsup("rev on inclusive range");
                    }
                    setup.push(parse_quote!(let mut #i = #hi_name;));
                    cond = parse_quote!(#i > #lo_name);
                    bind.push(parse_quote!(#i = #i - 1;));
                    item = parse_quote!(#i);
                } else {
                    setup.push(parse_quote!(let mut #i = #lo_name;));
                    cond = if closed { parse_quote!(#i <= #hi_name) } else { parse_quote!(#i < #hi_name) };
                    let c = format_ident!("__c{}", k);
                    bind.push(parse_quote!(let #c = #i;));
                    bind.push(parse_quote!(#i = #i + 1;));
                    item = parse_quote!(#c);
                }
            }
            Base::Vec(e, kind) => {
                desc.push_str("vec");
                let mut e = unparen(&e).clone();
                if let Expr::Reference(r) = &e {
                    e = unparen(&r.expr).clone();
                }
                // slice base
                if let Expr::Index(ix) = &e {
                    if let Expr::Range(r) = unparen(&ix.index) {
                        if let Some(s) = &r.start {
                            skip = Some((**s).clone());
                        }
                        if let Some(h) = &r.end {
                            if skip.is_some() {
                                return unsup("slice base with both bounds");
                            }
                            let h = h.clone();
                            setup.push(parse_quote!(let #hi_name = #h;));
                            let b = ix.expr.clone();
                            setup.push(parse_quote!(rt_assert(#hi_name <= #b.len());));
                            take = Some(parse_quote!(#hi_name));
                        }
                        e = (*ix.expr).clone();
                    }
                }
                let place: Expr = if is_place(&e) {
                    e.clone()
                } else {
                    let v = format_ident!("__v{}", k);
                    if kind == 'r' {
                        setup.push(parse_quote!(let #v = #e;));
                    } else {
                        setup.push(parse_quote!(let #v = #e;));
                    }
                    parse_quote!(#v)
                };
                if let Some(t) = &take {
                    if let Expr::Path(p) = t {
                        if p.path.is_ident(&hi_name.to_string()) {
                        } else {
                            setup.push(parse_quote!(let #hi_name = min_usize(#t, #place.len());));
                        }
                    } else {
                        setup.push(parse_quote!(let #hi_name = min_usize(#t, #place.len());));
                    }
                }
                if rev {
                    setup.push(parse_quote!(let mut #i: usize = #place.len();));
                    cond = parse_quote!(#i > 0);
                    bind.push(parse_quote!(#i = #i - 1;));
                } else {
                    match &skip {
                        Some(s) => {
                            setup.push(parse_quote!(let #lo_name: usize = #s;));
                            setup.push(parse_quote!(let mut #i: usize = #lo_name;));
                        }
                        None => setup.push(parse_quote!(let mut #i: usize = 0;)),
                    }
                    cond = if take.is_some() { parse_quote!(#i < #hi_name) } else { parse_quote!(#i < #place.len()) };
                }
                let idx: Expr = if rev {
                    parse_quote!(#i)
                } else {
                    let c = format_ident!("__c{}", k);
                    bind.push(parse_quote!(let #c = #i;));
                    bind.push(parse_quote!(#i = #i + 1;));
                    parse_quote!(#c)
                };
                item = match self.ov.items.get(&k).map(|s| if s.starts_with("value ") { "value" } else { s.as_str() }) {
                    Some("value") => parse_quote!(#place[#idx]),
                    Some("clone") => parse_quote!(#place[#idx].clone()),
                    _ => match kind {
                        'm' => parse_quote!(&mut #place[#idx]),
                        'v' => {
                            // by-value iteration: elements must be Copy (checked by rustc)
                            parse_quote!(#place[#idx])
                        }
                        _ => parse_quote!(&#place[#idx]),
                    },
                };
            }
        }
        let mut tmp = 0usize;
        let mut after_filter = false;
        for o in &rest {
            match o {
                Op::Enumerate if after_filter => {
                    // position among the items that pass the filter
                    let (cnt, cur) = (format_ident!("__n{}_{}", k, tmp), format_ident!("__n{}_{}c", k, tmp));
                    tmp += 1;
                    setup.push(parse_quote!(let mut #cnt: usize = 0;));
                    bind.push(parse_quote!(let #cur = #cnt;));
                    bind.push(parse_quote!(#cnt = #cnt + 1;));
                    item = parse_quote!((#cur, #item));
                    desc.push_str(".enum");
                }
                Op::Take(e) => {
                    let (cnt, lim) = (format_ident!("__n{}_{}", k, tmp), format_ident!("__n{}_{}e", k, tmp));
                    tmp += 1;
                    setup.push(parse_quote!(let #lim: usize = #e;));
                    setup.push(parse_quote!(let mut #cnt: usize = 0;));
                    bind.push(parse_quote!(if #cnt >= #lim { break; }));
                    bind.push(parse_quote!(#cnt = #cnt + 1;));
                    desc.push_str(".take");
                }
                Op::Enumerate => {
                    let c: Expr = if rev { parse_quote!(#i) } else { let c = format_ident!("__c{}", k); parse_quote!(#c) };
                    let c: Expr = if enum_off { parse_quote!(#c - #lo_name) } else { c };
                    item = parse_quote!((#c, #item));
                    desc.push_str(".enum");
                }
                Op::Deref => {
                    item = match unparen(&item) {
                        Expr::Reference(r) => (*r.expr).clone(),
                        e => parse_quote!(*#e),
                    };
                }
                Op::Map(c) => {
                    let mut b = vec![];
                    bind_pat(&c.inputs[0], &item, &mut b);
                    bind.extend(b);
                    let body = &c.body;
                    let t = format_ident!("__m{}_{}", k, tmp);
                    tmp += 1;
                    bind.push(parse_quote!(let #t = #body;));
                    item = parse_quote!(#t);
                    desc.push_str(".map");
                }
                Op::Filter(c) => {
                    let it2: Expr = parse_quote!(&#item);
                    let mut b = vec![];
                    bind_pat(&c.inputs[0], &it2, &mut b);
                    bind.extend(b);
                    let body = &c.body;
                    bind.push(parse_quote!(if !(#body) { continue; }));
                    after_filter = true;
                    desc.push_str(".filter");
                }
                Op::FilterMap(c) => {
                    let mut b = vec![];
                    bind_pat(&c.inputs[0], &item, &mut b);
                    bind.extend(b);
                    let body = &c.body;
                    let t = format_ident!("__m{}_{}", k, tmp);
                    tmp += 1;
                    bind.push(parse_quote!(let #t = #body;));
                    bind.push(parse_quote!(if #t.is_none() { continue; }));
                    after_filter = true;
                    item = parse_quote!(#t.unwrap());
                    desc.push_str(".fmap");
                }
                Op::Zip(e) => {
                    let mut z = unparen(e).clone();
                    if let Expr::MethodCall(m) = &z {
                        if m.method == "iter" {
                            z = (*m.receiver).clone();
                        }
                    }
                    if let Expr::Reference(r) = &z {
                        z = (*r.expr).clone();
                    }
                    if !is_place(&z) || rev || skip.is_some() {
                        return unsup("zip operand");
                    }
                    let c = format_ident!("__c{}", k);
                    bind.insert(2, parse_quote!(if #c >= #z.len() { break; }));
                    item = parse_quote!((#item, &#z[#c]));
                    desc.push_str(".zip");
                }
                _ => {}
            }
        }
        if rev {
            desc.push_str(".rev");
        }
        Ok(Lowered { setup, cond, bind, item, src_desc: desc })
    }

    fn inv_stmt(&self, k: usize) -> Stmt {
        let l = LitInt::new(&k.to_string(), Span::call_site());
        parse_quote!(__loop_inv!(#l);)
    }
    fn proof_stmt(&self, what: &str) -> Stmt {
        parse_quote!(__proof!(#what);)
    }

    fn assemble(&mut self, k: usize, lw: Lowered, pat_binds: Vec<Stmt>, mut body: Vec<Stmt>, label: Option<Label>, extra_after: Vec<Stmt>) -> Vec<Stmt> {
        let mut b: Vec<Stmt> = vec![self.inv_stmt(k)];
        b.push(self.proof_stmt(&format!("loop {} head", k)));
        b.extend(lw.bind);
        b.extend(pat_binds);
        b.push(self.proof_stmt(&format!("loop {} start", k)));
        // a trailing expression must become a statement
        if let Some(Stmt::Expr(e, semi)) = body.last_mut() {
            if semi.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Block(_) | Expr::Loop(_) | Expr::ForLoop(_)) {
                *semi = Some(Default::default());
            }
        }
        b.extend(body);
        b.push(self.proof_stmt(&format!("loop {} end", k)));
        let cond = lw.cond;
        let wb = Block { brace_token: Default::default(), stmts: b };
        let mut out = lw.setup;
        out.push(self.proof_stmt(&format!("before loop {}", k)));
        out.push(parse_quote!(#label while #cond #wb));
        out.push(self.proof_stmt(&format!("after loop {}", k)));
        out.extend(extra_after);
        out
    }

    fn new_loop(&mut self, d: &str) -> usize {
        let k = self.next;
        self.next += 1;
        self.skel.push(format!("{}{}", self.depth, d));
        k
    }

    fn lower_for(&mut self, f: &ExprForLoop) -> Res<Vec<Stmt>> {
        let (base, ops) = match chain(&f.expr, true) {
            Some(x) => x,
            None => return unsup(&format!("for over `{}`", f.expr.to_token_stream())),
        };
        // `for &x in v`: v yields references
        let base = match (base, &*f.pat) {
            (Base::Vec(e, 'v'), Pat::Reference(_)) if ops.is_empty() => Base::Vec(e, 'r'),
            (b, _) => b,
        };
        let k = self.new_loop("f");
        // `@item K ref`: the sequence is a reference, its items are references
        let base = match base {
            Base::Vec(e, 'v') if ops.is_empty() && self.ov.items.get(&k).map_or(false, |t| t == "ref") => Base::Vec(e, 'r'),
            b => b,
        };
        let mut lw = self.lower_source(k, base, &ops)?;
        self.depth += 1;
        for s in lw.bind.iter_mut().chain(lw.setup.iter_mut()) {
            self.visit_stmt_mut(s);
        }
        let item = lw.item.clone();
        let mut pb = vec![];
        bind_pat(&f.pat, &item, &mut pb);
        let mut body = f.body.clone();
        Breaks(k).visit_block_mut(&mut body);
        self.visit_block_mut(&mut body);
        self.depth -= 1;
        Ok(self.assemble(k, lw, pb, body.stmts, f.label.clone(), vec![]))
    }

    fn sink(&mut self, e: &Expr) -> Res<Option<Expr>> {
        // collect / sum / count / any / all / for_each / fold / extend handled elsewhere
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if !matches!(n.as_str(), "collect" | "sum" | "count" | "any" | "all" | "for_each" | "fold" | "position" | "max_by" | "min_by") {
                return Ok(None);
            }
            let (base, ops) = match chain(&m.receiver, false) {
                Some(x) => x,
                None => return Ok(None),
            };
            let k = self.new_loop(&n[..1]);
            let hint0 = self.ty_hint.take();
            let mut lw = self.lower_source(k, base, &ops)?;
            self.depth += 1;
            for s in lw.bind.iter_mut().chain(lw.setup.iter_mut()) {
                self.visit_stmt_mut(s);
            }
            self.depth -= 1;
            self.ty_hint = hint0;
            let item = lw.item.clone();
            let a = format_ident!("__a{}", k);
            let (init, mut body, res): (Stmt, Vec<Stmt>, Expr) = match n.as_str() {
                "collect" => {
                    if let Some(tf) = &m.turbofish {
                        if !tf.to_token_stream().to_string().contains("Vec") {
                            return unsup("collect into non-Vec");
                        }
                    }
                    let hint: Option<Type> = match &self.ty_hint {
                        Some(t) if t.to_token_stream().to_string().starts_with("Vec <") => Some(t.clone()),
                        _ => None,
                    };
                    let init: Stmt = match (hint, self.ov.items.get(&k).filter(|t| *t != "value" && *t != "clone")) {
                        (_, Some(t)) => {
                            let t: Type = match parse_str(t.strip_prefix("value ").unwrap_or(t)) {
                                Ok(t) => t,
                                Err(_) => return unsup("@item type"),
                            };
                            parse_quote!(let mut #a: Vec<#t> = Vec::new();)
                        }
                        (Some(t), _) => parse_quote!(let mut #a: #t = Vec::new();),
                        _ => parse_quote!(let mut #a = Vec::new();),
                    };
                    (init, vec![parse_quote!(#a.push(#item);)], parse_quote!(#a))
                }
                "sum" => {
                    let ty: Option<String> = m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string()).or(self.ty_hint.as_ref().map(|t| t.to_token_stream().to_string()));
                    let z: Expr = match ty.as_deref() {
                        Some("f64") | None => parse_quote!(0.0),
                        Some(t) => {
                            let l = LitInt::new(&format!("0{}", t), Span::call_site());
                            parse_quote!(#l)
                        }
                    };
                    (parse_quote!(let mut #a = #z;), vec![parse_quote!(#a = #a + #item;)], parse_quote!(#a))
                }
                "count" => (parse_quote!(let mut #a: usize = 0;), vec![parse_quote!(#a = #a + 1;)], parse_quote!(#a)),
                "position" => {
                    let c = closure_of(m.args.first().unwrap()).ok_or("unsupported: position without closure")?;
                    let cnt = format_ident!("__p{}", k);
                    let mut b = vec![];
                    bind_pat(&c.inputs[0], &item, &mut b);
                    let body = &c.body;
                    b.push(parse_quote!(if #body { #a = Some(#cnt); break; }));
                    b.push(parse_quote!(#cnt = #cnt + 1;));
                    lw.setup.push(parse_quote!(let mut #cnt: usize = 0;));
                    (parse_quote!(let mut #a: Option<usize> = None;), b, parse_quote!(#a))
                }
                "any" | "all" => {
                    let c = closure_of(m.args.first().unwrap()).ok_or("unsupported: any/all without closure")?;
                    let mut b = vec![];
                    bind_pat(&c.inputs[0], &item, &mut b);
                    let body = &c.body;
                    if n == "any" {
                        b.push(parse_quote!(if #body { #a = true; break; }));
                        (parse_quote!(let mut #a = false;), b, parse_quote!(#a))
                    } else {
                        b.push(parse_quote!(if !(#body) { #a = false; break; }));
                        (parse_quote!(let mut #a = true;), b, parse_quote!(#a))
                    }
                }
                "for_each" => {
                    let c = closure_of(m.args.first().unwrap()).ok_or("unsupported: for_each without closure")?;
                    let mut b = vec![];
                    bind_pat(&c.inputs[0], &item, &mut b);
                    let body = &c.body;
                    b.push(parse_quote!(#body;));
                    (parse_quote!(let #a = ();), b, parse_quote!(#a))
                }
                "fold" => {
                    let init = m.args.first().unwrap();
                    let c = closure_of(m.args.iter().nth(1).unwrap()).ok_or("unsupported: fold without closure")?;
                    let mut b = vec![];
                    bind_pat(&c.inputs[0], &parse_quote!(#a), &mut b);
                    bind_pat(&c.inputs[1], &item, &mut b);
                    let body = &c.body;
                    b.push(parse_quote!(#a = #body;));
                    (parse_quote!(let mut #a = #init;), b, parse_quote!(#a))
                }
                "max_by" | "min_by" => {
                    let c = m.args.first().and_then(closure_of).ok_or("unsupported: max_by without closure")?;
                    let (p0, k0, p1, k1) = cmp_keys(&c)?;
                    let (it, bst) = (format_ident!("__x{}", k), format_ident!("__b{}", k));
                    let mut b: Vec<Stmt> = vec![parse_quote!(let #it = #item;)];
                    let mut ib: Vec<Stmt> = vec![];
                    bind_pat(&p0, &parse_quote!(#bst), &mut ib);
                    bind_pat(&p1, &parse_quote!(&#it), &mut ib);
                    let gt: Expr = if n == "max_by" { parse_quote!(!((#k0).to_r() > (#k1).to_r())) } else { parse_quote!((#k0).to_r() > (#k1).to_r()) };
                    b.push(parse_quote!(ty_link(&#a, &#it);));
                    b.push(parse_quote!(let __upd = match &#a { None => true, Some(#bst) => { #(#ib)* #gt } };));
                    b.push(parse_quote!(if __upd { #a = Some(#it); }));
                    let init: Stmt = match self.ov.items.get(&k).filter(|t| *t != "value" && *t != "clone").map(|t| parse_str::<Type>(t)) {
                        Some(Ok(t)) => parse_quote!(let mut #a: Option<#t> = None;),
                        Some(Err(_)) => return unsup("@item type"),
                        None => parse_quote!(let mut #a = None;),
                    };
                    (init, b, parse_quote!(#a))
                }
                _ => return unsup(&n),
            };
            self.depth += 1;
            for s in body.iter_mut() {
                self.visit_stmt_mut(s);
            }
            self.depth -= 1;
            let stmts = self.assemble(k, lw, vec![], body, None, vec![]);
            let mut all = vec![init];
            all.extend(stmts);
            all.push(Stmt::Expr(res, None));
            let b = Block { brace_token: Default::default(), stmts: all };
            return Ok(Some(parse_quote!(#b)));
        }
        Ok(None)
    }
}

struct CallNames(Vec<String>);
impl<'a> visit::Visit<'a> for CallNames {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.0.push(c.method.to_string());
        visit::visit_expr_method_call(self, c);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// anchors in front of the breaks and continues of a loop
struct Breaks(usize);
impl VisitMut for Breaks {
    fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
    fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
    fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(e, _) = &s {
                if matches!(e, Expr::Break(b) if b.label.is_none()) || matches!(e, Expr::Continue(b) if b.label.is_none()) {
                    let a = format!("loop {} break", self.0);
                    out.push(parse_quote!(__proof!(#a);));
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
        }
        b.stmts = out;
    }
}

impl<'a> VisitMut for Loops<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            // `let x: T = chain.sum()` type hint
            if let Stmt::Local(l) = &s {
                self.ty_hint = None;
                if let Pat::Type(t) = &l.pat {
                    self.ty_hint = Some((*t.ty).clone());
                }
            }
            // statement anchors: `after let x`, `before call f`, `after call f`
            let mut before: Vec<String> = vec![];
            let mut after: Vec<String> = vec![];
            if let Stmt::Local(l) = &s {
                let p = match &l.pat {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                if let Pat::Ident(i) = p {
                    after.push(format!("after let {}", i.ident));
                }
            }
            if !matches!(s, Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_), _)) {
                let mut f = CallNames(vec![]);
                visit::Visit::visit_stmt(&mut f, &s);
                for n in f.0 {
                    before.push(format!("before call {}", n));
                    after.push(format!("after call {}", n));
                    let k = self.calls.iter().filter(|x| **x == n).count();
                    before.push(format!("before call {} {}", n, k));
                    after.push(format!("after call {} {}", n, k));
                    self.calls.push(n);
                }
            }
            let was_for = matches!(s, Stmt::Expr(Expr::ForLoop(_), _));
            self.visit_stmt_mut(&mut s);
            self.ty_hint = None;
            if was_for {
                if let Stmt::Expr(Expr::Block(bl), _) = &mut s {
                    // names are numbered by loop, so the block needs no scope of its own
                    out.append(&mut bl.block.stmts);
                    continue;
                }
            }
            let tail = matches!(s, Stmt::Expr(_, None));
            for a in before {
                if self.ov.at.iter().any(|(x, _)| *x == a) {
                    out.push(self.proof_stmt(&a));
                }
            }
            out.push(s);
            for a in after {
                if !tail && self.ov.at.iter().any(|(x, _)| *x == a) {
                    out.push(self.proof_stmt(&a));
                }
            }
        }
        b.stmts = out;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        // blocks used as statements do not need a `;`
        if let Stmt::Expr(Expr::Block(_), semi) = s {
            let _ = semi;
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let f2 = f.clone();
                match self.lower_for(&f2) {
                    Ok(st) => {
                        let b = Block { brace_token: Default::default(), stmts: st };
                        *e = parse_quote!(#b);
                    }
                    Err(m) => self.err = Some(m),
                }
                return;
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    // while let P = e { body }  ->  loop { match e { P => {body} _ => {break;} } }
                    let (p, ex, body, label) = (&l.pat, &l.expr, &w.body, &w.label);
                    *e = parse_quote!(#label loop { match #ex { #p => #body _ => { break; } } });
                    self.visit_expr_mut(e);
                    return;
                }
                let k = self.new_loop("w");
                self.visit_expr_mut(&mut w.cond);
                self.depth += 1;
                let mut body = w.body.clone();
                Breaks(k).visit_block_mut(&mut body);
                self.visit_block_mut(&mut body);
                self.depth -= 1;
                let mut b: Vec<Stmt> = vec![self.inv_stmt(k), self.proof_stmt(&format!("loop {} head", k)), self.proof_stmt(&format!("loop {} start", k))];
                b.extend(body.stmts);
                b.push(self.proof_stmt(&format!("loop {} end", k)));
                let wb = Block { brace_token: Default::default(), stmts: b };
                let (cond, label) = (&w.cond, &w.label);
                let p1 = self.proof_stmt(&format!("before loop {}", k));
                let p2 = self.proof_stmt(&format!("after loop {}", k));
                *e = parse_quote!({ #p1 #label while #cond #wb #p2 });
                return;
            }
            Expr::Loop(w) => {
                let k = self.new_loop("l");
                self.depth += 1;
                let mut body = w.body.clone();
                Breaks(k).visit_block_mut(&mut body);
                self.visit_block_mut(&mut body);
                self.depth -= 1;
                let mut b: Vec<Stmt> = vec![self.inv_stmt(k), self.proof_stmt(&format!("loop {} head", k)), self.proof_stmt(&format!("loop {} start", k))];
                b.extend(body.stmts);
                b.push(self.proof_stmt(&format!("loop {} end", k)));
                let wb = Block { brace_token: Default::default(), stmts: b };
                let label = &w.label;
                let p1 = self.proof_stmt(&format!("before loop {}", k));
                let p2 = self.proof_stmt(&format!("after loop {}", k));
                *e = parse_quote!({ #p1 #label loop #wb #p2 });
                return;
            }
            // v.retain(|p| keep)  ->  the elements from the front on, the others removed in place
            Expr::MethodCall(m) if m.method == "retain" && m.args.len() == 1 && closure_of(&m.args[0]).is_some() => {
                let c = closure_of(&m.args[0]).unwrap();
                let (v, body) = (m.receiver.clone(), c.body.clone());
                let mut b = vec![];
                bind_pat(&c.inputs[0], &parse_quote!(&#v[__rt]), &mut b);
                *e = parse_quote!({ let mut __rt: usize = 0; while __rt < #v.len() { #(#b)* if #body { __rt = __rt + 1; } else { #v.remove(__rt); } } });
                self.visit_expr_mut(e);
                return;
            }
            Expr::MethodCall(_) => {
                let e2 = e.clone();
                match self.sink(&e2) {
                    Ok(Some(ne)) => {
                        *e = ne;
                        return;
                    }
                    Ok(None) => {}
                    Err(m) => {
                        self.err = Some(m);
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- floats & misc
pub struct Misc {
    pub mut_ctx: HashSet<String>,
    pub err: Option<String>,
}

fn real_lit(s: &str) -> Res<String> {
    // expand exponent notation into a plain decimal
    let s = s.replace('_', "");
    let (m, e) = match s.find(['e', 'E']) {
        Some(p) => (s[..p].to_string(), s[p + 1..].parse::<i32>().map_err(|_| "unsupported: float literal")?),
        None => (s.clone(), 0),
    };
    let (ip, fp) = match m.find('.') {
        Some(p) => (m[..p].to_string(), m[p + 1..].to_string()),
        None => (m.clone(), String::new()),
    };
    let mut digits = format!("{}{}", ip, fp);
    let mut point = ip.len() as i32 + e;
    while point > digits.len() as i32 {
        digits.push('0');
    }
    while point < 1 {
        digits.insert(0, '0');
        point += 1;
    }
    let (a, b) = digits.split_at(point as usize);
    let b = b.trim_end_matches('0');
    let a = a.trim_start_matches('0');
    Ok(format!("{}.{}real", if a.is_empty() { "0" } else { a }, if b.is_empty() { "0" } else { b }))
}

impl VisitMut for Misc {
    fn visit_type_mut(&mut self, t: &mut Type) {
        match t {
            Type::Path(p) => {
                let l = p.path.segments.last().unwrap().ident.to_string();
                if l == "f64" {
                    *t = parse_quote!(R);
                    return;
                }
                // drop module prefixes
                if p.qself.is_none() && p.path.segments.len() > 1 {
                    let seg = p.path.segments.last().unwrap().clone();
                    let mut np = punctuated::Punctuated::new();
                    np.push(seg);
                    p.path.segments = np;
                    p.path.leading_colon = None;
                }
            }
            Type::Ptr(p) => {
                let s = p.elem.to_token_stream().to_string();
                if s.ends_with("LinkNode") {
                    *t = parse_quote!(Ptr);
                    return;
                }
                if s.ends_with("LinkRoute") {
                    *t = parse_quote!(Ptr);
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // `let x = c.borrow();` / borrow_mut
        for s in b.stmts.iter_mut() {
            if let Stmt::Local(l) = s {
                if let Some(init) = &mut l.init {
                    if let Expr::MethodCall(m) = &*init.expr {
                        let n = m.method.to_string();
                        if m.args.is_empty() && n == "borrow" {
                            let r = &m.receiver;
                            init.expr = parse_quote!(&#r);
                        } else if m.args.is_empty() && n == "borrow_mut" {
                            let r = &m.receiver;
                            init.expr = parse_quote!(&mut #r);
                            if let Pat::Ident(pi) = &mut l.pat {
                                pi.mutability = None;
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
        // statement-position blocks: drop redundant `;`
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `*cell.borrow()`, `*cell.borrow_mut()` -> `cell`
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
            if let Expr::MethodCall(m) = unparen(expr) {
                if (m.method == "borrow" || m.method == "borrow_mut") && m.args.is_empty() {
                    let r = (*m.receiver).clone();
                    *e = r;
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        if let Expr::Call(c) = e {
            if c.args.len() == 1 && c.func.to_token_stream().to_string() == "RefCell :: new" {
                *e = c.args[0].clone();
                self.visit_expr_mut(e);
                return;
            }
        }
        // method simplifications first (outermost)
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if (n == "borrow" || n == "borrow_mut") && m.args.is_empty() {
                let r = (*m.receiver).clone();
                *e = r;
                self.visit_expr_mut(e);
                return;
            }
            // `v.extend(w.iter())`, `v.extend(w.clone())` -> vec_extend(&mut v, &w)
            if matches!(n.as_str(), "extend" | "extend_from_slice") && m.args.len() == 1 {
                let mut a = unparen(&m.args[0]).clone();
                let mut hit = n == "extend_from_slice";
                loop {
                    match a.clone() {
                        Expr::MethodCall(im) if im.args.is_empty() && matches!(im.method.to_string().as_str(), "iter" | "into_iter" | "clone" | "copied" | "cloned") => {
                            a = unparen(&im.receiver).clone();
                            hit = true;
                        }
                        Expr::Reference(r) => {
                            a = unparen(&r.expr).clone();
                            hit = true;
                        }
                        _ => break,
                    }
                }
                if hit {
                    let r = &m.receiver;
                    *e = parse_quote!(vec_extend(&mut #r, &#a));
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            if matches!(n.as_str(), "unwrap" | "expect") {
                if let Expr::MethodCall(im) = &*m.receiver {
                    let inn = im.method.to_string();
                    if im.args.len() == 1 && (inn == "get_mut" || inn == "get") {
                        let (r, a) = (&im.receiver, &im.args[0]);
                        if !matches!(a, Expr::Reference(_)) {
                            *e = if inn == "get_mut" { parse_quote!((&mut #r[#a])) } else { parse_quote!((&#r[#a])) };
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                    if im.args.is_empty() && (inn == "last" || inn == "first") {
                        let r = &im.receiver;
                        *e = if inn == "last" { parse_quote!((&#r[#r.len() - 1])) } else { parse_quote!((&#r[0])) };
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            if n.starts_with("approx_") && m.args.len() == 1 {
                // implemented for f64 and &f64 alike
                if let Expr::Reference(r) = unparen(&m.args[0]).clone() {
                    m.args[0] = *r.expr;
                }
            }
            if n == "map_or" && m.args.len() == 2 {
                if let Some(c) = closure_of(&m.args[1]) {
                    let (r, d, p, b) = (&m.receiver, &m.args[0], &c.inputs[0], &c.body);
                    *e = parse_quote!((match #r { Some(#p) => #b, None => #d }));
                    self.visit_expr_mut(e);
                    return;
                }
            }
            if n == "is_some_and" && m.args.len() == 1 {
                if let Some(c) = closure_of(&m.args[0]) {
                    let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                    *e = parse_quote!((match #r { Some(#p) => #b, None => false }));
                    self.visit_expr_mut(e);
                    return;
                }
            }
            if n == "as_mut_slice" && m.args.is_empty() {
                let r = (*m.receiver).clone();
                *e = parse_quote!(&mut #r);
                self.visit_expr_mut(e);
                return;
            }
            if n == "get_unchecked" && m.args.len() == 1 {
                let (r, a) = (&m.receiver, &m.args[0]);
                *e = parse_quote!((&#r[#a]));
                self.visit_expr_mut(e);
                return;
            }
            if n == "get_unchecked_mut" && m.args.len() == 1 {
                let (r, a) = (&m.receiver, &m.args[0]);
                *e = parse_quote!((&mut #r[#a]));
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                if let (Pat::TupleStruct(ts), Expr::MethodCall(m)) = (&*l.pat, unparen(&l.expr)) {
                    let n = m.method.to_string();
                    if ts.path.is_ident("Some") && ts.elems.len() == 1 && m.args.is_empty() && matches!(n.as_str(), "last" | "last_mut" | "first" | "first_mut") {
                        let (p, r, th) = (&ts.elems[0], &m.receiver, &i.then_branch.stmts);
                        let ix: Expr = if n.starts_with("last") { parse_quote!(#r.len() - 1) } else { parse_quote!(0) };
                        let el: Expr = if n.ends_with("_mut") { parse_quote!(&mut #r[__lx]) } else { parse_quote!(&#r[__lx]) };
                        let mut ne: ExprIf = parse_quote!(if #r.len() > 0 { let __lx = #ix; let #p = #el; #(#th)* });
                        ne.else_branch = i.else_branch.clone();
                        *e = Expr::If(ne);
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        match e {
            Expr::Lit(l) => {
                match &l.lit {
                    Lit::Float(f) => match real_lit(f.base10_digits()) {
                        Ok(s) => *e = pe(&format!("r_lit(Ghost({}))", s)),
                        Err(m) => self.err = Some(m),
                    },
                    Lit::Int(i) if i.suffix() == "f64" => match real_lit(i.base10_digits()) {
                        Ok(s) => *e = pe(&format!("r_lit(Ghost({}))", s)),
                        Err(m) => self.err = Some(m),
                    },
                    _ => {}
                }
                return;
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                if t == "f64" {
                    self.visit_expr_mut(&mut c.expr);
                    let x = &c.expr;
                    *e = parse_quote!((#x).to_r());
                    return;
                }
                if let Expr::MethodCall(m) = unparen(&c.expr) {
                    let n = m.method.to_string();
                    if matches!(n.as_str(), "ceil" | "floor" | "round" | "trunc" | "sqrt") {
                        let mut x = (*c.expr).clone();
                        self.visit_expr_mut(&mut x);
                        let id = format_ident!("to_{}", t);
                        *e = parse_quote!((#x).#id());
                        return;
                    }
                }
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(BinOp::Add(Default::default())),
                    BinOp::SubAssign(_) => Some(BinOp::Sub(Default::default())),
                    BinOp::MulAssign(_) => Some(BinOp::Mul(Default::default())),
                    BinOp::DivAssign(_) => Some(BinOp::Div(Default::default())),
                    BinOp::RemAssign(_) => Some(BinOp::Rem(Default::default())),
                    _ => None,
                };
                if let Some(op) = op {
                    self.visit_expr_mut(&mut b.left);
                    self.visit_expr_mut(&mut b.right);
                    let (l, r) = (&b.left, &b.right);
                    let rr: Expr = if matches!(**r, Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_)) { parse_quote!((#r)) } else { (**r).clone() };
                    *e = parse_quote!(#l = #l #op #rr);
                    return;
                }
            }
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.len();
                if REALC.with(|c| c.borrow().contains(&segs[n - 1])) && p.qself.is_none() {
                    let i = format_ident!("{}_val", segs[n - 1]);
                    *e = parse_quote!(#i());
                    return;
                }
                if n >= 2 {
                    if segs[n - 2] == "f64" {
                        let id = segs[n - 1].as_str();
                        *e = match id {
                            "INFINITY" => parse_quote!(r_infinity()),
                            "MAX" => parse_quote!(r_max()),
                            "EPSILON" => parse_quote!(r_epsilon()),
                            "MIN" => parse_quote!(r_min()),
                            "default" => parse_quote!(R::default),
                            "NEG_INFINITY" => parse_quote!(r_neg_infinity()),
                            o => {
                                let i = format_ident!("{}", o);
                                parse_quote!(R::#i)
                            }
                        };
                        return;
                    }
                    // drop lowercase module prefixes
                    while p.path.segments.len() > 1 && p.path.segments[0].ident.to_string().chars().next().unwrap().is_lowercase() {
                        let k = p.path.segments[0].ident.to_string();
                        if matches!(k.as_str(), "usize" | "u64" | "i64" | "i32" | "u32" | "isize") {
                            break;
                        }
                        let v: Vec<PathSegment> = p.path.segments.iter().skip(1).cloned().collect();
                        p.path.segments = v.into_iter().collect();
                        p.path.leading_colon = None;
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.is_ident("__vec_rep") {
                        let (mut a, mut n) = (c.args[0].clone(), c.args[1].clone());
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut n);
                        *e = parse_quote!(vec_rep(#a, #n));
                        return;
                    }
                    if p.path.is_ident("__vec_lit") {
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        *e = if args.is_empty() { parse_quote!(Vec::new()) } else { parse_quote!(vec![#(#args),*]) };
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- emission

/// `P.offset(K as isize)` / `P.add(K)` -> (P, K)
fn ptr_step(e: &Expr) -> Option<(Expr, Expr)> {
    if let Expr::MethodCall(m) = unparen(e) {
        if m.args.len() == 1 && matches!(m.method.to_string().as_str(), "offset" | "add") {
            let mut k = m.args[0].clone();
            if m.method == "offset" {
                match unparen(&k).clone() {
                    Expr::Cast(c) if c.ty.to_token_stream().to_string() == "isize" => k = (*c.expr).clone(),
                    _ => return None,
                }
            }
            return Some(((*m.receiver).clone(), k));
        }
    }
    None
}
/// raw pointer accesses to a block of cells: `P.offset(K as isize).read()` -> `P.read_at(K)`, `.write(v)` -> `P.write_at(K, v)`,
/// `&mut *P.offset(..)` -> `P.cell_mut(K)`, `from_raw_parts(P.offset(..), n)` -> `P.window(K, n)`; pointer locals are inlined
struct RawPtr {
    vars: HashMap<String, Expr>,
}
impl RawPtr {
    fn step(&self, e: &Expr) -> Option<(Expr, Expr)> {
        if let Expr::Path(p) = unparen(e) {
            if let Some(x) = p.path.get_ident().and_then(|i| self.vars.get(&i.to_string())) {
                return ptr_step(x);
            }
        }
        ptr_step(e)
    }
}
impl VisitMut for RawPtr {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                    let mut x = unparen(&i.expr).clone();
                    if let Expr::Unsafe(u) = &x {
                        if let [Stmt::Expr(y, None)] = &u.block.stmts[..] {
                            x = y.clone();
                        }
                    }
                    if let Expr::Block(u) = &x {
                        if let [Stmt::Expr(y, None)] = &u.block.stmts[..] {
                            x = y.clone();
                        }
                    }
                    if let Some((base, _)) = ptr_step(&x) {
                        if let Expr::Field(f) = &base {
                            if f.member.to_token_stream().to_string() == "ptr" {
                                self.vars.insert(p.ident.to_string(), x);
                                continue;
                            }
                        }
                    }
                }
            }
            if let Stmt::Local(l) = &mut s {
                // `get_mut(&self)` of the code becomes `get_mut(&mut self)`: locals are declared mutable
                let p = match &mut l.pat {
                    Pat::Type(t) => &mut *t.pat,
                    p => p,
                };
                if let Pat::Ident(p) = p {
                    p.mutability = Some(Default::default());
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let r: Option<Expr> = match &*e {
            Expr::MethodCall(m) if m.method == "read" && m.args.is_empty() => self.step(&m.receiver).map(|(p, k)| parse_quote!(#p.read_at(#k))),
            Expr::MethodCall(m) if m.method == "write" && m.args.len() == 1 => {
                let v = &m.args[0];
                self.step(&m.receiver).map(|(p, k)| parse_quote!(#p.write_at(#k, #v)))
            }
            Expr::Reference(r) => match unparen(&r.expr) {
                Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                    let mu = r.mutability.is_some();
                    self.step(expr).map(|(p, k)| if mu { parse_quote!(#p.cell_mut(#k)) } else { parse_quote!(#p.cell(#k)) })
                }
                _ => None,
            },
            Expr::Assign(a) => match unparen(&a.left) {
                Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                    let v = &a.right;
                    self.step(expr).map(|(p, k)| parse_quote!(#p.write_at(#k, #v)))
                }
                _ => None,
            },
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.step(expr).map(|(p, k)| parse_quote!(#p.read_at(#k))),
            Expr::Call(c) if c.args.len() == 2 => {
                let f = c.func.to_token_stream().to_string();
                let n = &c.args[1];
                if f.ends_with("from_raw_parts") {
                    self.step(&c.args[0]).map(|(p, k)| parse_quote!(#p.window(#k, #n)))
                } else if f.ends_with("from_raw_parts_mut") {
                    self.step(&c.args[0]).map(|(p, k)| parse_quote!(#p.window_mut(#k, #n)))
                } else {
                    None
                }
            }
            Expr::Cast(c) if matches!(&*c.ty, Type::Ptr(t) if !t.elem.to_token_stream().to_string().contains("Link")) => Some((*c.expr).clone()),
            _ => None,
        };
        if let Some(r) = r {
            *e = r;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub fn conv_type(t: &Type) -> String {
    let mut t = t.clone();
    Misc { mut_ctx: HashSet::new(), err: None }.visit_type_mut(&mut t);
    // strip RefCell<T> and Box<T>
    struct B;
    impl VisitMut for B {
        fn visit_type_mut(&mut self, t: &mut Type) {
            visit_mut::visit_type_mut(self, t);
            if let Type::Path(p) = t {
                let s = p.path.segments.last().unwrap();
                if s.ident == "RefCell" || s.ident == "Box" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::Type(x)) = a.args.first() {
                            let x = x.clone();
                            *t = x;
                        }
                    }
                }
            }
            if let Type::Reference(r) = t {
                if let Some(l) = &r.lifetime {
                    if l.ident == "static" {
                        let x = (*r.elem).clone();
                        *t = x;
                    }
                }
            }
        }
    }
    B.visit_type_mut(&mut t);
    printer::print(t.to_token_stream()).trim().to_string()
}

pub fn emit_struct(f: &File, ov: &StructOv) -> Res<String> {
    for it in &f.items {
        if let Item::Struct(s) = it {
            if s.ident == ov.name {
                let mut out = String::new();
                for a in &ov.attrs {
                    out.push_str(a);
                    out.push('\n');
                }
                out.push_str(&format!("pub struct {} {} {{\n", ov.name, printer::print(s.generics.to_token_stream()).trim()));
                let mut seen = vec![];
                for fd in &s.fields {
                    let n = fd.ident.as_ref().unwrap().to_string();
                    seen.push(n.clone());
                    if ov.omit.contains(&n) {
                        continue;
                    }
                    let t = match ov.fields.get(&n) {
                        Some(t) => t.clone(),
                        None => conv_type(&fd.ty),
                    };
                    out.push_str(&format!("  pub {}: {},\n", n, t));
                }
                for (n, t) in &ov.fields {
                    if !seen.contains(n) {
                        if t.starts_with("Ghost") {
                            out.push_str(&format!("  pub {}: {},\n", n, t));
                        } else {
                            return Err(format!("lost-anchor: field {} of {}", n, ov.name));
                        }
                    }
                }
                out.push_str("}\n");
                return Ok(out);
            }
        }
        if let Item::Enum(s) = it {
            if s.ident == ov.name {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                return Ok(format!("{}\n{}\n", ov.attrs.join("\n"), printer::print(s.to_token_stream())));
            }
        }
    }
    Err(format!("lost-anchor: struct {}", ov.name))
}

thread_local! { static REALC: std::cell::RefCell<HashSet<String>> = Default::default(); }

pub fn emit_const(f: &File, name: &str) -> Res<String> {
    for it in &f.items {
        if let Item::Const(c) = it {
            if c.ident == name {
                let t = conv_type(&c.ty);
                let e = c.expr.to_token_stream().to_string();
                if t == "R" {
                    REALC.with(|c| c.borrow_mut().insert(name.to_string()));
                    let neg = e.starts_with('-');
                    let l = real_lit(e.trim_start_matches('-').trim_end_matches("f64").trim_end_matches('_'))?;
                    let v = if neg { format!("-{}", l) } else { l };
                    return Ok(format!("pub open spec fn {}_spec() -> real {{ {} }}\n#[inline] pub fn {}_val() -> (r: R) ensures r@ == {}_spec() {{ r_lit(Ghost({})) }}\n", name, v, name, name, v));
                }
                return Ok(format!("pub const {}: {} = {};\n", name, t, e));
            }
        }
    }
    Err(format!("lost-anchor: const {}", name))
}

fn known_from_raw(ov_items: &[crate::overlay::Item]) -> HashSet<String> {
    let mut k = HashSet::new();
    for it in ov_items {
        if let crate::overlay::Item::Raw(t, _) = it {
            let w: Vec<&str> = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
            for p in w.windows(2) {
                if p[0] == "fn" {
                    k.insert(p[1].to_string());
                }
            }
        }
    }
    k
}

pub fn collect_known(ov: &[crate::overlay::Item]) -> HashSet<String> {
    known_from_raw(ov)
}

fn indent(s: &str, n: usize) -> String {
    s.lines().map(|l| format!("{}{}\n", "  ".repeat(n), l)).collect()
}

pub fn emit_fn(ctx: &mut Ctx, ov: &FnOv, known: &HashSet<String>, helper_files: &[String]) -> Res<(String, Info)> {
    for h in helper_files {
        ctx.load(h)?;
    }
    ctx.load(&ov.file)?;
    let file = &ctx.files[&ov.file];
    let found = find_fn(file, &ov.qual).ok_or(format!("lost-anchor: {} in {}", ov.qual, ov.file))?;
    let mut sig = found.sig.clone();
    // ---- parameters
    let mut param_map: HashMap<String, Ident> = HashMap::new();
    let mut params_out: Vec<String> = vec![];
    let mut pi = 0;
    let mut mut_shadow: Vec<String> = vec![];
    let mut mut_self = false;
    let free = ov.self_ty.as_deref() == Some("none");
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                if ov.mut_params.iter().any(|m| m == "self:value") {
                    params_out.push("self".into());
                } else if ov.mut_params.iter().any(|m| m == "self") {
                    params_out.push("&mut self".into());
                } else if r.reference.is_some() {
                    params_out.push(if r.mutability.is_some() { "&mut self".into() } else { "&self".into() });
                } else {
                    params_out.push("self".into());
                    mut_self = r.mutability.is_some();
                }
            }
            FnArg::Typed(pt) => {
                let (name, is_mut) = match &*pt.pat {
                    Pat::Ident(p) => (p.ident.to_string(), p.mutability.is_some()),
                    Pat::Wild(_) => (format!("_p{}", pi), false),
                    _ => return unsup("parameter pattern"),
                };
                let new = ov.params.get(pi).cloned().unwrap_or(name.clone());
                if new != name {
                    param_map.insert(name.clone(), format_ident!("{}", new));
                }
                let mut ty = match ov.ptypes.get(&new) {
                    Some(t) => t.clone(),
                    None => conv_type(&pt.ty),
                };
                if ov.mut_params.contains(&new) && !ty.starts_with("&mut") {
                    ty = ty.replacen('&', "&mut ", 1);
                }
                if ty == "-" {
                    // dropped parameter
                } else {
                    params_out.push(format!("{}: {}", new, ty));
                    if is_mut {
                        mut_shadow.push(new.clone());
                    }
                }
                pi += 1;
            }
        }
    }
    if !ov.params.is_empty() && ov.params.len() != pi {
        return Err(format!("lost-anchor: {} has {} parameters, contract names {}", ov.qual, pi, ov.params.len()));
    }
    if !ov.add_params.is_empty() {
        params_out.push(ov.add_params.clone());
    }
    let ret_ty = match (&ov.ret_ty, &sig.output) {
        (Some(t), _) => Some(t.clone()),
        (None, ReturnType::Default) => None,
        (None, ReturnType::Type(_, t)) => Some(conv_type(t)),
    };
    let generics = match &ov.generics {
        Some(g) => g.clone(),
        None => printer::print(sig.generics.to_token_stream()).trim().to_string(),
    };
    let rname = ov.ret.clone().unwrap_or("ret".into());
    let mut head = String::new();
    for a in &ov.attrs {
        head.push_str(a);
        head.push('\n');
    }
    let mut info = Info { line: found.line, loops: String::new(), inlined: vec![] };
    let mut text = String::new();
    let is_impl = found.self_ty.is_some() && !free;
    let ty = ov.self_ty.clone().or(found.self_ty.clone());
    if is_impl {
        // `@self Type` may rename the implementing type
        match (&found.imp, &ov.self_ty) {
            (Some((g, t, w)), None) => text.push_str(&format!("impl{} {} {} {{\n", g, t, w)),
            _ => text.push_str(&format!("impl {} {{\n", ty.as_ref().unwrap())),
        }
    }
    text.push_str(&head);
    if ov.assume {
        text.push_str("#[verifier::external_body]\n");
    } else if !ov.noloopiso {
        text.push_str("#[verifier::loop_isolation(false)]\n");
    }
    text.push_str(&format!("pub fn {}{}({})", ov.emit_name(), generics, params_out.join(", ")));
    if let Some(t) = &ret_ty {
        text.push_str(&format!(" -> ({}: {})", rname, t));
    }
    text.push('\n');
    text.push_str(&indent(&ov.spec, 1));
    if ov.assume {
        text.push_str("{ unimplemented!() }\n");
        if is_impl {
            text.push_str("}\n");
        }
        return Ok((text, info));
    }
    // ---- body
    let mut block = found.block.clone();
    // nested helper fns become inlinable: collect them into a synthetic file
    let mut nested: Vec<Item> = vec![];
    block.stmts.retain(|s| match s {
        Stmt::Item(it @ Item::Fn(_)) => {
            nested.push(it.clone());
            false
        }
        _ => true,
    });
    let nested_file = File { shebang: None, attrs: vec![], items: nested };
    let mut cl = Clean { err: None };
    cl.visit_block_mut(&mut block);
    if let Some(e) = cl.err {
        return Err(format!("{} (in {})", e, ov.qual));
    }
    flatten_block(&mut block);
    rename_locals_stmt(&mut block.stmts, &param_map);
    {
        let mut files: Vec<(String, &File)> = vec![("nested".into(), &nested_file), (ov.file.clone(), file)];
        for h in helper_files {
            if *h != ov.file {
                files.push((h.clone(), &ctx.files[h]));
            }
        }
        let mut inl = Inliner { files, known, self_ty: found.self_ty.clone(), depth: 0, done: vec![], err: None, counter: 0 };
        inl.visit_block_mut(&mut block);
        if let Some(e) = inl.err {
            return Err(format!("{} (in {})", e, ov.qual));
        }
        info.inlined = inl.done;
    }
    if !ov.passargs.is_empty() {
        let mut v = vec![];
        for (k, a) in &ov.passargs {
            v.push((k.clone(), syn::parse::Parser::parse_str(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, a).map_err(|e| format!("overlay-error passargs {}: {}", a, e))?));
        }
        PassArgs { v }.visit_block_mut(&mut block);
    }
    // substitutions on tokens
    if !ov.subst.is_empty() {
        let ts = apply_substs(block.to_token_stream(), &ov.subst)?;
        block = parse2(ts).map_err(|e| format!("overlay-error: subst result of {} does not parse: {}", ov.qual, e))?;
    }
    if let Some(h) = &ov.heap {
        let mut hp = Heap { heap: pe(h), alias: vec![], places: vec![], n: 0, err: None };
        hp.visit_block_mut(&mut block);
        if let Some(e) = hp.err {
            return Err(format!("{} (in {})", e, ov.qual));
        }
    }
    if ov.blocks {
        RawPtr { vars: HashMap::new() }.visit_block_mut(&mut block);
    }
    let mut so = Sorts { n: 0, k: 0, tys: ov.sortty.clone(), err: None };
    so.visit_block_mut(&mut block);
    if let Some(e) = so.err {
        return Err(format!("{} (in {})", e, ov.qual));
    }
    let mut lp = Loops { ov, next: 0, skel: vec![], depth: 0, err: None, inject: true, ty_hint: None, calls: vec![] };
    lp.visit_block_mut(&mut block);
    if let Some(e) = lp.err {
        return Err(format!("{} (in {})", e, ov.qual));
    }
    info.loops = lp.skel.join(" ");
    let mut ms = Misc { mut_ctx: HashSet::new(), err: None };
    ms.visit_block_mut(&mut block);
    if let Some(e) = ms.err {
        return Err(format!("{} (in {})", e, ov.qual));
    }
    // start / end anchors; return anchors
    let mut stmts: Vec<Stmt> = vec![];
    if mut_self {
        // `mut self`
        struct SelfVar;
        impl VisitMut for SelfVar {
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                if i == "self" {
                    *i = format_ident!("__self");
                }
            }
        }
        SelfVar.visit_block_mut(&mut block);
        stmts.push(parse_quote!(let mut __self = self;));
    }
    for m in &mut_shadow {
        let id = format_ident!("{}", m);
        stmts.push(parse_quote!(let mut #id = #id;));
    }
    stmts.push(parse_quote!(__proof!("start");));
    let mut body = block.stmts;
    // end anchor goes before a tail expression (which is then bound to a name)
    let tail_is_expr = ret_ty.is_some() && matches!(body.last(), Some(Stmt::Expr(_, None)));
    // "exit": the end anchor, and in front of every return (its value then is `__tail`)
    let want_exit = ov.at.iter().any(|(a, _)| a == "exit");
    let want_end = want_exit || ov.at.iter().any(|(a, _)| a == "end");
    if tail_is_expr && want_end && !matches!(body.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
        if let Some(Stmt::Expr(e, None)) = body.pop() {
            body.push(parse_quote!(let __tail = #e;));
            body.push(parse_quote!(__proof!("end");));
            if want_exit {
                body.push(parse_quote!(__proof!("exit");));
            }
            body.push(Stmt::Expr(parse_quote!(__tail), None));
        }
    } else if !tail_is_expr && want_end {
        if let Some(Stmt::Expr(e, semi)) = body.last_mut() {
            if semi.is_none() && !matches!(e, Expr::Return(_)) {
                // unit tail expression: keep as statement
                if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Block(_) | Expr::Loop(_) | Expr::ForLoop(_)) {
                    *semi = Some(Default::default());
                }
            }
        }
        if !matches!(body.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
            body.push(parse_quote!(__proof!("end");));
            if want_exit {
                body.push(parse_quote!(__proof!("exit");));
            }
        }
    }
    stmts.extend(body);
    if want_exit {
        struct ExitA;
        impl VisitMut for ExitA {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Return(r) = e {
                    *e = match r.expr.clone() {
                        Some(v) => parse_quote!({ let __tail = #v; __proof!("exit"); return __tail; }),
                        None => parse_quote!({ __proof!("exit"); return; }),
                    };
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        for s in stmts.iter_mut() {
            ExitA.visit_stmt_mut(s);
        }
    }
    // return anchors, numbered in order
    let want_ret = ov.at.iter().any(|(a, _)| a.starts_with("return"));
    if want_ret {
        struct RetA(usize);
        impl VisitMut for RetA {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Return(_) = e {
                    let s = format!("return {}", self.0);
                    self.0 += 1;
                    *e = parse_quote!({ __proof!("return"); __proof!(#s); #e });
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut r = RetA(0);
        for s in stmts.iter_mut() {
            r.visit_stmt_mut(s);
        }
    }
    let b = Block { brace_token: Default::default(), stmts };
    let mut body_text = printer::print(b.to_token_stream());
    // ---- text-level insertion of the contract text
    let re_loop = |t: &str| -> String {
        let mut out = String::new();
        let mut rest = t;
        while let Some(p) = rest.find("__loop_inv") {
            let before = &rest[..p];
            let lp = p + rest[p..].find('(').unwrap();
            let rp = lp + rest[lp..].find(')').unwrap();
            let semi = rp + rest[rp..].find(';').unwrap();
            let k: usize = rest[lp + 1..rp].trim().parse().unwrap();
            let brace = before.rfind('{').unwrap();
            let mut kept = before[..brace].to_string();
            let mut inv = ov.loops.get(&k).cloned();
            if let Some(t) = &inv {
                // attributes at the head of the loop's contract stand before the loop itself
                if t.trim_start().starts_with("#[") {
                    let (a, b) = t.split_once('\n').unwrap_or((t.as_str(), ""));
                    let mut at = kept.len();
                    let head = loop {
                        let ls = kept[..at].rfind('\n').map(|x| x + 1).unwrap_or(0);
                        let l = kept[ls..].trim_start();
                        if l.starts_with("while ") || l.starts_with("loop ") || l.starts_with('\'') || ls == 0 {
                            break ls;
                        }
                        at = ls - 1;
                    };
                    kept.insert_str(head, &format!("{}\n", a));
                    inv = Some(b.to_string());
                }
            }
            out.push_str(&kept);
            if let Some(inv) = &inv {
                out.push('\n');
                out.push_str(&indent(inv, 2));
            }
            out.push_str("{\n");
            rest = &rest[semi + 1..];
        }
        out.push_str(rest);
        out
    };
    body_text = re_loop(&body_text);
    let mut out = String::new();
    let mut rest = body_text.as_str();
    while let Some(p) = rest.find("__proof") {
        out.push_str(&rest[..p]);
        let q1 = p + rest[p..].find('"').unwrap();
        let q2 = q1 + 1 + rest[q1 + 1..].find('"').unwrap();
        let semi = q2 + rest[q2..].find(';').unwrap();
        let anchor = &rest[q1 + 1..q2];
        for (a, t) in &ov.at {
            if a == anchor {
                out.push('\n');
                out.push_str(&indent(t, 2));
            }
        }
        if anchor == "start" && ctx.canary {
            out.push_str("\nassert(false);\n");
        }
        rest = &rest[semi + 1..];
    }
    out.push_str(rest);
    // drop blank lines
    let body_text: String = out.lines().filter(|l| !l.trim().is_empty()).map(|l| format!("{}\n", l)).collect();
    text.push_str(&body_text);
    if is_impl {
        text.push_str("}\n");
    }
    Ok((text, info))
}

#[allow(dead_code)]
fn unused(_: Delimiter) {}

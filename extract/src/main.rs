//! Mechanical extraction of functions from /repo into a Verus file.
//! usage: extract REPO UNIT.vx OUT.rs OUT.map [--canary]
mod lower;
mod overlay;
mod printer;

use overlay::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

pub struct SrcFile {
    pub file: syn::File,
}

pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub line: usize,
    pub self_ty: Option<String>,
    /// type parameters of the impl block: (`<T>`, `Type<T>`, `where T: Copy`)
    pub imp: Option<(String, String, String)>,
}

pub fn type_last_ident(ty: &syn::Type) -> Option<String> {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => type_last_ident(&r.elem),
        _ => None,
    }
}

fn cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote::quote!(#a).to_string();
            s.contains("test") || s.contains("kani") || s.contains("hybridcvrp_verif")
        }
    })
}

/// find `Type::fn` or `Type@Trait::fn` or `fn` in a file. `outer::inner` nested fns are found by name too.
pub fn find_fn(f: &syn::File, qual: &str) -> Option<Found> {
    let (ty, name) = match qual.rsplit_once("::") {
        Some((t, n)) => (Some(t), n),
        None => (None, qual),
    };
    let (ty, tr) = match ty {
        Some(t) => match t.split_once('@') {
            Some((a, b)) => (Some(a), Some(b)),
            None => (Some(t), None),
        },
        None => (None, None),
    };
    fn items<'a>(its: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
        for i in its {
            if let syn::Item::Mod(m) = i {
                if cfg_test(&m.attrs) {
                    continue;
                }
                if let Some((_, c)) = &m.content {
                    items(c, out);
                }
            }
            out.push(i);
        }
    }
    let mut all = vec![];
    items(&f.items, &mut all);
    for it in all {
        match it {
            syn::Item::Fn(func) if ty.is_none() && func.sig.ident == name && !cfg_test(&func.attrs) => {
                return Some(Found {
                    sig: func.sig.clone(),
                    block: (*func.block).clone(),
                    line: func.sig.ident.span().start().line,
                    self_ty: None,
                    imp: None,
                });
            }
            syn::Item::Impl(im) if ty.is_some() && !cfg_test(&im.attrs) => {
                if type_last_ident(&im.self_ty).as_deref() != ty {
                    continue;
                }
                if let Some(tr) = tr {
                    match &im.trait_ {
                        Some((_, p, _)) if p.segments.last().unwrap().ident == tr => {}
                        _ => continue,
                    }
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(m) = ii {
                        if m.sig.ident == name && !cfg_test(&m.attrs) {
                            return Some(Found {
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                                line: m.sig.ident.span().start().line,
                                self_ty: ty.map(|s| s.to_string()),
                                imp: if im.generics.params.iter().next().is_some() {
                                    let (a, _, w) = im.generics.split_for_impl();
                                    let st = &im.self_ty;
                                    Some((quote::quote!(#a).to_string(), quote::quote!(#st).to_string(), quote::quote!(#w).to_string()))
                                } else {
                                    None
                                },
                            });
                        }
                    }
                }
            }
            syn::Item::Trait(t) if ty.is_some() && tr.is_none() && Some(t.ident.to_string().as_str()) == ty => {
                for ti in &t.items {
                    if let syn::TraitItem::Fn(m) = ti {
                        if let (true, Some(b)) = (m.sig.ident == name, &m.default) {
                            return Some(Found {
                                sig: m.sig.clone(),
                                block: b.clone(),
                                line: m.sig.ident.span().start().line,
                                self_ty: ty.map(|s| s.to_string()),
                                imp: None,
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

pub struct Ctx {
    pub repo: PathBuf,
    pub files: HashMap<String, syn::File>,
    pub canary: bool,
    pub consts: HashMap<String, syn::Expr>,
}

impl Ctx {
    pub fn load(&mut self, rel: &str) -> Result<&syn::File, String> {
        if !self.files.contains_key(rel) {
            let p = self.repo.join(rel);
            let text = std::fs::read_to_string(&p).map_err(|e| format!("lost-anchor: {}: {}", p.display(), e))?;
            let f = syn::parse_file(&text).map_err(|e| format!("unsupported: cannot parse {}: {}", rel, e))?;
            self.files.insert(rel.to_string(), f);
        }
        Ok(&self.files[rel])
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: extract REPO UNIT.vx OUT.rs OUT.map [--canary]");
        std::process::exit(2);
    }
    match run(&args) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(3);
        }
    }
}

fn run(args: &[String]) -> Result<(), String> {
    let unit_path = Path::new(&args[2]);
    let mut ctx = Ctx {
        repo: PathBuf::from(&args[1]),
        files: HashMap::new(),
        canary: args.iter().any(|a| a == "--canary"),
        consts: HashMap::new(),
    };
    let ov = overlay::parse(unit_path)?;
    // names under contract in this unit (never inlined)
    let mut known: std::collections::HashSet<String> = lower::collect_known(&ov);
    let mut helper_files: Vec<String> = vec![];
    for it in &ov {
        match it {
            Item::Fn(f) => {
                known.insert(f.emit_name());
                known.insert(f.qual.rsplit("::").next().unwrap().to_string());
                if !helper_files.contains(&f.file) {
                    helper_files.push(f.file.clone());
                }
            }
            Item::Known(names) => known.extend(names.iter().cloned()),
            Item::Helpers(files) => {
                for f in files {
                    if !helper_files.contains(f) {
                        helper_files.push(f.clone());
                    }
                }
            }
            _ => {}
        }
    }
    let mut out = String::new();
    let mut map = String::new();
    out.push_str("#![allow(unused, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n");
    for it in &ov {
        match it {
            Item::Raw(t, src) => {
                let l0 = out.lines().count() + 1;
                out.push_str(t);
                out.push('\n');
                let l1 = out.lines().count();
                writeln!(map, "raw\t{}\t{}\t{}", l0, l1, src).unwrap();
            }
            Item::Known(_) | Item::Helpers(_) => {}
            Item::Struct(s) => {
                let l0 = out.lines().count() + 1;
                let file = ctx.load(&s.file)?.clone();
                let t = lower::emit_struct(&file, s)?;
                out.push_str(&t);
                out.push('\n');
                let l1 = out.lines().count();
                writeln!(map, "struct\t{}\t{}\t{}:{}", l0, l1, s.file, s.name).unwrap();
            }
            Item::Const(file, name) => {
                let f = ctx.load(file)?.clone();
                let t = lower::emit_const(&f, name)?;
                out.push_str(&t);
                out.push('\n');
            }
            Item::Fn(f) => {
                let l0 = out.lines().count() + 1;
                let (text, info) = lower::emit_fn(&mut ctx, f, &known, &helper_files)?;
                out.push_str(&text);
                out.push('\n');
                let l1 = out.lines().count();
                writeln!(
                    map,
                    "{}\t{}\t{}\t{}:{}\t{}\t{}\t{}",
                    if f.assume { "assume" } else { "fn" },
                    l0,
                    l1,
                    f.file,
                    f.qual,
                    info.line,
                    info.loops,
                    info.inlined.join(",")
                )
                .unwrap();
            }
        }
    }
    out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(&args[3], out).map_err(|e| e.to_string())?;
    std::fs::write(&args[4], map).map_err(|e| e.to_string())?;
    Ok(())
}

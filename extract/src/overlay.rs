use std::collections::BTreeMap;
use std::path::Path;

#[derive(Debug, Clone, Default)]
pub struct FnOv {
    pub file: String,
    pub qual: String,
    pub as_name: Option<String>,
    pub self_ty: Option<String>, // "none" -> free fn
    pub params: Vec<String>,
    pub mut_params: Vec<String>,
    pub ptypes: BTreeMap<String, String>,
    pub add_params: String,
    pub ret: Option<String>,
    pub ret_ty: Option<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub items: BTreeMap<usize, String>,
    pub subst: Vec<(String, String)>,
    pub passargs: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub assume: bool,
    pub heap: Option<String>,
    pub noloopiso: bool,
    pub blocks: bool,
    pub sortty: BTreeMap<usize, String>,
    pub generics: Option<String>,
}

impl FnOv {
    pub fn emit_name(&self) -> String {
        match &self.as_name {
            Some(n) => n.clone(),
            None => self.qual.rsplit("::").next().unwrap().to_string(),
        }
    }
}

#[derive(Debug, Clone, Default)]
pub struct StructOv {
    pub file: String,
    pub name: String,
    pub fields: BTreeMap<String, String>,
    pub omit: Vec<String>,
    pub attrs: Vec<String>,
}

#[derive(Debug, Clone)]
pub enum Item {
    Raw(String, String),
    Struct(StructOv),
    Const(String, String),
    Fn(FnOv),
    Known(Vec<String>),
    Helpers(Vec<String>),
}

fn err<T>(p: &Path, n: usize, m: &str) -> Result<T, String> {
    Err(format!("overlay-error {}:{}: {}", p.display(), n + 1, m))
}

pub fn parse(path: &Path) -> Result<Vec<Item>, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("overlay-error {}: {}", path.display(), e))?;
    let lines: Vec<&str> = text.lines().collect();
    let mut items = vec![];
    let mut i = 0;
    let dir = path.parent().unwrap();
    // collects text until next line starting with '@'
    fn block(lines: &[&str], i: &mut usize) -> String {
        let mut s = String::new();
        while *i < lines.len() && !lines[*i].starts_with('@') {
            s.push_str(lines[*i]);
            s.push('\n');
            *i += 1;
        }
        s
    }
    while i < lines.len() {
        let l = lines[i];
        if l.trim().is_empty() || l.starts_with("##") {
            i += 1;
            continue;
        }
        let mut w = l.split_whitespace();
        let d = w.next().unwrap();
        let rest: Vec<&str> = w.collect();
        match d {
            "@raw" => {
                i += 1;
                let b = block(&lines, &mut i);
                items.push(Item::Raw(b, path.file_name().unwrap().to_string_lossy().to_string()));
            }
            "@include" => {
                i += 1;
                let mut inner = parse(&dir.join(rest[0]))?;
                // "@include X proved U": the lemmas of X are discharged in unit U and only stated here
                if rest.len() == 3 && rest[1] == "proved" {
                    for it in inner.iter_mut() {
                        if let Item::Raw(t, _) = it {
                            *t = state_only(t, rest[2]);
                        }
                    }
                }
                items.extend(inner);
            }
            "@known" => {
                i += 1;
                items.push(Item::Known(rest.iter().map(|s| s.to_string()).collect()));
            }
            "@helpers" => {
                i += 1;
                items.push(Item::Helpers(rest.iter().map(|s| s.to_string()).collect()));
            }
            "@usefn" => {
                // take the contract of a function verified in another unit
                i += 1;
                let other = parse(&dir.join(rest[0]))?;
                let mut hit = false;
                for it in other {
                    if let Item::Fn(mut f) = it {
                        if f.qual == rest[1] {
                            f.assume = true;
                            items.push(Item::Fn(f));
                            hit = true;
                        }
                    }
                }
                if !hit {
                    return err(path, i, "usefn target missing");
                }
            }
            "@const" => {
                i += 1;
                items.push(Item::Const(rest[0].into(), rest[1].into()));
            }
            "@struct" => {
                let mut s = StructOv { file: rest[0].into(), name: rest[1].into(), ..Default::default() };
                i += 1;
                while i < lines.len() {
                    let l = lines[i].trim();
                    if l.is_empty() {
                        i += 1;
                    } else if let Some(r) = l.strip_prefix("@field ") {
                        let (n, t) = r.split_once(':').ok_or("bad @field")?;
                        s.fields.insert(n.trim().into(), t.trim().into());
                        i += 1;
                    } else if let Some(r) = l.strip_prefix("@omit ") {
                        s.omit.extend(r.split_whitespace().map(|x| x.to_string()));
                        i += 1;
                    } else if let Some(r) = l.strip_prefix("@attr ") {
                        s.attrs.push(r.to_string());
                        i += 1;
                    } else {
                        break;
                    }
                }
                items.push(Item::Struct(s));
            }
            "@fn" | "@assume" => {
                let mut f = FnOv { file: rest[0].into(), qual: rest[1].into(), ..Default::default() };
                f.assume = d == "@assume";
                i += 1;
                loop {
                    if i >= lines.len() {
                        return err(path, i, "missing @endfn");
                    }
                    let l = lines[i];
                    if l.trim().is_empty() || l.starts_with("##") {
                        i += 1;
                        continue;
                    }
                    let (d, r) = match l.split_once(' ') {
                        Some((a, b)) => (a, b.trim()),
                        None => (l.trim(), ""),
                    };
                    i += 1;
                    match d {
                        "@endfn" => break,
                        "@as" => f.as_name = Some(r.into()),
                        "@self" => f.self_ty = Some(r.into()),
                        "@params" => f.params = r.split_whitespace().map(|s| s.into()).collect(),
                        "@mut" => f.mut_params.extend(r.split_whitespace().map(|s| s.to_string())),
                        "@ptype" => {
                            let (n, t) = r.split_once(':').ok_or("bad @ptype")?;
                            f.ptypes.insert(n.trim().into(), t.trim().into());
                        }
                        "@addparams" => f.add_params = r.into(),
                        "@generics" => f.generics = Some(r.into()),
                        "@ret" => match r.split_once(':') {
                            Some((n, t)) => {
                                f.ret = Some(n.trim().into());
                                f.ret_ty = Some(t.trim().into());
                            }
                            None => f.ret = Some(r.into()),
                        },
                        "@spec" => f.spec = block(&lines, &mut i),
                        "@loop" => {
                            let k: usize = r.parse().map_err(|_| "bad @loop".to_string())?;
                            let b = block(&lines, &mut i);
                            f.loops.insert(k, b);
                        }
                        "@at" => {
                            let b = block(&lines, &mut i);
                            f.at.push((r.to_string(), b));
                        }
                        "@item" => {
                            let (k, v) = r.split_once(' ').ok_or("bad @item")?;
                            f.items.insert(k.parse().map_err(|_| "bad @item")?, v.trim().into());
                        }
                        "@sort" => {
                            let (k, v) = r.split_once(' ').ok_or("bad @sort")?;
                            f.sortty.insert(k.parse().map_err(|_| "bad @sort")?, v.trim().into());
                        }
                        "@subst" => {
                            let (a, b) = r.split_once("==>").ok_or("bad @subst")?;
                            f.subst.push((a.trim().into(), b.trim().into()));
                        }
                        // ghost arguments appended to every call of a function
                        "@passargs" => {
                            let (k, v) = r.split_once(' ').ok_or("bad @passargs")?;
                            f.passargs.push((k.trim().into(), v.trim().into()));
                        }
                        "@attr" => f.attrs.push(r.into()),
                        "@heap" => f.heap = Some(r.into()),
                        "@loopiso" => f.noloopiso = true,
                        "@blocks" => f.blocks = true,
                        _ => return err(path, i - 1, &format!("unknown directive {}", d)),
                    }
                }
                items.push(Item::Fn(f));
            }
            _ => return err(path, i, &format!("unknown directive {}", d)),
        }
    }
    Ok(items)
}

fn state_only(t: &str, unit: &str) -> String {
    let mut out = String::new();
    for l in t.split('\n') {
        let b = l.trim_start();
        let b = b.strip_prefix("pub ").unwrap_or(b);
        let b = b.strip_prefix("broadcast ").unwrap_or(b);
        if b.starts_with("proof fn ") && !out.trim_end().ends_with("#[verifier::external_body]") && !out.trim_end().ends_with("*/") {
            out.push_str(&format!("#[verifier::external_body] /* proved in unit {} */\n", unit));
        }
        out.push_str(l);
        out.push('\n');
    }
    out
}

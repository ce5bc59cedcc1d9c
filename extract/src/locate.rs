//! Finding items in /repo's source, cfg evaluation, expansion of simple local macro_rules.
use crate::{lost, Res};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeSet, HashMap};
use syn::*;

pub struct Sources {
    pub repo: String,
    pub features: BTreeSet<String>,
    files: HashMap<String, std::result::Result<File, String>>,
}

#[derive(Clone)]
pub struct FnItem {
    pub sig: Signature,
    pub block: Option<Block>,
    pub self_ty: Option<Type>,
    pub line: usize,
}

pub fn cfg_on(features: &BTreeSet<String>, ts: TokenStream) -> bool {
    #[allow(clippy::all)]
    fn go(f: &BTreeSet<String>, m: &Meta) -> bool {
        match m {
            Meta::Path(_) => false,
            Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                        return f.contains(&s.value());
                    }
                }
                false
            }
            Meta::List(l) => {
                let inner: Vec<Meta> = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_default();
                if l.path.is_ident("all") {
                    inner.iter().all(|m| go(f, m))
                } else if l.path.is_ident("any") {
                    inner.iter().any(|m| go(f, m))
                } else if l.path.is_ident("not") {
                    !inner.first().map(|m| go(f, m)).unwrap_or(false)
                } else {
                    false
                }
            }
        }
    }
    match parse2::<Meta>(ts) {
        Ok(m) => go(features, &m),
        Err(_) => true,
    }
}

pub fn attrs_on(features: &BTreeSet<String>, attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                if !cfg_on(features, l.tokens.clone()) {
                    return false;
                }
            }
        }
        let p = a.path().to_token_stream().to_string().replace(' ', "");
        if p == "maybe_async_cfg::only_if" {
            if let Meta::List(l) = &a.meta {
                if l.tokens.to_string().contains("\"async\"") {
                    return false;
                }
            }
        }
    }
    true
}

fn last_seg(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
pub fn ty_last(t: &Type) -> String {
    match t {
        Type::Path(p) => last_seg(&p.path),
        Type::Reference(r) => format!("&{}", ty_last(&r.elem)),
        Type::Paren(p) => ty_last(&p.elem),
        Type::Group(p) => ty_last(&p.elem),
        Type::TraitObject(t) => {
            for b in &t.bounds {
                if let TypeParamBound::Trait(t) = b {
                    return format!("dyn {}", last_seg(&t.path));
                }
            }
            "dyn".into()
        }
        Type::Slice(s) => format!("[{}]", ty_last(&s.elem)),
        Type::Array(s) => format!("[{};N]", ty_last(&s.elem)),
        Type::Tuple(t) => format!("({})", t.elems.iter().map(ty_last).collect::<Vec<_>>().join(",")),
        _ => t.to_token_stream().to_string(),
    }
}
/// `Box<dyn BackendConnection>` and friends: last segment plus printed generic args
pub fn ty_key(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

impl Sources {
    pub fn new(repo: String, features: BTreeSet<String>) -> Self {
        Sources { repo, features, files: HashMap::new() }
    }
    pub fn file(&mut self, path: &str) -> Res<&File> {
        if !self.files.contains_key(path) {
            let full = format!("{}/{}", self.repo, path);
            let r = match std::fs::read_to_string(&full) {
                Err(e) => Err(format!("{full}: {e}")),
                Ok(s) => match parse_file(&s) {
                    Ok(mut f) => {
                        // macros exported by the `macros.rs` beside the file
                        let beside = std::path::Path::new(&full).with_file_name("macros.rs");
                        let extra = match std::fs::read_to_string(&beside).ok().and_then(|s| parse_file(&s).ok()) {
                            Some(m) if !full.ends_with("/macros.rs") => m.items,
                            _ => vec![],
                        };
                        f.items = expand_items(f.items, &extra, &self.features);
                        Ok(f)
                    }
                    Err(e) => Err(format!("{full}: {e}")),
                },
            };
            self.files.insert(path.to_string(), r);
        }
        match self.files.get(path).unwrap() {
            Ok(f) => Ok(f),
            Err(e) => lost(e.clone()),
        }
    }

    /// impl spec: "" free fn; "T" inherent impl of T; "Tr for T" trait impl; "trait Tr" default method
    pub fn find_fn(&mut self, path: &str, name: &str, imp: &str) -> Res<FnItem> {
        let feats = self.features.clone();
        let f = self.file(path)?;
        let mut found: Vec<FnItem> = vec![];
        walk(&f.items, &feats, &mut |it| match it {
            Item::Fn(i) if imp.is_empty() && i.sig.ident == name => found.push(FnItem {
                sig: i.sig.clone(),
                block: Some((*i.block).clone()),
                self_ty: None,
                line: i.sig.ident.span().start().line,
            }),
            Item::Impl(i) => {
                if imp.is_empty() {
                    return;
                }
                let key = ty_key(&i.self_ty);
                let last = ty_last(&i.self_ty);
                let ok = match (&i.trait_, imp.split_once(" for ")) {
                    (Some((_, p, _)), Some((tr, ty))) => {
                        let trn = p.to_token_stream().to_string().replace(' ', "");
                        (last_seg(p) == tr || trn == tr.replace(' ', "")) && (last == ty || key == ty.replace(' ', ""))
                    }
                    (None, None) => last == imp || key == imp.replace(' ', ""),
                    _ => false,
                };
                if !ok {
                    return;
                }
                for ii in &i.items {
                    if let ImplItem::Fn(m) = ii {
                        if m.sig.ident == name && attrs_on(&feats, &m.attrs) {
                            found.push(FnItem {
                                sig: m.sig.clone(),
                                block: Some(m.block.clone()),
                                self_ty: Some((*i.self_ty).clone()),
                                line: m.sig.ident.span().start().line,
                            });
                        }
                    }
                }
            }
            Item::Trait(t) => {
                if imp == format!("trait {}", t.ident) {
                    for ii in &t.items {
                        if let TraitItem::Fn(m) = ii {
                            if m.sig.ident == name && attrs_on(&feats, &m.attrs) {
                                found.push(FnItem {
                                    sig: m.sig.clone(),
                                    block: m.default.clone(),
                                    self_ty: None,
                                    line: m.sig.ident.span().start().line,
                                });
                            }
                        }
                    }
                }
            }
            _ => {}
        });
        match found.len() {
            0 => lost(format!("function {name} ({imp}) not found in {path}")),
            1 => Ok(found.pop().unwrap()),
            n => lost(format!("function {name} ({imp}) ambiguous in {path}: {n}")),
        }
    }

    /// any function of this name in the file (for helper inlining)
    pub fn find_any_fn(&mut self, path: &str, name: &str, method: bool) -> Option<FnItem> {
        let feats = self.features.clone();
        let f = self.file(path).ok()?;
        let mut found: Vec<FnItem> = vec![];
        walk(&f.items, &feats, &mut |it| match it {
            Item::Fn(i) if !method && i.sig.ident == name => found.push(FnItem {
                sig: i.sig.clone(),
                block: Some((*i.block).clone()),
                self_ty: None,
                line: 0,
            }),
            Item::Impl(i) if method => {
                for ii in &i.items {
                    if let ImplItem::Fn(m) = ii {
                        if m.sig.ident == name && attrs_on(&feats, &m.attrs) {
                            found.push(FnItem { sig: m.sig.clone(), block: Some(m.block.clone()), self_ty: Some((*i.self_ty).clone()), line: 0 });
                        }
                    }
                }
            }
            _ => {}
        });
        if found.len() == 1 {
            found.pop()
        } else {
            None
        }
    }

    /// an associated constant, as a constant item
    pub fn find_const(&mut self, path: &str, name: &str, imp: &str) -> Res<Item> {
        let feats = self.features.clone();
        let f = self.file(path)?;
        let mut found: Vec<Item> = vec![];
        walk(&f.items, &feats, &mut |it| {
            if let Item::Impl(i) = it {
                let last = ty_last(&i.self_ty);
                let me = match &i.trait_ {
                    Some((_, p, _)) => format!("{} for {last}", last_seg(p)),
                    None => last,
                };
                if me != imp {
                    return;
                }
                for ii in &i.items {
                    if let ImplItem::Const(c) = ii {
                        if c.ident == name && attrs_on(&feats, &c.attrs) {
                            let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                            found.push(syn::parse_quote!(const #id: #ty = #e;));
                        }
                    }
                }
            }
        });
        match found.len() {
            1 => Ok(found.pop().unwrap()),
            n => lost(format!("constant {name} ({imp}) found {n} times in {path}")),
        }
    }
    pub fn find_type(&mut self, path: &str, name: &str) -> Res<Item> {
        let feats = self.features.clone();
        let f = self.file(path)?;
        let mut found = vec![];
        walk(&f.items, &feats, &mut |it| match it {
            Item::Struct(s) if s.ident == name => found.push(it.clone()),
            Item::Enum(s) if s.ident == name => found.push(it.clone()),
            Item::Type(s) if s.ident == name => found.push(it.clone()),
            Item::Const(s) if s.ident == name => found.push(it.clone()),
            _ => {}
        });
        match found.len() {
            0 => lost(format!("type {name} not found in {path}")),
            1 => Ok(found.pop().unwrap()),
            n => lost(format!("type {name} ambiguous in {path}: {n}")),
        }
    }
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Const(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        _ => &[],
    }
}

fn walk(items: &[Item], feats: &BTreeSet<String>, f: &mut impl FnMut(&Item)) {
    for i in items {
        if !attrs_on(feats, item_attrs(i)) {
            continue;
        }
        if item_attrs(i).iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")) {
            continue;
        }
        f(i);
        if let Item::Mod(m) = i {
            if let Some((_, its)) = &m.content {
                walk(its, feats, f);
            }
        }
    }
}

// ---- simple macro_rules expansion (no repetitions) for item macros defined in the same file ----
struct Rule {
    params: Vec<(String, String)>, // name, kind
    body: TokenStream,
}
fn parse_rules(ts: TokenStream) -> Option<Vec<Rule>> {
    let mut out = vec![];
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        let TokenTree::Group(pat) = &v[i] else { return None };
        // =>
        let TokenTree::Group(body) = v.get(i + 3)? else { return None };
        let mut params = vec![];
        let pv: Vec<TokenTree> = pat.stream().into_iter().collect();
        let mut j = 0;
        while j < pv.len() {
            match &pv[j] {
                TokenTree::Punct(p) if p.as_char() == '$' => {
                    let n = match pv.get(j + 1)? {
                        TokenTree::Ident(i) => i.to_string(),
                        _ => return None, // repetition
                    };
                    let k = match pv.get(j + 3)? {
                        TokenTree::Ident(i) => i.to_string(),
                        _ => return None,
                    };
                    params.push((n, k));
                    j += 4;
                }
                TokenTree::Punct(p) if p.as_char() == ',' => j += 1,
                _ => return None,
            }
        }
        out.push(Rule { params, body: body.stream() });
        i += 4;
        if let Some(TokenTree::Punct(p)) = v.get(i) {
            if p.as_char() == ';' {
                i += 1;
            }
        }
    }
    Some(out)
}
fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    let mut angle = 0i32;
    for t in ts {
        match &t {
            TokenTree::Punct(p) if p.as_char() == '<' => {
                angle += 1;
                cur.push(t)
            }
            TokenTree::Punct(p) if p.as_char() == '>' => {
                angle -= 1;
                cur.push(t)
            }
            TokenTree::Punct(p) if p.as_char() == ',' && angle == 0 => out.push(std::mem::take(&mut cur).into_iter().collect()),
            _ => cur.push(t),
        }
    }
    if !cur.is_empty() {
        out.push(cur.into_iter().collect());
    }
    out
}
fn subst(ts: TokenStream, env: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    let n = id.to_string();
                    if let Some(r) = env.get(&n) {
                        out.extend(r.clone());
                        i += 2;
                        continue;
                    }
                    if n == "crate" {
                        out.push(v[i + 1].clone());
                        i += 2;
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), env));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
fn expand_items(items: Vec<Item>, extra: &[Item], feats: &BTreeSet<String>) -> Vec<Item> {
    let mut rules: HashMap<String, Vec<Rule>> = HashMap::new();
    for i in extra.iter().chain(&items) {
        if let Item::Macro(m) = i {
            if m.mac.path.is_ident("macro_rules") {
                if let (Some(id), Some(r)) = (&m.ident, parse_rules(m.mac.tokens.clone())) {
                    rules.insert(id.to_string(), r);
                }
            }
        }
    }
    fn go(items: Vec<Item>, rules: &HashMap<String, Vec<Rule>>, feats: &BTreeSet<String>, depth: usize) -> Vec<Item> {
        let mut out = vec![];
        for i in items {
            if let Item::Macro(m) = &i {
                let n = last_seg(&m.mac.path);
                if depth < 5 && attrs_on(feats, &m.attrs) {
                    if let Some(rs) = rules.get(&n) {
                        let args = split_commas(m.mac.tokens.clone());
                        if let Some(r) = rs.iter().find(|r| r.params.len() == args.len()) {
                            let env = r
                                .params
                                .iter()
                                .zip(args)
                                .map(|((n, k), a)| {
                                    let a = if k == "ty" {
                                        // keep transparent
                                        a
                                    } else {
                                        a
                                    };
                                    (n.clone(), a)
                                })
                                .collect();
                            let body = subst(r.body.clone(), &env);
                            if let Ok(f) = parse2::<File>(body) {
                                out.extend(go(f.items, rules, feats, depth + 1));
                                continue;
                            }
                        }
                    }
                }
            }
            if let Item::Impl(mut im) = i {
                // macros in impl position (e.g. binary_op!)
                let mut nit = vec![];
                for ii in im.items.into_iter() {
                    if let ImplItem::Macro(m) = &ii {
                        let n = last_seg(&m.mac.path);
                        if let Some(rs) = rules.get(&n) {
                            let args = split_commas(m.mac.tokens.clone());
                            if let Some(r) = rs.iter().find(|r| r.params.len() == args.len()) {
                                let env = r.params.iter().zip(args).map(|((n, _), a)| (n.clone(), a)).collect();
                                let body = subst(r.body.clone(), &env);
                                let wrapped = TokenTree::Group(Group::new(Delimiter::Brace, body));
                                let s: TokenStream = "impl X".parse::<TokenStream>().unwrap().into_iter().chain([wrapped]).collect();
                                if let Ok(x) = parse2::<ItemImpl>(s) {
                                    nit.extend(x.items);
                                    continue;
                                }
                            }
                        }
                    }
                    nit.push(ii);
                }
                im.items = nit;
                out.push(Item::Impl(im));
                continue;
            }
            out.push(i);
        }
        out
    }
    go(items, &rules, feats, 0)
}
/// expression macros defined in the file (e.g. sql_conv_err!)
pub fn expr_macro(file: &File, name: &str, tokens: TokenStream) -> Option<TokenStream> {
    for i in &file.items {
        if let Item::Macro(m) = i {
            if m.mac.path.is_ident("macro_rules") && m.ident.as_ref().map(|x| x == name).unwrap_or(false) {
                let rs = parse_rules(m.mac.tokens.clone())?;
                let args = split_commas(tokens);
                let r = rs.iter().find(|r| r.params.len() == args.len())?;
                let env = r.params.iter().zip(args).map(|((n, _), a)| (n.clone(), a)).collect();
                return Some(subst(r.body.clone(), &env));
            }
        }
    }
    None
}

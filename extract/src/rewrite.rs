//! The mechanical rewrites.  Executable code of a unit is produced here from /repo's source only.
//!
//! What is dropped or changed (reported per run in the extraction report):
//!  * attributes, docs, visibility, `where` bounds of signatures given in the template
//!  * `async`/`.await` (the code is read as its synchronous twin)
//!  * logging macros; arguments of panic-like macros
//!  * `write!`/`format!` become one `vput`/`vdisp` call per piece
//!  * `for` loops and iterator chains become `loop { match it.next() .. }` over a modelled iterator
//!  * closures passed to Option/Result combinators become `match`
//!  * leading module segments of paths are dropped
//!  * helper functions without a contract are inlined at the call
use crate::locate::{self, attrs_on, cfg_on, FnItem, Sources};
use crate::print::{print, Raw};
use crate::{lost, FnDirective, Lost, Res};
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Emitted {
    pub text: String,
    pub src_line: usize,
    pub loops_src: usize,
    pub loops_tpl: usize,
    pub inlined: Vec<String>,
}

pub fn emit_type(src: &mut Sources, d: &FnDirective, dropped: &mut BTreeSet<String>) -> Res<Emitted> {
    let path = d.attrs.get("path").expect("path");
    let name = d.attrs.get("name").expect("name");
    let feats = src.features.clone();
    let mut it = match d.attrs.get("impl") {
        Some(i) => src.find_const(path, name, i)?,
        None => src.find_type(path, name)?,
    };
    let line;
    // derives are dropped: contracts for Clone/PartialEq are given in the template where used
    if let Some(want) = d.attrs.get("derives") {
        let at: &[Attribute] = match &it {
            Item::Struct(s) => &s.attrs,
            Item::Enum(s) => &s.attrs,
            _ => &[],
        };
        let all: String = at.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.to_token_stream().to_string() + ",").collect();
        let has: Vec<&str> = all.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
        for w in want.split(',') {
            if !has.contains(&w.trim()) {
                return lost(format!("{name} no longer derives {w}"));
            }
        }
    }
    let mut sh = PathShort { subst: &d.subst };
    match &mut it {
        Item::Struct(s) => {
            line = s.ident.span().start().line;
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            prune_fields(&mut s.fields, &feats);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
            strip_bounds(&mut s.generics);
            if let Some(g) = d.attrs.get("gen") {
                s.generics = parse_str(g).expect("gen");
            }
        }
        Item::Enum(s) => {
            line = s.ident.span().start().line;
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            let vs: Vec<Variant> = s.variants.iter().filter(|v| attrs_on(&feats, &v.attrs)).cloned().collect();
            s.variants = vs
                .into_iter()
                .map(|mut v| {
                    v.attrs.clear();
                    prune_fields(&mut v.fields, &feats);
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                    v
                })
                .collect();
            strip_bounds(&mut s.generics);
        }
        Item::Type(s) => {
            line = s.ident.span().start().line;
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        Item::Const(s) => {
            line = s.ident.span().start().line;
            s.attrs.clear();
            s.vis = if d.attrs.contains_key("impl") && !d.attrs.contains_key("as") { Visibility::Inherited } else { parse_quote!(pub) };
            if let Type::Reference(r) = &mut *s.ty {
                r.lifetime = Some(parse_quote!('static));
            }
        }
        _ => return lost("item kind"),
    }
    sh.visit_item_mut(&mut it);
    if let Some(n) = d.attrs.get("as") {
        let id = format_ident!("{}", n);
        match &mut it {
            Item::Struct(s) => s.ident = id,
            Item::Enum(s) => s.ident = id,
            Item::Type(s) => s.ident = id,
            Item::Const(s) => s.ident = id,
            _ => {}
        }
    }
    dropped.insert("derives, attributes and visibility of extracted types".into());
    let mut text = print(it.to_token_stream(), &Raw { raw: &[], inv: &|_| String::new() });
    if let Some(a) = d.attrs.get("pre") {
        text = format!("{a}\n{text}");
    }
    Ok(Emitted { text, src_line: line, loops_src: 0, loops_tpl: 0, inlined: vec![] })
}
fn strip_bounds(g: &mut Generics) {
    g.where_clause = None;
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.attrs.clear();
        }
    }
}
fn prune_fields(f: &mut Fields, feats: &BTreeSet<String>) {
    match f {
        Fields::Named(n) => {
            let v: Vec<Field> = n.named.iter().filter(|x| attrs_on(feats, &x.attrs)).cloned().collect();
            n.named = v.into_iter().collect();
        }
        Fields::Unnamed(n) => {
            let v: Vec<Field> = n.unnamed.iter().filter(|x| attrs_on(feats, &x.attrs)).cloned().collect();
            n.unnamed = v.into_iter().collect();
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- paths
struct PathShort<'a> {
    subst: &'a [(String, String)],
}
fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
impl VisitMut for PathShort<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let k = t.to_token_stream().to_string().replace(' ', "");
        for (a, b) in self.subst {
            if k == a.replace(' ', "") && !matches!(t, Type::Path(_)) || (k.contains('<') && k == a.replace(' ', "")) {
                if let Ok(n) = parse_str::<Type>(b) {
                    *t = n;
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let full = path_str(p);
        for (a, b) in self.subst {
            if a.contains('(') {
                continue;
            }
            if full == *a {
                let args = p.segments.last().unwrap().arguments.clone();
                if let Ok(mut np) = parse_str::<Path>(b) {
                    if !args.is_none() && np.segments.last().unwrap().arguments.is_none() {
                        np.segments.last_mut().unwrap().arguments = args;
                    }
                    *p = np;
                    return;
                }
            }
        }
        // a type replaced by another: its variants and associated items too
        for (a, b) in self.subst {
            let up = a.rsplit("::").next().unwrap().starts_with(|c: char| c.is_ascii_uppercase());
            if up && !a.contains('(') && full.starts_with(&format!("{a}::")) {
                let k = a.split("::").count();
                if let Ok(mut np) = parse_str::<Path>(b) {
                    np.segments.extend(p.segments.iter().skip(k).cloned());
                    *p = np;
                    return;
                }
            }
        }
        p.leading_colon = None;
        let n = p.segments.len();
        if n >= 2 {
            let l2 = p.segments[n - 2].ident.to_string();
            let l1 = p.segments[n - 1].ident.to_string();
            if l2 == "mem" {
                p.segments = std::iter::once(PathSegment { ident: format_ident!("mem_{}", l1), arguments: p.segments[n - 1].arguments.clone() }).collect();
                return;
            }
            if (l2 == "result" || l2 == "fmt") && l1 == "Result" {
                p.segments = std::iter::once(PathSegment { ident: format_ident!("StdResult"), arguments: p.segments[n - 1].arguments.clone() }).collect();
                return;
            }
            let mut v: Vec<PathSegment> = p.segments.iter().cloned().collect();
            while v.len() > 1 {
                let s = v[0].ident.to_string();
                let lower = s.chars().next().map(|c| c.is_lowercase()).unwrap_or(false);
                let prim = ["str", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize", "f32", "f64", "char", "bool"].contains(&s.as_str());
                if lower && !prim {
                    v.remove(0);
                } else {
                    break;
                }
            }
            p.segments = v.into_iter().collect();
        }
    }
}

// ---------------------------------------------------------------- pass 1: prune, await, macros
struct MutVar {
    call: String,
    vars: Vec<String>,
}
impl VisitMut for MutVar {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Ident(p), Some(i)) = (&mut l.pat, &l.init) {
            if i.expr.to_token_stream().to_string().contains(&format!(". {} (", self.call)) {
                if p.by_ref.is_none() {
                    p.mutability = Some(Default::default());
                    self.vars.push(p.ident.to_string());
                }
            }
        }
    }
    fn visit_expr_reference_mut(&mut self, r: &mut ExprReference) {
        visit_mut::visit_expr_reference_mut(self, r);
        if let Expr::Path(p) = &*r.expr {
            if p.path.get_ident().map(|i| self.vars.contains(&i.to_string())).unwrap_or(false) {
                r.mutability = Some(Default::default());
            }
        }
    }
}
struct Prep<'a> {
    feats: &'a BTreeSet<String>,
    file: &'a File,
    err: Option<String>,
    dropped: &'a mut BTreeSet<String>,
    uses: Vec<UseTree>,
    n: usize,
}
fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::Block(x) => x.attrs.clone(),
        Expr::Call(x) => x.attrs.clone(),
        Expr::MethodCall(x) => x.attrs.clone(),
        Expr::If(x) => x.attrs.clone(),
        Expr::Match(x) => x.attrs.clone(),
        Expr::Return(x) => x.attrs.clone(),
        Expr::Macro(x) => x.attrs.clone(),
        Expr::ForLoop(x) => x.attrs.clone(),
        Expr::Assign(x) => x.attrs.clone(),
        Expr::Path(x) => x.attrs.clone(),
        Expr::Lit(x) => x.attrs.clone(),
        Expr::Try(x) => x.attrs.clone(),
        _ => vec![],
    }
}
fn is_log(n: &str) -> bool {
    matches!(n, "debug" | "info" | "warn" | "trace" | "error" | "println" | "eprintln" | "log")
}
fn sub_lit(s: &str) -> LitStr {
    LitStr::new(s, Span::call_site())
}
pub fn parse_fmt(s: &str) -> std::result::Result<Vec<(bool, String, String)>, String> {
    // (is_arg, text or arg name, spec)
    let mut out = vec![];
    let mut lit = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '{' {
            if it.peek() == Some(&'{') {
                it.next();
                lit.push('{');
                continue;
            }
            if !lit.is_empty() {
                out.push((false, std::mem::take(&mut lit), String::new()));
            }
            let mut a = String::new();
            loop {
                match it.next() {
                    Some('}') => break,
                    Some(x) => a.push(x),
                    None => return Err("format".into()),
                }
            }
            let (n, sp) = match a.split_once(':') {
                Some((x, y)) => (x.to_string(), y.to_string()),
                None => (a, String::new()),
            };
            out.push((true, n.trim().to_string(), sp));
        } else if c == '}' {
            if it.peek() == Some(&'}') {
                it.next();
            }
            lit.push('}');
        } else {
            lit.push(c);
        }
    }
    if !lit.is_empty() {
        out.push((false, lit, String::new()));
    }
    Ok(out)
}
struct Args(punctuated::Punctuated<Expr, Token![,]>);
impl parse::Parse for Args {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        Ok(Args(punctuated::Punctuated::parse_terminated(i)?))
    }
}
impl Prep<'_> {
    fn fmt_pushes(&mut self, w: &Expr, args: &[Expr]) -> std::result::Result<Vec<Stmt>, String> {
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = args.first() else { return Err("format string".into()) };
        let pieces = parse_fmt(&s.value())?;
        let mut named: HashMap<String, Expr> = HashMap::new();
        let mut posv: Vec<Expr> = vec![];
        for a in &args[1..] {
            if let Expr::Assign(x) = a {
                if let Expr::Path(p) = &*x.left {
                    named.insert(path_str(&p.path), (*x.right).clone());
                    continue;
                }
            }
            posv.push(a.clone());
        }
        let mut next = 0;
        let mut out: Vec<Stmt> = vec![];
        for (is_arg, t, sp) in pieces {
            if !is_arg {
                let l = sub_lit(&t);
                out.push(parse_quote!(#w.vput(#l);));
            } else {
                let e: Expr = if t.is_empty() {
                    next += 1;
                    posv.get(next - 1).cloned().ok_or("missing format argument")?
                } else if let Ok(i) = t.parse::<usize>() {
                    posv.get(i).cloned().ok_or("missing format argument")?
                } else if let Some(e) = named.get(&t) {
                    e.clone()
                } else {
                    let id = format_ident!("{}", t);
                    parse_quote!(#id)
                };
                if sp.is_empty() {
                    out.push(parse_quote!(#w.vdisp(&(#e));));
                } else {
                    let l = sub_lit(&sp);
                    out.push(parse_quote!(#w.vdisp_fmt(#l, &(#e));));
                }
            }
        }
        Ok(out)
    }
    fn mac(&mut self, m: &Macro) -> std::result::Result<Option<Expr>, String> {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let ts = m.tokens.clone();
        let args = || -> std::result::Result<Vec<Expr>, String> { parse2::<Args>(m.tokens.clone()).map(|a| a.0.into_iter().collect()).map_err(|e| format!("{n}!: {e}")) };
        Ok(Some(match n.as_str() {
            "write" | "writeln" => {
                let mut a = args()?;
                let mut w = a.remove(0);
                if let Expr::Reference(r) = &w {
                    w = (*r.expr).clone();
                }
                let mut st = self.fmt_pushes(&w, &a)?;
                if n == "writeln" {
                    st.push(parse_quote!(#w.vput("\n");));
                }
                parse_quote!({ #(#st)* vok() })
            }
            "format" => {
                let a = args()?;
                self.n += 1;
                let id = format_ident!("__s{}", self.n);
                let w: Expr = parse_quote!(#id);
                let st = self.fmt_pushes(&w, &a)?;
                parse_quote!({ let mut #id = String::new(); #(#st)* #id })
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e: Expr = i.parse()?;
                        let _: Token![,] = i.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            let _: Token![if] = i.parse()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _: Option<Token![,]> = i.parse()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = parse2::<M>(ts).map_err(|e| e.to_string())?;
                match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.dropped.insert("arguments of panic-like macros".into());
                parse_quote!(vpanic())
            }
            "assert" | "debug_assert" => {
                let a = args()?;
                let e = &a[0];
                parse_quote!(vassert(#e))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                let (x, y) = (&a[0], &a[1]);
                parse_quote!(vassert(#x == #y))
            }
            "cfg" => {
                let v = cfg_on(self.feats, ts);
                if v {
                    parse_quote!(true)
                } else {
                    parse_quote!(false)
                }
            }
            "vec" => return Ok(None),
            x if is_log(x) => {
                self.dropped.insert("logging macros".into());
                parse_quote!(())
            }
            _ => {
                if let Some(t) = locate::expr_macro(self.file, &n, ts) {
                    let t2 = quote!({ #t });
                    parse2::<Expr>(t2).map_err(|e| e.to_string())?
                } else {
                    return Err(format!("macro {n}! is not supported"));
                }
            }
        }))
    }
}
/// `use a::{Enum::Variant, ..}`: the imports of enum variants, with the module path dropped
fn variant_uses(t: &UseTree, last: Option<&Ident>, out: &mut Vec<Stmt>) {
    let up = |i: &Ident| i.to_string().starts_with(|c: char| c.is_ascii_uppercase());
    match t {
        UseTree::Path(p) => variant_uses(&p.tree, Some(&p.ident), out),
        UseTree::Group(g) => g.items.iter().for_each(|t| variant_uses(t, last, out)),
        UseTree::Name(n) => {
            if let Some(e) = last.filter(|e| up(e)) {
                let n = &n.ident;
                out.push(parse_quote!(use #e::#n;));
            }
        }
        UseTree::Rename(n) => {
            if let Some(e) = last.filter(|e| up(e)) {
                let (a, b) = (&n.ident, &n.rename);
                out.push(parse_quote!(use #e::#a as #b;));
            }
        }
        UseTree::Glob(_) => {}
    }
}
impl VisitMut for Prep<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            match &s {
                Stmt::Local(l) if !attrs_on(self.feats, &l.attrs) => continue,
                Stmt::Macro(m) if !attrs_on(self.feats, &m.attrs) => continue,
                Stmt::Expr(e, _) if !attrs_on(self.feats, &expr_attrs(e)) => continue,
                Stmt::Item(Item::Use(u)) => {
                    self.uses.push(u.tree.clone());
                    if glob_of_enum(&u.tree) {
                        b.stmts.push(s.clone());
                    } else {
                        let mut v = vec![];
                        variant_uses(&u.tree, None, &mut v);
                        b.stmts.extend(v);
                    }
                    continue;
                }
                Stmt::Item(Item::Const(_)) => {}
                Stmt::Item(_) => {
                    self.err = Some("nested item".into());
                    continue;
                }
                _ => {}
            }
            match s {
                Stmt::Macro(m) => match self.mac(&m.mac) {
                    Ok(Some(e)) => {
                        if let Expr::Tuple(t) = &e {
                            if t.elems.is_empty() && m.semi_token.is_some() {
                                continue;
                            }
                        }
                        b.stmts.push(Stmt::Expr(e, m.semi_token))
                    }
                    Ok(None) => b.stmts.push(Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }), m.semi_token)),
                    Err(e) => self.err = Some(e),
                },
                s => b.stmts.push(s),
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let f = self.feats;
        m.arms.retain(|a| attrs_on(f, &a.attrs));
        for a in m.arms.iter_mut() {
            a.attrs.clear();
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_struct_mut(&mut self, m: &mut ExprStruct) {
        let f = self.feats;
        let v: Vec<FieldValue> = m.fields.iter().filter(|x| attrs_on(f, &x.attrs)).cloned().collect();
        m.fields = v.into_iter().collect();
        if m.rest.is_some() && !m.fields.empty_or_trailing() {
            m.fields.push_punct(Default::default());
        }
        visit_mut::visit_expr_struct_mut(self, m);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            let ne = match e {
                Expr::Await(a) => Some((*a.base).clone()),
                Expr::Async(a) => {
                    let b = a.block.clone();
                    Some(parse_quote!(#b))
                }
                Expr::Paren(p) if matches!(*p.expr, Expr::Paren(_) | Expr::Group(_)) => Some((*p.expr).clone()),
                Expr::Group(p) => Some((*p.expr).clone()),
                Expr::Unsafe(_) => {
                    self.err = Some("unsafe block".into());
                    None
                }
                Expr::Macro(m) => match self.mac(&m.mac) {
                    Ok(Some(x)) => Some(x),
                    Ok(None) => {
                        let mut m2 = m.mac.clone();
                        // vec![..]: process elements
                        if let Ok(a) = parse2::<Args>(m2.tokens.clone()) {
                            let mut v: Vec<Expr> = a.0.into_iter().collect();
                            for x in v.iter_mut() {
                                self.visit_expr_mut(x);
                            }
                            m2.tokens = quote!(#(#v),*);
                            m.mac = m2;
                        }
                        return;
                    }
                    Err(x) => {
                        self.err = Some(x);
                        None
                    }
                },
                Expr::MethodCall(m) if (m.method == "write_str" || m.method == "write_fmt") && m.args.len() == 1 => {
                    let w = &m.receiver;
                    let a = &m.args[0];
                    Some(parse_quote!({ #w.vdisp(&(#a)); vok() }))
                }
                Expr::MethodCall(m) if m.method == "push_str" && m.args.len() == 1 => {
                    let w = &m.receiver;
                    let a = &m.args[0];
                    Some(parse_quote!(#w.vdisp(&(#a))))
                }
                _ => None,
            };
            match ne {
                Some(x) => *e = x,
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // clear attributes
        match e {
            Expr::Block(x) => x.attrs.clear(),
            Expr::Call(x) => x.attrs.clear(),
            Expr::If(x) => x.attrs.clear(),
            Expr::Match(x) => x.attrs.clear(),
            Expr::Return(x) => x.attrs.clear(),
            Expr::MethodCall(x) => x.attrs.clear(),
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- renaming
struct Rename<'a>(&'a HashMap<String, Expr>, &'a HashMap<String, Ident>);
impl VisitMut for Rename<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                if let Some(r) = self.0.get(&id.to_string()) {
                    *e = r.clone();
                    return;
                }
            }
        }
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.1.get(&p.ident.to_string()) {
            p.ident = n.clone();
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(a) = parse2::<Args>(m.tokens.clone()) {
            let mut v: Vec<Expr> = a.0.into_iter().collect();
            for x in v.iter_mut() {
                self.visit_expr_mut(x);
            }
            m.tokens = quote!(#(#v),*);
        }
    }
}
struct Binders(BTreeSet<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
            self.0.insert(n);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}
fn rename_pair(map: &[(String, String)]) -> (HashMap<String, Expr>, HashMap<String, Ident>) {
    let mut a = HashMap::new();
    let mut b = HashMap::new();
    for (x, y) in map {
        let id = format_ident!("{}", y);
        a.insert(x.clone(), parse_quote!(#id));
        b.insert(x.clone(), id);
    }
    (a, b)
}

// ---------------------------------------------------------------- inlining
struct Inl<'a> {
    src: &'a mut Sources,
    path: String,
    extra: Vec<String>,
    known: &'a BTreeSet<String>,
    noinline: BTreeSet<String>,
    subst: Vec<(String, String)>,
    dropped: &'a mut BTreeSet<String>,
    inlined: &'a mut Vec<String>,
    err: Option<String>,
    depth: usize,
    n: usize,
}
fn is_simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Reference(r) => is_simple(&r.expr),
        Expr::Field(f) => is_simple(&f.base),
        Expr::Paren(p) => is_simple(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_simple(&u.expr),
        _ => false,
    }
}
fn glob_of_enum(t: &UseTree) -> bool {
    match t {
        UseTree::Path(p) => match &*p.tree {
            UseTree::Glob(_) => p.ident.to_string().starts_with(char::is_uppercase),
            x => glob_of_enum(x),
        },
        _ => false,
    }
}
/// `T::try_from(x)` -> `vtry_from::<T, _>(x)`
struct TryFromCall<'a> {
    d: &'a FnDirective,
}
/// `&[&(dyn Tr + ..)]` -> Tr
fn dyn_slice(t: &Type) -> Option<Ident> {
    let Type::Reference(r) = t else { return None };
    let Type::Slice(s) = &*r.elem else { return None };
    let Type::Reference(i) = &*s.elem else { return None };
    let mut e = &*i.elem;
    while let Type::Paren(p) = e {
        e = &p.elem;
    }
    let Type::TraitObject(t) = e else { return None };
    match t.bounds.first() {
        Some(TypeParamBound::Trait(b)) => Some(b.path.segments.last().unwrap().ident.clone()),
        _ => None,
    }
}
impl<'a> VisitMut for TryFromCall<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        // `let x: &[&dyn Tr] = &[a, b]`: each element coerced by the external `vdyn_Tr`
        if let Pat::Type(pt) = &l.pat {
            if let (Some(tr), Some(init)) = (dyn_slice(&pt.ty), &mut l.init) {
                if let Expr::Reference(r) = &mut *init.expr {
                    if let Expr::Array(a) = &mut *r.expr {
                        let f = format_ident!("vdyn_{}", tr);
                        for x in a.elems.iter_mut() {
                            let y = x.clone();
                            *x = parse_quote!(#f(#y));
                        }
                        l.pat = (*pt.pat).clone();
                    }
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Cast(c) = e {
            if let Type::Reference(r) = &*c.ty {
                if let Type::TraitObject(t) = &*r.elem {
                    if let Some(TypeParamBound::Trait(b)) = t.bounds.first() {
                        let f = format_ident!("vdyn_{}", b.path.segments.last().unwrap().ident);
                        let x = (*c.expr).clone();
                        *e = parse_quote!(#f(#x));
                        return;
                    }
                }
                // `x as &DynAlias`
                if let Type::Path(p) = &*r.elem {
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    if l.starts_with("Dyn") {
                        let f = format_ident!("vdyn_{}", l);
                        let x = (*c.expr).clone();
                        *e = parse_quote!(#f(#x));
                        return;
                    }
                }
            }
        }
        if let Expr::Cast(c) = e {
            if c.ty.to_token_stream().to_string() == "f32" {
                let x = &c.expr;
                *e = parse_quote!(vcast_f32(#x));
            }
            return;
        }
        let Expr::Call(c) = e else { return };
        let Expr::Path(p) = &*c.func else { return };
        let n = p.path.segments.len();
        if p.path.segments[n - 1].ident != "try_from" || self.d.subst.iter().any(|(a, _)| *a == path_str(&p.path)) || c.args.len() != 1 {
            return;
        }
        let a = &c.args[0];
        let t: Type = match (&p.qself, n) {
            (Some(q), _) => (*q.ty).clone(),
            (None, n) if n >= 2 => {
                let mut pp = p.path.clone();
                pp.segments.pop();
                let l = pp.segments.pop().unwrap().into_value();
                pp.segments.push(l);
                parse_quote!(#pp)
            }
            _ => return,
        };
        *e = parse_quote!(vtry_from::<#t, _>(#a));
    }
}
struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_ret(b: &Block) -> bool {
    let mut h = HasRet(false);
    h.visit_block(b);
    h.0
}
fn has_ret_e(e: &Expr) -> bool {
    let mut h = HasRet(false);
    h.visit_expr(e);
    h.0
}
/// turn `if c { return x; } rest` into `if c { x } else { rest }`; None when not of that form
fn unreturn(b: &Block) -> Option<Block> {
    if !has_ret(b) {
        return Some(b.clone());
    }
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in b.stmts.iter().enumerate() {
        let rest = Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() };
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(()));
                if has_ret_e(&e) {
                    return None;
                }
                out.push(Stmt::Expr(e, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(Expr::If(x), _) if has_ret_e(&Expr::If(x.clone())) => {
                let then = &x.then_branch;
                let ends_ret = matches!(then.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                let t = unreturn(then)?;
                let cond = &x.cond;
                if has_ret_e(cond) {
                    return None;
                }
                if i + 1 == b.stmts.len() {
                    let eb: Expr = match &x.else_branch {
                        Some((_, e)) => match &**e {
                            Expr::Block(bb) => {
                                let z = unreturn(&bb.block)?;
                                parse_quote!(#z)
                            }
                            Expr::If(_) => {
                                let z = unreturn(&Block { brace_token: b.brace_token, stmts: vec![Stmt::Expr((**e).clone(), None)] })?;
                                parse_quote!(#z)
                            }
                            _ => return None,
                        },
                        None => return None,
                    };
                    out.push(Stmt::Expr(parse_quote!(if #cond #t else #eb), None));
                    return Some(Block { brace_token: b.brace_token, stmts: out });
                }
                if !ends_ret || x.else_branch.is_some() {
                    return None;
                }
                let r = unreturn(&rest)?;
                out.push(Stmt::Expr(parse_quote!(if #cond #t else #r), None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Local(l) if l.init.as_ref().map(|x| x.diverge.is_some()).unwrap_or(false) => {
                let init = l.init.as_ref().unwrap();
                let e = &init.expr;
                let p = &l.pat;
                let (_, dv) = init.diverge.as_ref().unwrap();
                if has_ret_e(e) {
                    return None;
                }
                let db = match &**dv {
                    Expr::Block(bb) => unreturn(&bb.block)?,
                    _ => return None,
                };
                let r = unreturn(&rest)?;
                out.push(Stmt::Expr(parse_quote!(match #e { #p => #r, _ => #db }), None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(Expr::Match(m), semi) if has_ret_e(&Expr::Match(m.clone())) => {
                if i + 1 != b.stmts.len() || semi.is_some() || has_ret_e(&m.expr) {
                    return None;
                }
                let mut m2 = m.clone();
                for a in m2.arms.iter_mut() {
                    let bb: Block = match &*a.body {
                        Expr::Block(x) => x.block.clone(),
                        e => Block { brace_token: b.brace_token, stmts: vec![Stmt::Expr(e.clone(), None)] },
                    };
                    let z = unreturn(&bb)?;
                    a.body = Box::new(parse_quote!(#z));
                }
                out.push(Stmt::Expr(Expr::Match(m2), None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            // let x = match e { A => v, B => return r };
            Stmt::Local(l) if l.init.is_some() => {
                let e = &l.init.as_ref().unwrap().expr;
                if has_ret_e(e) {
                    if let Expr::Match(m) = &**e {
                        if has_ret_e(&m.expr) {
                            return None;
                        }
                        let mut m2 = m.clone();
                        for a in m2.arms.iter_mut() {
                            if let Expr::Return(r) = &*a.body {
                                let v = r.expr.clone().unwrap_or(parse_quote!(()));
                                if has_ret_e(&v) {
                                    return None;
                                }
                                a.body = v;
                            } else if !has_ret_e(&a.body) {
                                let p = &l.pat;
                                let v = &a.body;
                                let mut stm: Vec<Stmt> = vec![parse_quote!(let #p = #v;)];
                                stm.extend(rest.stmts.iter().cloned());
                                let z = unreturn(&Block { brace_token: b.brace_token, stmts: stm })?;
                                a.body = Box::new(parse_quote!(#z));
                            } else {
                                return None;
                            }
                        }
                        out.push(Stmt::Expr(Expr::Match(m2), None));
                        return Some(Block { brace_token: b.brace_token, stmts: out });
                    }
                    return None;
                }
                out.push(s.clone());
            }
            s => {
                let bb = Block { brace_token: b.brace_token, stmts: vec![s.clone()] };
                if has_ret(&bb) {
                    return None;
                }
                out.push(s.clone());
            }
        }
    }
    Some(Block { brace_token: b.brace_token, stmts: out })
}

impl Inl<'_> {
    fn expand(&mut self, f: FnItem, args: Vec<Expr>, name: &str, tail: bool) -> std::result::Result<Expr, String> {
        let Some(block) = f.block.clone() else { return Err("no body".into()) };
        self.n += 1;
        let k = self.n;
        let feats = self.src.features.clone();
        let file = self.src.file(&self.path).map_err(|e| e.0)?.clone();
        let mut block = block;
        let mut p = Prep { feats: &feats, file: &file, err: None, dropped: self.dropped, uses: vec![], n: 1000 * k };
        p.visit_block_mut(&mut block);
        if let Some(e) = p.err {
            return Err(e);
        }
        let mut b = Binders(BTreeSet::new());
        b.visit_block(&block);
        for i in f.sig.inputs.iter() {
            if let FnArg::Typed(t) = i {
                b.visit_pat(&t.pat);
            }
        }
        let pairs: Vec<(String, String)> = b.0.iter().map(|n| (n.clone(), format!("{n}__h{k}"))).collect();
        let (mut em, im) = rename_pair(&pairs);
        let mut lets: Vec<Stmt> = vec![];
        let ins: Vec<&FnArg> = f.sig.inputs.iter().collect();
        if ins.len() != args.len() {
            return Err("arity".into());
        }
        for (i, a) in ins.iter().zip(args) {
            match i {
                FnArg::Receiver(_) => {
                    if !is_simple(&a) {
                        return Err("receiver".into());
                    }
                    em.insert("self".into(), a);
                }
                FnArg::Typed(t) => {
                    if let Pat::Ident(pi) = &*t.pat {
                        let n = pi.ident.to_string();
                        if is_simple(&a) && pi.mutability.is_none() {
                            em.insert(n, parse_quote!((#a)));
                            continue;
                        }
                        let nn = im.get(&n).unwrap();
                        if pi.mutability.is_some() {
                            lets.push(parse_quote!(let mut #nn = #a;));
                        } else {
                            lets.push(parse_quote!(let #nn = #a;));
                        }
                    } else {
                        let mut p = (*t.pat).clone();
                        Rename(&em, &im).visit_pat_mut(&mut p);
                        lets.push(parse_quote!(let #p = #a;));
                    }
                }
            }
        }
        let body = if tail {
            block
        } else {
            match unreturn(&block) {
                Some(b) => b,
                None => return Err(format!("helper {name} has early returns in a non-tail call")),
            }
        };
        let mut body = body;
        Rename(&em, &im).visit_block_mut(&mut body);
        let st = body.stmts;
        let e: Expr = parse_quote!({ #(#lets)* #(#st)* });
        self.inlined.push(name.to_string());
        self.dropped.insert("helper functions without a contract are inlined at the call".into());
        Ok(e)
    }
    fn try_inline(&mut self, e: &Expr, tail: bool) -> Option<Expr> {
        if self.depth > 6 {
            return None;
        }
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let full = path_str(&p.path);
                if self.subst.iter().any(|(a, _)| *a == full) {
                    return None;
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.last().unwrap().clone();
                if !n.chars().next().unwrap().is_lowercase() || self.known.contains(&n) || self.noinline.contains(&n) {
                    return None;
                }
                let mut assoc = false;
                if segs.len() > 1 {
                    let q = &segs[segs.len() - 2];
                    if q == "Self" {
                        assoc = true;
                    } else if q.chars().next().unwrap().is_uppercase() {
                        return None;
                    }
                }
                let f = self.src.find_any_fn(&self.path, &n, assoc)?;
                match self.expand(f, c.args.iter().cloned().collect(), &n, tail) {
                    Ok(x) => Some(x),
                    Err(e) => {
                        self.err = Some(format!("cannot inline {n}: {e}"));
                        None
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.known.contains(&n) || self.noinline.contains(&n) {
                    return None;
                }
                // only methods on self (or a simple receiver) defined once in this file
                if !is_simple(&m.receiver) || !matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) {
                    return None;
                }
                let f = self.src.find_any_fn(&self.path, &n, true)?;
                f.sig.receiver()?;
                let mut args = vec![(*m.receiver).clone()];
                args.extend(m.args.iter().cloned());
                match self.expand(f, args, &n, tail) {
                    Ok(x) => Some(x),
                    Err(e) => {
                        self.err = Some(format!("cannot inline {n}: {e}"));
                        None
                    }
                }
            }
            _ => None,
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail_expr(x);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail_expr(&mut a.body);
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail_expr(x);
                }
            }
            _ => {
                if let Some(mut x) = self.try_inline(e, true) {
                    self.depth += 1;
                    self.tail_expr(&mut x);
                    self.depth -= 1;
                    *e = x;
                } else {
                    self.visit_expr_mut(e);
                }
            }
        }
    }
    fn tail_block(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n => self.tail_expr(e),
                Stmt::Expr(Expr::Return(r), _) => {
                    if let Some(x) = &mut r.expr {
                        self.tail_expr(x)
                    }
                }
                s => self.visit_stmt_mut(s),
            }
        }
    }
}
impl VisitMut for Inl<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // helper(..)?  : returns of the helper may stay returns of the caller for the error part
        if let Some(mut x) = self.try_inline(e, false) {
            self.depth += 1;
            self.visit_expr_mut(&mut x);
            self.depth -= 1;
            *e = x;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        if let Some(x) = &mut r.expr {
            self.tail_expr(x);
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        // a closure body is a tail context of its own only after desugaring: no early returns
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

// ---------------------------------------------------------------- desugaring
#[derive(Clone)]
enum Stage {
    Map(ExprClosure),
    MapPath(Expr),
    Filter(ExprClosure),
    FilterMap(ExprClosure),
    Inspect(ExprClosure),
    Enumerate,
    Cloned,
}
struct Desugar<'a> {
    d: &'a FnDirective,
    raw: Vec<String>,
    nloops: usize,
    auto: BTreeMap<usize, bool>, // loop index -> canonical (iterator) loop?
    has_break: BTreeMap<usize, bool>,
    is_mut: BTreeMap<usize, bool>,
    probe: bool,
    probes: &'a mut usize,
    err: Option<String>,
    rename: HashMap<String, String>,
    keep: BTreeSet<String>,
    n: usize,
    used_loops: BTreeSet<usize>,
    file_fns: HashMap<String, String>, // fn name -> kind of result (opt/res)
    ncl: usize,
    try_ctx: bool,
}
const ITER_SRC: &[&str] = &["iter", "into_iter", "chars", "keys", "values", "iter_mut", "values_mut", "drain", "rev", "viter", "into_values", "into_keys", "difference", "intersection", "union", "zip", "lines", "split", "split_whitespace", "bytes"];

struct HasBreak(bool);
impl<'a> Visit<'a> for HasBreak {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_break(b: &Block) -> bool {
    let mut h = HasBreak(false);
    h.visit_block(b);
    h.0
}
fn as_closure(e: &Expr) -> Option<ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c.clone()),
        Expr::Paren(p) => as_closure(&p.expr),
        _ => None,
    }
}
fn clos_pat(c: &ExprClosure, i: usize) -> Pat {
    match c.inputs.get(i) {
        Some(Pat::Type(t)) => (*t.pat).clone(),
        Some(p) => p.clone(),
        None => parse_quote!(_),
    }
}
fn wild(p: &Pat) -> Pat {
    // Verus: plain `_` fine
    p.clone()
}

impl Desugar<'_> {
    fn rawstmt(&mut self, s: String) -> Stmt {
        self.raw.push(s);
        let n = Literal(self.raw.len() - 1);
        parse_quote!(__vraw! { #n })
    }
    fn probe_stmt(&mut self) -> Vec<Stmt> {
        if self.probe {
            *self.probes += 1;
            let k = *self.probes;
            vec![self.rawstmt(format!("if vnondet() {{ proof {{ assert(false); /* PROBE {k} */ }} }}"))]
        } else {
            vec![]
        }
    }
    fn new_loop(&mut self) -> usize {
        self.nloops += 1;
        self.nloops
    }
    fn subst_loop_text(&self, t: &str, k: usize) -> String {
        // $all1 etc. refer to loop 1; plain $all to this loop
        let mut s = t.to_string();
        for j in (1..=self.nloops.max(k) + 3).rev() {
            s = s.replace(&format!("$all{j}"), &format!("__all{j}"));
            s = s.replace(&format!("$pos{j}"), &format!("__it{j}.pos()"));
            s = s.replace(&format!("$it{j}"), &format!("__it{j}"));
            s = s.replace(&format!("$acc{j}"), &format!("__acc{j}"));
            s = s.replace(&format!("$fin{j}"), &format!("__fin{j}"));
        }
        s.replace("$all", &format!("__all{k}")).replace("$fin", &format!("__fin{k}")).replace("$pos", &format!("__it{k}.pos()")).replace("$it", &format!("__it{k}")).replace("$acc", &format!("__acc{k}"))
    }
    /// the canonical loop; `inner` gets the item in `__xK`
    fn canon(&mut self, k: usize, srce: Expr, pat: Pat, mut body: Vec<Stmt>, brk: bool) -> Vec<Stmt> {
        let it = format_ident!("__it{}", k);
        let kk = Literal(k);
        let is_mut = matches!(&srce, Expr::MethodCall(m) if m.method == "viter_mut" || m.method == "vvalues_mut");
        self.auto.insert(k, true);
        self.has_break.insert(k, brk);
        let mut st: Vec<Stmt> = vec![];
        st.push(parse_quote!(let mut #it = #srce;));
        let g = self.rawstmt(if is_mut { format!("let ghost __all{k} = __it{k}.all(); let ghost __fin{k} = __it{k}.fin();") } else { format!("let ghost __all{k} = __it{k}.all();") });
        st.push(g);
        self.is_mut.insert(k, is_mut);
        let mut head: Vec<Stmt> = vec![];
        if let Some(t) = self.d.loop_entry.get(&k).cloned() {
            let t = self.subst_loop_text(&t, k);
            head.push(self.rawstmt(t));
        }
        head.extend(self.probe_stmt());
        if let Some(t) = self.d.loop_exit.get(&k).cloned() {
            let t = self.subst_loop_text(&t, k);
            // make sure the last statement is a statement
            if let Some(Stmt::Expr(_, semi @ None)) = body.last_mut() {
                *semi = Some(Default::default());
            }
            body.push(self.rawstmt(t));
        }
        let mut stm = head;
        stm.extend(body);
        if let Some(Stmt::Expr(_, semi @ None)) = stm.last_mut() {
            *semi = Some(Default::default());
        }
        st.push(parse_quote!(loop { __vinv!{#kk} match #it.next() { None => { break; } Some(#pat) => { #(#stm)* } } }));
        if is_mut {
            // the iterator is dropped here: what it did not deliver stays as it was
            st.push(parse_quote!(#it.vend();));
        }
        if let Some(t) = self.d.loop_after.get(&k).cloned() {
            let t = self.subst_loop_text(&t, k);
            st.push(self.rawstmt(t));
        }
        st
    }
    fn inv_text(&self, k: usize) -> String {
        let tpl = self.d.loops.get(&k).cloned().unwrap_or_default();
        let tpl = self.subst_loop_text(&tpl, k);
        if !self.auto.get(&k).copied().unwrap_or(false) {
            return tpl;
        }
        // template sections: lines after "ensures" go to ensures, "decreases" ignored
        let mut inv = String::new();
        let mut ens = String::new();
        let mut exc = String::new();
        let mut mode = 0;
        for l in tpl.lines() {
            let t = l.trim();
            if t == "ensures" {
                mode = 1;
                continue;
            }
            if t == "invariant" {
                mode = 0;
                continue;
            }
            if t == "invariant_except_break" {
                mode = 2;
                continue;
            }
            if mode == 2 {
                exc += l;
                exc.push('\n');
            } else if mode == 0 {
                inv += l;
                inv.push('\n');
            } else {
                ens += l;
                ens.push('\n');
            }
        }
        let brk = self.has_break.get(&k).copied().unwrap_or(false);
        let mut s = String::new();
        if !exc.is_empty() {
            s += &format!("  invariant_except_break\n{exc}");
        }
        let m = if self.is_mut.get(&k).copied().unwrap_or(false) { format!("__it{k}.fin() == __fin{k}, __fin{k}.len() == __all{k}.len(), ") } else { String::new() };
        s += &format!("  invariant\n    __it{k}.all() == __all{k}, {m}0 <= __it{k}.pos() <= __all{k}.len(),\n{inv}");
        let _ = brk;
        if !ens.is_empty() {
            s += "  ensures\n";
            s += &ens;
        }
        s += &format!("  decreases __all{k}.len() - __it{k}.pos()\n");
        s
    }

    /// decompose an iterator chain: (source expr producing a modelled iterator, stages)
    fn chain(&mut self, e: &Expr) -> Option<(Expr, Vec<Stage>)> {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let a0 = m.args.first();
            match (n.as_str(), m.args.len()) {
                ("map", 1) | ("filter", 1) | ("filter_map", 1) | ("inspect", 1) => {
                    let (s, mut st) = self.chain(&m.receiver)?;
                    match as_closure(a0.unwrap()) {
                        Some(c) => st.push(match n.as_str() {
                            "map" => Stage::Map(c),
                            "filter" => Stage::Filter(c),
                            "inspect" => Stage::Inspect(c),
                            _ => Stage::FilterMap(c),
                        }),
                        None => {
                            if n == "map" {
                                st.push(Stage::MapPath(a0.unwrap().clone()))
                            } else if n == "filter_map" {
                                let p = a0.unwrap();
                                let c: ExprClosure = parse_quote!(|__p| #p(__p));
                                st.push(Stage::FilterMap(c))
                            } else {
                                return None;
                            }
                        }
                    }
                    return Some((s, st));
                }
                ("enumerate", 0) => {
                    let (s, mut st) = self.chain(&m.receiver)?;
                    st.push(Stage::Enumerate);
                    return Some((s, st));
                }
                ("cloned", 0) | ("copied", 0) => {
                    let (s, mut st) = self.chain(&m.receiver)?;
                    st.push(Stage::Cloned);
                    return Some((s, st));
                }
                ("peekable", 0) | ("fuse", 0) | ("by_ref", 0) => return self.chain(&m.receiver),
                ("rev", 0) => {
                    let (s, st) = self.chain(&m.receiver)?;
                    if !st.is_empty() {
                        return None;
                    }
                    return Some((parse_quote!(#s.vrev()), vec![]));
                }
                ("skip", 1) | ("take", 1) | ("zip", 1) => {
                    let (s, st) = self.chain(&m.receiver)?;
                    if !st.is_empty() {
                        return None;
                    }
                    let id = format_ident!("v{}", n);
                    let a = a0.unwrap();
                    return Some((parse_quote!(#s.#id(#a)), vec![]));
                }
                (x, _) if ITER_SRC.contains(&x) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let id = format_ident!("v{}", n);
                    let args: Vec<Expr> = m
                        .args
                        .iter()
                        .cloned()
                        .map(|mut a| {
                            self.visit_expr_mut(&mut a);
                            a
                        })
                        .collect();
                    return Some((parse_quote!(#r.#id(#(#args),*)), vec![]));
                }
                _ => return None,
            }
        }
        if let Expr::Paren(p) = e {
            return self.chain(&p.expr);
        }
        if matches!(e, Expr::Range(_)) || matches!(e, Expr::Try(_)) && self.hinted_iter(e) {
            let mut r = e.clone();
            self.visit_expr_mut(&mut r);
            return Some((parse_quote!((#r).vinto_iter()), vec![]));
        }
        None
    }
    fn loop_src(&mut self, e: &Expr) -> (Expr, Vec<Stage>) {
        if let Some(x) = self.chain(e) {
            return x;
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                // `&mut iterator` drops the iterator after the loop as well; `&mut place` iterates mutably
                if let Some(x) = self.chain(&r.expr) {
                    return x;
                }
                let mut p = (*r.expr).clone();
                self.visit_expr_mut(&mut p);
                return (parse_quote!(#p.viter_mut()), vec![]);
            }
        }
        let mut r = e.clone();
        self.visit_expr_mut(&mut r);
        (parse_quote!((#r).vinto_iter()), vec![])
    }
    fn run_stages(&mut self, k: usize, stages: Vec<Stage>, last_pat: Pat, action: Vec<Stmt>) -> (Pat, Vec<Stmt>) {
        // returns outer pattern and body
        if stages.is_empty() {
            return (last_pat, action);
        }
        let mut st: Vec<Stmt> = vec![];
        let first = format_ident!("__x{}_0", k);
        let mut cur = first.clone();
        let mut i = 0usize;
        for s in stages {
            i += 1;
            let nx = format_ident!("__x{}_{}", k, i);
            match s {
                Stage::Map(c) => {
                    let p = clos_pat(&c, 0);
                    let mut b = (*c.body).clone();
                    self.visit_expr_mut(&mut b);
                    st.push(parse_quote!(let #nx = { let #p = #cur; #b };));
                    cur = nx;
                }
                Stage::MapPath(e) => {
                    st.push(parse_quote!(let #nx = #e(#cur);));
                    cur = nx;
                }
                Stage::Inspect(c) => {
                    let p = clos_pat(&c, 0);
                    let mut b = (*c.body).clone();
                    self.visit_expr_mut(&mut b);
                    st.push(parse_quote!({ let #p = &#cur; #b; }));
                }
                Stage::Filter(c) => {
                    let p = clos_pat(&c, 0);
                    let mut b = (*c.body).clone();
                    self.visit_expr_mut(&mut b);
                    st.push(parse_quote!(let #nx = { let #p = &#cur; #b };));
                    st.push(parse_quote!(if !#nx { continue; }));
                }
                Stage::FilterMap(c) => {
                    let p = clos_pat(&c, 0);
                    let mut b = (*c.body).clone();
                    self.visit_expr_mut(&mut b);
                    st.push(parse_quote!(let #nx = match { let #p = #cur; #b } { Some(__v) => __v, None => { continue; } };));
                    cur = nx;
                }
                Stage::Enumerate => {
                    let it = format_ident!("__it{}", k);
                    st.push(parse_quote!(let #nx = (#it.vindex() - 1, #cur);));
                    cur = nx;
                }
                Stage::Cloned => {
                    st.push(parse_quote!(let #nx = #cur.clone();));
                    cur = nx;
                }
            }
        }
        if let Pat::Ident(_) | Pat::Wild(_) | Pat::Tuple(_) | Pat::Reference(_) | Pat::Struct(_) | Pat::TupleStruct(_) = &last_pat {
            st.push(parse_quote!(let #last_pat = #cur;));
        } else {
            st.push(parse_quote!(let #last_pat = #cur;));
        }
        st.extend(action);
        (parse_quote!(#first), st)
    }
    /// terminal consumers of a chain
    fn terminal(&mut self, e: &Expr, question: bool) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let n = m.method.to_string();
        let want = match (n.as_str(), m.args.len()) {
            ("fold", 2) | ("for_each", 1) | ("collect", 0) | ("any", 1) | ("all", 1) | ("find", 1) | ("find_map", 1) | ("count", 0) | ("position", 1) | ("try_for_each", 1) | ("last", 0) | ("try_fold", 2) => true,
            _ => false,
        };
        if !want {
            return None;
        }
        // the receiver must really be an iterator chain
        if !self.is_chain(&m.receiver) {
            return None;
        }
        let (s, stages) = self.chain(&m.receiver)?;
        let k = self.new_loop();
        let it_body = |me: &mut Self, c: &ExprClosure| {
            let mut b = (*c.body).clone();
            me.visit_expr_mut(&mut b);
            b
        };
        let acc = format_ident!("__acc{}", k);
        Some(match n.as_str() {
            "for_each" => {
                let c = match as_closure(&m.args[0]) {
                    Some(c) => c,
                    None => {
                        let p = &m.args[0];
                        parse_quote!(|__p| #p(__p))
                    }
                };
                let b = it_body(self, &c);
                let (p, body) = self.run_stages(k, stages, clos_pat(&c, 0), vec![Stmt::Expr(b, Some(Default::default()))]);
                let st = self.canon(k, s, p, body, false);
                parse_quote!({ #(#st)* })
            }
            "fold" => {
                let mut init = m.args[0].clone();
                self.visit_expr_mut(&mut init);
                let c = as_closure(&m.args[1])?;
                let b = it_body(self, &c);
                let ap = clos_pat(&c, 0);
                let accid = acc.clone();
                let stm: Vec<Stmt> = vec![parse_quote!(#acc = { let #ap = #acc; #b };)];
                let (p, body) = self.run_stages(k, stages, clos_pat(&c, 1), stm);
                let st = self.canon(k, s, p, body, false);
                parse_quote!({ let mut #accid = #init; #(#st)* #accid })
            }
            "collect" => {
                // kind
                let mut kind = String::from("vec");
                let mut is_res = false;
                if let Some(tf) = &m.turbofish {
                    let t = tf.to_token_stream().to_string().replace(' ', "");
                    if t.starts_with("::<Result<") || t.contains("::Result<") {
                        is_res = true;
                    }
                    if t.contains("String>") && !t.contains("Vec<") && !t.contains("BTreeSet<") && !t.contains("Map<") {
                        kind = "string".into();
                    } else if t.contains("BTreeSet") {
                        kind = "btreeset".into();
                    } else if t.contains("HashMap") || t.contains("BTreeMap") {
                        kind = "map".into();
                    }
                } else if question {
                    is_res = true;
                }
                for (a, b) in &self.d.hints {
                    if a == &format!("collect {k}") {
                        kind = b.clone();
                    }
                    if a == &format!("collect_res {k}") {
                        is_res = b == "true";
                    }
                }
                let newe: Expr = match kind.as_str() {
                    "vec" => parse_quote!(Vec::new()),
                    "string" => parse_quote!(String::new()),
                    "btreeset" => parse_quote!(BTreeSet::new()),
                    "map" => parse_quote!(VMap::new()),
                    _ => return None,
                };
                let x = format_ident!("__y{}", k);
                let push = |v: Expr| -> Stmt {
                    match kind.as_str() {
                        "vec" => parse_quote!(#acc.push(#v);),
                        "string" => parse_quote!(#acc.vcollect(#v);),
                        "btreeset" => parse_quote!(#acc.insert(#v);),
                        _ => parse_quote!({ let (__a, __b) = #v; #acc.insert(__a, __b); }),
                    }
                };
                if is_res && question {
                    let ps = push(parse_quote!(__v));
                    let (p, body) = self.run_stages(k, stages, parse_quote!(#x), vec![parse_quote!(let __v = #x?;), ps]);
                    let st = self.canon(k, s, p, body, false);
                    parse_quote!({ let mut #acc = #newe; #(#st)* #acc })
                } else if is_res {
                    let ps = push(parse_quote!(__v));
                    let er = format_ident!("__err{}", k);
                    let (p, body) = self.run_stages(
                        k,
                        stages,
                        parse_quote!(#x),
                        vec![parse_quote!(match #x { Ok(__v) => { #ps } Err(__e) => { #er = Some(__e); break; } })],
                    );
                    let st = self.canon(k, s, p, body, true);
                    parse_quote!({ let mut #acc = #newe; let mut #er = None; #(#st)* match #er { Some(__e) => Err(__e), None => Ok(#acc) } })
                } else {
                    let ps = push(parse_quote!(#x));
                    let (p, body) = self.run_stages(k, stages, parse_quote!(#x), vec![ps]);
                    let st = self.canon(k, s, p, body, false);
                    parse_quote!({ let mut #acc = #newe; #(#st)* #acc })
                }
            }
            "any" | "all" => {
                let c = clos_or_path(&m.args[0]);
                let b = it_body(self, &c);
                let (hit, init): (Expr, bool) = if n == "any" { (b, false) } else { (parse_quote!(!(#b)), true) };
                let set = !init;
                let (p, body) = self.run_stages(k, stages, clos_pat(&c, 0), vec![parse_quote!(if #hit { #acc = #set; break; })]);
                let st = self.canon(k, s, p, body, true);
                parse_quote!({ let mut #acc = #init; #(#st)* #acc })
            }
            "find" => {
                let plain = stages.is_empty();
                let c = clos_or_path(&m.args[0]);
                let b = it_body(self, &c);
                let x = format_ident!("__y{}", k);
                let (cp, cx) = match clos_pat(&c, 0) {
                    Pat::Reference(r) if r.mutability.is_none() => ((*r.pat).clone(), parse_quote!(#x)),
                    q => {
                        let e: Expr = parse_quote!(&#x);
                        (q, e)
                    }
                };
                let (p, body) = self.run_stages(k, stages, parse_quote!(#x), vec![parse_quote!(if { let #cp = #cx; #b } { #acc = Some(#x); break; })]);
                let lent = matches!(&s, Expr::MethodCall(m) if m.method == "viter_mut" || m.method == "vvalues_mut");
                let shared = plain && matches!(&s, Expr::MethodCall(m) if m.method == "viter" || m.method == "vvalues" || m.method == "vkeys");
                let st = self.canon(k, s, p, body, true);
                if shared {
                    return Some(parse_quote!({ let mut #acc: Option<&_> = None; #(#st)* #acc }));
                }
                if lent {
                    return Some(parse_quote!({ let mut #acc: Option<&mut _> = None; #(#st)* #acc }));
                }
                parse_quote!({ let mut #acc = None; #(#st)* #acc })
            }
            "find_map" => {
                let c = clos_or_path(&m.args[0]);
                let b = it_body(self, &c);
                let cp = clos_pat(&c, 0);
                let (p, body) = self.run_stages(k, stages, cp, vec![parse_quote!(match #b { Some(__v) => { #acc = Some(__v); break; } None => {} })]);
                let st = self.canon(k, s, p, body, true);
                parse_quote!({ let mut #acc = None; #(#st)* #acc })
            }
            "position" => {
                let c = clos_or_path(&m.args[0]);
                let b = it_body(self, &c);
                let it = format_ident!("__it{}", k);
                let (p, body) = self.run_stages(k, stages, clos_pat(&c, 0), vec![parse_quote!(if #b { #acc = Some(#it.vindex() - 1); break; })]);
                let st = self.canon(k, s, p, body, true);
                parse_quote!({ let mut #acc = None; #(#st)* #acc })
            }
            "count" => {
                let (p, body) = self.run_stages(k, stages, parse_quote!(_), vec![parse_quote!(#acc += 1;)]);
                let st = self.canon(k, s, p, body, false);
                parse_quote!({ let mut #acc: usize = 0; #(#st)* #acc })
            }
            "last" => {
                let x = format_ident!("__y{}", k);
                let (p, body) = self.run_stages(k, stages, parse_quote!(#x), vec![parse_quote!(#acc = Some(#x);)]);
                let st = self.canon(k, s, p, body, false);
                parse_quote!({ let mut #acc = None; #(#st)* #acc })
            }
            "try_for_each" => {
                let c = clos_or_path(&m.args[0]);
                let b = it_body(self, &c);
                let (p, body) = if question {
                    self.run_stages(k, stages, clos_pat(&c, 0), vec![parse_quote!((#b)?;)])
                } else {
                    self.run_stages(k, stages, clos_pat(&c, 0), vec![parse_quote!(match #b { Ok(_) => {} Err(__e) => { #acc = Err(__e); break; } })])
                };
                let st = self.canon(k, s, p, body, !question);
                if question {
                    parse_quote!({ #(#st)* })
                } else {
                    parse_quote!({ let mut #acc = Ok(()); #(#st)* #acc })
                }
            }
            _ => return None,
        })
    }
    /// a hint says that this expression is an iterator
    fn hinted_iter(&self, e: &Expr) -> bool {
        let txt = e.to_token_stream().to_string().replace(' ', "");
        self.d.hints.iter().any(|(a, b)| b == "iter" && txt == a.replace(' ', ""))
    }
    fn is_chain(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ITER_SRC.contains(&n.as_str()) {
                    return true;
                }
                if ["map", "filter", "filter_map", "enumerate", "cloned", "copied", "skip", "take", "inspect", "peekable"].contains(&n.as_str()) {
                    return self.is_chain(&m.receiver);
                }
                false
            }
            Expr::Range(_) => true,
            Expr::Paren(p) => self.is_chain(&p.expr),
            Expr::Try(_) => self.hinted_iter(e),
            _ => false,
        }
    }
    fn kind_of(&self, e: &Expr) -> Option<&'static str> {
        let txt = e.to_token_stream().to_string().replace(' ', "");
        for (a, b) in &self.d.hints {
            if b != "iter" && txt.ends_with(&a.replace(' ', "")) {
                return Some(if b == "opt" { "opt" } else if b == "stream" { "stream" } else { "res" });
            }
        }
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let arity = self.file_fns.get(&format!("#{n}"));
                if let Some(k) = self.file_fns.get(&n).filter(|_| arity.map_or(true, |a| *a == m.args.len().to_string())) {
                    return Some(if k == "opt" { "opt" } else { "res" });
                }
                match n.as_str() {
                    "ok" | "get" | "get_mut" | "first" | "last" | "pop" | "next" | "find" | "position" | "find_map" | "as_deref" | "checked_add" | "checked_sub" | "get_ident" | "strip_prefix" | "err" => Some("opt"),
                    "ok_or" | "ok_or_else" | "map_err" | "parse" | "try_into" | "execute" | "lock" => Some("res"),
                    "map" | "and_then" | "as_ref" | "as_mut" | "or_else" | "cloned" | "clone" | "transpose_" | "take" | "filter" => self.kind_of(&m.receiver),
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = path_str(&p.path);
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    if n == "Some" {
                        return Some("opt");
                    }
                    if n == "Ok" || n == "Err" {
                        return Some("res");
                    }
                    if l == "try_from" || l == "vtry_from" || l == "from_str" || l == "vok" || l == "get_or_init_once_lock" || l == "get_or_init_once_lock_async" || l == "parse_from_str" || n.starts_with("serde_json::") || n == "to_string" {
                        return Some("res");
                    }
                    if let Some(k) = self.file_fns.get(&l) {
                        return Some(if k == "opt" { "opt" } else { "res" });
                    }
                }
                None
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind_of(e),
                _ => None,
            }
            Expr::Paren(p) => self.kind_of(&p.expr),
            Expr::Reference(p) => self.kind_of(&p.expr),
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    return match self.file_fns.get(&format!(".{n}")).map(|s| s.as_str()) {
                        Some("opt") => Some("opt"),
                        Some(_) => Some("res"),
                        None => None,
                    };
                }
                None
            }
            Expr::Path(p) => {
                if let Some(id) = p.path.get_ident() {
                    match self.file_fns.get(&format!("={id}")).map(|s| s.as_str()) {
                        Some("opt") => return Some("opt"),
                        Some(_) => return Some("res"),
                        None => {}
                    }
                }
                if p.path.is_ident("None") {
                    return Some("opt");
                }
                None
            }
            Expr::Match(m) => m.arms.iter().find_map(|a| self.kind_of(&a.body)),
            _ => None,
        }
    }
    /// Option / Result combinators with closures -> match
    fn combinator(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let n = m.method.to_string();
        if n == "query_row_and_then" && m.args.len() == 3 {
            // rusqlite: run the query, apply the closure to its first row
            let c = as_closure(&m.args[2])?;
            let p = clos_pat(&c, 0);
            let mut r = (*m.receiver).clone();
            self.visit_expr_mut(&mut r);
            let (mut a0, mut a1) = (m.args[0].clone(), m.args[1].clone());
            self.visit_expr_mut(&mut a0);
            self.visit_expr_mut(&mut a1);
            let mut b = (*c.body).clone();
            self.visit_expr_mut(&mut b);
            return Some(parse_quote!(match #r.query_row_and_then(#a0, #a1) { Ok(#p) => #b, Err(__e) => Err(__e) }));
        }
        if !matches!(
            n.as_str(),
            "map" | "and_then" | "map_err" | "or_else" | "unwrap_or_else" | "ok_or_else" | "map_or" | "map_or_else" | "is_some_and" | "is_none_or" | "is_ok_and" | "filter" | "unwrap_or_default" | "unwrap_or" | "ok_or" | "inspect_err" | "ok" | "or" | "then" | "copied" | "cloned" | "flatten" | "transpose"
        ) {
            return None;
        }
        if self.is_chain(&m.receiver) && n != "ok" {
            return None;
        }
        let lastarg = m.args.last().cloned();
        let as_cl = |i: usize| -> Option<ExprClosure> {
            let a = m.args.iter().nth(i)?;
            if let Some(c) = as_closure(a) {
                return Some(c);
            }
            if let Expr::Path(_) = a {
                return Some(parse_quote!(|__p| #a(__p)));
            }
            None
        };
        let kind = match n.as_str() {
            "map_err" | "is_ok_and" | "inspect_err" | "ok" => Some("res"),
            "ok_or_else" | "is_some_and" | "is_none_or" | "filter" | "ok_or" | "flatten" => Some("opt"),
            "unwrap_or_else" => {
                let c = as_closure(lastarg.as_ref()?);
                match c {
                    Some(c) if c.inputs.is_empty() => Some("opt"),
                    Some(_) => Some("res"),
                    None => self.kind_of(&m.receiver),
                }
            }
            _ => self.kind_of(&m.receiver),
        };
        if n == "then" {
            let c = as_closure(lastarg.as_ref()?)?;
            let mut r = (*m.receiver).clone();
            self.visit_expr_mut(&mut r);
            let mut b = (*c.body).clone();
            self.visit_expr_mut(&mut b);
            return Some(parse_quote!(if #r { Some(#b) } else { None }));
        }
        if matches!(n.as_str(), "ok" | "or" | "transpose" | "flatten" | "unwrap_or_default" | "copied" | "cloned") {
            return None;
        }
        let has_closure = m.args.iter().any(|a| as_closure(a).is_some());
        if !has_closure && matches!(n.as_str(), "unwrap_or" | "ok_or") {
            return None; // supported natively
        }
        if kind == Some("stream") {
            return None;
        }
        let Some(kind) = kind else {
            self.err = Some(format!("cannot tell Option from Result: {}", e.to_token_stream()));
            return None;
        };
        let mut r = (*m.receiver).clone();
        self.visit_expr_mut(&mut r);
        let body = |me: &mut Self, c: &ExprClosure| -> Expr {
            let mut b = (*c.body).clone();
            if has_ret_e(&b) && has_return_only(&b) {
                me.err = Some("return inside a combinator closure".into());
            }
            me.visit_expr_mut(&mut b);
            b
        };
        let opt = kind == "opt";
        Some(match n.as_str() {
            "map" => {
                let c = as_cl(0)?;
                let p = wild(&clos_pat(&c, 0));
                let b = body(self, &c);
                if opt {
                    parse_quote!(match #r { Some(#p) => Some(#b), None => None })
                } else {
                    parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })
                }
            }
            "and_then" => {
                let c = as_cl(0)?;
                let p = clos_pat(&c, 0);
                let b = body(self, &c);
                if opt {
                    parse_quote!(match #r { Some(#p) => #b, None => None })
                } else {
                    parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) })
                }
            }
            "map_err" => {
                let c = as_cl(0)?;
                let p = clos_pat(&c, 0);
                let b = body(self, &c);
                parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })
            }
            "inspect_err" => {
                return Some(r);
            }
            "or_else" => {
                let c = as_cl(0)?;
                let p = clos_pat(&c, 0);
                let b = body(self, &c);
                if opt {
                    parse_quote!(match #r { Some(__v) => Some(__v), None => #b })
                } else {
                    parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => #b })
                }
            }
            "unwrap_or_else" => {
                if opt {
                    let b: Expr = match as_closure(&m.args[0]) {
                        Some(c) => body(self, &c),
                        None => {
                            let p = &m.args[0];
                            parse_quote!(#p())
                        }
                    };
                    parse_quote!(match #r { Some(__v) => __v, None => #b })
                } else {
                    let c = as_cl(0)?;
                    let p = clos_pat(&c, 0);
                    let b = body(self, &c);
                    parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b })
                }
            }
            "ok_or_else" => {
                let b: Expr = match as_closure(&m.args[0]) {
                    Some(c) => body(self, &c),
                    None => {
                        let p = &m.args[0];
                        parse_quote!(#p())
                    }
                };
                parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) })
            }
            "map_or" => {
                let mut dflt = m.args[0].clone();
                self.visit_expr_mut(&mut dflt);
                let c = as_cl(1)?;
                let p = clos_pat(&c, 0);
                let b = body(self, &c);
                if opt {
                    parse_quote!(match #r { Some(#p) => #b, None => #dflt })
                } else {
                    parse_quote!(match #r { Ok(#p) => #b, Err(_) => #dflt })
                }
            }
            "map_or_else" => {
                let c0 = as_cl(0)?;
                let b0 = body(self, &c0);
                let p0 = clos_pat(&c0, 0);
                let c = as_cl(1)?;
                let p = clos_pat(&c, 0);
                let b = body(self, &c);
                if opt {
                    parse_quote!(match #r { Some(#p) => #b, None => #b0 })
                } else {
                    parse_quote!(match #r { Ok(#p) => #b, Err(#p0) => #b0 })
                }
            }
            "is_some_and" | "is_ok_and" | "is_none_or" => {
                let c = as_cl(0)?;
                let p = clos_pat(&c, 0);
                let b = body(self, &c);
                match n.as_str() {
                    "is_some_and" => parse_quote!(match #r { Some(#p) => #b, None => false }),
                    "is_none_or" => parse_quote!(match #r { Some(#p) => #b, None => true }),
                    _ => parse_quote!(match #r { Ok(#p) => #b, Err(_) => false }),
                }
            }
            "filter" => {
                let c = as_cl(0)?;
                let p = clos_pat(&c, 0);
                let b = body(self, &c);
                parse_quote!(match #r { Some(__v) => { if { let #p = &__v; #b } { Some(__v) } else { None } } None => None })
            }
            _ => return None,
        })
    }
}
struct OnlyRet(bool);
impl<'a> Visit<'a> for OnlyRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
}
fn has_return_only(e: &Expr) -> bool {
    let mut h = OnlyRet(false);
    h.visit_expr(e);
    h.0
}
fn clos_or_path(a: &Expr) -> ExprClosure {
    match as_closure(a) {
        Some(c) => c,
        None => parse_quote!(|__p| #a(__p)),
    }
}
fn pat_ident(p: &Pat) -> Option<Ident> {
    match p {
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(i.ident.clone()),
        _ => None,
    }
}
struct Literal(usize);
impl ToTokens for Literal {
    fn to_tokens(&self, t: &mut TokenStream) {
        t.extend([TokenTree::Literal(proc_macro2::Literal::usize_unsuffixed(self.0))]);
    }
}

impl VisitMut for Desugar<'_> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let kind = match &l.pat {
            Pat::Type(t) => match locate::ty_last(&t.ty).trim_start_matches('&') {
                "Option" => Some("opt"),
                "Result" => Some("res"),
                _ => None,
            },
            _ => l.init.as_ref().filter(|i| i.diverge.is_none()).and_then(|i| self.kind_of(&i.expr)),
        };
        let id = match &l.pat {
            Pat::Type(t) => pat_ident(&t.pat),
            p => pat_ident(p),
        };
        match (id, kind) {
            (Some(id), Some(k)) => {
                self.file_fns.insert(format!("={id}"), k.into());
            }
            (Some(id), None) => {
                self.file_fns.remove(&format!("={id}"));
            }
            _ => {}
        }
        if let (Pat::Type(t), Some(i)) = (&l.pat, l.init.as_mut()) {
            if let Expr::MethodCall(m) = &mut *i.expr {
                if m.method == "collect" && m.turbofish.is_none() {
                    let ty = (*t.ty).clone();
                    m.turbofish = Some(parse_quote!(::<#ty>));
                } else if m.method == "as_ref" && m.args.is_empty() && t.ty.to_token_stream().to_string().replace(' ', "") == "&str" {
                    m.method = format_ident!("vas_str");
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // proof text around calls
        if !self.d.before.is_empty() || !self.d.after.is_empty() {
            let old = std::mem::take(&mut b.stmts);
            for s in old {
                let calls = direct_calls(&s);
                let mut pre = vec![];
                let mut post = vec![];
                for (n, t) in self.d.before.clone() {
                    if calls.contains(&n) {
                        pre.push(self.rawstmt(t));
                    }
                }
                for (n, t) in self.d.after.clone() {
                    if calls.contains(&n) {
                        // `$let`: the variable the statement binds
                        let bound = match &s {
                            Stmt::Local(l) => match &l.pat {
                                Pat::Type(t) => pat_ident(&t.pat),
                                p => pat_ident(p),
                            },
                            Stmt::Expr(_, None) => Some(format_ident!("__t{}", self.n + 1)),
                            _ => None,
                        };
                        if t.contains("$let") {
                            if let Some(v) = bound {
                                post.push(self.rawstmt(t.replace("$let", &v.to_string())));
                            }
                        } else {
                            post.push(self.rawstmt(t));
                        }
                    }
                }
                b.stmts.extend(pre);
                if !post.is_empty() {
                    if let Stmt::Expr(e, None) = s {
                        // tail expression: bind
                        self.n += 1;
                        let id = format_ident!("__t{}", self.n);
                        b.stmts.push(parse_quote!(let #id = #e;));
                        b.stmts.extend(post);
                        b.stmts.push(Stmt::Expr(parse_quote!(#id), None));
                        continue;
                    }
                }
                b.stmts.push(s);
                b.stmts.extend(post);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // early: `chain.collect()?`
        if let Expr::Try(t) = e {
            if let Some(x) = self.terminal(&t.expr, true) {
                if let Expr::MethodCall(m) = &*t.expr {
                    if matches!(m.method.to_string().as_str(), "collect" | "try_for_each") {
                        *e = x;
                        return;
                    }
                }
                let x2 = x;
                *e = parse_quote!((#x2)?);
                return;
            }
        }
        if let Some(x) = self.terminal(e, false) {
            *e = x;
            return;
        }
        if let Expr::MethodCall(m) = e {
            // an iterator handed to an external function: its items, in order
            if !matches!(m.method.to_string().as_str(), "extend" | "zip" | "chain" | "eq") {
                for x in m.args.iter_mut() {
                    if let Expr::MethodCall(c) = x {
                        if c.method == "map" && self.is_chain(&c.receiver) {
                            let y = x.clone();
                            *x = parse_quote!(#y.collect::<Vec<_>>());
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // vec.extend(iter chain)
            if m.method == "extend" && m.args.len() == 1 && self.is_chain(&m.args[0]) {
                let mut r = (*m.receiver).clone();
                if is_simple(&r) {
                    let a = m.args[0].clone();
                    if let Some((s, stages)) = self.chain(&a) {
                        let k = self.new_loop();
                        self.visit_expr_mut(&mut r);
                        let x = format_ident!("__y{}", k);
                        let (p, body) = self.run_stages(k, stages, parse_quote!(#x), vec![parse_quote!(#r.push(#x);)]);
                        let st = self.canon(k, s, p, body, false);
                        *e = parse_quote!({ #(#st)* });
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "retain" && m.args.len() == 1 && is_simple(&m.receiver) {
                if let Some(c) = as_closure(&m.args[0]) {
                    let r = (*m.receiver).clone();
                    let k = self.new_loop();
                    let acc = format_ident!("__acc{}", k);
                    let x = format_ident!("__y{}", k);
                    let cp = clos_pat(&c, 0);
                    let mut b = (*c.body).clone();
                    self.visit_expr_mut(&mut b);
                    let st = self.canon(k, parse_quote!(mem_take(&mut #r).vinto_iter()), parse_quote!(#x), vec![parse_quote!(if { let #cp = &#x; #b } { #acc.push(#x); })], false);
                    *e = parse_quote!({ let mut #acc = Vec::new(); #(#st)* #r = #acc; });
                    return;
                }
            }
        }
        if let Some(x) = self.combinator(e) {
            *e = x;
            return;
        }
        match e {
            Expr::ForLoop(f) => {
                let k = {
                    let (s, stages) = self.loop_src(&f.expr.clone());
                    let k = self.new_loop();
                    let brk = has_break(&f.body);
                    let mut b = f.body.clone();
                    self.visit_block_mut(&mut b);
                    if f.label.is_some() {
                        self.err = Some("labelled loop".into());
                    }
                    let (p, body) = self.run_stages(k, stages, (*f.pat).clone(), b.stmts);
                    let st = self.canon(k, s, p, body, brk);
                    *e = parse_quote!({ #(#st)* });
                    k
                };
                let _ = k;
                return;
            }
            Expr::While(w) => {
                let k = self.new_loop();
                let kk = Literal(k);
                if let Expr::Let(l) = &*w.cond {
                    let p = &l.pat;
                    let mut c = (*l.expr).clone();
                    self.visit_expr_mut(&mut c);
                    let mut b = w.body.clone();
                    self.visit_block_mut(&mut b);
                    let mut head: Vec<Stmt> = vec![];
                    if let Some(t) = self.d.loop_entry.get(&k).cloned() {
                        head.push(self.rawstmt(t));
                    }
                    head.extend(self.probe_stmt());
                    let mut st = b.stmts;
                    if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
                        *semi = Some(Default::default());
                    }
                    if let Some(t) = self.d.loop_exit.get(&k).cloned() {
                        st.push(self.rawstmt(t));
                    }
                    let mut after: Vec<Stmt> = vec![];
                    if let Some(t) = self.d.loop_after.get(&k).cloned() {
                        after.push(self.rawstmt(t));
                    }
                    *e = parse_quote!({ loop { __vinv!{#kk} match #c { #p => { #(#head)* #(#st)* } _ => { break; } } } #(#after)* });
                } else {
                    let mut c = (*w.cond).clone();
                    self.visit_expr_mut(&mut c);
                    let mut b = w.body.clone();
                    self.visit_block_mut(&mut b);
                    let mut head: Vec<Stmt> = vec![];
                    if let Some(t) = self.d.loop_entry.get(&k).cloned() {
                        head.push(self.rawstmt(t));
                    }
                    head.extend(self.probe_stmt());
                    let mut st = b.stmts;
                    if let Some(t) = self.d.loop_exit.get(&k).cloned() {
                        st.push(self.rawstmt(t));
                    }
                    let mut after: Vec<Stmt> = vec![];
                    if let Some(t) = self.d.loop_after.get(&k).cloned() {
                        after.push(self.rawstmt(t));
                    }
                    *e = parse_quote!({ while #c { __vinv!{#kk} #(#head)* #(#st)* } #(#after)* });
                }
                return;
            }
            Expr::Loop(w) => {
                let k = self.new_loop();
                let kk = Literal(k);
                let mut b = w.body.clone();
                self.visit_block_mut(&mut b);
                let mut head: Vec<Stmt> = vec![];
                if let Some(t) = self.d.loop_entry.get(&k).cloned() {
                    head.push(self.rawstmt(t));
                }
                head.extend(self.probe_stmt());
                let mut st = b.stmts;
                if let Some(t) = self.d.loop_exit.get(&k).cloned() {
                    st.push(self.rawstmt(t));
                }
                *e = parse_quote!(loop { __vinv!{#kk} #(#head)* #(#st)* });
                return;
            }
            Expr::Macro(m) => {
                if m.mac.path.is_ident("vec") {
                    if let Ok(a) = parse2::<Args>(m.mac.tokens.clone()) {
                        let mut v: Vec<Expr> = a.0.into_iter().collect();
                        for x in v.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        m.mac.tokens = quote!(#(#v),*);
                    }
                }
                return;
            }
            Expr::Closure(c) => {
                // a closure that survived: the template may give it a contract
                self.ncl += 1;
                if self.d.closures.contains_key(&self.ncl) {
                    let id = format_ident!("__VCLOS{}_", self.ncl);
                    c.output = parse_quote!(-> #id);
                    if !matches!(&*c.body, Expr::Block(_)) {
                        let b = c.body.clone();
                        c.body = Box::new(parse_quote!({ #b }));
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        fn blockish(x: &Expr) -> bool {
            matches!(x, Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::Loop(_) | Expr::While(_))
        }
        let slot: Option<&mut Box<Expr>> = match e {
            Expr::MethodCall(m) => Some(&mut m.receiver),
            Expr::Try(t) => Some(&mut t.expr),
            Expr::Field(t) => Some(&mut t.base),
            Expr::Binary(t) => Some(&mut t.left),
            Expr::Index(t) => Some(&mut t.expr),
            Expr::Cast(t) => Some(&mut t.expr),
            _ => None,
        };
        if let Some(b) = slot {
            if blockish(b) {
                let i = (**b).clone();
                **b = parse_quote!((#i));
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if let Some(r) = self.rename.get(&n) {
                if !self.keep.contains(&n) {
                    m.method = format_ident!("{}", r);
                }
            }
            m.turbofish = if n == "parse" || n == "get" || n == "sql_eq" { m.turbofish.clone() } else { None };
        }
    }
}
struct DCalls(Vec<String>);
impl<'a> Visit<'a> for DCalls {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.0.push(c.method.to_string());
        syn::visit::visit_expr_method_call(self, c);
    }
}
fn direct_calls(s: &Stmt) -> Vec<String> {
    let mut d = DCalls(vec![]);
    match s {
        Stmt::Local(l) => {
            if let Some(i) = &l.init {
                d.visit_expr(&i.expr)
            }
        }
        Stmt::Expr(Expr::Match(m), _) => d.visit_expr(&m.expr),
        Stmt::Expr(Expr::If(m), _) => d.visit_expr(&m.cond),
        Stmt::Expr(e, _) => d.visit_expr(e),
        _ => {}
    }
    d.0
}

// ---------------------------------------------------------------- tail position: one return per branch
/// `match x { A => e1, B => e2 }.unwrap()` in tail position becomes
/// `match x { A => { return e1.unwrap(); }, B => { return e2.unwrap(); } }`
fn tail_returns(e: Expr, wraps: &[ExprMethodCall], depth: usize) -> Expr {
    match e {
        Expr::Paren(p) => tail_returns(*p.expr, wraps, depth),
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                let b = tail_returns((*a.body).clone(), wraps, depth + 1);
                a.body = Box::new(parse_quote!({ #b }));
                a.comma = None;
            }
            Expr::Match(m)
        }
        Expr::If(mut i) if i.else_branch.is_some() => {
            let tb = i.then_branch.clone();
            let t = tail_returns(parse_quote!(#tb), wraps, depth + 1);
            i.then_branch = parse_quote!({ #t });
            let (k, el) = i.else_branch.take().unwrap();
            let el2 = tail_returns(*el, wraps, depth + 1);
            i.else_branch = Some((k, Box::new(parse_quote!({ #el2 }))));
            Expr::If(i)
        }
        Expr::Block(mut b) if b.label.is_none() => {
            match b.block.stmts.pop() {
                Some(Stmt::Expr(x, None)) => {
                    let y = tail_returns(x, wraps, depth);
                    b.block.stmts.push(Stmt::Expr(y, None));
                    Expr::Block(b)
                }
                Some(s) => {
                    b.block.stmts.push(s);
                    b.block.stmts.push(parse_quote!(return;));
                    Expr::Block(b)
                }
                None => parse_quote!({ return; }),
            }
        }
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "unwrap" && matches!(*m.receiver, Expr::Match(_) | Expr::Paren(_) | Expr::If(_) | Expr::Block(_)) => {
            let mut w = vec![m.clone()];
            w.extend(wraps.iter().cloned());
            tail_returns(*m.receiver, &w, depth)
        }
        Expr::Return(r) => Expr::Return(r),
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vpanic")) => Expr::Call(c),
        e => {
            let mut r = e;
            for w in wraps {
                let n = &w.method;
                if let Expr::Call(c) = &r {
                    if let Expr::Path(p) = &*c.func {
                        if (p.path.is_ident("Ok") || p.path.is_ident("Some")) && c.args.len() == 1 {
                            r = c.args[0].clone();
                            continue;
                        }
                        if p.path.is_ident("Err") {
                            r = parse_quote!(vpanic());
                            continue;
                        }
                    }
                }
                r = parse_quote!((#r).#n());
            }
            parse_quote!(return #r)
        }
    }
}
// ---------------------------------------------------------------- call argument dropping
struct DropArg<'a> {
    name: &'a str,
    idx: usize,
    expect: &'a str,
    err: Option<String>,
}
impl VisitMut for DropArg<'_> {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &*c.func {
            if path_str(&p.path) == self.name {
                let v: Vec<Expr> = c.args.iter().cloned().collect();
                if self.idx < v.len() {
                    let t = v[self.idx].to_token_stream().to_string().replace(' ', "");
                    if t != self.expect.replace(' ', "") {
                        self.err = Some(format!("argument {} of {} is {t}, expected {}", self.idx, self.name, self.expect));
                    }
                    c.args = v.into_iter().enumerate().filter(|(i, _)| *i != self.idx).map(|(_, e)| e).collect();
                }
            }
        }
    }
}

pub fn kinds_of_file(f: &File) -> HashMap<String, String> {
    struct V(HashMap<String, String>);
    impl<'a> Visit<'a> for V {
        fn visit_signature(&mut self, s: &'a Signature) {
            if let ReturnType::Type(_, t) = &s.output {
                let l = locate::ty_last(t);
                self.0.insert(format!("#{}", s.ident), s.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).count().to_string());
                if l == "Option" {
                    self.0.insert(s.ident.to_string(), "opt".into());
                } else if l == "Result" {
                    self.0.insert(s.ident.to_string(), "res".into());
                }
            }
        }
    }
    impl V {
        fn field(&mut self, f: &Field) {
            if let Some(i) = &f.ident {
                let l = locale_ty(&f.ty);
                if l == "Option" {
                    self.0.insert(format!(".{i}"), "opt".into());
                }
            }
        }
    }
    fn locale_ty(t: &Type) -> String {
        locate::ty_last(t).trim_start_matches('&').to_string()
    }
    let mut v = V(HashMap::new());
    v.visit_file(f);
    fn items(v: &mut V, its: &[Item]) {
        for i in its {
            match i {
                Item::Struct(s) => {
                    for f in s.fields.iter() {
                        v.field(f)
                    }
                }
                Item::Mod(m) => {
                    if let Some((_, x)) = &m.content {
                        items(v, x)
                    }
                }
                _ => {}
            }
        }
    }
    items(&mut v, &f.items);
    v.0
}
/// locals and parameters whose type or initialiser tells Option from Result
fn local_kinds(sig: &Signature, m: &mut HashMap<String, String>) {
    for i in sig.inputs.iter() {
        if let FnArg::Typed(t) = i {
            if let Some(id) = pat_ident(&t.pat) {
                let l = locate::ty_last(&t.ty);
                let l = l.trim_start_matches('&');
                if l == "Option" {
                    m.insert(format!("={id}"), "opt".into());
                } else if l == "Result" {
                    m.insert(format!("={id}"), "res".into());
                }
            }
        }
    }
}

fn sig_names(sig: &str) -> Option<Vec<String>> {
    let ts: TokenStream = sig.parse().ok()?;
    let mut seen_fn = false;
    for t in ts {
        match t {
            TokenTree::Ident(i) if i == "fn" => seen_fn = true,
            TokenTree::Group(g) if seen_fn && g.delimiter() == proc_macro2::Delimiter::Parenthesis => {
                struct A(punctuated::Punctuated<FnArg, Token![,]>);
                impl parse::Parse for A {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        Ok(A(punctuated::Punctuated::parse_terminated(i)?))
                    }
                }
                let a = parse2::<A>(g.stream()).ok()?;
                return Some(
                    a.0.iter()
                        .map(|x| match x {
                            FnArg::Receiver(_) => "self".to_string(),
                            FnArg::Typed(t) => match &*t.pat {
                                Pat::Ident(p) => p.ident.to_string(),
                                _ => "_".into(),
                            },
                        })
                        .collect(),
                );
            }
            _ => {}
        }
    }
    None
}

#[allow(clippy::too_many_arguments)]
pub fn emit_fn(
    src: &mut Sources,
    d: &FnDirective,
    known: &BTreeSet<String>,
    opts: &HashMap<String, String>,
    probe: bool,
    probes: &mut usize,
    dropped: &mut BTreeSet<String>,
    external: bool,
) -> Res<Emitted> {
    let path = d.attrs.get("path").expect("path").clone();
    let name = d.attrs.get("name").expect("name").clone();
    let imp = d.attrs.get("impl").cloned().unwrap_or_default();
    let feats = src.features.clone();
    let item = src.find_fn(&path, &name, &imp)?;
    let file = src.file(&path)?.clone();
    let Some(mut block) = item.block.clone() else { return lost(format!("{name}: no body")) };
    if external {
        // contract kept, body not verified (a bounded stand-in covers it)
        block = parse_quote!({ unimplemented!() });
    }
    let mut sig = item.sig.clone();
    if sig.asyncness.take().is_some() {
        dropped.insert("async / .await".into());
    }
    // 1. prep
    let uses;
    {
        let mut p = Prep { feats: &feats, file: &file, err: None, dropped, uses: vec![], n: 0 };
        p.visit_block_mut(&mut block);
        uses = p.uses;
        if let Some(e) = p.err {
            return lost(format!("{name}: {e}"));
        }
    }
    let _ = uses;
    if let Some(call) = d.attrs.get("txvar") {
        let mut m = MutVar { call: call.clone(), vars: vec![] };
        m.visit_block_mut(&mut block);
        if !m.vars.is_empty() {
            dropped.insert(format!("a variable bound to the result of {call}() is mutable, references to it too (the call log is state here, interior state there)"));
        }
    }
    // 2. drop parameter / argument
    if let Some(p) = d.attrs.get("dropparam") {
        sig.inputs = sig
            .inputs
            .iter()
            .filter(|i| match i {
                FnArg::Typed(t) => pat_ident(&t.pat).map(|x| x != p).unwrap_or(true),
                _ => true,
            })
            .cloned()
            .collect();
        dropped.insert(format!("function-valued parameter {p} of {name} replaced by the function each caller passes"));
    }
    if let (Some(a), false) = (d.attrs.get("droparg"), external) {
        // name:idx:expected
        for a in a.split(';') {
            let v: Vec<&str> = a.rsplitn(3, '@').collect();
            let mut da = DropArg { name: v[2], idx: v[1].parse().unwrap(), expect: v[0], err: None };
            da.visit_block_mut(&mut block);
            if let Some(e) = da.err {
                return lost(format!("{name}: {e}"));
            }
        }
    }
    // 3. parameter renaming to the template's names
    let src_names: Vec<String> = sig
        .inputs
        .iter()
        .map(|x| match x {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => pat_ident(&t.pat).map(|i| i.to_string()).unwrap_or("_".into()),
        })
        .collect();
    let mut want: Option<Vec<String>> = None;
    if !d.sig.trim().is_empty() {
        want = sig_names(&d.sig);
        if want.is_none() {
            return lost(format!("{name}: cannot read template signature"));
        }
    } else if let Some(p) = d.attrs.get("params") {
        want = Some(p.split(',').map(|s| s.trim().to_string()).collect());
    }
    let mut renames: Vec<(String, String)> = vec![];
    if let Some(w) = &want {
        let w: Vec<String> = w.iter().filter(|x| !x.starts_with("__g")).cloned().collect();
        if w.len() != src_names.len() {
            return lost(format!("{name}: parameter list changed: {:?} vs {:?}", src_names, w));
        }
        for (a, b) in src_names.iter().zip(w.iter()) {
            if a.trim_start_matches('_') != b.trim_start_matches('_') && a != "_" && b != "self" && a != "self" {
                renames.push((a.clone(), b.clone()));
            } else if a != b && a != "_" && a != "self" && b != "self" {
                renames.push((a.clone(), b.clone()));
            }
        }
        if (w.first().map(|x| x == "self")) != (src_names.first().map(|x| x == "self")) && !(w.is_empty()) && d.attrs.get("selfas").is_none() {
            return lost(format!("{name}: receiver changed"));
        }
    }
    if let Some(s) = d.attrs.get("selfas") {
        renames.push(("self".into(), s.clone()));
    }
    if !renames.is_empty() {
        let (a, b) = rename_pair(&renames);
        Rename(&a, &b).visit_block_mut(&mut block);
        for i in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = i {
                Rename(&a, &b).visit_pat_mut(&mut t.pat);
            }
        }
    }
    // `mut self` becomes a local
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            let (a, b) = rename_pair(&[("self".to_string(), "__vself".to_string())]);
            Rename(&a, &b).visit_block_mut(&mut block);
            block.stmts.insert(0, parse_quote!(let mut __vself = self;));
        }
    }
    // 4. inline
    let mut inlined = vec![];
    {
        let noinline: BTreeSet<String> = opts.get("noinline").map(|s| s.split(',').map(|x| x.trim().to_string()).collect()).unwrap_or_default();
        let mut inl = Inl { src, path: path.clone(), extra: vec![], known, noinline, subst: d.subst.clone(), dropped, inlined: &mut inlined, err: None, depth: 0, n: 0 };
        let _ = &inl.extra;
        inl.tail_block(&mut block);
        if let Some(e) = inl.err.take() {
            return lost(format!("{name}: {e}"));
        }
    }
    struct PanicStmt;
    impl VisitMut for PanicStmt {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            for st in b.stmts.iter_mut() {
                if let Stmt::Expr(e, Some(_)) = st {
                    if e.to_token_stream().to_string().replace(' ', "") == "vpanic()" {
                        *st = parse_quote!(return vpanic(););
                    }
                }
            }
        }
    }
    PanicStmt.visit_block_mut(&mut block);
    struct BitBool;
    impl VisitMut for BitBool {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Binary(b) = e {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    // `text + &more`
                    BinOp::Add(_) if matches!(**r, Expr::Reference(_)) => *e = parse_quote!(vadd(#l, #r)),
                    BinOp::BitOrAssign(_) => *e = parse_quote!(#l = (#l).vbitor(#r)),
                    BinOp::BitAndAssign(_) => *e = parse_quote!(#l = (#l).vbitand(#r)),
                    _ => {}
                }
            }
        }
    }
    BitBool.visit_block_mut(&mut block);
    // 5. paths
    TryFromCall { d }.visit_block_mut(&mut block);
    let mut ps = PathShort { subst: &d.subst };
    ps.visit_block_mut(&mut block);
    ps.visit_signature_mut(&mut sig);
    if d.flags.contains("eq") {
        struct Eq;
        impl VisitMut for Eq {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Binary(b) = e {
                    let (l, r) = (&b.left, &b.right);
                    match b.op {
                        BinOp::Eq(_) => *e = parse_quote!(veq(&(#l), &(#r))),
                        BinOp::Ne(_) => *e = parse_quote!(!veq(&(#l), &(#r))),
                        _ => {}
                    }
                }
            }
        }
        Eq.visit_block_mut(&mut block);
    }
    // 6. desugar
    let mut rename: HashMap<String, String> = HashMap::new();
    for m in ["iter", "into_iter", "to_string", "join", "contains", "keys", "values", "values_mut", "iter_mut", "chars", "format", "to_uppercase", "to_lowercase", "into", "starts_with", "ends_with", "extend", "rev", "into_values", "into_keys", "difference", "intersection", "trim", "replace", "split", "contains_key", "parse", "skip", "retain", "drain", "to_vec", "to_owned", "into_bytes", "as_bytes", "lines", "as_deref", "concat", "strip_prefix", "rposition", "clone_from"] {
        rename.insert(m.into(), format!("v{m}"));
    }
    if let Some(x) = opts.get("rename_methods") {
        for kv in x.split(',') {
            if let Some((a, b)) = kv.trim().split_once('=') {
                rename.insert(a.into(), b.into());
            }
        }
    }
    let keep: BTreeSet<String> = opts.get("keep_methods").map(|s| s.split(',').map(|x| x.trim().to_string()).collect()).unwrap_or_default();
    let mut kinds = kinds_of_file(&file);
    local_kinds(&sig, &mut kinds);
    let mut ds = Desugar {
        d,
        raw: vec![],
        nloops: 0,
        auto: BTreeMap::new(),
        has_break: BTreeMap::new(),
        is_mut: BTreeMap::new(),
        probe,
        probes,
        err: None,
        rename,
        keep,
        n: 0,
        used_loops: BTreeSet::new(),
        file_fns: kinds,
        ncl: 0,
        try_ctx: false,
    };
    let _ = (&ds.used_loops, ds.try_ctx);
    ds.visit_block_mut(&mut block);
    let mut head: Vec<Stmt> = vec![];
    if !d.entry.trim().is_empty() && !external {
        head.push(ds.rawstmt(d.entry.clone()));
    }
    if !external {
        head.extend(ds.probe_stmt());
    }
    if !d.exit.trim().is_empty() && !external {
        let last = block.stmts.last().cloned();
        let x = ds.rawstmt(d.exit.clone());
        match last {
            Some(Stmt::Expr(e, None)) => {
                block.stmts.pop();
                block.stmts.push(parse_quote!(let __ret = #e;));
                block.stmts.push(x);
                block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
            }
            _ => block.stmts.push(x),
        }
    }
    if d.flags.contains("splitret") && !external {
        if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
            let e2 = tail_returns(e, &[], 0);
            block.stmts.push(Stmt::Expr(e2, None));
        } else {
            return lost(format!("{name}: no tail expression"));
        }
        dropped.insert("a tail `match`/`if` is given one `return` per branch".into());
    }
    let mut st = head;
    st.extend(std::mem::take(&mut block.stmts));
    block.stmts = st;
    if let Some(e) = ds.err.take() {
        return lost(format!("{name}: {e}"));
    }
    let nl = ds.nloops;
    let tl = *d.loops.keys().max().unwrap_or(&0);
    if external {
    } else if let Some(want) = d.attrs.get("loops") {
        if want.parse::<usize>().unwrap() != nl {
            return lost(format!("{name}: number of loops changed ({nl}, expected {want})"));
        }
    } else if tl > nl {
        return lost(format!("{name}: loop {tl} not found"));
    }
    // 7. print
    let as_name = d.attrs.get("as").cloned().unwrap_or(name.clone());
    let mut text = String::new();
    text += &d.attrtext;
    if !external && !d.sig.contains("allow_complex_invariants") && d.loops.values().any(|t| t.lines().any(|l| matches!(l.trim(), "invariant_except_break" | "ensures"))) {
        text += "#[verifier::allow_complex_invariants]\n";
    }
    text += if external { "#[verifier::external_body]\n" } else { "#[verifier::loop_isolation(false)]\n" };
    if !d.sig.trim().is_empty() {
        text += d.sig.trim_end();
        text.push('\n');
    } else {
        sig.ident = format_ident!("{}", as_name);
        let out = sig.output.clone();
        sig.output = ReturnType::Default;
        // where clause printed after return type: drop
        let wc = sig.generics.where_clause.take();
        let s = print(sig.to_token_stream(), &Raw { raw: &[], inv: &|_| String::new() });
        if !d.flags.contains("traitspec") && (imp.is_empty() || !imp.contains(" for ")) {
            text += "pub ";
        }
        text += s.trim_end();
        let rn = d.attrs.get("ret").cloned().unwrap_or("r".into());
        if let ReturnType::Type(_, t) = out {
            let ts = print(t.to_token_stream(), &Raw { raw: &[], inv: &|_| String::new() });
            text += &format!(" -> ({rn}: {})", ts.trim());
        }
        if let Some(w) = wc {
            text += "\n";
            text += print(w.to_token_stream(), &Raw { raw: &[], inv: &|_| String::new() }).trim_end();
        }
        text.push('\n');
    }
    text += d.spec.trim_end();
    text.push('\n');
    let raws = ds.raw.clone();
    let body = {
        let f = |k: usize| ds.inv_text(k);
        print(block.to_token_stream(), &Raw { raw: &raws, inv: &f })
    };
    text += &body;
    text.push('\n');
    for (k, t) in &d.closures {
        text = text.replace(&format!("__VCLOS{k}_"), t.trim());
    }
    for (a, b) in &d.subst {
        if a.contains('(') {
            // textual substitution on printed tokens
            text = text.replace(a.as_str(), b.as_str());
        }
    }
    Ok(Emitted { text, src_line: item.line, loops_src: nl, loops_tpl: d.loops.len(), inlined })
}
#[allow(dead_code)]
fn _unused(_: Lost) {}


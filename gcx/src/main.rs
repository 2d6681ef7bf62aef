mod lower;
mod spec;
use lower::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use spec::*;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// One extracted function
struct Func {
    module: String,
    name: String, // Type::method or function
    owner: Option<String>,
    impl_generics: Option<ItemImpl>, // header of the impl it comes from
    sig: Signature,
    block: Block,
    line: (usize, usize),
    file: String,
}

struct Module {
    name: String,
    file: String,
    types: Vec<Item>,
    uses: Vec<ItemUse>,
    spec: ModSpec,
    missing: bool,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]"
    })
}

// ---------- types

struct TypeLower;
impl VisitMut for TypeLower {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(it) = t {
            let mut item = None;
            let mut into = false;
            for b in &it.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let seg = tb.path.segments.last().unwrap();
                    if seg.ident == "Iterator" || seg.ident == "IntoIterator" || seg.ident == "DoubleEndedIterator" {
                        into = seg.ident == "IntoIterator";
                        if let PathArguments::AngleBracketed(a) = &seg.arguments {
                            for g in &a.args {
                                if let GenericArgument::AssocType(at) = g {
                                    item = Some(at.ty.clone());
                                }
                            }
                        }
                    }
                }
            }
            if let Some(mut i) = item {
                self.visit_type_mut(&mut i);
                *t = if into {
                    parse_quote!(impl IntoIt<Item = #i>)
                } else {
                    parse_quote!(It<#i>)
                };
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let s: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
        if (s.len() == 3 && s[0] == "std" && s[1] == "io" && s[2] == "Result") || (s.len() == 2 && s[0] == "io" && s[1] == "Result") {
            let mut seg = p.segments.last().unwrap().clone();
            seg.ident = format_ident!("IoResult");
            *p = Path { leading_colon: None, segments: std::iter::once(seg).collect() };
        } else if s.len() >= 2 && (s[0] == "std" || s[0] == "core") {
            let mods = ["std", "core", "collections", "hash_map", "hash_set", "mem", "cmp", "iter", "convert", "fs", "path", "error"];
            let n = s.iter().position(|x| !mods.contains(&x.as_str())).unwrap_or(s.len() - 1);
            let segs = p.segments.iter().skip(n).cloned().collect();
            *p = Path { leading_colon: None, segments: segs };
        } else if s.len() >= 2 && (s[0] == "gc_core" || s[0] == "gc_command") {
            p.segments[0].ident = format_ident!("crate");
        }
    }
}

fn lower_ty_tokens(t: &Type) -> TokenStream {
    let mut t = t.clone();
    TypeLower.visit_type_mut(&mut t);
    t.to_token_stream()
}

// ---------- printing

fn print_ts(t: TokenStream, out: &mut String, depth: usize) {
    let mut glue = false;
    let mut prev_quote = false;
    for tt in t {
        match tt {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !glue { out.push(' '); }
                out.push_str(o);
                if o == "{" { out.push('\n'); indent(out, depth + 1); }
                print_ts(g.stream(), out, if o == "{" { depth + 1 } else { depth });
                if o == "{" { out.push('\n'); indent(out, depth); }
                out.push_str(c);
                if o == "{" { out.push('\n'); indent(out, depth); }
                glue = false;
            }
            TokenTree::Punct(p) => {
                if !glue && !prev_quote { out.push(' '); }
                out.push(p.as_char());
                glue = p.spacing() == Spacing::Joint;
                if p.as_char() == ';' { out.push('\n'); indent(out, depth); }
                prev_quote = false;
            }
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if !glue { out.push(' '); }
                out.push_str(&s);
                glue = false;
            }
            TokenTree::Literal(l) => {
                if !glue { out.push(' '); }
                out.push_str(&l.to_string());
                glue = false;
            }
        }
    }
}
fn indent(out: &mut String, d: usize) {
    for _ in 0..d { out.push_str("  "); }
}
fn show(t: TokenStream) -> String {
    let mut s = String::new();
    print_ts(t, &mut s, 0);
    s.trim().to_string()
}

// ---------- called names

struct Calls(BTreeSet<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.0.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        self.0.insert(p.path.segments.last().unwrap().ident.to_string());
        visit::visit_expr_path(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if let Ok(args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in &args { self.visit_expr(a); }
        }
    }
}

fn fn_short(n: &str) -> &str {
    n.rsplit("::").next().unwrap()
}

fn load_spec(dir: &str, module: &str) -> ModSpec {
    let p = format!("{}/{}.spec", dir, module.replace("::", "."));
    spec::parse(&std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {}", p, e)))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut repo = String::new();
    let mut specs = String::new();
    let mut modules: Vec<String> = vec![];
    let mut roots: Vec<String> = vec![];
    let mut lost: BTreeSet<String> = BTreeSet::new();
    let mut tags: BTreeSet<String> = BTreeSet::new();
    let mut libs: Vec<String> = vec![];
    let (mut out, mut map) = (String::new(), String::new());
    // vacuity probe: every contracted function gets an assert(false) at its end, which must fail
    let mut probe = false;
    let mut args = std::env::args().skip(1);
    let list = |s: String| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
    while let Some(a) = args.next() {
        let v = args.next().expect("value");
        match a.as_str() {
            "--repo" => repo = v,
            "--specs" => specs = v,
            "--modules" => modules = list(v),
            "--roots" => roots = list(v),
            "--lost" => lost = list(v).into_iter().collect(),
            "--tags" => tags = list(v).into_iter().collect(),
            "--libs" => libs = list(v),
            "--out" => out = v,
            "--map" => map = v,
            "--probe" => probe = v == "exit",
            _ => panic!("unknown option {}", a),
        }
    }

    let mut mods: Vec<Module> = vec![];
    let mut funcs: Vec<Func> = vec![];
    let mut problems: Vec<String> = vec![];
    for m in &modules {
        let sp = load_spec(&specs, m);
        let file = sp.source.clone();
        let path = format!("{}/{}", repo, file);
        let mut md = Module { name: m.clone(), file: file.clone(), types: vec![], uses: vec![], spec: sp, missing: false };
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(_) => {
                problems.push(format!("missing-file {}", file));
                md.missing = true;
                mods.push(md);
                continue;
            }
        };
        let f: File = match parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                problems.push(format!("unparsable-file {} {}", file, e));
                md.missing = true;
                mods.push(md);
                continue;
            }
        };
        for it in f.items {
            match it {
                Item::Use(u) => md.uses.push(u),
                Item::Struct(ref s) if !is_test(&s.attrs) => md.types.push(it.clone()),
                Item::Enum(ref s) if !is_test(&s.attrs) => md.types.push(it.clone()),
                Item::Type(ref s) if !is_test(&s.attrs) => md.types.push(it.clone()),
                Item::Const(ref s) if !is_test(&s.attrs) => md.types.push(it.clone()),
                Item::Fn(f) if !is_test(&f.attrs) => {
                    let sp = f.sig.ident.span();
                    funcs.push(Func {
                        module: m.clone(),
                        name: f.sig.ident.to_string(),
                        owner: None,
                        impl_generics: None,
                        line: (sp.start().line, f.block.brace_token.span.close().end().line),
                        sig: f.sig,
                        block: *f.block,
                        file: file.clone(),
                    });
                }
                Item::Impl(i) if !is_test(&i.attrs) => {
                    let owner = match &*i.self_ty {
                        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        t => t.to_token_stream().to_string(),
                    };
                    let mut head = i.clone();
                    head.items.clear();
                    let assoc: BTreeMap<String, Type> = i
                        .items
                        .iter()
                        .filter_map(|x| match x {
                            ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                            _ => None,
                        })
                        .collect();
                    for x in i.items {
                        if let ImplItem::Fn(mut f) = x {
                            if is_test(&f.attrs) { continue; }
                            struct Assoc<'a>(&'a BTreeMap<String, Type>);
                            impl<'a> VisitMut for Assoc<'a> {
                                fn visit_type_mut(&mut self, t: &mut Type) {
                                    let s = t.to_token_stream().to_string().replace(' ', "");
                                    if let Some(n) = s.strip_prefix("Self::") {
                                        if let Some(ty) = self.0.get(n) { *t = ty.clone(); return; }
                                    }
                                    visit_mut::visit_type_mut(self, t);
                                }
                            }
                            Assoc(&assoc).visit_signature_mut(&mut f.sig);
                            let sp = f.sig.ident.span();
                            funcs.push(Func {
                                module: m.clone(),
                                name: format!("{}::{}", owner, f.sig.ident),
                                owner: Some(owner.clone()),
                                impl_generics: Some(head.clone()),
                                line: (sp.start().line, f.block.brace_token.span.close().end().line),
                                sig: f.sig,
                                block: f.block,
                                file: file.clone(),
                            });
                        }
                    }
                }
                _ => {}
            }
        }
        mods.push(md);
    }

    // ---- selection: roots and what they may call, within the listed modules
    let key = |f: &Func| format!("{}::{}", f.module, f.name);
    let mut selected: BTreeSet<usize> = BTreeSet::new();
    let mut work: Vec<usize> = vec![];
    for r in &roots {
        let mut hit = false;
        for (i, f) in funcs.iter().enumerate() {
            let k = key(f);
            let m = if let Some(p) = r.strip_suffix('*') { k.starts_with(p) } else { &k == r };
            if m { hit = true; if selected.insert(i) { work.push(i); } }
        }
        if !hit { problems.push(format!("lost-root {}", r)); }
    }
    while let Some(i) = work.pop() {
        let mut c = Calls(BTreeSet::new());
        c.visit_block(&funcs[i].block);
        for (j, f) in funcs.iter().enumerate() {
            if c.0.contains(fn_short(&f.name)) && selected.insert(j) { work.push(j); }
        }
    }

    let calls_of = |i: usize| -> Vec<String> {
        let mut c = Calls(BTreeSet::new());
        c.visit_block(&funcs[i].block);
        funcs.iter().enumerate().filter(|(j, f)| *j != i && c.0.contains(fn_short(&f.name))).map(|(_, f)| key(f)).collect()
    };

    // ---- names usable in specifications
    let mut spec_methods: BTreeSet<String> = BTreeSet::new();
    for m in &mods {
        for (n, f) in &m.spec.fns {
            if f.as_spec.is_some() {
                let s = fn_short(n).to_string();
                if n.contains("::") {
                    spec_methods.insert(lower::rename(&s).unwrap_or(s));
                } else {
                    spec_methods.insert(s);
                }
            }
        }
    }

    // ---- emission
    let mut text = String::new();
    let mut entries: Vec<String> = vec![];
    let mut holes: BTreeMap<String, String> = BTreeMap::new();
    text.push_str("// Generated by gcx from the working tree of /repo: do not edit\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_assignments, unreachable_code, unused_must_use, path_statements, non_camel_case_types, unused_labels, private_interfaces)]\n");
    text.push_str("#![cfg_attr(verus_keep_ghost, feature(allocator_api))]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n");
    text.push_str("pub mod prelude {\n");
    text.push_str(&std::fs::read_to_string(format!("{}/prelude.rs", specs)).unwrap());
    text.push_str("\n}\n");
    for l in &libs {
        text.push_str(&format!("pub mod {} {{\n", l));
        text.push_str("use vstd::prelude::*; use crate::prelude::*;\nbroadcast use crate::prelude::group_lean;\n");
        text.push_str(&std::fs::read_to_string(format!("{}/lib/{}.rs", specs, l)).unwrap());
        text.push_str("\n}\n");
    }
    // module tree
    let mut tree: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, m) in mods.iter().enumerate() {
        let top = m.name.split("::").next().unwrap().to_string();
        tree.entry(top).or_default().push(i);
    }
    let known: BTreeSet<String> = mods.iter().map(|m| m.name.clone()).collect();
    let mut contracted = 0usize;
    for (top, idx) in &tree {
        let nested = !(idx.len() == 1 && &mods[idx[0]].name == top);
        if nested { text.push_str(&format!("pub mod {} {{\n", top)); }
        for &mi in idx {
            let m = &mods[mi];
            let leaf = m.name.rsplit("::").next().unwrap();
            text.push_str(&format!("// ==== {} ({})\npub mod {} {{\n", m.name, m.file, leaf));
            let group = if m.spec.broadcast.iter().any(|b| b == "lean") { "group_lean" } else { "group_prelude" };
            text.push_str(&format!("use vstd::prelude::*; use crate::prelude::*;\nbroadcast use {{crate::prelude::{}", group));
            for b in m.spec.broadcast.iter().filter(|b| *b != "lean") { text.push_str(&format!(", {}", b)); }
            text.push_str("};\n");
            for l in &libs { text.push_str(&format!("use crate::{}::*;\n", l)); }
            for u in &m.uses {
                for (p, t) in flatten_use(&u.tree, vec![]) {
                    let mut p = p;
                    if p[0] == "gc_core" || p[0] == "gc_command" { p[0] = "crate".into(); }
                    if p[0] != "crate" && p[0] != "self" && p[0] != "super" {
                        // enum imports such as Constraint::*
                        continue;
                    }
                    // keep only what exists in the generated file
                    let rest: Vec<String> = p[1..].to_vec();
                    let full = rest.join("::");
                    let modpath = (0..=rest.len()).rev().map(|n| rest[..n].join("::")).find(|x| known.contains(x) || tree.contains_key(x));
                    let ok = match &modpath { Some(x) => !x.is_empty(), None => false };
                    if !ok { continue; }
                    let item = full[modpath.as_ref().unwrap().len()..].trim_start_matches("::").to_string();
                    let first = item.split("::").next().unwrap_or("").to_string();
                    if let Some(mm) = mods.iter().find(|x| Some(&x.name) == modpath.as_ref()) {
                        if !first.is_empty() && first != "*" {
                            let has_ty = mm.types.iter().any(|t| match t {
                                Item::Struct(s) => s.ident == first, Item::Enum(s) => s.ident == first,
                                Item::Type(s) => s.ident == first, Item::Const(s) => s.ident == first, _ => false });
                            let has_fn = funcs.iter().enumerate().any(|(i, f)| selected.contains(&i) && f.module == mm.name && f.name == first);
                            if !has_ty && !has_fn { continue; }
                        }
                    }
                    let last = p.last().unwrap().clone();
                    // avoid conflicts with prelude names
                    let alias = t.map(|x| format!(" as {}", x)).unwrap_or_default();
                    if last == "*" || true { text.push_str(&format!("pub use {}{};\n", p.join("::"), alias)); }
                }
            }
            let mut type_derives: Vec<(String, Generics, Vec<String>)> = vec![];
            for t in &m.types { emit_type(t, &mut text, &mut type_derives); }
            for (tags_, it) in &m.spec.items {
                if tags_.is_empty() || tags_.iter().any(|t| tags.contains(t)) {
                    text.push_str(it);
                    text.push('\n');
                }
            }
            // functions
            for (i, f) in funcs.iter().enumerate() {
                if f.module != m.name || !selected.contains(&i) { continue; }
                let k = key(f);
                let fs = m.spec.fns.get(&f.name).cloned();
                let has = fs.is_some();
                let mut fs = fs.unwrap_or_default();
                if has { contracted += 1; }
                let is_lost = lost.contains(&k) || lost.contains(&format!("{}!", k));
                let drop_contract = lost.contains(&format!("{}!", k));
                if drop_contract { fs = FnSpec::default(); }
                if probe && has && !fs.trusted && fs.as_spec.is_none() { fs.at.push(("exit".to_string(), "assert(false);".to_string())); }
                let start = text.lines().count() + 1;
                let mut info = EmitInfo::default();
                let code = emit_fn(f, &fs, is_lost, &mut holes, &spec_methods, &mut info, i);
                let code = fill(&code, &holes);
                text.push_str(&format!("// {} {}:{}\n", k, f.file, f.line.0));
                text.push_str(&code);
                text.push('\n');
                let end = text.lines().count();
                entries.push(format!(
                    "{{\"key\":{},\"file\":{},\"line\":{},\"end_line\":{},\"start\":{},\"end\":{},\"contract\":{},\"lost\":{},\"trusted\":{},\"lost_anchors\":[{}],\"notes\":[{}],\"loops\":{},\"closures\":{},\"locals\":{},\"calls\":[{}]}}",
                    json_str(&k), json_str(&f.file), f.line.0, f.line.1, start, end, has, is_lost, fs.trusted,
                    info.lost.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","),
                    info.notes.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","),
                    info.loops, info.closures, info.locals,
                    calls_of(i).iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",")
                ));
            }
            for (n, t) in LITS.with(|l| std::mem::take(&mut *l.borrow_mut())) {
                text.push_str(&format!("#[verifier::external_body]\npub fn {}() -> (r: String) ensures r@ == {} {{ unimplemented!() }}\n", n, t));
            }
            for (n, t) in REGEXES.with(|l| std::mem::take(&mut *l.borrow_mut())) {
                text.push_str(&format!("#[verifier::external_body]\npub fn {}() -> (r: Result<Regex, VParseErr>) ensures r is Ok, r->Ok_0.pat() == {} {{ unimplemented!() }}\n", n, t));
            }
            // contracts whose function disappeared
            for n in m.spec.fns.keys() {
                if !funcs.iter().any(|f| f.module == m.name && &f.name == n) {
                    problems.push(format!("lost-fn {}::{}", m.name, n));
                }
            }
            text.push_str("}\n");
        }
        if nested { text.push_str("}\n"); }
    }
    text.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&out, &text).unwrap();
    let j = format!(
        "{{\"functions\":[{}],\"problems\":[{}],\"contracted\":{}}}\n",
        entries.join(",\n"),
        problems.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","),
        contracted
    );
    std::fs::write(&map, j).unwrap();
}

#[derive(Default)]
struct EmitInfo {
    lost: Vec<String>,
    notes: Vec<String>,
    loops: usize,
    closures: usize,
    /// mutable locals: a loop that gains one needs an invariant about it
    locals: usize,
}

fn fill(code: &str, holes: &BTreeMap<String, String>) -> String {
    let mut s = code.to_string();
    // holes are unique identifiers; longest first so that no name is a prefix of another
    let mut names: Vec<&String> = holes.keys().filter(|k| code.contains(k.as_str())).collect();
    names.sort_by_key(|k| std::cmp::Reverse(k.len()));
    for n in names { s = s.replace(n.as_str(), &format!("\n{}", holes[n])); }
    s
}

fn flatten_use(t: &UseTree, pre: Vec<String>) -> Vec<(Vec<String>, Option<String>)> {
    match t {
        UseTree::Path(p) => { let mut q = pre; q.push(p.ident.to_string()); flatten_use(&p.tree, q) }
        UseTree::Name(n) => {
            let mut q = pre;
            if n.ident != "self" { q.push(n.ident.to_string()); }
            vec![(q, None)]
        }
        UseTree::Rename(n) => { let mut q = pre; q.push(n.ident.to_string()); vec![(q, Some(n.rename.to_string()))] }
        UseTree::Glob(_) => { let mut q = pre; q.push("*".into()); vec![(q, None)] }
        UseTree::Group(g) => g.items.iter().flat_map(|x| flatten_use(x, pre.clone())).collect(),
    }
}

fn emit_type(t: &Item, text: &mut String, _d: &mut Vec<(String, Generics, Vec<String>)>) {
    let derives = |attrs: &[Attribute]| -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| { s.insert(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
            }
        }
        s
    };
    let mut tl = TypeLower;
    let (ident, generics, ds) = match t {
        Item::Struct(s) => {
            let mut s2 = s.clone();
            let ds = derives(&s.attrs);
            s2.attrs.clear();
            s2.vis = parse_quote!(pub);
            for f in s2.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); tl.visit_type_mut(&mut f.ty); }
            strip_bounds(&mut s2.generics);
            emit_item(text, s2.to_token_stream(), &ds, &s2.generics);
            (s.ident.clone(), s2.generics.clone(), ds)
        }
        Item::Enum(s) => {
            let mut s2 = s.clone();
            let ds = derives(&s.attrs);
            s2.attrs.clear();
            s2.vis = parse_quote!(pub);
            for v in s2.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() { f.attrs.clear(); tl.visit_type_mut(&mut f.ty); }
            }
            strip_bounds(&mut s2.generics);
            emit_item(text, s2.to_token_stream(), &ds, &s2.generics);
            (s.ident.clone(), s2.generics.clone(), ds)
        }
        Item::Type(s) => {
            let mut s2 = s.clone();
            s2.attrs.clear();
            s2.vis = parse_quote!(pub);
            tl.visit_item_type_mut(&mut s2);
            text.push_str(&show(s2.to_token_stream()));
            text.push('\n');
            return;
        }
        Item::Const(c) => {
            let ty = c.ty.to_token_stream().to_string();
            if ["u64", "usize", "i64", "u32", "i32", "bool", "char", "& str", "& 'static str"].contains(&ty.as_str()) {
                let mut c2 = c.clone();
                c2.attrs.clear();
                c2.vis = parse_quote!(pub);
                if ty == "& str" { c2.ty = parse_quote!(&'static str); }
                text.push_str(&show(c2.to_token_stream()));
                text.push('\n');
            }
            return;
        }
        _ => return,
    };
    let (ig, tg, wc) = generics.split_for_impl();
    if generics.type_params().next().is_none() && generics.lifetimes().next().is_none() {
        let shape = t.to_token_stream().to_string();
        let opaque = ["HashMap", "HashSet", "LinkedList", "BinaryHeap", "VecDeque", "It <"].iter().any(|x| shape.contains(x));
        if ds.contains("PartialEq") && !opaque {
            text.push_str(&show(quote!(
                impl #ig vstd::std_specs::cmp::PartialEqSpecImpl for #ident #tg #wc {
                    open spec fn obeys_eq_spec() -> bool { true }
                    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
                }
            )));
            text.push('\n');
        }
        if ds.contains("Clone") {
            text.push_str(&show(quote!(
                impl #ig VClone for #ident #tg #wc {
                    #[verifier::external_body]
                    fn clone_(&self) -> (r: Self) { unimplemented!() }
                }
            )));
            text.push('\n');
        }
    }
}

/// where-clauses and bounds of data types are dropped (the generated file only needs the shape),
/// except Fn bounds which give the type of the closure
fn strip_bounds(g: &mut Generics) {
    let drop = |b: &TypeParamBound| match b {
        TypeParamBound::Trait(t) => {
            let n = t.path.segments.last().unwrap().ident.to_string();
            !matches!(n.as_str(), "Fn" | "FnOnce" | "FnMut")
        }
        _ => false,
    };
    for p in g.type_params_mut() {
        p.bounds = p.bounds.iter().filter(|b| !drop(b)).cloned().collect();
        if p.bounds.is_empty() { p.colon_token = None; }
    }
    if let Some(w) = &mut g.where_clause {
        let preds: Vec<WherePredicate> = w
            .predicates
            .iter()
            .filter_map(|p| match p {
                WherePredicate::Type(t) => {
                    let mut t = t.clone();
                    t.bounds = t.bounds.iter().filter(|b| !drop(b)).cloned().collect();
                    if t.bounds.is_empty() { None } else { Some(WherePredicate::Type(t)) }
                }
                o => Some(o.clone()),
            })
            .collect();
        w.predicates = preds.into_iter().collect();
    }
    if g.where_clause.as_ref().map_or(false, |w| w.predicates.is_empty()) { g.where_clause = None; }
}

fn emit_item(text: &mut String, t: TokenStream, ds: &BTreeSet<String>, g: &Generics) {
    let ts = t.to_string();
    // the container types of the prelude have no derivable traits
    let opaque = ["HashMap", "HashSet", "LinkedList", "BinaryHeap", "VecDeque", "It <"].iter().any(|x| ts.contains(x));
    let keep: Vec<&str> = ["Clone", "Copy", "PartialEq", "Eq"].into_iter().filter(|x| ds.contains(*x) && !opaque && (*x != "Clone" || ds.contains("Copy"))).collect();
    let generic = g.type_params().next().is_some();
    if !keep.is_empty() && !generic { text.push_str(&format!("#[derive({})]\n", keep.join(", "))); }
    if generic {
        for p in g.type_params() { text.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p.ident)); }
    }
    text.push_str(&show(t));
    text.push('\n');
}

fn emit_fn(
    f: &Func,
    fs: &FnSpec,
    is_lost: bool,
    holes: &mut BTreeMap<String, String>,
    spec_methods: &BTreeSet<String>,
    info: &mut EmitInfo,
    uid: usize,
) -> String {
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    let mut tl = TypeLower;
    tl.visit_signature_mut(&mut sig);
    tl.visit_block_mut(&mut block);
    for (a, b) in &fs.subst {
        let s = block.to_token_stream().to_string();
        let a2 = a.parse::<TokenStream>().unwrap().to_string();
        let b2 = b.parse::<TokenStream>().unwrap().to_string();
        if !s.contains(&a2) { info.lost.push(format!("subst {}", a)); }
        block = parse_str(&s.replace(&a2, &b2)).expect("subst");
    }
    let mut mutparams = quote!();
    // parameters: pattern parameters become lets
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if let Pat::Wild(_) = &*t.pat { *t.pat = parse_str(&format!("_p{}", i)).map(|id: Ident| Pat::Ident(PatIdent{attrs:vec![],by_ref:None,mutability:None,ident:id,subpat:None})).unwrap(); }
            if let Pat::Ident(pi) = &mut *t.pat {
                if pi.mutability.is_some() {
                    pi.mutability = None;
                    let id = &pi.ident;
                    mutparams.extend(quote!(let mut #id = #id;));
                }
            }
        }
    }
    let is_method = sig.receiver().is_some();
    if is_method {
        if let Some(n) = lower::rename(&sig.ident.to_string()) { sig.ident = format_ident!("{}", n); }
    }
    strip_bounds_fn(&mut sig.generics);
    // the contract of a main function is asserted at its end: the same goes for every other way out
    if fs.cli && matches!(sig.output, ReturnType::Default) {
        struct Out<'a> { text: String, n: usize, uid: usize, holes: &'a mut BTreeMap<String, String> }
        impl<'a> VisitMut for Out<'a> {
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Return(_) = e {
                    self.n += 1;
                    let id = format_ident!("GCXHOLE_f{}_o_{}", self.uid, self.n);
                    self.holes.insert(id.to_string(), self.text.clone());
                    *e = Expr::Verbatim(quote!({ #id return; }));
                } else { syn::visit_mut::visit_expr_mut(self, e); }
            }
        }
        let text: String = fs.at.iter().filter(|(a, _)| a == "exit").map(|(_, t)| t.clone() + "\n").collect();
        if !text.trim().is_empty() { Out { text, n: 0, uid, holes: &mut *holes }.visit_block_mut(&mut block); }
    }
    // a closing argument that speaks of nothing bound in the body holds for every other way out, too
    if let (false, ReturnType::Type(_, ty)) = (fs.cli, &sig.output) {
        let text: String = fs.at.iter().filter(|(a, _)| a == "exit").map(|(_, t)| t.clone() + "\n").collect();
        #[derive(Default)]
        struct Bound(BTreeSet<String>);
        impl<'a> syn::visit::Visit<'a> for Bound {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) { let n = p.ident.to_string(); if n.starts_with(|c: char| c.is_lowercase() || c == '_') { self.0.insert(n); } syn::visit::visit_pat_ident(self, p); }
        }
        let mut bound = Bound::default();
        syn::visit::Visit::visit_block(&mut bound, &block);
        // names of the hints' own, which shadow those of the body
        let own = |w: &str| text.contains(&format!("let {} ", w)) || text.contains(&format!("let ghost {} ", w)) || text.contains(&format!("|{}:", w)) || text.contains(&format!(" {}: ", w)) || text.contains(&format!("({}) =>", w));
        for (a, t) in fs.at.iter() {
            if a == "entry" || a == "exit" { continue; }
            for l in t.split("let ghost ").skip(1) {
                let l = l.strip_prefix("mut ").unwrap_or(l);
                bound.0.insert(l.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
            }
        }
        let words: BTreeSet<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
        let closed = !words.iter().any(|w| bound.0.contains(*w) && !own(w)) && !words.iter().any(|w| w.starts_with("__"));
        if !text.trim().is_empty() && closed {
            struct Out<'a> { text: String, n: usize, uid: usize, holes: &'a mut BTreeMap<String, String>, ty: TokenStream, option: bool }
            impl<'a> Out<'a> {
                fn hint(&mut self) -> Ident {
                    self.n += 1;
                    let id = format_ident!("GCXHOLE_f{}_o_{}", self.uid, self.n);
                    self.holes.insert(id.to_string(), self.text.clone());
                    id
                }
            }
            impl<'a> VisitMut for Out<'a> {
                fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    syn::visit_mut::visit_expr_mut(self, e);
                    let ty = self.ty.clone();
                    match e {
                        Expr::Return(ExprReturn { expr: Some(x), .. }) => {
                            let (x, id) = (x.clone(), self.hint());
                            *e = syn::parse_quote!({ let ret_: #ty = #x; #id; return ret_; });
                        }
                        Expr::Try(t) if self.option => {
                            let (x, id) = (t.expr.clone(), self.hint());
                            *e = syn::parse_quote!((match #x { Some(__x) => __x, None => { let ret_: #ty = None; #id; return ret_; } }));
                        }
                        _ => {}
                    }
                }
            }
            let t = lower_ty_tokens(ty);
            let option = t.to_string().starts_with("Option");
            Out { text, n: 0, uid, holes: &mut *holes, ty: t, option }.visit_block_mut(&mut block);
        }
    }
    {
        struct Locals(usize);
        impl<'a> syn::visit::Visit<'a> for Locals {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                if p.mutability.is_some() { self.0 += 1; }
                syn::visit::visit_pat_ident(self, p);
            }
        }
        let mut l = Locals(0);
        syn::visit::Visit::visit_block(&mut l, &block);
        info.locals = l.0;
    }
    let mut lo = Lower {
        spec: fs, loops: 0, closures: 0, tmp: 0, holes,
        hole_prefix: format!("f{}", uid),
        used_at: Default::default(), used_loops: Default::default(), used_closures: Default::default(), used_effects: Default::default(),
        spec_methods, notes: vec![], rewritten: vec![], calls_seen: Default::default(), no_dec: false,
    };
    lo.visit_block_mut(&mut block);
    info.loops = lo.loops;
    info.closures = lo.closures;
    let mut used_at = lo.used_at.clone();
    let used_loops = lo.used_loops.clone();
    let used_closures = lo.used_closures.clone();
    info.notes.extend(lo.notes.clone());
    info.lost.extend(lo.rewritten.clone());
    let mut hole = |t: &str| -> TokenStream {
        if t.trim().is_empty() { return quote!(); }
        let n = format!("GCXHOLE_f{}_x_{}", uid, holes.len());
        holes.insert(n.clone(), t.to_string());
        let id = format_ident!("{}", n);
        quote!(#id)
    };
    // entry / exit blocks
    let mut entry = quote!();
    let mut exit = quote!();
    for (i, (a, t)) in fs.at.iter().enumerate() {
        if a == "entry" { used_at.insert(i); entry.extend(hole(t)); }
        if a == "exit" { used_at.insert(i); exit.extend(hole(t)); }
    }
    for (i, (a, _)) in fs.at.iter().enumerate() {
        if !used_at.contains(&i) { info.lost.push(format!("at {}", a)); }
    }
    for k in fs.loops.keys() { if !used_loops.contains(k) { info.lost.push(format!("loop {}", k)); } }
    for k in fs.closures.keys() { if !used_closures.contains(k) { info.lost.push(format!("closure {}", k)); } }
    let rname = format_ident!("{}", fs.ret.clone().unwrap_or("r".into()));
    let ret = match &sig.output {
        ReturnType::Default => quote!(),
        ReturnType::Type(_, t) => { let t = lower_ty_tokens(t); quote!(-> (#rname: #t)) }
    };
    let unit = matches!(sig.output, ReturnType::Default);
    let contract = hole(&fs.sig);
    let stmts = &block.stmts;
    let body = if exit.is_empty() {
        quote!({ #mutparams #entry #(#stmts)* })
    } else if unit {
        quote!({ #mutparams #entry #(#stmts)* ; #exit })
    } else {
        // bind the tail expression
        let (tail, init) = stmts.split_last().expect("tail");
        match tail {
            Stmt::Expr(e, None) => quote!({ #mutparams #entry #(#init)* let ret_ = #e; #exit ret_ }),
            _ => quote!({ #mutparams #entry #(#stmts)* }),
        }
    };
    if (is_lost || fs.trusted) && ret.to_string().contains("impl ") {
        // an opaque return type needs a body
        return String::new();
    }
    let name = &sig.ident;
    let (ig, _, wc) = sig.generics.split_for_impl();
    let inputs = &sig.inputs;
    let mut attrs = String::from("#[verifier::loop_isolation(false)]\n");
    let body = if is_lost || fs.trusted {
        attrs.push_str("#[verifier::external_body]\n");
        quote!({ unimplemented!() })
    } else { body };
    if let Some(s) = &fs.as_spec { attrs.push_str(&format!("#[verifier::when_used_as_spec({})]\n", s)); }
    attrs.push_str(&fs.attrs);
    let ftoks = quote!(pub fn #name #ig (#inputs) #ret #wc #contract #body);
    let mut code = show(ftoks);
    if let Some(h) = &f.impl_generics {
        let mut h = h.clone();
        TypeLower.visit_item_impl_mut(&mut h);
        strip_bounds_fn(&mut h.generics);
        let (ig, _, wc) = h.generics.split_for_impl();
        let ty = &h.self_ty;
        let head = show(quote!(impl #ig #ty #wc));
        code = format!("{} {{\n{}{}{}\n}}", head, fs.impl_items, attrs, code);
    } else {
        code = format!("{}{}", attrs, code);
    }
    code
}

fn strip_bounds_fn(g: &mut Generics) {
    let drop = |b: &TypeParamBound| match b {
        TypeParamBound::Trait(t) => {
            let n = t.path.segments.last().unwrap().ident.to_string();
            matches!(n.as_str(), "Hash" | "Debug" | "Display" | "Eq" | "PartialEq" )
        }
        _ => false,
    };
    let ren = |b: &mut TypeParamBound| {
        if let TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last_mut().unwrap();
            if s.ident == "Ord" || s.ident == "PartialOrd" { s.ident = format_ident!("VOrd"); }
        }
    };
    for p in g.type_params_mut() {
        p.bounds = p.bounds.iter().filter(|b| !drop(b)).cloned().collect();
        for b in p.bounds.iter_mut() { ren(b); }
        if p.bounds.is_empty() { p.colon_token = None; }
    }
    if let Some(w) = &mut g.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                t.bounds = t.bounds.iter().filter(|b| !drop(b)).cloned().collect();
                for b in t.bounds.iter_mut() { ren(b); }
            }
        }
        let preds: Vec<WherePredicate> = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if t.bounds.is_empty())).cloned().collect();
        w.predicates = preds.into_iter().collect();
    }
    if g.where_clause.as_ref().map_or(false, |w| w.predicates.is_empty()) { g.where_clause = None; }
}

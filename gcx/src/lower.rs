//! Lowering of a function body to the subset Verus accepts. Every rule is purely syntactic and
//! local; the list of rules is documented in DESIGN.md ("What the extraction changes").
use crate::spec::FnSpec;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const RENAMES: &[&str] = &[
    "iter", "into_iter", "contains", "clone", "to_vec", "first", "last", "windows", "rotate_left",
    "retain", "try_into", "to_string", "sort", "dedup", "extend", "reverse", "is_empty", "get", "cmp", "partial_cmp", "parse", "trim", "starts_with", "as_ref", "or_else", "unwrap_or_else",
];

pub fn rename(m: &str) -> Option<String> {
    if RENAMES.contains(&m) {
        Some(format!("{}_", m))
    } else {
        None
    }
}

pub struct Lower<'a> {
    pub spec: &'a FnSpec,
    pub loops: usize,
    pub closures: usize,
    pub tmp: usize,
    pub holes: &'a mut BTreeMap<String, String>,
    pub hole_prefix: String,
    pub used_at: BTreeSet<usize>,
    pub used_loops: BTreeSet<usize>,
    pub used_closures: BTreeSet<usize>,
    pub used_effects: BTreeSet<usize>,
    pub spec_methods: &'a BTreeSet<String>,
    pub notes: Vec<String>,
    /// parts of the text that the contract speaks about and that are no longer recognised
    pub rewritten: Vec<String>,
    pub calls_seen: BTreeMap<String, usize>,
    pub no_dec: bool,
}

fn ts(s: &str) -> TokenStream {
    TokenStream::from_str(s).unwrap_or_else(|e| panic!("bad tokens {:?}: {}", s, e))
}

pub fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

fn simple_ident(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.by_ref.is_none() && i.subpat.is_none(),
        Pat::Type(t) => simple_ident(&t.pat),
        Pat::Wild(_) => false,
        _ => false,
    }
}

fn has_ref(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_reference(&mut self, _: &'a PatReference) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}

impl<'a> Lower<'a> {
    fn fresh(&mut self, base: &str) -> Ident {
        self.tmp += 1;
        format_ident!("__{}{}", base, self.tmp)
    }

    fn hole(&mut self, kind: &str, text: &str) -> TokenStream {
        if text.trim().is_empty() {
            return quote!();
        }
        let name = format!("GCXHOLE_{}_{}_{}", self.hole_prefix, kind, self.holes.len());
        self.holes.insert(name.clone(), text.to_string());
        let id = Ident::new(&name, Span::call_site());
        quote!(#id)
    }

    fn at(&mut self, anchor: &str) -> TokenStream {
        let mut out = quote!();
        let found: Vec<(usize, String)> = self
            .spec
            .at
            .iter()
            .enumerate()
            .filter(|(_, (a, _))| a == anchor)
            .map(|(i, (_, t))| (i, t.clone()))
            .collect();
        for (i, t) in found {
            self.used_at.insert(i);
            let h = self.hole("at", &t);
            out.extend(h);
        }
        out
    }

    /// Statements binding `pat` to `e`, without reference patterns
    fn bind(&mut self, pat: &Pat, e: TokenStream) -> TokenStream {
        match pat {
            Pat::Paren(p) => self.bind(&p.pat, e),
            Pat::Reference(r) => {
                let inner = (*r.pat).clone();
                self.bind(&inner, quote!(*#e))
            }
            Pat::Wild(_) => quote!(),
            Pat::Type(t) if !has_ref(pat) => quote!(let #t = #e;),
            _ if !has_ref(pat) => quote!(let #pat = #e;),
            _ => {
                // replace reference subpatterns by fresh names
                let mut p2 = pat.clone();
                let mut subs: Vec<(Ident, Pat)> = vec![];
                struct R<'b, 'c>(&'b mut Vec<(Ident, Pat)>, &'c mut usize);
                impl<'b, 'c> VisitMut for R<'b, 'c> {
                    fn visit_pat_mut(&mut self, p: &mut Pat) {
                        if let Pat::Reference(r) = p {
                            *self.1 += 1;
                            let id = format_ident!("__r{}", *self.1);
                            self.0.push((id.clone(), (*r.pat).clone()));
                            *p = Pat::Verbatim(quote!(#id));
                        } else {
                            visit_mut::visit_pat_mut(self, p);
                        }
                    }
                }
                let mut tmp = self.tmp;
                R(&mut subs, &mut tmp).visit_pat_mut(&mut p2);
                self.tmp = tmp;
                let mut out = quote!(let #p2 = #e;);
                for (id, p) in subs {
                    let b = self.bind(&p, quote!(*#id));
                    out.extend(b);
                }
                out
            }
        }
    }

    fn block_tokens(&mut self, b: &Block) -> TokenStream {
        // statements of a unit block, last expression closed by a semicolon
        let mut out = quote!();
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n => {
                    out.extend(quote!(#e ;));
                }
                _ => s.to_tokens(&mut out),
            }
        }
        out
    }

    /// What is said at the end of a loop's body is said before every `continue` of it, too,
    /// if it speaks of nothing bound in the body
    fn end_at_continues(&mut self, k: usize, body: &mut Block) {
        let anchor = format!("loop {} end", k);
        let text: String = self.spec.at.iter().filter(|(a, _)| *a == anchor).map(|(_, t)| t.clone() + "\n").collect();
        if text.trim().is_empty() { return; }
        #[derive(Default)]
        struct Bound(BTreeSet<String>);
        impl<'a> syn::visit::Visit<'a> for Bound {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                let n = p.ident.to_string();
                if n.starts_with(|c: char| c.is_lowercase() || c == '_') { self.0.insert(n); }
                syn::visit::visit_pat_ident(self, p);
            }
        }
        let mut bound = Bound::default();
        syn::visit::Visit::visit_block(&mut bound, body);
        let outer = |a: &str| {
            let w: Vec<&str> = a.split_whitespace().collect();
            match w.as_slice() {
                ["entry"] => true,
                ["before", "loop", j] | ["loop", j, "begin"] => j.parse::<usize>().map_or(false, |j| j <= k),
                _ => false,
            }
        };
        for (a, t) in self.spec.at.iter() {
            if outer(a) || *a == anchor { continue; }
            for l in t.split("let ghost ").skip(1) {
                let l = l.strip_prefix("mut ").unwrap_or(l);
                bound.0.insert(l.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
            }
        }
        let own = |w: &str| text.contains(&format!("let {} ", w)) || text.contains(&format!("let ghost {} ", w)) || text.contains(&format!("|{}:", w)) || text.contains(&format!(" {}: ", w)) || text.contains(&format!("({}) =>", w));
        if text.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| bound.0.contains(w) && !own(w)) { return; }
        struct C<'b, 'c>(&'b mut Lower<'c>, String);
        impl<'b, 'c> VisitMut for C<'b, 'c> {
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
            fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
            fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if matches!(e, Expr::Continue(c) if c.label.is_none()) {
                    let h = self.0.at(&self.1);
                    *e = Expr::Verbatim(quote!({ #h continue; }));
                } else { visit_mut::visit_expr_mut(self, e); }
            }
        }
        C(self, anchor).visit_block_mut(body);
    }

    fn lower_for(&mut self, f: &mut ExprForLoop) -> Expr {
        self.loops += 1;
        let k = self.loops;
        self.end_at_continues(k, &mut f.body);
        let it = format_ident!("__it{}", k);
        let all = format_ident!("__all{}", k);
        // for pat in &mut map
        if let Expr::Reference(r) = strip_paren(&f.expr).clone() {
            if r.mutability.is_some() {
                if let Pat::Tuple(t) = &*f.pat {
                    if t.elems.len() == 2 {
                        let mut m = (*r.expr).clone();
                        self.visit_expr_mut(&mut m);
                        let kp = t.elems[0].clone();
                        let vp = t.elems[1].clone();
                        let key = self.fresh("k");
                        let before = self.at(&format!("before loop {}", k));
                        let begin = self.at(&format!("loop {} begin", k));
                        self.visit_block_mut(&mut f.body);
                        let body = self.block_tokens(&f.body.clone());
                        let end = self.at(&format!("loop {} end", k));
                        let after = self.at(&format!("after loop {}", k));
                        let inv = self.loop_clauses(k, Some((&it, &all)));
                        let kb = self.bind(&kp, quote!(&#key));
                        let label = &f.label;
                        return Expr::Verbatim(quote!({
                            let mut #it = #m.keys_snapshot();
                            let ghost #all = #it.all();
                            #before
                            #label while let Some(#key) = #it.next() #inv {
                                #begin
                                #kb
                                let #vp = #m.get_mut(&#key).unwrap();
                                #body
                                #end
                            }
                            #after
                        }));
                    }
                }
            }
        }
        self.visit_expr_mut(&mut f.expr);
        // a temporary the loop borrows from lives as long as the loop
        let src_tmp = format_ident!("__src{}", k);
        let mut hoisted = quote!();
        {
            let mut cur: &mut Expr = &mut f.expr;
            loop {
                match cur {
                    Expr::Paren(p) => cur = &mut p.expr,
                    Expr::MethodCall(m) => {
                        if m.method == "iter_" && matches!(strip_paren(&m.receiver), Expr::MethodCall(_) | Expr::Call(_)) {
                            let r = (*m.receiver).clone();
                            hoisted = quote!(let #src_tmp = #r;);
                            *m.receiver = parse_quote!(#src_tmp);
                            break;
                        }
                        cur = &mut m.receiver
                    }
                    _ => break,
                }
            }
        }
        let src = f.expr.clone();
        let before = self.at(&format!("before loop {}", k));
        let begin = self.at(&format!("loop {} begin", k));
        self.visit_block_mut(&mut f.body);
        let body = self.block_tokens(&f.body.clone());
        let end = self.at(&format!("loop {} end", k));
        let after = self.at(&format!("after loop {}", k));
        let inv = self.loop_clauses(k, Some((&it, &all)));
        let label = &f.label;
        let (pat, binds) = if simple_ident(&f.pat) {
            (f.pat.to_token_stream(), quote!())
        } else {
            let p = format_ident!("__p{}", k);
            let b = self.bind(&f.pat.clone(), quote!(#p));
            (quote!(#p), b)
        };
        Expr::Verbatim(quote!({
            #hoisted
            let mut #it = (#src).into_iter_();
            let ghost #all = #it.all();
            #before
            #label while let Some(#pat) = #it.next() #inv {
                #begin
                #binds
                #body
                #end
            }
            #after
        }))
    }

    fn loop_clauses(&mut self, k: usize, it: Option<(&Ident, &Ident)>) -> TokenStream {
        let user = self.spec.loops.get(&k).cloned();
        if user.is_some() {
            self.used_loops.insert(k);
        }
        let mut user = user.unwrap_or_default();
        match it {
            Some((it, all)) => {
                let auto = format!("invariant {it}.all() == {all}, 0 <= {it}.pos() <= {all}.len(),\n");
                let has_dec = user.contains("decreases");
                let u = user.trim_start();
                let text = if u.starts_with("invariant") {
                    format!("{}{}", auto, &u["invariant".len()..])
                } else {
                    format!("{}{}", auto, user)
                };
                user = text;
                if !has_dec {
                    user.push_str(&format!("\ndecreases {all}.len() - {it}.pos()\n"));
                }
                self.hole("inv", &user)
            }
            None => self.hole("inv", &user),
        }
    }

    fn lower_while(&mut self, w: &mut ExprWhile) -> Expr {
        self.loops += 1;
        let k = self.loops;
        self.end_at_continues(k, &mut w.body);
        // refutable pattern with references
        let mut binds = quote!();
        if let Expr::Let(l) = &mut *w.cond {
            if has_ref(&l.pat) {
                let mut p2 = (*l.pat).clone();
                let mut subs: Vec<(Ident, Pat)> = vec![];
                struct R<'b, 'c>(&'b mut Vec<(Ident, Pat)>, &'c mut usize);
                impl<'b, 'c> VisitMut for R<'b, 'c> {
                    fn visit_pat_mut(&mut self, p: &mut Pat) {
                        if let Pat::Reference(r) = p {
                            *self.1 += 1;
                            let id = format_ident!("__r{}", *self.1);
                            self.0.push((id.clone(), (*r.pat).clone()));
                            *p = Pat::Verbatim(quote!(#id));
                        } else {
                            visit_mut::visit_pat_mut(self, p);
                        }
                    }
                }
                let mut tmp = self.tmp;
                R(&mut subs, &mut tmp).visit_pat_mut(&mut p2);
                self.tmp = tmp;
                *l.pat = p2;
                for (id, p) in subs {
                    let b = self.bind(&p, quote!(*#id));
                    binds.extend(b);
                }
            }
        }
        self.visit_expr_mut(&mut w.cond);
        let cond = w.cond.clone();
        let before = self.at(&format!("before loop {}", k));
        let begin = self.at(&format!("loop {} begin", k));
        self.visit_block_mut(&mut w.body);
        let body = self.block_tokens(&w.body.clone());
        let end = self.at(&format!("loop {} end", k));
        let after = self.at(&format!("after loop {}", k));
        let inv = self.loop_clauses(k, None);
        let label = &w.label;
        Expr::Verbatim(quote!({
            #before
            #label while #cond #inv { #begin #binds #body #end }
            #after
        }))
    }

    fn lower_loop(&mut self, w: &mut ExprLoop) -> Expr {
        self.loops += 1;
        let k = self.loops;
        self.end_at_continues(k, &mut w.body);
        let before = self.at(&format!("before loop {}", k));
        let begin = self.at(&format!("loop {} begin", k));
        self.visit_block_mut(&mut w.body);
        let body = self.block_tokens(&w.body.clone());
        let end = self.at(&format!("loop {} end", k));
        let inv = self.loop_clauses(k, None);
        let label = &w.label;
        Expr::Verbatim(quote!({
            #before
            #label loop #inv { #begin #body #end }
        }))
    }

    fn lower_closure(&mut self, c: &mut ExprClosure) -> Expr {
        self.closures += 1;
        let k = self.closures;
        let mut binds = quote!();
        let mut params: Vec<TokenStream> = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            if simple_ident(p) {
                params.push(p.to_token_stream());
            } else {
                let id = format_ident!("__c{}_{}", k, i);
                let b = match p {
                    Pat::Type(t) => {
                        let ty = &t.ty;
                        params.push(quote!(#id : #ty));
                        let pp = (*t.pat).clone();
                        self.bind(&pp, quote!(#id))
                    }
                    _ => {
                        params.push(quote!(#id));
                        self.bind(&p.clone(), quote!(#id))
                    }
                };
                binds.extend(b);
            }
        }
        self.visit_expr_mut(&mut c.body);
        let body = (*c.body).clone();
        let mv = &c.capture;
        let ret = match &c.output {
            ReturnType::Type(_, t) => t.to_token_stream(),
            _ => quote!(_),
        };
        if let Some(o) = self.spec.closures.get(&k).cloned() {
            self.used_closures.insert(k);
            let h = self.hole("cl", &o);
            // the crate's iterator returned by the closure, as the list of what it yields
            if let Some(t) = self.spec.closure_ty.get(&k).and_then(|t| t.strip_suffix("~drain")) {
                let ret = ts(t);
                return Expr::Verbatim(quote!(#mv |#(#params),*| -> (__r: #ret) #h { #binds (#body).drain_() }));
            }
            let ret = match self.spec.closure_ty.get(&k) { Some(t) => ts(t), None => ret };
            return Expr::Verbatim(quote!(#mv |#(#params),*| -> (__r: #ret) #h { #binds #body }));
        }
        if self.specable(&body) {
            let sb = spec_tokens(&body);
            if self.boolish(&body) {
                // no type ambiguity for booleans
                return Expr::Verbatim(
                    quote!(#mv |#(#params),*| -> (__r: bool) ensures __r == ({ #binds #sb }) { #binds #body }),
                );
            }
            return Expr::Verbatim(
                quote!(#mv |#(#params),*| -> (__r: #ret) ensures same(__r, { #binds #sb }) { #binds #body }),
            );
        }
        self.notes.push(format!("closure {} has no derived contract", k));
        Expr::Verbatim(quote!(#mv |#(#params),*| -> (__r: #ret) { #binds #body }))
    }

    fn boolish(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Binary(b) => matches!(
                b.op,
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)
            ),
            Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && self.boolish(&u.expr),
            Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
            Expr::MethodCall(m) => matches!(
                m.method.to_string().as_str(),
                "is_some" | "is_none" | "contains_" | "contains_key"
            ),
            Expr::Block(b) => match b.block.stmts.as_slice() {
                [Stmt::Expr(e, None)] => self.boolish(e),
                _ => false,
            },
            _ => false,
        }
    }

    fn specable(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Paren(p) => self.specable(&p.expr),
            Expr::Group(p) => self.specable(&p.expr),
            Expr::Field(f) => self.specable(&f.base),
            Expr::Unary(u) => !matches!(u.op, UnOp::Neg(_)) && self.specable(&u.expr),
            Expr::Reference(r) => r.mutability.is_none() && self.specable(&r.expr),
            Expr::Tuple(t) => t.elems.iter().all(|x| self.specable(x)),
            Expr::Binary(b) => {
                matches!(
                    b.op,
                    BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)
                ) && self.specable(&b.left)
                    && self.specable(&b.right)
            }
            Expr::Call(c) => {
                let ok = match strip_paren(&c.func) {
                    Expr::Path(p) => {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        n.chars().next().unwrap().is_uppercase() || self.spec_methods.contains(&n)
                            || p.to_token_stream().to_string().replace(' ', "") == "Box::new"
                    }
                    _ => false,
                };
                ok && c.args.iter().all(|x| self.specable(x))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                (matches!(n.as_str(), "is_some" | "is_none" | "contains_" | "contains_key" | "len")
                    || self.spec_methods.contains(&n))
                    && self.specable(&m.receiver)
                    && m.args.iter().all(|x| self.specable(x))
            }
            Expr::Match(m) => {
                self.specable(&m.expr)
                    && m.arms
                        .iter()
                        .all(|a| a.guard.is_none() && self.specable(&a.body))
            }
            Expr::If(i) => {
                self.specable(&i.cond)
                    && self.specable_block(&i.then_branch)
                    && i.else_branch.as_ref().map_or(false, |(_, e)| self.specable(e))
            }
            Expr::Block(b) => self.specable_block(&b.block),
            _ => false,
        }
    }
    fn specable_block(&self, b: &Block) -> bool {
        let n = b.stmts.len();
        n > 0
            && b.stmts.iter().enumerate().all(|(i, s)| match s {
                Stmt::Expr(e, None) => i + 1 == n && self.specable(e),
                Stmt::Local(l) => {
                    i + 1 < n
                        && l.init.as_ref().map_or(false, |x| x.diverge.is_none() && self.specable(&x.expr))
                }
                Stmt::Item(Item::Use(_)) => true,
                _ => false,
            })
    }

    /// X.entry(K).method(arg)
    fn entry_of(m: &ExprMethodCall) -> Option<(Expr, Expr)> {
        if let Expr::MethodCall(r) = strip_paren(&m.receiver) {
            if r.method == "entry" && r.args.len() == 1 {
                return Some(((*r.receiver).clone(), r.args[0].clone()));
            }
        }
        None
    }

    fn closure_arg(m: &ExprMethodCall) -> Option<ExprClosure> {
        if m.args.len() != 1 {
            return None;
        }
        match strip_paren(&m.args[0]) {
            Expr::Closure(c) => Some(c.clone()),
            _ => None,
        }
    }

    fn body_as_block(e: &Expr) -> Block {
        match e {
            Expr::Block(b) if b.label.is_none() => b.block.clone(),
            _ => Block {
                brace_token: Default::default(),
                stmts: vec![Stmt::Expr(e.clone(), None)],
            },
        }
    }

    /// The ghost statements at the call f(args); `$1`.. are the arguments and `$r` the result
    fn effect(&mut self, f: &str, args: &[TokenStream], call: &dyn Fn(&[TokenStream]) -> TokenStream) -> Option<TokenStream> {
        let found: Vec<(usize, String)> = self.spec.effects.iter().enumerate().filter(|(_, (a, _))| a == f).map(|(i, (_, t))| (i, t.clone())).collect();
        if found.is_empty() { return None; }
        let n = { self.tmp += 1; self.tmp };
        let ids: Vec<Ident> = (0..args.len()).map(|i| format_ident!("__e{}_{}", n, i + 1)).collect();
        let mut before = quote!();
        let mut after = quote!();
        for (i, t) in found {
            self.used_effects.insert(i);
            let mut t = format!("proof {{ {} }}", t);
            let late = t.contains("$r");
            t = t.replace("$r", &format!("__e{}_r", n));
            for (i, id) in ids.iter().enumerate().rev() { t = t.replace(&format!("${}", i + 1), &id.to_string()); }
            let h = self.hole("ef", &t);
            if late { after.extend(h) } else { before.extend(h) }
        }
        // a closure stays where it is (making one does nothing), so that its parameters keep their types
        let there: Vec<bool> = args.iter().map(|a| { let s = a.to_string(); s.starts_with('|') || s.starts_with("move") }).collect();
        let given: Vec<TokenStream> = ids.iter().zip(args).zip(&there).map(|((id, a), t)| if *t { a.clone() } else { quote!(#id) }).collect();
        let (ids, args): (Vec<&Ident>, Vec<&TokenStream>) = ids.iter().zip(args).zip(&there).filter(|(_, t)| !**t).map(|(x, _)| x).unzip();
        let c = call(&given);
        let r = format_ident!("__e{}_r", n);
        Some(quote!({ #(let #ids = #args;)* #before let #r = #c; #after #r }))
    }

    /// format!'s arguments as a text built from its pieces
    fn text_of(&mut self, mut a: Vec<Expr>) -> Option<TokenStream> {
        if a.is_empty() { return Some(quote!(vtext_new())); }
        let f = match a.remove(0) { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => { self.notes.push("format of a non-literal".into()); return None; } };
        let mut out = quote!(vtext_new());
        let mut lit: Vec<char> = vec![];
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        let mut args = a.into_iter();
        while i < cs.len() {
            if (cs[i] == '{' || cs[i] == '}') && cs.get(i + 1) == Some(&cs[i]) {
                lit.push(cs[i]);
                i += 2;
            } else if cs[i] == '{' {
                let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
                let inner: String = cs[i + 1..j].iter().collect();
                if !lit.is_empty() { let l = literal(&lit); out = quote!(vtext_lit(#out, #l())); lit.clear(); }
                if inner.is_empty() {
                    let mut e = args.next()?;
                    self.visit_expr_mut(&mut e);
                    out = quote!(vtext_arg(#out, &(#e)));
                } else if let Ok(id) = syn::parse_str::<Ident>(&inner) {
                    out = quote!(vtext_arg(#out, &#id));
                } else {
                    let mut e: Expr = match inner.strip_suffix(":?").or(inner.strip_suffix(":#?")) { Some("") => args.next()?, _ => { self.notes.push("format specification".into()); return None; } };
                    self.visit_expr_mut(&mut e);
                    out = if self.spec.debug { quote!(vtext_dbg(#out, &(#e))) } else { quote!(vtext_any(#out)) };
                }
                i = j + 1;
            } else {
                lit.push(cs[i]);
                i += 1;
            }
        }
        if !lit.is_empty() { let l = literal(&lit); out = quote!(vtext_lit(#out, #l())); }
        Some(out)
    }

    fn lower_macro(&mut self, mac: &Macro) -> Option<TokenStream> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "format" if self.spec.text => {
                let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                self.text_of(args.into_iter().collect())
            }
            "writeln" | "write" if self.spec.text => {
                let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut a: Vec<Expr> = args.into_iter().collect();
                if a.is_empty() { return None; }
                let mut w = a.remove(0);
                self.visit_expr_mut(&mut w);
                let t = if a.is_empty() { quote!(vtext_new()) } else { self.text_of(a)? };
                Some(if name == "writeln" { quote!(#w.writeln_(#t)) } else { quote!(#w.write_(#t)) })
            }
            "lazy_static" if self.spec.text => {
                // static ref NAME: T = e;  ->  let NAME = e;
                let mut out = quote!();
                let mut cur: Vec<proc_macro2::TokenTree> = vec![];
                for t in mac.tokens.clone() {
                    if matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ';') {
                        let n = cur.iter().position(|t| t.to_string() == "ref")?;
                        let eq = cur.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == '='))?;
                        let id = cur.get(n + 1)?.clone();
                        let body: TokenStream = cur[eq + 1..].iter().cloned().collect();
                        let mut e: Expr = syn::parse2(body).ok()?;
                        self.visit_expr_mut(&mut e);
                        out.extend(quote!(let #id = #e;));
                        cur.clear();
                    } else {
                        cur.push(t);
                    }
                }
                Some(out)
            }
            "format" => Some(quote!(vfmt())),
            "println" | "print" if self.spec.effects.iter().any(|(a, _)| a == "print") => {
                let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let t = self.text_of(args.into_iter().collect())?;
                let t = if name == "println" { let l = literal(&['\n']); quote!(vtext_lit(#t, #l())) } else { t };
                self.effect("print", &[t], &|_| quote!(()))
            }
            "println" | "print" | "eprintln" | "eprint" | "debug_assert" | "debug_assert_eq" => {
                Some(quote!(()))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(quote!(vpanic())),
            "vec" => {
                let args = mac
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()?;
                let mut a: Vec<Expr> = args.into_iter().collect();
                for e in a.iter_mut() {
                    self.visit_expr_mut(e);
                }
                Some(if a.is_empty() {
                    quote!(Vec::new())
                } else if a.len() == 1 {
                    quote!(vvec1(#(#a),*))
                } else if a.len() == 2 {
                    quote!(vvec2(#(#a),*))
                } else {
                    quote!(vec![#(#a),*])
                })
            }
            "writeln" | "write" => {
                Some(quote!(vwrite()))
            }
            _ => {
                self.notes.push(format!("macro {}!", name));
                None
            }
        }
    }
}

thread_local! { pub static LITS: std::cell::RefCell<std::collections::BTreeMap<String, String>> = Default::default(); }

/// a function which answers the literal text (ghost arguments are not allowed inside closures)
fn literal(cs: &[char]) -> Ident {
    let h = cs.iter().fold(0xcbf29ce484222325u64, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3));
    let name = format!("vlit_{:016x}", h);
    let lit: String = cs.iter().collect();
    LITS.with(|l| l.borrow_mut().insert(name.clone(), format!("{}, r@ == {:?}@", chars(cs), lit)));
    Ident::new(&name, proc_macro2::Span::call_site())
}

thread_local! { pub static REGEXES: std::cell::RefCell<std::collections::BTreeMap<String, String>> = Default::default(); }

/// a function which answers the compiled regular expression, as the list of its atoms
fn regex_fn(p: &str, atoms: TokenStream) -> Ident {
    let h = p.chars().fold(0xcbf29ce484222325u64, |h, c| (h ^ c as u64).wrapping_mul(0x100000001b3));
    let name = format!("vre_{:016x}", h);
    REGEXES.with(|l| l.borrow_mut().insert(name.clone(), atoms.to_string()));
    Ident::new(&name, proc_macro2::Span::call_site())
}

fn chars(c: &[char]) -> TokenStream {
    if c.is_empty() { quote!(Seq::<char>::empty()) } else { quote!(seq![#(#c),*]) }
}

/// A regular expression of the form ^...$ made of characters and repeated classes, as a list of atoms
fn regex_atoms(p: &str) -> Option<TokenStream> {
    let p = p.strip_prefix('^')?.strip_suffix('$')?;
    let cs: Vec<char> = p.chars().collect();
    let mut out: Vec<TokenStream> = vec![];
    let mut lit: Vec<char> = vec![];
    let mut i = 0;
    let mut group = false;
    let flush = |lit: &mut Vec<char>, out: &mut Vec<TokenStream>| {
        if !lit.is_empty() { let l = chars(lit); out.push(quote!((Atom::Lit(#l), false))); lit.clear(); }
    };
    while i < cs.len() {
        let cls = match cs[i] {
            '(' => { if group || cs.get(i + 1) == Some(&'?') { return None; } group = true; i += 1; continue; }
            '\\' => { i += 1; match cs.get(i)? { 'd' => quote!(Cls::Digit), 's' => quote!(Cls::Space), _ => return None } }
            '.' => quote!(Cls::Any),
            c if c.is_alphanumeric() || c == ' ' || c == '_' || c == '#' || c == ',' => {
                if group || matches!(cs.get(i + 1), Some('+' | '*' | '?' | '{')) { return None; }
                lit.push(c);
                i += 1;
                continue;
            }
            _ => return None,
        };
        flush(&mut lit, &mut out);
        i += 1;
        let min = match cs.get(i) { Some('+') => quote!(1), Some('*') => quote!(0), _ => return None };
        i += 1;
        if cs.get(i) == Some(&'?') { return None; }
        if group { if cs.get(i) != Some(&')') { return None; } i += 1; }
        out.push(quote!((Atom::Run(#cls, #min), #group)));
        group = false;
    }
    flush(&mut lit, &mut out);
    if out.is_empty() { return None; }
    Some(quote!(seq![#(#out),*]))
}

fn spec_tokens(e: &Expr) -> TokenStream {
    // in spec position Box::new(x) is written as a spec helper
    let s = e.to_token_stream().to_string();
    ts(&s.replace("Box :: new", "spec_box"))
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- structural rules, top-down
        if self.spec.text {
            // Regex::new("...") as the list of its atoms
            if let Expr::Call(c) = e {
                if let (Expr::Path(f), Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. }))) = (&*c.func, c.args.first()) {
                    let segs: Vec<String> = f.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 2 && segs[segs.len() - 1] == "new" && segs[segs.len() - 2] == "Regex" {
                        match regex_atoms(&s.value()) {
                            Some(t) => { let n = regex_fn(&s.value(), t); *e = Expr::Verbatim(quote!(#n())); }
                            None => { self.notes.push("regex".into()); *e = Expr::Verbatim(quote!(vregex_any())); }
                        }
                        return;
                    }
                }
            }
        }
        // App::new(..)...get_matches(): the arguments the program was given
        if self.spec.cli {
            if let Expr::MethodCall(m) = e {
                if m.method.to_string().starts_with("get_matches") && chain_root(&m.receiver).map_or(false, |r| r.starts_with("App::new") || r.starts_with("clap::App::new")) {
                    let mut facts = quote!();
                    let mut seen = false;
                    match declared(&m.receiver) {
                        Some(opts) => for o in opts {
                            seen = true;
                            let Opt { name, long, short, valued, many, least, needed, preset, bounded } = o;
                            let many = many && !bounded;
                            let (has, preset) = (preset.is_some(), preset.unwrap_or_default());
                            facts.extend(quote!(vcli_option(&__cli, #name, #long, #short, #valued, #many, #least, #needed, #has, #preset);));
                        },
                        None => self.rewritten.push("options".into()),
                    }
                    *e = Expr::Verbatim(if seen { quote!({ let __cli = vcli_matches(); #facts __cli }) } else { quote!(vcli_matches()) });
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            // (a..b).f(..): the range as an iterator
            if name != "contains" && matches!(strip_paren(&m.receiver), Expr::Range(_)) {
                let mut r = strip_paren(&m.receiver).clone();
                visit_mut::visit_expr_mut(self, &mut r);
                m.receiver = Box::new(Expr::Verbatim(quote!((#r).into_iter_())));
            }
            // X.map(|p| body) on an Option whose closure moves or changes what it captures
            if (name == "map" || name == "and_then") && self.spec.closure_ty.values().any(|t| t == "~option") {
                if let Some(c) = Self::closure_arg(m) {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let k = self.closures + 1;
                    if self.spec.closure_ty.get(&k).map(|t| t == "~option").unwrap_or(false) && c.inputs.len() == 1 {
                        self.closures += 1;
                        self.used_closures.insert(k);
                        let p = c.inputs[0].clone();
                        let b = self.bind(&p, quote!(__o));
                        let mut body = (*c.body).clone();
                        self.visit_expr_mut(&mut body);
                        *e = Expr::Verbatim(if name == "map" {
                            quote!(match #r { Some(__o) => { #b Some(#body) } None => None })
                        } else {
                            quote!(match #r { Some(__o) => { #b #body } None => None })
                        });
                        return;
                    }
                    m.receiver = Box::new(Expr::Verbatim(r.to_token_stream()));
                }
            }
            // X.for_each(|p| body)
            if name == "for_each" {
                if let Some(c) = Self::closure_arg(m) {
                    if c.inputs.len() == 1 {
                        let pat = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        let mut f = ExprForLoop {
                            attrs: vec![],
                            label: None,
                            for_token: Default::default(),
                            pat: Box::new(pat),
                            in_token: Default::default(),
                            expr: m.receiver.clone(),
                            body: Self::body_as_block(&c.body),
                        };
                        *e = self.lower_for(&mut f);
                        return;
                    }
                }
            }
            if let Some((mut map, mut key)) = Self::entry_of(m) {
                let k = self.fresh("k");
                match name.as_str() {
                    "or_insert_with" | "or_insert" | "or_default" => {
                        let mut v: Option<Expr> = match name.as_str() {
                            "or_insert_with" => match Self::closure_arg(m) {
                                Some(c) => Some((*c.body).clone()),
                                None => m.args.first().map(|f| parse_quote!(#f())),
                            },
                            "or_insert" => m.args.first().cloned(),
                            _ => Some(parse_quote!(Default::default())),
                        };
                        self.visit_expr_mut(&mut map);
                        self.visit_expr_mut(&mut key);
                        if let Some(v) = v.as_mut() {
                            self.visit_expr_mut(v);
                            *e = if name == "or_insert" {
                                // the argument is evaluated in any case
                                Expr::Verbatim(quote!({
                                    let #k = #key;
                                    let __dv = #v;
                                    if !#map.contains_key(&#k) { #map.insert(#k, __dv); }
                                    #map.get_mut(&#k).unwrap()
                                }))
                            } else {
                                Expr::Verbatim(quote!({
                                    let #k = #key;
                                    if !#map.contains_key(&#k) { let __dv = #v; #map.insert(#k, __dv); }
                                    #map.get_mut(&#k).unwrap()
                                }))
                            };
                            return;
                        }
                    }
                    "and_modify" => {
                        if let Some(c) = Self::closure_arg(m) {
                            self.visit_expr_mut(&mut map);
                            self.visit_expr_mut(&mut key);
                            let p = c.inputs[0].clone();
                            let mut b = Self::body_as_block(&c.body);
                            self.visit_block_mut(&mut b);
                            let body = self.block_tokens(&b);
                            *e = Expr::Verbatim(quote!({
                                let #k = #key;
                                if let Some(#p) = #map.get_mut(&#k) { #body }
                            }));
                            return;
                        }
                    }
                    _ => {}
                }
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let mut f = f.clone();
                *e = self.lower_for(&mut f);
                return;
            }
            Expr::While(w) => {
                let mut w = w.clone();
                *e = self.lower_while(&mut w);
                return;
            }
            Expr::Loop(w) => {
                let mut w = w.clone();
                *e = self.lower_loop(&mut w);
                return;
            }
            Expr::Closure(c) => {
                let mut c = c.clone();
                *e = self.lower_closure(&mut c);
                return;
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(t) = self.lower_macro(&mac) {
                    *e = Expr::Verbatim(t);
                }
                return;
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = strip_paren(&ix.index).clone() {
                    let mut base = (*ix.expr).clone();
                    self.visit_expr_mut(&mut base);
                    let mut lo = r.start.map(|x| *x).unwrap_or(parse_quote!(0));
                    self.visit_expr_mut(&mut lo);
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    let hi = match r.end {
                        Some(mut h) => {
                            self.visit_expr_mut(&mut h);
                            if incl {
                                quote!((#h) + 1)
                            } else {
                                quote!(#h)
                            }
                        }
                        None => quote!(#base.len()),
                    };
                    *e = Expr::Verbatim(quote!(vsub(&#base, #lo, #hi)));
                    return;
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                // &x[a..b]
                if let Expr::Index(ix) = strip_paren(&r.expr) {
                    if matches!(strip_paren(&ix.index), Expr::Range(_)) {
                        let mut inner = (*r.expr).clone();
                        self.visit_expr_mut(&mut inner);
                        *e = inner;
                        return;
                    }
                }
            }
            Expr::Match(m) => {
                // all bindings by `ref`: match on a reference instead
                let mut any = false;
                let mut all = true;
                struct V<'b>(&'b mut bool, &'b mut bool);
                impl<'a, 'b> syn::visit::Visit<'a> for V<'b> {
                    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                        if p.by_ref.is_some() && p.mutability.is_none() {
                            *self.0 = true
                        } else if p.ident.to_string().chars().next().unwrap().is_lowercase() {
                            *self.1 = false
                        }
                    }
                }
                for a in &m.arms {
                    syn::visit::Visit::visit_pat(&mut V(&mut any, &mut all), &a.pat);
                }
                if any && all {
                    struct S;
                    impl VisitMut for S {
                        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                            p.by_ref = None;
                        }
                    }
                    for a in m.arms.iter_mut() {
                        S.visit_pat_mut(&mut a.pat);
                    }
                    let s = (*m.expr).clone();
                    *m.expr = parse_quote!(&(#s));
                }
            }
            _ => {}
        }
        // ---- children
        visit_mut::visit_expr_mut(self, e);
        // ---- local rules, bottom-up
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if self.spec.cli && (name == "expect" || (name == "unwrap" && m.args.is_empty())) {
                    m.method = format_ident!("or_exit");
                    m.args.clear();
                } else if name == "expect" && m.args.len() == 1 {
                    m.method = format_ident!("unwrap");
                    m.args.clear();
                } else if (name == "min" || name == "max" || name == "all") && m.args.len() == 1 {
                    m.method = format_ident!("{}_", name);
                } else if let Some(n) = rename(&name) {
                    m.method = Ident::new(&n, m.method.span());
                }
                // constructor used as a function value
                for a in m.args.iter_mut() {
                    if let Expr::Path(p) = a {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        if n.chars().next().unwrap().is_uppercase()
                            && !n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric())
                            && matches!(m.method.to_string().as_str(), "map" | "and_then" | "map_err" | "flat_map" | "filter_map")
                        {
                            let p = p.clone();
                            *a = Expr::Verbatim(quote!(|__x| -> (__r: _) ensures same(__r, #p(__x)) { #p(__x) }));
                        }
                    }
                }
            }
            _ => {}
        }
        match e {
            Expr::MethodCall(m) if !self.spec.effects.is_empty() => {
                let n = m.method.clone();
                let tf = m.turbofish.clone();
                let mut args: Vec<TokenStream> = vec![m.receiver.to_token_stream()];
                args.extend(m.args.iter().map(|a| a.to_token_stream()));
                if let Some(t) = self.effect(&format!(".{}", n), &args, &|ids| { let r = &ids[0]; let a = &ids[1..]; quote!(#r.#n #tf(#(#a),*)) }) { *e = Expr::Verbatim(t); }
            }
            Expr::Call(c) if !self.spec.effects.is_empty() => {
                if let Expr::Path(p) = &*c.func {
                    let f = p.clone();
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let args: Vec<TokenStream> = c.args.iter().map(|a| a.to_token_stream()).collect();
                    if let Some(t) = self.effect(&n, &args, &|ids| quote!(#f(#(#ids),*))) { *e = Expr::Verbatim(t); }
                }
            }
            _ => {}
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            // the prelude provides the std names
            if let Stmt::Item(Item::Use(u)) = &s {
                let t = u.tree.to_token_stream().to_string();
                if t.starts_with("std ") || t.starts_with("core ") {
                    continue;
                }
                if let Some(r) = t.strip_prefix("gc_core ").or(t.strip_prefix("gc_command ")) {
                    let r = ts(&format!("crate {}", r));
                    out.push(Stmt::Expr(Expr::Verbatim(quote!(use #r;)), None));
                    continue;
                }
            }
            // X.map(|p| body);   (value discarded: X is an Option)
            if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = &s {
                if m.method == "map" {
                    if let Some(c) = Self::closure_arg(m) {
                        let x = (*m.receiver).clone();
                        let p = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        let mut body = Self::body_as_block(&c.body);
                        if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() {
                            *semi = Some(Default::default());
                        }
                        s = Stmt::Expr(parse_quote!(if let Some(#p) = #x #body), None);
                    }
                }
            }
            let mut before = quote!();
            let mut after = quote!();
            // anchors on statements: calls contained (outside nested blocks) and let names
            let names = stmt_calls(&s);
            for n in names {
                let k = self.calls_seen.entry(n.clone()).or_insert(0);
                *k += 1;
                let k = *k;
                let a = self.at(&format!("before call {} {}", n, k));
                before.extend(a);
                let a = self.at(&format!("after call {} {}", n, k));
                after.extend(a);
            }
            // the call decides an if: what follows it is the beginning of either branch
            if !after.is_empty() {
                if let Stmt::Expr(Expr::If(i), _) = &mut s {
                    let a = Stmt::Expr(Expr::Verbatim(std::mem::take(&mut after)), None);
                    i.then_branch.stmts.insert(0, a.clone());
                    match &mut i.else_branch {
                        Some((_, e)) => match &mut **e {
                            Expr::Block(b) => b.block.stmts.insert(0, a),
                            e => *e = parse_quote!({ #a #e }),
                        },
                        None => i.else_branch = Some((Default::default(), parse_quote!({ #a }))),
                    }
                }
            }
            if let Stmt::Local(l) = &s {
                for n in pat_names(&l.pat) {
                    let a = self.at(&format!("after let {}", n));
                    after.extend(a);
                }
            }
            if let Stmt::Expr(Expr::If(_), _) = &s {
                let k = self.calls_seen.entry("if".into()).or_insert(0);
                *k += 1;
                let k = *k;
                let a = self.at(&format!("before if {}", k));
                before.extend(a);
            }
            // let statements
            match &mut s {
                Stmt::Local(l) => {
                    if let Some(init) = &mut l.init {
                        self.visit_expr_mut(&mut init.expr);
                        if let Some((_, d)) = &mut init.diverge {
                            self.visit_expr_mut(d);
                        }
                        if has_ref(&l.pat) {
                            let e = init.expr.clone();
                            let t = self.fresh("l");
                            let p = l.pat.clone();
                            let binds = self.bind(&p, quote!(#t));
                            out.push(Stmt::Expr(
                                Expr::Verbatim(quote!(let #t = #e; #binds)),
                                None,
                            ));
                            continue;
                        }
                    }
                }
                Stmt::Macro(m) => {
                    let mac = m.mac.clone();
                    if let Some(t) = self.lower_macro(&mac) {
                        let t = if m.semi_token.is_some() { quote!(#t;) } else { t };
                        s = Stmt::Expr(Expr::Verbatim(t), None);
                    }
                }
                Stmt::Expr(e, _) => self.visit_expr_mut(e),
                Stmt::Item(_) => {}
            }
            if !before.is_empty() {
                out.push(Stmt::Expr(Expr::Verbatim(before), None));
            }
            let is_tail = out_is_tail(&s);
            if !after.is_empty() && is_tail {
                out.push(Stmt::Expr(Expr::Verbatim(quote!(let __t = #s; #after __t)), None));
            } else {
                out.push(s);
                if !after.is_empty() {
                    out.push(Stmt::Expr(Expr::Verbatim(after), None));
                }
            }
        }
        b.stmts = out;
    }
}

/// the call a chain of method calls starts from
/// an option as declared to clap
struct Opt { name: String, long: String, short: String, valued: bool, many: bool, least: usize, needed: bool, preset: Option<String>, bounded: bool }

fn str_lit(e: &Expr) -> Option<String> { match strip_paren(e) { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), _ => None } }
fn bool_lit(e: &Expr) -> Option<bool> { match strip_paren(e) { Expr::Lit(ExprLit { lit: Lit::Bool(s), .. }) => Some(s.value), _ => None } }
fn int_lit(e: &Expr) -> Option<usize> { match strip_paren(e) { Expr::Lit(ExprLit { lit: Lit::Int(s), .. }) => s.base10_parse().ok(), _ => None } }

/// the options declared by App::new(..).arg(..)..., or nothing when there is a call of unknown meaning
fn declared(e: &Expr) -> Option<Vec<Opt>> {
    match strip_paren(e) {
        Expr::Call(_) => Some(vec![]),
        Expr::MethodCall(m) => {
            let mut r = declared(&m.receiver)?;
            match m.method.to_string().as_str() {
                "version" | "author" | "about" | "group" => {}
                "arg" => { let o = option_of(m.args.first()?)?; if r.iter().any(|x| x.name == o.name) { return None; } r.push(o); }
                _ => return None,
            }
            Some(r)
        }
        _ => None,
    }
}

fn option_of(e: &Expr) -> Option<Opt> {
    match strip_paren(e) {
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f != "Arg::with_name" && f != "clap::Arg::with_name" { return None; }
            Some(Opt { name: str_lit(c.args.first()?)?, long: String::new(), short: String::new(), valued: false, many: false, least: 0, needed: false, preset: None, bounded: false })
        }
        Expr::MethodCall(m) => {
            let mut o = option_of(&m.receiver)?;
            let a = m.args.first();
            match m.method.to_string().as_str() {
                "help" | "long_help" | "value_name" | "display_order" => {}
                "long" => o.long = str_lit(a?)?.trim_start_matches('-').to_string(),
                "short" => o.short = str_lit(a?)?.trim_start_matches('-').chars().take(1).collect(),
                "takes_value" => o.valued = bool_lit(a?)?,
                "multiple" => o.many = bool_lit(a?)?,
                "min_values" => { o.valued = true; o.many = true; o.least = int_lit(a?)?; }
                "max_values" | "number_of_values" => { let n = int_lit(a?)?; if n == 0 { return None; } o.valued = true; o.bounded = true; if m.method == "number_of_values" { o.least = n; } }
                "required" => o.needed = bool_lit(a?)?,
                "default_value" => { o.valued = true; o.preset = Some(str_lit(a?)?); }
                _ => return None,
            }
            Some(o)
        }
        _ => None,
    }
}

fn chain_root(e: &Expr) -> Option<String> {
    match strip_paren(e) {
        Expr::MethodCall(m) => chain_root(&m.receiver),
        Expr::Call(c) => Some(c.func.to_token_stream().to_string().replace(' ', "")),
        _ => None,
    }
}

fn out_is_tail(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(Expr::Verbatim(_), None) => false,
        Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::Block(_), None) => false,
        Stmt::Expr(_, None) => true,
        _ => false,
    }
}

pub fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}

/// Names of the functions and methods called in a statement, not looking into nested blocks/closures
pub fn stmt_calls(s: &Stmt) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_block(&mut self, _: &'a Block) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_match(&mut self, m: &'a ExprMatch) {
            self.visit_expr(&m.expr);
        }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, m);
            self.0.push(m.method.to_string());
        }
        fn visit_expr_call(&mut self, m: &'a ExprCall) {
            syn::visit::visit_expr_call(self, m);
            if let Expr::Path(p) = &*m.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_stmt(&mut v, s);
    v.0
}

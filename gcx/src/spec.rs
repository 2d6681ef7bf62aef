//! Reads the side files holding contracts (specs/*.spec)
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub sig: String,
    pub attrs: String,
    pub impl_items: String,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub closure_ty: BTreeMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub as_spec: Option<String>,
    pub trusted: bool,
    pub inline: bool,
    /// texts are modelled (format!, writeln!, Regex)
    pub text: bool,
    /// the arguments of the program are modelled (clap)
    pub cli: bool,
    /// {:?} is modelled
    pub debug: bool,
    /// ghost statements at the calls of a function or macro
    pub effects: Vec<(String, String)>,
    pub subst: Vec<(String, String)>,
}

#[derive(Default, Debug, Clone)]
pub struct ModSpec {
    pub source: String,
    pub broadcast: Vec<String>,
    pub items: Vec<(Vec<String>, String)>,
    pub fns: BTreeMap<String, FnSpec>,
    pub order: Vec<String>,
}

pub fn parse(text: &str) -> ModSpec {
    let mut m = ModSpec::default();
    enum Cur {
        None,
        Items,
        Sig,
        Attr,
        Impl,
        Loop(usize),
        Closure(usize),
        At,
    }
    let mut cur = Cur::None;
    let mut fname = String::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix('@') {
            let mut w = rest.split_whitespace();
            let kind = w.next().unwrap_or("");
            let args: Vec<&str> = w.collect();
            match kind {
                "source" => {
                    m.source = args[0].to_string();
                    cur = Cur::None
                }
                "broadcast" => {
                    m.broadcast.extend(args.iter().map(|s| s.to_string()));
                    cur = Cur::None
                }
                "items" => {
                    m.items
                        .push((args.iter().map(|s| s.to_string()).collect(), String::new()));
                    cur = Cur::Items
                }
                "fn" => {
                    fname = args[0].to_string();
                    m.fns.insert(fname.clone(), FnSpec::default());
                    m.order.push(fname.clone());
                    cur = Cur::Sig
                }
                _ => {
                    let f = m.fns.get_mut(&fname).expect("@directive outside @fn");
                    match kind {
                        "ret" => {
                            f.ret = Some(args[0].to_string());
                            cur = Cur::Sig
                        }
                        "sig" => cur = Cur::Sig,
                        "attr" => {
                            f.attrs.push_str(&args.join(" "));
                            f.attrs.push('\n');
                            cur = Cur::Attr
                        }
                        "impl" => cur = Cur::Impl,
                        "spec" => {
                            f.as_spec = Some(args[0].to_string());
                            cur = Cur::Sig
                        }
                        "trusted" => {
                            f.trusted = true;
                            cur = Cur::Sig
                        }
                        "text" => {
                            f.text = true;
                            cur = Cur::Sig
                        }
                        "debug" => {
                            f.debug = true;
                            cur = Cur::Sig
                        }
                        "cli" => {
                            f.cli = true;
                            cur = Cur::Sig
                        }
                        "effect" => {
                            let t = rest["effect".len()..].trim();
                            let (a, b) = t.split_once("=>").expect("@effect f => ghost statements");
                            f.effects.push((a.trim().to_string(), b.trim().to_string()));
                        }
                        "inline" => {
                            f.inline = true;
                            cur = Cur::Sig
                        }
                        "subst" => {
                            let t = rest["subst".len()..].trim();
                            let (a, b) = t.split_once("=>").expect("@subst a => b");
                            f.subst.push((a.trim().to_string(), b.trim().to_string()));
                        }
                        "loop" => {
                            let k = args[0].parse().unwrap();
                            f.loops.insert(k, String::new());
                            cur = Cur::Loop(k)
                        }
                        "closure" => {
                            let k = args[0].parse().unwrap();
                            f.closures.insert(k, String::new());
                            if args.len() > 1 { f.closure_ty.insert(k, args[1..].join(" ")); }
                            cur = Cur::Closure(k)
                        }
                        "at" => {
                            f.at.push((args.join(" "), String::new()));
                            cur = Cur::At
                        }
                        other => panic!("unknown directive @{}", other),
                    }
                }
            }
            continue;
        }
        let add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match cur {
            Cur::None => {}
            Cur::Items => add(&mut m.items.last_mut().unwrap().1),
            Cur::Sig => add(&mut m.fns.get_mut(&fname).unwrap().sig),
            Cur::Impl => add(&mut m.fns.get_mut(&fname).unwrap().impl_items),
            Cur::Attr => add(&mut m.fns.get_mut(&fname).unwrap().attrs),
            Cur::Loop(k) => add(m.fns.get_mut(&fname).unwrap().loops.get_mut(&k).unwrap()),
            Cur::Closure(k) => add(m.fns.get_mut(&fname).unwrap().closures.get_mut(&k).unwrap()),
            Cur::At => add(&mut m.fns.get_mut(&fname).unwrap().at.last_mut().unwrap().1),
        }
    }
    for f in m.fns.values_mut() {
        keep_ghosts_apart(f);
    }
    m
}

/// Ghost variables get names the program does not use
fn keep_ghosts_apart(f: &mut FnSpec) {
    let mut names: Vec<String> = vec![];
    for (_, t) in &f.at {
        for part in t.split("let ghost ").skip(1) {
            let part = part.strip_prefix("mut ").unwrap_or(part);
            let n: String = part.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if !n.is_empty() && !n.starts_with("__") && !names.contains(&n) {
                names.push(n);
            }
        }
    }
    if names.is_empty() {
        return;
    }
    for t in f.loops.values_mut().chain(f.closures.values_mut()).chain(f.at.iter_mut().map(|x| &mut x.1)).chain(f.effects.iter_mut().map(|x| &mut x.1)) {
        *t = rename(t, &names);
    }
}

fn rename(t: &str, names: &[String]) -> String {
    let c: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_alphabetic() || c[i] == '_' {
            let j = (i..c.len()).find(|j| !(c[*j].is_alphanumeric() || c[*j] == '_')).unwrap_or(c.len());
            let w: String = c[i..j].iter().collect();
            let field = i > 0 && c[i - 1] == '.' && !(i > 1 && c[i - 2] == '.');
            out.push_str(&w);
            if !field && names.contains(&w) {
                out.push_str("__g");
            }
            i = j;
        } else if c[i].is_numeric() {
            let j = (i..c.len()).find(|j| !(c[*j].is_alphanumeric() || c[*j] == '_')).unwrap_or(c.len());
            out.extend(&c[i..j]);
            i = j;
        } else {
            out.push(c[i]);
            i += 1;
        }
    }
    out
}

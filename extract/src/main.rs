//! Mechanical extraction of the gift crate into one Verus crate.
//!
//! usage: extract SRC_DIR CONTRACT_DIR OUT_FILE [--cli MAIN_FILE] [--external KEY]... [--probe KEY]...
//!
//! Reads SRC_DIR/{block,decode,encode,error,lzw,private}.rs, keeps the text of
//! all items and inserts contracts from CONTRACT_DIR/*.vc.  Besides OUT_FILE it
//! writes OUT_FILE.map.json: for each function its key, line range in OUT_FILE,
//! number of loops, whether it has a contract, and a hash of its source text.
use proc_macro2::{Delimiter, LineColumn, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::Visit;

const MODULES: [&str; 7] = ["error", "block", "lzw", "decode", "encode", "private", CLI];
/// Module for the command; only extracted with `--cli FILE`
const CLI: &str = "cli";

#[derive(Default, Debug, Clone)]
struct FnContract {
    ret: Option<String>,
    attrs: String,
    spec: String,
    loops: BTreeMap<usize, String>,
    loop_iter: BTreeMap<usize, String>,
    at: BTreeMap<String, String>,
    n_loops: Option<usize>,
    own: BTreeSet<usize>,
    /// `RECV.into()` is spelled `TYPE::from(RECV)`
    into: BTreeMap<String, String>,
    /// header of the n-th closure; `$0` is its parameter
    closures: BTreeMap<usize, String>,
    /// contract of a copy which has no precondition and whose assertions are
    /// guards: they end the call instead of being obligations
    guard: String,
}

#[derive(Default, Debug)]
struct ModContract {
    top: String,
    append: String,
    fns: BTreeMap<String, FnContract>,
    drop: BTreeSet<String>,
    item_attrs: BTreeMap<String, String>,
    impl_extra: BTreeMap<String, String>,
    rename: BTreeMap<String, String>,
}

#[derive(Default, Debug)]
struct Contracts {
    root: String,
    /// models which only the command needs
    cli_root: String,
    mods: BTreeMap<String, ModContract>,
}

fn parse_contracts(dir: &str) -> Contracts {
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .expect("contract dir")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false))
        .collect();
    files.sort();
    let mut c = Contracts::default();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        let mut module = String::new();
        let mut func = String::new();
        let mut target: Vec<String> = vec![];
        for (ln, line) in text.lines().enumerate() {
            if let Some(d) = line.strip_prefix("@@ ") {
                let w: Vec<&str> = d.split_whitespace().collect();
                target = match w[0] {
                    "root" | "cli_root" => vec![w[0].into()],
                    "module" => {
                        module = w[1].to_string();
                        c.mods.entry(module.clone()).or_default();
                        vec![]
                    }
                    "top" | "append" => vec![w[0].into()],
                    "drop" => {
                        c.mods.get_mut(&module).unwrap().drop.insert(w[1..].join(" "));
                        vec![]
                    }
                    "item_attr" => {
                        // item_attr NAME ATTR...
                        c.mods
                            .get_mut(&module)
                            .unwrap()
                            .item_attrs
                            .entry(w[1].to_string())
                            .or_default()
                            .push_str(&format!("{} ", w[2..].join(" ")));
                        vec![]
                    }
                    "rename" => {
                        c.mods.get_mut(&module).unwrap().rename.insert(w[1].to_string(), w[2].to_string());
                        vec![]
                    }
                    "own" => {
                        fc(&mut c, &module, &func).own.insert(w[1].parse().unwrap());
                        vec![]
                    }
                    "closure" => {
                        let n: usize = w[1].parse().unwrap();
                        fc(&mut c, &module, &func).closures.insert(n, w[2..].join(" "));
                        vec![]
                    }
                    "into" => {
                        fc(&mut c, &module, &func).into.insert(w[1].to_string(), w[2].to_string());
                        vec![]
                    }
                    "impl" => vec!["impl".into(), w[1..].join(" ")],
                    "fn" => {
                        func = w[1..].join(" ");
                        let e = c.mods.get_mut(&module).unwrap();
                        if e.fns.contains_key(&func) {
                            panic!("{}:{}: duplicate {}", f.display(), ln + 1, func);
                        }
                        e.fns.insert(func.clone(), FnContract::default());
                        vec![]
                    }
                    "ret" => {
                        fc(&mut c, &module, &func).ret = Some(w[1].to_string());
                        vec![]
                    }
                    "attr" => {
                        let t = format!("{} ", w[1..].join(" "));
                        fc(&mut c, &module, &func).attrs.push_str(&t);
                        vec![]
                    }
                    "loops" => {
                        fc(&mut c, &module, &func).n_loops = Some(w[1].parse().unwrap());
                        vec![]
                    }
                    "spec" | "guard" => vec![w[0].into()],
                    "loop" => {
                        let n: usize = w[1].parse().unwrap();
                        if w.len() > 3 && w[2] == "iter" {
                            fc(&mut c, &module, &func).loop_iter.insert(n, w[3].to_string());
                        }
                        fc(&mut c, &module, &func).loops.insert(n, String::new());
                        vec!["loop".into(), n.to_string()]
                    }
                    "at" => vec!["at".into(), w[1..].join(" ")],
                    "end" => vec![],
                    _ => panic!("{}:{}: bad directive {}", f.display(), ln + 1, line),
                };
                continue;
            }
            if target.is_empty() {
                continue;
            }
            let dst: &mut String = match target[0].as_str() {
                "root" => &mut c.root,
                "cli_root" => &mut c.cli_root,
                "top" => &mut c.mods.get_mut(&module).unwrap().top,
                "append" => &mut c.mods.get_mut(&module).unwrap().append,
                "impl" => c
                    .mods
                    .get_mut(&module)
                    .unwrap()
                    .impl_extra
                    .entry(target[1].clone())
                    .or_default(),
                "spec" => &mut fc(&mut c, &module, &func).spec,
                "guard" => &mut fc(&mut c, &module, &func).guard,
                "loop" => {
                    let n: usize = target[1].parse().unwrap();
                    fc(&mut c, &module, &func).loops.get_mut(&n).unwrap()
                }
                "at" => {
                    let k = target[1].clone();
                    fc(&mut c, &module, &func).at.entry(k).or_default()
                }
                _ => unreachable!(),
            };
            dst.push_str(line);
            dst.push('\n');
        }
    }
    c
}

fn fc<'a>(c: &'a mut Contracts, m: &str, f: &str) -> &'a mut FnContract {
    c.mods.get_mut(m).unwrap().fns.get_mut(f).unwrap()
}

/// Text edit: replace bytes start..end by text.
#[derive(Debug, Clone)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    order: usize,
}

struct Src {
    text: String,
    lines: Vec<usize>,
}

impl Src {
    fn new(text: String) -> Self {
        let mut lines = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push(i + 1);
            }
        }
        Src { text, lines }
    }
    fn off(&self, lc: LineColumn) -> usize {
        let ls = self.lines[lc.line - 1];
        // column is in chars
        let line = &self.text[ls..];
        line.char_indices().nth(lc.column).map(|(i, _)| ls + i).unwrap_or(self.text.len())
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn of<T: Spanned>(&self, t: &T) -> (usize, usize) {
        let s = t.span();
        (self.off(s.start()), self.off(s.end()))
    }
}

#[derive(Debug, Clone)]
struct FnInfo {
    key: String,
    module: String,
    start: usize,
    end: usize,
    loops: usize,
    kinds: String,
    heads: Vec<String>,
    contracted: bool,
    external: bool,
    issues: Vec<String>,
    norm: String,
    calls: Vec<String>,
    moved: Vec<String>,
    sig: String,
}

struct Ctx<'a> {
    src: &'a Src,
    edits: Vec<Edit>,
    infos: Vec<FnInfo>,
    module: &'a str,
    mc: &'a ModContract,
    external: &'a BTreeSet<String>,
    probe: &'a BTreeSet<String>,
    seen: BTreeSet<String>,
    order: usize,
}

fn compact(ts: TokenStream) -> String {
    ts.to_string().replace(' ', "")
}

fn type_key(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => compact(t.to_token_stream()),
    }
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && compact(a.to_token_stream()).contains("test"))
}

/// Flatten a chain a && b && c
fn flatten<'e>(e: &'e syn::Expr, out: &mut Vec<&'e syn::Expr>) {
    if let syn::Expr::Binary(b) = e {
        if matches!(b.op, syn::BinOp::And(_)) {
            flatten(&b.left, out);
            flatten(&b.right, out);
            return;
        }
    }
    out.push(e);
}

fn has_let(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::Let(_))
}

struct BodyVisitor<'a, 'b> {
    cx: &'a mut Ctx<'b>,
    contract: Option<FnContract>,
    n: usize,
    n_closures: usize,
    calls: BTreeSet<String>,
    issues: Vec<String>,
    used: BTreeSet<String>,
    kinds: Vec<&'static str>,
    heads: Vec<String>,
    stmts: Vec<(String, usize, usize)>,
}

impl<'a, 'b> BodyVisitor<'a, 'b> {
    fn ins(&mut self, pos: usize, text: String) {
        self.cx.edit(pos, pos, text);
    }
    /// Number of this loop; returns (spec text, iter name)
    fn loop_start(&mut self) -> (usize, String, Option<String>) {
        let n = self.n;
        self.n += 1;
        let (spec, it) = match &self.contract {
            Some(c) => (
                c.loops.get(&n).cloned().unwrap_or_default(),
                c.loop_iter.get(&n).cloned(),
            ),
            None => (String::new(), None),
        };
        (n, spec, it)
    }
    fn at(&self, k: &str) -> Option<String> {
        self.contract.as_ref().and_then(|c| c.at.get(k).cloned())
    }
    /// Loops over mutable items are written with indices:
    ///   for (Y, ROW) in R.rows_mut(REG).enumerate()
    ///     => for Y in 0..R.rows_count(REG) { let ROW = R.row_at_mut(REG, Y); .. }
    ///   for (P, Q) in A.iter_mut().zip(B)
    ///     => for zip_i in 0..zip_len(A.len(), B.len()) { let P = &mut A[zip_i]; let Q = &B[zip_i]; .. }
    ///   for P in A.iter_mut()
    ///     => for mut_i in 0..A.len() { let P = &mut A[mut_i]; .. }
    /// where R, REG, A, B are names.
    fn by_index(&self, n: usize, e: &syn::ExprForLoop) -> Option<(String, String)> {
        let name = |x: &syn::Expr| match x {
            syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            _ => None,
        };
        let syn::Expr::MethodCall(outer) = &*e.expr else { return None };
        if outer.method == "iter_mut" && outer.args.is_empty() {
            let a = name(&outer.receiver)?;
            let p = e.pat.to_token_stream();
            return Some((format!("for mut_i{n} in 0..{a}.len()"), format!(" let {p} = &mut {a}[mut_i{n}];")));
        }
        let syn::Pat::Tuple(t) = &*e.pat else { return None };
        if t.elems.len() != 2 {
            return None;
        }
        let (p, q) = (t.elems[0].to_token_stream(), t.elems[1].to_token_stream());
        let syn::Expr::MethodCall(inner) = &*outer.receiver else { return None };
        let r = name(&inner.receiver)?;
        if outer.method == "enumerate" && inner.method == "rows_mut" && inner.args.len() == 1 {
            let reg = name(&inner.args[0])?;
            let syn::Pat::Ident(y) = &t.elems[0] else { return None };
            let y = y.ident.to_string();
            return Some((format!("for {y} in 0..{r}.rows_count({reg})"), format!(" let {q} = {r}.row_at_mut({reg}, {y});")));
        }
        if outer.method == "zip" && outer.args.len() == 1 && inner.method == "iter_mut" && inner.args.is_empty() {
            let b = name(&outer.args[0])?;
            return Some((
                format!("for zip_i{n} in 0..crate::rt::zip_len({r}.len(), {b}.len())"),
                format!(" let {p} = &mut {r}[zip_i{n}]; let {q} = &{b}[zip_i{n}];"),
            ));
        }
        None
    }
    fn body_ats(&mut self, n: usize, body: &syn::Block, whole: (usize, usize)) {
        let (bs, be) = self.cx.src.range(body.brace_token.span.join());
        if let Some(t) = self.at(&format!("loop {n} start")) {
            self.ins(bs + 1, format!("\n{t}"));
        }
        if let Some(t) = self.at(&format!("loop {n} end")) {
            self.ins(be - 1, format!("\n{t}"));
        }
        if let Some(t) = self.at(&format!("loop {n} before")) {
            self.ins(whole.0, format!("\n{t}"));
        }
        if let Some(t) = self.at(&format!("loop {n} after")) {
            self.ins(whole.1, format!("\n{t}"));
        }
    }
}

/// names in the head of a loop
fn names(e: &syn::Expr) -> String {
    fn walk(t: proc_macro2::TokenStream, out: &mut std::collections::BTreeSet<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut out = std::collections::BTreeSet::new();
    walk(quote::ToTokens::to_token_stream(e), &mut out);
    out.into_iter().collect::<Vec<_>>().join(" ")
}

impl<'a, 'b, 'ast> Visit<'ast> for BodyVisitor<'a, 'b> {
    fn visit_stmt(&mut self, st: &'ast syn::Stmt) {
        let keys: Vec<(String, String)> = match &self.contract {
            Some(c) => c
                .at
                .iter()
                .filter(|(k, _)| k.starts_with("before ") || k.starts_with("after "))
                .filter(|(k, _)| !self.used.contains(*k))
                .map(|(k, t)| (k.clone(), t.clone()))
                .collect(),
            None => vec![],
        };
        if !keys.is_empty() {
            let text = compact(st.to_token_stream());
            let (s, e) = self.cx.src.of(st);
            self.stmts.push((text.clone(), s, e));
            for (k, t) in keys {
                let (w, pat) = k.split_once(' ').unwrap();
                let pat = pat.replace(' ', "");
                if text.starts_with(&pat) {
                    let pos = if w == "before" { s } else { e };
                    self.ins(pos, format!("\n{t}\n"));
                    self.used.insert(k.clone());
                }
            }
        }
        syn::visit::visit_stmt(self, st);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        self.kinds.push("for");
        self.heads.push(names(&e.expr));
        let (n, spec, it) = self.loop_start();
        let (bs, _) = self.cx.src.range(e.body.brace_token.span.join());
        let (xs, xe) = self.cx.src.of(&*e.expr);
        let w = self.cx.src.of(e);
        let own = self.contract.as_ref().map(|c| c.own.contains(&n)).unwrap_or(false);
        let by_index = self.by_index(n, e);
        let indexed = by_index.is_some();
        if let Some((head, lets)) = by_index {
            self.ins(bs + 1, lets);
            self.body_ats(n, &e.body, w);
            self.cx.edit(w.0, bs, format!("{head}\n{spec}"));
        } else if own {
            // for P in E { .. }  =>  let mut own_it = E; while let Some(P) = own_it.next() { .. }
            let (ps, pe) = self.cx.src.of(&*e.pat);
            let pat = self.cx.src.text[ps..pe].to_string();
            self.body_ats(n, &e.body, w);
            self.cx.edit(w.0, xs, format!("{{ let mut own_it{n} = "));
            self.cx.edit(xe, bs, format!(";\n{}while let Some({pat}) = own_it{n}.next()\n{spec}", self.at(&format!("loop {n} attr")).unwrap_or_default()));
            self.ins(w.1, "}".into());
        } else {
            if let Some(it) = it {
                self.ins(xs, format!("{it}: "));
            }
            self.ins(bs, format!("\n{spec}"));
            self.body_ats(n, &e.body, w);
        }
        // if C { A; continue; } REST  =>  if C { A; } else { REST }
        for (i, st) in e.body.stmts.iter().enumerate() {
            let syn::Stmt::Expr(syn::Expr::If(f), _) = st else { continue };
            if f.else_branch.is_some() || i + 1 == e.body.stmts.len() {
                continue;
            }
            if let Some(last @ syn::Stmt::Expr(syn::Expr::Continue(c), _)) = f.then_branch.stmts.last() {
                if c.label.is_none() {
                    let (cs, ce) = self.cx.src.of(last);
                    self.cx.edit(cs, ce, String::new());
                    let (_, fe) = self.cx.src.range(f.then_branch.brace_token.span.join());
                    self.ins(fe, " else {".into());
                    let (_, be) = self.cx.src.range(e.body.brace_token.span.join());
                    self.ins(be - 1, "}".into());
                }
            }
        }
        if indexed {
            syn::visit::visit_block(self, &e.body);
        } else {
            syn::visit::visit_expr_for_loop(self, e);
        }
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.kinds.push("loop");
        self.heads.push(String::new());
        let (n, spec, _) = self.loop_start();
        let (bs, _) = self.cx.src.range(e.body.brace_token.span.join());
        self.ins(bs, format!("\n{spec}"));
        let w = self.cx.src.of(e);
        self.body_ats(n, &e.body, w);
        syn::visit::visit_expr_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.kinds.push("while");
        self.heads.push(names(&e.cond));
        let (n, spec, _) = self.loop_start();
        let (bs, be) = self.cx.src.range(e.body.brace_token.span.join());
        let _ = be;
        let mut chain = vec![];
        flatten(&e.cond, &mut chain);
        let w = self.cx.src.of(e);
        if chain.len() > 1 && chain.iter().any(|c| has_let(c)) {
            // while A && let P = E && B { .. }
            //  => while A { let P = E else { break; }; if !(B) { break; } .. }
            // The first element stays as loop condition.
            let mut prev_end = self.cx.src.of(chain[0]).1;
            for (i, c) in chain.iter().enumerate().skip(1) {
                let (cs, ce) = self.cx.src.of(*c);
                let mut sep = String::new();
                if i == 1 {
                    sep.push_str(&format!("\n{spec}{{"));
                    if let Some(t) = self.at(&format!("loop {n} start")) {
                        sep.push_str(&format!("\n{t}"));
                    }
                }
                if has_let(c) {
                    sep.push('\n');
                    self.cx.edit(prev_end, cs, sep);
                    self.ins(ce, " else { break; };".into());
                } else {
                    sep.push_str("\nif !(");
                    self.cx.edit(prev_end, cs, sep);
                    self.ins(ce, ") { break; }".into());
                }
                prev_end = ce;
            }
            self.cx.edit(bs, bs + 1, String::new());
            if let Some(t) = self.at(&format!("loop {n} end")) {
                let (_, be) = self.cx.src.range(e.body.brace_token.span.join());
                self.ins(be - 1, format!("\n{t}"));
            }
            if let Some(t) = self.at(&format!("loop {n} before")) {
                self.ins(w.0, format!("\n{t}"));
            }
            if let Some(t) = self.at(&format!("loop {n} after")) {
                self.ins(w.1, format!("\n{t}"));
            }
        } else {
            self.ins(bs, format!("\n{spec}"));
            self.body_ats(n, &e.body, w);
        }
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        let mut chain = vec![];
        flatten(&e.cond, &mut chain);
        if chain.len() > 1 && chain.iter().any(|c| has_let(c)) {
            let mut prev_end = self.cx.src.of(chain[0]).1;
            let (_, be) = self.cx.src.range(e.then_branch.brace_token.span.join());
            for c in chain.iter().skip(1) {
                let (cs, ce) = self.cx.src.of(*c);
                self.cx.edit(prev_end, cs, " { if ".into());
                prev_end = ce;
            }
            let mut tail = String::new();
            let els = e.else_branch.as_ref().map(|(_, x)| {
                let (xs, xe) = self.cx.src.of(&**x);
                self.cx.src.text[xs..xe].to_string()
            });
            for _ in 1..chain.len() {
                if let Some(x) = &els {
                    write!(tail, " else {x}").unwrap();
                }
                tail.push('}');
            }
            self.ins(be, tail);
        }
        syn::visit::visit_expr_if(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        let n = self.n_closures;
        self.n_closures += 1;
        if let Some(h) = self.contract.as_ref().and_then(|c| c.closures.get(&n)) {
            let name = match e.inputs.first() {
                Some(syn::Pat::Ident(i)) => i.ident.to_string(),
                Some(syn::Pat::Type(t)) => compact(t.pat.to_token_stream()),
                _ => "_".into(),
            };
            let (a, _) = self.cx.src.of(e);
            let (bs, be) = self.cx.src.of(&*e.body);
            let h = h.replace("$0", &name);
            self.cx.edit(a, bs, format!("{h} {{ "));
            self.ins(be, " }".into());
        }
        syn::visit::visit_expr_closure(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        syn::visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        self.calls.insert(e.method.to_string());
        if let Some(n) = self.cx.mc.rename.get(&e.method.to_string()) {
            let (a, b) = self.cx.src.of(&e.method);
            let n = n.clone();
            self.cx.edit(a, b, n);
        }
        if e.method == "into" && e.args.is_empty() {
            let (ra, rb) = self.cx.src.of(&*e.receiver);
            let recv: String = self.cx.src.text[ra..rb].split_whitespace().collect();
            if let Some(t) = self.contract.as_ref().and_then(|c| c.into.get(&recv)) {
                let (_, b) = self.cx.src.of(e);
                let t = format!("{t}::from(");
                self.ins(ra, t);
                self.cx.edit(rb, b, ")".into());
            }
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_item_fn(&mut self, _: &'ast syn::ItemFn) {
        self.issues.push("nested fn".into());
    }
}

/// Replace `self` by `self_` in a token stream (not in paths `self::`)
fn rename_self(cx: &mut Ctx, ts: TokenStream) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => rename_self(cx, g.stream()),
            TokenTree::Ident(id) if id == "self" => {
                let path = matches!((v.get(i + 1), v.get(i + 2)),
                    (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b)))
                    if a.as_char() == ':' && b.as_char() == ':' && a.spacing() == proc_macro2::Spacing::Joint);
                if !path {
                    let (s, e) = cx.src.range(id.span());
                    cx.edit(s, e, "self_".into());
                }
            }
            _ => {}
        }
    }
    let _ = Delimiter::Brace;
}

impl<'a> Ctx<'a> {
    fn edit(&mut self, start: usize, end: usize, text: String) {
        self.order += 1;
        self.edits.push(Edit { start, end, text, order: self.order });
    }

    fn do_fn(&mut self, key: String, vis_start: usize, sig: &syn::Signature, block: &syn::Block, full: (usize, usize)) {
        let mut contract = self.mc.fns.get(&key).cloned();
        let full_key = format!("{}::{}", self.module, key);
        self.seen.insert(key.clone());
        let external = self.external.contains(&full_key);
        let mut issues = vec![];
        let mut moved = vec![];
        let norm = compact(block.to_token_stream());
        // edits in the body may be discarded if external
        let mark = self.edits.len();
        let mut nsig = compact(sig.to_token_stream());
        nsig.retain(|c| c != ',');
        let (bs, be) = self.src.range(block.brace_token.span.join());
        let mut_self = matches!(sig.inputs.first(),
            Some(syn::FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some());
        let (loops, calls, kinds, heads) = {
            let mut bv = BodyVisitor {
                contract: contract.clone(),
                n: 0,
                n_closures: 0,
                calls: BTreeSet::new(),
                issues: vec![],
                used: BTreeSet::new(),
                kinds: vec![],
                heads: vec![],
                stmts: vec![],
                cx: self,
            };
            bv.visit_block(block);
            if let Some(c) = bv.contract.clone() {
                for (k, t) in &c.at {
                    if (k.starts_with("before ") || k.starts_with("after ")) && !bv.used.contains(k) {
                        // the only innermost statement with this text in it
                        let (w, pat) = k.split_once(' ').unwrap();
                        let pat = pat.replace(' ', "");
                        let pat = pat.trim_end_matches(';').trim_end_matches('?');
                        let all: Vec<_> = bv.stmts.iter().filter(|x| x.0.contains(pat)).collect();
                        let inner: Vec<_> = all.iter().filter(|x| !all.iter().any(|y| y != *x && x.1 <= y.1 && y.2 <= x.2)).collect();
                        if let [(text, s, e)] = inner[..] {
                            if w == "before" || text.ends_with(';') || text.ends_with('}') {
                                let pos = if w == "before" { *s } else { *e };
                                // `let x = TEXT` is the same place
                                if !(text.starts_with("let") && text.split_once('=').is_some_and(|x| x.1.starts_with(pat))) {
                                    moved.push(k.clone());
                                }
                                bv.ins(pos, format!("\n{t}\n"));
                                continue;
                            }
                        }
                        bv.issues.push(format!("lost anchor: {k}"));
                    }
                }
            }
            issues.extend(bv.issues.drain(..));
            (bv.n, bv.calls.clone(), bv.kinds.join(" "), bv.heads.clone())
        };
        if mut_self && !external {
            rename_self(self, block.to_token_stream());
        }
        if external {
            // the body is not looked at, and may use what is not there
            self.edits.truncate(mark);
            self.edit(bs + 1, be - 1, " unimplemented!() ".into());
        }
        if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
            if mut_self {
                let (ms, me) = self.src.range(r.mutability.unwrap().span());
                self.edit(ms, me, String::new());
            }
        }
        if let Some(c) = &mut contract {
            let expected = c.n_loops.unwrap_or_else(|| c.loops.keys().max().map(|m| m + 1).unwrap_or(0));
            if expected != loops {
                issues.push(format!("expected {expected} loops, found {loops}"));
            }
        }
        let mut attrs = String::new();
        if external {
            attrs.push_str("#[verifier::external_body] ");
        }
        if let Some(c) = &contract {
            attrs.push_str(&c.attrs);
            if let Some(r) = &c.ret {
                if let syn::ReturnType::Type(_, t) = &sig.output {
                    let (ts, te) = self.src.of(&**t);
                    self.edit(ts, ts, format!("({r}: "));
                    self.edit(te, te, ")".into());
                } else {
                    issues.push("no return type".into());
                }
            }
            self.edit(bs, bs, format!("\n{}", c.spec));
            let mut start = String::new();
            if mut_self && !external {
                start.push_str(" let mut self_ = self;");
            }
            if !external {
                if let Some(t) = c.at.get("start") {
                    start.push_str(&format!("\n{t}"));
                }
                if self.probe.contains(&full_key) {
                    start.push_str("\nproof { assert(false); }\n");
                }
                if let Some(t) = c.at.get("end") {
                    // before the tail expression, or at the end
                    let unit = matches!(sig.output, syn::ReturnType::Default);
                    let (pos, semi) = match block.stmts.last() {
                        Some(syn::Stmt::Expr(_, None)) if unit => (be - 1, ";"),
                        Some(syn::Stmt::Expr(e, None)) => (self.src.of(e).0, ""),
                        _ => (be - 1, ""),
                    };
                    self.edit(pos, pos, format!("{semi}\n{t}\n"));
                }
            }
            if !start.is_empty() {
                // must precede edits at the same position
                self.edits.push(Edit { start: bs + 1, end: bs + 1, text: start, order: 0 });
            }
        } else if mut_self && !external {
            self.edits.push(Edit { start: bs + 1, end: bs + 1, text: " let mut self_ = self;".into(), order: 0 });
        }
        if let Some(c) = contract.as_ref().filter(|c| !c.guard.is_empty() && !external) {
            // edits are text edits, so that the copy is made from the source
            let (ns, ne) = self.src.range(sig.ident.span());
            let mut head = format!("{}{}_guarded{}", &self.src.text[vis_start..ns], sig.ident, &self.src.text[ne..bs]);
            if let (Some(r), syn::ReturnType::Type(_, t)) = (&c.ret, &sig.output) {
                let (ts, te) = self.src.of(&**t);
                let ty = &self.src.text[ts..te];
                let at = head.rfind(ty).unwrap();
                head.replace_range(at..at + ty.len(), &format!("({r}: {ty})"));
            }
            let body = self.src.text[bs..be]
                .replace("debug_assert", "guard_none")
                .replace("assert", "guard")
                .replace("panic!", "guard_panic!")
                .replace("unreachable!", "guard_panic!");
            let copy = format!("\n    {head}\n{}{body}\n", c.guard);
            self.edit(full.1, full.1, copy);
        }
        if !attrs.is_empty() {
            self.edit(vis_start, vis_start, format!("\n{attrs}"));
        }
        self.infos.push(FnInfo {
            key: full_key,
            module: self.module.to_string(),
            start: full.0,
            end: full.1,
            loops,
            kinds,
            heads,
            contracted: contract.is_some(),
            external,
            issues,
            norm,
            calls: calls.into_iter().collect(),
            moved,
            sig: nsig,
        });
    }

    fn attr_start(&self, attrs: &[syn::Attribute], s: usize) -> usize {
        // position after attributes
        attrs.iter().map(|a| self.src.of(a).1).max().map(|e| e.max(s)).unwrap_or(s)
    }

    fn do_item(&mut self, it: &syn::Item) {
        let (attrs, name): (&[syn::Attribute], String) = match it {
            syn::Item::Mod(m) => (&m.attrs, m.ident.to_string()),
            syn::Item::Struct(s) => (&s.attrs, s.ident.to_string()),
            syn::Item::Enum(s) => (&s.attrs, s.ident.to_string()),
            syn::Item::Fn(f) => (&f.attrs, f.sig.ident.to_string()),
            syn::Item::Impl(i) => (&i.attrs, impl_key(i)),
            syn::Item::Use(u) => (&u.attrs, compact(u.to_token_stream())),
            syn::Item::Const(c) => (&c.attrs, c.ident.to_string()),
            syn::Item::Type(c) => (&c.attrs, c.ident.to_string()),
            _ => (&[], String::new()),
        };
        let r = self.src.of(it);
        if is_cfg_test(attrs) || self.mc.drop.contains(&name) {
            self.edit(r.0, r.1, String::new());
            return;
        }
        if let Some(a) = self.mc.item_attrs.get(&name) {
            self.edit(r.0, r.0, format!("{a}\n"));
        }
        // visibility is widened so that contracts may mention private fields
        let widen = |cx: &mut Self, vis: &syn::Visibility, pos: Span| {
            if matches!(vis, syn::Visibility::Inherited) {
                let (s, _) = cx.src.range(pos);
                cx.edit(s, s, "pub ".into());
            } else if let syn::Visibility::Restricted(v) = vis {
                let (s, e) = cx.src.of(v);
                cx.edit(s, e, "pub".into());
            }
        };
        match it {
            syn::Item::Struct(x) => {
                widen(self, &x.vis, x.struct_token.span());
                for f in &x.fields {
                    let sp = match &f.ident {
                        Some(i) => i.span(),
                        None => f.ty.span(),
                    };
                    widen(self, &f.vis, sp);
                }
            }
            syn::Item::Enum(x) => widen(self, &x.vis, x.enum_token.span()),
            syn::Item::Type(x) => widen(self, &x.vis, x.type_token.span()),
            syn::Item::Const(x) => widen(self, &x.vis, x.const_token.span()),
            syn::Item::Use(u) => {
                // the model of the pix crate is a module here
                if let syn::UseTree::Path(p) = &u.tree {
                    if p.ident == "pix" {
                        let (s, _) = self.src.of(&u.tree);
                        self.edit(s, s, "crate::".into());
                    }
                }
            }
            syn::Item::Fn(f) => {
                let vs = self.attr_start(&f.attrs, r.0);
                self.do_fn(f.sig.ident.to_string(), vs, &f.sig, &f.block, r);
            }
            syn::Item::Impl(i) => {
                let key = impl_key(i);
                if let Some(x) = self.mc.impl_extra.get(&key) {
                    let (_, be) = self.src.range(i.brace_token.span.join());
                    self.edit(be - 1, be - 1, format!("\n{x}"));
                    self.seen.insert(format!("impl {key}"));
                }
                for ii in &i.items {
                    if let (syn::ImplItem::Const(c), None) = (ii, &i.trait_) {
                        widen(self, &c.vis, c.const_token.span());
                    }
                    if let syn::ImplItem::Fn(f) = ii {
                        let fr = self.src.of(f);
                        let fkey = format!("{}::{}", key, f.sig.ident);
                        if is_cfg_test(&f.attrs) {
                            self.edit(fr.0, fr.1, String::new());
                            continue;
                        }
                        let vs = self.attr_start(&f.attrs, fr.0);
                        self.do_fn(fkey, vs, &f.sig, &f.block, fr);
                    }
                }
            }
            _ => {}
        }
    }
}

fn impl_key(i: &syn::ItemImpl) -> String {
    let t = type_key(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => {
            let s = p.segments.last().unwrap();
            format!("{} as {}", t, compact(s.to_token_stream()))
        }
        None => t,
    }
}

/// Source level rewriting before contracts are inserted:
/// derives of Default, PartialEq and Clone (of types which are not Copy) are
/// written out, and `impl Iterator for X` becomes an inherent `impl X`.
/// Byte strings are written as references to arrays, in patterns as guards:
/// the verifier reads byte strings as unknown values.
struct ByteStrings<'a> {
    src: &'a Src,
    edits: Vec<(usize, usize, String)>,
}

fn byte_array(l: &syn::LitByteStr) -> String {
    let v: Vec<String> = l.value().iter().map(|b| format!("{b}u8")).collect();
    format!("(&[{}])", v.join(", "))
}

fn byte_pattern(p: &syn::Pat) -> Option<Vec<String>> {
    match p {
        syn::Pat::Lit(l) => match &l.lit {
            syn::Lit::ByteStr(b) => Some(vec![byte_array(b)]),
            _ => None,
        },
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(byte_pattern(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}

impl<'a, 'ast> Visit<'ast> for ByteStrings<'a> {
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if let (Some(v), None) = (byte_pattern(&a.pat), &a.guard) {
            let (s, e) = self.src.of(&a.pat);
            let g: Vec<String> = v.iter().map(|x| format!("byte_str == {x}")).collect();
            self.edits.push((s, e, format!("byte_str if {}", g.join(" || "))));
        }
        syn::visit::visit_arm(self, a);
    }
    fn visit_pat(&mut self, _: &'ast syn::Pat) {}
    fn visit_expr_lit(&mut self, e: &'ast syn::ExprLit) {
        if let syn::Lit::ByteStr(b) = &e.lit {
            let (s, t) = self.src.of(e);
            self.edits.push((s, t, byte_array(b)));
        }
    }
    fn visit_item_mod(&mut self, _: &'ast syn::ItemMod) {}
}

fn preprocess(text: String) -> Result<String, String> {
    let src = Src::new(text);
    let file = syn::parse_file(&src.text).map_err(|e| e.to_string())?;
    let mut bs = ByteStrings { src: &src, edits: vec![] };
    bs.visit_file(&file);
    let mut edits: Vec<(usize, usize, String)> = bs.edits;
    for it in &file.items {
        let (attrs, ident, generics) = match it {
            syn::Item::Struct(s) => (&s.attrs, &s.ident, &s.generics),
            syn::Item::Enum(s) => (&s.attrs, &s.ident, &s.generics),
            syn::Item::Impl(i) => {
                if let Some((_, p, _)) = &i.trait_ {
                    if p.is_ident("Iterator") || p.is_ident("IntoIterator") || p.is_ident("Drop") {
                        let (ps, _) = src.of(p);
                        let (ts, _) = src.of(&*i.self_ty);
                        edits.push((ps, ts, String::new()));
                        let mut types = vec![];
                        for x in &i.items {
                            if let syn::ImplItem::Type(t) = x {
                                let (a, b) = src.of(t);
                                edits.push((a, b, String::new()));
                                let (ys, ye) = src.of(&t.ty);
                                types.push((format!("Self::{}", t.ident), src.text[ys..ye].to_string()));
                            }
                        }
                        // longer names first: Self::Item is part of no other name
                        types.sort_by_key(|t| std::cmp::Reverse(t.0.len()));
                        for x in &i.items {
                            if let syn::ImplItem::Fn(f) = x {
                                if let syn::ReturnType::Type(_, t) = &f.sig.output {
                                    let (a, b) = src.of(&**t);
                                    let mut ty = src.text[a..b].to_string();
                                    for (n, y) in &types {
                                        ty = ty.replace(n, y);
                                    }
                                    edits.push((a, b, ty));
                                }
                                let (a, _) = src.of(&f.sig);
                                edits.push((a, a, "pub ".into()));
                            }
                        }
                    }
                }
                continue;
            }
            _ => continue,
        };
        if !generics.params.is_empty() {
            continue;
        }
        let name = ident.to_string();
        for a in attrs.iter() {
            if !a.path().is_ident("derive") {
                continue;
            }
            let mut list: Vec<String> = vec![];
            let _ = a.parse_nested_meta(|m| {
                list.push(m.path.get_ident().map(|i| i.to_string()).unwrap_or_default());
                Ok(())
            });
            let copy = list.iter().any(|l| l == "Copy");
            let mut add = String::new();
            let keep: Vec<String> = list
                .iter()
                .filter(|l| match l.as_str() {
                    "Default" => {
                        add.push_str(&derive_default(it, &name));
                        false
                    }
                    "PartialEq" => {
                        add.push_str(&derive_eq(it, &name));
                        false
                    }
                    "Clone" if !copy => {
                        add.push_str(&derive_clone(it, &name));
                        false
                    }
                    _ => true,
                })
                .cloned()
                .collect();
            if !add.is_empty() {
                let (s, e) = src.of(a);
                let t = if keep.is_empty() { String::new() } else { format!("#[derive({})]", keep.join(", ")) };
                edits.push((s, e, t));
                let (_, e) = src.of(it);
                edits.push((e, e, add));
            }
        }
        if let syn::Item::Enum(x) = it {
            for v in &x.variants {
                for a in v.attrs.iter().filter(|a| a.path().is_ident("default")) {
                    let (s, e) = src.of(a);
                    edits.push((s, e, String::new()));
                }
            }
        }
    }
    edits.sort();
    let mut out = String::new();
    let mut pos = 0;
    for (s, e, t) in edits {
        if s < pos {
            continue;
        }
        out.push_str(&src.text[pos..s]);
        out.push_str(&t);
        pos = e;
    }
    out.push_str(&src.text[pos..]);
    Ok(out)
}

/// Rewriting of the command, before `preprocess`:
/// - `write!(OUT, ..)`, `writeln!(OUT, ..)` and `format!(..)` become calls which add
///   one character or one formatted value each;
/// - `E as f32`, float literals and divisions of these become model functions;
/// - string literals in patterns become guards;
/// - `use` items and attributes of structs are dropped (the module names what it uses).
struct Cli<'a> {
    src: &'a Src,
    edits: Vec<(usize, usize, String)>,
}

/// Part of a format string: text, or argument name with its format
enum Part {
    Text(String),
    Arg(String, String),
}

fn format_parts(f: &str) -> Option<Vec<Part>> {
    let mut v = vec![];
    let mut text = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                text.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                text.push('}');
            }
            '{' => {
                let mut a = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => a.push(c),
                    }
                }
                v.push(Part::Text(std::mem::take(&mut text)));
                let (n, s) = a.split_once(':').unwrap_or((&a, ""));
                v.push(Part::Arg(n.trim().to_string(), s.trim_end().to_string()));
            }
            '}' => return None,
            c => text.push(c),
        }
    }
    v.push(Part::Text(text));
    Some(v)
}

impl<'a> Cli<'a> {
    /// source text of a node with its own rewriting
    fn text<T: Spanned>(&self, t: &T, e: &syn::Expr) -> String {
        let (a, b) = self.src.of(t);
        let mut v = Cli { src: self.src, edits: vec![] };
        v.visit_expr(e);
        apply(&self.src.text, a, b, v.edits)
    }
    fn calls(&self, out: &str, fmt: &str, args: &[(Option<String>, String)], line: bool) -> Option<String> {
        let mut s = String::new();
        let mut n = 0;
        let count = |a: &str| -> Option<String> {
            // number, or name followed by $
            if a.is_empty() {
                return Some("0".into());
            }
            if a.chars().all(|c| c.is_ascii_digit()) {
                return Some(a.to_string());
            }
            let k = a.strip_suffix('$')?;
            match args.iter().find(|(x, _)| x.as_deref() == Some(k)) {
                Some((_, e)) => Some(format!("({e})")),
                None if k.chars().all(|c| c.is_ascii_digit()) => Some(format!("({})", args.get(k.parse::<usize>().ok()?)?.1)),
                None => Some(k.to_string()),
            }
        };
        for p in format_parts(fmt)? {
            match p {
                Part::Text(t) => {
                    for c in t.chars() {
                        write!(s, "{out}.put_char({c:?}); ").unwrap();
                    }
                }
                Part::Arg(name, spec) => {
                    let e = if name.is_empty() {
                        n += 1;
                        args.get(n - 1).filter(|a| a.0.is_none())?.1.clone()
                    } else if name.chars().all(|c| c.is_ascii_digit()) {
                        args.get(name.parse::<usize>().ok()?)?.1.clone()
                    } else {
                        match args.iter().find(|(x, _)| x.as_deref() == Some(&name)) {
                            Some((_, e)) => e.clone(),
                            None => name,
                        }
                    };
                    let mut rest = spec.as_str();
                    let mut align = 0;
                    for (c, a) in [('<', 1), ('>', 2), ('^', 3)] {
                        if let Some(r) = rest.strip_prefix(c) {
                            (rest, align) = (r, a);
                            break;
                        }
                    }
                    let (rest, debug) = match rest.strip_suffix('?') {
                        Some(r) => (r, true),
                        None => (rest, false),
                    };
                    if rest.starts_with('0') || rest.starts_with(['+', '-', '#']) {
                        return None;
                    }
                    let (w, prec) = match rest.split_once('.') {
                        Some((w, p)) => (count(w)?, format!("Some({})", count(p)?)),
                        None => (count(rest)?, "None".to_string()),
                    };
                    write!(s, "{out}.put_arg(&({e}), {align}, {w}, {prec}, {debug}); ").unwrap();
                }
            }
        }
        if line {
            write!(s, "{out}.put_char('\\n'); ").unwrap();
        }
        Some(s)
    }
    fn mac(&mut self, m: &syn::Macro) {
        use syn::parse::Parser;
        let name = m.path.segments.last().unwrap().ident.to_string();
        if !["write", "writeln", "format"].contains(&name.as_str()) {
            return;
        }
        let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let Ok(list) = p.parse2(m.tokens.clone()) else { return };
        let mut it = list.iter();
        let out = match name.as_str() {
            "format" => "fmt_text".to_string(),
            _ => match it.next() {
                Some(e) => format!("({})", self.text(e, e)),
                None => return,
            },
        };
        let fmt = match it.next() {
            Some(syn::Expr::Lit(l)) => match &l.lit {
                syn::Lit::Str(s) => s.value(),
                _ => return,
            },
            None => String::new(),
            _ => return,
        };
        let mut args = vec![];
        for e in it {
            match e {
                syn::Expr::Assign(a) => args.push((Some(compact(a.left.to_token_stream())), self.text(&*a.right, &a.right))),
                e => args.push((None, self.text(e, e))),
            }
        }
        let Some(calls) = self.calls(&out, &fmt, &args, name == "writeln") else { return };
        let (a, b) = self.src.of(m);
        let t = if name == "format" {
            format!("({{ let mut fmt_text = crate::climodel::String::new_text(); {calls}fmt_text }})")
        } else {
            format!("({{ {calls}{out}.put_end() }})")
        };
        self.edits.push((a, b, t));
    }
}

fn is_float(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Cast(c) => matches!(compact(c.ty.to_token_stream()).as_str(), "f32"),
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Float(_) => true,
            syn::Lit::Int(i) => i.suffix() == "f32",
            _ => false,
        },
        syn::Expr::Paren(p) => is_float(&p.expr),
        syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Div(_)) && (is_float(&b.left) || is_float(&b.right)),
        _ => false,
    }
}

fn str_pattern(p: &syn::Pat) -> Option<Vec<String>> {
    match p {
        syn::Pat::Lit(l) => match &l.lit {
            syn::Lit::Str(_) => Some(vec![l.to_token_stream().to_string()]),
            _ => None,
        },
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_pattern(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}

impl<'a, 'ast> Visit<'ast> for Cli<'a> {
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.mac(m);
    }
    fn visit_item_use(&mut self, u: &'ast syn::ItemUse) {
        let (a, b) = self.src.of(u);
        self.edits.push((a, b, String::new()));
    }
    fn visit_attribute(&mut self, at: &'ast syn::Attribute) {
        if at.path().is_ident("derive") || at.path().is_ident("argh") {
            let (a, b) = self.src.of(at);
            self.edits.push((a, b, String::new()));
        }
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if let (Some(v), None) = (str_pattern(&a.pat), &a.guard) {
            let (s, e) = self.src.of(&a.pat);
            let g: Vec<String> = v.iter().map(|x| format!("crate::climodel::str_is(str_lit, {x})")).collect();
            self.edits.push((s, e, format!("str_lit if {}", g.join(" || "))));
        }
        syn::visit::visit_arm(self, a);
    }
    fn visit_pat(&mut self, _: &'ast syn::Pat) {}
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if is_float(e) {
            let (a, b) = self.src.of(e);
            let t = match e {
                syn::Expr::Cast(c) => format!("crate::climodel::f32_of({})", self.text(&*c.expr, &c.expr)),
                syn::Expr::Lit(l) => match &l.lit {
                    syn::Lit::Float(f) => format!("crate::climodel::f32_lit(\"{}\")", f.base10_digits()),
                    syn::Lit::Int(i) => format!("crate::climodel::f32_of({}u16)", i.base10_digits()),
                    _ => return,
                },
                syn::Expr::Binary(x) => {
                    format!("crate::climodel::f32_div({}, {})", self.text(&*x.left, &x.left), self.text(&*x.right, &x.right))
                }
                syn::Expr::Paren(p) => self.text(&*p.expr, &p.expr),
                _ => return,
            };
            self.edits.push((a, b, t));
            return;
        }
        syn::visit::visit_expr(self, e);
    }
}

fn apply(text: &str, a: usize, b: usize, mut edits: Vec<(usize, usize, String)>) -> String {
    edits.sort();
    let mut out = String::new();
    let mut pos = a;
    for (s, e, t) in edits {
        if s < pos {
            continue;
        }
        out.push_str(&text[pos..s]);
        out.push_str(&t);
        pos = e;
    }
    out.push_str(&text[pos..b]);
    out
}

fn preprocess_cli(text: String) -> Result<String, String> {
    let src = Src::new(text);
    let file = syn::parse_file(&src.text).map_err(|e| e.to_string())?;
    let mut v = Cli { src: &src, edits: vec![] };
    for it in &file.items {
        v.visit_item(it);
    }
    let n = src.text.len();
    let edits = std::mem::take(&mut v.edits);
    Ok(apply(&src.text, 0, n, edits))
}

fn field_names(f: &syn::Fields) -> Vec<String> {
    f.iter().enumerate().map(|(i, f)| f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string())).collect()
}

fn derive_default(it: &syn::Item, name: &str) -> String {
    let body = match it {
        syn::Item::Struct(s) => {
            let f: Vec<String> = s
                .fields
                .iter()
                .zip(field_names(&s.fields))
                .map(|(f, n)| {
                    let t = f.ty.to_token_stream();
                    format!("{n}: <{t} as Default>::default()")
                })
                .collect();
            format!("{name} {{ {} }}", f.join(", "))
        }
        syn::Item::Enum(e) => {
            let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")));
            format!("{name}::{}", v.map(|v| v.ident.to_string()).unwrap_or_default())
        }
        _ => String::new(),
    };
    format!("\nimpl Default for {name} {{\n    fn default() -> Self {{\n        {body}\n    }}\n}}\n")
}

fn derive_clone(it: &syn::Item, name: &str) -> String {
    let body = match it {
        syn::Item::Struct(s) => {
            let f: Vec<String> = field_names(&s.fields).iter().map(|n| format!("{n}: self.{n}.clone()")).collect();
            format!("{name} {{ {} }}", f.join(", "))
        }
        syn::Item::Enum(e) => {
            let arms: Vec<String> = e
                .variants
                .iter()
                .map(|v| {
                    let n = v.fields.len();
                    let id = &v.ident;
                    if n == 0 {
                        format!("{name}::{id} => {name}::{id}")
                    } else {
                        let a: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
                        let b: Vec<String> = (0..n).map(|i| format!("a{i}.clone()")).collect();
                        format!("{name}::{id}({}) => {name}::{id}({})", a.join(", "), b.join(", "))
                    }
                })
                .collect();
            format!("match self {{ {} }}", arms.join(", "))
        }
        _ => String::new(),
    };
    format!("\nimpl Clone for {name} {{\n    fn clone(&self) -> Self {{\n        {body}\n    }}\n}}\n")
}

fn derive_eq(it: &syn::Item, name: &str) -> String {
    let body = match it {
        syn::Item::Struct(s) => {
            let f: Vec<String> = field_names(&s.fields).iter().map(|n| format!("self.{n} == other.{n}")).collect();
            if f.is_empty() { "true".to_string() } else { f.join(" && ") }
        }
        syn::Item::Enum(e) => {
            let mut arms: Vec<String> = e
                .variants
                .iter()
                .map(|v| {
                    let n = v.fields.len();
                    let id = &v.ident;
                    if n == 0 {
                        format!("({name}::{id}, {name}::{id}) => true")
                    } else {
                        let a: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
                        let b: Vec<String> = (0..n).map(|i| format!("b{i}")).collect();
                        let c: Vec<String> = (0..n).map(|i| format!("*a{i} == *b{i}")).collect();
                        format!("({name}::{id}({}), {name}::{id}({})) => {}", a.join(", "), b.join(", "), c.join(" && "))
                    }
                })
                .collect();
            if e.variants.len() > 1 {
                arms.push("_ => false".into());
            }
            format!("match (self, other) {{ {} }}", arms.join(", "))
        }
        _ => String::new(),
    };
    format!("\nimpl PartialEq for {name} {{\n    fn eq(&self, other: &Self) -> bool {{\n        {body}\n    }}\n}}\n")
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (srcd, cd, outf) = (&args[1], &args[2], &args[3]);
    let mut external = BTreeSet::new();
    let mut probe = BTreeSet::new();
    let mut only: Vec<String> = MODULES.iter().map(|m| m.to_string()).collect();
    let mut cli = None;
    let mut i = 4;
    while i < args.len() {
        match args[i].as_str() {
            "--cli" => {
                cli = Some(args[i + 1].clone());
                true
            }
            "--external" => external.insert(args[i + 1].clone()),
            "--probe" => probe.insert(args[i + 1].clone()),
            "--only" => {
                only = args[i + 1].split(',').map(|m| m.to_string()).collect();
                true
            }
            a => panic!("bad argument {a}"),
        };
        i += 2;
    }
    let contracts = parse_contracts(cd);
    let empty = ModContract::default();
    let mut out = String::new();
    out.push_str("// GENERATED by /verif/extract from the sources in gift/src; do not edit\n");
    out.push_str(&contracts.root);
    if cli.is_some() {
        out.push_str(&contracts.cli_root);
    }
    let mut infos_out = vec![];
    let mut missing = vec![];
    for m in MODULES {
        if !only.iter().any(|o| o == m) {
            continue;
        }
        let path = match (m == CLI, &cli) {
            (true, Some(p)) => p.clone(),
            (true, None) => continue,
            _ => format!("{srcd}/{m}.rs"),
        };
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("extract: {path}: {e}");
                std::process::exit(3);
            }
        };
        let text = if m == CLI { preprocess_cli(text) } else { Ok(text) };
        let text = match text.and_then(preprocess) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("extract: {path}: {e}");
                std::process::exit(3);
            }
        };
        let src = Src::new(text);
        let file = match syn::parse_file(&src.text) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("extract: {path}: {e}");
                std::process::exit(3);
            }
        };
        let mc = contracts.mods.get(m).unwrap_or(&empty);
        let mut cx = Ctx {
            src: &src,
            edits: vec![],
            infos: vec![],
            module: m,
            mc,
            external: &external,
            probe: &probe,
            seen: BTreeSet::new(),
            order: 0,
        };
        // inner docs / attributes of the module
        for a in &file.attrs {
            let (s, e) = src.of(a);
            cx.edit(s, e, String::new());
        }
        for it in &file.items {
            cx.do_item(it);
        }
        for k in mc.fns.keys() {
            if !cx.seen.contains(k) {
                missing.push(format!("{m}::{k}"));
            }
        }
        // apply edits, tracking positions of functions
        let mut edits = cx.edits.clone();
        edits.sort_by_key(|e| (e.start, e.end, e.order));
        // drop edits nested inside a deletion/replacement
        let mut text = String::new();
        let mut pos = 0;
        let mut marks: Vec<(usize, usize)> = vec![]; // (src offset, out offset)
        for e in &edits {
            if e.start < pos {
                continue;
            }
            marks.push((pos, text.len()));
            text.push_str(&src.text[pos..e.start]);
            text.push_str(&e.text);
            pos = e.end;
        }
        marks.push((pos, text.len()));
        text.push_str(&src.text[pos..]);
        let map = |o: usize| -> usize {
            let mut best = (0, 0);
            for &(s, t) in &marks {
                if s <= o {
                    best = (s, t);
                }
            }
            best.1 + (o - best.0)
        };
        out.push_str(&format!("pub mod {m} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n{}\nverus! {{\n", mc.top));
        let base = out.len();
        out.push_str(&text);
        let infos = cx.infos.clone();
        for f in infos {
            let (s, e) = (base + map(f.start), base + map(f.end));
            infos_out.push((f, s, e));
        }
        out.push_str("\n// ---- specification\n");
        out.push_str(&mc.append);
        out.push_str("\n} // verus!\n}\n");
    }
    if only.iter().any(|o| o == "private") {
        out.push_str("pub use crate::error::{Error, Result};\npub use crate::private::{Decoder, Encoder, Step};\n");
    }
    out.push_str("fn main() {}\n");
    std::fs::write(outf, &out).unwrap();
    let mut lines = vec![0usize];
    for (i, b) in out.bytes().enumerate() {
        if b == b'\n' {
            lines.push(i + 1);
        }
    }
    let line_of = |o: usize| lines.partition_point(|&l| l <= o);
    let mut j = String::from("{\"functions\":[\n");
    for (n, (f, s, e)) in infos_out.iter().enumerate() {
        if n > 0 {
            j.push_str(",\n");
        }
        write!(
            j,
            "{{\"key\":{},\"module\":{},\"start\":{},\"end\":{},\"loops\":{},\"kinds\":{},\"heads\":[{}],\"contract\":{},\"external\":{},\"hash\":\"{:016x}\",\"sig\":{},\"calls\":[{}],\"moved\":[{}],\"issues\":[{}]}}",
            jstr(&f.key),
            jstr(&f.module),
            line_of(*s),
            line_of(*e),
            f.loops,
            jstr(&f.kinds),
            f.heads.iter().map(|h| jstr(h)).collect::<Vec<_>>().join(","),
            f.contracted,
            f.external,
            fnv(&f.norm),
            jstr(&f.sig),
            f.calls.iter().map(|c| jstr(c)).collect::<Vec<_>>().join(","),
            f.moved.iter().map(|c| jstr(c)).collect::<Vec<_>>().join(","),
            f.issues.iter().map(|c| jstr(c)).collect::<Vec<_>>().join(","),
        )
        .unwrap();
    }
    j.push_str("\n],\"missing\":[");
    j.push_str(&missing.iter().map(|m| jstr(m)).collect::<Vec<_>>().join(","));
    j.push_str("]}\n");
    std::fs::write(format!("{outf}.map.json"), j).unwrap();
}

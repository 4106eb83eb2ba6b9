//! Lists small changes to Rust files: for each one a line "file\tstart\tend\treplacement\tdescription" (byte offsets).
//! Used to look for changes the checks miss; no check uses it.
use proc_macro2::Span;
use syn::{spanned::Spanned, visit::{self, Visit}};

struct M<'a> { file: &'a str, text: &'a str, lines: Vec<usize>, func: String }

impl<'a> M<'a> {
    fn off(&self, p: proc_macro2::LineColumn) -> usize {
        let start = self.lines[p.line - 1];
        start + self.text[start..].char_indices().nth(p.column).map_or(self.text.len() - start, |x| x.0)
    }
    fn range(&self, s: Span) -> (usize, usize) { (self.off(s.start()), self.off(s.end())) }
    fn src(&self, s: Span) -> &str { let (a, b) = self.range(s); &self.text[a..b] }
    fn emit(&self, s: Span, new: &str, what: &str) {
        let (a, b) = self.range(s);
        let esc = |t: &str| t.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t");
        println!("{}\t{a}\t{b}\t{}\t{}:{} {what}", self.file, esc(new), self.func, s.start().line);
    }
}

fn test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let t = format!("{:?}", a.meta); t.contains("\"test\"") || t.contains("Ident(test)") || t.contains("sym: test") })
}

impl<'a, 'ast> Visit<'ast> for M<'a> {
    fn visit_item_mod(&mut self, i: &'ast syn::ItemMod) { if !test(&i.attrs) { visit::visit_item_mod(self, i) } }
    fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
        if test(&i.attrs) { return }
        let old = std::mem::replace(&mut self.func, i.sig.ident.to_string());
        self.body(&i.sig, &i.block);
        visit::visit_item_fn(self, i);
        self.func = old;
    }
    fn visit_impl_item_fn(&mut self, i: &'ast syn::ImplItemFn) {
        let old = std::mem::replace(&mut self.func, i.sig.ident.to_string());
        self.body(&i.sig, &i.block);
        visit::visit_impl_item_fn(self, i);
        self.func = old;
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        let new: &[&str] = match e.op {
            Eq(_) => &["!="], Ne(_) => &["=="], Lt(_) => &["<=", ">"], Le(_) => &["<", ">"], Gt(_) => &[">=", "<"], Ge(_) => &[">", "<"],
            And(_) => &["||"], Or(_) => &["&&"], Add(_) => &["-"], Sub(_) => &["+"], Mul(_) => &["+"], AddAssign(_) => &["-=", "="], SubAssign(_) => &["+="], _ => &[],
        };
        for n in new { self.emit(e.op.span(), n, &format!("{} -> {n}", self.src(e.op.span()))) }
        if matches!(e.op, And(_) | Or(_)) {
            self.emit(e.span(), self.src(e.left.span()), "only the left operand");
            self.emit(e.span(), self.src(e.right.span()), "only the right operand");
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_lit(&mut self, e: &'ast syn::ExprLit) {
        match &e.lit {
            syn::Lit::Bool(b) => self.emit(e.span(), if b.value { "false" } else { "true" }, "flip"),
            syn::Lit::Int(i) => if let Ok(v) = i.base10_parse::<u128>() {
                self.emit(e.span(), &format!("{}{}", v + 1, i.suffix()), "plus one");
                if v > 0 { self.emit(e.span(), &format!("{}{}", v - 1, i.suffix()), "minus one") }
            },
            _ => {}
        }
    }
    fn visit_expr_unary(&mut self, e: &'ast syn::ExprUnary) {
        if matches!(e.op, syn::UnOp::Not(_)) { self.emit(e.span(), self.src(e.expr.span()), "drop !") }
        visit::visit_expr_unary(self, e);
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        if !matches!(*e.cond, syn::Expr::Let(_)) {
            self.emit(e.cond.span(), "true", "condition true");
            self.emit(e.cond.span(), "false", "condition false");
        } else { self.emit(e.cond.span(), "false", "if let never") }
        visit::visit_expr_if(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.emit(e.cond.span(), "false", "while never");
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
        for (i, a) in e.arms.iter().enumerate() {
            if let Some((_, g)) = &a.guard { self.emit(g.span(), "true", "guard true"); self.emit(g.span(), "false", "guard false"); }
            // the body of another arm
            for (j, b) in e.arms.iter().enumerate() {
                if i != j && self.src(a.body.span()) != self.src(b.body.span()) {
                    self.emit(a.body.span(), self.src(b.body.span()), &format!("body of arm {j}"));
                }
            }
            // the arm is gone
            if i + 1 < e.arms.len() { self.emit(a.span(), "", "arm removed") }
        }
        visit::visit_expr_match(self, e);
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                syn::Stmt::Expr(_, Some(_)) => self.emit(s.span(), "", &format!("removed: {}", self.src(s.span()).lines().next().unwrap())),
                syn::Stmt::Expr(e @ (syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_)), None) => self.emit(e.span(), "", &format!("removed: {}", self.src(s.span()).lines().next().unwrap())),
                syn::Stmt::Expr(..) | syn::Stmt::Local(_) => {}
                _ => {}
            }
            // two statements exchanged
            if let Some(t) = b.stmts.get(i + 1) {
                if matches!(s, syn::Stmt::Expr(_, Some(_)) | syn::Stmt::Local(_)) && matches!(t, syn::Stmt::Expr(_, Some(_)) | syn::Stmt::Local(_)) {
                    let (x, _) = self.range(s.span()); let (_, y) = self.range(t.span());
                    let esc = |t: &str| t.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t");
                    println!("{}\t{x}\t{y}\t{}\t{}:{} exchanged with the next", self.file, esc(&format!("{} {}", self.src(t.span()), self.src(s.span()))), self.func, s.span().start().line);
                }
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let name = e.method.to_string();
        let new: &[&str] = match name.as_str() {
            "push_back" => &["push_front"], "push_front" => &["push_back"], "pop_front" => &["pop_back"], "take" => &["clone"], "min" => &["max"], "max" => &["min"],
            "is_some" => &["is_none"], "is_none" => &["is_some"], "is_ok" => &["is_err"], "is_err" => &["is_ok"], "saturating_add" | "saturating_sub" => &["wrapping_add"],
            "any" => &["all"], "all" => &["any"], "first" => &["last"], "last" => &["first"], "split_to" => &["split_off"], "starts_with" => &["ends_with"],
            _ => &[],
        };
        for n in new { self.emit(e.method.span(), n, &format!("{name} -> {n}")) }
        if name == "is_empty" { self.emit(e.span(), &format!("!{}", self.src(e.span())), "negated is_empty") }
        if name == "rev" || name == "filter" || name == "skip" { self.emit(e.span(), self.src(e.receiver.span()), &format!("without {name}")) }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if self.src(e.func.span()) == "Some" { self.emit(e.span(), "None", "Some -> None") }
        if e.args.len() == 2 {
            let (a, b) = (self.src(e.args[0].span()), self.src(e.args[1].span()));
            self.emit(e.span(), &format!("{}({b}, {a})", self.src(e.func.span())), "arguments exchanged");
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) { visit::visit_expr_path(self, e) }
    fn visit_expr_struct(&mut self, e: &'ast syn::ExprStruct) {
        for f in &e.fields { for g in &e.fields {
            if self.src(f.member.span()) < self.src(g.member.span()) && self.src(f.expr.span()) != self.src(g.expr.span()) {
                // values of two fields exchanged: kept if it compiles
                let whole = self.src(e.span()).to_string();
                let (a, _) = self.range(e.span());
                let ((f0, f1), (g0, g1)) = (self.range(f.expr.span()), self.range(g.expr.span()));
                let ((p0, p1), (q0, q1)) = if f0 < g0 { ((f0, f1), (g0, g1)) } else { ((g0, g1), (f0, f1)) };
                if f.colon_token.is_some() && g.colon_token.is_some() {
                    let new = format!("{}{}{}{}{}", &whole[..p0 - a], &self.text[q0..q1], &whole[p1 - a..q0 - a], &self.text[p0..p1], &whole[q1 - a..]);
                    self.emit(e.span(), &new, "fields exchanged");
                }
            }
        } }
        visit::visit_expr_struct(self, e);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        // select! and the like: arms are not parsed; nothing
        let _ = m;
    }
}

impl<'a> M<'a> {
    fn body(&self, sig: &syn::Signature, block: &syn::Block) {
        if block.stmts.is_empty() { return }
        match &sig.output {
            syn::ReturnType::Default => self.emit(block.span(), "{}", "empty body"),
            syn::ReturnType::Type(_, t) => {
                let t = self.src(t.span());
                for (p, v) in [("Result<()", "Ok(())"), ("bool", "true"), ("bool", "false"), ("Option<", "None"), ("u16", "0"), ("String", "String::new()")] {
                    if t.starts_with(p) { self.emit(block.span(), &format!("{{ {v} }}"), &format!("body {v}")) }
                }
            }
        }
    }
}

fn main() {
    for f in std::env::args().skip(1) {
        let text = std::fs::read_to_string(&f).unwrap();
        let ast = syn::parse_file(&text).unwrap();
        let lines = std::iter::once(0).chain(text.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1)).collect();
        M { file: &f, text: &text, lines, func: String::new() }.visit_file(&ast);
    }
}

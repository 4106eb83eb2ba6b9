//! Writes a tree as TOML in a randomly chosen notation.
use pbt::Src;

#[derive(Clone, Debug)]
pub enum V { S(String), I(i64), F(&'static str), B(bool), A(Vec<V>), T(Vec<(String, V)>) }
impl V {
    pub fn get(&self, k: &str) -> &V { match self { V::T(t) => &t.iter().find(|x| x.0 == k).unwrap().1, _ => panic!("no table") } }
    pub fn get_mut(&mut self, k: &str) -> &mut V { match self { V::T(t) => &mut t.iter_mut().find(|x| x.0 == k).unwrap().1, _ => panic!("no table") } }
    pub fn items_mut(&mut self) -> &mut Vec<V> { match self { V::A(a) => a, _ => panic!("no list") } }
    pub fn remove(&mut self, k: &str) -> V { match self { V::T(t) => { let i = t.iter().position(|x| x.0 == k).unwrap(); t.remove(i).1 } _ => panic!("no table") } }
    pub fn put(&mut self, k: &str, v: V) { match self { V::T(t) => { t.retain(|x| x.0 != k); t.push((k.to_owned(), v)); } _ => panic!("no table") } }
}

pub struct Writer<'a> { s: &'a mut Src, nl: &'static str, noise: bool }

impl<'a> Writer<'a> {
    pub fn new(s: &'a mut Src) -> Self { let nl = if s.chance(1, 5) { "\r\n" } else { "\n" }; let noise = s.chance(1, 2); Self { s, nl, noise } }
    fn ws(&mut self) -> &'static str { if self.noise { *self.s.pick(&["", " ", "  ", "\t", " \t "]) } else { "" } }
    fn end(&mut self) -> String {
        let mut t = String::new();
        if self.noise && self.s.chance(1, 4) { t.push_str(self.s.pick(&[" # remark", "#", " # [[services]]", " # port = 1", "\t# ä \"quoted\""])); }
        t.push_str(self.nl);
        if self.noise && self.s.chance(1, 6) { let w = self.ws(); t.push_str(w); t.push_str(self.nl); }
        t
    }
    fn key(&mut self, k: &str) -> String { match self.s.below(6) { 0 => self.quoted(k, true), 1 => format!("'{k}'"), _ => k.to_owned() } }
    fn quoted(&mut self, x: &str, one_line: bool) -> String {
        let free = x.chars().all(|c| c == '\t' || (c >= ' ' && c != '\u{7f}'));
        let how = self.s.below(6);
        if how == 0 && free && !x.contains('\'') { return format!("'{x}'"); }
        let multi_ok = !one_line && x.chars().all(|c| c == '\t' || c == '\n' || (c >= ' ' && c != '\u{7f}'));
        if how == 1 && multi_ok && !x.contains("'''") && !x.ends_with('\'') && !(self.nl == "\r\n" && x.contains('\n')) { return format!("'''{}{x}'''", self.s.pick(&["\n", "\r\n"])); }
        let multi = how == 2 && !one_line;
        let esc_all = self.s.chance(1, 12);
        let mut o = String::new();
        for c in x.chars() {
            let n = c as u32;
            if esc_all { if n < 0x10000 && self.s.bool() { o.push_str(&format!("\\u{n:04x}")); } else { o.push_str(&format!("\\U{n:08X}")); } continue; }
            match c {
                '"' => o.push_str(if multi && !o.ends_with('"') && self.s.bool() { "\"" } else { "\\\"" }),
                '\\' => o.push_str("\\\\"),
                '\n' if multi && self.s.bool() => o.push('\n'),
                '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"),
                '\t' => o.push_str(if self.s.bool() { "\\t" } else { "\t" }),
                '\u{8}' => o.push_str("\\b"), '\u{c}' => o.push_str("\\f"),
                c if n < 0x20 || n == 0x7f => { let _ = c; o.push_str(&format!("\\u{n:04X}")) }
                c if self.s.chance(1, 30) => { let _ = c; o.push_str(&format!("\\U{n:08x}")) }
                c => o.push(c),
            }
            // a line continuation in a multi-line string swallows the white space after it
            if multi && self.s.chance(1, 20) { o.push_str("\\\n   "); let rest_starts_blank = false; if rest_starts_blank { break; } self.fix_continuation(&mut o, x); }
        }
        if multi { if o.ends_with('"') && !o.ends_with("\\\"") { o.pop(); o.push_str("\\\""); } format!("\"\"\"{}{o}\"\"\"", self.s.pick(&["\n", "\r\n"])) } else { format!("\"{o}\"") }
    }
    /// A continuation must not swallow blanks of the value: taken back if blanks may follow.
    fn fix_continuation(&mut self, o: &mut String, x: &str) { if x.contains([' ', '\t', '\n']) { let n = o.len() - "\\\n   ".len(); o.truncate(n); } }
    fn int(&mut self, i: i64) -> String {
        if i < 0 { return i.to_string(); }
        match self.s.below(8) {
            0 => format!("0x{i:x}"), 1 => format!("0x{i:X}"), 2 => format!("0o{i:o}"), 3 => format!("0b{i:b}"), 4 => format!("+{i}"),
            5 => { let t = i.to_string(); if t.len() > 1 { let k = 1 + self.s.idx(t.len() - 1); format!("{}_{}", &t[..k], &t[k..]) } else { t } }
            6 => format!("0x0_{i:04x}"),
            _ => i.to_string(),
        }
    }
    fn value(&mut self, v: &V, in_inline: bool) -> String {
        match v {
            V::S(x) => self.quoted(x, false),
            V::I(i) => self.int(*i),
            V::F(x) => x.to_string(),
            V::B(b) => b.to_string(),
            V::A(a) => {
                let mut o = "[".to_owned();
                let break_lines = self.s.bool();
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    if break_lines { let e = self.end(); o.push_str(&e); }
                    let w = self.ws(); o.push_str(w);
                    let x = self.value(x, true); o.push_str(&x);
                    let w = self.ws(); o.push_str(w);
                }
                if !a.is_empty() && self.s.bool() { o.push(','); if break_lines { let e = self.end(); o.push_str(&e); } }
                o.push(']');
                o
            }
            V::T(t) => {
                let _ = in_inline;
                let mut parts = vec![];
                for (k, x) in self.order(t) { parts.extend(self.assign(&k, &x)); }
                let mut o = "{".to_owned();
                for (i, p) in parts.iter().enumerate() { if i > 0 { o.push(','); } let w = self.ws(); o.push_str(w); o.push_str(p); let w = self.ws(); o.push_str(w); }
                o.push('}');
                o
            }
        }
    }
    fn order(&mut self, t: &[(String, V)]) -> Vec<(String, V)> { let mut t = t.to_vec(); self.s.shuffle(&mut t); t }
    /// `key = value`, or one assignment with a dotted key for each field of a table.
    fn assign(&mut self, k: &str, v: &V) -> Vec<String> {
        let key = self.key(k);
        self.assign_at(&key, v)
    }
    fn assign_at(&mut self, key: &str, v: &V) -> Vec<String> {
        match v {
            V::T(t) if !t.is_empty() && self.s.bool() => {
                let mut out = vec![];
                for (k, x) in self.order(t) { let k = self.key(&k); let (a, b) = (self.ws(), self.ws()); out.extend(self.assign_at(&format!("{key}{a}.{b}{k}"), &x)); }
                out
            }
            v => { let x = self.value(v, true); let (a, b) = (self.ws(), self.ws()); vec![format!("{key}{a}={b}{x}")] }
        }
    }
    /// The whole file.
    pub fn document(&mut self, v: &V) -> String {
        let V::T(top) = v else { panic!("no table") };
        let mut o = String::new();
        if self.noise && self.s.chance(1, 3) { let e = self.end(); o.push_str(&format!("# a proxy{e}")); }
        let (services, rest): (Vec<_>, Vec<_>) = top.iter().cloned().partition(|x| x.0 == "services");
        for (k, x) in &rest { for a in self.assign(k, x) { o.push_str(&a); let e = self.end(); o.push_str(&e); } }
        for (k, x) in &services {
            match x {
                V::A(a) if !a.is_empty() && a.iter().all(|x| matches!(x, V::T(_))) && self.s.chance(4, 5) => for x in a { let V::T(t) = x else { unreachable!() }; self.section(&mut o, k, t); },
                x => for a in self.assign(k, x) { o.push_str(&a); let e = self.end(); o.push_str(&e); },
            }
        }
        if self.s.chance(1, 6) { while o.ends_with(['\n', '\r']) && !o.ends_with("'''\n") { o.pop(); } }
        o
    }
    fn section(&mut self, o: &mut String, name: &str, t: &[(String, V)]) {
        let (a, b, c) = (self.ws(), self.ws(), self.ws());
        let k = self.key(name);
        let e = self.end();
        o.push_str(&format!("{a}[[{b}{k}{c}]]{e}"));
        // tables under their own header come after the plain fields
        let (mut here, mut own) = (vec![], vec![]);
        for (k, x) in self.order(t) { if matches!(&x, V::T(_)) && self.s.bool() { own.push((k, x)); } else { here.push((k, x)); } }
        for (k, x) in here { for a in self.assign(&k, &x) { let w = self.ws(); let e = self.end(); o.push_str(&format!("{w}{a}{e}")); } }
        for (k, x) in own { let V::T(t) = x else { unreachable!() }; self.sub(o, &format!("{name}.{k}"), &t); }
    }
    fn sub(&mut self, o: &mut String, path: &str, t: &[(String, V)]) {
        let (mut here, mut own) = (vec![], vec![]);
        for (k, x) in self.order(t) { if matches!(&x, V::T(_)) && self.s.bool() { own.push((k, x)); } else { here.push((k, x)); } }
        // children may come before their parent's header
        let children_first = !own.is_empty() && self.s.chance(1, 4);
        if children_first { for (k, x) in &own { let V::T(t) = x else { unreachable!() }; self.sub(o, &format!("{path}.{k}"), t); } }
        let (a, b) = (self.ws(), self.ws());
        let e = self.end();
        o.push_str(&format!("{a}[{path}{b}]{e}"));
        for (k, x) in here { for a in self.assign(&k, &x) { let w = self.ws(); let e = self.end(); o.push_str(&format!("{w}{a}{e}")); } }
        if !children_first { for (k, x) in own { let V::T(t) = x else { unreachable!() }; self.sub(o, &format!("{path}.{k}"), &t); } }
    }
}

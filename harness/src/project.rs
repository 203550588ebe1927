//! The projection from decoding results to the values of the specification.
use std::fmt::{Debug, Write};
use wadec::core::instruction::Instruction;
use wadec::core::types::ValType;
use wadec::core::{DataMode, ElemMode, Module};
use wadec::decode::DecodeModuleError;

/* ---------------- a reader for Rust's Debug output ---------------- */

#[derive(Debug, Clone)]
pub enum Node {
    Id(String),
    Call(String, Vec<Node>),
    Rec(String, Vec<(String, Node)>),
    Num(String),
    Str,
    Arr(Vec<Node>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn list(&mut self, close: u8) -> Vec<Node> {
        let mut v = vec![];
        loop {
            if self.peek() == close {
                self.i += 1;
                return v;
            }
            v.push(self.node());
            if self.peek() == b',' {
                self.i += 1;
            }
        }
    }
    fn word(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'#')
        {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn ident(&mut self) -> String {
        self.ws();
        let mut w = self.word();
        // a leading path ("Type::Variant", "List<..Elem>::Variant") is dropped
        loop {
            let save = self.i;
            while self.i < self.s.len() && (self.s[self.i] == b'>' || self.s[self.i] == b'<') {
                self.i += 1;
            }
            if self.s[self.i..].starts_with(b"::") {
                self.i += 2;
                w = self.word();
            } else {
                self.i = save;
                return w;
            }
        }
    }
    fn node(&mut self) -> Node {
        let c = self.peek();
        if c == b'[' {
            self.i += 1;
            return Node::Arr(self.list(b']'));
        }
        if c == b'(' {
            self.i += 1;
            return Node::Arr(self.list(b')'));
        }
        if c == b'"' {
            self.i += 1;
            while self.s[self.i] != b'"' {
                if self.s[self.i] == b'\\' {
                    self.i += 1;
                }
                self.i += 1;
            }
            self.i += 1;
            return Node::Str;
        }
        if c.is_ascii_digit() || c == b'-' {
            let st = self.i;
            self.i += 1;
            while self.i < self.s.len()
                && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-'))
            {
                self.i += 1;
            }
            return Node::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned());
        }
        let id = self.ident();
        if id.is_empty() {
            panic!("unreadable debug output at {}", self.i);
        }
        match self.peek() {
            b'(' => {
                self.i += 1;
                Node::Call(id, self.list(b')'))
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    if self.peek() == b'}' {
                        self.i += 1;
                        return Node::Rec(id.clone(), in_order(&id, v));
                    }
                    let f = self.ident();
                    if self.peek() == b':' {
                        self.i += 1;
                    }
                    let n = self.node();
                    v.push((f, n));
                    if self.peek() == b',' {
                        self.i += 1;
                    }
                }
            }
            _ => Node::Id(id),
        }
    }
}

/// The order of a record's fields is not observable: known records are put
/// in the order of the specification's tuples.
const ORDERS: &[(&str, &[&str])] = &[
    ("RefType", &["nullable", "ht"]),
    ("Limits", &["address_type", "min", "max"]),
    ("TableType", &["reftype", "limits"]),
    ("MemType", &["limits"]),
    ("SubType", &["is_final", "supertypes", "comptype"]),
    ("Func", &["parameters", "results"]),
    ("Memarg", &["mem_idx", "align", "offset"]),
    ("CodeFuncEntriesLenMismatch", &["codes_len", "funcs_len"]),
    ("DataCountMismatch", &["datas_len", "data_count"]),
    ("DataCountDatasLenMismatch", &["datas_len", "data_count"]),
    ("SectionOutOfOrder", &["current", "previous"]),
    ("SectionSizeMismatch", &["section_kind", "declared", "got"]),
    ("EntrySizeMismatch", &["declared_bytes", "leftover_bytes", "consumed_bytes"]),
    ("LocalsCountOutOfBound", &["max_locals", "actual_locals"]),
    ("DecodeValTypeOrPackType", &["marker", "source"]),
    ("ParseElement", &["position", "source"]),
];

fn in_order(name: &str, mut v: Vec<(String, Node)>) -> Vec<(String, Node)> {
    if let Some((_, order)) = ORDERS.iter().find(|(n, _)| *n == name) {
        v.sort_by_key(|(f, _)| order.iter().position(|o| o == f).unwrap_or(order.len()));
    }
    v
}

pub fn read_debug(x: &impl Debug) -> Node {
    let s = format!("{x:?}");
    P { s: s.as_bytes(), i: 0 }.node()
}

/* ---------------- rendering into the specification's JSON ---------------- */

pub fn num_u64(o: &mut String, v: u64) {
    if v < 1 << 30 {
        write!(o, "{v}").unwrap();
    } else {
        write!(
            o,
            "[\"n\",{},{},{},{}]",
            v & 0xffff,
            (v >> 16) & 0xffff,
            (v >> 32) & 0xffff,
            v >> 48
        )
        .unwrap();
    }
}

fn num_text(o: &mut String, t: &str) {
    if let Ok(u) = t.parse::<u64>() {
        num_u64(o, u)
    } else if let Ok(i) = t.parse::<i64>() {
        num_u64(o, i as u64)
    } else {
        write!(o, "\"{t}\"").unwrap()
    }
}

pub fn bytes(o: &mut String, b: &[u8]) {
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{x}").unwrap();
    }
    o.push(']');
}

fn value(o: &mut String, n: &Node) {
    match n {
        Node::Id(s) if s == "true" || s == "false" => o.push_str(s),
        Node::Id(s) => write!(o, "\"{s}\"").unwrap(),
        Node::Num(t) => num_text(o, t),
        Node::Str => o.push_str("\"str\""),
        Node::Arr(v) => seq(o, v.iter().map(|n| move |o: &mut String| value(o, n))),
        Node::Call(s, v) if v.len() == 1 && (s.ends_with("Idx")) => value(o, &v[0]),
        Node::Call(s, v) => {
            write!(o, "[\"{s}\"").unwrap();
            for n in v {
                o.push(',');
                value(o, n);
            }
            o.push(']');
        }
        Node::Rec(s, v) => {
            write!(o, "[\"{s}\"").unwrap();
            for (_, n) in v {
                o.push(',');
                value(o, n);
            }
            o.push(']');
        }
    }
}

fn seq<F: FnOnce(&mut String)>(o: &mut String, it: impl Iterator<Item = F>) {
    o.push('[');
    for (i, f) in it.enumerate() {
        if i > 0 {
            o.push(',');
        }
        f(o);
    }
    o.push(']');
}

fn dbg_value(o: &mut String, x: &impl Debug) {
    value(o, &read_debug(x));
}

fn opt(o: &mut String, x: Option<impl FnOnce(&mut String)>) {
    match x {
        None => o.push_str("\"None\""),
        Some(f) => {
            o.push_str("[\"Some\",");
            f(o);
            o.push(']');
        }
    }
}

pub fn expr(o: &mut String, e: &[Instruction]) {
    seq(o, e.iter().map(|i| move |o: &mut String| ins(o, i)));
}

fn ins(o: &mut String, i: &Instruction) {
    match i {
        Instruction::Block(t, b) | Instruction::Loop(t, b) => {
            write!(o, "[\"{}\",", if matches!(i, Instruction::Block(..)) { "Block" } else { "Loop" }).unwrap();
            dbg_value(o, t);
            o.push(',');
            expr(o, b);
            o.push(']');
        }
        Instruction::If(t, a, b) => {
            o.push_str("[\"If\",");
            dbg_value(o, t);
            o.push(',');
            expr(o, a);
            o.push(',');
            opt(o, b.as_ref().map(|b| |o: &mut String| expr(o, b)));
            o.push(']');
        }
        Instruction::TryTable(t, c, b) => {
            o.push_str("[\"TryTable\",");
            dbg_value(o, t);
            o.push(',');
            dbg_value(o, c);
            o.push(',');
            expr(o, b);
            o.push(']');
        }
        Instruction::F32Const(x) => {
            o.push_str("[\"F32Const\",");
            bytes(o, &x.to_bits().to_le_bytes());
            o.push(']');
        }
        Instruction::F64Const(x) => {
            o.push_str("[\"F64Const\",");
            bytes(o, &x.to_bits().to_le_bytes());
            o.push(']');
        }
        // adjacent tokens of everything else are values already
        other => dbg_value(o, other),
    }
}

fn locals(o: &mut String, l: &[ValType]) {
    o.push('[');
    let mut i = 0;
    let mut first = true;
    while i < l.len() {
        let mut j = i;
        while j < l.len() && l[j] == l[i] {
            j += 1;
        }
        if !first {
            o.push(',');
        }
        first = false;
        o.push('[');
        num_u64(o, (j - i) as u64);
        o.push(',');
        dbg_value(o, &l[i]);
        o.push(']');
        i = j;
    }
    o.push(']');
}

fn module(o: &mut String, m: &Module) {
    o.push_str("[\"ok\",[");
    bytes(o, &m.version);
    o.push(',');
    seq(o, m.parsed_section_kinds.iter().map(|k| move |o: &mut String| dbg_value(o, k)));
    o.push(',');
    seq(o, m.section_headers.iter().map(|h| {
        move |o: &mut String| {
            o.push('[');
            dbg_value(o, &h.kind);
            o.push(',');
            num_u64(o, h.size.into());
            o.push(']');
        }
    }));
    o.push(',');
    seq(o, m.custom_sections.iter().map(|c| {
        move |o: &mut String| {
            o.push('[');
            bytes(o, c.name.as_bytes());
            o.push(',');
            bytes(o, &c.contents);
            o.push(']');
        }
    }));
    o.push(',');
    seq(o, m.types.iter().map(|t| move |o: &mut String| dbg_value(o, t)));
    o.push(',');
    seq(o, m.funcs.iter().map(|f| {
        move |o: &mut String| {
            o.push_str("[\"Func\",");
            num_u64(o, f.r#type.0.into());
            o.push(',');
            locals(o, &f.locals);
            o.push(',');
            expr(o, &f.body);
            o.push(']');
        }
    }));
    o.push(',');
    seq(o, m.tables.iter().map(|t| {
        move |o: &mut String| {
            o.push_str("[\"Table\",");
            dbg_value(o, &t.0);
            o.push(',');
            expr(o, &t.1);
            o.push(']');
        }
    }));
    o.push(',');
    seq(o, m.mems.iter().map(|t| move |o: &mut String| dbg_value(o, t)));
    o.push(',');
    seq(o, m.globals.iter().map(|g| {
        move |o: &mut String| {
            o.push_str("[\"Global\",");
            dbg_value(o, &g.r#type);
            o.push(',');
            expr(o, &g.init);
            o.push(']');
        }
    }));
    o.push(',');
    seq(o, m.elems.iter().map(|e| {
        move |o: &mut String| {
            o.push_str("[\"Elem\",");
            dbg_value(o, &e.r#type);
            o.push(',');
            seq(o, e.init.iter().map(|x| move |o: &mut String| expr(o, x)));
            o.push(',');
            match &e.mode {
                ElemMode::Passive => o.push_str("\"Passive\""),
                ElemMode::Declare => o.push_str("\"Declare\""),
                ElemMode::Active { table, offset } => {
                    o.push_str("[\"Active\",");
                    num_u64(o, table.0.into());
                    o.push(',');
                    expr(o, offset);
                    o.push(']');
                }
            }
            o.push(']');
        }
    }));
    o.push(',');
    opt(o, m.data_count.map(|n| move |o: &mut String| num_u64(o, n.into())));
    o.push(',');
    seq(o, m.datas.iter().map(|d| {
        move |o: &mut String| {
            o.push_str("[\"Data\",");
            bytes(o, &d.init);
            o.push(',');
            match &d.mode {
                DataMode::Passive => o.push_str("\"Passive\""),
                DataMode::Active { memory, offset } => {
                    o.push_str("[\"Active\",");
                    num_u64(o, memory.0.into());
                    o.push(',');
                    expr(o, offset);
                    o.push(']');
                }
            }
            o.push(']');
        }
    }));
    o.push(',');
    opt(o, m.start.map(|n| move |o: &mut String| num_u64(o, n.0.into())));
    o.push(',');
    seq(o, m.imports.iter().map(|i| {
        move |o: &mut String| {
            o.push_str("[\"Import\",");
            bytes(o, i.module_name.as_bytes());
            o.push(',');
            bytes(o, i.item_name.as_bytes());
            o.push(',');
            dbg_value(o, &i.extern_type);
            o.push(']');
        }
    }));
    o.push(',');
    seq(o, m.exports.iter().map(|e| {
        move |o: &mut String| {
            o.push_str("[\"Export\",");
            bytes(o, e.name.as_bytes());
            o.push(',');
            dbg_value(o, &e.externidx);
            o.push(']');
        }
    }));
    o.push(',');
    seq(o, m.tags.iter().map(|t| move |o: &mut String| dbg_value(o, t)));
    o.push_str("]]");
}

/* ---------------- errors ---------------- */

fn io_kind(n: &Node) -> Option<String> {
    let f = |v: &Vec<(String, Node)>| {
        v.iter().find(|(k, _)| k == "kind").and_then(|(_, n)| match n {
            Node::Id(s) => Some(format!("io:{s}")),
            _ => None,
        })
    };
    match n {
        Node::Call(s, v) if s == "Kind" && v.len() == 1 => match &v[0] {
            Node::Id(k) => Some(format!("io:{k}")),
            _ => None,
        },
        Node::Rec(s, v) if s == "Error" || s == "Custom" || s == "Os" => {
            f(v).map(|k| if carries_injected(n) { k + "!" } else { k })
        }
        _ => None,
    }
}

/// The failure of the reader itself, however it was wrapped.
fn carries_injected(n: &Node) -> bool {
    match n {
        Node::Id(s) => s == "Injected",
        Node::Call(_, v) => v.iter().any(carries_injected),
        // no other system call is made here, so a system's error is the reader's
        Node::Rec(s, _) if s == "Os" => true,
        Node::Rec(_, v) => v.iter().any(|(_, n)| carries_injected(n)),
        _ => false,
    }
}

fn flatten(out: &mut Vec<String>, n: &Node) {
    if let Some(k) = io_kind(n) {
        out.push(format!("\"{k}\""));
        return;
    }
    match n {
        Node::Id(s) => out.push(format!("\"{s}\"")),
        Node::Num(t) => {
            let mut o = String::new();
            num_text(&mut o, t);
            out.push(o);
        }
        Node::Str => {}
        Node::Arr(v) => {
            let mut o = String::new();
            seq(&mut o, v.iter().map(|n| move |o: &mut String| value(o, n)));
            out.push(o);
        }
        Node::Rec(s, _) if s == "FromUtf8Error" || s == "Utf8Error" => {}
        Node::Call(s, v) => {
            out.push(format!("\"{s}\""));
            for n in v {
                flatten(out, n);
            }
        }
        Node::Rec(s, v) => {
            out.push(format!("\"{s}\""));
            for (_, n) in v {
                flatten(out, n);
            }
        }
    }
}

fn error(o: &mut String, e: &DecodeModuleError) {
    let mut toks = vec![];
    flatten(&mut toks, &read_debug(e));
    o.push_str("[\"err\",[");
    o.push_str(&toks.join(","));
    o.push_str("]]");
}

pub fn outcome(r: &Result<Module, DecodeModuleError>) -> String {
    let mut o = String::new();
    match r {
        Ok(m) => module(&mut o, m),
        Err(e) => error(&mut o, e),
    }
    o
}

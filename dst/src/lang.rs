//! The part of the shell language the workloads use: an independent little parser for the oracle.

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Lit(String),
    Var(String),
    Subst(String),
}
/// `quoted` words come from double or single quotes and can be empty or hold blanks.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Word {
    pub parts: Vec<Part>,
    pub quoted: bool,
}
impl Word {
    pub fn lit(&self) -> Option<&str> {
        match self.parts.as_slice() {
            [Part::Lit(s)] => Some(s),
            [] => Some(""),
            _ => None,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum RKind {
    In,
    Out,
    App,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Redir {
    pub kind: RKind,
    pub fd: i32,
    pub path: Word,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Simple { assigns: Vec<(String, Word)>, words: Vec<Word>, redirs: Vec<Redir> },
    Func { name: String, body: List },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pipeline {
    pub neg: bool,
    pub stages: Vec<Cmd>,
    pub bg: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    First,
    And,
    Or,
}
pub type AndOr = Vec<(Op, Pipeline)>;
pub type List = Vec<AndOr>;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(Word, String), // raw text for "is it a plain name"
    Op(&'static str),
    Num(i32), // directly before < or >
    Nl,
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    if s.contains(|c| c == crate::scen::NOTEXT || c == '\u{FFFD}') {
        return Err("no text".into());
    }
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    let special = |ch: char| matches!(ch, ' ' | '\t' | '\n' | ';' | '&' | '|' | '<' | '>' | '(' | ')' | '{' | '}' | '"' | '\'');
    while i < c.len() {
        match c[i] {
            ' ' | '\t' => i += 1,
            '\n' => {
                v.push(Tok::Nl);
                i += 1;
            }
            '#' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            ';' => {
                v.push(Tok::Op(";"));
                i += 1;
            }
            '(' => {
                v.push(Tok::Op("("));
                i += 1;
            }
            ')' => {
                v.push(Tok::Op(")"));
                i += 1;
            }
            '{' => {
                v.push(Tok::Op("{"));
                i += 1;
            }
            '}' => {
                v.push(Tok::Op("}"));
                i += 1;
            }
            '&' if c.get(i + 1) == Some(&'&') => {
                v.push(Tok::Op("&&"));
                i += 2;
            }
            '&' => {
                v.push(Tok::Op("&"));
                i += 1;
            }
            '|' if c.get(i + 1) == Some(&'|') => {
                v.push(Tok::Op("||"));
                i += 2;
            }
            '|' => {
                v.push(Tok::Op("|"));
                i += 1;
            }
            '<' => {
                v.push(Tok::Op("<"));
                i += 1;
            }
            '>' if c.get(i + 1) == Some(&'>') => {
                v.push(Tok::Op(">>"));
                i += 2;
            }
            '>' => {
                v.push(Tok::Op(">"));
                i += 1;
            }
            '!' if c.get(i + 1).map(|x| x.is_whitespace()).unwrap_or(true) => {
                v.push(Tok::Op("!"));
                i += 1;
            }
            '\'' => {
                let mut j = i + 1;
                while j < c.len() && c[j] != '\'' {
                    j += 1;
                }
                if j >= c.len() {
                    return Err("unterminated quote".into());
                }
                let t: String = c[i + 1..j].iter().collect();
                v.push(Tok::Word(Word { parts: vec![Part::Lit(t)], quoted: true }, String::new()));
                i = j + 1;
            }
            '"' => {
                let mut parts = vec![];
                let mut lit = String::new();
                let mut j = i + 1;
                let mut closed = false;
                while j < c.len() {
                    if c[j] == '"' {
                        closed = true;
                        break;
                    }
                    if c[j] == '$' && c.get(j + 1) == Some(&'(') {
                        let mut k = j + 2;
                        while k < c.len() && c[k] != ')' {
                            k += 1;
                        }
                        if k >= c.len() {
                            return Err("unterminated substitution".into());
                        }
                        if !lit.is_empty() {
                            parts.push(Part::Lit(std::mem::take(&mut lit)));
                        }
                        parts.push(Part::Subst(c[j + 2..k].iter().collect()));
                        j = k + 1;
                    } else if c[j] == '`' {
                        let mut k = j + 1;
                        while k < c.len() && c[k] != '`' {
                            k += 1;
                        }
                        if k >= c.len() {
                            return Err("unterminated substitution".into());
                        }
                        if !lit.is_empty() {
                            parts.push(Part::Lit(std::mem::take(&mut lit)));
                        }
                        parts.push(Part::Subst(c[j + 1..k].iter().collect()));
                        j = k + 1;
                    } else {
                        lit.push(c[j]);
                        j += 1;
                    }
                }
                if !closed {
                    return Err("unterminated quote".into());
                }
                if !lit.is_empty() {
                    parts.push(Part::Lit(lit));
                }
                v.push(Tok::Word(Word { parts, quoted: true }, String::new()));
                i = j + 1;
            }
            _ => {
                let st = i;
                while i < c.len() && !special(c[i]) {
                    i += 1;
                    // NAME= directly followed by a quoted value: the value is a token of its own
                    if c[i - 1] == '=' && i < c.len() && (c[i] == '"' || c[i] == '\'') {
                        break;
                    }
                }
                let t: String = c[st..i].iter().collect();
                if t.chars().all(|x| x.is_ascii_digit()) && matches!(c.get(i), Some('<') | Some('>')) {
                    v.push(Tok::Num(t.parse().unwrap_or(0)));
                    continue;
                }
                let parts = if t.len() > 1 && t.starts_with('$') { vec![Part::Var(t[1..].to_string())] } else { vec![Part::Lit(t.clone())] };
                v.push(Tok::Word(Word { parts, quoted: false }, t));
            }
        }
    }
    Ok(v)
}

struct P {
    t: Vec<Tok>,
    i: usize,
}
impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, o: &str) -> bool {
        matches!(self.peek(), Some(Tok::Op(x)) if *x == o)
    }
    fn list(&mut self, inner: bool) -> Result<List, String> {
        let mut v = vec![];
        loop {
            while matches!(self.peek(), Some(Tok::Nl)) || self.is(";") && !v.is_empty() {
                self.i += 1;
            }
            match self.peek() {
                None => break,
                Some(Tok::Op("}")) if inner => break,
                _ => {}
            }
            v.push(self.andor()?);
            match self.peek() {
                None => break,
                Some(Tok::Nl) => {}
                Some(Tok::Op(";")) => {
                    self.i += 1;
                    if self.is(";") {
                        return Err("unexpected ;".into());
                    }
                }
                Some(Tok::Op("}")) if inner => break,
                Some(t) => return Err(format!("unexpected {:?}", t)),
            }
        }
        Ok(v)
    }
    fn andor(&mut self) -> Result<AndOr, String> {
        let mut v = vec![(Op::First, self.pipeline()?)];
        loop {
            let op = if self.is("&&") {
                Op::And
            } else if self.is("||") {
                Op::Or
            } else {
                return Ok(v);
            };
            self.i += 1;
            v.push((op, self.pipeline()?));
        }
    }
    fn pipeline(&mut self) -> Result<Pipeline, String> {
        let mut neg = false;
        if self.is("!") {
            neg = true;
            self.i += 1;
        }
        let mut stages = vec![self.cmd()?];
        while self.is("|") {
            self.i += 1;
            stages.push(self.cmd()?);
        }
        let mut bg = false;
        if self.is("&") {
            bg = true;
            self.i += 1;
        }
        Ok(Pipeline { neg, stages, bg })
    }
    fn cmd(&mut self) -> Result<Cmd, String> {
        // NAME ( ) { list }
        if let (Some(Tok::Word(_, n)), Some(Tok::Op("(")), Some(Tok::Op(")"))) = (self.t.get(self.i), self.t.get(self.i + 1), self.t.get(self.i + 2)) {
            let name = n.clone();
            self.i += 3;
            if !self.is("{") {
                return Err("function body expected".into());
            }
            self.i += 1;
            let body = self.list(true)?;
            if !self.is("}") {
                return Err("} expected".into());
            }
            self.i += 1;
            return Ok(Cmd::Func { name, body });
        }
        let mut assigns = vec![];
        let mut words: Vec<Word> = vec![];
        let mut redirs = vec![];
        loop {
            match self.peek().cloned() {
                Some(Tok::Num(_)) | Some(Tok::Op("<")) | Some(Tok::Op(">")) | Some(Tok::Op(">>")) => {
                    let mut fd = None;
                    if let Some(Tok::Num(n)) = self.peek() {
                        fd = Some(*n);
                        self.i += 1;
                    }
                    let kind = if self.is("<") {
                        RKind::In
                    } else if self.is(">") {
                        RKind::Out
                    } else if self.is(">>") {
                        RKind::App
                    } else {
                        return Err("redirection expected".into());
                    };
                    self.i += 1;
                    match self.peek().cloned() {
                        Some(Tok::Word(w, _)) => {
                            self.i += 1;
                            let d = if kind == RKind::In { 0 } else { 1 };
                            redirs.push(Redir { kind, fd: fd.unwrap_or(d), path: w });
                        }
                        _ => return Err("file name expected".into()),
                    }
                }
                Some(Tok::Word(w, raw)) => {
                    self.i += 1;
                    let eq = raw.find('=');
                    if words.is_empty() && eq.map(|e| e > 0).unwrap_or(false) {
                        let e = eq.unwrap();
                        let val = if e + 1 == raw.len() {
                            match self.peek().cloned() {
                                Some(Tok::Word(q, r)) if q.quoted && r.is_empty() => {
                                    self.i += 1;
                                    q
                                }
                                _ => return Err("value expected".into()),
                            }
                        } else {
                            let t = &raw[e + 1..];
                            if t.len() > 1 && t.starts_with('$') {
                                Word { parts: vec![Part::Var(t[1..].to_string())], quoted: false }
                            } else {
                                Word { parts: vec![Part::Lit(t.to_string())], quoted: false }
                            }
                        };
                        assigns.push((raw[..e].to_string(), val));
                    } else if !words.is_empty() && raw.ends_with('=') && raw.len() > 1 {
                        // export NAME="value"
                        match self.peek().cloned() {
                            Some(Tok::Word(q, r)) if q.quoted && r.is_empty() => {
                                self.i += 1;
                                let mut parts = vec![Part::Lit(raw)];
                                parts.extend(q.parts);
                                words.push(Word { parts, quoted: true });
                            }
                            _ => return Err("value expected".into()),
                        }
                    } else {
                        words.push(w);
                    }
                }
                _ => break,
            }
        }
        if words.is_empty() && assigns.is_empty() && redirs.is_empty() {
            return Err(format!("command expected, got {:?}", self.peek()));
        }
        Ok(Cmd::Simple { assigns, words, redirs })
    }
}

pub fn parse(s: &str) -> Result<List, String> {
    let t = lex(s)?;
    let mut p = P { t, i: 0 };
    let l = p.list(false)?;
    if p.i < p.t.len() {
        return Err("trailing input".into());
    }
    Ok(l)
}

/// all command names in a list, in textual order (function bodies included)
pub fn names(l: &List) -> Vec<String> {
    fn walk(l: &List, v: &mut Vec<String>) {
        for ao in l {
            for (_, p) in ao {
                for c in &p.stages {
                    match c {
                        Cmd::Func { body, .. } => walk(body, v),
                        Cmd::Simple { words, assigns, .. } => {
                            if let Some(n) = words.first().and_then(|w| w.lit()) {
                                v.push(n.to_string());
                            }
                            for w in words.iter().chain(assigns.iter().map(|a| &a.1)) {
                                for p in &w.parts {
                                    if let Part::Subst(s) = p {
                                        if let Ok(l) = parse(s) {
                                            walk(&l, v);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let mut v = vec![];
    walk(l, &mut v);
    v
}

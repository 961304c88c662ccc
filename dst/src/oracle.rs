//! The reference model: walks the input of a finished run with the statuses the simulated commands
//! really had, works out which commands had to be started with which surroundings, and compares
//! that with the recorded history.
use crate::fs::*;
use crate::lang::*;
use crate::scen::*;
use crate::sim::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tri {
    No,
    Yes,
    Maybe,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Known(i32),
    Fail,
    Unknown,
}
fn is_builtin(n: &str) -> bool {
    matches!(n, "cd" | "exit" | "return" | "jobs" | "fg" | "bg" | "alias" | "unalias" | "export" | "eval" | "unset" | "pwd" | "readonly" | "exec" | "." | "source")
}
impl St {
    fn ok(self) -> Tri {
        match self {
            St::Known(0) => Tri::Yes,
            St::Unknown => Tri::Maybe,
            _ => Tri::No,
        }
    }
    fn neg(self) -> St {
        match self.ok() {
            Tri::Yes => St::Fail,
            Tri::No => St::Known(0),
            Tri::Maybe => St::Unknown,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Std {
    Any,
    Input,
    Console(u8),
    PipeR(usize),
    PipeW(usize),
    File(String),
}
#[derive(Clone, Debug, PartialEq)]
struct RD {
    kind: RKind,
    fd: i32,
    path: Option<String>,
}
/// one command that was really executed, with what it had to look like
#[derive(Clone, Debug)]
struct Inst {
    tag: String,
    /// as it was typed
    name: String,
    uid: usize,
    line: usize,
    argv: Option<Vec<Vec<String>>>, // accepted argument lists
    cwd: Option<String>,
    env: BTreeMap<String, EnvX>,
    more: Vec<i32>,
    std: [Std; 3],
    redirs: Vec<RD>,
    job: Option<usize>,
    direct: bool,
    check_parent: bool,
    nest: usize,
    sub: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum EnvX {
    Any,
    Absent,
    One(String),
    Two(String, String),
}
#[derive(Clone, Debug, Default)]
struct Var {
    val: Option<String>, // None = not known
    exported: Option<String>,
    is_exported: bool,
    readonly: bool,
    gone: bool, // unset
}
#[derive(Clone, Debug)]
struct Env {
    cwd: Option<String>,
    vars: BTreeMap<String, Var>,
    funcs: BTreeMap<String, List>,
    aliases: BTreeMap<String, Vec<String>>,
}
#[derive(Clone, Debug)]
struct JobM {
    names: Vec<String>,
    tags: Vec<String>,
    uids: Vec<usize>,
    sure: bool,
    bg: bool,
    line: usize,
    ids: BTreeSet<u32>,
}
#[derive(Clone)]
struct Ctx {
    line: usize,
    cert: Tri,
    /// executed by the shell itself, not by a forked copy
    root: bool,
    job: Option<usize>,
    std: [Std; 3],
    /// further descriptors, of redirections of functions
    more: Vec<i32>,
    /// commands run in a copy of the shell: its uid becomes known from the commands it started
    nest: usize,
    sub: bool,
}
struct PipeChk {
    line: usize,
    w: Vec<usize>,
    r: Vec<usize>,
    what: String,
    /// what a builtin wrote to it
    fixed: Option<Vec<u8>>,
}

/// the number of the line before the first: startup files (lines are counted from 0, and from 1 in the records)
const RC_LINE: usize = usize::MAX;
fn ord(line: usize) -> usize {
    line.wrapping_add(1)
}

pub struct Oracle<'m, 'a> {
    s: &'m mut Sim<'a>,
    by_tag: BTreeMap<String, Vec<usize>>,
    used: BTreeSet<usize>,
    npipe: usize,
    pipe_of: BTreeMap<usize, usize>,
    insts: Vec<Inst>,
    jobs: Vec<JobM>,
    env: Env,
    last: St,
    exited: Tri,
    nbuiltin: usize,
    mentions: BTreeMap<String, usize>,
    /// what builtins have written to files
    exact: Vec<(usize, String, String)>,
    exit_st: St,
    prev: Vec<Vec<usize>>,
    fg_of_line: BTreeMap<usize, Vec<Vec<usize>>>,
    out: Vec<Viol>,
    feed: BTreeMap<usize, u64>,
    prompt: BTreeMap<usize, u64>, // after line i
    faulted: BTreeSet<usize>,
    any_fault: bool,
    pipes: Vec<PipeChk>,
    loose: BTreeSet<String>,
    files_unsure: bool,
    created: BTreeMap<String, Tri>,
    mentioned: BTreeSet<String>,
    fatal: bool,
    child_pending: bool,
    allow_missing: BTreeSet<usize>,
    /// commands that must not be executed on the line (redirection failed, unknown name)
    pub judged: u64,
}

pub fn abs(cwd: &str, p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
pub fn is_tag(n: &str) -> bool {
    Fs::is_prog(base(n))
}
/// the command itself, without a directory
pub fn base(n: &str) -> &str {
    n.rsplit('/').next().unwrap_or(n)
}
fn signaled(st: i32) -> bool {
    st & 0x7f != 0 && st & 0xff != 0x7f
}

pub fn check(s: &mut Sim) -> (Vec<Viol>, u64) {
    let mut v = s.viol.clone();
    let mut judged = 0;
    if s.harness_error.is_none() {
        // a judge that fails has no verdict: the run is inconclusive
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Oracle::new(s).run()));
        let Ok((w, j)) = r else {
            s.harness_error = Some("the oracle failed".into());
            return (v, 0);
        };
        judged = j;
        for x in w {
            if !v.iter().any(|y| y.class == x.class) {
                v.push(x);
            }
        }
    }
    (v, judged)
}

/// this cannot be a command, whatever the grammar
fn broken(t: &str) -> bool {
    let t = t.trim();
    t.starts_with("&& ") || t.starts_with("| ") || t.ends_with(" |") || t.ends_with(" &&") || t.ends_with(" >")
}

impl<'m, 'a> Oracle<'m, 'a> {
    fn new(s: &'m mut Sim<'a>) -> Self {
        let mut by_tag: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for e in &s.execs {
            by_tag.entry(e.tag.clone()).or_default().push(e.uid);
        }
        for v in by_tag.values_mut() {
            v.sort_by_key(|u| (s.recs[*u].fork_step, *u));
        }
        let mut feed = BTreeMap::new();
        let mut prompt = BTreeMap::new();
        let mut faulted = BTreeSet::new();
        let mut any_fault = false;
        for (st, e) in &s.events {
            match e {
                Ev::Feed(n) => {
                    feed.insert(*n, *st);
                }
                Ev::Prompt(n) => {
                    prompt.entry(n.wrapping_sub(1)).or_insert(*st);
                }
                // (a completion is no part of a line)
                Ev::Fault { class: "open directory" | "read directory", .. } => {}
                Ev::Fault { line, uid, .. } => {
                    any_fault = true;
                    faulted.insert(line.wrapping_sub(1));
                    // and the line the process belongs to
                    let mut u = *uid;
                    while u != 0 {
                        faulted.insert(s.recs[u].line.wrapping_sub(1));
                        u = s.recs[u].parent;
                    }
                }
                _ => {}
            }
        }
        let mut vars = BTreeMap::new();
        let home = crate::scen::home(&s.sc.cfg);
        for (k, v) in home.map(|h| ("HOME", h)).into_iter().chain([("PATH", "/bin"), ("TERM", "xterm"), ("LANG", "C")]) {
            vars.insert(k.to_string(), Var { val: Some(v.into()), exported: Some(v.into()), is_exported: true, readonly: false, gone: false });
        }
        if s.sc.cfg.no_path == 1 {
            vars.insert("PATH".into(), Var { val: Some("/bin:/usr/bin".into()), ..Var::default() });
        }
        // names the workload uses as variables start out unset
        let mut mention = BTreeSet::new();
        for l in s.sc.lines.iter().map(|l| &l.text).chain(s.sc.files.iter().map(|f| &f.1)) {
            for w in l.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
                if w.len() >= 2 && w.starts_with('X') && w[1..].chars().all(|c| c.is_ascii_digit()) {
                    mention.insert(w.to_string());
                }
            }
        }
        if s.sc.cfg.mode == Mode::Script {
            for (i, a) in s.sc.args.iter().filter_map(|a| a.strip_prefix('=')).enumerate() {
                vars.insert((i + 1).to_string(), Var { val: Some(a.to_string()), ..Var::default() });
            }
        }
        for m in mention {
            vars.insert(m, Var { val: Some(String::new()), exported: None, is_exported: false, readonly: false, gone: false });
        }
        Oracle {
            by_tag,
            used: BTreeSet::new(),
            npipe: 0,
            pipe_of: BTreeMap::new(),
            insts: vec![],
            jobs: vec![],
            env: Env { cwd: Some("/w".into()), vars, funcs: BTreeMap::new(), aliases: BTreeMap::new() },
            last: St::Known(0),
            exited: Tri::No,
            nbuiltin: 0,
            mentions: BTreeMap::new(),
            exact: vec![],
            exit_st: St::Unknown,
            prev: vec![],
            fg_of_line: BTreeMap::new(),
            out: vec![],
            feed,
            prompt,
            faulted,
            any_fault,
            pipes: vec![],
            loose: BTreeSet::new(),
            files_unsure: false,
            created: BTreeMap::new(),
            mentioned: BTreeSet::new(),
            fatal: s.ended.as_deref() != Some("exit"),
            child_pending: s.recs.iter().any(|r| r.uid != 0 && r.exec.is_none() && r.status.is_none()),
            allow_missing: BTreeSet::new(),
            judged: 0,
            s,
        }
    }
    fn bad(&mut self, class: &str, msg: String) {
        if !self.out.iter().any(|v| v.class == class) {
            self.out.push(Viol { class: class.into(), msg });
        }
    }
    fn typed(&self) -> bool {
        matches!(self.s.sc.cfg.mode, Mode::Typed | Mode::Tty)
    }
    fn is_faulted(&self, line: usize) -> bool {
        if self.typed() {
            self.faulted.contains(&line)
        } else {
            self.any_fault
        }
    }
    fn end_of(&self, u: usize) -> Option<u64> {
        self.s.recs[u].status.map(|_| self.s.recs[u].exit_step)
    }
    fn alive_at(&self, u: usize, st: u64) -> bool {
        let r = &self.s.recs[u];
        r.fork_step <= st && self.end_of(u).map(|e| e > st).unwrap_or(true)
    }
    fn stopped_at(&self, u: usize, st: u64) -> bool {
        self.s.recs[u].stops.iter().filter(|x| x.0 <= st).last().map(|x| x.2).unwrap_or(false)
    }
    fn any_stop(&self, u: usize, from: u64, to: u64) -> bool {
        self.s.recs[u].stops.iter().any(|x| x.2 && x.0 >= from && x.0 <= to)
    }

    // ------------------------------------------------------------------ the walk
    fn run(mut self) -> (Vec<Viol>, u64) {
        let mode = self.s.sc.cfg.mode;
        let texts: Vec<String> = self.s.sc.lines.iter().map(|l| l.text.clone()).collect();
        let base = Ctx {
            line: 0,
            cert: Tri::Yes,
            root: true,
            job: None,
            more: vec![],
            std: if mode == Mode::Tty { [Std::Any, Std::Any, Std::Any] } else { [Std::Input, Std::Console(1), Std::Console(2)] },
            nest: 0,
            sub: false,
        };
        self.startup(&base);
        if mode == Mode::Dash {
            match parse(&texts.join("\n")) {
                Ok(l) => {
                    self.list(&l, &base);
                }
                Err(_) => {}
            }
        } else {
            let mut n = texts.len();
            if self.typed() {
                n = n.min(self.s.fed);
            }
            let tl = if mode == Mode::Tty { tty_lines(&self.s.sc, &self.s.typed).0 } else { vec![] };
            for (i, t) in texts.iter().take(n).enumerate() {
                if self.exited == Tri::Yes {
                    break;
                }
                let mut c = base.clone();
                c.line = i;
                if self.exited == Tri::Maybe {
                    c.cert = Tri::Maybe;
                }
                let mut t = t.clone();
                if mode == Mode::Tty {
                    match tl.get(i) {
                        Some(Typed::Line(l)) => t = l.clone(),
                        Some(Typed::Eof) => break,
                        Some(Typed::Chooser { sure }) => {
                            // the session is judged up to here
                            let shown = self.s.events.iter().any(|e| matches!(e.1, Ev::Chooser(n) if n == i + 1));
                            let missed = self.s.events.iter().any(|e| matches!(e.1, Ev::Fault { class: "open directory" | "read directory", .. }));
                            if self.s.ended.as_deref() != Some("chooser") && !missed && *sure && self.s.fed > i + 1 {
                                self.bad("completion", format!("a Tab on line {} {:?} found no completion although there is one", i + 1, self.s.typed.get(i)));
                            }
                            self.fatal = true;
                            if !shown {
                                let j = self.judged;
                                return (self.out, j);
                            }
                            break;
                        }
                        _ => continue,
                    }
                }
                match parse(&t) {
                    Ok(l) => self.line_checks_before(&l, &c),
                    Err(_) => {
                        self.reported(&t, i + 1, c.cert);
                        self.last = St::Unknown;
                    }
                }
            }
        }
        self.after();
        let j = self.judged;
        (self.out, j)
    }
    /// the directory named by HOME, if it can be told
    fn home(&self) -> Option<Option<String>> {
        match self.env.vars.get("HOME") {
            None => Some(None),
            Some(v) if v.gone || !v.is_exported => Some(None),
            Some(v) if v.exported == v.val => v.val.clone().map(Some),
            Some(_) => None,
        }
    }
    /// the startup files, which count as the line before the first
    fn startup(&mut self, base: &Ctx) {
        for f in [".rshrc", ".profile"] {
            let Some(Some(home)) = self.home() else { continue };
            let p = format!("{}/{}", home, f);
            if self.s.sc.files.iter().any(|f| f.0 == format!("{}/keep", p)) {
                self.reported("a directory cannot be read |", 0, Tri::Yes);
            }
            let Some(f) = self.s.sc.files.iter().find(|f| f.0 == p) else { continue };
            let t = String::from_utf8_lossy(&file_content(&f.1)).into_owned();
            self.last = St::Unknown;
            let mut c = base.clone();
            c.line = RC_LINE;
            // it is not executed, not even in part, when it cannot be opened and read
            let o = self.s.recs[0].opened.iter().find(|o| o.1 == p).cloned();
            // (not opened at all: what is in it will be missing)
            let Some(o) = o.or((self.s.fed > 0 && !self.any_fault && self.s.recs[0].exec.is_none()).then(Default::default)) else { continue };
            if o.3 < 0 {
                continue;
            }
            let mut unread = false;
            for (st, e) in self.s.events.iter().filter(|e| e.0 >= o.0) {
                match e {
                    Ev::Fork { parent: 0, .. } => break,
                    Ev::Open { uid: 0, .. } if *st > o.0 => break,
                    Ev::Fault { uid: 0, class: "read", .. } => unread = true,
                    _ => {}
                }
            }
            if unread {
                continue;
            }
            match parse(&t) {
                Ok(l) => self.line_checks_before(&l, &c),
                Err(_) => {
                    if let Some(bad) = t.lines().find(|l| broken(l)) {
                        let bad = bad.to_string();
                        self.reported(&bad, 0, Tri::Yes);
                    }
                }
            }
        }
    }
    /// something the shell printed on this line (0 = before the first) could not be written
    fn mute(&self, line: usize) -> bool {
        self.s.events.iter().any(|e| matches!(e.1, Ev::Fault { class: "output", line: l, .. } if l == line || !self.typed()))
    }
    /// a text that is no command is an error message
    fn reported(&mut self, t: &str, line: usize, cert: Tri) {
        let back = if line == 0 { self.s.fed > 0 } else { self.prompt.contains_key(&(line - 1)) };
        if cert != Tri::Yes || !self.typed() || self.s.sc.cfg.mode == Mode::Tty || !broken(t) || self.fatal || !back || self.mute(line) {
            return;
        }
        self.judged += 1;
        if !self.s.outs.iter().any(|o| o.uid == 0 && o.line == line && !o.data.is_empty()) {
            self.bad("error-silent", format!("an error was not reported: {:?} (line {})", t.trim_end_matches(" |"), line));
        }
    }
    fn line_checks_before(&mut self, l: &List, c: &Ctx) {
        if l.is_empty() {
            return;
        }
        self.list(l, c);
        if self.typed() && c.cert == Tri::Yes {
            // the next line is read only when the foreground work is done
            if let Some(p) = self.prompt.get(&c.line).copied() {
                let g = self.fg_of_line.get(&c.line).cloned().unwrap_or_default();
                for grp in g {
                    self.judged += 1;
                    if let Some(u) = self.unfinished(&grp, p) {
                        let n = self.s.name_of(u);
                        self.bad("prompt-early", format!("the shell read the next input while {} of foreground line {} was still running", n, ord(c.line)));
                    }
                }
            }
        }
    }
    /// a process of the group that neither ended nor was stopped (group-wise) by that step
    fn unfinished(&self, grp: &[usize], st: u64) -> Option<usize> {
        if grp.iter().any(|u| self.any_stop(*u, 0, st)) {
            return None;
        }
        grp.iter().copied().find(|u| self.end_of(*u).map(|e| e > st).unwrap_or(true))
    }

    fn list(&mut self, l: &List, c: &Ctx) -> St {
        let mut last = St::Known(0);
        for ao in l {
            if self.exited == Tri::Yes && c.root {
                break;
            }
            let mut cur = St::Unknown;
            for (op, p) in ao {
                let sel = match op {
                    Op::First => Tri::Yes,
                    Op::And => cur.ok(),
                    Op::Or => match cur.ok() {
                        Tri::Yes => Tri::No,
                        Tri::No => Tri::Yes,
                        Tri::Maybe => Tri::Maybe,
                    },
                };
                if sel == Tri::No {
                    continue;
                }
                let mut c2 = c.clone();
                if sel == Tri::Maybe || self.exited == Tri::Maybe && c.root {
                    c2.cert = Tri::Maybe;
                }
                let st = self.pipeline(p, &c2);
                if self.exited == Tri::Yes && c.root {
                    return st;
                }
                cur = if sel == Tri::Maybe { St::Unknown } else { st };
            }
            last = cur;
            self.last = cur;
        }
        last
    }

    fn pipeline(&mut self, p: &Pipeline, c: &Ctx) -> St {
        let st = if !p.bg && p.stages.len() == 1 { self.single(&p.stages[0], c) } else { self.multi(p, c) };
        let st = if self.is_faulted(c.line) { self.faulted_status(p, c, st) } else { st };
        if p.neg && st == St::Fail && self.is_faulted(c.line) {
            St::Unknown // (where it could not be started, `!` does not make that a success)
        } else if p.neg {
            st.neg()
        } else {
            st
        }
    }

    /// A fault struck on this line: a last command that was started has its own status, one that was
    /// not has failed.  (Where the shell drops the rest of the line, nothing depends on it.)
    fn faulted_status(&self, p: &Pipeline, c: &Ctx, st: St) -> St {
        let Some(Cmd::Simple { words, .. }) = p.stages.last() else { return St::Unknown };
        let Some(tag) = words.first().and_then(|w| w.lit()) else { return St::Unknown };
        if p.bg || !c.root || c.nest > 0 || !tag.strip_prefix('u').is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit())) {
            return St::Unknown;
        }
        let uses = |t: &str| t.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| *w == tag).count();
        let n: usize = self.s.sc.lines.iter().map(|l| uses(&l.text)).sum::<usize>() + self.s.sc.files.iter().map(|f| uses(&f.1)).sum::<usize>();
        if n != 1 {
            return St::Unknown;
        }
        if self.s.execs.iter().any(|e| e.tag == tag) {
            return st;
        }
        St::Fail
    }
    /// next instance of this command
    fn take(&mut self, tag: &str, c: &Ctx) -> Option<usize> {
        let typed = self.typed();
        let u = self.by_tag.get(tag)?.iter().copied().find(|u| {
            let l = self.s.recs[*u].line;
            !self.used.contains(u) && (!typed || l == ord(c.line))
        })?;
        self.used.insert(u);
        Some(u)
    }
    fn excused(&self, c: &Ctx) -> bool {
        if c.cert != Tri::Yes || self.fatal || self.is_faulted(c.line) {
            return true;
        }
        let typed = self.typed();
        self.s.recs.iter().any(|r| {
            r.uid != 0
                && r.exec.is_none()
                && (!typed || r.line == ord(c.line))
                && match r.status {
                    None => c.job.is_some() || !r.stops.is_empty(),
                    Some(s) => signaled(s),
                }
        })
    }
    fn expand(&mut self, words: &[Word], c: &Ctx) -> (Option<Vec<Vec<String>>>, Vec<usize>) {
        // returns the accepted argument lists, and the instances of substituted commands
        let mut lists: Vec<Vec<String>> = vec![vec![]];
        let mut known = true;
        let mut inner = vec![];
        for w in words {
            let mut txt: Option<String> = Some(String::new());
            let mut has_subst = false;
            for p in &w.parts {
                match p {
                    Part::Lit(s) => {
                        if let Some(t) = &mut txt {
                            t.push_str(s)
                        }
                    }
                    Part::Var(n) => match self.env.vars.get(n) {
                        Some(Var { val: Some(v), .. }) if !v.is_empty() => {
                            if let Some(t) = &mut txt {
                                t.push_str(v)
                            }
                        }
                        _ => txt = None,
                    },
                    Part::Subst(s) => {
                        has_subst = true;
                        let (o, ids) = self.subst(s, c);
                        inner.extend(ids);
                        match (o, &mut txt) {
                            (Some(o), Some(t)) => t.push_str(&o),
                            _ => txt = None,
                        }
                    }
                }
            }
            match txt {
                None => known = false,
                Some(t) => {
                    if has_subst {
                        if t.is_empty() {
                            // nothing: either no word or an empty word
                            let mut more = vec![];
                            for l in &lists {
                                let mut l = l.clone();
                                l.push(String::new());
                                more.push(l);
                            }
                            lists.extend(more);
                        } else if t.contains(' ') {
                            for l in lists.iter_mut() {
                                l.extend(t.split_whitespace().map(|x| x.to_string()));
                            }
                        } else {
                            for l in lists.iter_mut() {
                                l.push(t.clone());
                            }
                        }
                    } else {
                        for l in lists.iter_mut() {
                            l.push(t.clone());
                        }
                    }
                }
            }
        }
        (if known { Some(lists) } else { None }, inner)
    }
    fn subst(&mut self, text: &str, c: &Ctx) -> (Option<String>, Vec<usize>) {
        let l = match parse(text) {
            Ok(l) => l,
            Err(_) => return (None, vec![]),
        };
        let save_env = self.env.clone();
        let save_prev = std::mem::take(&mut self.prev);
        let save_last = self.last;
        let save_ex = self.exited;
        let n0 = self.insts.len();
        let want: Vec<String> = names(&l);
        self.npipe += 1;
        let pw = Std::PipeW(self.npipe);
        // the shell itself substitutes before it starts a background job
        let job = if c.root { None } else { c.job };
        let c2 = Ctx { line: c.line, cert: c.cert, root: false, job, std: [Std::Any, pw.clone(), c.std[2].clone()], more: c.more.clone(), nest: c.nest + 1, sub: true };
        let (before, nb) = (self.allow_missing.len(), self.nbuiltin);
        self.list(&l, &c2);
        let sure = self.allow_missing.len() == before && self.nbuiltin == nb;
        self.exited = save_ex;
        self.last = save_last;
        self.env = save_env;
        self.prev = save_prev;
        let ids: Vec<usize> = (n0..self.insts.len()).collect();
        let mut bytes = vec![];
        let mut unsure = !sure || c.cert != Tri::Yes || self.is_faulted(c.line);
        for i in &ids {
            let ins = &self.insts[*i];
            if ins.std[1] == pw && !want.is_empty() && ins.direct {
                bytes.extend_from_slice(&self.s.recs[ins.uid].out);
            }
            if self.s.recs[ins.uid].stops.iter().any(|x| x.2) {
                unsure = true;
            }
        }
        if unsure {
            return (None, ids);
        }
        (Some(String::from_utf8_lossy(&bytes).trim().to_string()), ids)
    }

    fn abs_of(&self, p: &str) -> Option<String> {
        if p.starts_with('/') {
            return Some(abs("/", p));
        }
        self.env.cwd.as_ref().map(|c| abs(c, p))
    }
    fn is_dir(&mut self, p: &str) -> bool {
        match self.s.fs.walk(ROOT, p) {
            Ok((_, _, Some(i))) => matches!(self.s.fs.inodes[i].node, Node::Dir(_)),
            _ => false,
        }
    }
    fn exists(&self, p: &str) -> Tri {
        if p == "/dev/null" || self.s.sc.files.iter().any(|f| f.0 == p) || p == "/bin/noexec" || p == "/bin/notbin" {
            return Tri::Yes;
        }
        self.created.get(p).copied().unwrap_or(Tri::No)
    }
    /// does opening all these succeed?
    fn redirs_ok(&mut self, rs: &[RD], c: &Ctx) -> Tri {
        let mut res = Tri::Yes;
        for r in rs {
            let p = match &r.path {
                Some(p) => p.clone(),
                None => {
                    res = Tri::Maybe;
                    self.files_unsure = true;
                    continue;
                }
            };
            self.mentioned.insert(p.clone());
            *self.mentions.entry(p.clone()).or_insert(0) += 1;
            let ok = match r.kind {
                RKind::In => self.exists(&p),
                _ => {
                    let d = p.rfind('/').map(|i| if i == 0 { "/".to_string() } else { p[..i].to_string() }).unwrap_or("/".into());
                    if self.is_dir(&d) && !self.is_dir(&p) {
                        Tri::Yes
                    } else {
                        Tri::No
                    }
                }
            };
            match ok {
                Tri::No => {
                    // what was opened before the failing one may have been created or emptied
                    for q in rs {
                        if q == r {
                            break;
                        }
                        if q.kind != RKind::In {
                            if let Some(p) = &q.path {
                                self.loose.insert(p.clone());
                                let e = self.exists(p);
                                if e != Tri::Yes {
                                    self.created.insert(p.clone(), Tri::Maybe);
                                }
                            }
                        }
                    }
                    return if res == Tri::Maybe { Tri::Maybe } else { Tri::No };
                }
                Tri::Maybe => res = Tri::Maybe,
                Tri::Yes => {}
            }
        }
        if self.is_faulted(c.line) || c.cert != Tri::Yes {
            return Tri::Maybe;
        }
        res
    }
    fn resolve_redirs(&mut self, redirs: &[Redir]) -> Vec<RD> {
        let name = |w: &Word| match w.parts.as_slice() {
            [Part::Var(n)] => self.env.vars.get(n).and_then(|v| v.val.clone()).filter(|v| !v.is_empty()),
            _ => w.lit().map(|p| p.to_string()),
        };
        let l: Vec<(RKind, i32, Option<String>)> = redirs.iter().map(|r| (r.kind.clone(), r.fd, name(&r.path))).collect();
        l.into_iter().map(|(kind, fd, p)| RD { kind, fd, path: p.and_then(|p| self.abs_of(&p)) }).collect()
    }

    fn unalias(&self, words: &[Word]) -> Vec<Word> {
        match words[0].lit().and_then(|n| self.env.aliases.get(n)) {
            Some(a) => a.iter().map(|t| Word { parts: vec![Part::Lit(t.clone())], quoted: false }).chain(words[1..].iter().cloned()).collect(),
            None => words.to_vec(),
        }
    }
    /// start of an external command; returns (instance, status)
    fn external(&mut self, assigns: &[(String, Word)], words: &[Word], redirs: &[Redir], c: &Ctx) -> (Option<usize>, St, bool) {
        let (argv, inner) = self.expand(words, c);
        let (_, inner2) = self.expand(&[], c);
        let inner: Vec<usize> = inner.into_iter().chain(inner2).collect();
        let rd = self.resolve_redirs(redirs);
        let rok = self.redirs_ok(&rd, c);
        let name = match words[0].lit() {
            Some(n) => n.to_string(),
            None => return (None, St::Unknown, false),
        };
        let found = self.lookup(&name);
        if !is_tag(&name) || found.as_ref().is_some_and(|f| f.is_empty()) {
            // missing or not executable: fails, unless its redirection fails before
            if rok != Tri::No {
                for r in &rd {
                    if r.kind != RKind::In {
                        if let Some(p) = &r.path {
                            self.loose.insert(p.clone());
                            if self.exists(p) != Tri::Yes {
                                self.created.insert(p.clone(), Tri::Maybe);
                            }
                        }
                    }
                }
            }
            return (None, St::Fail, true);
        }
        self.judged += 1;
        if rok == Tri::No {
            return (None, St::Fail, true); // must not be executed: surplus instances are reported later
        }
        let u = match self.take(base(&name), c) {
            Some(u) => u,
            None => {
                if rok == Tri::Maybe {
                    self.loosen(&rd);
                    return (None, St::Unknown, false);
                }
                if found.is_some() && !self.excused(c) {
                    let t = &self.s.sc.lines.get(c.line).map(|l| l.text.clone()).unwrap_or_default();
                    self.bad("exec-missing", format!("{} of line {} `{}` was never started", name, ord(c.line), t));
                }
                self.allow_missing.insert(self.allow_missing.len());
                self.loosen(&rd);
                return (None, St::Unknown, false);
            }
        };
        self.became(&name, found, u, c);
        for r in &rd {
            if r.kind != RKind::In {
                if let Some(p) = &r.path {
                    self.created.insert(p.clone(), Tri::Yes);
                }
            }
        }
        let mut std = c.std.clone();
        for r in &rd {
            if (0..3).contains(&r.fd) {
                std[r.fd as usize] = match &r.path {
                    Some(p) if p == "/dev/null" => Std::Any,
                    Some(p) => Std::File(p.clone()),
                    None => Std::Any,
                };
            }
        }
        let env = self.env_of(assigns);
        // inner commands of substitutions are over before the outer command starts
        let ex = self.s.recs[u].exec.map(|i| self.s.execs[i].step).unwrap_or(u64::MAX);
        for i in &inner {
            let iu = self.insts[*i].uid;
            let stopped = self.s.recs[iu].stops.iter().any(|x| x.2);
            // Ctrl-C killed the child that waits for it as well, and it is about to die
            let p = self.s.recs[iu].parent;
            let dead = self.s.recs[iu].status.is_some_and(signaled) || p != 0 && self.s.recs[p].status.is_some_and(signaled);
            let hit = dead && self.s.events.iter().any(|(st, e)| *st < ex && *st >= self.s.recs[if p != 0 { p } else { iu }].fork_step && matches!(e, Ev::Sig { sig: SIGINT, .. }));
            if !stopped && !hit && self.end_of(iu).map(|e| e > ex).unwrap_or(true) && !self.any_fault {
                let n = self.s.name_of(iu);
                self.bad("subst-order", format!("{} was started while {} of its substitution was still running (line {})", name, n, ord(c.line)));
            }
        }
        self.insts.push(Inst {
            tag: base(&name).to_string(),
            name,
            uid: u,
            line: c.line,
            argv,
            cwd: self.env.cwd.clone(),
            env,
            more: c.more.clone(),
            std,
            redirs: rd,
            job: c.job,
            direct: true,
            check_parent: c.root,
            nest: c.nest,
            sub: c.sub,
        });
        let st = match self.s.recs[u].status {
            Some(s) if !signaled(s) => St::Known((s >> 8) & 0xff),
            Some(_) => St::Fail,
            None => St::Unknown,
        };
        (Some(self.insts.len() - 1), st, true)
    }
    /// the process runs the file its command name stands for
    fn became(&mut self, name: &str, found: Option<Vec<String>>, u: usize, c: &Ctx) {
        if let (Some(f), Some(x)) = (found, self.s.recs[u].exec) {
            // (what could not be looked at is passed over)
            let mut fails = self.s.recs[u].stat_fail.clone();
            let want = f.into_iter().find(|p| match fails.iter().position(|x| x == p) {
                Some(k) => {
                    fails.remove(k);
                    false
                }
                None => true,
            });
            let x = &self.s.execs[x];
            let got = x.cwd.as_ref().map(|d| abs(d, &x.path)).or(if x.path.starts_with('/') { Some(abs("/", &x.path)) } else { None });
            self.judged += 1;
            if let Some(got) = got.filter(|g| Some(g) != want.as_ref()) {
                let w = want.map(|w| format!("{} was due", w)).unwrap_or("nothing of that name could be found".into());
                self.bad("lookup", format!("`{}` of line {} ran {} where {}", name, ord(c.line), got, w));
            }
        }
    }
    fn env_of(&self, assigns: &[(String, Word)]) -> BTreeMap<String, EnvX> {
        let mut env: BTreeMap<String, EnvX> = BTreeMap::new();
        for (k, v) in &self.env.vars {
            env.insert(
                k.clone(),
                if v.is_exported {
                    match (&v.exported, &v.val) {
                        (Some(a), Some(b)) if a == b => EnvX::One(a.clone()),
                        (Some(a), Some(b)) => EnvX::Two(a.clone(), b.clone()),
                        _ => EnvX::Any,
                    }
                } else if v.val.is_some() || v.gone {
                    EnvX::Absent
                } else {
                    EnvX::Any
                },
            );
        }
        for (k, w) in assigns {
            let x = match w.parts.as_slice() {
                [Part::Lit(s)] => EnvX::One(s.clone()),
                [Part::Var(n)] => match self.env.vars.get(n) {
                    Some(Var { val: Some(v), .. }) if !v.is_empty() => EnvX::One(v.clone()),
                    _ => EnvX::Any,
                },
                _ => EnvX::Any,
            };
            env.insert(k.clone(), x);
        }
        env
    }
    /// The executable files a command name stands for, best first; None if that is not known.
    fn lookup(&mut self, name: &str) -> Option<Vec<String>> {
        let v = if name.contains('/') {
            vec![self.abs_of(name)?]
        } else {
            let v = self.env.vars.get("PATH")?;
            if v.gone {
                return Some(vec![]);
            }
            let p = v.val.clone()?;
            let mut v = vec![];
            for d in p.split(':') {
                v.push(self.abs_of(&format!("{}/{}", d, name))?);
            }
            v
        };
        Some(v.into_iter().filter(|p| self.is_executable(p)).collect())
    }
    /// the file `source` reads: in a directory of PATH, else in the working directory
    fn source_of(&mut self, a: &str) -> Option<String> {
        if !a.contains('/') {
            let v = self.env.vars.get("PATH").cloned().unwrap_or_default();
            if !v.gone {
                for d in v.val?.split(':') {
                    let p = self.abs_of(&format!("{}/{}", d, a))?;
                    if matches!(self.s.fs.walk(ROOT, &p), Ok((_, _, Some(i))) if matches!(self.s.fs.inodes[i].node, Node::File(_))) {
                        return Some(self.real(p));
                    }
                }
            }
        }
        self.abs_of(a).map(|p| self.real(p))
    }
    /// without symbolic links
    fn real(&mut self, p: String) -> String {
        match self.s.fs.walk(ROOT, &p) {
            Ok((d, n, Some(_))) => self.s.fs.path_of(d).map(|d| abs("/", &format!("{}/{}", d, n))).unwrap_or(p),
            _ => p,
        }
    }
    fn is_executable(&mut self, p: &str) -> bool {
        match self.s.fs.walk(ROOT, p) {
            Ok((_, _, Some(i))) => matches!(self.s.fs.inodes[i].node, Node::File(_)) && self.s.fs.inodes[i].mode & 0o111 != 0,
            _ => false,
        }
    }
    fn loosen(&mut self, rd: &[RD]) {
        for r in rd {
            if r.kind != RKind::In {
                if let Some(p) = &r.path {
                    self.loose.insert(p.clone());
                    if self.exists(p) != Tri::Yes {
                        self.created.insert(p.clone(), Tri::Maybe);
                    }
                }
            }
        }
    }

    fn check_order(&mut self, u: usize, c: &Ctx) {
        let fs = self.s.recs[u].fork_step;
        for g in self.prev.clone() {
            self.judged += 1;
            if let Some(x) = self.unfinished(&g, fs) {
                let (a, b) = (self.s.name_of(u), self.s.name_of(x));
                self.bad("order", format!("{} (line {}) was started while {} of an earlier foreground command was still running", a, ord(c.line), b));
            }
        }
    }
    fn note_fg(&mut self, uids: Vec<usize>, c: &Ctx) {
        if uids.is_empty() {
            return;
        }
        self.prev.push(uids.clone());
        if c.root && c.job.is_none() {
            self.fg_of_line.entry(c.line).or_default().push(uids);
        }
    }

    /// what a builtin leaves that has done its work
    fn ok(&self, c: &Ctx) -> St {
        if self.is_faulted(c.line) { St::Unknown } else { St::Known(0) }
    }
    fn single(&mut self, cmd: &Cmd, c: &Ctx) -> St {
        match cmd {
            Cmd::Func { name, body } => {
                if c.cert == Tri::Yes {
                    self.env.funcs.insert(name.clone(), body.clone());
                }
                self.ok(c)
            }
            Cmd::Simple { assigns, words, redirs } => {
                if words.is_empty() {
                    let mut ro = false;
                    for (k, w) in assigns {
                        let v = match w.parts.as_slice() {
                            [Part::Lit(s)] => Some(s.clone()),
                            [Part::Var(n)] => self.env.vars.get(n).and_then(|v| v.val.clone()).filter(|v| !v.is_empty()),
                            _ => None,
                        };
                        let e = self.env.vars.entry(k.clone()).or_default();
                        if e.readonly {
                            ro = true;
                            continue;
                        }
                        e.val = if c.cert == Tri::Yes { v } else { None };
                        e.gone = false;
                    }
                    return if ro || assigns.iter().any(|(_, w)| !matches!(w.parts.as_slice(), [] | [Part::Lit(_)] | [Part::Var(_)])) { St::Unknown } else { self.ok(c) };
                }
                let words = &self.unalias(words);
                let n = words[0].lit().unwrap_or("").to_string();
                // (a builtin or a function: the shell itself is redirected)
                let own;
                let rd = if is_builtin(&n) || self.env.funcs.contains_key(&n) { self.resolve_redirs(redirs) } else { vec![] };
                let c = if rd.is_empty() {
                    c
                } else {
                    let rok = self.redirs_ok(&rd, c);
                    self.loosen(&rd);
                    if rok == Tri::No {
                        return St::Fail;
                    }
                    let mut c2 = c.clone();
                    if rok == Tri::Maybe {
                        c2.cert = Tri::Maybe;
                    }
                    for r in &rd {
                        if (0..3).contains(&r.fd) {
                            c2.std[r.fd as usize] = match &r.path {
                                Some(p) if p == "/dev/null" => Std::Any,
                                Some(p) => Std::File(p.clone()),
                                None => Std::Any,
                            };
                        } else {
                            c2.more.push(r.fd);
                        }
                        if let (Some(p), true, true) = (&r.path, rok == Tri::Yes && c.root, r.kind != RKind::In) {
                            self.created.insert(p.clone(), Tri::Yes);
                        }
                    }
                    if let ("pwd", [RD { kind: RKind::Out, fd: 1, path: Some(p) }], Tri::Yes, Some(d)) = (n.as_str(), rd.as_slice(), c2.cert, self.env.cwd.clone()) {
                        let sig = self.s.events.iter().any(|e| matches!(e.1, Ev::Sig { .. }));
                        if (c.root || !sig && !self.excused(c)) && !p.starts_with("/dev/") {
                            self.exact.push((c.line, p.clone(), format!("{}\n", d)));
                        }
                    }
                    own = c2;
                    &own
                };
                if let Some(st) = self.builtin(&n, words, c) {
                    if !(n == "cd" && st == St::Known(0)) {
                        self.nbuiltin += 1;
                    }
                    return st;
                }
                if let Some(body) = self.env.funcs.get(&n).cloned() {
                    return self.call(&n, &body, words, c);
                }
                let (i, st, sure) = self.external(assigns, words, redirs, c);
                match i {
                    Some(i) => {
                        let u = self.insts[i].uid;
                        self.check_order(u, c);
                        self.note_fg(vec![u], c);
                        self.jobs.push(JobM { names: vec![self.insts[i].name.clone()], tags: vec![self.insts[i].tag.clone()], uids: vec![u], sure: true, bg: false, line: c.line, ids: BTreeSet::new() });
                        if !c.root {
                            self.jobs.pop();
                        }
                        if self.s.recs[u].stops.iter().any(|x| x.2) {
                            St::Unknown
                        } else {
                            st
                        }
                    }
                    None => {
                        if !sure {
                            if c.root && is_tag(&n) {
                                self.jobs.push(JobM { names: vec![n.clone()], tags: vec![base(&n).to_string()], uids: vec![], sure: false, bg: false, line: c.line, ids: BTreeSet::new() });
                            }
                            St::Unknown
                        } else {
                            st
                        }
                    }
                }
            }
        }
    }

    /// a function's arguments are in force for the time of the call
    fn call(&mut self, name: &str, body: &List, words: &[Word], c: &Ctx) -> St {
        let pos = |k: &String| k.bytes().all(|b| b.is_ascii_digit());
        let saved: Vec<(String, Var)> = self.env.vars.iter().filter(|(k, _)| pos(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
        let (args, _) = self.expand(&words[1..], c);
        self.env.vars.retain(|k, _| !pos(k));
        if let Some(a) = args.filter(|a| a.len() == 1) {
            let a = a.into_iter().next().unwrap();
            for (i, a) in std::iter::once(name.to_string()).chain(a).enumerate() {
                self.env.vars.insert(i.to_string(), Var { val: Some(a), ..Var::default() });
            }
        }
        let st = self.list(body, c);
        self.env.vars.retain(|k, _| !pos(k));
        self.env.vars.extend(saved);
        st
    }
    fn multi(&mut self, p: &Pipeline, c: &Ctx) -> St {
        let n = p.stages.len();
        let jid = self.jobs.len();
        let has_job = c.root;
        if has_job {
            self.jobs.push(JobM { names: vec![], tags: vec![], uids: vec![], sure: true, bg: p.bg, line: c.line, ids: BTreeSet::new() });
        }
        let job = if p.bg && c.root { Some(jid) } else { c.job };
        let mut st = St::Unknown;
        let mut stage_insts: Vec<(Vec<usize>, bool)> = vec![];
        let mut direct: Vec<usize> = vec![];
        let pipe0 = self.npipe + 1;
        self.npipe += n;
        let mut all_known = true;
        let mut texts: BTreeMap<usize, Vec<u8>> = BTreeMap::new(); // what builtins print
        for (k, cmd) in p.stages.iter().enumerate() {
            let mut c2 = c.clone();
            c2.job = job;
            if k > 0 {
                c2.std[0] = Std::PipeR(pipe0 + k - 1);
            } else if p.bg {
                c2.std[0] = Std::Any;
            }
            if k + 1 < n {
                c2.std[1] = Std::PipeW(pipe0 + k);
            }
            let (assigns, words, redirs) = match cmd {
                Cmd::Simple { assigns, words, redirs } if !words.is_empty() => (assigns, words, redirs),
                _ => {
                    all_known = false;
                    stage_insts.push((vec![], false));
                    continue;
                }
            };
            let words = &self.unalias(words);
            let nm = words[0].lit().unwrap_or("").to_string();
            if has_job {
                self.jobs[jid].names.push(nm.clone());
            }
            if is_builtin(&nm) {
                // in a process of its own, like every other stage
                all_known = false;
                if has_job {
                    self.jobs[jid].sure = false;
                }
                let (bst, text) = self.builtin_stage(&nm, words, redirs, &c2);
                if let Some(t) = text {
                    texts.insert(k, t);
                }
                stage_insts.push((vec![], false));
                if k + 1 == n {
                    st = bst;
                }
                continue;
            }
            if let Some(body) = self.env.funcs.get(&nm).cloned() {
                let n0 = self.insts.len();
                let save_env = self.env.clone();
                let save_prev = self.prev.clone();
                let save_last = self.last;
                let save_ex = self.exited;
                let (miss, nb) = (self.allow_missing.len(), self.nbuiltin);
                let mut c3 = c2.clone();
                c3.root = false;
                c3.nest = c2.nest + 1;
                let fst = self.call(&nm, &body, words, &c3);
                self.exited = save_ex;
                self.last = save_last;
                self.env = save_env;
                self.prev = save_prev;
                let ids: Vec<usize> = (n0..self.insts.len()).collect();
                // builtins write to its pipes, too
                let known = self.allow_missing.len() == miss && self.nbuiltin == nb && c2.cert == Tri::Yes;
                let par: BTreeSet<usize> = ids.iter().filter(|i| self.insts[**i].nest == c3.nest).map(|i| self.s.recs[self.insts[*i].uid].parent).collect();
                if has_job {
                    let t: Vec<String> = ids.iter().map(|i| self.insts[*i].tag.clone()).collect();
                    self.jobs[jid].tags.extend(t);
                }
                if par.len() > 1 && known && !self.fatal {
                    self.bad("exec-parent", format!("the commands of one call of {} (line {}) were started by different processes", nm, ord(c.line)));
                }
                match par.iter().next() {
                    Some(u) if *u != 0 => {
                        direct.push(*u);
                        if has_job {
                            self.jobs[jid].uids.push(*u);
                        }
                        if k + 1 == n {
                            st = match self.s.recs[*u].status {
                                Some(s) if signaled(s) => St::Fail,
                                Some(_) => fst,
                                None => St::Unknown,
                            };
                        }
                    }
                    Some(_) => {
                        self.bad("exec-parent", format!("function {} of line {} ran in the shell itself instead of a child", nm, ord(c.line)));
                    }
                    None => {
                        all_known = false;
                        if has_job {
                            self.jobs[jid].sure = false;
                        }
                    }
                }
                stage_insts.push((ids, known));
                continue;
            }
            if has_job && is_tag(&nm) {
                self.jobs[jid].tags.push(base(&nm).to_string());
            }
            let (i, s1, sure) = self.external(assigns, words, redirs, &c2);
            match i {
                Some(i) => {
                    let u = self.insts[i].uid;
                    direct.push(u);
                    if has_job {
                        self.jobs[jid].uids.push(u);
                    }
                    stage_insts.push((vec![i], true));
                }
                None => {
                    if !sure {
                        all_known = false;
                    }
                    if has_job {
                        self.jobs[jid].sure = false; // a process of unknown identity
                    }
                    stage_insts.push((vec![], sure));
                }
            }
            if k + 1 == n {
                st = s1;
            }
        }
        // pipes between the stages
        for k in 0..n - 1 {
            let (w, wk) = stage_insts[k].clone();
            let (r, rk) = stage_insts[k + 1].clone();
            if (wk || texts.contains_key(&k)) && rk {
                let w: Vec<usize> = w.into_iter().filter(|i| self.insts[*i].std[1] == Std::PipeW(pipe0 + k)).collect();
                let r: Vec<usize> = r.into_iter().filter(|i| self.insts[*i].std[0] == Std::PipeR(pipe0 + k)).collect();
                let what = format!("{} | {}", pname(&p.stages[k]), pname(&p.stages[k + 1]));
                let fixed = texts.get(&k).cloned();
                self.pipes.push(PipeChk { line: c.line, w, r, what, fixed });
            }
        }
        if let Some(u) = direct.first().copied() {
            self.check_order(u, c);
            for u in direct.iter().skip(1) {
                self.check_order(*u, c);
            }
        }
        if p.bg {
            // started is all it takes
            return if direct.len() == n && all_known { St::Known(0) } else { St::Unknown };
        }
        self.note_fg(direct.clone(), c);
        if !all_known && st != St::Fail {
            // the last stage's status is still its own
        }
        if direct.iter().any(|u| self.s.recs[*u].stops.iter().any(|x| x.2)) {
            return St::Unknown;
        }
        st
    }

    /// a builtin as a stage: its status and what it prints
    fn builtin_stage(&mut self, nm: &str, words: &[Word], redirs: &[Redir], c: &Ctx) -> (St, Option<Vec<u8>>) {
        let rd = self.resolve_redirs(redirs);
        let rok = self.redirs_ok(&rd, c);
        if !rd.is_empty() {
            self.loosen(&rd);
        }
        if rok == Tri::No {
            return (St::Fail, None);
        }
        let (save_env, save_prev, save_last, save_ex) = (self.env.clone(), self.prev.clone(), self.last, self.exited);
        let n0 = self.insts.len();
        let mut c3 = c.clone();
        c3.root = false;
        c3.nest = c.nest + 1;
        let st = if matches!(nm, "fg" | "bg") { St::Unknown } else { self.builtin(nm, words, &c3).unwrap_or(St::Unknown) };
        let ran = self.insts.len() > n0;
        self.nbuiltin += 1;
        self.exited = save_ex;
        self.last = save_last;
        self.env = save_env;
        self.prev = save_prev;
        let (a, z) = self.window(c.line);
        let hit = self.s.events.iter().any(|(st, e)| *st >= a && *st <= z && matches!(e, Ev::Sig { .. }));
        if rok != Tri::Yes || c.cert != Tri::Yes || hit || ran {
            return (St::Unknown, None);
        }
        let text = match (nm, st) {
            ("pwd", St::Known(0)) if rd.is_empty() => self.env.cwd.clone().map(|d| format!("{}\n", d).into_bytes()),
            ("cd" | "export" | "alias" | "unset" | "unalias", St::Known(0)) if words.len() > 1 => Some(vec![]),
            // no other job than the one it belongs to
            ("jobs", St::Known(0)) if rd.is_empty() && c.root && self.s.recs.iter().all(|r| r.stops.is_empty()) => {
                let n = self.jobs.len() - 1;
                self.jobs[..n].iter().all(|j| !j.bg).then(Vec::new)
            }
            _ => None,
        };
        // what prints to a pipe may be killed by SIGPIPE
        let safe = text.as_ref().is_some_and(|t| t.is_empty()) || matches!(c.std[1], Std::Console(_));
        (if st == St::Known(0) && !safe { St::Unknown } else { st }, text)
    }

    fn window(&self, line: usize) -> (u64, u64) {
        (self.feed.get(&line).copied().unwrap_or(0), self.prompt.get(&line).copied().unwrap_or(u64::MAX))
    }
    fn root_text(&self, line: usize) -> String {
        let mut v = vec![];
        for o in &self.s.outs {
            if o.uid == 0 && o.fd == 1 && o.line == ord(line) && o.step <= self.s.became() {
                v.extend_from_slice(&o.data);
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    // ------------------------------------------------------------------ builtins
    fn builtin(&mut self, n: &str, words: &[Word], c: &Ctx) -> Option<St> {
        let yes = c.cert == Tri::Yes;
        let arg = |i: usize| words.get(i).and_then(|w| w.lit()).map(|s| s.to_string());
        let unknown_arg = words.iter().skip(1).any(|w| w.lit().is_none());
        if words.len() == 1 && matches!(n, "unset" | "readonly" | "unalias" | "source" | "." | "eval") {
            // an error: what is it to work on?
            return Some(St::Fail);
        }
        match n {
            "cd" => {
                if unknown_arg {
                    let (l, _) = self.expand(&words[1..], c);
                    match l {
                        Some(l) if l.len() == 1 && l[0].len() == 1 => {
                            let w = Word { parts: vec![Part::Lit(l[0][0].clone())], quoted: true };
                            return self.builtin(n, &[words[0].clone(), w], c);
                        }
                        _ => {
                            self.env.cwd = None;
                            return Some(St::Unknown);
                        }
                    }
                }
                let home = self.home();
                let t = match (arg(1), home) {
                    (Some(t), _) | (None, Some(Some(t))) => t,
                    (None, Some(None)) if yes => return Some(St::Fail),
                    (None, _) => {
                        self.env.cwd = None;
                        return Some(St::Unknown);
                    }
                };
                let t = match self.abs_of(&t) {
                    Some(t) => t,
                    None => return Some(St::Unknown),
                };
                if !yes || self.is_faulted(c.line) {
                    if self.env.cwd.as_deref() != Some(&t) {
                        self.env.cwd = None;
                    }
                    return Some(St::Unknown);
                }
                if self.is_dir(&t) {
                    self.env.cwd = Some(t);
                    Some(St::Known(0))
                } else {
                    Some(St::Fail)
                }
            }
            "pwd" => {
                if self.typed() && yes && !self.is_faulted(c.line) && c.root && c.std[1] == Std::Console(1) {
                    if let (Some(cwd), Some(_)) = (self.env.cwd.clone(), self.prompt.get(&c.line)) {
                        self.judged += 1;
                        let t = self.root_text(c.line);
                        if !t.lines().any(|l| l == cwd) {
                            self.bad("pwd", format!("pwd on line {} printed {:?}, the shell is in {}", ord(c.line), t, cwd));
                        }
                    }
                }
                Some(if self.is_faulted(c.line) { St::Unknown } else { St::Known(0) })
            }
            "export" => {
                if arg(1).as_deref() == Some("context") {
                    return Some(St::Unknown);
                }
                for w in &words[1..] {
                    let t = if w.lit().is_some() {
                        w.lit().map(|s| s.to_string())
                    } else {
                        let (l, _) = self.expand(&[w.clone()], c);
                        l.and_then(|l| l.first().map(|x| x.join(" ")))
                    };
                    let t = match t {
                        Some(t) => t,
                        None => return Some(St::Unknown),
                    };
                    let (k, v) = match t.split_once('=') {
                        Some((k, v)) => (k.to_string(), Some(v.to_string())),
                        None => (t, None),
                    };
                    if k.is_empty() {
                        return Some(St::Fail);
                    }
                    let e = self.env.vars.entry(k).or_default();
                    if e.readonly && v.is_some() {
                        return Some(St::Fail);
                    }
                    if v.is_some() {
                        e.gone = false;
                    }
                    if !yes {
                        e.val = None;
                        e.exported = None;
                        e.is_exported = true;
                        continue;
                    }
                    if let Some(v) = v {
                        e.val = Some(v.clone());
                        e.exported = Some(v);
                        e.is_exported = true;
                    } else if e.val.as_deref().map(|v| !v.is_empty()).unwrap_or(true) {
                        e.exported = e.val.clone();
                        e.is_exported = true;
                    }
                }
                Some(St::Unknown)
            }
            "readonly" => {
                // of a variable, which may be said with -v
                let a = match arg(1) {
                    Some(o) if o == "-v" => arg(2),
                    a => a,
                };
                let a = match a.filter(|a| !a.is_empty() && !a.starts_with('-')) {
                    Some(a) => a,
                    None => return Some(St::Unknown),
                };
                let (k, v) = match a.split_once('=') {
                    Some((k, v)) => (k.to_string(), Some(v.to_string())),
                    None => (a, None),
                };
                let fresh = !self.env.vars.contains_key(&k);
                let e = self.env.vars.entry(k).or_default();
                let sure = e.readonly && e.val.is_some();
                let asg = v.is_some();
                match v {
                    Some(_) if sure => (),
                    Some(v) => {
                        e.val = if yes && !e.readonly { Some(v) } else { None };
                        e.gone = false;
                    }
                    None if fresh || !yes => e.val = None,
                    None => (),
                }
                e.readonly = true;
                Some(match (asg, sure) {
                    (true, true) => St::Fail,
                    (true, false) => self.ok(c),
                    _ => St::Unknown,
                })
            }
            "unset" => {
                match (arg(1).as_deref(), arg(2)) {
                    (Some("-f"), Some(f)) if words.len() == 3 => {
                        if yes {
                            self.env.funcs.remove(&f);
                        }
                        return Some(self.ok(c));
                    }
                    (Some(o), k) => {
                        let k = if o == "-v" && words.len() == 3 { k } else if words.len() == 2 { Some(o.to_string()) } else { None };
                        if let Some(k) = k.filter(|k| !k.is_empty() && !k.starts_with('-')) {
                            let e = self.env.vars.entry(k).or_default();
                            if e.readonly {
                                if e.val.is_some() {
                                    return Some(St::Fail);
                                }
                                *e = Var { is_exported: true, ..Var::default() };
                                return Some(St::Unknown);
                            }
                            *e = if yes { Var { gone: true, ..Var::default() } } else { Var { is_exported: true, ..Var::default() } };
                            return Some(self.ok(c));
                        }
                    }
                    _ => (),
                }
                Some(St::Unknown)
            }
            "unalias" => {
                if let (Some(a), true) = (arg(1).filter(|_| words.len() == 2), yes) {
                    if a.starts_with("-a") {
                        self.env.aliases.clear();
                    } else {
                        self.env.aliases.remove(&a);
                    }
                    return Some(self.ok(c));
                }
                Some(St::Unknown)
            }
            "return" => Some(St::Unknown),
            "alias" => {
                for w in &words[1..] {
                    if let Some((k, v)) = w.parts.iter().map(|p| if let Part::Lit(s) = p { s.clone() } else { String::new() }).collect::<String>().split_once('=') {
                        if yes {
                            self.env.aliases.insert(k.to_string(), v.split_whitespace().map(|x| x.to_string()).collect());
                        }
                    }
                }
                Some(St::Unknown)
            }
            "jobs" => {
                if yes && c.root && matches!(c.std[1], Std::Console(1) | Std::Any) {
                    self.jobs_check(c);
                }
                Some(if self.is_faulted(c.line) { St::Unknown } else { St::Known(0) })
            }
            "fg" | "bg" => Some(self.fgbg(n, arg(1), c)),
            "exit" => {
                if !c.root {
                    return Some(St::Unknown);
                }
                let st = match arg(1) {
                    Some(a) => match a.parse::<i32>() {
                        Ok(n) => St::Known(n & 0xff),
                        Err(_) => {
                            // an error message; whether the shell leaves is not promised
                            self.exited = Tri::Maybe;
                            self.exit_st = St::Unknown;
                            return Some(St::Unknown);
                        }
                    },
                    None => self.last,
                };
                if yes {
                    self.exited = Tri::Yes;
                    self.exit_st = st;
                } else {
                    self.exited = Tri::Maybe;
                    self.exit_st = St::Unknown;
                }
                Some(st)
            }
            "source" => {
                let p = match arg(1).map(|a| (self.source_of(&a), a)) {
                    Some((Some(p), _)) => p,
                    Some((None, a)) => {
                        // it is not known which file that is: each of them may be read
                        let all: Vec<String> = self.s.sc.files.iter().filter(|f| base(&f.0) == base(&a)).map(|f| String::from_utf8_lossy(&file_content(&f.1)).into_owned()).collect();
                        for t in all {
                            if let Ok(l) = parse(&t) {
                                let mut c2 = c.clone();
                                c2.cert = Tri::Maybe;
                                self.list(&l, &c2);
                            }
                        }
                        self.last = St::Unknown;
                        return Some(St::Unknown);
                    }
                    None => return Some(St::Unknown),
                };
                let f = self.s.sc.files.iter().find(|f| f.0 == p).map(|f| String::from_utf8_lossy(&file_content(&f.1)).into_owned());
                let mut st = St::Unknown;
                if let Some(t) = f {
                    if let Ok(l) = parse(&t) {
                        let mut c2 = c.clone();
                        // (with the text of the files it sources)
                        let mut all = t.clone();
                        for _ in 0..2 {
                            for f in &self.s.sc.files {
                                if f.0.ends_with(".rsh") && all.contains(&format!("source {}", f.0)) {
                                    let x = String::from_utf8_lossy(&file_content(&f.1)).into_owned();
                                    if !all.contains(&x) {
                                        all.push_str(&x);
                                    }
                                }
                            }
                        }
                        let ran = |tag: &str| all.split(|c: char| !c.is_ascii_alphanumeric()).any(|w| w == tag);
                        let some = self.s.execs.iter().any(|e| (!self.typed() || self.s.recs[e.uid].line == ord(c.line)) && ran(&e.tag));
                        if self.is_faulted(c.line) && !some {
                            c2.cert = Tri::Maybe;
                        }
                        st = self.list(&l, &c2);
                    }
                }
                // the status of a sourced text is that of its last command
                if self.is_faulted(c.line) {
                    st = St::Unknown;
                }
                self.last = st;
                Some(st)
            }
            "eval" => {
                let mut st = St::Unknown;
                let t: Option<Vec<String>> = words[1..].iter().map(|w| w.lit().map(|s| s.to_string())).collect();
                if let Some(t) = t.filter(|t| !t.is_empty()) {
                    if let Ok(l) = parse(&t.join(" ")) {
                        st = self.list(&l, c);
                    }
                }
                if self.is_faulted(c.line) {
                    st = St::Unknown;
                }
                self.last = st;
                Some(st)
            }
            "exec" => Some(self.exec_into(words, c)),
            _ => None,
        }
    }

    /// `exec`: the shell becomes the program
    fn exec_into(&mut self, words: &[Word], c: &Ctx) -> St {
        let mut k = 1;
        let (mut bare, mut login, mut called) = (false, false, None);
        while let Some(o) = words.get(k).and_then(|w| w.lit()).and_then(|w| w.strip_prefix('-')) {
            k += 1;
            bare |= o.contains('c');
            login |= o.contains('l');
            if o.contains('a') {
                called = words.get(k).and_then(|w| w.lit()).map(|w| w.to_string());
                k += 1;
            }
        }
        let Some(name) = words.get(k).and_then(|w| w.lit()).map(|w| w.to_string()) else { return St::Fail };
        let (argv, inner) = self.expand(&words[k..], c);
        let found = self.lookup(&name);
        let into = self.s.recs[0].exec.filter(|_| c.root && !self.used.contains(&0));
        let into = into.filter(|i| self.s.execs[*i].tag == base(&name) && (!self.typed() || self.s.execs[*i].line == ord(c.line)));
        let Some(x) = into else {
            if !c.root {
                return St::Unknown;
            }
            if found.as_ref().is_some_and(|f| f.is_empty()) || !is_tag(&name) {
                return St::Fail;
            }
            if found.is_some() && !self.excused(c) {
                let t = &self.s.sc.lines.get(c.line).map(|l| l.text.clone()).unwrap_or_default();
                self.bad("exec-missing", format!("the shell did not become {} in line {} `{}`", name, ord(c.line), t));
            }
            return if self.is_faulted(c.line) { St::Fail } else { St::Unknown };
        };
        self.judged += 1;
        self.used.insert(0);
        self.became(&name, found, 0, c);
        let n = called.unwrap_or(name.clone());
        let n = if login { format!("-{}", n) } else { n };
        let e = self.s.execs[x].clone();
        if e.argv.first() != Some(&n) {
            self.bad("argv", format!("`exec` of {} on line {} started it as {:?} instead of {:?}", name, ord(c.line), e.argv.first(), n));
        }
        let mut env = self.env_of(&[]);
        if bare {
            if !e.env.is_empty() {
                self.bad("exec-envvar", format!("`exec -c {}` on line {} left {} variables in the environment", name, ord(c.line), e.env.len()));
            }
            env.clear();
        }
        for i in inner {
            let iu = self.insts[i].uid;
            if self.end_of(iu).map(|t| t > e.step).unwrap_or(true) && !self.any_fault && self.s.recs[iu].stops.is_empty() {
                let n = self.s.name_of(iu);
                self.bad("subst-order", format!("the shell became {} while {} of its substitution was still running (line {})", name, n, ord(c.line)));
            }
        }
        self.insts.push(Inst { tag: base(&name).to_string(), name, uid: 0, line: c.line, argv, cwd: self.env.cwd.clone(), env, std: c.std.clone(), more: c.more.clone(), redirs: vec![], job: None, direct: true, check_parent: false, nest: c.nest, sub: false });
        self.exited = Tri::Yes;
        self.exit_st = match self.s.recs[0].status {
            Some(s) if !signaled(s) => St::Known((s >> 8) & 0xff),
            _ => St::Unknown,
        };
        self.exit_st
    }
    fn job_of(&self, tag: &str) -> Option<usize> {
        self.jobs.iter().rposition(|j| j.tags.iter().any(|t| t == tag) || j.names.iter().any(|t| t == tag))
    }
    fn fgbg(&mut self, n: &str, arg: Option<String>, c: &Ctx) -> St {
        let raw = arg.unwrap_or_default();
        let tag = raw.find('@').map(|i| raw[i + 1..].trim_end_matches('@').splitn(2, ':').nth(1).unwrap_or("").to_string());
        if !self.typed() || c.cert != Tri::Yes || !c.root {
            return St::Unknown;
        }
        let (t0, t1) = self.window(c.line);
        if t1 == u64::MAX && self.fatal {
            return St::Unknown;
        }
        let t1 = if t1 == u64::MAX { self.s.step + 1 } else { t1 };
        let resolved = self.s.typed.get(c.line).cloned().unwrap_or_default();
        let j = match &tag {
            Some(t) => self.job_of(t),
            None => None,
        };
        // who was sent SIGCONT by the shell
        let mut cont: Vec<usize> = vec![];
        for (i, (st, e)) in self.s.events.iter().enumerate() {
            if let Ev::Kill { by: 0, sig, .. } = e {
                if *st >= t0 && *st <= t1 && *sig != 0 && !(*sig == SIGTSTP && self.s.sc.cfg.mode == Mode::Tty) {
                    // (Ctrl-Z in the line editor is a signal of the shell to itself)
                    cont.extend(self.s.kill_targets.get(&i).cloned().unwrap_or_default().into_iter().filter(|u| *u != 0));
                }
            }
        }
        self.judged += 1;
        let fallback = tag.is_some() && (resolved.contains("%99") || resolved.contains("999999"));
        let several = self.s.sc.lines.get(c.line).map(|l| l.text.matches("fg ").count() + l.text.matches("bg ").count() > 1).unwrap_or(false);
        match j {
            Some(j) if !fallback => {
                let job = self.jobs[j].clone();
                let mut members: BTreeSet<usize> = job.uids.iter().copied().collect();
                for i in &self.insts {
                    if job.tags.contains(&i.tag) {
                        members.insert(i.uid);
                    }
                }
                let dead = !job.uids.iter().any(|u| self.alive_at(*u, t0));
                if let Some(u) = cont.iter().find(|u| !members.contains(u)) {
                    // the number (or pid) of a job that is gone may belong to another one by now
                    if job.sure && !several && !dead {
                        let nm = self.s.name_of(*u);
                        self.bad("fgbg-target", format!("`{}` (line {}) sent a signal to {} which is no part of that job", resolved, ord(c.line), nm));
                    }
                }
                let live: Vec<usize> = job.uids.iter().copied().filter(|u| self.alive_at(*u, t0)).collect();
                let still: Vec<usize> = live.iter().copied().filter(|u| self.alive_at(*u, t1)).collect();
                if live.is_empty() || !job.sure {
                    return St::Unknown;
                }
                for u in &still {
                    let stopped_throughout = self.stopped_at(*u, t0) && !self.s.recs[*u].stops.iter().any(|x| x.0 >= t0 && x.0 <= t1);
                    if stopped_throughout && !cont.contains(u) {
                        let nm = self.s.name_of(*u);
                        self.bad("fgbg-cont", format!("`{}` (line {}) did not continue the stopped process {}", resolved, ord(c.line), nm));
                    }
                }
                if n == "fg" {
                    let g = job.uids.clone();
                    let restopped = g.iter().any(|u| self.any_stop(*u, t0, t1));
                    if let (false, Some(u)) = (restopped, still.first()) {
                        if self.prompt.contains_key(&c.line) {
                            let nm = self.s.name_of(*u);
                            self.bad("fg-wait", format!("`{}` (line {}) returned while {} was still running", resolved, ord(c.line), nm));
                        }
                    }
                    if self.jobs[j].uids.iter().any(|u| self.any_stop(*u, t0, t1)) {
                        return St::Unknown;
                    }
                    if !still.is_empty() || self.end_of(live[0]).is_none() {
                        return St::Unknown;
                    }
                    // commands after fg on this line come after the job
                    self.prev.push(live.clone());
                    // had every member still been there when fg looked?  else it may have said "no such job"
                    let certain = cont.iter().any(|u| members.contains(u));
                    let lu = *job.uids.last().unwrap();
                    if certain && job.names.last().map(|x| is_tag(x)).unwrap_or(false) {
                        return match self.s.recs[lu].status {
                            Some(s) if signaled(s) => St::Fail,
                            Some(s) => St::Known((s >> 8) & 0xff),
                            None => St::Unknown,
                        };
                    }
                    return St::Unknown;
                }
                St::Unknown
            }
            _ => {
                // unknown or malformed job
                if tag.is_none() && !several {
                    if let Some(u) = cont.first() {
                        let live_num = raw.trim_start_matches('%').parse::<i64>().is_ok();
                        let nm = self.s.name_of(*u);
                        if !live_num || raw.contains("77") {
                            self.bad("fgbg-target", format!("`{} {}` (line {}) names no job but a signal was sent to {}", n, raw, ord(c.line), nm));
                        }
                    }
                }
                if fallback && !several {
                    if let Some(u) = cont.first() {
                        let nm = self.s.name_of(*u);
                        self.bad("fgbg-target", format!("`{}` (line {}) names no job but a signal was sent to {}", resolved, ord(c.line), nm));
                    }
                }
                St::Unknown
            }
        }
    }

    fn jobs_check(&mut self, c: &Ctx) {
        if !self.typed() {
            return;
        }
        let only = self.s.sc.lines.get(c.line).is_some_and(|l| l.text.trim() == "jobs");
        let (t0, t1) = self.window(c.line);
        if !only || t1 == u64::MAX || self.mute(ord(c.line)) {
            return;
        }
        let text = self.root_text(c.line);
        let mut seen: BTreeMap<usize, u32> = BTreeMap::new();
        let mut numbers: BTreeMap<u32, String> = BTreeMap::new();
        for (num, rest) in job_entries(&text) {
            let l = format!("[{}]{}", num, rest);
            self.judged += 1;
            let state = ["Running", "Stopped", "Done", "Waiting"].iter().find(|s| rest.contains(*s)).copied().unwrap_or("?");
            let ws: Vec<&str> = rest.split(|ch: char| ch.is_whitespace() || ch == '|' || ch == '&').filter(|w| !w.is_empty()).collect();
            let ji = self.jobs.iter().rposition(|j| ord(j.line) < ord(c.line) && j.names.first().map(|n| ws.contains(&n.as_str())).unwrap_or(false));
            // a copy of the shell that never became a command is a process all the same
            let copy = self.s.recs.iter().any(|r| r.uid != 0 && r.parent == 0 && r.line < ord(c.line) && self.alive_at(r.uid, t0) && r.exec.map(|i| self.s.execs[i].step > t0).unwrap_or(true));
            let held = copy && self.s.recs.iter().any(|r| r.uid != 0 && r.parent == 0 && !r.stops.is_empty() && r.exec.map(|i| self.s.execs[i].step > t0).unwrap_or(true));
            if held {
                if let Some(o) = numbers.insert(num, l.to_string()) {
                    self.bad("jobs-number", format!("`jobs` on line {} shows the number {} twice: `{}` and `{}`", ord(c.line), num, o, l));
                }
                if let Some(j) = ji {
                    seen.insert(j, num);
                }
                continue;
            }
            let ji = match ji {
                Some(j) => j,
                None => {
                    if !self.any_fault && !self.fatal && !copy {
                        self.bad("jobs-phantom", format!("`jobs` on line {} lists `{}`, which is no job", ord(c.line), l));
                    }
                    continue;
                }
            };
            if let Some(o) = numbers.insert(num, l.to_string()) {
                self.bad("jobs-number", format!("`jobs` on line {} shows the number {} twice: `{}` and `{}`", ord(c.line), num, o, l));
            }
            if seen.insert(ji, num).is_some() {
                self.bad("jobs-twice", format!("`jobs` on line {} lists a job twice: {:?}", ord(c.line), text));
            }
            let job = self.jobs[ji].clone();
            if !job.ids.is_empty() && !job.ids.contains(&num) {
                self.bad("jobs-number", format!("`jobs` on line {} shows `{}`, but that job was announced or listed as {:?}", ord(c.line), l, job.ids));
            }
            self.jobs[ji].ids.insert(num);
            let procs = self.job_procs(&job);
            let some_live_at_start = procs.iter().any(|u| self.alive_at(*u, t0));
            if !some_live_at_start {
                if !procs.is_empty() {
                    self.bad("jobs-dead", format!("`jobs` on line {} lists `{}`, but all its processes had terminated before the line was read", ord(c.line), l));
                }
                continue;
            }
            let some_live_at_end = procs.iter().any(|u| self.alive_at(*u, t1));
            if some_live_at_end && state == "Done" {
                self.bad("jobs-state", format!("`jobs` on line {} shows a job with a live process as `{}`", ord(c.line), l));
            }
            if job.sure {
                // state stable over the whole command?
                let live: Vec<usize> = procs.iter().copied().filter(|u| self.alive_at(*u, t0)).collect();
                let stable = live.iter().all(|u| self.alive_at(*u, t1) && !self.s.recs[*u].stops.iter().any(|x| x.0 >= t0 && x.0 <= t1));
                if stable {
                    let all = live.iter().all(|u| self.stopped_at(*u, t0));
                    let none = live.iter().all(|u| !self.stopped_at(*u, t0));
                    if all && state != "Stopped" || none && !matches!(state, "Running" | "Waiting") {
                        self.bad("jobs-state", format!("`jobs` on line {} shows `{}`, but its processes are {}", ord(c.line), l, if all { "stopped" } else { "running" }));
                    }
                }
            }
        }
        // live throughout and not listed
        for ji in 0..self.jobs.len() {
            let job = self.jobs[ji].clone();
            if ord(job.line) >= ord(c.line) || seen.contains_key(&ji) || !job.sure {
                continue;
            }
            // a later job of the same name would hide it
            if self.jobs.iter().skip(ji + 1).any(|j| ord(j.line) < ord(c.line) && j.names.first() == job.names.first()) {
                continue;
            }
            if self.is_faulted(job.line) || self.is_faulted(c.line) {
                continue;
            }
            self.judged += 1;
            if job.uids.iter().any(|u| self.alive_at(*u, t0) && self.alive_at(*u, t1)) {
                let in_bg = job.bg || job.uids.iter().any(|u| self.stopped_at(*u, t0) || self.any_stop(*u, 0, t0));
                if in_bg {
                    self.bad("jobs-missing", format!("`jobs` on line {} does not list the live job `{}` of line {}: {:?}", ord(c.line), job.names.join(" | "), ord(job.line), text));
                }
            }
        }
    }
    /// all processes that can belong to a job
    fn job_procs(&self, job: &JobM) -> Vec<usize> {
        let mut v = job.uids.clone();
        if !job.sure {
            for r in &self.s.recs {
                if r.uid != 0 && r.parent == 0 && r.line == ord(job.line) && !v.contains(&r.uid) {
                    v.push(r.uid);
                }
            }
        }
        v
    }

    // ------------------------------------------------------------------ after the walk
    fn after(&mut self) {
        let total: usize = self.s.execs.len();
        let _ = total;
        // executed but not selected
        for (tag, v) in self.by_tag.clone() {
            if let (true, Some(u)) = (is_tag(&tag), v.iter().copied().find(|u| !self.used.contains(u))) {
                let e = &self.s.execs[self.s.recs[u].exec.unwrap()];
                let ln = e.line;
                let again = v.iter().any(|u| self.used.contains(u));
                self.bad("exec-extra", format!("{} was started {} (pid {}, line {})", tag, if again { "once too often" } else { "although it had not to be" }, self.s.recs[u].pid, ln));
            }
        }
        self.pipe_checks();
        self.exec_checks();
        self.announce_checks();
        self.file_checks();
        self.kill_checks();
        self.end_checks();
        self.tty_checks();
        self.reports();
        self.lost_signals();
    }

    fn pipe_checks(&mut self) {
        let cap = self.s.sc.cfg.pipe_cap.max(1) as usize;
        for p in std::mem::take(&mut self.pipes) {
            if self.is_faulted(p.line) {
                continue;
            }
            self.judged += 1;
            let mut w = p.fixed.unwrap_or_default();
            for i in &p.w {
                w.extend_from_slice(&self.s.recs[self.insts[*i].uid].out);
            }
            let mut r = vec![];
            let mut eof = false;
            for i in &p.r {
                r.extend_from_slice(&self.s.recs[self.insts[*i].uid].inp);
                eof |= self.s.recs[self.insts[*i].uid].eof;
            }
            if r.len() > w.len() || w[..r.len()] != r[..] {
                let at = r.iter().zip(w.iter()).position(|(a, b)| a != b).unwrap_or(w.len().min(r.len()));
                self.bad("pipe-data", format!("`{}` (line {}): the reader got {} bytes that differ from the {} written at offset {}", p.what, p.line + 1, r.len(), w.len(), at));
            } else if eof && r.len() != w.len() {
                self.bad("pipe-data", format!("`{}` (line {}): the reader saw end-of-file after {} of {} bytes", p.what, p.line + 1, r.len(), w.len()));
            } else if w.len() > r.len() + cap {
                self.bad("pipe-data", format!("`{}` (line {}): {} bytes were written but only {} arrived and at most {} fit into the pipe", p.what, p.line + 1, w.len(), r.len(), cap));
            }
            for i in &p.w {
                let rec = &self.s.recs[self.insts[*i].uid];
                if rec.epipe && !self.insts[*i].argv.as_ref().map(|a| a[0].iter().any(|x| x.contains("i13"))).unwrap_or(false) {
                    if let Some(st) = rec.status {
                        if st & 0x7f != SIGPIPE && !signaled(st) {
                            let n = self.insts[*i].tag.clone();
                            self.bad("pipe-sigpipe", format!("{} (line {}) wrote to a pipe without reader and was not killed by SIGPIPE", n, p.line + 1));
                        }
                    }
                }
            }
        }
    }

    fn obj_is(&mut self, o: &Obj, want: &Std) -> bool {
        match (want, o) {
            (Std::Any, _) => true,
            (Std::Input, Obj::Input) => true,
            (Std::Console(k), Obj::Console(j)) => k == j,
            (Std::PipeR(k), Obj::PipeR(x)) | (Std::PipeW(k), Obj::PipeW(x)) => *self.pipe_of.entry(*k).or_insert(*x) == *x,
            (Std::PipeR(_), Obj::SockEnd(..)) => true,
            (Std::PipeW(_), Obj::SockEnd(..)) => true,
            (Std::File(p), Obj::File(i)) => matches!(self.s.fs.walk(ROOT, p), Ok((_, _, Some(j))) if j == *i),
            _ => false,
        }
    }
    fn exec_checks(&mut self) {
        let mut job_pg: BTreeMap<usize, i32> = BTreeMap::new();
        for ix in 0..self.insts.len() {
            let ins = self.insts[ix].clone();
            let e = self.s.execs[self.s.recs[ins.uid].exec.unwrap()].clone();
            self.judged += 1;
            let at = format!("{} (line {})", ins.tag, ins.line + 1);
            let names = |m: u64| (1..65).filter(|s| m & bit(*s) != 0).map(|s| if s < 32 { signame(s).to_string() } else { format!("{}", s) }).collect::<Vec<_>>().join(" ");
            if e.mask != 0 {
                self.bad("exec-mask", format!("{} was started with blocked signals: {}", at, names(e.mask)));
            }
            // the commands of a substitution cannot be stopped from the keyboard
            let ign = if ins.sub { e.ign & !bit(SIGTSTP) } else { e.ign };
            if ign != 0 {
                self.bad("exec-ignored", format!("{} was started with ignored signals: {}", at, names(ign)));
            }
            // descriptors
            let mut want: BTreeSet<i32> = [0, 1, 2].into();
            for r in &ins.redirs {
                want.insert(r.fd);
            }
            want.extend(&ins.more);
            let have: BTreeSet<i32> = e.fds.iter().map(|f| f.0).collect();
            if let Some(x) = e.fds.iter().find(|f| !want.contains(&f.0)) {
                self.bad("exec-fds", format!("{} was started with descriptor {} = {:?} open", at, x.0, x.1));
            }
            if let Some(x) = want.iter().find(|f| !have.contains(f)) {
                self.bad("exec-fds", format!("{} was started with descriptor {} closed", at, x));
            }
            for f in 0..3 {
                if let Some(x) = e.fds.iter().find(|y| y.0 == f) {
                    let o = x.1.clone();
                    let w = ins.std[f as usize].clone();
                    if !self.obj_is(&o, &w) {
                        let class = if matches!(w, Std::File(_)) || matches!(o, Obj::File(_)) { "redir-target" } else { "exec-stdio" };
                        self.bad(class, format!("descriptor {} of {} is {:?}, it had to be {:?}", f, at, o, w));
                    }
                }
            }
            for r in &ins.redirs {
                if r.fd > 2 {
                    let last = ins.redirs.iter().filter(|q| q.fd == r.fd).last().cloned();
                    if let (Some(RD { path: Some(p), .. }), Some(x)) = (last, e.fds.iter().find(|y| y.0 == r.fd)) {
                        let o = x.1.clone();
                        if p != "/dev/null" && !self.obj_is(&o, &Std::File(p.clone())) {
                            self.bad("redir-target", format!("descriptor {} of {} is {:?}, it had to be {}", r.fd, at, o, p));
                        }
                    }
                }
            }
            if let Some(a) = &ins.argv {
                let got: Vec<String> = e.argv.clone();
                let ok = a.iter().any(|w| w.len() == got.len() && w[1..] == got[1..]);
                if !ok {
                    let sub = self.s.sc.lines.get(ins.line).map(|l| l.text.contains("$(") || l.text.contains('`')).unwrap_or(false);
                    let short = |v: &Vec<String>| v.iter().map(|s| if s.len() > 60 { format!("{}...({} bytes)", s.chars().take(40).collect::<String>(), s.len()) } else { s.clone() }).collect::<Vec<_>>();
                    self.bad(if sub { "subst-argv" } else { "argv" }, format!("{} was started with {:?} instead of {:?}", at, short(&got), a.first().map(short)));
                }
            }
            if let Some(w) = &ins.cwd {
                if e.cwd.as_ref() != Some(w) {
                    self.bad("exec-cwd", format!("{} was started in {:?} instead of {}", at, e.cwd, w));
                }
            }
            for (k, x) in &ins.env {
                let vals: Vec<&str> = e.env.iter().filter_map(|s| s.split_once('=')).filter(|(n, _)| n == k).map(|x| x.1).collect();
                let ok = match x {
                    EnvX::Any => true,
                    EnvX::Absent => vals.is_empty(),
                    EnvX::One(v) => vals.len() == 1 && vals[0] == v,
                    EnvX::Two(a, b) => vals.len() == 1 && (vals[0] == a || vals[0] == b),
                };
                if !ok {
                    self.bad("exec-envvar", format!("{} was started with {}={:?}, expected {:?}", at, k, vals, x));
                }
            }
            match ins.job {
                Some(j) => {
                    if e.pgid == ROOT_PID {
                        self.bad("exec-pgid", format!("background command {} runs in the process group of the shell", at));
                    } else if let Some(p) = job_pg.get(&j) {
                        if *p != e.pgid {
                            self.bad("exec-pgid", format!("{} runs in process group {}, another stage of the same background job in {}", at, e.pgid, p));
                        }
                    } else {
                        if self.s.sc.cfg.pid_space == 0 && job_pg.values().any(|p| *p == e.pgid) {
                            self.bad("exec-pgid", format!("background command {} shares process group {} with another job", at, e.pgid));
                        }
                        job_pg.insert(j, e.pgid);
                    }
                }
                None => {
                    if e.pgid != ROOT_PID {
                        self.bad("exec-pgid", format!("foreground command {} runs in process group {}, not in the shell's", at, e.pgid));
                    }
                }
            }
            if ins.check_parent && self.s.recs[ins.uid].parent != 0 {
                self.bad("exec-parent", format!("{} was not started by the shell but by a copy of it", at));
            }
            if self.s.sc.cfg.mode == Mode::Tty && (self.s.recs[ins.uid].fork_raw && self.s.recs[ins.uid].parent == 0 || e.tty_raw && ins.job.is_none() && self.s.recs[ins.uid].parent == 0 && !self.s.events.iter().any(|v| matches!(v.1, Ev::Stop { .. }) && v.0 <= e.step)) {
                self.bad("tty-mode", format!("{} was started while the terminal was not in its original mode", at));
            }
        }
    }

    fn announce_checks(&mut self) {
        if !matches!(self.s.sc.cfg.mode, Mode::Typed | Mode::Paste) || self.fatal {
            return;
        }
        let typed = self.typed();
        for ji in 0..self.jobs.len() {
            let job = self.jobs[ji].clone();
            if !job.bg || !job.sure || job.uids.is_empty() || self.is_faulted(job.line) {
                continue;
            }
            let text = if typed { self.root_text(job.line) } else { self.s.shell_text() };
            let pid = self.s.recs[job.uids[0]].pid;
            self.judged += 1;
            let mut num = None;
            for (n, b) in job_entries(&text) {
                if b.split(|ch: char| !ch.is_ascii_digit()).any(|w| w == pid.to_string()) {
                    num = Some(n);
                }
            }
            match num {
                None => self.bad("announce", format!("background job `{}` (line {}) was not announced with its first process id {}: {:?}", job.names.join(" | "), ord(job.line), pid, text)),
                Some(n) => {
                    // unique among the jobs alive at that moment
                    let st = self.s.recs[*job.uids.last().unwrap()].fork_step;
                    for (k, o) in self.jobs.clone().iter().enumerate() {
                        if k != ji && o.ids.contains(&n) && o.line < job.line && o.sure && o.uids.iter().any(|u| self.alive_at(*u, st)) && typed {
                            self.bad("jobs-number", format!("job number {} given to `{}` (line {}) while `{}` (line {}) still has it", n, job.names.join(" | "), ord(job.line), o.names.join(" | "), o.line + 1));
                        }
                    }
                    if !job.ids.is_empty() && !job.ids.contains(&n) {
                        self.bad("jobs-number", format!("job `{}` was announced as {} but listed as {:?}", job.names.join(" | "), n, job.ids));
                    }
                    self.jobs[ji].ids.insert(n);
                }
            }
        }
    }

    fn file_checks(&mut self) {
        if self.files_unsure || self.s.sc.cfg.mode == Mode::Tty {
            return;
        }
        // what happened to each file, in time order
        #[derive(Clone)]
        enum FE {
            Trunc,
            Write(usize, bool, Vec<u8>),
        }
        let mut paths: BTreeMap<String, Option<Ino>> = BTreeMap::new();
        for p in self.mentioned.clone() {
            paths.insert(p, None);
        }
        for (p, _) in self.s.sc.files.iter().filter(|f| !f.1.starts_with("link:")) {
            paths.insert(p.clone(), None);
        }
        let all = self.list_files();
        for p in all {
            paths.insert(p, None);
        }
        for (p, i) in paths.iter_mut() {
            if let Ok((_, _, Some(k))) = self.s.fs.walk(ROOT, p) {
                if matches!(self.s.fs.inodes[k].node, Node::File(_)) {
                    *i = Some(k);
                }
            }
        }
        let mut tl: BTreeMap<String, Vec<(u64, FE)>> = BTreeMap::new();
        let mut expect_exists: BTreeSet<String> = self.s.sc.files.iter().filter(|f| !f.1.starts_with("link:")).map(|f| f.0.clone()).collect();
        for ins in &self.insts {
            for r in &ins.redirs {
                let p = match &r.path {
                    Some(p) => p,
                    None => continue,
                };
                if r.kind == RKind::In {
                    continue;
                }
                expect_exists.insert(p.clone());
                if r.kind == RKind::Out {
                    let ex = self.s.execs[self.s.recs[ins.uid].exec.unwrap()].step;
                    let st = self.s.recs[ins.uid].opened.iter().filter(|o| o.3 >= 0 && p.ends_with(o.1.trim_start_matches("./")) && o.2 & libc::O_ACCMODE != libc::O_RDONLY).map(|o| o.0).last().unwrap_or(ex);
                    tl.entry(p.clone()).or_default().push((st, FE::Trunc));
                }
                // writes of this process to this file
                let last = ins.redirs.iter().rposition(|q| q.fd == r.fd);
                let me = ins.redirs.iter().position(|q| q == r);
                if last == me || ins.redirs.iter().filter(|q| q.fd == r.fd).last() == Some(r) {
                    if let Some(i) = paths.get(p).copied().flatten() {
                        for (st, u, ino, d) in &self.s.fwrites {
                            if *u == ins.uid && *ino == i {
                                tl.entry(p.clone()).or_default().push((*st, FE::Write(*u, r.kind == RKind::App, d.clone())));
                            }
                        }
                    }
                }
            }
        }
        for v in tl.values_mut() {
            v.sort_by_key(|x| x.0);
        }
        let content = |p: &str, upto: u64, init: &BTreeMap<String, Vec<u8>>| -> Vec<u8> {
            let mut c = init.get(p).cloned().unwrap_or_default();
            let mut offs: BTreeMap<usize, usize> = BTreeMap::new();
            if let Some(v) = tl.get(p) {
                for (st, e) in v {
                    if *st > upto {
                        break;
                    }
                    match e {
                        FE::Trunc => c.clear(),
                        FE::Write(_, true, d) => c.extend_from_slice(d),
                        FE::Write(u, false, d) => {
                            let o = offs.entry(*u).or_insert(0);
                            if c.len() < *o {
                                c.resize(*o, 0);
                            }
                            let k = d.len().min(c.len() - *o);
                            c[*o..*o + k].copy_from_slice(&d[..k]);
                            c.extend_from_slice(&d[k..]);
                            *o += d.len();
                        }
                    }
                }
            }
            c
        };
        let init: BTreeMap<String, Vec<u8>> = self.s.sc.files.iter().map(|(p, c)| (p.clone(), file_content(c))).collect();
        let mut bads: Vec<(String, String)> = vec![];
        for (p, ino) in &paths {
            if self.loose.contains(p) || p == "/dev/null" || p.starts_with("/dev/") {
                continue;
            }
            // an interrupted child may have opened the file
            let stray_open = self.s.recs.iter().any(|r| r.uid != 0 && r.exec.is_none() && r.opened.iter().any(|o| o.3 >= 0 && o.2 & libc::O_ACCMODE != libc::O_RDONLY && p.ends_with(o.1.trim_start_matches("./"))));
            if stray_open {
                let sig = self.s.recs.iter().any(|r| r.uid != 0 && r.exec.is_none() && r.status.map(signaled).unwrap_or(true));
                if sig || self.any_fault {
                    continue;
                }
            }
            self.judged += 1;
            match ino {
                None => {
                    if expect_exists.contains(p) {
                        bads.push(("redir-file".into(), format!("{} does not exist", p)));
                    }
                }
                Some(i) => {
                    if !expect_exists.contains(p) {
                        bads.push(("redir-stray".into(), format!("{} was created although no command that ran writes to it", p)));
                        continue;
                    }
                    let want = content(p, u64::MAX, &init);
                    if let Node::File(d) = &self.s.fs.inodes[*i].node {
                        if *d != want {
                            let at = d.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(d.len().min(want.len()));
                            bads.push(("redir-file".into(), format!("{} holds {} bytes instead of {}, first difference at {}", p, d.len(), want.len(), at)));
                        }
                    }
                }
            }
        }
        for (line, p, want) in self.exact.clone() {
            if self.any_fault || self.mentions.get(&p) != Some(&1) || !self.typed() && self.fatal {
                continue;
            }
            self.judged += 1;
            let got = paths.get(&p).copied().flatten().and_then(|i| match &self.s.fs.inodes[i].node {
                Node::File(d) => Some(d.clone()),
                _ => None,
            });
            if got.as_deref() != Some(want.as_bytes()) {
                let got = got.map(|d| String::from_utf8_lossy(&d).into_owned());
                bads.push(("redir-file".into(), format!("`pwd > {}` (line {}) left {:?} there instead of {:?}", p, ord(line), got, want)));
            }
        }
        // what was read from files
        for ins in &self.insts {
            if let Std::File(p) = &ins.std[0] {
                if self.loose.contains(p) || self.any_fault {
                    continue;
                }
                let ex = self.s.execs[self.s.recs[ins.uid].exec.unwrap()].step;
                let en = self.end_of(ins.uid).unwrap_or(u64::MAX);
                if tl.get(p).map(|v| v.iter().any(|x| x.0 > ex && x.0 < en)).unwrap_or(false) {
                    continue;
                }
                let want = content(p, ex, &init);
                let r = &self.s.recs[ins.uid];
                if r.inp.len() > want.len() || want[..r.inp.len()] != r.inp[..] || r.eof && r.inp.len() != want.len() {
                    bads.push(("redir-in".into(), format!("{} (line {}) read {} bytes from {} which holds {} (or other) bytes", ins.tag, ins.line + 1, r.inp.len(), p, want.len())));
                }
            }
        }
        for (c, m) in bads {
            self.bad(&c, m);
        }
    }
    fn list_files(&self) -> Vec<String> {
        let mut v = vec![];
        let mut st = vec![(ROOT, String::new())];
        while let Some((d, p)) = st.pop() {
            if let Node::Dir(m) = &self.s.fs.inodes[d].node {
                for (n, i) in m {
                    let q = format!("{}/{}", p, n);
                    match &self.s.fs.inodes[*i].node {
                        Node::Dir(_) => {
                            if !(p.is_empty() && (n == "bin" || n == "dev")) {
                                st.push((*i, q));
                            }
                        }
                        Node::File(_) => {
                            if q != "/w/script.rsh" && !q.contains("history") {
                                v.push(q);
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        v
    }

    fn kill_checks(&mut self) {
        let evs = self.s.events.clone();
        let mut last_root: Option<u64> = None;
        let _ = &mut last_root;
        for (_, e) in &evs {
            match e {
                Ev::Kill { by, pid, sig, note, .. } if !note.is_empty() && *sig != 0 => {
                    // copies of the shell are no parents of anything
                    if *by == 0 {
                        self.bad("stale-pid", format!("the shell sent {} to pid {}: {}", signame(*sig), pid, note));
                    }
                }
                Ev::Setpgid { by, pid, note, .. } if !note.is_empty() && *note != "empty group" => {
                    if *by == 0 {
                        self.bad("stale-pid", format!("the shell set the process group of pid {}: {}", pid, note));
                    }
                }
                _ => {}
            }
        }
        self.judged += 1;
    }

    fn end_checks(&mut self) {
        if self.fatal {
            return;
        }
        let st = match self.s.root_status {
            Some(s) => s,
            None => return,
        };
        if self.s.viol.iter().any(|v| v.class == "crash") {
            return;
        }
        self.judged += 1;
        if signaled(st) {
            if self.used.contains(&0) {
                return; // what it had become
            }
            self.bad("shell-exit", format!("the shell was killed by {}", signame(st & 0x7f)));
            return;
        }
        let mode = self.s.sc.cfg.mode;
        let code = (st >> 8) & 0xff;
        if self.typed() && self.exited == Tri::No && !self.s.input_eof {
            let why = if self.s.fed < self.s.sc.lines.len() || !self.s.input_eof { "although there was more input" } else { "" };
            self.bad("shell-exit", format!("the shell ended with status {} after line {} {}", code, self.s.fed, why));
            return;
        }
        if self.exited == Tri::Yes && self.typed() && self.s.input_eof {
            self.bad("exit-status", format!("`exit` did not end the shell"));
            return;
        }
        if self.s.sc.lines.is_empty() && mode == Mode::Script {
            return; // a missing script file
        }
        let want = match (self.exited, mode) {
            (Tri::Yes, _) => self.exit_st,
            (Tri::No, Mode::Dash) | (Tri::No, Mode::Script) => self.last,
            _ => St::Unknown,
        };
        let ok = match want {
            St::Known(n) => n & 0xff == code,
            St::Fail => code != 0,
            St::Unknown => true,
        };
        if !ok {
            self.bad("exit-status", format!("the shell left with status {}, expected {:?}", code, want));
        }
    }
    /// Ctrl-C and Ctrl-Z take effect on a command also while it is still a copy of the shell
    fn lost_signals(&mut self) {
        let ex: Vec<(usize, u64, u64)> = self.s.execs.iter().filter(|e| e.uid != 0).map(|e| (e.uid, e.step, e.ign)).collect();
        for (uid, st, ign) in ex {
            self.judged += 1;
            let mut l: Vec<(i32, u64, usize)> = self.s.recs[uid].lost.iter().filter(|x| x.1 <= st && ign & bit(x.0) == 0).map(|x| (x.0, x.1, uid)).collect();
            let mut u = uid;
            loop {
                let f = self.s.recs[u].fork_step;
                u = self.s.recs[u].parent;
                if u == 0 {
                    break;
                }
                l.extend(self.s.recs[u].lost.iter().filter(|x| x.0 == SIGINT && x.1 <= f).map(|x| (x.0, x.1, u)));
            }
            if let Some((s, t, u)) = l.first().copied() {
                let by = if u == uid { "it".to_string() } else { format!("the child (pid {}) that started it", self.s.recs[u].pid) };
                let n = self.s.name_of(uid);
                self.bad("start-signal", format!("{} of line {} was started although {} had been sent {} at step {} before", n, self.s.recs[uid].line, by, signame(s), t));
            }
        }
    }
    /// a failed fork, pipe, open, exec or chdir is reported by the process it failed in
    fn reports(&mut self) {
        if self.fatal {
            return;
        }
        let ev = self.s.events.clone();
        for (st, e) in &ev {
            let Ev::Fault { uid, class, err, line } = e else { continue };
            let r = &self.s.recs[*uid];
            let child = *uid != 0;
            if self.mute(*line) || ev.iter().any(|e| matches!(e.1, Ev::Fault { class: "output", uid: u, .. } if child && u == *uid)) {
                continue;
            }
            let rc = *line == 0 && matches!((*class, child), ("open", false) | ("read", false)) && self.typed();
            if !matches!((*class, child), ("fork", _) | ("process limit", _) | ("pipe", _) | ("chdir", _) | ("exec", true) | ("open", true)) && !rc || self.s.sc.cfg.mode == Mode::Tty {
                continue;
            }
            if child && (!r.status.is_some_and(|s| !signaled(s)) || self.s.execs.iter().any(|x| x.uid == *uid)) {
                continue; // it may have been killed before it could say anything
            }
            self.judged += 1;
            let said = self.s.outs.iter().any(|o| o.uid == *uid && o.step >= *st && (child || o.line == *line) && !o.data.is_empty()) || self.s.fwrites.iter().any(|w| w.1 == *uid && w.0 >= *st) || self.s.nulls.iter().any(|w| w.1 == *uid && w.0 >= *st);
            if !said {
                let who = if child { format!("a child (pid {})", r.pid) } else { "the shell".to_string() };
                self.bad("fault-silent", format!("a failing {} ({}) in {} on line {} was not reported", class, errname(*err), who, line));
            }
        }
    }
    fn tty_checks(&mut self) {
        if self.s.sc.cfg.mode != Mode::Tty {
            return;
        }
        if let Some(n) = self.s.events.iter().find_map(|e| if let Ev::Chooser(n) = e.1 { Some(n) } else { None }) {
            let tl = tty_lines(&self.s.sc, &self.s.typed).0;
            if !matches!(tl.get(n.wrapping_sub(1)), Some(Typed::Chooser { .. })) && self.s.sc.cfg.no_path == 0 {
                self.bad("completion", format!("a Tab on line {} {:?} showed completions although nothing matches", n, self.s.typed.get(n.wrapping_sub(1))));
            }
        }
        if self.fatal {
            return;
        }
        let st = match self.s.root_status {
            Some(s) if !signaled(s) => s,
            _ => return,
        };
        if self.s.viol.iter().any(|v| v.class == "crash") {
            return;
        }
        self.judged += 1;
        if self.s.tty.termios != self.s.tty.orig {
            self.bad("tty-mode", "the shell ended and left the terminal in raw mode".to_string());
        }
        // the history file
        let (tl, hist) = tty_lines(&self.s.sc, &self.s.typed);
        let last = self.s.fed; // lines count from 1 in fault records
        let hf: Vec<usize> = self.s.events.iter().filter_map(|e| match &e.1 {
            Ev::Fault { class: "open directory" | "read directory", .. } => None,
            Ev::Fault { line, .. } => Some(*line),
            _ => None,
        }).collect();
        let early = hf.iter().any(|l| *l < last);
        let any = !hf.is_empty();
        let code = (st >> 8) & 0xff;
        if any && !early && !self.s.input_eof {
            // only the leaving itself was disturbed
            if let Some(Typed::Line(l)) = tl.last() {
                if let Some(n) = l.strip_prefix("exit ").and_then(|x| x.trim().parse::<i32>().ok()) {
                    if n & 0xff != code {
                        self.bad("exit-status", format!("the shell left with status {} after `{}` and a history that could not be saved", code, l));
                    }
                }
            }
        }
        if any && !early && self.s.input_eof && code > 125 {
            self.bad("exit-status", format!("the shell left with status {} at the end of input", code));
        }
        if any || hist.is_empty() || self.s.sc.cfg.hist_bad != 0 {
            return;
        }
        self.judged += 1;
        let p = "/w/history.txt";
        let data = match self.s.fs.walk(ROOT, p) {
            Ok((_, _, Some(k))) => match &self.s.fs.inodes[k].node {
                Node::File(d) => Some(d.clone()),
                _ => None,
            },
            _ => None,
        };
        match data {
            None => self.bad("history", format!("the session of {} lines ended and there is no {}", hist.len(), p)),
            Some(d) => {
                let got = history_entries(&d);
                if got != hist {
                    let at = got.iter().zip(hist.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(hist.len()));
                    self.bad("history", format!("the history file has {} entries, {} were entered; entry {} is {:?}, entered was {:?}", got.len(), hist.len(), at + 1, got.get(at), hist.get(at)));
                }
            }
        }
    }
}

/// the entries of a history file (escapes undone, version line dropped)
pub fn history_entries(d: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(d).to_string();
    let mut v: Vec<String> = vec![];
    let mut first = true;
    for l in t.lines() {
        if std::mem::take(&mut first) && l.starts_with("#V") {
            continue;
        }
        let mut o = String::new();
        let mut it = l.chars();
        while let Some(c) = it.next() {
            if c == '\\' {
                match it.next() {
                    Some('n') => o.push('\n'),
                    Some(x) => o.push(x),
                    None => o.push('\\'),
                }
            } else {
                o.push(c);
            }
        }
        v.push(o);
    }
    v
}

fn pname(c: &Cmd) -> String {
    match c {
        Cmd::Simple { words, .. } => words.first().and_then(|w| w.lit()).unwrap_or("?").to_string(),
        Cmd::Func { name, .. } => name.clone(),
    }
}
/// What typing on the terminal amounts to: a small reference line editor.
#[derive(Debug, PartialEq)]
pub enum Typed {
    Line(String),
    Interrupted,
    Eof,
    /// a Tab that something matches: what follows goes to the list of completions
    Chooser { sure: bool },
}
pub fn tty_edit(t: &str, hist: &[String], matches: &dyn Fn(&str) -> Tri) -> Typed {
    let mut b: Vec<char> = vec![];
    let mut at = 0usize;
    let mut h = hist.len();
    let mut saved: Vec<char> = vec![];
    let mut it = t.chars().peekable();
    let mut last_kill: Vec<char> = vec![];
    while let Some(c) = it.next() {
        match c {
            '\u{1}' => at = 0,
            '\u{5}' => at = b.len(),
            '\u{2}' => at = at.saturating_sub(1),
            '\u{6}' => at = (at + 1).min(b.len()),
            '\u{3}' => return Typed::Interrupted,
            '\u{4}' => {
                if b.is_empty() {
                    return Typed::Eof;
                }
                if at < b.len() {
                    b.remove(at);
                }
            }
            '\u{8}' | '\u{7f}' => {
                if at > 0 {
                    at -= 1;
                    b.remove(at);
                }
            }
            '\u{b}' => last_kill = b.split_off(at),
            '\u{15}' => {
                last_kill = b.drain(..at).collect();
                at = 0;
            }
            '\u{19}' => {
                for k in last_kill.clone() {
                    b.insert(at, k);
                    at += 1;
                }
            }
            '\u{17}' => {
                let mut k = at;
                while k > 0 && b[k - 1] == ' ' {
                    k -= 1;
                }
                while k > 0 && b[k - 1] != ' ' {
                    k -= 1;
                }
                last_kill = b.drain(k..at).collect();
                at = k;
            }
            '\u{16}' => {
                if let Some(c) = it.next() {
                    b.insert(at, c);
                    at += 1;
                }
            }
            '\u{10}' | '\u{e}' => hist_move(c == '\u{10}', hist, &mut h, &mut b, &mut saved, &mut at),
            '\u{c}' | '\u{1a}' => {}
            '\u{1b}' => {
                it.next(); // [
                let mut num = String::new();
                let mut k = ' ';
                for c in it.by_ref() {
                    if c.is_ascii_digit() {
                        num.push(c);
                    } else {
                        k = c;
                        break;
                    }
                }
                match (k, num.as_str()) {
                    ('A', _) => hist_move(true, hist, &mut h, &mut b, &mut saved, &mut at),
                    ('B', _) => hist_move(false, hist, &mut h, &mut b, &mut saved, &mut at),
                    ('C', _) => at = (at + 1).min(b.len()),
                    ('D', _) => at = at.saturating_sub(1),
                    ('H', _) => at = 0,
                    ('F', _) => at = b.len(),
                    ('~', "3") => {
                        if at < b.len() {
                            b.remove(at);
                        }
                    }
                    _ => {}
                }
            }
            '\t' => {
                match matches(&b.iter().collect::<String>()) {
                    Tri::No => {}
                    m => return Typed::Chooser { sure: m == Tri::Yes },
                }
            }
            c if (c as u32) < 32 => {}
            c => {
                b.insert(at, c);
                at += 1;
            }
        }
    }
    Typed::Line(b.into_iter().collect())
}
fn hist_move(up: bool, hist: &[String], h: &mut usize, b: &mut Vec<char>, saved: &mut Vec<char>, at: &mut usize) {
    if up {
        if *h == 0 {
            return;
        }
        if *h == hist.len() {
            *saved = b.clone();
        }
        *h -= 1;
    } else {
        if *h >= hist.len() {
            return;
        }
        *h += 1;
    }
    *b = if *h == hist.len() { saved.clone() } else { hist[*h].chars().collect() };
    *at = b.len();
}
/// the lines a session on a terminal submitted, one for each line typed
pub fn tty_lines(sc: &Scenario, typed: &[String]) -> (Vec<Typed>, Vec<String>) {
    let mut hist: Vec<String> = vec![];
    let mut out = vec![];
    let mut path = if sc.cfg.no_path == 1 { String::new() } else { "/bin".to_string() };
    for t in typed {
        let r = tty_edit(t, &hist, &|p| completes(sc, &path, p));
        if let Typed::Line(l) = &r {
            if !l.is_empty() && hist.last() != Some(l) {
                if hist.len() == 100 {
                    hist.remove(0);
                }
                hist.push(l.clone());
            }
            if let Some(p) = l.trim().strip_prefix("export PATH=") {
                path = p.to_string();
            } else if l.trim() == "unset PATH" {
                path.clear();
            }
        }
        out.push(r);
    }
    (out, hist)
}
/// Is there a command in the directories of this path that begins so?  (Maybe: something else does.)
pub fn completes(sc: &Scenario, path: &str, pre: &str) -> Tri {
    let mut r = Tri::No;
    for d in path.split(':').filter(|d| d.starts_with('/')) {
        let own: &[&str] = if d == "/bin" { &["/bin/noexec", "/bin/notbin"] } else { &[] };
        for f in sc.files.iter().map(|f| f.0.as_str()).chain(own.iter().copied()) {
            let Some(n) = f.strip_prefix(d).and_then(|r| r.strip_prefix('/')) else { continue };
            let (n, dir) = n.split_once('/').map(|x| (x.0, true)).unwrap_or((n, false));
            if n.is_empty() || n.contains('\u{fffd}') || crate::fs::Fs::is_prog(n) || !n.starts_with(pre) {
                continue;
            }
            if !dir && f != "/bin/noexec" {
                return Tri::Yes;
            }
            r = Tri::Maybe;
        }
    }
    r
}

//! Scenario = one session to simulate: configuration, initial files, input lines with planned
//! disturbances, and (for replays) the recorded choices.  Text format, one item per line.
use crate::choice::{NSTREAM, STREAM_NAMES};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// lines typed one at a time on a non-terminal stdin, each when the shell waits for input
    Typed,
    /// all lines available on stdin from the start
    Paste,
    /// rsh -c TEXT
    Dash,
    /// rsh SCRIPT args
    Script,
    /// interactive on a simulated terminal
    Tty,
}
impl Mode {
    pub fn name(&self) -> &'static str {
        match self {
            Mode::Typed => "typed",
            Mode::Paste => "paste",
            Mode::Dash => "dash",
            Mode::Script => "script",
            Mode::Tty => "tty",
        }
    }
    pub fn parse(s: &str) -> Option<Mode> {
        Some(match s {
            "typed" => Mode::Typed,
            "paste" => Mode::Paste,
            "dash" => Mode::Dash,
            "script" => Mode::Script,
            "tty" => Mode::Tty,
            _ => return None,
        })
    }
}

macro_rules! config {
    ($($f:ident : $d:expr, $doc:expr;)*) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct Config { pub mode: Mode, $(#[doc=$doc] pub $f: u32,)* }
        impl Default for Config { fn default() -> Self { Config { mode: Mode::Typed, $($f: $d,)* } } }
        impl Config {
            pub fn set(&mut self, k: &str, v: u32) -> bool { match k { $(stringify!($f) => { self.$f = v; true })* _ => false } }
            pub fn items(&self) -> Vec<(&'static str, u32)> { vec![$((stringify!($f), self.$f)),*] }
        }
    };
}
config! {
    pipe_cap: 65536, "pipe capacity in bytes";
    nofile: 1024, "descriptor limit of the shell";
    nproc: 0, "0 = no limit, n = process limit (the shell, its children and their children)";
    pid_space: 0, "0 = fresh pids, n = wrap after n pids (pids are reused)";
    cont_pm: 700, "probability (per mille) that the running process keeps running";
    pct: 0, "1 = priority based scheduling instead of random";
    pct_shell: 0, "1 = shell lowest priority, 2 = shell highest priority (with pct)";
    hold_pm: 0, "probability that a finished system call returns late";
    short_pm: 0, "probability that a read or write of the shell is short";
    pshort_pm: 0, "probability that a program's read or write is short";
    chunk: 4096, "program i/o chunk";
    int_pm: 0, "probability per shell step of a spontaneous Ctrl-C to the foreground group (per 100000)";
    tstp_pm: 0, "same for Ctrl-Z";
    chld_pm: 0, "same for a spurious SIGCHLD to the shell";
    shint_pm: 0, "same for SIGINT sent to the shell only";
    shtstp_pm: 0, "same for SIGTSTP sent to the shell only";
    sig_max: 0, "max number of spontaneous signals";
    yield_every: 0, "0 = no async points; n = async delivery points about every n allocator calls while signals are armed";
    f_fork: 0, "fault probabilities per mille";
    f_pipe: 0, "";
    f_open: 0, "";
    f_exec: 0, "";
    f_chdir: 0, "";
    f_read: 0, "read error on files (EIO)";
    f_write: 0, "write error (ENOSPC) on files written by the shell itself";
    f_out: 0, "probability that what the shell itself prints cannot be written (ENOSPC, EIO)";
    f_stat: 0, "";
    f_dir: 0, "probability that opening or reading a directory for a completion fails";
    no_path: 0, "no PATH in the environment";
    inherit: 0, "signals blocked (1 INT, 2 TSTP, 4 CHLD, 8 USR1) and ignored (16 INT, 32 TSTP, 64 CHLD, 128 PIPE, 256 HUP) when the shell is started";
    home: 0, "HOME in the environment: 0 = /root, 1 = /w/home, 2 = not set, 3 = a missing directory";
    f_max: 0, "max faults per run";
    f_lo: 0, "first input line on which faults may strike";
    f_hi: 0, "last input line on which faults may strike";
    type_late_pm: 300, "probability that the typist waits until nothing else can run";
    deldir: 0, "";
    f_start: 0, "1 = faults may strike before the first prompt, too (line 0)";
    hist_bad: 0, "1 = the history file cannot be saved whatever happens";
    winch_pm: 0, "spontaneous SIGWINCH to the shell";
    tty_hup: 0, "1 = the terminal hangs up at the end, else Ctrl-D";
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// when nothing else can happen any more
    Quiesce(What),
    /// at the n-th system call of the shell (and its forked copies) counted from the moment the line is fed
    Step(u32, What),
    /// once the command with this tag has been executed
    Exec(String, What),
    /// when the shell is back at its prompt after the line
    Prompt(What),
}
#[derive(Clone, Debug, PartialEq)]
pub enum What {
    /// like Ctrl-C / Ctrl-Z: to the whole foreground process group
    Group(i32),
    /// to the shell only
    Shell(i32),
    /// to a simulated command
    Tag(String, i32),
    /// to all simulated commands alive
    All(i32),
    /// wait until nothing can run (only with Prompt)
    Settle,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Line {
    pub text: String,
    pub acts: Vec<Act>,
}

#[derive(Clone, Debug, Default)]
pub struct Scenario {
    pub seed: u64,
    pub profile: String,
    pub cfg: Config,
    pub files: Vec<(String, String)>, // path, content spec ("pat:TAG:N" or "text:...")
    pub lines: Vec<Line>,
    pub args: Vec<String>,
    pub choices: Option<[Vec<u32>; NSTREAM]>,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\\' => o.push_str("\\\\"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
fn what_s(w: &What) -> String {
    match w {
        What::Group(s) => format!("group {}", s),
        What::Shell(s) => format!("shell {}", s),
        What::Tag(t, s) => format!("tag {} {}", t, s),
        What::All(s) => format!("all {}", s),
        What::Settle => "settle".into(),
    }
}
fn what_p(t: &[&str]) -> Option<What> {
    let n = |i: usize| t.get(i).and_then(|x| x.parse::<i32>().ok());
    Some(match *t.first()? {
        "group" => What::Group(n(1)?),
        "shell" => What::Shell(n(1)?),
        "tag" => What::Tag(t.get(1)?.to_string(), n(2)?),
        "all" => What::All(n(1)?),
        "settle" => What::Settle,
        _ => return None,
    })
}

impl Scenario {
    pub fn to_text(&self) -> String {
        let mut o = String::from("dst-scenario 1\n");
        o.push_str(&format!("seed {}\nprofile {}\nmode {}\n", self.seed, self.profile, self.cfg.mode.name()));
        let def = Config::default();
        for ((k, v), (_, d)) in self.cfg.items().iter().zip(def.items()) {
            if *v != d {
                o.push_str(&format!("cfg {} {}\n", k, v));
            }
        }
        for a in &self.args {
            o.push_str(&format!("arg {}\n", esc(a)));
        }
        for (p, c) in &self.files {
            o.push_str(&format!("file {} {}\n", p, esc(c)));
        }
        for l in &self.lines {
            o.push_str(&format!("line {}\n", esc(&l.text)));
            for a in &l.acts {
                match a {
                    Act::Quiesce(w) => o.push_str(&format!("  act quiesce {}\n", what_s(w))),
                    Act::Step(n, w) => o.push_str(&format!("  act step {} {}\n", n, what_s(w))),
                    Act::Exec(t, w) => o.push_str(&format!("  act exec {} {}\n", t, what_s(w))),
                    Act::Prompt(w) => o.push_str(&format!("  act prompt {}\n", what_s(w))),
                }
            }
        }
        if let Some(c) = &self.choices {
            for i in 0..NSTREAM {
                let mut s = String::new();
                for (k, v) in c[i].iter().enumerate() {
                    if *v != 0 {
                        s.push_str(&format!(" {}:{}", k, v));
                    }
                }
                o.push_str(&format!("choices {}{}\n", STREAM_NAMES[i], s));
            }
        }
        o
    }
    pub fn parse(txt: &str) -> Result<Scenario, String> {
        let mut s = Scenario::default();
        let mut ch: [Vec<u32>; NSTREAM] = Default::default();
        let mut have = false;
        for (ln, raw) in txt.lines().enumerate() {
            let bad = || format!("bad scenario line {}: {}", ln + 1, raw);
            if raw.starts_with('#') || raw.trim().is_empty() {
                continue;
            }
            let l = raw.trim_start();
            let (k, rest) = match l.find(' ') {
                Some(i) => (&l[..i], &l[i + 1..]),
                None => (l, ""),
            };
            match k {
                "dst-scenario" => {}
                "seed" => s.seed = rest.trim().parse().map_err(|_| bad())?,
                "profile" => s.profile = rest.trim().to_string(),
                "mode" => s.cfg.mode = Mode::parse(rest.trim()).ok_or_else(bad)?,
                "cfg" => {
                    let t: Vec<&str> = rest.split_whitespace().collect();
                    if t.len() != 2 || !s.cfg.set(t[0], t[1].parse().map_err(|_| bad())?) {
                        return Err(bad());
                    }
                }
                "arg" => s.args.push(unesc(rest)),
                "file" => {
                    let i = rest.find(' ').ok_or_else(bad)?;
                    s.files.push((rest[..i].to_string(), unesc(&rest[i + 1..])));
                }
                "line" => s.lines.push(Line { text: unesc(rest), acts: vec![] }),
                "act" => {
                    let t: Vec<&str> = rest.split_whitespace().collect();
                    let a = match *t.first().ok_or_else(bad)? {
                        "quiesce" => Act::Quiesce(what_p(&t[1..]).ok_or_else(bad)?),
                        "prompt" => Act::Prompt(what_p(&t[1..]).ok_or_else(bad)?),
                        "step" => Act::Step(t.get(1).and_then(|x| x.parse().ok()).ok_or_else(bad)?, what_p(&t[2..]).ok_or_else(bad)?),
                        "exec" => Act::Exec(t.get(1).ok_or_else(bad)?.to_string(), what_p(&t[2..]).ok_or_else(bad)?),
                        _ => return Err(bad()),
                    };
                    s.lines.last_mut().ok_or_else(bad)?.acts.push(a);
                }
                "choices" => {
                    have = true;
                    let mut it = rest.split_whitespace();
                    let name = it.next().ok_or_else(bad)?;
                    let i = STREAM_NAMES.iter().position(|x| *x == name).ok_or_else(bad)?;
                    for e in it {
                        let (a, b) = e.split_once(':').ok_or_else(bad)?;
                        let a: usize = a.parse().map_err(|_| bad())?;
                        let b: u32 = b.parse().map_err(|_| bad())?;
                        if ch[i].len() <= a {
                            ch[i].resize(a + 1, 0);
                        }
                        ch[i][a] = b;
                    }
                }
                _ => return Err(bad()),
            }
        }
        if have {
            s.choices = Some(ch);
        }
        Ok(s)
    }
}

/// The bytes a command with this tag writes: never a blank, so that they survive word splitting.
pub fn pat(tag: &str, i: u64) -> u8 {
    let mut h = 0xcbf29ce484222325u64;
    for b in tag.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h = (h ^ (i / 7)).wrapping_mul(0x100000001b3);
    h ^= h >> 29;
    h = (h ^ i).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    b'a' + ((h >> 40) % 26) as u8
}
/// The bytes of a text of a scenario, in which one character stands for a byte that is no text.
pub const NOTEXT: char = '\u{F8FF}';
pub fn raw(t: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in t.chars() {
        if c == NOTEXT {
            v.push(0xff);
        } else {
            v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
    }
    v
}
pub fn file_content(spec: &str) -> Vec<u8> {
    if let Some(r) = spec.strip_prefix("pat:") {
        if let Some((t, n)) = r.split_once(':') {
            let n: u64 = n.parse().unwrap_or(0);
            return (0..n).map(|i| pat(t, i)).collect();
        }
    }
    if let Some(r) = spec.strip_prefix("text:") {
        return raw(r);
    }
    if spec.starts_with("prog:") {
        return b"\x7fELF".to_vec();
    }
    spec.as_bytes().to_vec()
}

/// what HOME is when the shell starts
pub fn home(cfg: &Config) -> Option<&'static str> {
    [Some("/root"), Some("/w/home"), None, Some("/w/missing")][cfg.home as usize % 4]
}

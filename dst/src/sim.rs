//! The simulated machine: processes, signals, scheduling and the run loop.  System calls are in
//! sys.rs, simulated commands in prog.rs.
use crate::choice::*;
use crate::fs::*;
use crate::prog::Prog;
use crate::scen::*;
use crate::shm::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub const SIGINT: i32 = 2;
pub const SIGKILL: i32 = 9;
pub const SIGPIPE: i32 = 13;
pub const SIGCHLD: i32 = 17;
pub const SIGCONT: i32 = 18;
pub const SIGSTOP: i32 = 19;
pub const SIGTSTP: i32 = 20;
pub const SIGTTIN: i32 = 21;
pub const SIGTTOU: i32 = 22;
pub const LAUNCHER: i32 = 900;
pub const ROOT_PID: i32 = 1000;

pub fn bit(s: i32) -> u64 {
    1u64 << (s - 1)
}
const STOPS: u64 = (1 << 18) | (1 << 19) | (1 << 20) | (1 << 21);

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Disp {
    pub h: u64, // 0 default, 1 ignore, else handler
    pub flags: u64,
    pub restorer: u64,
    pub mask: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PState {
    Running,
    Stopped,
    Zombie,
}
pub type Pokes = Vec<(u64, Vec<u8>)>;
#[derive(Clone, Debug)]
pub enum Phase {
    Pending(Req),
    Done(i64, Pokes),
}
#[derive(Debug, Clone)]
pub struct Frame {
    mask: u64,
    resume: Phase,
}
#[derive(Debug)]
pub struct Carrier {
    pub slot: usize,
    pub phase: Phase,
    pub blocked: bool,
    pub held: bool,
    pub frames: Vec<Frame>,
    pub wake: Option<u64>,
    pub saved_mask: Option<u64>,
    pub progress: usize,
}
pub enum Body {
    Carrier(Carrier),
    Prog(Prog),
}
pub struct Proc {
    pub uid: usize,
    pub pid: i32,
    pub ppid: i32,
    pub pgid: i32,
    pub sid: i32,
    pub st: PState,
    pub status: i32,
    pub stop_unrep: Option<i32>,
    pub cont_unrep: bool,
    pub fds: BTreeMap<i32, (usize, bool)>,
    pub cwd: Ino,
    pub umask: u32,
    pub mask: u64,
    pub pend: u64,
    pub disp: [Disp; 65],
    pub execd: bool,
    pub body: Body,
    pub prio: u64,
    pub nofile: u32,
}

/// Permanent record of one process (pids may be reused, uids are not).
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub uid: usize,
    pub pid: i32,
    pub parent: usize,
    pub fork_step: u64,
    /// the terminal was not in its original mode at the fork
    pub fork_raw: bool,
    pub line: usize,
    pub exec: Option<usize>,
    pub exec_fail: Vec<(String, i32)>,
    pub status: Option<i32>,
    pub exit_step: u64,
    pub reaped: Option<u64>,
    pub stops: Vec<(u64, i32, bool)>,
    pub out: Vec<u8>,
    pub err: u64,
    pub inp: Vec<u8>,
    pub eof: bool,
    pub epipe: bool,
    pub pgid: i32,
    pub opened: Vec<(u64, String, i32, i64)>,
    /// SIGINT or SIGTSTP that had no effect because the process was still a copy of the shell
    pub lost: Vec<(i32, u64)>,
    /// programs that could not be looked at (absolute paths)
    pub stat_fail: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct ExecInfo {
    pub uid: usize,
    pub step: u64,
    pub line: usize,
    pub path: String,
    pub tag: String,
    pub argv: Vec<String>,
    pub env: Vec<String>,
    pub cwd: Option<String>,
    pub fds: Vec<(i32, Obj, usize)>,
    pub mask: u64,
    pub pend: u64,
    pub ign: u64,
    pub caught: u64,
    pub pgid: i32,
    pub umask: u32,
    pub tty_raw: bool,
}
#[derive(Clone, Debug)]
pub enum Ev {
    /// the shell waits for line `n` (n lines have been fed)
    Prompt(usize),
    /// line n was typed
    Feed(usize),
    Eof,
    Fork { parent: usize, child: usize },
    Exec { uid: usize, idx: usize },
    ExecFail { uid: usize, path: String, err: i32 },
    Exit { uid: usize, status: i32 },
    Stop { uid: usize, sig: i32 },
    Cont { uid: usize },
    Reap { by: usize, uid: usize, status: i32 },
    Kill { by: usize, pid: i32, sig: i32, ret: i64, note: &'static str },
    Setpgid { by: usize, pid: i32, pgid: i32, ret: i64, note: &'static str },
    Sig { what: String, sig: i32 },
    Fault { uid: usize, class: &'static str, err: i32, line: usize },
    Chdir { uid: usize, path: String, ret: i64 },
    Open { uid: usize, path: String, flags: i32, ret: i64 },
    /// the list of completions was about to be shown while line n was typed
    Chooser(usize),
}
#[derive(Clone, Debug)]
pub struct Snap {
    pub step: u64,
    pub line: usize,
    /// live or zombie children of the shell
    pub kids: Vec<(usize, PState)>,
    pub cwd: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Out {
    pub step: u64,
    pub uid: usize,
    pub fd: u8,
    pub line: usize,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub syscalls: u64,
    pub switches: u64,
    pub forks: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub unknown: BTreeMap<i64, u64>,
    pub probes: BTreeMap<&'static str, u64>,
}

pub struct Tty {
    pub termios: [u8; 36],
    pub orig: [u8; 36],
    pub fg: i32,
    pub inq: VecDeque<u8>,
    pub hup: bool,
}

pub struct Sim<'a> {
    pub z: &'a mut Zygote,
    pub sc: &'a Scenario,
    pub ch: Choices,
    pub fs: Fs,
    pub procs: BTreeMap<i32, Proc>,
    pub recs: Vec<Rec>,
    pub execs: Vec<ExecInfo>,
    pub events: Vec<(u64, Ev)>,
    pub outs: Vec<Out>,
    pub snaps: Vec<Snap>,
    pub viol: Vec<Viol>,
    pub stats: Stats,
    pub now: u64,
    pub step: u64,
    pub cur: i32,
    pub last_pid: i32,
    pub free_slots: Vec<usize>,
    pub fed: usize,           // lines fed so far
    pub input: VecDeque<u8>,  // available on stdin
    pub input_eof: bool,
    pub at_prompt: bool,
    pub type_mode: u32,
    pub acts: Vec<Act>,       // of the current line, still to be done
    pub line_syscalls: u32,
    pub sig_left: u32,
    pub fault_left: u32,
    pub base_fds: Option<Vec<(i32, Obj)>>,
    pub base_disp: Option<[Disp; 65]>,
    pub zombies_at_feed: Vec<usize>,
    pub tty: Tty,
    pub root_status: Option<i32>,
    pub root_fin: bool,
    /// the step at which the shell ended while copies of it were still at work
    pub after: u64,
    pub ended: Option<String>,
    pub harness_error: Option<String>,
    pub log: Option<Vec<String>>,
    pub hash: u64,
    pub sched_hash: u64,
    pub pct_next: u64,
    pub last_signal_target: i32,
    pub prompt_acts: VecDeque<Act>,
    pub zombie_flagged: BTreeSet<usize>,
    pub settle_wait: bool,
    pub cur_alts: usize,
    pub mem_unsafe: bool,
    pub tty_seen_prompt: bool,
    pub tty_exec_raw: Vec<String>,
    pub readers_blocked: bool,
    pub kill_targets: BTreeMap<usize, Vec<usize>>,
    pub tty_rest: VecDeque<u8>,
    /// every write to a file: step, uid, inode, bytes
    pub fwrites: Vec<(u64, usize, Ino, Vec<u8>)>,
    /// writes to /dev/null
    pub nulls: Vec<(u64, usize)>,
    /// the lines as they were really typed (placeholders resolved)
    pub typed: Vec<String>,
    pub rescues: u32,
}

const MAX_STEPS: u64 = 400_000;

impl<'a> Sim<'a> {
    pub fn new(z: &'a mut Zygote, sc: &'a Scenario, log: bool) -> Sim<'a> {
        let ch = match &sc.choices {
            Some(c) => Choices::replaying(c.clone()),
            None => Choices::explore(sc.seed),
        };
        let mut fs = Fs::new(sc.cfg.pipe_cap.max(1) as usize);
        let dev = fs.mkdir_p("dev");
        fs.add(dev, "null", Node::Null, 0o20666);
        let tty = sc.cfg.mode == Mode::Tty;
        fs.add(dev, "tty", if tty { Node::Tty } else { Node::NoTty }, 0o20666);
        fs.put_file("bin/noexec", b"data".to_vec(), 0o644);
        fs.put_file("bin/notbin", b"just text".to_vec(), 0o755);
        for (p, c) in &sc.files {
            if let (Some(t), Some((d, n))) = (c.strip_prefix("link:"), p.rsplit_once('/')) {
                let d = fs.mkdir_p(d);
                fs.add(d, n, Node::Link(t.to_string()), 0o120777);
                continue;
            }
            // "prog:700" is a program with that mode
            let mode = c.strip_prefix("prog:").map(|m| u32::from_str_radix(m, 8).unwrap_or(0o755));
            fs.put_file(p, file_content(c), mode.unwrap_or(if p.starts_with("/w/p") { 0o755 } else { 0o644 }));
        }
        let mut termios = [0u8; 36];
        // c_iflag ICRNL|IXON, c_oflag OPOST|ONLCR, c_cflag CS8|CREAD, c_lflag ISIG|ICANON|ECHO|ECHOE|ECHOK|IEXTEN
        termios[0..4].copy_from_slice(&0x500u32.to_le_bytes());
        termios[4..8].copy_from_slice(&0x5u32.to_le_bytes());
        termios[8..12].copy_from_slice(&0xbfu32.to_le_bytes());
        termios[12..16].copy_from_slice(&0x8a3bu32.to_le_bytes());
        let cc: [u8; 19] = [3, 28, 127, 21, 4, 0, 1, 0, 17, 19, 26, 0, 18, 15, 23, 22, 0, 0, 0];
        termios[17..36].copy_from_slice(&cc);
        Sim {
            z,
            sc,
            ch,
            fs,
            procs: BTreeMap::new(),
            recs: vec![],
            execs: vec![],
            events: vec![],
            outs: vec![],
            snaps: vec![],
            viol: vec![],
            stats: Stats::default(),
            now: 1_700_000_000_000_000_000,
            step: 0,
            cur: ROOT_PID,
            last_pid: ROOT_PID,
            free_slots: (1..NSLOT).rev().collect(),
            fed: 0,
            input: VecDeque::new(),
            input_eof: false,
            at_prompt: false,
            type_mode: 0,
            acts: vec![],
            line_syscalls: 0,
            sig_left: sc.cfg.sig_max,
            fault_left: sc.cfg.f_max,
            base_fds: None,
            base_disp: None,
            zombies_at_feed: vec![],
            tty: Tty { termios, orig: termios, fg: ROOT_PID, inq: VecDeque::new(), hup: false },
            root_status: None,
            root_fin: false,
            after: 0,
            ended: None,
            harness_error: None,
            log: if log { Some(vec![]) } else { None },
            hash: 0xcbf29ce484222325,
            sched_hash: 0xcbf29ce484222325,
            pct_next: 0,
            last_signal_target: 0,
            prompt_acts: VecDeque::new(),
            zombie_flagged: BTreeSet::new(),
            settle_wait: false,
            cur_alts: 0,
            mem_unsafe: false,
            tty_seen_prompt: false,
            tty_exec_raw: vec![],
            readers_blocked: false,
            kill_targets: BTreeMap::new(),
            tty_rest: VecDeque::new(),
            fwrites: vec![],
            nulls: vec![],
            typed: vec![],
            rescues: 0,
        }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            let s = f();
            l.push(format!("{:6} {}", self.step, s));
        }
    }
    pub fn mix(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x100000001b3);
        self.hash ^= self.hash >> 31;
    }
    pub fn ev(&mut self, e: Ev) {
        if self.log.is_some() {
            let t = format!("EV {:?}", e);
            self.note(|| t);
        }
        self.events.push((self.step, e));
    }
    pub fn violate(&mut self, class: &str, msg: String) {
        if self.after > 0 {
            return;
        }
        if !self.viol.iter().any(|v| v.class == class) {
            self.note(|| format!("VIOLATION {} {}", class, msg));
            self.viol.push(Viol { class: class.to_string(), msg });
        }
    }
    pub fn probe(&mut self, n: &'static str) {
        *self.stats.probes.entry(n).or_insert(0) += 1;
    }
    /// the line being executed (0-based), or 0 before any
    pub fn line(&self) -> usize {
        self.fed.saturating_sub(1)
    }

    // ------------------------------------------------------------------ start
    fn boot(&mut self) -> Result<(), String> {
        let sc = self.sc;
        let text: Vec<&str> = sc.lines.iter().map(|l| l.text.as_str()).collect();
        let mut argv = vec!["rsh".to_string()];
        match sc.cfg.mode {
            Mode::Dash => {
                argv.push("-c".into());
                argv.push(text.join("\n"));
            }
            Mode::Script => {
                argv.push("script.rsh".into());
                argv.extend(sc.args.iter().filter_map(|a| a.strip_prefix('=').map(|a| a.to_string())));
                if !sc.lines.is_empty() {
                    let mut t = text.join("\n");
                    if !sc.args.iter().any(|a| a == "--no-final-newline") {
                        t.push('\n');
                    }
                    self.fs.put_file("/w/script.rsh", crate::scen::raw(&t), 0o644);
                }
            }
            _ => {}
        }
        let mut env = vec!["PATH=/bin".to_string(), "PWD=/w".into(), "TERM=xterm".into(), "LANG=C".into()];
        if let Some(h) = crate::scen::home(&sc.cfg) {
            env.insert(1, format!("HOME={}", h));
        }
        if sc.cfg.no_path == 1 {
            env.remove(0);
        }
        if sc.args.iter().any(|a| a == "--odd-env") {
            env.push(format!("ODD={}x", crate::scen::NOTEXT));
            env.push(format!("{}={}", crate::scen::NOTEXT, crate::scen::NOTEXT));
        }
        self.z.start(&argv, &env)?;
        let cwd = self.fs.mkdir_p("w");
        let tty = sc.cfg.mode == Mode::Tty;
        let mut fds = BTreeMap::new();
        if tty {
            let t = self.fs.new_ofd(Obj::Tty, libc::O_RDWR);
            for f in 0..3 {
                self.fs.incref(t);
                fds.insert(f, (t, false));
            }
        } else {
            let i = self.fs.new_ofd(Obj::Input, libc::O_RDONLY);
            let o = self.fs.new_ofd(Obj::Console(1), libc::O_WRONLY);
            let e = self.fs.new_ofd(Obj::Console(2), libc::O_WRONLY);
            for (f, x) in [(0, i), (1, o), (2, e)] {
                self.fs.incref(x);
                fds.insert(f, (x, false));
            }
        }
        let req = match self.z.wait(0) {
            Post::Req(r) => r,
            _ => return Err("carrier did not start".into()),
        };
        self.recs.push(Rec { uid: 0, pid: ROOT_PID, parent: 0, pgid: ROOT_PID, ..Default::default() });
        self.procs.insert(
            ROOT_PID,
            Proc {
                uid: 0,
                pid: ROOT_PID,
                ppid: LAUNCHER,
                pgid: ROOT_PID,
                sid: LAUNCHER,
                st: PState::Running,
                status: 0,
                stop_unrep: None,
                cont_unrep: false,
                fds,
                cwd,
                umask: 0o22,
                mask: [(1, SIGINT), (2, SIGTSTP), (4, SIGCHLD), (8, 10)].iter().filter(|x| sc.cfg.inherit & x.0 != 0).map(|x| bit(x.1)).sum(),
                pend: 0,
                disp: {
                    let mut d = [Disp::default(); 65];
                    for (b, s) in [(16, SIGINT), (32, SIGTSTP), (64, SIGCHLD), (128, SIGPIPE), (256, 1)] {
                        if sc.cfg.inherit & b != 0 {
                            d[s as usize].h = 1;
                        }
                    }
                    d
                },
                execd: false,
                body: Body::Carrier(Carrier { slot: 0, phase: Phase::Pending(req), blocked: false, held: false, frames: vec![], wake: None, saved_mask: None, progress: 0 }),
                prio: match sc.cfg.pct_shell { 1 => 0, 2 => 1_000_000, _ => 500 },
                nofile: sc.cfg.nofile,
            },
        );
        if matches!(sc.cfg.mode, Mode::Dash | Mode::Script) {
            self.fed = 0;
            self.input_eof = true;
        }
        if sc.cfg.mode == Mode::Paste {
            let mut t = text.join("\n");
            if !sc.args.iter().any(|a| a == "--no-final-newline") {
                t.push('\n');
            }
            self.input.extend(crate::scen::raw(&t));
            self.input_eof = true;
        }
        Ok(())
    }

    // ------------------------------------------------------------------ run loop
    pub fn run(&mut self) {
        if let Err(e) = self.boot() {
            self.harness_error = Some(e);
            self.z.reset();
            return;
        }
        while self.ended.is_none() && self.harness_error.is_none() {
            self.tick();
        }
        // programs that are still alive: keep what they did
        let pids: Vec<i32> = self.procs.values().filter(|p| p.st != PState::Zombie).map(|p| p.pid).collect();
        for p in pids {
            self.save_prog(p);
        }
        self.stats.steps = self.step;
        self.stats.sim_ns = self.now - 1_700_000_000_000_000_000;
        self.z.reset();
    }

    fn tick(&mut self) {
        self.step += 1;
        if self.after > 0 {
            let left = self.procs.values().any(|p| p.st != PState::Zombie && matches!(p.body, Body::Carrier(_)));
            let stuck = self.next_timer().is_none() && !self.procs.values().any(|p| self.runnable(p));
            if !left || stuck || self.step > self.after + 5000 {
                self.ended = Some("exit".into());
                return;
            }
        }
        if self.step > MAX_STEPS {
            let w = self.describe_all();
            self.violate("livelock", format!("no end after {} steps: {}", MAX_STEPS, w));
            self.ended = Some("steps".into());
            return;
        }
        self.now += 2_000;
        let run: Vec<i32> = self.procs.values().filter(|p| self.runnable(p)).map(|p| p.pid).collect();
        let typist = self.typist_ready(run.is_empty());
        if run.is_empty() && !typist {
            self.idle();
            return;
        }
        // order: current process first, then the others by pid, the typist last
        let mut cand: Vec<i32> = vec![];
        if run.contains(&self.cur) {
            cand.push(self.cur);
        }
        cand.extend(run.iter().copied().filter(|p| *p > self.cur));
        cand.extend(run.iter().copied().filter(|p| *p < self.cur));
        if typist {
            cand.push(0);
        }
        let n = cand.len() as u32;
        let cont = cand[0] == self.cur;
        let pm = self.sc.cfg.cont_pm;
        let i = if self.sc.cfg.pct == 1 {
            // highest priority first; priorities drawn from the schedule stream when processes
            // are created and changed now and then
            let best = cand.iter().enumerate().max_by_key(|(_, p)| if **p == 0 { 1 } else { self.procs[p].prio }).map(|x| x.0 as u32).unwrap_or(0);
            let d = self.ch.draw(SCHED, n, |r| if r.pm(15) { r.below(n as u64) as u32 } else { best });
            if d != best && cand[d as usize] != 0 {
                let m = self.procs.values().map(|p| p.prio).max().unwrap_or(0);
                if let Some(p) = self.procs.get_mut(&cand[d as usize]) {
                    p.prio = m + 1;
                }
            }
            d
        } else {
            self.ch.draw(SCHED, n, |r| if cont && r.pm(pm) { 0 } else { r.below(n as u64) as u32 })
        };
        let who = cand[i as usize];
        if who != self.cur {
            self.stats.switches += 1;
            let u = if who == 0 { 0xffff } else { self.procs[&who].uid as u64 };
            let st = self.recs.len() as u64;
            self.sched_hash = (self.sched_hash ^ (u << 8) ^ (st << 32) ^ self.line_syscalls as u64).wrapping_mul(0x100000001b3);
            self.sched_hash ^= self.sched_hash >> 29;
        }
        if n > 1 {
            self.cur_alts += 1;
        }
        if who == 0 {
            self.type_next();
            return;
        }
        self.cur = who;
        let is_prog = matches!(self.procs[&who].body, Body::Prog(_));
        if is_prog {
            self.step_prog(who);
        } else {
            self.maybe_spontaneous(who);
            if self.procs.get(&who).map(|p| p.st == PState::Running && self.runnable(p)).unwrap_or(false) {
                self.step_carrier(who);
            }
        }
    }

    fn next_timer(&self) -> Option<u64> {
        self.procs
            .values()
            .filter(|p| p.st == PState::Running)
            .filter_map(|p| match &p.body {
                Body::Prog(g) => g.wake,
                Body::Carrier(c) => c.wake,
            })
            .min()
    }

    /// Nothing can run: advance the clock, perform a planned disturbance, let the typist type, or
    /// report the hang.
    fn idle(&mut self) {
        if let Some(t) = self.next_timer() {
            if t > self.now {
                self.now = t;
                return;
            }
        }
        if self.settle_wait {
            self.settle_wait = false;
            return;
        }
        if let Some(i) = self.acts.iter().position(|a| matches!(a, Act::Quiesce(_))) {
            if let Act::Quiesce(w) = self.acts.remove(i) {
                self.perform(&w);
                return;
            }
        }
        if self.at_prompt {
            self.type_mode = 0;
            if self.typist_ready(true) {
                self.type_next();
                return;
            }
        }
        if self.rescue() {
            return;
        }
        let d = self.describe_all();
        self.violate("hang", format!("nothing can run any more: {}", d));
        self.ended = Some("hang".into());
    }

    /// Ctrl-Z that reached only some stages of a pipeline (the copy of the shell that was to become
    /// another stage had not executed its command yet) leaves the others waiting for a stopped
    /// one.  A user would end them; the shell must then go on.
    fn rescue(&mut self) -> bool {
        if self.at_prompt || self.rescues >= 20 {
            return false;
        }
        let stopped: BTreeSet<i32> = self.procs.values().filter(|p| p.pid != ROOT_PID && p.st == PState::Stopped).map(|p| p.pgid).collect();
        let t: Vec<i32> = self.procs.values().filter(|p| matches!(p.body, Body::Prog(_)) && p.st == PState::Running && stopped.contains(&p.pgid)).map(|p| p.pid).collect();
        if t.is_empty() {
            return false;
        }
        self.rescues += 1;
        self.ev(Ev::Sig { what: "rescue".into(), sig: SIGKILL });
        for p in t {
            self.send_signal(p, SIGKILL);
        }
        true
    }
    pub fn describe_all(&self) -> String {
        let mut v = vec![];
        for p in self.procs.values() {
            let what = match (&p.st, &p.body) {
                (PState::Zombie, _) => "zombie".to_string(),
                (PState::Stopped, _) => "stopped".to_string(),
                (_, Body::Carrier(c)) => match &c.phase {
                    Phase::Pending(r) => format!("in {}{}", crate::sys::sysname(r.nr), self.describe_args(p, r)),
                    Phase::Done(..) => "running".into(),
                },
                (_, Body::Prog(g)) => format!("{} {}", g.tag, g.describe()),
            };
            v.push(format!("{}{}: {}", if p.pid == ROOT_PID { "shell " } else { "pid " }, p.pid, what));
        }
        v.join("; ")
    }
    fn describe_args(&self, p: &Proc, r: &Req) -> String {
        match r.nr {
            0 | 1 => {
                let fd = r.a[0] as i32;
                format!("(fd {} = {:?})", fd, p.fds.get(&fd).map(|x| self.fs.ofds[x.0].obj.clone()))
            }
            61 => format!("(pid {}, options {})", r.a[0] as i32, r.a[2]),
            _ => String::new(),
        }
    }

    // ------------------------------------------------------------------ typist
    fn typist_ready(&self, none_running: bool) -> bool {
        if !self.at_prompt || self.settle_wait {
            return false;
        }
        if !matches!(self.sc.cfg.mode, Mode::Typed | Mode::Tty) {
            return false;
        }
        if self.input_eof && self.tty_rest.is_empty() {
            return false;
        }
        // the shell must really still be waiting
        let p = match self.procs.get(&ROOT_PID) {
            Some(p) => p,
            None => return false,
        };
        if p.st != PState::Running {
            return false;
        }
        match self.type_mode {
            0 => true,
            1 => none_running,
            _ => none_running && self.next_timer().is_none(),
        }
    }
    pub fn reached_prompt(&mut self) {
        if self.at_prompt {
            return;
        }
        self.at_prompt = true;
        if !self.tty_rest.is_empty() {
            self.type_mode = 0;
            return; // in the middle of a line
        }
        self.prompt_acts = self.acts.iter().filter(|a| matches!(a, Act::Prompt(_))).cloned().collect();
        self.acts.retain(|a| matches!(a, Act::Quiesce(_)));
        let n = self.fed;
        self.ev(Ev::Prompt(n));
        self.prompt_invariants();
        let pm = self.sc.cfg.type_late_pm;
        self.type_mode = self.ch.draw(SCHED, 3, |r| if r.pm(pm) { 1 + r.below(2) as u32 } else { 0 });
    }
    fn type_next(&mut self) {
        if !self.tty_rest.is_empty() {
            self.type_tty();
            return;
        }
        if let Some(a) = self.prompt_acts.pop_front() {
            if let Act::Prompt(w) = a {
                if w == What::Settle {
                    self.settle_wait = true;
                } else {
                    self.perform(&w);
                }
            }
            return;
        }
        self.zombies_at_feed = self.procs.values().filter(|p| p.st == PState::Zombie && p.ppid == ROOT_PID).map(|p| p.uid).collect();
        self.line_syscalls = 0;
        if self.sc.cfg.mode == Mode::Tty {
            self.type_tty();
            return;
        }
        if self.fed < self.sc.lines.len() {
            let l = &self.sc.lines[self.fed];
            let t = self.resolve(&l.text);
            self.input.extend(crate::scen::raw(&t));
            self.input.push_back(b'\n');
            self.typed.push(t);
            self.acts = l.acts.clone();
            let n = self.fed;
            self.fed += 1;
            self.ev(Ev::Feed(n));
        } else {
            self.input_eof = true;
            self.acts.clear();
            self.ev(Ev::Eof);
        }
        self.at_prompt = false;
    }

    /// `@J:tag@` becomes the job number the shell last showed for the job with this command,
    /// `@P:tag@` the process id of the command.
    pub fn resolve(&self, t: &str) -> String {
        let mut o = String::new();
        let mut rest = t;
        while let Some(i) = rest.find('@') {
            o.push_str(&rest[..i]);
            let r = &rest[i + 1..];
            let j = match r.find('@') {
                Some(j) if r.starts_with("J:") || r.starts_with("P:") => j,
                _ => {
                    o.push('@');
                    rest = r;
                    continue;
                }
            };
            let tag = &r[2..j];
            if r.starts_with("J:") {
                o.push_str(&self.job_number(tag).unwrap_or(99).to_string());
            } else {
                let pid = self.execs.iter().rev().find(|e| e.tag == tag).map(|e| self.recs[e.uid].pid).unwrap_or(999_999);
                o.push_str(&pid.to_string());
            }
            rest = &r[j + 1..];
        }
        o.push_str(rest);
        o
    }
    /// everything the shell itself wrote to its standard output
    /// when the shell became another program
    pub fn became(&self) -> u64 {
        self.recs[0].exec.map(|x| self.execs[x].step).unwrap_or(u64::MAX)
    }
    pub fn shell_text(&self) -> String {
        let mut v = vec![];
        let end = self.became();
        for o in &self.outs {
            if o.uid == 0 && o.fd == 1 && o.step <= end {
                v.extend_from_slice(&o.data);
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }
    pub fn job_number(&self, tag: &str) -> Option<u32> {
        let t = self.shell_text();
        let mut n = None;
        for (v, rest) in job_entries(&t) {
            if rest.split_whitespace().any(|w| w == tag) {
                n = Some(v);
            }
        }
        n
    }

    // ------------------------------------------------------------------ disturbances
    fn maybe_spontaneous(&mut self, who: i32) {
        // planned at a step of the line
        self.line_syscalls += 1;
        let n = self.line_syscalls;
        while let Some(i) = self.acts.iter().position(|a| matches!(a, Act::Step(k, _) if *k <= n)) {
            if let Act::Step(_, w) = self.acts.remove(i) {
                self.perform(&w);
            }
        }
        let c = &self.sc.cfg;
        let tot = c.int_pm + c.tstp_pm + c.chld_pm + c.shint_pm + c.shtstp_pm + c.winch_pm;
        if tot == 0 || self.sig_left == 0 || self.base_disp.is_none() || self.root_fin {
            return;
        }
        let (a, b, cc, d, e, f) = (c.int_pm, c.tstp_pm, c.chld_pm, c.shint_pm, c.shtstp_pm, c.winch_pm);
        let v = self.ch.draw(SIG, 7, |r| {
            let x = r.below(100_000) as u32;
            if x < a {
                1
            } else if x < a + b {
                2
            } else if x < a + b + cc {
                3
            } else if x < a + b + cc + d {
                4
            } else if x < a + b + cc + d + e {
                5
            } else if x < a + b + cc + d + e + f {
                6
            } else {
                0
            }
        });
        let w = match v {
            0 => return,
            1 => What::Group(SIGINT),
            2 => What::Group(SIGTSTP),
            3 => What::Shell(SIGCHLD),
            4 => What::Shell(SIGINT),
            5 => What::Shell(SIGTSTP),
            _ => What::Shell(28),
        };
        self.sig_left -= 1;
        let _ = who;
        self.perform(&w);
    }
    pub fn perform(&mut self, w: &What) {
        let mut targets: Vec<i32> = vec![];
        let sig = match w {
            What::Group(s) => {
                let g = if self.sc.cfg.mode == Mode::Tty { self.tty.fg } else { ROOT_PID };
                targets = self.procs.values().filter(|p| p.pgid == g && p.st != PState::Zombie).map(|p| p.pid).collect();
                *s
            }
            What::Shell(s) => {
                targets.push(ROOT_PID);
                *s
            }
            What::Tag(t, s) => {
                for p in self.procs.values() {
                    if let Body::Prog(g) = &p.body {
                        if &g.tag == t && p.st != PState::Zombie {
                            targets.push(p.pid);
                        }
                    }
                }
                *s
            }
            What::All(s) => {
                // (and copies of the shell that were stopped before they could start their command)
                targets = self.procs.values().filter(|p| matches!(p.body, Body::Prog(_)) && p.st != PState::Zombie || p.pid != ROOT_PID && p.st == PState::Stopped).map(|p| p.pid).collect();
                *s
            }
            What::Settle => return,
        };
        if sig == SIGINT || sig == SIGTSTP {
            // only once the shell is up: before the first prompt nothing is promised
            if self.base_disp.is_none() {
                return;
            }
        }
        let d = format!("{:?}", w);
        self.ev(Ev::Sig { what: d.clone(), sig });
        let k = match w {
            What::Group(_) => "group",
            What::Shell(_) => "shell",
            _ => "command",
        };
        *self.stats.faults.entry(format!("signal {} to {}", signame(sig), k)).or_insert(0) += 1;
        for t in targets {
            self.send_signal(t, sig);
        }
    }

    // ------------------------------------------------------------------ signals
    pub fn orphaned_pgrp(&self, pgid: i32) -> bool {
        !self.procs.values().any(|p| {
            p.pgid == pgid && p.st != PState::Zombie && {
                let (pg, ps) = match self.procs.get(&p.ppid) {
                    Some(q) => (q.pgid, q.sid),
                    None if p.ppid == LAUNCHER => (LAUNCHER, LAUNCHER),
                    None => (1, 1),
                };
                pg != pgid && ps == p.sid
            }
        })
    }
    fn default_ignored(s: i32) -> bool {
        matches!(s, 17 | 18 | 23 | 28)
    }
    pub fn send_signal(&mut self, pid: i32, s: i32) {
        if s == 0 {
            return;
        }
        let p = match self.procs.get_mut(&pid) {
            Some(p) => p,
            None => return,
        };
        if p.st == PState::Zombie {
            return;
        }
        if s == SIGCONT {
            p.pend &= !STOPS;
            if p.st == PState::Stopped {
                p.st = PState::Running;
                p.stop_unrep = None;
                p.cont_unrep = true;
                let (uid, pp) = (p.uid, p.ppid);
                let st = self.step;
                self.recs[uid].stops.push((st, s, false));
                self.ev(Ev::Cont { uid });
                self.notify_parent(pp, true);
            }
        }
        let p = self.procs.get_mut(&pid).unwrap();
        if STOPS & bit(s) != 0 {
            p.pend &= !bit(SIGCONT);
        }
        let d = p.disp[s as usize];
        let ign = d.h == 1 || (d.h == 0 && Self::default_ignored(s));
        if ign && s != SIGKILL && s != SIGSTOP && p.mask & bit(s) == 0 {
            self.lost_signal(pid, s);
            return;
        }
        p.pend |= bit(s);
        if s == SIGKILL && p.st == PState::Stopped {
            p.st = PState::Running;
        }
    }
    fn lost_signal(&mut self, pid: i32, s: i32) {
        let p = &self.procs[&pid];
        if pid == ROOT_PID || s != SIGINT && s != SIGTSTP || !matches!(p.body, Body::Carrier(_)) {
            return;
        }
        let (uid, st) = (p.uid, self.step);
        // a copy of the shell that goes on after Ctrl-C must not start what was interrupted
        self.recs[uid].lost.push((s, st));
    }
    fn notify_parent(&mut self, pp: i32, stop: bool) {
        if let Some(q) = self.procs.get(&pp) {
            if stop && q.disp[SIGCHLD as usize].flags & 1 != 0 {
                return;
            }
            self.send_signal(pp, SIGCHLD);
        }
    }
    /// next signal that would be acted upon
    pub fn deliverable(&self, p: &Proc) -> Option<i32> {
        let un = p.pend & (!p.mask | bit(SIGKILL) | bit(SIGSTOP));
        if un == 0 {
            return None;
        }
        if un & bit(SIGKILL) != 0 {
            return Some(SIGKILL);
        }
        Some(un.trailing_zeros() as i32 + 1)
    }
    /// Act on one signal.  Returns true if something happened (step is over).
    pub fn take_signal(&mut self, pid: i32) -> bool {
        let s = match self.deliverable(&self.procs[&pid]) {
            Some(s) => s,
            None => return false,
        };
        let p = self.procs.get_mut(&pid).unwrap();
        p.pend &= !bit(s);
        let d = p.disp[s as usize];
        if s == SIGKILL || (d.h == 0 && s != SIGSTOP && !Self::default_ignored(s) && STOPS & bit(s) == 0) {
            self.terminate(pid, s | if matches!(s, 3 | 4 | 5 | 6 | 7 | 8 | 11 | 24 | 25 | 31) { 0x80 } else { 0 });
            return true;
        }
        if s == SIGSTOP || (d.h == 0 && STOPS & bit(s) != 0) {
            if s != SIGSTOP && self.orphaned_pgrp(self.procs[&pid].pgid) {
                return true;
            }
            let p = self.procs.get_mut(&pid).unwrap();
            p.st = PState::Stopped;
            p.stop_unrep = Some(s);
            p.cont_unrep = false;
            let (uid, pp) = (p.uid, p.ppid);
            let st = self.step;
            self.recs[uid].stops.push((st, s, true));
            self.ev(Ev::Stop { uid, sig: s });
            if pid == ROOT_PID && s != SIGSTOP {
                self.violate("shell-stopped", format!("the shell itself was stopped by {}", signame(s)));
                self.ended = Some("shell stopped".into());
            }
            self.notify_parent(pp, true);
            return true;
        }
        if d.h == 1 || d.h == 0 {
            return true; // ignored
        }
        // handler
        self.lost_signal(pid, s);
        self.mix(0x5160 + s as u64 + ((pid as u64) << 20));
        let p = self.procs.get_mut(&pid).unwrap();
        let c = match &mut p.body {
            Body::Carrier(c) => c,
            _ => return true,
        };
        let resume = match std::mem::replace(&mut c.phase, Phase::Done(0, vec![])) {
            Phase::Pending(r) => {
                let restart = c.blocked && d.flags & 0x1000_0000 != 0 && crate::sys::restartable(r.nr);
                if c.blocked && c.progress > 0 {
                    Phase::Done(c.progress as i64, vec![])
                } else if c.blocked && !restart {
                    Phase::Done(-(libc::EINTR as i64), vec![])
                } else {
                    Phase::Pending(r)
                }
            }
            x => x,
        };
        let was_blocked = c.blocked;
        c.blocked = false;
        c.wake = None;
        c.progress = 0;
        let m = c.saved_mask.take().unwrap_or(p.mask);
        c.frames.push(Frame { mask: m, resume });
        p.mask |= d.mask | if d.flags & 0x4000_0000 == 0 { bit(s) } else { 0 };
        if d.flags & 0x8000_0000 != 0 {
            p.disp[s as usize] = Disp::default();
        }
        let depth = c.frames.len();
        let slot = c.slot;
        if was_blocked && pid == ROOT_PID {
            self.probe("signal interrupted a blocking call of the shell");
        }
        if depth > 1 {
            self.probe("signal handler interrupted by another signal");
        }
        self.note(|| format!("pid {} handler for {}", pid, signame(s)));
        let ya = self.yield_after();
        self.z.signal(slot, d.h, s, d.flags, 0, 0, ya);
        self.await_post(pid);
        true
    }
    fn yield_after(&mut self) -> u32 {
        let y = self.sc.cfg.yield_every;
        if y == 0 || self.base_disp.is_none() {
            return 0;
        }
        self.ch.draw(IO, y * 4, |r| if r.pm(300) { 1 + r.below((y * 2) as u64) as u32 } else { 0 })
    }

    // ------------------------------------------------------------------ life and death
    pub fn save_prog(&mut self, pid: i32) {
        if let Some(p) = self.procs.get_mut(&pid) {
            if let Body::Prog(g) = &mut p.body {
                let r = &mut self.recs[p.uid];
                r.out = std::mem::take(&mut g.out);
                r.inp = std::mem::take(&mut g.inp);
                r.err = g.err;
                r.eof = g.eof;
                r.epipe = g.epipe;
            }
        }
    }
    /// `status` in wait format
    pub fn terminate(&mut self, pid: i32, status: i32) {
        self.save_prog(pid);
        let p = self.procs.get_mut(&pid).unwrap();
        p.st = PState::Zombie;
        p.status = status;
        p.pend = 0;
        p.stop_unrep = None;
        p.cont_unrep = false;
        let uid = p.uid;
        let pp = p.ppid;
        let fds: Vec<usize> = p.fds.values().map(|x| x.0).collect();
        p.fds.clear();
        let slot = match &p.body {
            Body::Carrier(c) => Some(c.slot),
            _ => None,
        };
        let dead = Prog::dead();
        p.body = Body::Prog(dead);
        let pgid = p.pgid;
        for f in fds {
            self.fs.decref(f);
        }
        if let Some(s) = slot {
            self.z.exit(s, 0);
            if s != 0 {
                self.free_slots.push(s);
            }
        }
        self.recs[uid].status = Some(status);
        self.recs[uid].exit_step = self.step;
        self.recs[uid].pgid = pgid;
        self.mix(0xdead ^ ((uid as u64) << 16) ^ status as u64);
        self.ev(Ev::Exit { uid, status });
        // children go to init
        let kids: Vec<i32> = self.procs.values().filter(|q| q.ppid == pid).map(|q| q.pid).collect();
        for k in kids {
            let q = self.procs.get_mut(&k).unwrap();
            q.ppid = 1;
            if q.st == PState::Zombie {
                self.procs.remove(&k);
            }
        }
        if pid == ROOT_PID {
            self.root_status = Some(status);
            if self.sc.cfg.mode != Mode::Typed {
                // copies of the shell that are still at work may yet spoil what the session left
                self.after = self.step;
                self.acts.clear();
            } else {
                self.ended = Some("exit".into());
            }
            return;
        }
        match self.procs.get(&pp) {
            Some(q) if q.st != PState::Zombie => {
                let d = q.disp[SIGCHLD as usize];
                let auto = d.h == 1 || d.flags & 2 != 0;
                if auto {
                    let st = self.step;
                    self.recs[uid].reaped = Some(st);
                    self.procs.remove(&pid);
                }
                self.send_signal(pp, SIGCHLD);
            }
            _ => {
                self.procs.remove(&pid);
            }
        }
    }

    pub fn new_pid(&mut self) -> Option<i32> {
        let sp = self.sc.cfg.pid_space as i32;
        if sp == 0 {
            self.last_pid += 1;
            return Some(self.last_pid);
        }
        for _ in 0..sp {
            self.last_pid += 1;
            if self.last_pid > ROOT_PID + sp {
                self.last_pid = ROOT_PID + 1;
            }
            let c = self.last_pid;
            // a pid is free when no process and no process group uses it
            if !self.procs.values().any(|p| p.pid == c || p.pgid == c) {
                return Some(c);
            }
        }
        None
    }

    // ------------------------------------------------------------------ carriers
    /// Wait for the carrier's next request after it was let run.
    pub fn await_post(&mut self, pid: i32) {
        let slot = match &self.procs[&pid].body {
            Body::Carrier(c) => c.slot,
            _ => return,
        };
        match self.z.wait(slot) {
            Post::Req(r) => {
                if let Some(Proc { body: Body::Carrier(c), .. }) = self.procs.get_mut(&pid) {
                    c.phase = Phase::Pending(r);
                    c.blocked = false;
                    c.held = false;
                    c.wake = None;
                }
            }
            Post::Crashed(s) => {
                self.note(|| format!("pid {} really died, status {:#x}", pid, s));
                let sig = s & 0x7f;
                let root = pid == ROOT_PID;
                if root {
                    self.violate("crash", format!("the shell crashed with {}", signame(sig)));
                } else {
                    self.violate("child-crash", format!("a forked copy of the shell crashed with {}", signame(sig)));
                }
                self.terminate(pid, s & 0xffff);
            }
            Post::Spin => {
                let root = pid == ROOT_PID;
                self.violate(if root { "spin" } else { "child-spin" }, format!("{} burns CPU without making a system call", if root { "the shell" } else { "a forked copy of the shell" }));
                self.ended = Some(if self.after > 0 { "exit" } else { "spin" }.into());
            }
        }
    }

    pub fn runnable(&self, p: &Proc) -> bool {
        if p.st != PState::Running {
            return false;
        }
        if self.deliverable(p).is_some() {
            return true;
        }
        match &p.body {
            Body::Prog(g) => self.prog_can_run(p, g),
            Body::Carrier(c) => {
                if !c.blocked {
                    return true;
                }
                if let Some(t) = c.wake {
                    if t <= self.now {
                        return true;
                    }
                }
                match &c.phase {
                    Phase::Pending(r) => !self.would_block(p, r),
                    _ => true,
                }
            }
        }
    }

    fn step_carrier(&mut self, pid: i32) {
        loop {
            if self.take_signal(pid) {
                return;
            }
            let hold_pm = self.sc.cfg.hold_pm;
            let p = self.procs.get_mut(&pid).unwrap();
            let c = match &mut p.body {
                Body::Carrier(c) => c,
                _ => return,
            };
            match &c.phase {
                Phase::Done(ret, _) => {
                    let ret = *ret;
                    if !c.held && hold_pm > 0 {
                        c.held = true;
                        if self.ch.draw(SCHED, 2, |r| r.pm(hold_pm) as u32) == 1 {
                            return;
                        }
                    }
                    let ya = self.yield_after();
                    let p = self.procs.get_mut(&pid).unwrap();
                    if let Body::Carrier(c) = &mut p.body {
                        if let Phase::Done(_, pk) = &c.phase {
                            self.z.ret(c.slot, ret, pk, ya);
                        }
                    }
                    self.await_post(pid);
                    return;
                }
                Phase::Pending(r) => {
                    let r = r.clone();
                    match r.kind {
                        RQ_YIELD | RQ_CHILD => {
                            c.phase = Phase::Done(0, vec![]);
                            c.held = true;
                            self.mix(0x71e1d + r.kind as u64);
                        }
                        RQ_UNSAFE => {
                            c.phase = Phase::Done(0, vec![]);
                            c.held = true;
                            self.mem_unsafe = true;
                            self.probe("handler interrupted the allocator and entered it again");
                        }
                        RQ_SIGRET => {
                            let f = c.frames.pop();
                            c.held = false;
                            match f {
                                Some(f) => {
                                    p.mask = f.mask;
                                    c.phase = f.resume;
                                    c.blocked = false;
                                }
                                None => {
                                    self.harness_error = Some("sigreturn without frame".into());
                                    return;
                                }
                            }
                        }
                        RQ_SYS => {
                            self.stats.syscalls += 1;
                            let go = self.do_syscall(pid, r);
                            if !go {
                                return;
                            }
                        }
                        k => {
                            self.harness_error = Some(format!("unexpected request kind {}", k));
                            return;
                        }
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------ prompt invariants
    pub fn prompt_invariants(&mut self) {
        let p = &self.procs[&ROOT_PID];
        let fds: Vec<(i32, Obj)> = p.fds.iter().map(|(f, o)| (*f, self.fs.ofds[o.0].obj.clone())).collect();
        let disp = p.disp;
        let mask = p.mask;
        let kids: Vec<(usize, PState)> = self.procs.values().filter(|q| q.ppid == ROOT_PID).map(|q| (q.uid, q.st)).collect();
        let frames = match &p.body {
            Body::Carrier(c) => c.frames.len(),
            _ => 0,
        };
        let cwd = self.fs.path_of(p.cwd);
        self.snaps.push(Snap { step: self.step, line: self.fed, kids: kids.clone(), cwd });
        if self.base_fds.is_none() {
            self.base_fds = Some(fds.clone());
            self.base_disp = Some(disp);
            let left: Vec<String> = fds.iter().filter(|f| f.0 > 2 && matches!(f.1, Obj::File(_) | Obj::Dir(_))).map(|f| format!("fd {} = {:?}", f.0, f.1)).collect();
            if !left.is_empty() {
                self.violate("fdleak", format!("files open at the first prompt: {}", left.join(", ")));
            }
            for s in [SIGINT, SIGTSTP, SIGCHLD] {
                if disp[s as usize].h <= 1 {
                    self.violate("handler", format!("at the first prompt there is no handler for {}", signame(s)));
                }
            }
        }
        if frames > 0 {
            self.violate("read-in-handler", "the shell reads input inside a signal handler".into());
        }
        if mask != 0 {
            let m: Vec<&str> = (1..32).filter(|s| mask & bit(*s) != 0).map(signame).collect();
            self.violate("mask", format!("signals blocked at the prompt after line {}: {}", self.fed, m.join(" ")));
        }
        let bd = self.base_disp.unwrap();
        for s in (1..65).filter(|s| *s != 28) {
            if disp[s as usize].h != bd[s as usize].h {
                self.violate("handler", format!("handler for {} changed at the prompt after line {}", signame(s), self.fed));
            }
        }
        let bf = self.base_fds.clone().unwrap();
        if bf != fds {
            let extra: Vec<String> = fds.iter().filter(|f| !bf.contains(f)).map(|f| format!("fd {} = {:?}", f.0, f.1)).collect();
            let lost: Vec<String> = bf.iter().filter(|f| !fds.contains(f)).map(|f| format!("fd {} = {:?}", f.0, f.1)).collect();
            self.violate("fdleak", format!("descriptors of the shell changed at the prompt after line {}: new [{}] lost [{}]", self.fed, extra.join(", "), lost.join(", ")));
        }
        let z: Vec<usize> = kids.iter().filter(|k| k.1 == PState::Zombie && self.zombies_at_feed.contains(&k.0)).map(|k| k.0).collect();
        if !z.is_empty() {
            let names: Vec<String> = z.iter().map(|u| self.name_of(*u)).collect();
            self.violate("zombie", format!("terminated before line {} was typed and still not reaped at the next prompt: {}", self.fed, names.join(", ")));
        }
    }
    pub fn name_of(&self, uid: usize) -> String {
        match self.recs[uid].exec {
            Some(i) => format!("{}(pid {})", self.execs[i].tag, self.recs[uid].pid),
            None => format!("pid {}", self.recs[uid].pid),
        }
    }

    // ------------------------------------------------------------------ faults
    /// a limit of the simulated machine was hit
    pub fn limit(&mut self, pid: i32, class: &'static str, err: i32) {
        *self.stats.faults.entry(format!("{} reached", class)).or_insert(0) += 1;
        let uid = self.procs[&pid].uid;
        let line = self.fed;
        self.ev(Ev::Fault { uid, class, err, line });
    }
    pub fn fault(&mut self, pid: i32, class: &'static str, pm: u32, errs: &[i32]) -> Option<i32> {
        if pm == 0 || self.fault_left == 0 || self.base_disp.is_none() && self.sc.cfg.f_start == 0 && matches!(self.sc.cfg.mode, Mode::Typed | Mode::Tty) {
            return None;
        }
        if matches!(self.sc.cfg.mode, Mode::Typed | Mode::Tty) {
            let l = self.fed as u32; // 1-based
            if l < self.sc.cfg.f_lo || l > self.sc.cfg.f_hi || self.input_eof && self.sc.cfg.f_hi < 1000 {
                return None;
            }
        }
        let n = errs.len() as u32 + 1;
        let v = self.ch.draw(FAULT, n, |r| if r.pm(pm) { 1 + r.below(n as u64 - 1) as u32 } else { 0 });
        if v == 0 {
            return None;
        }
        let e = errs[v as usize - 1];
        self.fault_left -= 1;
        *self.stats.faults.entry(format!("{} fails with {}", class, errname(e))).or_insert(0) += 1;
        let uid = self.procs[&pid].uid;
        let line = self.fed;
        self.ev(Ev::Fault { uid, class, err: e, line });
        Some(e)
    }
}

/// The `[n] ...` entries in what the shell wrote.  A notice such as "Job [2] (1007) terminated by
/// signal" is no entry; the shell prints those without a newline in front of whatever comes next.
pub fn job_entries(text: &str) -> Vec<(u32, String)> {
    let mut v = vec![];
    for l in text.lines() {
        let mut at: Vec<(usize, usize, u32, bool)> = vec![]; // start of the entry, of its text, number, entry?
        for (i, _) in l.match_indices('[') {
            if let Some(k) = l[i..].find(']') {
                if let Ok(n) = l[i + 1..i + k].trim().parse::<u32>() {
                    let notice = l[..i].ends_with("Job ");
                    at.push((if notice { i - 4 } else { i }, i + k + 1, n, !notice));
                }
            }
        }
        for (x, a) in at.iter().enumerate() {
            if a.3 {
                let e = at.get(x + 1).map(|b| b.0).unwrap_or(l.len());
                v.push((a.2, l[a.1..e.max(a.1)].to_string()));
            }
        }
    }
    v
}

pub fn signame(s: i32) -> &'static str {
    match s {
        1 => "SIGHUP", 2 => "SIGINT", 3 => "SIGQUIT", 4 => "SIGILL", 5 => "SIGTRAP", 6 => "SIGABRT", 7 => "SIGBUS", 8 => "SIGFPE",
        9 => "SIGKILL", 10 => "SIGUSR1", 11 => "SIGSEGV", 12 => "SIGUSR2", 13 => "SIGPIPE", 14 => "SIGALRM", 15 => "SIGTERM",
        17 => "SIGCHLD", 18 => "SIGCONT", 19 => "SIGSTOP", 20 => "SIGTSTP", 21 => "SIGTTIN", 22 => "SIGTTOU", 28 => "SIGWINCH",
        _ => "signal",
    }
}
pub fn errname(e: i32) -> &'static str {
    match e {
        libc::EAGAIN => "EAGAIN", libc::ENOMEM => "ENOMEM", libc::EMFILE => "EMFILE", libc::ENFILE => "ENFILE", libc::EACCES => "EACCES",
        libc::EIO => "EIO", libc::ENOSPC => "ENOSPC", libc::ENOENT => "ENOENT", libc::ENOEXEC => "ENOEXEC", libc::ETXTBSY => "ETXTBSY",
        libc::E2BIG => "E2BIG", libc::EINTR => "EINTR", libc::EPERM => "EPERM", libc::ENXIO => "ENXIO", libc::ELOOP => "ELOOP", _ => "error",
    }
}

//! Seeded generation of sessions, one flavour per property.
use crate::choice::Rng;
use crate::scen::*;

pub const CLAIMED: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C21", "C22", "C23",
];

struct Func {
    name: String,
    reads: bool,  // the first inner command reads stdin
    status: bool, // only used where its status is known
    touches: bool, // changes directories or variables
}
struct G {
    r: Rng,
    n: u32,
    nf: u32,
    nfile: u32,
    nv: u32,
    na: u32,
    nsrc: u32,
    cfg: Config,
    lines: Vec<Line>,
    files: Vec<(String, String)>,
    outfiles: Vec<String>,
    vars: Vec<String>,
    exported: Vec<String>,
    dirs: &'static [&'static str],
    big: u32,       // how often (of 10) sizes are around the pipe capacity
    deaths: u32,    // per mille of programs that kill themselves
    errs: u32,      // per mille of stages replaced by a command that does not exist
    bst: u32,       // per mille of stages replaced by a builtin
    in_tty: bool,
    abs_only: bool,
    bg_ok: bool,
    nul: bool, // lines with a NUL character
    exits: bool, // sourced text may leave the shell
}

fn l(t: impl Into<String>) -> Line {
    Line { text: t.into(), acts: vec![] }
}
fn la(t: impl Into<String>, acts: Vec<Act>) -> Line {
    Line { text: t.into(), acts }
}

impl G {
    fn new(seed: u64) -> G {
        let mut r = Rng::new(seed);
        let mut cfg = Config::default();
        cfg.pipe_cap = *r.pick(&[512, 1024, 4096, 4096, 65536]);
        cfg.chunk = *r.pick(&[1, 64, 700, 4096, 4096, 65536]);
        cfg.cont_pm = *r.pick(&[0, 300, 600, 800, 900, 950, 985]);
        if r.pm(250) {
            cfg.pct = 1;
            cfg.pct_shell = r.below(3) as u32;
        }
        let bst = if r.pm(200) { 80 } else { 0 };
        cfg.hold_pm = *r.pick(&[0, 0, 100, 400]);
        cfg.pshort_pm = *r.pick(&[0, 0, 0, 300]);
        cfg.short_pm = *r.pick(&[0, 0, 0, 300]);
        cfg.pid_space = if r.pm(250) { r.range(14, 40) as u32 } else { 0 };
        cfg.type_late_pm = *r.pick(&[0, 300, 300, 1000]);
        if cfg.chunk == 1 {
            cfg.pipe_cap = cfg.pipe_cap.min(1024);
        }
        G {
            r,
            n: 0,
            nf: 0,
            nfile: 0,
            nv: 0,
            na: 0,
            nsrc: 0,
            cfg,
            lines: vec![],
            files: vec![],
            outfiles: vec![],
            vars: vec![],
            exported: vec![],
            dirs: &["/w/d1", "/w/d2", "/w/d1/sub"],
            big: 3,
            deaths: 60,
            errs: 0,
            bst,
            in_tty: false,
            abs_only: false,
            bg_ok: true,
            nul: false,
            exits: false,
        }
    }
    fn pm(&mut self, p: u32) -> bool {
        self.r.pm(p)
    }
    fn b(&mut self, n: u64) -> u64 {
        self.r.below(n)
    }
    fn tag(&mut self) -> String {
        self.n += 1;
        format!("u{}", self.n)
    }
    fn size(&mut self) -> u64 {
        let cap = self.cfg.pipe_cap as u64;
        let lim = if self.cfg.chunk == 1 { 1500 } else { 150_000 };
        let x = if self.r.below(10) < self.big as u64 {
            match self.r.below(7) {
                0 => cap - 1,
                1 => cap,
                2 => cap + 1,
                3 => 2 * cap + self.r.below(100),
                4 => cap + self.r.below(cap * 2),
                5 => cap / 2 + self.r.below(cap),
                _ => 4096 * self.r.range(1, 3) + self.r.below(3) - 1,
            }
        } else {
            match self.r.below(4) {
                0 => 0,
                1 => 1,
                _ => self.r.range(2, 60),
            }
        };
        x.min(lim)
    }
    fn sleep(&mut self) -> u64 {
        *self.r.pick(&[1, 3, 10, 50])
    }
    /// how the program ends; `st` = probability of a failing status
    fn ending(&mut self, fail_pm: u32) -> String {
        if self.pm(self.deaths) {
            return format!(",k{}", self.r.pick(&[9, 15, 11, 6, 1, 10]));
        }
        if self.pm(fail_pm) {
            return format!(",x{}", self.r.pick(&[1, 1, 2, 3, 7, 42, 100, 126, 127, 128, 130, 148, 200, 255]));
        }
        if self.pm(300) {
            ",x0".into()
        } else {
            String::new()
        }
    }
    fn fix(s: String) -> String {
        let t = s.trim_matches(',').to_string();
        if t.is_empty() {
            "x0".into()
        } else {
            t
        }
    }
    fn src_ops(&mut self, fail_pm: u32) -> String {
        let body = match self.b(8) {
            0 => String::new(),
            1 => format!("t{},w{}", self.sleep(), self.size()),
            2 => format!("w{},t{},w{}", self.size(), self.sleep(), self.size()),
            3 => format!("e{},w{}", self.b(30), self.size()),
            4 => format!("w{},t{}", self.size(), self.sleep()),
            _ => format!("w{}", self.size()),
        };
        let e = self.ending(fail_pm);
        Self::fix(format!("{}{}", body, e))
    }
    /// the shell becomes a program
    fn exec_line(&mut self) -> String {
        let t = self.tag();
        let mut o = self.src_ops(300);
        if self.pm(400) {
            let a = self.arg();
            o = format!("{} {}", o, a);
        }
        let opt = match self.b(14) {
            0 => "-c ".into(),
            1 => "-l ".into(),
            2 => format!("-a {} ", self.r.pick(&["nm", "my-nm", "a.b"])),
            3 => "-cl ".into(),
            4 => "-c -l ".into(),
            5 => "-la nm ".into(),
            6 => "-c -a nm ".into(),
            7 => "-a nm -c ".into(),
            _ => String::new(),
        };
        let t = if self.pm(250) {
            // a path that looks like options
            let d = *self.r.pick(&["/w/a-cl", "/w/-l", "/w/c-"]);
            self.files.push((format!("{}/{}", d, t), "prog:755".into()));
            format!("{}/{}", d, t)
        } else {
            t
        };
        let c = format!("exec {}{} {}", opt, t, o);
        match self.b(8) {
            0 => {
                let f = self.cmd(100);
                format!("{}; {}", f, c)
            }
            1 => {
                let f = self.cmd(500);
                format!("{} {} {}", f, self.r.pick(&["&&", "||"]), c)
            }
            2 => {
                let f = self.cmd(100);
                format!("{}; {}", c, f)
            }
            _ => c,
        }
    }
    /// reads stdin in some way
    fn mid_ops(&mut self, fail_pm: u32) -> String {
        let body = match self.b(10) {
            0 => format!("h{},c", self.b(50)),
            1 => format!("h{}", self.b(100)),
            2 => format!("c,w{}", self.b(50)),
            3 => format!("r,w{}", self.size()),
            4 => format!("t{},c", self.sleep()),
            5 => format!("w{}", self.b(100)),
            6 => format!("h{},t{}", self.b(100), self.sleep()),
            _ => "c".into(),
        };
        let e = self.ending(fail_pm);
        Self::fix(format!("{}{}", body, e))
    }
    fn sink_ops(&mut self, fail_pm: u32) -> String {
        let body = match self.b(8) {
            0 => format!("h{}", self.b(200)),
            1 => format!("t{},r", self.sleep()),
            2 => "r".into(),
            3 => format!("r,t{}", self.sleep()),
            4 => format!("w{}", self.b(20)),
            _ => "c".into(),
        };
        let e = self.ending(fail_pm);
        Self::fix(format!("{}{}", body, e))
    }
    /// a command that needs nothing from stdin
    fn cmd(&mut self, fail_pm: u32) -> String {
        if self.errs > 0 && self.pm(self.errs) {
            return self.bad_cmd();
        }
        let t = self.tag();
        let o = self.src_ops(fail_pm);
        let mut s = format!("{} {}", t, o);
        if self.pm(60) {
            let n = if self.pm(100) { 20 + self.b(30) } else { 1 + self.b(3) };
            for _ in 0..n {
                let a = self.arg();
                s = format!("{} {}", s, a);
            }
        }
        s
    }
    fn bad_cmd(&mut self) -> String {
        self.n += 1;
        match self.b(4) {
            0 => "noexec".into(),
            1 => "notbin".into(),
            _ => format!("nosuch{}", self.n),
        }
    }
    /// a builtin that is to run in a process of its own
    fn builtin_cmd(&mut self) -> String {
        let v = self.r.below(10);
        let t = self.tag();
        match self.b(24) {
            0..=6 => "pwd".into(),
            7 => "cd /w".into(),
            8 => "cd /w/missing".into(),
            9 => "cd".into(),
            10 => format!("exit {}", v),
            11 => format!("return {}", v),
            12 => "jobs".into(),
            13 => format!("export S{}=x", v),
            14 => format!("alias s{}={}", v, t),
            15 => format!("unset S{}", v),
            16 => format!("unalias s{}", v),
            17 => format!("readonly S{}=y", v),
            18 => "unset".into(),
            19 => format!("eval {} x{}", t, v),
            20 => "source /w/missing".into(),
            21 => format!("{} %77", self.r.pick(&["fg", "bg"])),
            22 => format!("pwd > /w/bo{}", v),
            _ => "exec nosuch".into(),
        }
    }
    fn pipeline(&mut self, n: usize, fail_pm: u32) -> String {
        let mut v = vec![];
        for k in 0..n {
            if self.errs > 0 && self.pm(self.errs) {
                v.push(self.bad_cmd());
                continue;
            }
            if self.bst > 0 && self.pm(self.bst) {
                v.push(self.builtin_cmd());
                continue;
            }
            let t = self.tag();
            let o = if k == 0 {
                self.src_ops(fail_pm)
            } else if k + 1 == n {
                self.sink_ops(fail_pm)
            } else {
                self.mid_ops(fail_pm)
            };
            v.push(format!("{} {}", t, o));
        }
        v.join(" | ")
    }
    fn stages(&mut self) -> usize {
        if self.pm(12) {
            return self.r.range(8, 20) as usize;
        }
        *self.r.pick(&[2, 2, 2, 3, 3, 4, 5, 7])
    }
    fn unit(&mut self, fail_pm: u32) -> String {
        let p = if self.pm(350) {
            let n = self.stages().min(4);
            self.pipeline(n, fail_pm)
        } else if self.bst > 0 && self.pm(self.bst) {
            self.n += 1;
            format!("pwd {} /w/bo{}", self.r.pick(&[">", ">", ">>"]), self.n)
        } else {
            self.cmd(fail_pm)
        };
        if self.pm(100) {
            format!("! {}", p)
        } else {
            p
        }
    }
    fn andor(&mut self, n: usize) -> String {
        let mut s = self.unit(450);
        for _ in 1..n {
            let op = *self.r.pick(&["&&", "||"]);
            let u = self.unit(450);
            s = format!("{} {} {}", s, op, u);
        }
        s
    }
    fn list(&mut self, n: usize) -> String {
        let mut v = vec![];
        for _ in 0..n {
            let k = self.r.range(1, 3) as usize;
            let s = if self.pm(500) { self.andor(k) } else { self.unit(300) };
            v.push(s);
        }
        v.join("; ")
    }
    fn bg(&mut self) -> String {
        let p = if self.pm(400) {
            let n = self.stages().min(4);
            self.pipeline(n, 200)
        } else if self.bst > 0 && self.pm(self.bst) {
            self.builtin_cmd()
        } else {
            self.cmd(200)
        };
        format!("{} &", p)
    }
    /// lines on which bg jobs are mixed with foreground work
    fn bg_line(&mut self) -> String {
        let a = self.bg();
        match self.b(4) {
            0 => {
                let u = self.unit(200);
                format!("{}; {}", a, u)
            }
            1 => {
                let u = self.bg();
                format!("{}; {}", a, u)
            }
            2 => {
                let u = self.unit(200);
                format!("{}; {}", u, a)
            }
            _ => a,
        }
    }
    fn func(&mut self, reads: bool, touches: bool) -> (Func, String) {
        self.nf += 1;
        let name = format!("g{}", self.nf);
        let mut body = vec![];
        if touches {
            let d = *self.r.pick(self.dirs);
            body.push(format!("cd {}", d));
        }
        let t = self.tag();
        let o = if reads { self.mid_ops(200) } else { self.src_ops(200) };
        body.push(format!("{} {}", t, o));
        let more = self.b(3);
        for _ in 0..more {
            if self.pm(200) {
                let a = self.andor(2);
                body.push(a);
            } else {
                let c = self.cmd(200);
                body.push(c);
            }
        }
        if self.bst > 0 && self.pm(250) {
            let at = self.b(body.len() as u64 + 1) as usize;
            let b = self.r.pick(&["jobs", "jobs", "fg %77", "pwd", "bg %77"]).to_string();
            // (one that prints may be killed by SIGPIPE, and what follows is not run)
            body.insert(at, if at < body.len() { format!("{} > /dev/null", b) } else { b });
        }
        let t = format!("{} () {{ {}; }}", name, body.join("; "));
        (Func { name, reads, status: true, touches }, t)
    }
    /// definition line and a line that uses it
    fn func_lines(&mut self, direct_ok: bool) {
        let reads = self.pm(300);
        let (f, def) = self.func(reads, false);
        self.lines.push(l(def));
        let _ = (f.status, f.touches);
        let uses = 1 + self.b(2);
        for k in 0..uses {
            let t = self.tag();
            let line = if f.reads {
                let s = self.src_ops(100);
                match self.b(3) {
                    0 => {
                        let t2 = self.tag();
                        let m = self.sink_ops(100);
                        format!("{} {} | {} | {} {}", t, s, f.name, t2, m)
                    }
                    _ => format!("{} {} | {}", t, s, f.name),
                }
            } else {
                match self.b(if k == 0 && uses == 1 { 7 } else { 5 }) {
                    0 if direct_ok => f.name.clone(),
                    1 if direct_ok => {
                        let m = self.cmd(300);
                        format!("{} && {}", f.name, m)
                    }
                    2 if direct_ok => {
                        let m = self.cmd(300);
                        format!("{} || {}", f.name, m)
                    }
                    5 if self.bg_ok => format!("{} &", f.name),
                    6 if self.bg_ok => {
                        let m = self.sink_ops(100);
                        format!("{} | {} {} &", f.name, t, m)
                    }
                    _ => {
                        let m = self.sink_ops(100);
                        format!("{} | {} {}", f.name, t, m)
                    }
                }
            };
            self.lines.push(l(line));
        }
    }
    fn arg(&mut self) -> String {
        match self.b(9) {
            6 => self.r.pick(&["'$HOME'", "'|'", "\"a;b\"", "'#'", "'> f'", "'a&b'", "\"x | y\"", "'*'", "\"it's\"", "'say \"hi\"'", "'&& u'", "'$(u'", "'('", "\":)\"", "'{'", "'}'", "\"[\"", "']'"]).to_string(),
            7 => self.r.pick(&["é€", "'é ü'", "a#b", "-n", "--", "a.b/c", "x:y", "@", "%1", "a,b", "~", "+x", "漢字", "'ab=c=d'"]).to_string(),
            8 if self.pm(150) && !self.in_tty => "l".repeat(1000 + self.b(4000) as usize),
            0 => format!("'a b{}'", self.b(100)),
            1 => format!("\"c d{}\"", self.b(100)),
            2 => format!("k={}", self.b(100)),
            3 => format!("a12345678901234567890123456789{}", self.b(1000)),
            _ => format!("a{}", self.b(1000)),
        }
    }
    /// functions that use their arguments, and call each other
    fn arg_lines(&mut self, direct_ok: bool) {
        let args = |g: &mut G| (0..2 + g.b(2)).map(|_| g.arg()).collect::<Vec<_>>().join(" ");
        self.nf += 1;
        let f = format!("g{}", self.nf);
        let mut body = vec![];
        for _ in 0..1 + self.b(2) {
            let (t, i) = (self.tag(), 1 + self.b(2));
            let k = self.b(60);
            body.push(match self.b(4) {
                0 => format!("{} w{} ${} $0", t, k, i),
                1 => format!("{} x{} $1 $2 || {} w2 $2", t, self.b(2), self.tag()),
                _ => format!("{} w{} ${}", t, k, i),
            });
        }
        self.lines.push(l(format!("{} () {{ {}; }}", f, body.join("; "))));
        let mut use_f = f.clone();
        if self.pm(500) {
            // calls the other one, and has its own arguments before and after
            self.nf += 1;
            let h = format!("g{}", self.nf);
            let inner = match self.b(3) {
                0 => format!("{} $2 {}", f, self.arg()),
                _ => format!("{} {}", f, args(self)),
            };
            let inner = match self.b(4) {
                0 => format!("{} | {} r", inner, self.tag()),
                1 => format!("{} && {} w1 $2", inner, self.tag()),
                _ => inner,
            };
            let (t1, t2) = (self.tag(), self.tag());
            let mut b = format!("{} () {{ ", h);
            if self.pm(500) {
                b.push_str(&format!("{} w3 $1; ", t1));
            }
            b.push_str(&format!("{}; {} w4 $1 $2; }}", inner, t2));
            self.lines.push(l(b));
            use_f = h;
        }
        let uses = 1 + self.b(2);
        for _ in 0..uses {
            let a = args(self);
            let t = self.tag();
            let k = if direct_ok { self.b(6) } else { 5 };
            let s = match k {
                0 if self.bg_ok && uses == 1 => format!("{} {} &", use_f, a),
                1 => format!("{} {} && {} w2", use_f, a, t),
                2 | 3 => format!("{} {}", use_f, a),
                4 if !self.lines.is_empty() => format!("{} {}; {} w2", use_f, a, t),
                _ => format!("{} {} | {} c", use_f, a, t),
            };
            self.lines.push(l(s));
        }
    }
    fn subst_inner(&mut self) -> String {
        // output: letters, single blanks
        let t = self.tag();
        let a = self.size().min(60_000);
        let mut ops = format!("w{}", a);
        let sm = self.b(400);
        match self.b(10) {
            6 => ops = format!("w{},m{}", self.b(3), if self.cfg.chunk == 1 { sm } else { sm * 20 }),
            7 => ops = format!("q{},s,m{},b,w2", 1 + sm / 8, sm),
            8 => ops = format!("w3,b,b,w{},n,n,s,s,w{}", self.b(30) + 1, self.b(30) + 1),
            9 => ops = format!("q{}", 1 + sm / 8),
            0 => ops = format!("w{},s,w{}", a.max(1), self.b(30) + 1),
            1 => ops = format!("s,w{},s", a),
            2 => ops = format!("w{},n", a),
            3 => ops = format!("w{},t{},w{}", a, self.sleep(), self.b(200)),
            4 => ops = format!("e{},w{}", self.b(40), a),
            _ => {}
        }
        let e = if self.pm(200) { self.ending(500) } else { String::new() };
        ops = Self::fix(format!("{}{}", ops, e));
        if self.errs > 0 && self.pm(self.errs) {
            return self.bad_cmd();
        }
        match self.b(8) {
            0 => {
                let t2 = self.tag();
                format!("{} {} | {} c", t, ops, t2)
            }
            1 => {
                let t2 = self.tag();
                let t3 = self.tag();
                let n = self.size().min(20_000);
                format!("{} {} | {} c | {} c,w{}", t, ops, t2, t3, n)
            }
            2 => {
                let t2 = self.tag();
                format!("{} {}; {} w{}", t, ops, t2, self.b(40))
            }
            3 => {
                let t2 = self.tag();
                format!("{} x1 || {} {}", t2, t, ops)
            }
            _ => format!("{} {}", t, ops),
        }
    }
    fn subst_word(&mut self) -> String {
        let i = self.subst_inner();
        let s = if self.pm(600) { format!("$({})", i) } else { format!("`{}`", i) };
        match self.b(6) {
            0 => format!("\"p{}\"", s),
            1 => format!("\"p{}q\"", s),
            _ => format!("\"{}\"", s),
        }
    }
    fn subst_line(&mut self) -> String {
        let t = self.tag();
        let o = self.src_ops(200);
        let w = self.subst_word();
        let mut s = format!("{} {} {}", t, o, w);
        if self.pm(250) {
            let w = self.subst_word();
            s = format!("{} {}", s, w);
        }
        if self.pm(150) {
            let t = self.tag();
            let k = self.sink_ops(100);
            s = format!("{} | {} {}", s, t, k);
        } else if self.pm(150) {
            let c = self.cmd(200);
            s = format!("{}; {}", s, c);
        } else if self.bg_ok && self.pm(80) {
            s = format!("{} &", s);
        }
        s
    }
    fn newfile(&mut self) -> String {
        self.nfile += 1;
        let d = *self.r.pick(&["/w/", "/w/", "/w/d1/", "/w/d2/"]);
        format!("{}f{}", d, self.nfile)
    }
    fn infile(&mut self) -> String {
        if !self.files.is_empty() && self.pm(500) {
            let i = self.b(self.files.len() as u64) as usize;
            let p = self.files[i].0.clone();
            if p.contains("/f") {
                return p;
            }
        }
        let p = self.newfile();
        let n = self.size();
        let c = format!("pat:i{}:{}", self.nfile, n);
        self.files.push((p.clone(), c));
        p
    }
    fn outfile(&mut self) -> String {
        if !self.outfiles.is_empty() && self.pm(450) {
            let i = self.b(self.outfiles.len() as u64) as usize;
            return self.outfiles[i].clone();
        }
        let p = if self.pm(300) { self.infile() } else { self.newfile() };
        self.outfiles.push(p.clone());
        p
    }
    fn rel(&mut self, p: String) -> String {
        // the shell stays in /w
        if !self.abs_only && self.pm(400) {
            p.trim_start_matches("/w/").to_string()
        } else {
            p
        }
    }
    fn redir(&mut self, fail: bool) -> String {
        let sp = *self.r.pick(&["", " "]);
        if fail {
            return match self.b(4) {
                0 => {
                    self.n += 1;
                    format!("<{}/w/missing{}", sp, self.n)
                }
                1 => format!(">{}/nodir/f", sp),
                2 => format!(">>{}/w/d1", sp),
                _ => format!(">{}/w/d1", sp),
            };
        }
        match self.b(10) {
            0 | 1 => {
                let p = self.outfile();
                let p = self.rel(p);
                format!(">>{}{}", sp, p)
            }
            2 => {
                let p = self.outfile();
                let p = self.rel(p);
                format!("2>{}{}", sp, p)
            }
            3 => {
                let p = self.outfile();
                let p = self.rel(p);
                format!("{}>{}{}", self.r.pick(&["1", "3", "5", "2"]).to_string(), sp, p)
            }
            4 => {
                let p = self.outfile();
                let p = self.rel(p);
                format!("2>>{}{}", sp, p)
            }
            5 => format!("{}{}/dev/null", self.r.pick(&[">", "2>", ">>"]).to_string(), sp),
            _ => {
                let p = self.outfile();
                let p = self.rel(p);
                format!(">{}{}", sp, p)
            }
        }
    }
    /// redirections of what runs in the shell itself
    fn redir_own(&mut self, reads: bool, rs: &str) -> String {
        self.n += 1;
        let u = format!("/w/bo{}", self.n);
        let t = self.tag();
        let one = match self.b(12) {
            0..=4 => {
                let (f, def) = self.func(reads, false);
                self.lines.push(l(def));
                format!("{} {}", f.name, rs)
            }
            5 | 6 => format!("pwd > {}", u),
            7 => format!("pwd {}", rs),
            8 => format!("{} > {}", self.r.pick(&["cd /w", "jobs", "cd /w/missing", "alias q8=u1", "unset Q8", "fg %77"]), u),
            9 => format!("> {} pwd", u),
            10 => format!("eval {} w{} {}", t, self.b(50), rs),
            _ => format!("cd /w {}", rs),
        };
        match self.b(5) {
            0 => {
                let c = self.cmd(200);
                format!("{}; {}", one, c)
            }
            1 => {
                let c = self.cmd(200);
                format!("{} {} {}", one, self.r.pick(&["&&", "||"]), c)
            }
            2 => {
                let c = self.cmd(200);
                format!("{}; {}", c, one)
            }
            _ => one,
        }
    }
    fn redir_line(&mut self) -> String {
        let n = 1 + self.b(3) as usize;
        let fail_at = if self.pm(180) { Some(self.b(n as u64) as usize) } else { None };
        let mut rs = vec![];
        let mut ops_in = false;
        if self.pm(350) {
            let p = self.infile();
            let p = self.rel(p);
            rs.push(format!("<{}{}", self.r.pick(&["", " "]).to_string(), p));
            ops_in = true;
        }
        for k in 0..n {
            if rs.len() < 3 {
                let x = self.redir(fail_at == Some(k));
                rs.push(x);
            }
        }
        // stderr output must not go to the same file in overwriting mode together with stdout
        let mut seen: Vec<String> = vec![];
        rs.retain(|r| {
            let p = r.trim_start_matches(|c: char| c.is_ascii_digit() || c == '<' || c == '>' || c == ' ').trim_start_matches("/w/").to_string();
            if seen.contains(&p) {
                false
            } else {
                seen.push(p);
                true
            }
        });
        if self.pm(150) {
            return self.redir_own(ops_in, &rs.join(" "));
        }
        let t = self.tag();
        let ops = if ops_in { self.mid_ops(200) } else { self.src_ops(200) };
        let ops = if self.pm(300) { format!("e{},{}", self.size().min(3000), ops) } else { ops };
        let one = format!("{} {} {}", t, ops, rs.join(" "));
        match self.b(9) {
            0 => {
                let t = self.tag();
                let k = self.sink_ops(100);
                format!("{} | {} {}", one, t, k)
            }
            1 if !ops_in => {
                let t = self.tag();
                let k = self.src_ops(100);
                let one = one.replacen(" w", " c,w", 1);
                format!("{} {} | {}", t, k, one)
            }
            2 => {
                let c = self.cmd(200);
                format!("{} && {}", one, c)
            }
            3 => {
                let c = self.cmd(200);
                format!("{} || {}", one, c)
            }
            4 => {
                let c = self.cmd(200);
                format!("{}; {}", one, c)
            }
            5 if self.bg_ok => format!("{} &", one),
            _ => one,
        }
    }
    /// file names of redirections in quotes, with blanks, or in variables
    fn dressed(&mut self, s: String) -> String {
        if s.contains(|c| c == '\'' || c == '"' || c == '`' || c == '$') {
            return s;
        }
        let (mut out, mut pre) = (String::new(), String::new());
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < b.len() {
            out.push(b[i]);
            i += 1;
            if b[i - 1] != '<' && b[i - 1] != '>' || i < b.len() && b[i] == '>' {
                continue;
            }
            while i < b.len() && b[i] == ' ' {
                out.push(' ');
                i += 1;
            }
            let mut p = String::new();
            while i < b.len() && !" ;|&)}".contains(b[i]) {
                p.push(b[i]);
                i += 1;
            }
            let input = out.trim_end().ends_with('<');
            match self.b(12) {
                0 => out.push_str(&format!("'{}'", p)),
                1 => out.push_str(&format!("\"{}\"", p)),
                2 if !input => out.push_str(&format!("'{} x'", p)),
                3 if !input => out.push_str(&format!("\"{}  é;>\"", p)),
                4 | 5 => {
                    self.nv += 1;
                    out.push_str(&format!("$X{}", self.nv));
                    pre.push_str(&format!("X{}={}; ", self.nv, p));
                }
                _ => out.push_str(&p),
            }
        }
        pre + &out
    }
    fn same_append(&mut self) -> String {
        // several commands append to one file at once
        let p = self.outfile();
        let n = 2 + self.b(3);
        let mut v = vec![];
        for _ in 0..n {
            let t = self.tag();
            let s = self.size().min(5000);
            v.push(format!("{} w{},t{},w{} >> {}", t, self.b(60), self.sleep(), s, p));
        }
        if self.pm(500) && self.bg_ok {
            v.iter().map(|x| format!("{} &", x)).collect::<Vec<_>>().join("; ")
        } else {
            v.join(" | ")
        }
    }
    fn dir(&mut self) -> String {
        self.r.pick(self.dirs).to_string()
    }
    fn cd(&mut self) -> String {
        match self.b(8) {
            0 => "cd ..".into(),
            1 => "cd /w".into(),
            2 => "cd /w/d1; cd sub".into(),
            3 if self.pm(250) => format!("export HOME={}; cd", self.dir()),
            3 if self.pm(60) => "unset HOME; cd".into(),
            3 => "cd".into(),
            4 => "cd .".into(),
            _ => format!("cd {}", self.dir()),
        }
    }
    fn newvar(&mut self) -> String {
        if !self.vars.is_empty() && self.pm(400) {
            let i = self.b(self.vars.len() as u64) as usize;
            return self.vars[i].clone();
        }
        self.nv += 1;
        let v = format!("X{}", self.nv);
        self.vars.push(v.clone());
        v
    }
    fn value(&mut self) -> String {
        match self.b(6) {
            0 => format!("\"a b{}\"", self.b(100)),
            2 => match self.b(8) {
                0 if !self.in_tty => "v".repeat(1000 + self.b(3000) as usize),
                1 => "\"\"".into(),
                2 => "\"é €\"".into(),
                3 => "'a;b|c > d'".into(),
                4 => "\"a=b\"".into(),
                5 => "'$HOME'".into(),
                6 => "é".into(),
                _ => self.r.pick(&["-", "-p", "a-p", "\"-c x\"", "--f", "x-a"]).to_string(),
            },
            1 => "\"/w/d1\"".into(),
            _ => format!("v{}", self.b(1000)),
        }
    }
    fn builtin_line(&mut self) -> String {
        match self.b(10) {
            9 => {
                let n = self.nv + 1;
                self.nv += 1;
                let t = self.tag();
                match self.b(9) {
                    3 if !self.vars.is_empty() => {
                        let i = self.b(self.vars.len() as u64) as usize;
                        let v = if self.pm(300) { "-v " } else { "" };
                        let s = self.then(format!("unset {}{}", v, self.vars[i]));
                        format!("{}; {} w1", s, t)
                    }
                    5 => format!("readonly R{}=v{}; readonly R{}=w; {} w1 $R{}", n, n, n, t, n),
                    6 => format!("readonly R{}=v{}; unset R{}; {} w1 $R{}", n, n, n, t, n),
                    7 => format!("R{}=v{}; readonly R{}; R{}=w; {} w1 $R{}", n, n, n, n, t, n),
                    8 => {
                        let c = self.cmd(100);
                        let u = self.then(format!("unset -f g{}x", n));
                        let o = self.r.pick(&["unset -f", "unset -f", "unset -v", "unset"]).to_string();
                        match self.b(3) {
                            0 => format!("g{}x () {{ {}; }}; g{}x; {}; {} w1; g{}x", n, c, n, u, t, n),
                            1 => format!("g{}x () {{ {}; }}; {} g{}x; g{}x | {} c", n, c, o, n, n, t),
                            _ => format!("g{}x () {{ {}; }}; {} g{}x; g{}x || {} w1", n, c, o, n, n, t),
                        }
                    }
                    4 => format!("readonly R{}=v{}; export R{}=w; {} w1 $R{}", n, n, n, t, n),
                    0 => format!("readonly R{}={}{}; {} w1 $R{}", n, self.r.pick(&["v", "a-f", "-p", "x-", "c-c"]).to_string(), n, t, n),
                    1 => format!("readonly R{}=v{}; readonly -p; {} w1", n, n, t),
                    _ => format!("readonly R{}=v{}; R{}=w; {} w1 $R{}", n, n, n, t, n),
                }
            }
            0 | 1 => self.cd(),
            2 => "pwd".into(),
            3 => {
                let (k, v) = (self.newvar(), self.value());
                format!("{}={}", k, v)
            }
            4 => {
                let (k, v) = (self.newvar(), self.value());
                if !self.exported.contains(&k) {
                    self.exported.push(k.clone());
                }
                format!("export {}={}", k, v)
            }
            5 => {
                let k = self.newvar();
                let v = format!("v{}", self.b(1000));
                if !self.exported.contains(&k) {
                    self.exported.push(k.clone());
                }
                format!("{}={}; export {}", k, v, k)
            }
            6 => {
                // prefix assignment
                let k = self.newvar();
                let c = self.cmd(100);
                let v = self.value();
                let mut s = format!("{}={} {}", k, v, c);
                if self.pm(300) {
                    let k2 = self.newvar();
                    if k2 != k {
                        s = format!("{}=w{} {}", k2, self.b(99), s);
                    }
                }
                if self.pm(250) {
                    let t = self.tag();
                    let m = self.sink_ops(50);
                    s = format!("{} | {} {}", s, t, m);
                }
                s
            }
            7 => {
                let c = self.cmd(100);
                if self.vars.is_empty() {
                    c
                } else {
                    let i = self.b(self.vars.len() as u64) as usize;
                    format!("{} ${}", c, self.vars[i].clone())
                }
            }
            _ => {
                self.na += 1;
                let t = self.tag();
                let a = format!("al{}", self.na);
                match self.b(7) {
                    6 => {
                        let t2 = self.tag();
                        format!("alias {}='{} w{}'; {}; unalias {}; {} || {} w1", a, t, self.b(50), a, if self.pm(500) { "-a" } else { &a }, a, t2)
                    }
                    3 => {
                        let d = self.cd();
                        if d.contains(';') {
                            return d;
                        }
                        format!("alias {}='{}'; {}; {} w1", a, d, a, t)
                    }
                    4 => {
                        let b = *self.r.pick(&["cd", "pwd", "jobs", "unset", "export", "readonly", "exec"]);
                        format!("alias {}='{} w{}'; {} a1; unalias {}", b, t, self.b(50), b, b)
                    }
                    5 => {
                        let t2 = self.tag();
                        format!("alias {}-a='{} w{}'; alias {}='{} -p'; unalias x-a; {}-a -p; {} b", a, t, self.b(50), a, t2, a, a)
                    }
                    0 => format!("alias {}=\"{} w{}\"; {}", a, t, self.b(50), a),
                    1 => {
                        let x = self.arg();
                        format!("alias {}='{} w{} a b'; {} {}", a, t, self.b(50), a, x)
                    }
                    _ => format!("alias {}=\"{}\"; {} w{}", a, t, a, self.b(50)),
                }
            }
        }
    }
    fn err_line(&mut self) -> String {
        self.n += 1;
        let n = self.n;
        match self.b(18) {
            16 => self.r.pick(&["\"\"", "''", "'' a b", "\"\" a", "export \"=1\"", "readonly", "readonly -x", "unset", "unset -", "unset PS1", "unset PS4", "unset \"\"", "unset a=b", "return x", "alias a=b=c", "unalias", "source", "eval", "exec -a", "exec -c", "export context", "export context x=/w/missing", "( a )", "exec -l nosuch", "u9999 w1 )", "u9999 a}", "pwd )", "u9999 (a) )", "}", ")"]).to_string(),
            17 if self.nul => format!("nosuch{} a\0b", n),
            0 => format!("nosuch{}", n),
            1 => "noexec".into(),
            2 => "notbin a b".into(),
            3 => "cd /w/missing".into(),
            4 => "cd /bin/notbin".into(),
            5 => "fg %77".into(),
            6 => "bg %77".into(),
            7 => self.r.pick(&["fg %", "bg abc", "fg", "bg", "fg %-1", "bg 987654", "fg %99999999999999999999"]).to_string(),
            8 if self.r.pm(600) => format!("exec {}", self.r.pick(&["/bin/notbin", "/bin/noexec", "/w/d1", "/w/missing", "notbin", "-c /bin/notbin"])),
            8 => format!("exec nosuch{}", n),
            9 => format!("{} |", self.tag()),
            10 => format!("&& {}", self.tag()),
            11 => format!("{} >", self.tag()),
            12 => "source /w/missing".into(),
            13 => {
                let c = self.cmd(100);
                format!("nosuch{} | {}", n, c)
            }
            14 => {
                let c = self.cmd(100);
                format!("nosuch{} || {}", n, c)
            }
            _ => {
                let t = self.tag();
                let s = self.src_ops(100);
                format!("{} {} | nosuch{}", t, s, n)
            }
        }
    }
    fn source_line(&mut self, n: usize) -> String {
        let s = self.source_in(n, 0);
        self.then(s)
    }
    /// sometimes something that depends on the status of it
    fn then(&mut self, s: String) -> String {
        if !self.pm(300) {
            return s;
        }
        let c = self.cmd(100);
        let bang = if self.pm(200) { "! " } else { "" };
        match self.b(3) {
            0 => format!("{}{} && {}", bang, s, c),
            1 => format!("{}{} || {}", bang, s, c),
            _ => {
                let d = self.cmd(100);
                format!("{}{} && {} || {}", bang, s, c, d)
            }
        }
    }
    fn source_in(&mut self, n: usize, depth: u32) -> String {
        self.nsrc += 1;
        let p = format!("/w/s{}.rsh", self.nsrc);
        let mut t = String::new();
        for _ in 0..n {
            match self.b(12) {
                0 => t.push_str("\n"),
                1 => t.push_str("# a comment (\n"),
                7 => {
                    let b = self.builtin_line();
                    t.push_str(&b);
                    t.push('\n');
                }
                8 => {
                    let n0 = self.lines.len();
                    if self.pm(500) {
                        self.func_lines(true);
                    } else {
                        self.arg_lines(true);
                    }
                    // (one use: on one line they could not be told apart if a fault suppressed some)
                    let mut used = false;
                    for l in self.lines.split_off(n0) {
                        if !l.text.contains("() {") && std::mem::replace(&mut used, true) {
                            continue;
                        }
                        t.push_str(&l.text);
                        t.push('\n');
                    }
                }
                9 => {
                    let b = if self.pm(500) { self.subst_line() } else { self.bg() };
                    t.push_str(&b);
                    t.push('\n');
                }
                10 if depth < 2 => {
                    let b = self.source_in(1, depth + 1);
                    t.push_str(&b);
                    t.push('\n');
                }
                11 if self.exits && self.pm(200) => {
                    let b = if self.pm(500) { format!("exit {}", self.b(200)) } else { "exit".to_string() };
                    t.push_str(&b);
                    t.push('\n');
                }
                2 => {
                    let p = self.pipeline(2, 200);
                    t.push_str(&p);
                    t.push('\n');
                }
                3 => {
                    let p = self.list(2);
                    t.push_str(&p);
                    t.push('\n');
                }
                _ => {
                    let c = self.cmd(200);
                    t.push_str(&c);
                    t.push('\n');
                }
            }
        }
        if self.pm(300) {
            t = t.trim_end_matches('\n').to_string();
        }
        self.files.push((p.clone(), format!("text:{}", t)));
        format!("source {}", p)
    }
    fn path_line(&mut self) -> String {
        let mut d: Vec<&str> = vec![];
        for _ in 0..1 + self.b(4) {
            d.push(*self.r.pick(&["/bin", "/bin", "/w/q1", "/w/q1", "/w/q2", "/w/q2", "/w/q3", "/w/none", "/w/q4", "/w/q5", "/bin/x", "/w/q1/"]));
        }
        let d = d.join(":");
        match self.b(12) {
            0 => "unset PATH".into(),
            1 => format!("PATH={}", d),
            2 => format!("export PATH=\"{}\"", d),
            _ => format!("export PATH={}", d),
        }
    }
    /// Puts programs (and things that are none) with the names of the commands used into several
    /// directories, and writes some commands with their directory.
    fn places(&mut self) {
        for i in 0..self.lines.len() {
            let t = self.lines[i].text.clone();
            self.lines[i].text = self.placed(&t);
        }
        for i in 0..self.files.len() {
            if let Some(t) = self.files[i].1.strip_prefix("text:").map(|x| x.to_string()).filter(|_| self.files[i].0.ends_with(".rsh")) {
                let t = self.placed(&t);
                self.files[i].1 = format!("text:{}", t);
            }
        }
    }
    fn placed(&mut self, t: &str) -> String {
        let b = t.as_bytes();
        let mut out = String::new();
        let mut i = 0;
        while i < b.len() {
            let start = i == 0 || b" ('\"`/\n".contains(&b[i - 1]);
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if b[i] == b'u' && start && j > i + 1 && (j == b.len() || !b[j].is_ascii_alphanumeric() && b[j] != b'.' && b[j] != b'@') {
                let tag = &t[i..j];
                for d in ["/w/q1", "/w/q2", "/w/q3"] {
                    let p = format!("{}/{}", d, tag);
                    if self.files.iter().any(|f| f.0 == p || f.0 == p.clone() + "/keep") {
                        continue;
                    }
                    match self.b(12) {
                        0..=3 => {
                            let m = *self.r.pick(&["755", "755", "711", "700", "555", "100", "4755", "655", "641", "010"]);
                            self.files.push((p, format!("prog:{}", m)));
                        }
                        4 => {
                            let m = *self.r.pick(&["644", "600", "444", "000", "666"]);
                            self.files.push((p, format!("prog:{}", m)));
                        }
                        5 => self.files.push((p + "/keep", "text:k".into())),
                        6 => {
                            let t = match self.b(4) {
                                0 => format!("/bin/{}", tag),
                                1 => format!("../../bin/u{}", self.b(50)),
                                2 => format!("../q{}/{}", 1 + self.b(3), tag),
                                _ => "missing".into(),
                            };
                            self.files.push((p, format!("link:{}", t)));
                        }
                        _ => {}
                    }
                }
                if (i == 0 || b[i - 1] != b'/') && self.pm(250) {
                    let d = self.r.pick(&["/bin/", "/bin/", "/w/q1/", "/w/q2/", "/w/q3/", "/w/none/", "/bin/../w/q1/", "//bin//", "/w/q4/", "/w/q5/"]).to_string();
                    out.push_str(&d);
                }
                out.push_str(tag);
                i = j;
                continue;
            }
            let c = t[i..].chars().next().unwrap();
            out.push(c);
            i += c.len_utf8();
        }
        out
    }
    fn eval_line(&mut self) -> String {
        let a = match self.b(8) {
            0 => self.builtin_line(),
            1 => self.bg(),
            2 if self.exits && self.pm(300) => format!("exit {}", self.b(200)),
            _ => self.list(1),
        };
        if a.contains(|c| c == '"' || c == '\'') {
            return a;
        }
        // in one word or in several
        let cut: Vec<usize> = a.char_indices().filter(|c| c.1 == ' ').map(|c| c.0).collect();
        if !cut.is_empty() && self.pm(300) {
            let k = cut[self.b(cut.len() as u64) as usize];
            let (x, y) = (&a[..k], &a[k + 1..]);
            let plain = |t: &str| !t.is_empty() && t.split(' ').all(|w| !w.is_empty() && w.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b",/".contains(&b)) && !w.as_bytes()[0].is_ascii_digit());
            let q = |t: &str, bare: bool| if bare { t.to_string() } else { format!("'{}'", t) };
            let (bx, by) = (plain(x) && self.pm(600), plain(y) && self.pm(600));
            return self.then(format!("eval {} {}", q(x, bx), q(y, by)));
        }
        self.then(format!("eval '{}'", a))
    }
    fn blank_line(&mut self) -> String {
        self.r.pick(&["", " ", "# nothing", "   # u999 w5"]).to_string()
    }
    fn push(&mut self, t: String) {
        self.lines.push(l(t));
    }
    fn act_last(&mut self, a: Act) {
        if let Some(x) = self.lines.last_mut() {
            x.acts.push(a);
        }
    }
    /// a foreground command that only a signal ends
    fn stuck_fg(&mut self) {
        let t = self.tag();
        let (text, tags) = match self.b(4) {
            0 => {
                let t2 = self.tag();
                (format!("{} f | {} c", t, t2), vec![t.clone(), t2])
            }
            1 => {
                let t2 = self.tag();
                (format!("{} w5,f | {} r,f", t, t2), vec![t.clone(), t2])
            }
            _ => (format!("{} f", t), vec![t.clone()]),
        };
        let mut a = vec![];
        if self.pm(700) {
            a.push(Act::Quiesce(What::Group(2)));
        }
        for x in &tags {
            a.push(Act::Quiesce(What::Tag(x.clone(), *self.r.pick(&[9, 15]))));
        }
        self.lines.push(la(text, a));
    }
    /// stop a foreground job and do something with it afterwards
    /// what depends on how `fg` ended
    fn after_fg(&mut self, s: String) -> String {
        match self.b(12) {
            0 | 1 => {
                let c = self.cmd(100);
                format!("{}; {}", s, c)
            }
            2 | 3 => {
                let c = self.cmd(100);
                format!("{} && {}", s, c)
            }
            4 | 5 => {
                let c = self.cmd(100);
                format!("{} || {}", s, c)
            }
            6 if self.pm(150) => format!("{}; exit", s),
            _ => s,
        }
    }
    fn stop_story(&mut self) {
        let pipe = self.pm(400);
        let t = self.tag();
        let t2 = self.tag();
        let kind = self.b(4);
        // 0: stops itself (single only); 1: quiesce TSTP; 2: TSTP at exec; 3: TSTP at a step
        let forever = kind == 1 || self.pm(500);
        let end = if self.pm(400) { format!(",x{}", self.b(4)) } else { String::new() };
        let body = if forever { "f".to_string() } else { format!("w{},t50,w{}{}", self.b(50), self.b(50), end) };
        let text;
        let mut acts = vec![];
        if kind == 0 {
            let s = *self.r.pick(&[19, 20, 21, 22]);
            text = format!("{} w3,z{},{}", t, s, if forever { "f".into() } else { format!("w{}{}", self.b(100), end) });
        } else {
            text = if pipe { format!("{} w20,{} | {} c", t, body, t2) } else { format!("{} {}", t, body) };
            match kind {
                1 => acts.push(Act::Quiesce(What::Group(20))),
                2 => acts.push(Act::Exec(if pipe { t2.clone() } else { t.clone() }, What::Group(20))),
                _ => acts.push(Act::Step(30 + self.b(80) as u32, What::Group(20))),
            }
        }
        if forever && kind != 1 {
            acts.push(Act::Quiesce(What::Group(20)));
        }
        let tags: Vec<String> = if pipe && kind != 0 { vec![t.clone(), t2.clone()] } else { vec![t.clone()] };
        let settle = self.pm(600);
        if settle {
            acts.push(Act::Prompt(What::Settle));
        }
        self.lines.push(la(text, acts));
        if self.pm(600) {
            self.push("jobs".into());
        }
        let rounds = 1 + self.b(2);
        for _ in 0..rounds {
            let r = if self.pm(800) { format!("%@J:{}@", t) } else { format!("@P:{}@", t) };
            match self.b(5) {
                0 | 1 => {
                    // fg
                    let mut a = vec![];
                    if self.pm(350) {
                        a.push(Act::Quiesce(What::Group(20)));
                        if self.pm(500) {
                            a.push(Act::Prompt(What::Settle));
                        }
                    } else if self.pm(500) {
                        a.push(Act::Quiesce(What::Group(2)));
                    } else {
                        for x in &tags {
                            a.push(Act::Quiesce(What::Tag(x.clone(), *self.r.pick(&[9, 15]))));
                        }
                    }
                    let s = self.after_fg(format!("fg {}", r));
                    self.lines.push(la(s, a));
                }
                2 | 3 => {
                    let mut a = vec![];
                    if self.pm(500) {
                        a.push(Act::Prompt(What::Settle));
                    }
                    self.lines.push(la(format!("bg {}", r), a));
                }
                _ => {
                    let mut a = vec![];
                    for x in &tags {
                        a.push(Act::Prompt(What::Tag(x.clone(), *self.r.pick(&[9, 9, 18]))));
                    }
                    a.push(Act::Prompt(What::Settle));
                    let c = self.cmd(100);
                    self.lines.push(la(c, a));
                }
            }
            if self.pm(700) {
                self.push("jobs".into());
            }
        }
    }
    fn bg_story(&mut self) {
        // background jobs of all kinds, then jobs / kills / jobs
        let n = 1 + self.b(4);
        let mut alive: Vec<String> = vec![];
        for _ in 0..n {
            let t = self.tag();
            let t2 = self.tag();
            let s = match self.b(7) {
                0 => format!("{} f &", t),
                1 => format!("{} w5,f | {} c &", t, t2),
                2 => format!("{} w5,z{},f &", t, self.r.pick(&[19, 20])),
                3 => format!("{} t{} &", t, self.sleep()),
                4 => format!("{} x0 | {} f &", t, t2),
                5 => format!("{} f | {} x0 &", t, t2),
                _ => format!("{} w5,x{} &", t, self.b(3)),
            };
            if s.contains('f') {
                alive.push(t.clone());
                if s.contains(&format!("{} ", t2)) {
                    alive.push(t2.clone());
                }
            }
            self.push(s);
            if self.pm(300) {
                self.act_last(Act::Prompt(What::Settle));
            }
            if self.pm(300) {
                self.push("jobs".into());
            }
            if self.pm(200) {
                let u = self.unit(100);
                self.push(u);
            }
        }
        if self.pm(500) {
            self.push("jobs".into());
        }
        if !alive.is_empty() && self.pm(700) {
            let k = 1 + self.b(alive.len() as u64) as usize;
            for _ in 0..k {
                let i = self.b(alive.len() as u64) as usize;
                let t = alive[i].clone();
                let s = *self.r.pick(&[9, 9, 15, 19, 18]);
                self.act_last(Act::Prompt(What::Tag(t, s)));
            }
            self.act_last(Act::Prompt(What::Settle));
            self.push("jobs".into());
        }
        if !alive.is_empty() && self.pm(250) {
            let i = self.b(alive.len() as u64) as usize;
            let t = alive[i].clone();
            let acts = vec![Act::Quiesce(What::All(9))];
            let s = self.after_fg(format!("fg %@J:{}@", t));
            self.lines.push(la(s, acts));
            self.push("jobs".into());
        }
        if !alive.is_empty() && self.pm(250) {
            let i = self.b(alive.len() as u64) as usize;
            let t = alive[i].clone();
            self.push(format!("bg %@J:{}@", t));
            self.push("jobs".into());
        }
    }
    /// more jobs at once than one digit counts
    fn many_jobs(&mut self) {
        let n = 9 + self.b(7);
        let mut tags = vec![];
        let mut row = vec![];
        for i in 0..n {
            let t = self.tag();
            row.push(format!("{} f &", t));
            tags.push(t);
            if i + 1 == n || self.pm(600) {
                let s = row.join("; ");
                self.push(s);
                row.clear();
                if self.pm(300) {
                    self.act_last(Act::Prompt(What::Settle));
                }
            }
        }
        self.push("jobs".into());
        for _ in 0..1 + self.b(4) {
            let n = tags.len() as u64;
            let i = if self.pm(600) { n - 1 - self.b(n / 2) } else { self.b(n) } as usize;
            let t = tags[i].clone();
            match self.b(4) {
                0 => {
                    tags.remove(i);
                    let acts = if self.pm(500) { vec![Act::Quiesce(What::Group(2)), Act::Quiesce(What::Tag(t.clone(), 9))] } else { vec![Act::Quiesce(What::Tag(t.clone(), 15))] };
                    let s = self.after_fg(format!("fg %@J:{}@", t));
                    self.lines.push(la(s, acts));
                }
                1 => {
                    self.act_last(Act::Prompt(What::Tag(t.clone(), 19)));
                    self.act_last(Act::Prompt(What::Settle));
                    self.push(format!("bg %@J:{}@", t));
                }
                2 => {
                    tags.remove(i);
                    self.act_last(Act::Prompt(What::Tag(t.clone(), 9)));
                    self.act_last(Act::Prompt(What::Settle));
                    if self.pm(500) {
                        let u = self.tag();
                        self.push(format!("{} f &", u));
                    }
                }
                _ => {
                    let u = self.unit(100);
                    self.push(u);
                }
            }
            if self.pm(600) {
                self.push("jobs".into());
            }
        }
        if self.pm(700) {
            self.kill_all_check();
        }
    }
    fn kill_all_check(&mut self) {
        if self.lines.is_empty() {
            return;
        }
        self.act_last(Act::Prompt(What::All(9)));
        self.act_last(Act::Prompt(What::Settle));
        self.push("jobs".into());
    }
    fn closing(&mut self) {
        let c = self.cmd(300);
        self.push(c);
        if self.pm(400) {
            let e = if self.pm(400) { format!("exit w{}", self.b(9)).replace('w', "") } else { "exit".into() };
            self.push(e);
        }
    }
    /// spontaneous signals; g = group Ctrl-Z allowed
    fn signals(&mut self, level: u32, tstp: bool) {
        if level == 0 {
            return;
        }
        self.cfg.sig_max = 1 + self.b(level as u64 * 2) as u32;
        let k = 150 * level;
        let mut any = false;
        if self.pm(500) {
            self.cfg.int_pm = k;
            any = true;
        }
        if tstp && self.pm(500) {
            self.cfg.tstp_pm = k;
            any = true;
        }
        if self.pm(500) {
            self.cfg.chld_pm = k * 2;
            any = true;
        }
        if self.pm(400) {
            self.cfg.shint_pm = k;
            any = true;
        }
        if self.pm(400) {
            self.cfg.shtstp_pm = k;
            any = true;
        }
        if !any {
            self.cfg.chld_pm = k * 3;
        }
        if self.pm(350) {
            self.cfg.yield_every = *self.r.pick(&[3, 10, 30]);
        }
    }
    fn faults(&mut self, lo: u32, hi: u32) {
        let c = &mut self.cfg;
        c.f_lo = lo;
        c.f_hi = hi;
        c.f_max = 1 + self.r.below(3) as u32;
        let p = *self.r.pick(&[80u32, 200, 500]);
        let any = self.r.below(7);
        if any == 0 || self.r.pm(300) {
            c.f_fork = p;
        }
        if any == 1 || self.r.pm(300) {
            c.f_pipe = p;
        }
        if any == 2 || self.r.pm(300) {
            c.f_open = p;
        }
        if any == 3 || self.r.pm(300) {
            c.f_exec = p;
        }
        if any == 4 || self.r.pm(200) {
            c.f_chdir = p;
        }
        if any == 5 || self.r.pm(200) {
            c.f_read = p / 4;
        }
        if self.r.pm(150) {
            c.f_stat = p / 4;
        }
        if self.r.pm(120) {
            c.f_out = p;
        }
    }
    fn general(&mut self) -> String {
        match self.b(13) {
            0 | 1 => self.cmd(300),
            2 | 3 => {
                let n = self.stages();
                self.pipeline(n, 200)
            }
            4 | 5 => self.list(2),
            6 | 7 if self.bg_ok => self.bg_line(),
            8 => self.subst_line(),
            9 => self.redir_line(),
            10 => self.err_line(),
            11 => self.builtin_line_noredir(),
            _ => {
                let k = 1 + self.b(3) as usize;
                self.andor(k)
            }
        }
    }
    /// builtins that do not change the directory (relative file names stay valid)
    fn builtin_line_noredir(&mut self) -> String {
        loop {
            let s = self.builtin_line();
            if !s.starts_with("cd") {
                return s;
            }
            if s.starts_with("cd") && self.abs_only {
                return s;
            }
        }
    }
}

impl G {
    /// the keys of somebody who types this line, mistakes and their corrections included
    fn keys(&mut self, t: &str) -> String {
        let mut o = String::new();
        let pm = *self.r.pick(&[0, 20, 60, 150]);
        let junk = |g: &mut G| -> char { *g.r.pick(&['x', 'q', '|', '&', ';', '7', ' ', 'é', 'Z']) };
        if self.pm(60) {
            // something else first, then thrown away
            for _ in 0..self.r.range(1, 6) {
                let c = junk(self);
                o.push(c);
            }
            match self.b(3) {
                0 => o.push('\u{15}'),
                1 => o.push_str("\u{1}\u{b}"),
                _ => o.push_str("\u{1b}[H\u{b}"),
            }
        }
        let cs: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if pm > 0 && o.len() < 300 && self.pm(pm) {
                match self.b(9) {
                    0 | 1 => {
                        let n = self.r.range(1, 3);
                        for _ in 0..n {
                            let c = junk(self);
                            o.push(c);
                        }
                        for _ in 0..n {
                            o.push(if self.pm(800) { '\u{7f}' } else { '\u{8}' });
                        }
                    }
                    2 => {
                        // a character left out and put in later
                        if i + 1 < cs.len() {
                            o.push(cs[i + 1]);
                            o.push_str(*self.r.pick(&["\u{1b}[D", "\u{2}"]));
                            o.push(cs[i]);
                            o.push_str(*self.r.pick(&["\u{1b}[C", "\u{6}", "\u{5}", "\u{1b}[F"]));
                            i += 2;
                            continue;
                        }
                    }
                    3 => {
                        let c = junk(self);
                        o.push(c);
                        o.push_str("\u{1b}[D");
                        o.push_str(*self.r.pick(&["\u{1b}[3~", "\u{4}"]));
                    }
                    4 => o.push_str("\u{c}"),
                    5 => o.push_str("\u{1a}"),
                    6 => {
                        if i > 0 && cs[i - 1] == ' ' {
                            o.push_str("xyz\u{17}");
                        }
                    }
                    7 => {
                        o.push_str("\u{1}\u{6}\u{5}");
                    }
                    // (a resize of the window in the middle of this key loses the line: rustyline)
                    _ if self.cfg.winch_pm == 0 => {
                        o.push_str("\u{16}");
                    }
                    _ => {}
                }
            }
            o.push(cs[i]);
            i += 1;
        }
        o
    }
    /// Tab keys where nothing can be completed, and perhaps one at the end where something can.
    fn tabs(&mut self) {
        let mut sc = Scenario::default();
        sc.files = self.files.clone();
        sc.cfg = self.cfg.clone();
        let pm = *self.r.pick(&[30, 100, 300]);
        let mut typed: Vec<String> = vec![];
        let n = self.lines.len();
        for i in 0..n {
            let t = self.lines[i].text.clone();
            if !t.contains('@') {
                let mut o = String::new();
                let mut it = t.chars().peekable();
                loop {
                    if self.pm(pm) {
                        let mut k = typed.clone();
                        k.push(format!("{}\t", o));
                        if !matches!(crate::oracle::tty_lines(&sc, &k).0.last(), Some(crate::oracle::Typed::Chooser { .. })) {
                            o.push('\t');
                        }
                    }
                    let Some(c) = it.next() else { break };
                    o.push(c);
                    match c {
                        '\u{16}' => o.extend(it.next()),
                        '\u{1b}' => {
                            o.extend(it.next());
                            for c in it.by_ref() {
                                o.push(c);
                                if !c.is_ascii_digit() {
                                    break;
                                }
                            }
                        }
                        '\u{3}' | '\u{4}' if it.peek().is_none() => break,
                        _ => {}
                    }
                }
                self.lines[i].text = o;
            }
            typed.push(self.lines[i].text.clone());
        }
        if self.cfg.f_dir == 0 && self.cfg.no_path == 0 && self.pm(600) {
            // (what is shown then is another program: the session is judged up to here)
            let end = typed.len();
            for k in 0..6 {
                let x = *self.r.pick(&["", "a", "alph", "beta", "b", "ga", "gamma", "alphabet", "m"]);
                let i = if k < 3 { end } else { self.b(n as u64 + 1) as usize };
                let mut ty = typed.clone();
                ty.truncate(i);
                ty.push(format!("{}\t", x));
                if ty[..i].last().is_some_and(|t| t.starts_with("exit") || t.ends_with('\u{4}')) {
                    continue;
                }
                if crate::oracle::tty_lines(&sc, &ty).0.last() == Some(&crate::oracle::Typed::Chooser { sure: true }) {
                    self.lines.insert(i, l(&ty[i]));
                    if self.pm(700) {
                        self.lines.truncate(i + 1);
                    }
                    break;
                }
            }
        }
    }
    fn tty_mode(&mut self) {
        self.cfg.mode = Mode::Tty;
        let mut prev: Vec<String> = vec![];
        let old = std::mem::take(&mut self.lines);
        let winch = self.pm(400);
        if winch {
            self.cfg.winch_pm = *self.r.pick(&[1, 500]);
            self.cfg.sig_max += 2;
        }
        for l in old {
            if self.pm(100) {
                // a line that is given up
                let t = self.tag();
                let mut k = self.keys(&format!("{} w3", t));
                if self.pm(300) {
                    k.clear();
                }
                k.push('\u{3}');
                self.lines.push(la(k, vec![]));
            }
            let keep = l.text.contains('@') && (l.text.contains("@J:") || l.text.contains("@P:"));
            let k = if keep { l.text.clone() } else { self.keys(&l.text) };
            let mut acts = l.acts;
            if self.pm(80) {
                let s = *self.r.pick(&[2, 20, 17, if winch { 28 } else { 17 }]);
                if let Some(p) = self.lines.last_mut() {
                    p.acts.push(Act::Prompt(What::Shell(s)));
                }
            }
            if self.pm(60) {
                acts.push(Act::Step(self.r.range(1, 40) as u32, What::Shell(if winch { 28 } else { 17 })));
            }
            self.lines.push(la(k, acts));
            prev.push(l.text);
        }
        self.cfg.short_pm = *self.r.pick(&[0, 0, 300, 700]);
        match self.b(4) {
            0 => self.cfg.tty_hup = 1,
            1 => {
                let last = self.lines.last().map(|l| l.text.starts_with("exit")).unwrap_or(false);
                if !last {
                    self.lines.push(l("\u{4}"));
                }
            }
            _ => {}
        }
    }
}

fn input_mode(g: &mut G, typed_only: bool) {
    if typed_only {
        g.cfg.mode = Mode::Typed;
        return;
    }
    g.cfg.mode = *g.r.pick(&[Mode::Typed, Mode::Typed, Mode::Typed, Mode::Paste, Mode::Dash, Mode::Script]);
    if g.cfg.mode != Mode::Typed {
        for l in g.lines.iter_mut() {
            l.acts.clear();
        }
    }
}

pub fn generate(prop: &str, seed: u64) -> Scenario {
    let mut g = G::new(seed);
    let mut args: Vec<String> = vec![];
    let mut typed = true;
    let n = 2 + g.b(6) as usize;
    g.in_tty = matches!(prop, "C17" | "C18" | "C21");
    match prop {
        "C01" => {
            g.big = 6;
            g.errs = if g.pm(150) { 60 } else { 0 };
            for _ in 0..n.min(5) {
                match g.b(8) {
                    0 => g.func_lines(true),
                    1 => {
                        let s = g.bg();
                        g.push(s);
                    }
                    2 => {
                        let k = g.stages();
                        let a = g.pipeline(k, 200);
                        let b = g.unit(200);
                        g.push(format!("{}; {}", a, b));
                    }
                    _ => {
                        let k = g.stages();
                        let a = g.pipeline(k, 150);
                        g.push(a);
                    }
                }
            }
            typed = false;
        }
        "C02" => {
            for _ in 0..n {
                match g.b(9) {
                    0 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    1 => g.func_lines(true),
                    2 => {
                        let s = g.list(3);
                        g.push(s);
                    }
                    3 => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                    4 => {
                        let k = 3;
                        let s = g.andor(k);
                        g.push(s);
                    }
                    _ => {
                        let k = g.stages();
                        let s = g.pipeline(k, 200);
                        g.push(s);
                    }
                }
            }
            let lv = *g.r.pick(&[0, 0, 1, 2]);
            g.signals(lv, false);
            typed = g.pm(700);
        }
        "C03" => {
            g.deaths = 120;
            g.errs = if g.pm(300) { 100 } else { 0 };
            for _ in 0..n {
                match g.b(8) {
                    0 => g.func_lines(true),
                    1 => {
                        let s = g.redir_line();
                        g.push(s);
                    }
                    2 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    3 => {
                        let a = g.r.pick(&["cd /w/missing", "cd /w", "pwd", "! pwd", "! cd /w/missing", "fg %77", "! fg %77", "unset", "unset Q9", "unset -f q9", "alias q9=u1", "unalias q9", "! unalias q9", "unalias -a", "unalias", "Q8=v", "! readonly", "readonly Q7=1", "unset -v Q8", "jobs", "! jobs", "eval", "source", "bg %77", "export Q6=a", "! export Q5=a", "source /w/missing"]).to_string();
                        let op = *g.r.pick(&["&&", "||"]);
                        let c = g.cmd(300);
                        let k = g.r.range(1, 2) as usize;
                        let d = g.andor(k);
                        g.push(format!("{} {} {} {} {}", a, op, c, if op == "&&" { "||" } else { "&&" }, d));
                    }
                    4 if g.pm(300) => {
                        let s = g.builtin_line();
                        g.push(s);
                    }
                    _ => {
                        let k = g.r.range(2, 5) as usize;
                        let s = if g.pm(600) { g.andor(k) } else { g.list(2) };
                        g.push(s);
                    }
                }
            }
            // what could not be started has failed
            let fault = g.pm(150);
            if fault {
                let k = g.r.range(1, 3) as usize;
                let s = if g.pm(500) { g.cmd(100) } else { g.andor(k) };
                g.push(s);
                let k = g.lines.len() as u32;
                g.faults(k, k);
                if g.pm(300) {
                    g.cfg.f_max = 1;
                }
            }
            if fault && g.pm(700) {
                g.push("exit".into());
            } else if g.pm(600) {
                let e = match g.b(7) {
                    0 => format!("exit {}", g.b(256)),
                    4 => {
                        // in a function, a sourced file or eval
                        let c = g.cmd(300);
                        let x = if g.pm(500) { format!("exit {}", g.b(256)) } else { "exit".to_string() };
                        match g.b(3) {
                            0 => {
                                g.push(format!("gx () {{ {}; {}; u9998 w1; }}", c, x));
                                g.r.pick(&["gx", "gx a b", "gx; u9997 w1", "gx && u9997 w1"]).to_string()
                            }
                            1 => {
                                g.files.push(("/w/sx.rsh".into(), format!("text:{}\n{}\nu9998 w1\n", c, x)));
                                "source /w/sx.rsh".into()
                            }
                            _ => format!("eval '{}'", x),
                        }
                    }
                    5 => {
                        let u = g.unit(700);
                        match g.b(5) {
                            4 => {
                                let v = g.cmd(500);
                                format!("{}; {} &; exit", u, v)
                            }
                            0 if !u.contains(|c| c == '"' || c == '\'') => format!("eval '{}'; exit", u),
                            1 => {
                                g.files.push(("/w/sy.rsh".into(), format!("text:{}\n", u)));
                                "source /w/sy.rsh; exit".into()
                            }
                            _ => {
                                let a = g.r.pick(&["X=1", "export X=1", "pwd", "cd /w", "jobs", "gy () { u9996 w1; }", "# nothing"]).to_string();
                                format!("{}; {}; exit", u, a)
                            }
                        }
                    }
                    1 => {
                        let u = g.unit(700);
                        format!("{}; exit", u)
                    }
                    2 => {
                        let u = g.unit(500);
                        let v = g.b(100);
                        format!("{} && exit {}", u, v)
                    }
                    _ => "exit".into(),
                };
                g.push(e);
                if g.pm(300) {
                    let c = g.cmd(100);
                    g.push(c);
                }
            }
            typed = false;
            if !fault && g.pm(200) {
                g.signals(1, false);
                typed = true;
            }
            typed |= fault;
        }
        "C04" => {
            for _ in 0..n {
                match g.b(8) {
                    0 => {
                        let (f, def) = g.func(false, false);
                        g.push(def);
                        if g.pm(600) {
                            g.push(format!("{} &", f.name));
                        } else {
                            let t = g.tag();
                            let s = g.sink_ops(100);
                            g.push(format!("{} | {} {} &", f.name, t, s));
                        }
                    }
                    1 => {
                        let t = g.tag();
                        let k = g.b(100);
                        g.push(format!("{} w{},f &", t, k));
                    }
                    2 => {
                        let (t, t2) = (g.tag(), g.tag());
                        let k = g.b(100);
                        g.push(format!("{} w{},f | {} c,f &", t, k, t2));
                    }
                    3 => {
                        let u = g.unit(200);
                        g.push(u);
                    }
                    4 => {
                        let s = g.bg();
                        let k = g.bg();
                        let u = g.cmd(100);
                        g.push(format!("{}; {}; {}", s, k, u));
                    }
                    5 => g.push("jobs".into()),
                    _ => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                }
            }
            let lv = *g.r.pick(&[0, 0, 1]);
            g.signals(lv, false);
            if g.pm(500) {
                g.closing();
            }
            typed = g.pm(800);
            if !typed {
                let m = *g.r.pick(&[Mode::Paste, Mode::Script, Mode::Dash]);
                g.cfg.mode = m;
            }
        }
        "C05" => {
            if g.pm(500) {
                g.cfg.pid_space = g.r.range(10, 24) as u32;
            }
            let k = 1 + g.b(3);
            for _ in 0..k {
                match g.b(5) {
                    0 if g.pm(60) => g.many_jobs(),
                    0 => g.bg_story(),
                    1 => g.stop_story(),
                    2 => {
                        let s = g.list(2);
                        g.push(s);
                    }
                    3 => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                    _ => {
                        let s = g.bg_line();
                        g.push(s);
                        let s = g.bg();
                        g.push(s);
                    }
                }
                if g.pm(400) {
                    let s = g.bg_line();
                    g.push(s);
                }
                if g.pm(300) {
                    let m = g.r.pick(&["fg %77", "bg %77", "fg @P:u1@", "bg @P:u1@", "fg %@J:u1@", "bg %@J:u1@"]).to_string();
                    let acts = vec![Act::Quiesce(What::All(9))];
                    g.lines.push(la(m, acts));
                }
            }
            if g.pm(500) {
                g.kill_all_check();
            }
            g.closing();
            let lv = *g.r.pick(&[0, 0, 1]);
            if !g.lines.iter().any(|l| l.text.contains('"')) {
                g.signals(lv, false);
            }
        }
        "C06" => {
            let k = 1 + g.b(3);
            for _ in 0..k {
                if g.pm(30) {
                    g.many_jobs();
                } else if g.pm(700) {
                    g.bg_story();
                } else {
                    g.stop_story();
                }
            }
            if g.pm(700) {
                g.kill_all_check();
            }
            if g.pm(400) {
                g.bg_story();
            }
            if g.pm(200) {
                g.signals(1, false);
                g.cfg.int_pm = 0;
            }
        }
        "C07" => {
            let mut tstp = true;
            let funcs = g.pm(200);
            let subst = !funcs && g.pm(250);
            if funcs {
                tstp = false;
            }
            for _ in 0..n {
                match g.b(9) {
                    0 if subst => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                    0 if funcs => g.func_lines(true),
                    1 => g.stuck_fg(),
                    2 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    3 => {
                        let s = g.builtin_line_noredir();
                        g.push(s);
                    }
                    4 => {
                        let s = g.err_line();
                        g.push(s);
                    }
                    5 => g.push("jobs".into()),
                    6 => {
                        let s = g.blank_line();
                        g.push(s);
                    }
                    _ => {
                        let s = g.list(2);
                        g.push(s);
                    }
                }
                if g.pm(250) {
                    let k = g.r.range(1, 200) as u32;
                    let w = match g.b(6) {
                        0 => What::Group(2),
                        1 if tstp => What::Group(20),
                        2 => What::Shell(20),
                        3 => What::Shell(17),
                        _ => What::Shell(2),
                    };
                    g.act_last(Act::Step(k, w));
                }
                if g.pm(250) {
                    let w = match g.b(5) {
                        0 => What::Group(2),
                        1 if tstp => What::Group(20),
                        2 => What::Shell(20),
                        3 => What::Shell(17),
                        _ => What::Shell(2),
                    };
                    let k = 1 + g.b(3);
                    for _ in 0..k {
                        g.act_last(Act::Prompt(w.clone()));
                    }
                }
            }
            g.closing();
            let lv = 1 + g.b(4) as u32;
            g.signals(lv, tstp);
            if g.cfg.tstp_pm > 0 || g.lines.iter().any(|l| l.acts.iter().any(|a| matches!(a, Act::Step(_, What::Group(20))))) {
                // stopped leftovers are fine
            }
        }
        "C22" => {
            for _ in 0..n {
                match g.b(8) {
                    0 => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                    1 => g.func_lines(true),
                    2 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    3 => {
                        let s = g.list(2);
                        g.push(s);
                    }
                    4 => {
                        let s = g.redir_line();
                        g.push(s);
                    }
                    5 => g.stuck_fg(),
                    _ => {
                        let k = 1 + g.b(3) as usize;
                        let s = g.pipeline(k, 200);
                        g.push(s);
                    }
                }
                if g.pm(800) {
                    // one command is started within about 40 system calls of the shell and its copy
                    let span = if g.pm(700) { 60 } else { 250 };
                    let k = 1 + g.b(span) as u32;
                    let w = if g.pm(650) { What::Group(2) } else { What::Group(20) };
                    g.act_last(Act::Step(k, w.clone()));
                    if g.pm(200) {
                        let k2 = k + 1 + g.b(20) as u32;
                        let w2 = if g.pm(500) { What::Group(2) } else { What::Group(20) };
                        g.act_last(Act::Step(k2, w2));
                    }
                    if g.pm(600) {
                        let k3 = *g.r.pick(&[18, 9, 15]);
                        g.act_last(Act::Prompt(What::All(k3)));
                    }
                }
                if g.pm(150) {
                    g.push("jobs".into());
                }
            }
            let s = g.cmd(100);
            g.push(s);
            g.closing();
            if g.pm(300) {
                let lv = 1 + g.b(3) as u32;
                g.signals(lv, true);
            }
        }
        "C08" => {
            let k = 1 + g.b(3);
            for _ in 0..k {
                if g.pm(15) {
                    g.many_jobs();
                }
                g.stop_story();
                if g.pm(300) {
                    let s = g.bg_line();
                    g.push(s);
                }
                if g.pm(200) {
                    let s = g.r.pick(&["fg %77", "bg %77", "fg %", "bg abc", "fg", "bg", "fg %-1"]).to_string();
                    g.push(s);
                }
            }
            if g.pm(500) {
                g.kill_all_check();
            }
            let c = g.cmd(100);
            g.push(c);
        }
        "C09" => {
            g.abs_only = true;
            g.errs = if g.pm(200) { 80 } else { 0 };
            for _ in 0..n {
                let k = g.b(10);
                match k {
                    0 | 1 => {
                        let s = g.builtin_line();
                        g.push(s);
                    }
                    2 => {
                        if g.pm(600) {
                            g.func_lines(true)
                        } else {
                            g.arg_lines(true)
                        }
                    }
                    3 => {
                        let s = g.redir_line();
                        g.push(s);
                    }
                    4 => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                    5 => {
                        let s = g.err_line();
                        g.push(s);
                    }
                    6 | 7 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    _ => {
                        let s = g.list(2);
                        g.push(s);
                    }
                }
            }
            if g.pm(300) {
                let s = g.source_line(3);
                g.push(s);
            }
            let c = g.cmd(100);
            g.push(c);
            let lv = *g.r.pick(&[0, 0, 1, 2]);
            g.signals(lv, false);
            typed = lv > 0 || g.pm(700);
        }
        "C10" => {
            for _ in 0..n {
                match g.b(8) {
                    0 => {
                        let s = g.same_append();
                        let s = if g.pm(200) { g.dressed(s) } else { s };
                        g.push(s);
                    }
                    1 => {
                        let s = g.unit(100);
                        g.push(s);
                    }
                    _ => {
                        let s = g.redir_line();
                        let s = if g.pm(400) { g.dressed(s) } else { s };
                        g.push(s);
                    }
                }
                if g.pm(500) {
                    g.act_last(Act::Prompt(What::Settle));
                }
            }
            let c = g.cmd(100);
            g.push(c);
            typed = g.pm(600);
            if typed && g.pm(250) {
                let k = g.lines.len() as u64;
                let lo = g.r.range(1, k.max(2) - 1) as u32;
                g.cfg.f_lo = lo;
                g.cfg.f_hi = lo;
                g.cfg.f_max = 1;
                g.cfg.f_open = 500;
            }
        }
        "C11" => {
            let pre = 1 + g.b(2) as usize;
            for _ in 0..pre {
                let s = if g.pm(300) { g.bg_line() } else { g.unit(200) };
                g.push(s);
            }
            let f0 = g.lines.len() as u32 + 1;
            let fl = 1 + g.b(2) as usize;
            let mut flavour_jobs = false;
            let mute = g.pm(120);
            for _ in 0..fl {
                if mute && g.pm(800) {
                    // the shell itself prints something here
                    let t = g.tag();
                    let s = match g.b(12) {
                        0 | 1 => "pwd".to_string(),
                        2 | 3 => "jobs".into(),
                        4 => "cd /w/missing".into(),
                        5 => "fg %9".into(),
                        6 => format!("{} && | {}", t, t),
                        7 => "alias".into(),
                        8 => format!("pwd && {}", t),
                        9 => format!("nosuch || {}", t),
                        10 => "unset".into(),
                        _ => g.bg_line(),
                    };
                    g.push(s);
                    continue;
                }
                match g.b(10) {
                    0 => {
                        let s = g.cmd(200);
                        g.push(s);
                    }
                    1 => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                    2 => {
                        let s = g.redir_line();
                        g.push(s);
                    }
                    3 => {
                        let d = g.dir();
                        g.push(format!("cd {}", d));
                        g.abs_only = true;
                    }
                    4 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    5 => {
                        let (f, def) = g.func(false, false);
                        g.push(def);
                        let t = g.tag();
                        let o = g.sink_ops(100);
                        let q = *g.r.pick(&["", " &"]);
                        g.push(format!("{} | {} {}{}", f.name, t, o, q));
                    }
                    6 => {
                        let s = g.list(2);
                        g.push(s);
                    }
                    7 => {
                        // stages that run until their reader or writer goes away
                        let (a, b, c) = (g.tag(), g.tag(), g.tag());
                        let m = if g.cfg.chunk == 1 { (g.cfg.pipe_cap * 3).min(1500) } else { g.cfg.pipe_cap * 3 };
                        let s = match g.b(3) {
                            0 => format!("{} w{} | {} c | {} r", a, m, b, c),
                            1 => format!("{} t50 | {} c | {} c", a, b, c),
                            _ => format!("{} w{} | {} h10 | {} c", a, m, b, c),
                        };
                        let q = *g.r.pick(&["", "", " &"]);
                        g.push(format!("{}{}", s, q));
                    }
                    8 => {
                        let s = g.source_line(2);
                        g.push(s);
                    }
                    _ => {
                        let n = g.stages();
                        let s = g.pipeline(n, 200);
                        g.push(s);
                    }
                }
                if g.pm(300) {
                    flavour_jobs = true;
                }
            }
            let f1 = g.lines.len() as u32;
            g.faults(f0, f1);
            if mute {
                g.cfg.f_out = *g.r.pick(&[200, 500, 900]);
                if g.pm(700) {
                    (g.cfg.f_fork, g.cfg.f_pipe, g.cfg.f_open, g.cfg.f_exec, g.cfg.f_chdir, g.cfg.f_read, g.cfg.f_stat) = (0, 0, 0, 0, 0, 0, 0);
                }
            }
            let limit = g.pm(250);
            if !limit && g.pm(200) {
                g.cfg.nproc = 2 + g.b(4) as u32;
                if g.pm(700) {
                    g.cfg.f_max = 0;
                }
            }
            if limit {
                g.cfg.nofile = 5 + g.b(9) as u32;
                if g.pm(600) {
                    g.cfg.f_max = 0;
                }
            }
            g.act_last(Act::Prompt(What::Settle));
            if flavour_jobs {
                g.push("jobs".into());
            }
            let k = 1 + g.b(3);
            for _ in 0..k {
                match g.b(6) {
                    0 => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                    1 => {
                        let s = g.redir_line();
                        g.push(s);
                    }
                    2 => {
                        let s = g.bg();
                        g.push(s);
                    }
                    _ => {
                        let s = g.list(1);
                        g.push(s);
                    }
                }
            }
            if g.pm(300) {
                g.kill_all_check();
            }
        }
        "C12" => {
            for _ in 0..n {
                match g.b(8) {
                    0 => g.stuck_fg(),
                    1 => {
                        let s = g.builtin_line_noredir();
                        g.push(s);
                    }
                    2 => g.func_lines(true),
                    3 => {
                        let s = g.redir_line();
                        g.push(s);
                    }
                    4 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    5 => g.push("jobs".into()),
                    _ => {
                        let s = g.err_line();
                        g.push(s);
                    }
                }
            }
            if g.pm(300) {
                let c = g.cmd(100);
                g.push(format!("{}; exec nosuch9999; {}", c.clone().replace('u', "u1"), ""));
                g.lines.pop();
                let c2 = g.cmd(100);
                g.push(format!("{}; exec nosuch9999", c));
                g.push(c2);
            }
            if g.pm(600) {
                g.stuck_fg();
            }
            if g.pm(300) {
                g.stop_story();
            }
            let has_subst = g.lines.iter().any(|l| l.text.contains('"'));
            if g.pm(300) && !has_subst {
                g.signals(1, false);
            }
            if g.pm(350) {
                let hi = g.lines.len() as u32;
                let lo = 1 + g.b(hi as u64) as u32;
                g.faults(lo, lo);
            }
            let c = g.cmd(100);
            g.push(c);
        }
        "C13" => {
            g.big = 5;
            for _ in 0..n.min(5) {
                match g.b(7) {
                    0 => {
                        let (f, def) = g.func(false, false);
                        g.push(def);
                        let t = g.tag();
                        g.push(format!("{} w3 \"$({})\"", t, f.name));
                    }
                    1 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    2 => {
                        let w = g.subst_word();
                        let op = *g.r.pick(&["&&", "||", ";"]);
                        let t = g.tag();
                        let c = g.cmd(300);
                        g.push(format!("{} w2 {} {} {}", t, w, op, c));
                    }
                    _ => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                }
            }
            if g.pm(200) {
                g.errs = 100;
                let s = g.subst_line();
                g.push(s);
            }
            let c = g.cmd(100);
            g.push(c);
            let lv = *g.r.pick(&[0, 0, 1, 2]);
            g.signals(lv, false);
            typed = lv > 0 || g.pm(500);
            if lv == 0 && typed && g.pm(300) {
                let hi = g.lines.len() as u32 - 1;
                let lo = 1 + g.b(hi as u64) as u32;
                g.faults(lo, lo);
            }
        }
        "C14" => {
            g.cfg.short_pm = *g.r.pick(&[0, 300, 700]);
            let m = *g.r.pick(&[Mode::Typed, Mode::Paste, Mode::Dash, Mode::Script, Mode::Script]);
            g.cfg.mode = m;
            typed = false;
            if m != Mode::Dash && m != Mode::Typed && g.pm(400) {
                args.push("--no-final-newline".into());
            }
            let bad_ok = m != Mode::Dash;
            if m == Mode::Script && g.pm(400) {
                for _ in 0..1 + g.b(3) {
                    let a = g.r.pick(&["a1", "é", "a b", "-n", "", "k=v", "-c", "$X1", "a;b"]).to_string();
                    args.push(format!("={}", a));
                }
                let t = g.tag();
                let k = 1 + g.b(3);
                let s = format!("{} w{} ${}", t, g.b(20), k);
                g.push(s);
            }
            g.exits = true;
            g.nul = true;
            let miss = m == Mode::Script && g.pm(40);
            for _ in 0..n + 2 {
                if miss {
                    break;
                }
                match g.b(12) {
                    0 | 1 => {
                        let s = g.blank_line();
                        g.push(s);
                    }
                    2 if bad_ok => {
                        let mut s = g.err_line();
                        if g.pm(200) {
                            // bytes that are no text
                            let u = g.unit(200);
                            let at = u.char_indices().map(|c| c.0).nth(g.b(u.chars().count() as u64) as usize).unwrap();
                            s = format!("{}{}{}", &u[..at], NOTEXT, &u[at..]);
                        }
                        if !s.starts_with("exec") {
                            g.push(s);
                        }
                    }
                    3 => {
                        let k = 1 + g.b(4) as usize;
                        let s = g.source_line(k);
                        g.push(s);
                    }
                    4 => {
                        let s = g.eval_line();
                        g.push(s);
                    }
                    5 => {
                        let s = g.list(2);
                        g.push(s);
                    }
                    6 => {
                        let s = g.unit(200);
                        g.push(format!("  {}  # comment", s));
                    }
                    7 if m != Mode::Dash => {
                        if g.pm(500) {
                            g.func_lines(true)
                        } else {
                            g.arg_lines(true)
                        }
                    }
                    8 => {
                        g.push("source /w/missing".into());
                    }
                    9 => {
                        let s = g.list(3);
                        g.push(format!("{};", s));
                    }
                    _ => {
                        let s = g.unit(200);
                        g.push(s);
                    }
                }
            }
            if g.pm(250) {
                g.lines.push(l(format!("exit {}", 0)));
                let k = g.b(100);
                g.lines.last_mut().unwrap().text = format!("exit {}", k);
                let c = g.cmd(100);
                g.push(c);
            }
            // more than any buffer holds, now and then
            if bad_ok && g.pm(25) && !miss {
                let at = g.b(g.lines.len() as u64 + 1) as usize;
                let k = 15 + g.b(20);
                let w = 1500 + g.b(3000) as usize;
                if g.pm(500) {
                    for _ in 0..k {
                        let v = format!("# {}", "c".repeat(w));
                        g.lines.insert(at, l(v));
                    }
                } else {
                    g.nsrc += 1;
                    let p = format!("/w/s{}.rsh", g.nsrc);
                    let mut t = String::new();
                    for i in 0..k {
                        let c = g.cmd(200);
                        t.push_str(&format!("# {}\n{}\n", "c".repeat(w), if i % 5 == 4 { c } else { String::new() }));
                    }
                    let c = g.cmd(200);
                    t.push_str(&c);
                    g.files.push((p.clone(), format!("text:{}", t)));
                    g.lines.insert(at, l(format!("source {}", p)));
                }
            }
            // a long line now and then
            if g.pm(100) && !g.lines.is_empty() {
                let mut v = vec![];
                for _ in 0..60 {
                    let t = g.tag();
                    v.push(format!("{} x0", t));
                }
                let mut s = String::new();
                for x in v {
                    s.push_str(&x);
                    s.push_str("; ");
                }
                let t = g.tag();
                s.push_str(&format!("{} w1", t));
                g.push(s);
            }
            if g.pm(250) && matches!(m, Mode::Typed | Mode::Paste) {
                g.signals(1, false);
                g.cfg.int_pm = 0;
                if m == Mode::Paste {
                    g.cfg.shint_pm = 0;
                }
            }
        }
        "C15" => {
            g.abs_only = true;
            for _ in 0..n + 2 {
                match g.b(9) {
                    8 => g.arg_lines(true),
                    0 => {
                        let (f, def) = g.func(false, true);
                        g.push(def);
                        let t = g.tag();
                        let o = g.sink_ops(100);
                        let s = match g.b(3) {
                            0 => format!("{} &", f.name),
                            1 => f.name.clone(),
                            _ => format!("{} | {} {}", f.name, t, o),
                        };
                        g.push(s);
                    }
                    1 => {
                        let s = g.unit(200);
                        g.push(s);
                    }
                    2 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    3 => {
                        let s = g.redir_line();
                        g.push(s);
                    }
                    _ => {
                        let s = g.builtin_line();
                        g.push(s);
                        if g.pm(300) {
                            g.push("pwd".into());
                        }
                    }
                }
            }
            let c = g.cmd(100);
            g.push(c);
            typed = g.pm(500);
        }
        "C16" => {
            let k = n;
            let mut flt = None;
            if g.pm(500) {
                flt = Some(1 + g.b(k as u64));
            }
            g.errs = if g.pm(400) { 100 } else { 0 };
            for _ in 0..k {
                match g.b(5) {
                    0 => g.func_lines(true),
                    1 => {
                        let s = g.source_line(2);
                        g.push(s);
                    }
                    2 => {
                        let s = g.redir_line();
                        g.push(s);
                    }
                    3 => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                    _ => {
                        let s = g.general();
                        g.push(s);
                    }
                }
            }
            let c = g.cmd(100);
            g.push(c);
            if let Some(x) = flt {
                g.faults(x as u32, x as u32 + 1);
                if g.pm(200) {
                    g.cfg.nofile = 6 + g.b(8) as u32;
                }
            } else if g.pm(300) {
                g.signals(1, false);
            }
        }
        "C17" => {
            for _ in 0..n {
                match g.b(10) {
                    0 | 1 => g.stuck_fg(),
                    2 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    3 => {
                        let s = g.builtin_line_noredir();
                        g.push(s);
                    }
                    4 => {
                        let s = g.err_line();
                        g.push(s);
                    }
                    5 => {
                        let s = g.blank_line();
                        g.push(s);
                    }
                    6 => g.stop_story(),
                    7 => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                    _ => {
                        let s = g.unit(200);
                        g.push(s);
                    }
                }
            }
            if g.pm(300) {
                let s = if g.pm(700) { format!("exit {}", g.b(256)) } else { "exit".to_string() };
                g.push(s);
            }
            if g.pm(300) {
                let lv = *g.r.pick(&[1, 2]);
                let stop = g.lines.iter().any(|l| !l.acts.is_empty());
                g.signals(lv, false);
                if stop {
                    g.cfg.int_pm = 0;
                }
            } else if g.pm(200) {
                let k = g.lines.len() as u32;
                let x = 1 + g.b(k as u64) as u32;
                g.faults(x, x);
            }
            g.tty_mode();
        }
        "C21" => {
            // Tab keys anywhere, with all kinds of PATH
            let mut paths: Vec<&str> = vec!["/bin"];
            let all = ["/bin", "/bin:/w/p1", "/w/p1:/bin:/w/none", "/w/p2:/w/p1:/bin", "/bin:/bin/x:/w/p3:/w/p2", "/w/none:/bin", "/w/p1", "/w/p2:/w/none"];
            for _ in 0..n + 2 {
                match g.b(12) {
                    0 | 1 => g.push("unset PATH".into()),
                    2 | 3 | 4 => {
                        let p = *g.r.pick(&all);
                        paths.push(p);
                        g.push(format!("export PATH={}", p));
                    }
                    5 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    6 => {
                        let s = g.builtin_line_noredir();
                        g.push(s);
                    }
                    7 => {
                        let s = g.err_line();
                        g.push(s);
                    }
                    8 => g.stuck_fg(),
                    _ => {
                        let s = g.unit(200);
                        g.push(s);
                    }
                }
            }
            if g.pm(200) {
                g.cfg.no_path = 1;
            }
            for (d, x) in [("/w/p1", ["alpha", "beta", "alphabet", "dir/x"]), ("/w/p2", ["gamma", "beta", "c\u{fffd}", "\u{fffd}"])] {
                for f in x {
                    if g.pm(700) {
                        g.files.push((format!("{}/{}", d, f), "text:k".into()));
                    }
                }
                if g.pm(100) {
                    for i in 0..g.r.range(100, 400) {
                        let y = "y".repeat(g.b(200) as usize);
                        g.files.push((format!("{}/many{}{}", d, y, i), "text:k".into()));
                    }
                }
            }
            g.files.push(("/w/p3".into(), "text:k".into()));
            if g.pm(300) {
                g.push("exit".into());
            }
            g.tty_mode();
            match g.b(3) {
                0 => {
                    g.cfg.f_dir = *g.r.pick(&[100, 400, 800]);
                    g.cfg.f_lo = 0;
                    g.cfg.f_hi = 1000;
                    g.cfg.f_max = 1 + g.b(4) as u32;
                }
                1 => g.signals(1, false),
                _ => {}
            }
            g.tabs();
        }
        "C18" => {
            for _ in 0..n + 2 {
                match g.b(12) {
                    0 => {
                        let s = g.blank_line();
                        g.push(s);
                    }
                    1 | 2 => {
                        let s = g.err_line();
                        g.push(s);
                    }
                    3 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    4 => {
                        let s = g.r.pick(&["cd /w/d1", "cd /", "cd /w", "cd /w/d2", "cd"]).to_string();
                        g.push(s);
                    }
                    5 => {
                        let t = g.tag();
                        let s = format!("{} 'a\\b' \"\\\\n\" x", t);
                        g.push(s);
                    }
                    6 => {
                        let x = g.lines.last().filter(|l| l.acts.is_empty()).map(|l| l.text.clone());
                        if let Some(x) = x {
                            g.push(x);
                        }
                    }
                    7 => {
                        let t = g.tag();
                        let k = if g.pm(150) { g.r.range(300, 2000) } else { g.r.range(20, 120) } as usize;
                        let s = format!("{} {}", t, "a".repeat(k));
                        g.push(s);
                    }
                    8 => g.push("pwd".into()),
                    9 => g.stuck_fg(),
                    10 => {
                        // a copy of the shell that leaves by `exit`
                        let (t, d, x) = (g.tag(), *g.r.pick(&[0, 5, 50]), g.b(200));
                        g.nf += 1;
                        let f = format!("fx{}", g.nf);
                        g.push(format!("{}() {{ {} t{}; exit {}; }}", f, t, d, x));
                        g.push(format!("{} &", f));
                    }
                    _ => {
                        let s = g.unit(200);
                        g.push(s);
                    }
                }
            }
            if g.pm(60) {
                for i in 0..g.r.range(90, 130) {
                    g.push(format!("pwd {}", i));
                }
            }
            if g.pm(500) {
                let s = if g.pm(700) { format!("exit {}", g.b(256)) } else { "exit".to_string() };
                g.push(s);
            }
            if g.pm(300) {
                let k = g.b(5000);
                g.files.push(("/w/history.txt".into(), format!("pat:old:{}", k)));
            }
            let lines = g.lines.len();
            g.tty_mode();
            let _ = lines;
            if g.pm(350) {
                let k = g.lines.len() as u32;
                g.cfg.f_lo = k;
                g.cfg.f_hi = 1000;
                g.cfg.f_max = 1 + g.b(3) as u32;
                if g.pm(500) {
                    g.cfg.f_open = 500;
                } else {
                    g.cfg.f_write = 400;
                }
            } else if g.pm(100) {
                g.files.retain(|f| f.0 != "/w/history.txt");
                g.files.push(("/w/history.txt/x".into(), "text:x".into()));
                g.cfg.hist_bad = 1;
            } else if g.pm(250) {
                g.signals(1, false);
            }
        }
        "C23" => {
            // startup files; what they define is used by the session
            g.abs_only = true;
            let flt = g.b(5);
            let mut uses: Vec<Line> = vec![];
            if g.pm(350) {
                g.cfg.home = 1 + g.b(3) as u32;
            }
            // (the last two are not to be read)
            let homes = ["/w/home", "/root"];
            let home = if g.cfg.home == 1 { homes[0] } else { homes[1] };
            for p in [".rshrc", ".profile"] {
                if g.pm(if g.cfg.home > 1 { 600 } else { 200 }) {
                    continue;
                }
                let p = &format!("{}/{}", home, p);
                let mut t = String::new();
                for _ in 0..1 + g.b(3) {
                    let k = 1 + g.b(2) as usize;
                    g.source_in(k, if flt < 2 { 2 } else { 1 });
                    let x = g.files.pop().map(|f| f.1["text:".len()..].to_string()).unwrap_or_default();
                    t.push_str(&x);
                    if !t.ends_with('\n') {
                        t.push('\n');
                    }
                    if g.pm(350) {
                        let n0 = g.lines.len();
                        if g.pm(500) {
                            g.func_lines(true);
                        } else {
                            g.arg_lines(true);
                        }
                        for l in g.lines.split_off(n0) {
                            if l.text.contains("() {") {
                                t.push_str(&l.text);
                                t.push('\n');
                            } else {
                                uses.push(l);
                            }
                        }
                    }
                    if g.pm(300) {
                        let b = g.builtin_line();
                        t.push_str(&b);
                        t.push('\n');
                    }
                }
                if flt == 1 {
                    // (a fault may drop the rest: nothing later may depend on it)
                    let risky = |t: &str| ["=", "() {", "alias ", "cd ", "export ", "unset ", "readonly ", "trap ", "set "].iter().any(|k| t.contains(k));
                    t = t.lines().filter(|l| !risky(l)).map(|l| format!("{}\n", l)).collect();
                    uses.clear();
                }
                if g.pm(100) {
                    let u = g.tag();
                    t.push_str(&format!("&& {} w1\n", u));
                }
                if g.pm(300) {
                    t.truncate(t.trim_end_matches('\n').len());
                }
                if g.pm(60) {
                    g.files.push((format!("{}/keep", p), "text:k".into()));
                } else {
                    g.files.push((p.into(), format!("text:{}", t)));
                }
            }
            if g.cfg.home > 1 {
                // what they define is not there
                uses.clear();
            } else if g.cfg.home == 1 && g.pm(300) {
                let u = g.tag();
                g.files.push((format!("/root/{}", g.r.pick(&[".rshrc", ".profile"])), format!("text:{} w1\n", u)));
            }
            for u in uses {
                g.lines.push(u);
            }
            for _ in 0..1 + g.b(4) {
                let s = if g.pm(300) { g.builtin_line() } else { g.general() };
                g.push(s);
            }
            let c = g.cmd(100);
            g.push(c);
            match flt {
                0 => {
                    g.faults(0, 0);
                    let c = &mut g.cfg;
                    (c.f_fork, c.f_pipe, c.f_exec, c.f_chdir, c.f_stat) = (0, 0, 0, 0, 0);
                    (c.f_open, c.f_read) = *g.r.pick(&[(400, 0), (0, 400), (200, 200)]);
                    g.cfg.f_start = 1;
                }
                1 => {
                    g.faults(0, 0);
                    g.cfg.f_start = 1;
                }
                _ => typed = g.pm(100),
            }
        }
        "C24" => {
            // commands in several directories, PATH changing, names with and without a directory
            g.abs_only = true;
            for _ in 0..n + 3 {
                match g.b(16) {
                    0..=3 => {
                        let s = g.path_line();
                        g.push(s);
                    }
                    4 => {
                        // relative to the working directory
                        let (d, t, c) = (1 + g.b(3), g.tag(), g.src_ops(100));
                        let f = match g.b(4) {
                            0 => {
                                g.push(format!("cd /w/q{}", d));
                                "./"
                            }
                            1 => {
                                g.push(format!("cd /w/q{}", d));
                                "../q2/"
                            }
                            2 => {
                                g.push("cd /w".into());
                                "q1/"
                            }
                            _ => {
                                g.push("cd /".into());
                                "bin/"
                            }
                        };
                        g.push(format!("{}{} {}", f, t, c));
                    }
                    5 => {
                        // PATH with a relative directory
                        let d = g.r.pick(&["q1", ".", "./q2", "../q3", "../w/q1"]).to_string();
                        let e = g.r.pick(&["", ":/bin", ":/w/q3:/bin"]).to_string();
                        g.push(format!("export PATH={}{}", d, e));
                        let d = g.r.pick(&["/w", "/w/q2", "/w/d1", "/"]).to_string();
                        g.push(format!("cd {}", d));
                        let c = g.cmd(100);
                        g.push(c);
                    }
                    6 => g.func_lines(true),
                    7 => {
                        let s = g.bg_line();
                        g.push(s);
                    }
                    8 => {
                        let s = g.subst_line();
                        g.push(s);
                    }
                    9 => {
                        // a file to be sourced, found the same way
                        g.nsrc += 1;
                        let f = format!("sq{}.rsh", g.nsrc);
                        let dirs = ["/w/q1", "/w/q2", "/w/q3", "/w", "/w/d1"];
                        for d in dirs {
                            if g.pm(500) {
                                let t = g.cmd(100);
                                g.files.push((format!("{}/{}", d, f), format!("text:{}\n", t)));
                            }
                        }
                        if g.pm(300) {
                            let d = g.r.pick(&["/w", "/w/d1"]).to_string();
                            g.push(format!("cd {}", d));
                        }
                        let s = g.then(format!("source {}", f));
                        g.push(s);
                    }
                    10 => {
                        let s = g.list(2);
                        g.push(s);
                    }
                    11 => {
                        let s = g.err_line();
                        g.push(s);
                    }
                    14 => {
                        let k = g.stages();
                        let s = g.pipeline(k, 200);
                        g.push(s);
                    }
                    12 | 13 => {
                        // the same names again and again
                        let k = g.b(9);
                        let s = match g.b(5) {
                            0 => format!("u90{} w{} | u91{} c", g.b(2), k, g.b(2)),
                            1 => format!("u90{} w{} &", g.b(2), k),
                            _ => format!("u90{} w{}", g.b(2), k),
                        };
                        g.push(s);
                    }
                    _ => {
                        let c = g.cmd(200);
                        g.push(c);
                    }
                }
            }
            if g.pm(500) {
                g.push("export PATH=/bin".into());
                let c = g.cmd(100);
                g.push(c);
            }
            g.places();
            g.files.push(("/w/q4".into(), "text:k".into()));
            g.files.push(("/w/q5".into(), "link:q2".into()));
            for d in ["/w/q1", "/w/q2", "/w/q3"] {
                g.files.push((format!("{}/keep", d), "text:k".into()));
            }
            typed = g.pm(700);
            match g.b(5) {
                0 | 1 => {
                    let k = g.lines.len() as u32;
                    let x = 1 + g.b(k as u64) as u32;
                    g.cfg.f_stat = *g.r.pick(&[100, 300, 600]);
                    if g.pm(300) {
                        g.cfg.f_exec = 100;
                    }
                    g.cfg.f_max = 1 + g.b(3) as u32;
                    (g.cfg.f_lo, g.cfg.f_hi) = if g.pm(500) { (0, 1000) } else { (x, x) };
                    typed = true;
                }
                2 => {
                    g.signals(1, false);
                    typed = true;
                }
                _ => {}
            }
        }
        _ => {
            for _ in 0..n {
                let s = g.general();
                g.push(s);
            }
        }
    }
    if matches!(prop, "C01" | "C03" | "C09" | "C12" | "C15" | "C18" | "C24") && g.cfg.mode != Mode::Tty && g.pm(if prop == "C24" { 200 } else { 80 }) {
        let s = g.exec_line();
        let s = if prop == "C24" { g.placed(&s) } else { s };
        g.push(s);
        if g.pm(300) {
            let c = g.cmd(100);
            g.push(c);
        }
    }
    if prop != "C14" && prop != "C04" && g.cfg.mode != Mode::Tty {
        input_mode(&mut g, typed);
        if prop == "C23" && g.cfg.mode == Mode::Script && g.files.iter().any(|f| f.1.contains("cd")) {
            g.cfg.mode = Mode::Dash;
        }
    }
    if !matches!(g.cfg.mode, Mode::Typed | Mode::Tty) {
        for l in g.lines.iter_mut() {
            l.acts.clear();
        }
        // nothing may depend on planned kills
        if g.cfg.mode == Mode::Dash {
            g.lines.retain(|l| !l.text.is_empty() && !l.text.contains("a=b=c") && crate::lang::parse(&l.text).is_ok());
            if g.lines.is_empty() {
                let c = g.cmd(100);
                g.push(c);
            }
        }
        if g.pm(200) && g.cfg.mode == Mode::Script && args.is_empty() {
            args.push("--no-final-newline".into());
        }
    }
    if matches!(g.cfg.mode, Mode::Typed | Mode::Paste | Mode::Dash) && g.pm(400) {
        for i in 0..g.lines.len() {
            let t = g.lines[i].text.clone();
            if t.starts_with('g') && t.contains(" () { ") && !t.contains("\"") && !t.contains("'") && g.pm(500) {
                let t = t.replace(" () { ", " () {\n").replace("; }", if g.pm(500) { "\n}" } else { ";\n}" });
                g.lines[i].text = if g.pm(500) { t.replace("; ", "\n") } else { t };
            }
        }
    }
    if g.cfg.mode != Mode::Tty && g.pm(60) {
        args.push("--odd-env".into());
    }
    let limits = g.cfg.nofile < 1024 || g.cfg.nproc > 0;
    if g.cfg.f_max > 0 || limits {
        // a fault may drop the rest of a sourced file or evaluated text: then nothing later may depend on what
        // that part would have changed
        let risky = |t: &str| ["=", "() {", "alias ", "cd ", "export ", "unset ", "readonly ", "trap ", "set "].iter().any(|k| t.contains(k));
        let bad = g.files.iter().any(|f| f.0.starts_with("/w/s") && f.0.ends_with(".rsh") && risky(&f.1));
        for i in 0..g.lines.len() {
            let (k, t) = (i as u32 + 1, g.lines[i].text.clone());
            if (limits || k >= g.cfg.f_lo && k <= g.cfg.f_hi) && (bad && t.contains("source ") || t.contains("eval ") && risky(&t)) {
                g.lines[i].text = g.cmd(100);
            }
        }
    }
    // a function is called in the background at most once: keep later uses sequential
    // directories used as working directories must exist
    g.files.push(("/w/d1/sub/keep".into(), "text:k".into()));
    g.files.push(("/w/d2/keep".into(), "text:k".into()));
    g.files.push(("/root/keep".into(), "text:k".into()));
    if g.cfg.home == 1 {
        g.files.push(("/w/home/keep".into(), "text:k".into()));
    }
    if g.pm(40) {
        // started by a program that left signals blocked or ignored
        g.cfg.inherit = match g.b(4) {
            0 => 64,
            1 => 1 << g.b(4),
            _ => g.b(256) as u32 & 0xcf,
        };
    }
    Scenario { seed, profile: prop.to_string(), cfg: g.cfg, files: g.files, lines: g.lines, args, choices: None }
}

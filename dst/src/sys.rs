//! System calls of the real shell code, answered from the simulated machine.
use crate::choice::*;
use crate::fs::*;
use crate::prog::Prog;
use crate::scen::*;
use crate::shm::*;
use crate::sim::*;

const PIPE_BUF: usize = 4096;

pub fn sysname(nr: i64) -> String {
    let s = match nr {
        0 => "read", 1 => "write", 2 => "open", 3 => "close", 4 => "stat", 5 => "fstat", 6 => "lstat", 7 => "poll", 8 => "lseek",
        13 => "rt_sigaction", 14 => "rt_sigprocmask", 16 => "ioctl", 17 => "pread64", 18 => "pwrite64", 19 => "readv", 20 => "writev",
        21 => "access", 22 => "pipe", 23 => "select", 32 => "dup", 33 => "dup2", 34 => "pause", 35 => "nanosleep", 39 => "getpid",
        53 => "socketpair", 56 => "clone", 57 => "fork", 58 => "vfork", 59 => "execve", 60 => "exit", 61 => "wait4", 62 => "kill",
        63 => "uname", 72 => "fcntl", 73 => "flock", 77 => "ftruncate", 79 => "getcwd", 80 => "chdir", 81 => "fchdir", 82 => "rename",
        83 => "mkdir", 84 => "rmdir", 87 => "unlink", 89 => "readlink", 95 => "umask", 102 => "getuid", 104 => "getgid", 107 => "geteuid",
        108 => "getegid", 109 => "setpgid", 110 => "getppid", 111 => "getpgrp", 112 => "setsid", 121 => "getpgid", 124 => "getsid",
        127 => "rt_sigpending", 128 => "rt_sigtimedwait", 130 => "rt_sigsuspend", 131 => "sigaltstack", 157 => "prctl", 186 => "gettid",
        200 => "tkill", 202 => "futex", 217 => "getdents64", 218 => "set_tid_address", 228 => "clock_gettime", 230 => "clock_nanosleep",
        231 => "exit_group", 234 => "tgkill", 247 => "waitid", 257 => "openat", 262 => "newfstatat", 263 => "unlinkat", 269 => "faccessat",
        270 => "pselect6", 271 => "ppoll", 292 => "dup3", 293 => "pipe2", 302 => "prlimit64", 318 => "getrandom", 332 => "statx", 435 => "clone3",
        439 => "faccessat2",
        _ => return format!("syscall {}", nr),
    };
    s.to_string()
}
/// Restarted after a SA_RESTART handler.
pub fn restartable(nr: i64) -> bool {
    matches!(nr, 0 | 1 | 16 | 17 | 18 | 19 | 20 | 61 | 72 | 73 | 247 | 257 | 2 | 202)
}

struct It<'b> {
    d: &'b [u8],
    o: usize,
}
impl<'b> It<'b> {
    fn u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        if self.o + 4 <= self.d.len() {
            b.copy_from_slice(&self.d[self.o..self.o + 4]);
        }
        self.o += 4;
        u32::from_le_bytes(b)
    }
    fn take(&mut self, n: usize) -> &'b [u8] {
        let s = &self.d[self.o.min(self.d.len())..(self.o + n).min(self.d.len())];
        self.o += (n + 3) & !3;
        s
    }
    fn fix(&mut self) -> Option<&'b [u8]> {
        let n = self.u32();
        if n == 0xffff_ffff {
            None
        } else {
            Some(self.take(n as usize))
        }
    }
    fn str(&mut self) -> String {
        self.fix().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default()
    }
    fn strs(&mut self) -> Vec<String> {
        let n = self.u32();
        (0..n).map(|_| self.str()).collect()
    }
}
fn u64at(b: &[u8], o: usize) -> u64 {
    let mut x = [0u8; 8];
    if o + 8 <= b.len() {
        x.copy_from_slice(&b[o..o + 8]);
    }
    u64::from_le_bytes(x)
}
fn ts_ns(b: &[u8]) -> u64 {
    u64at(b, 0).saturating_mul(1_000_000_000).saturating_add(u64at(b, 8))
}

/// 0 = stat failed, else (mode, size, ino)
struct StatInfo {
    mode: u32,
    size: u64,
    ino: u64,
    rdev: u64,
}

impl<'a> Sim<'a> {
    // ------------------------------------------------------------------ generic i/o
    pub fn ofd_readable(&self, o: usize) -> bool {
        match &self.fs.ofds[o].obj {
            Obj::PipeR(p) | Obj::SockEnd(p, _) => !self.fs.pipes[*p].buf.is_empty() || self.fs.pipes[*p].writers == 0,
            Obj::Input => !self.input.is_empty() || self.input_eof,
            Obj::Tty => !self.tty.inq.is_empty() || self.tty.hup,
            _ => true,
        }
    }
    /// How many bytes a read would find.
    fn ofd_avail(&self, o: usize, off: Option<u64>) -> usize {
        match &self.fs.ofds[o].obj {
            Obj::PipeR(p) | Obj::SockEnd(p, _) => self.fs.pipes[*p].buf.len(),
            Obj::Input => self.input.len(),
            Obj::Tty => self.tty.inq.len(),
            Obj::File(i) => match &self.fs.inodes[*i].node {
                Node::File(d) => d.len().saturating_sub(off.unwrap_or(self.fs.ofds[o].off) as usize),
                _ => 0,
            },
            _ => 0,
        }
    }
    pub fn ofd_writable(&self, o: usize, n: usize) -> bool {
        match &self.fs.ofds[o].obj {
            Obj::PipeW(p) | Obj::SockEnd(_, p) => {
                let q = &self.fs.pipes[*p];
                let free = q.cap.saturating_sub(q.buf.len());
                q.readers == 0 || if n <= PIPE_BUF.min(q.cap) { free >= n } else { free > 0 }
            }
            _ => true,
        }
    }
    pub fn ofd_read(&mut self, o: usize, max: usize) -> Result<Option<Vec<u8>>, i32> {
        if self.fs.ofds[o].flags & 3 == libc::O_WRONLY {
            return Err(libc::EBADF);
        }
        let nb = self.fs.ofds[o].flags & libc::O_NONBLOCK != 0;
        match self.fs.ofds[o].obj.clone() {
            Obj::PipeR(p) | Obj::SockEnd(p, _) => {
                let q = &mut self.fs.pipes[p];
                if q.buf.is_empty() {
                    return if q.writers == 0 { Ok(Some(vec![])) } else if nb { Err(libc::EAGAIN) } else { Ok(None) };
                }
                let n = max.min(q.buf.len());
                Ok(Some(q.buf.drain(..n).collect()))
            }
            Obj::Input => {
                if self.input.is_empty() {
                    return if self.input_eof { Ok(Some(vec![])) } else if nb { Err(libc::EAGAIN) } else { Ok(None) };
                }
                let n = max.min(self.input.len());
                Ok(Some(self.input.drain(..n).collect()))
            }
            Obj::Tty => {
                if self.tty.inq.is_empty() {
                    return if self.tty.hup { Ok(Some(vec![])) } else if nb { Err(libc::EAGAIN) } else { Ok(None) };
                }
                let n = max.min(self.tty.inq.len());
                Ok(Some(self.tty.inq.drain(..n).collect()))
            }
            Obj::File(i) => {
                let off = self.fs.ofds[o].off as usize;
                let d = match &self.fs.inodes[i].node {
                    Node::File(d) => {
                        if off >= d.len() {
                            vec![]
                        } else {
                            d[off..(off + max).min(d.len())].to_vec()
                        }
                    }
                    _ => vec![],
                };
                self.fs.ofds[o].off += d.len() as u64;
                Ok(Some(d))
            }
            Obj::Dir(_) => Err(libc::EISDIR),
            Obj::Null => Ok(Some(vec![])),
            Obj::PipeW(_) | Obj::Console(_) => Err(libc::EBADF),
        }
    }
    pub fn ofd_write(&mut self, o: usize, data: &[u8], uid: usize) -> Result<Option<usize>, i32> {
        let fl = self.fs.ofds[o].flags;
        if fl & 3 == libc::O_RDONLY {
            return Err(libc::EBADF);
        }
        let nb = fl & libc::O_NONBLOCK != 0;
        match self.fs.ofds[o].obj.clone() {
            Obj::PipeW(p) | Obj::SockEnd(_, p) => {
                if self.recs[uid].exec.is_none() {
                    let step = self.step;
                    self.nulls.push((step, uid));
                }
                let q = &mut self.fs.pipes[p];
                if q.readers == 0 {
                    return Err(libc::EPIPE);
                }
                if data.is_empty() {
                    return Ok(Some(0));
                }
                let free = q.cap.saturating_sub(q.buf.len());
                let n = if data.len() <= PIPE_BUF.min(q.cap) {
                    if free >= data.len() {
                        data.len()
                    } else {
                        0
                    }
                } else {
                    free.min(data.len())
                };
                if n == 0 {
                    return if nb { Err(libc::EAGAIN) } else { Ok(None) };
                }
                q.buf.extend(&data[..n]);
                q.total += n as u64;
                Ok(Some(n))
            }
            Obj::File(i) => {
                let mut off = self.fs.ofds[o].off as usize;
                if let Node::File(d) = &mut self.fs.inodes[i].node {
                    if fl & libc::O_APPEND != 0 {
                        off = d.len();
                    }
                    if off > d.len() {
                        d.resize(off, 0);
                    }
                    let k = data.len().min(d.len() - off);
                    d[off..off + k].copy_from_slice(&data[..k]);
                    d.extend_from_slice(&data[k..]);
                }
                self.fs.ofds[o].off = (off + data.len()) as u64;
                let step = self.step;
                self.fwrites.push((step, uid, i, data.to_vec()));
                Ok(Some(data.len()))
            }
            Obj::Null => {
                let step = self.step;
                self.nulls.push((step, uid));
                Ok(Some(data.len()))
            }
            Obj::Console(_) | Obj::Tty | Obj::Input => {
                let fd = match self.fs.ofds[o].obj {
                    Obj::Console(k) => k,
                    _ => 1,
                };
                let (step, line) = (self.step, self.fed);
                self.outs.push(Out { step, uid, fd, line, data: data.to_vec() });
                Ok(Some(data.len()))
            }
            Obj::PipeR(_) | Obj::Dir(_) => Err(libc::EBADF),
        }
    }

    // ------------------------------------------------------------------ helpers
    fn fin(&mut self, pid: i32, ret: i64, pokes: Pokes) -> bool {
        if let Some(Proc { body: Body::Carrier(c), .. }) = self.procs.get_mut(&pid) {
            c.phase = Phase::Done(ret, pokes);
            c.blocked = false;
            c.held = false;
            c.wake = None;
            c.progress = 0;
        }
        self.mix(ret as u64);
        true
    }
    fn block(&mut self, pid: i32, wake: Option<u64>) -> bool {
        if let Some(Proc { body: Body::Carrier(c), .. }) = self.procs.get_mut(&pid) {
            c.blocked = true;
            if let Some(w) = wake {
                c.wake = Some(w);
            }
        }
        false
    }
    /// (blocked before, timer expired)
    fn again(&self, pid: i32) -> (bool, bool) {
        match &self.procs[&pid].body {
            Body::Carrier(c) => (c.blocked, c.wake.map(|t| t <= self.now).unwrap_or(false)),
            _ => (false, false),
        }
    }
    fn ofd_of(&self, pid: i32, fd: i32) -> Option<usize> {
        self.procs[&pid].fds.get(&fd).map(|x| x.0)
    }
    fn alloc_fd(&self, pid: i32, min: i32) -> Option<i32> {
        let p = &self.procs[&pid];
        (min..p.nofile as i32).find(|f| !p.fds.contains_key(f))
    }
    fn install(&mut self, pid: i32, fd: i32, ofd: usize, cloexec: bool) {
        self.fs.incref(ofd);
        let old = self.procs.get_mut(&pid).unwrap().fds.insert(fd, (ofd, cloexec));
        if let Some((o, _)) = old {
            self.fs.decref(o);
        }
    }
    fn sub_short(&mut self, n: usize) -> usize {
        let pm = self.sc.cfg.short_pm;
        if pm == 0 || n <= 1 {
            return n;
        }
        let d = self.ch.draw(IO, n.min(4096) as u32, |r| if r.pm(pm) { r.below(n.min(4096) as u64) as u32 } else { 0 }) as usize;
        if d > 0 {
            *self.stats.faults.entry("short read or write of the shell".into()).or_insert(0) += 1;
        }
        n - d
    }
    fn stat_node(&self, i: Ino) -> StatInfo {
        let n = &self.fs.inodes[i];
        let size = match &n.node {
            Node::File(d) => d.len() as u64,
            Node::Dir(_) => 4096,
            _ => 0,
        };
        StatInfo { mode: n.mode, size, ino: i as u64 + 2, rdev: if matches!(n.node, Node::Null) { 0x103 } else { 0 } }
    }
    fn stat_ofd(&self, o: usize) -> StatInfo {
        match &self.fs.ofds[o].obj {
            Obj::File(i) | Obj::Dir(i) => self.stat_node(*i),
            Obj::PipeR(p) | Obj::PipeW(p) => StatInfo { mode: 0o10600, size: 0, ino: 100_000 + *p as u64, rdev: 0 },
            Obj::SockEnd(p, _) => StatInfo { mode: 0o140777, size: 0, ino: 100_000 + *p as u64, rdev: 0 },
            Obj::Null => StatInfo { mode: 0o20666, size: 0, ino: 3, rdev: 0x103 },
            Obj::Tty => StatInfo { mode: 0o20620, size: 0, ino: 5, rdev: 0x8801 },
            // the launcher's pipes
            Obj::Input | Obj::Console(_) => StatInfo { mode: 0o10600, size: 0, ino: 99_000, rdev: 0 },
        }
    }
    fn pack_stat(s: &StatInfo) -> Vec<u8> {
        let mut b = vec![0u8; 144];
        b[0..8].copy_from_slice(&1u64.to_le_bytes());
        b[8..16].copy_from_slice(&s.ino.to_le_bytes());
        b[16..24].copy_from_slice(&1u64.to_le_bytes());
        b[24..28].copy_from_slice(&s.mode.to_le_bytes());
        b[40..48].copy_from_slice(&s.rdev.to_le_bytes());
        b[48..56].copy_from_slice(&s.size.to_le_bytes());
        b[56..64].copy_from_slice(&4096u64.to_le_bytes());
        b
    }
    fn pack_statx(s: &StatInfo) -> Vec<u8> {
        let mut b = vec![0u8; 256];
        b[0..4].copy_from_slice(&0x7ffu32.to_le_bytes());
        b[4..8].copy_from_slice(&4096u32.to_le_bytes());
        b[16..20].copy_from_slice(&1u32.to_le_bytes());
        b[28..30].copy_from_slice(&(s.mode as u16).to_le_bytes());
        b[32..40].copy_from_slice(&s.ino.to_le_bytes());
        b[40..48].copy_from_slice(&s.size.to_le_bytes());
        b
    }
    fn dirfd(&self, pid: i32, fd: i64) -> Result<Ino, i32> {
        let fd = fd as i32;
        if fd == libc::AT_FDCWD {
            return Ok(self.procs[&pid].cwd);
        }
        match self.ofd_of(pid, fd).map(|o| self.fs.ofds[o].obj.clone()) {
            Some(Obj::Dir(i)) => Ok(i),
            Some(_) => Err(libc::ENOTDIR),
            None => Err(libc::EBADF),
        }
    }
    fn ours(path: &str) -> bool {
        !(["/dev", "/proc", "/etc", "/sys", "/lib", "/usr"].iter().any(|p| path.starts_with(p)) || path == "script.rsh" || path.starts_with('~') || path.is_empty())
    }
    /// what is known about a pid somebody wants to signal
    fn pid_note(&self, by: i32, pid: i32) -> &'static str {
        if pid <= 0 {
            return match pid {
                0 => "",
                -1 => "everything",
                _ => {
                    if self.procs.values().any(|p| p.pgid == -pid && p.st != PState::Zombie) {
                        ""
                    } else {
                        "empty group"
                    }
                }
            };
        }
        if pid == LAUNCHER || pid == 1 {
            return "outside";
        }
        match self.procs.get(&pid) {
            Some(p) if p.ppid == by || pid == by => "",
            Some(_) => "not a child",
            None => {
                if self.recs.iter().any(|r| r.pid == pid) {
                    "reaped"
                } else {
                    "never started"
                }
            }
        }
    }

    fn wait_match(&self, me: &Proc, id: i32, p: &Proc) -> bool {
        p.ppid == me.pid
            && match id {
                -1 => true,
                0 => p.pgid == me.pgid,
                n if n > 0 => p.pid == n,
                n => p.pgid == -n,
            }
    }
    /// (exists, ready child)
    fn wait_scan(&self, me: &Proc, id: i32, opts: i32) -> (bool, Option<i32>) {
        let mut kids: Vec<&Proc> = self.procs.values().filter(|p| self.wait_match(me, id, p)).collect();
        kids.sort_by_key(|p| p.uid);
        for p in &kids {
            let r = match p.st {
                PState::Zombie => opts & 0x4000_0000u32 as i32 != 0 || true,
                PState::Stopped => p.stop_unrep.is_some() && opts & 2 != 0,
                PState::Running => p.cont_unrep && opts & 8 != 0,
            };
            if r {
                return (true, Some(p.pid));
            }
        }
        (!kids.is_empty(), None)
    }

    pub fn would_block(&self, p: &Proc, r: &Req) -> bool {
        let fdo = |fd: u64| p.fds.get(&(fd as i32)).map(|x| x.0);
        match r.nr {
            0 | 19 => fdo(r.a[0]).map(|o| !self.ofd_readable(o)).unwrap_or(false),
            45 => fdo(r.a[0]).map(|o| !self.ofd_readable(o)).unwrap_or(false),
            1 | 20 | 44 => {
                let n = {
                    let mut it = It { d: &r.data, o: 0 };
                    it.u32() as usize
                };
                let pr = match &p.body {
                    Body::Carrier(c) => c.progress,
                    _ => 0,
                };
                fdo(r.a[0]).map(|o| !self.ofd_writable(o, if pr > 0 { PIPE_BUF + 1 } else { n })).unwrap_or(false)
            }
            61 => {
                let (ex, rd) = self.wait_scan(p, r.a[0] as i32, r.a[2] as i32);
                ex && rd.is_none()
            }
            247 => {
                let (id, o) = waitid_args(r);
                let (ex, rd) = self.wait_scan(p, id, o);
                ex && rd.is_none()
            }
            7 | 271 => self.poll_eval(p, r).0 == 0,
            23 | 270 => self.select_eval(p, r).0 == 0,
            128 => {
                let s = u64at(&r.data, 4);
                p.pend & s == 0
            }
            _ => true, // pause, sigsuspend, sleeps, futex
        }
    }
    fn poll_eval(&self, p: &Proc, r: &Req) -> (i64, Vec<(u64, Vec<u8>)>) {
        let mut it = It { d: &r.data, o: 0 };
        let n = it.u32() as usize / 8;
        let mut cnt = 0;
        let mut pk = vec![];
        for i in 0..n {
            let b = it.take(8).to_vec();
            if b.len() < 8 {
                break;
            }
            let fd = i32::from_le_bytes([b[0], b[1], b[2], b[3]]);
            let ev = u16::from_le_bytes([b[4], b[5]]);
            let mut re = 0u16;
            if fd >= 0 {
                match p.fds.get(&fd) {
                    None => re |= 0x20,
                    Some((o, _)) => {
                        if ev & 1 != 0 && self.ofd_readable(*o) {
                            re |= 1;
                        }
                        if ev & 4 != 0 && self.ofd_writable(*o, 1) {
                            re |= 4;
                        }
                    }
                }
            }
            if re != 0 {
                cnt += 1;
            }
            pk.push((r.a[0] + 8 * i as u64 + 6, re.to_le_bytes().to_vec()));
        }
        (cnt, pk)
    }
    fn select_eval(&self, p: &Proc, r: &Req) -> (i64, Vec<(u64, Vec<u8>)>) {
        let mut it = It { d: &r.data, o: 0 };
        let rd = it.fix().map(|x| x.to_vec());
        let wr = it.fix().map(|x| x.to_vec());
        let n = (r.a[0] as usize).min(1024);
        let (mut ro, mut wo) = (vec![0u8; 128], vec![0u8; 128]);
        let mut cnt = 0;
        for fd in 0..n {
            let on = |v: &Option<Vec<u8>>| v.as_ref().map(|b| b.get(fd / 8).map(|x| x >> (fd % 8) & 1 == 1).unwrap_or(false)).unwrap_or(false);
            if let Some((o, _)) = p.fds.get(&(fd as i32)) {
                if on(&rd) && self.ofd_readable(*o) {
                    ro[fd / 8] |= 1 << (fd % 8);
                    cnt += 1;
                }
                if on(&wr) && self.ofd_writable(*o, 1) {
                    wo[fd / 8] |= 1 << (fd % 8);
                    cnt += 1;
                }
            }
        }
        let by = (n + 63) / 64 * 8;
        let mut pk = vec![];
        if rd.is_some() {
            pk.push((r.a[1], ro[..by].to_vec()));
        }
        if wr.is_some() {
            pk.push((r.a[2], wo[..by].to_vec()));
        }
        (cnt, pk)
    }
    /// Does this (blocking) call of the root shell wait for typed input?
    fn waits_for_input(&self, pid: i32, fd: i32) -> bool {
        pid == ROOT_PID
            && match self.ofd_of(pid, fd).map(|o| &self.fs.ofds[o].obj) {
                Some(Obj::Input) => self.input.is_empty() && !self.input_eof,
                Some(Obj::Tty) => self.tty.inq.is_empty() && !self.tty.hup,
                _ => false,
            }
    }

    // ------------------------------------------------------------------ the dispatcher
    pub fn do_syscall(&mut self, pid: i32, r: Req) -> bool {
        let a = r.a;
        let uid = self.procs[&pid].uid;
        let first = !self.again(pid).0;
        if first {
            self.mix((r.nr as u64) << 8 ^ uid as u64);
        }
        if self.log.is_some() && first {
            let t = self.trace(pid, &r);
            self.note(|| t);
        }
        let e = |x: i32| -(x as i64);
        let mut it = It { d: &r.data, o: 0 };
        macro_rules! ret {
            ($v:expr) => {
                return self.fin(pid, $v, vec![])
            };
            ($v:expr, $p:expr) => {
                return self.fin(pid, $v, $p)
            };
        }
        macro_rules! fdo {
            ($fd:expr) => {
                match self.ofd_of(pid, $fd as i32) {
                    Some(o) => o,
                    None => ret!(e(libc::EBADF)),
                }
            };
        }
        match r.nr {
            // ------------------------------------------------ read
            0 | 45 | 19 | 17 => {
                let fd = a[0] as i32;
                let o = fdo!(fd);
                let iov: Vec<(u64, usize)> = if r.nr == 19 {
                    let n = it.u32() as usize / 16;
                    (0..n)
                        .map(|_| {
                            let b = it.take(16);
                            (u64at(b, 0), u64at(b, 8) as usize)
                        })
                        .collect()
                } else {
                    vec![(a[1], a[2] as usize)]
                };
                let mut max: usize = iov.iter().map(|x| x.1).sum::<usize>().min(65536);
                if max == 0 {
                    ret!(0);
                }
                if let Obj::File(_) = self.fs.ofds[o].obj {
                    let pm = self.sc.cfg.f_read;
                    if let Some(x) = self.fault(pid, "read", pm, &[libc::EIO]) {
                        ret!(e(x));
                    }
                }
                if self.ofd_readable(o) {
                    let off = if r.nr == 17 { Some(a[3]) } else { None };
                    max = self.sub_short(max.min(self.ofd_avail(o, off).max(1)));
                }
                let save = self.fs.ofds[o].off;
                if r.nr == 17 {
                    self.fs.ofds[o].off = a[3];
                }
                let res = self.ofd_read(o, max);
                if r.nr == 17 {
                    self.fs.ofds[o].off = save;
                }
                match res {
                    Err(x) => ret!(e(x)),
                    Ok(Some(d)) => {
                        if d.is_empty() && pid == ROOT_PID && matches!(self.fs.ofds[o].obj, Obj::Input | Obj::Tty) {
                            self.root_fin = true;
                        }
                        let mut pk = vec![];
                        let mut k = 0;
                        for (ad, l) in iov {
                            let n = l.min(d.len() - k);
                            if n > 0 {
                                pk.push((ad, d[k..k + n].to_vec()));
                            }
                            k += n;
                        }
                        ret!(d.len() as i64, pk)
                    }
                    Ok(None) => {
                        let b = self.block(pid, None);
                        if self.waits_for_input(pid, fd) {
                            self.reached_prompt();
                        }
                        return b;
                    }
                }
            }
            // ------------------------------------------------ write
            1 | 44 | 20 | 18 => {
                let o = fdo!(a[0]);
                let n = it.u32() as usize;
                let d = it.take(n).to_vec();
                let pr = match &self.procs[&pid].body {
                    Body::Carrier(c) => c.progress,
                    _ => 0,
                };
                let d = &d[pr.min(d.len())..];
                let mut lim = d.len();
                if let Obj::File(_) = self.fs.ofds[o].obj {
                    let pm = self.sc.cfg.f_write;
                    if let Some(x) = self.fault(pid, "write", pm, &[libc::ENOSPC, libc::EIO]) {
                        ret!(e(x));
                    }
                }
                if let Obj::Console(_) = self.fs.ofds[o].obj {
                    let pm = self.sc.cfg.f_out;
                    if let Some(x) = self.fault(pid, "output", pm, &[libc::ENOSPC, libc::EIO]) {
                        ret!(e(x));
                    }
                }
                // (what a handler prints could come between the two halves of a line)
                let whole = match self.fs.ofds[o].obj {
                    Obj::PipeW(_) | Obj::SockEnd(..) => true,
                    Obj::Console(_) | Obj::Tty => self.sc.cfg.sig_max > 0,
                    _ => false,
                };
                if !whole && pr == 0 {
                    lim = self.sub_short(lim);
                }
                let save = self.fs.ofds[o].off;
                if r.nr == 18 {
                    self.fs.ofds[o].off = a[3];
                }
                let res = self.ofd_write(o, &d[..lim], uid);
                if r.nr == 18 {
                    self.fs.ofds[o].off = save;
                }
                match res {
                    Err(x) => {
                        if x == libc::EPIPE && !(r.nr == 44 && a[3] & 0x4000 != 0) {
                            self.send_signal(pid, SIGPIPE);
                        }
                        if pr > 0 {
                            ret!(pr as i64)
                        }
                        ret!(e(x))
                    }
                    Ok(None) => return self.block(pid, None),
                    Ok(Some(k)) => {
                        let isp = matches!(self.fs.ofds[o].obj, Obj::PipeW(_));
                        if isp && k < d.len() && self.fs.ofds[o].flags & libc::O_NONBLOCK == 0 {
                            if let Some(Proc { body: Body::Carrier(c), .. }) = self.procs.get_mut(&pid) {
                                c.progress = pr + k;
                            }
                            return self.block(pid, None);
                        }
                        ret!((pr + k) as i64)
                    }
                }
            }
            // ------------------------------------------------ open
            2 | 257 | 85 => {
                let (dfd, path, flags, mode) = match r.nr {
                    2 => (libc::AT_FDCWD as i64, it.str(), a[1] as i32, a[2] as u32),
                    85 => (libc::AT_FDCWD as i64, it.str(), libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, a[1] as u32),
                    _ => (a[0] as i32 as i64, it.str(), a[2] as i32, a[3] as u32),
                };
                if flags & libc::O_DIRECTORY != 0 && pid == ROOT_PID {
                    let pm = self.sc.cfg.f_dir;
                    if let Some(x) = self.fault(pid, "open directory", pm, &[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOMEM]) {
                        ret!(e(x));
                    }
                }
                let rv = self.sys_open(pid, dfd, &path, flags, mode);
                if Self::ours(&path) {
                    let st = self.step;
                    self.recs[uid].opened.push((st, path.clone(), flags, rv));
                    self.ev(Ev::Open { uid, path, flags, ret: rv });
                }
                ret!(rv)
            }
            3 => {
                let p = self.procs.get_mut(&pid).unwrap();
                match p.fds.remove(&(a[0] as i32)) {
                    Some((o, _)) => {
                        self.fs.decref(o);
                        ret!(0)
                    }
                    None => ret!(e(libc::EBADF)),
                }
            }
            // ------------------------------------------------ stat family
            4 | 6 | 262 | 332 => {
                let (dfd, path, fl, buf) = match r.nr {
                    4 | 6 => (libc::AT_FDCWD as i64, it.str(), 0, a[1]),
                    262 => (a[0] as i32 as i64, it.str(), a[3] as i32, a[2]),
                    _ => (a[0] as i32 as i64, it.str(), a[2] as i32, a[4]),
                };
                if r.nr == 332 && buf == 0 {
                    ret!(e(libc::EFAULT));
                }
                let s = if path.is_empty() && fl & 0x1000 != 0 {
                    if dfd as i32 == libc::AT_FDCWD {
                        let c = self.procs[&pid].cwd;
                        self.stat_node(c)
                    } else {
                        let o = fdo!(dfd);
                        self.stat_ofd(o)
                    }
                } else {
                    let d = match self.dirfd(pid, dfd) {
                        Ok(d) => d,
                        Err(x) => ret!(e(x)),
                    };
                    if Fs::is_prog(path.rsplit('/').next().unwrap_or("")) {
                        let pm = self.sc.cfg.f_stat;
                        if let Some(x) = self.fault(pid, "stat", pm, &[libc::EACCES, libc::EIO, libc::ELOOP, libc::ENOMEM]) {
                            let at = if path.starts_with('/') { Some("/".to_string()) } else { self.fs.path_of(d) };
                            if let Some(at) = at {
                                self.recs[uid].stat_fail.push(crate::oracle::abs(&at, &path));
                            }
                            ret!(e(x));
                        }
                    }
                    let nofollow = r.nr == 6 || r.nr != 4 && fl & 0x100 != 0;
                    match if nofollow { self.fs.lwalk(d, &path) } else { self.fs.walk(d, &path) } {
                        Ok((_, _, Some(i))) => self.stat_node(i),
                        Ok(_) => ret!(e(libc::ENOENT)),
                        Err(x) => ret!(e(x)),
                    }
                };
                let b = if r.nr == 332 { Self::pack_statx(&s) } else { Self::pack_stat(&s) };
                ret!(0, vec![(buf, b)])
            }
            5 => {
                let o = fdo!(a[0]);
                let s = self.stat_ofd(o);
                ret!(0, vec![(a[1], Self::pack_stat(&s))])
            }
            21 | 269 | 439 => {
                let (dfd, path, m) = if r.nr == 21 { (libc::AT_FDCWD as i64, it.str(), a[1]) } else { (a[0] as i32 as i64, it.str(), a[2]) };
                let d = match self.dirfd(pid, dfd) {
                    Ok(d) => d,
                    Err(x) => ret!(e(x)),
                };
                match self.fs.walk(d, &path) {
                    Ok((_, _, Some(i))) => {
                        if m & 1 != 0 && self.fs.inodes[i].mode & 0o111 == 0 {
                            ret!(e(libc::EACCES))
                        }
                        ret!(0)
                    }
                    Ok(_) => ret!(e(libc::ENOENT)),
                    Err(x) => ret!(e(x)),
                }
            }
            // ------------------------------------------------ poll, select
            7 | 271 => {
                let (cnt, pk) = self.poll_eval(&self.procs[&pid], &r);
                let to = if r.nr == 7 {
                    let ms = a[2] as i32;
                    if ms < 0 {
                        None
                    } else {
                        Some(ms as u64 * 1_000_000)
                    }
                } else {
                    let n = it.u32() as usize;
                    it.take(n);
                    it.fix().map(ts_ns)
                };
                let (_, late) = self.again(pid);
                if cnt > 0 || late || to == Some(0) {
                    ret!(cnt, pk)
                }
                let w = if first { to.map(|t| self.now + t) } else { None };
                let fds: Vec<i32> = r.data[4..].chunks(8).filter(|c| c.len() == 8).map(|b| i32::from_le_bytes([b[0], b[1], b[2], b[3]])).collect();
                self.block(pid, w);
                if to.is_none() && fds.iter().any(|f| self.waits_for_input(pid, *f)) {
                    self.reached_prompt();
                }
                return false;
            }
            23 | 270 => {
                let (cnt, pk) = self.select_eval(&self.procs[&pid], &r);
                let rd = it.fix();
                it.fix();
                let to = it.fix().map(|b| if r.nr == 23 { u64at(b, 0) * 1_000_000_000 + u64at(b, 8) * 1000 } else { ts_ns(b) });
                let (_, late) = self.again(pid);
                if cnt > 0 || late || to == Some(0) {
                    ret!(cnt, pk)
                }
                let fds: Vec<i32> = rd.map(|b| (0..(b.len() * 8) as i32).filter(|f| b[*f as usize / 8] >> (f % 8) & 1 == 1).collect()).unwrap_or_default();
                let w = if first { to.map(|t| self.now + t) } else { None };
                self.block(pid, w);
                if to.is_none() && fds.iter().any(|f| self.waits_for_input(pid, *f)) {
                    self.reached_prompt();
                }
                return false;
            }
            8 => {
                let o = fdo!(a[0]);
                let size = match &self.fs.ofds[o].obj {
                    Obj::File(i) => match &self.fs.inodes[*i].node {
                        Node::File(d) => d.len() as i64,
                        _ => 0,
                    },
                    Obj::Dir(_) | Obj::Null => 0,
                    _ => ret!(e(libc::ESPIPE)),
                };
                let base = match a[2] {
                    0 => 0,
                    1 => self.fs.ofds[o].off as i64,
                    2 => size,
                    _ => ret!(e(libc::EINVAL)),
                };
                let n = base + a[1] as i64;
                if n < 0 {
                    ret!(e(libc::EINVAL));
                }
                self.fs.ofds[o].off = n as u64;
                ret!(n)
            }
            // ------------------------------------------------ signals
            13 => {
                let s = a[0] as i32;
                if !(1..65).contains(&s) {
                    ret!(e(libc::EINVAL));
                }
                let p = self.procs.get_mut(&pid).unwrap();
                let old = p.disp[s as usize];
                if let Some(b) = it.fix() {
                    if s == SIGKILL || s == SIGSTOP {
                        ret!(e(libc::EINVAL));
                    }
                    p.disp[s as usize] = Disp { h: u64at(b, 0), flags: u64at(b, 8), restorer: u64at(b, 16), mask: u64at(b, 24) };
                    let d = p.disp[s as usize];
                    if d.h == 1 || d.h == 0 && matches!(s, 17 | 18 | 23 | 28) {
                        p.pend &= !bit(s);
                    }
                }
                let mut pk = vec![];
                if a[2] != 0 {
                    let mut b = vec![];
                    for x in [old.h, old.flags, old.restorer, old.mask] {
                        b.extend_from_slice(&x.to_le_bytes());
                    }
                    pk.push((a[2], b));
                }
                ret!(0, pk)
            }
            14 => {
                let p = self.procs.get_mut(&pid).unwrap();
                let old = p.mask;
                if let Some(b) = it.fix() {
                    let m = u64at(b, 0);
                    match a[0] {
                        0 => p.mask |= m,
                        1 => p.mask &= !m,
                        2 => p.mask = m,
                        _ => ret!(e(libc::EINVAL)),
                    }
                    p.mask &= !(bit(SIGKILL) | bit(SIGSTOP));
                }
                let pk = if a[2] != 0 { vec![(a[2], old.to_le_bytes().to_vec())] } else { vec![] };
                ret!(0, pk)
            }
            130 => {
                if first {
                    let m = it.fix().map(|b| u64at(b, 0)).unwrap_or(0);
                    let p = self.procs.get_mut(&pid).unwrap();
                    let old = p.mask;
                    p.mask = m & !(bit(SIGKILL) | bit(SIGSTOP));
                    if let Body::Carrier(c) = &mut p.body {
                        c.saved_mask = Some(old);
                    }
                }
                return self.block(pid, None);
            }
            34 => return self.block(pid, None),
            128 => {
                let set = it.fix().map(|b| u64at(b, 0)).unwrap_or(0);
                let to = it.fix().map(ts_ns);
                let p = self.procs.get_mut(&pid).unwrap();
                let hit = p.pend & set;
                if hit != 0 {
                    let s = hit.trailing_zeros() as i64 + 1;
                    p.pend &= !bit(s as i32);
                    let pk = if a[1] != 0 {
                        let mut b = vec![0u8; 128];
                        b[0..4].copy_from_slice(&(s as i32).to_le_bytes());
                        vec![(a[1], b)]
                    } else {
                        vec![]
                    };
                    ret!(s, pk)
                }
                let (_, late) = self.again(pid);
                if late || to == Some(0) {
                    ret!(e(libc::EAGAIN))
                }
                let w = if first { to.map(|t| self.now + t) } else { None };
                return self.block(pid, w);
            }
            127 => {
                let p = &self.procs[&pid];
                let v = p.pend & p.mask;
                ret!(0, vec![(a[0], v.to_le_bytes().to_vec())])
            }
            131 => {
                let pk = if a[1] != 0 {
                    let mut b = vec![0u8; 24];
                    b[8..12].copy_from_slice(&2u32.to_le_bytes());
                    vec![(a[1], b)]
                } else {
                    vec![]
                };
                ret!(0, pk)
            }
            62 => {
                let rv = self.sys_kill(pid, a[0] as i32, a[1] as i32);
                ret!(rv)
            }
            200 | 234 => {
                let (t, s) = if r.nr == 200 { (a[0] as i32, a[1] as i32) } else { (a[1] as i32, a[2] as i32) };
                let rv = self.sys_kill(pid, t, s);
                ret!(rv)
            }
            // ------------------------------------------------ ioctl, fcntl
            16 => {
                let o = fdo!(a[0]);
                let tty = self.fs.ofds[o].obj == Obj::Tty;
                match a[1] {
                    0x5401 => {
                        if !tty {
                            ret!(e(libc::ENOTTY))
                        }
                        let t = self.tty.termios.to_vec();
                        ret!(0, vec![(a[2], t)])
                    }
                    0x5402..=0x5404 => {
                        if !tty {
                            ret!(e(libc::ENOTTY))
                        }
                        if let Some(b) = it.fix() {
                            if b.len() == 36 {
                                self.tty.termios.copy_from_slice(b);
                            }
                        }
                        ret!(0)
                    }
                    0x5413 => {
                        if !tty {
                            ret!(e(libc::ENOTTY))
                        }
                        ret!(0, vec![(a[2], vec![24, 0, 80, 0, 0, 0, 0, 0])])
                    }
                    0x540f => {
                        if !tty {
                            ret!(e(libc::ENOTTY))
                        }
                        let g = self.tty.fg;
                        ret!(0, vec![(a[2], g.to_le_bytes().to_vec())])
                    }
                    0x5410 => {
                        if !tty {
                            ret!(e(libc::ENOTTY))
                        }
                        if let Some(b) = it.fix() {
                            self.tty.fg = i32::from_le_bytes([b[0], b[1], b[2], b[3]]);
                        }
                        ret!(0)
                    }
                    0x541b => {
                        let n = match &self.fs.ofds[o].obj {
                            Obj::PipeR(p) | Obj::SockEnd(p, _) => self.fs.pipes[*p].buf.len(),
                            Obj::Input => self.input.len(),
                            Obj::Tty => self.tty.inq.len(),
                            _ => 0,
                        } as i32;
                        ret!(0, vec![(a[2], n.to_le_bytes().to_vec())])
                    }
                    0x5451 | 0x5450 => {
                        if let Some(x) = self.procs.get_mut(&pid).unwrap().fds.get_mut(&(a[0] as i32)) {
                            x.1 = a[1] == 0x5451;
                        }
                        ret!(0)
                    }
                    0x5421 => {
                        let on = it.fix().map(|b| b.iter().take(4).any(|x| *x != 0)).unwrap_or(false);
                        if on {
                            self.fs.ofds[o].flags |= libc::O_NONBLOCK;
                        } else {
                            self.fs.ofds[o].flags &= !libc::O_NONBLOCK;
                        }
                        ret!(0)
                    }
                    _ => ret!(e(libc::ENOTTY)),
                }
            }
            72 => {
                let fd = a[0] as i32;
                let o = fdo!(fd);
                match a[1] as i32 {
                    libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                        let pm = self.sc.cfg.f_open;
                        if let Some(x) = self.fault(pid, "dup", pm / 2, &[libc::EMFILE]) {
                            ret!(e(x));
                        }
                        match self.alloc_fd(pid, a[2] as i32) {
                            Some(n) => {
                                self.install(pid, n, o, a[1] as i32 == libc::F_DUPFD_CLOEXEC);
                                ret!(n as i64)
                            }
                            None => {
                        self.limit(pid, "descriptor limit", libc::EMFILE);
                        ret!(e(libc::EMFILE))
                    },
                        }
                    }
                    libc::F_GETFD => ret!(self.procs[&pid].fds[&fd].1 as i64),
                    libc::F_SETFD => {
                        self.procs.get_mut(&pid).unwrap().fds.get_mut(&fd).unwrap().1 = a[2] & 1 != 0;
                        ret!(0)
                    }
                    libc::F_GETFL => ret!(self.fs.ofds[o].flags as i64),
                    libc::F_SETFL => {
                        let m = libc::O_APPEND | libc::O_NONBLOCK;
                        self.fs.ofds[o].flags = self.fs.ofds[o].flags & !m | a[2] as i32 & m;
                        ret!(0)
                    }
                    1032 => ret!(self.fs.pipe_cap as i64),
                    1031 => match &self.fs.ofds[o].obj {
                        Obj::PipeR(p) | Obj::PipeW(p) => {
                            let p = *p;
                            let n = (a[2] as usize).clamp(4096, 1 << 20);
                            self.fs.pipes[p].cap = n;
                            ret!(n as i64)
                        }
                        _ => ret!(e(libc::EBADF)),
                    },
                    _ => ret!(0),
                }
            }
            // ------------------------------------------------ pipes and dups
            22 | 293 => {
                let fl = if r.nr == 293 { a[1] as i32 } else { 0 };
                let pm = self.sc.cfg.f_pipe;
                if let Some(x) = self.fault(pid, "pipe", pm, &[libc::EMFILE, libc::ENFILE]) {
                    ret!(e(x));
                }
                let f1 = self.alloc_fd(pid, 0);
                let f2 = f1.and_then(|f| self.alloc_fd(pid, f + 1));
                let (f1, f2) = match (f1, f2) {
                    (Some(x), Some(y)) => (x, y),
                    _ => {
                        self.limit(pid, "descriptor limit", libc::EMFILE);
                        ret!(e(libc::EMFILE))
                    },
                };
                let (ro, wo) = self.fs.new_pipe(pid);
                self.fs.ofds[ro].flags |= fl & libc::O_NONBLOCK;
                self.fs.ofds[wo].flags |= fl & libc::O_NONBLOCK;
                let cx = fl & libc::O_CLOEXEC != 0;
                self.install(pid, f1, ro, cx);
                self.install(pid, f2, wo, cx);
                // new_ofd already counts; an ofd starts with no references
                let mut b = f1.to_le_bytes().to_vec();
                b.extend_from_slice(&f2.to_le_bytes());
                ret!(0, vec![(a[0], b)])
            }
            53 => {
                let f1 = self.alloc_fd(pid, 0);
                let f2 = f1.and_then(|f| self.alloc_fd(pid, f + 1));
                let (f1, f2) = match (f1, f2) {
                    (Some(x), Some(y)) => (x, y),
                    _ => {
                        self.limit(pid, "descriptor limit", libc::EMFILE);
                        ret!(e(libc::EMFILE))
                    },
                };
                let cap = self.fs.pipe_cap.max(4096);
                for _ in 0..2 {
                    self.fs.pipes.push(Pipe { cap, maker: pid, ..Default::default() });
                }
                let n = self.fs.pipes.len();
                let x = self.fs.new_ofd(Obj::SockEnd(n - 2, n - 1), libc::O_RDWR | a[1] as i32 & libc::O_NONBLOCK);
                let y = self.fs.new_ofd(Obj::SockEnd(n - 1, n - 2), libc::O_RDWR | a[1] as i32 & libc::O_NONBLOCK);
                let cx = a[1] as i32 & libc::O_CLOEXEC != 0;
                self.install(pid, f1, x, cx);
                self.install(pid, f2, y, cx);
                let mut b = f1.to_le_bytes().to_vec();
                b.extend_from_slice(&f2.to_le_bytes());
                ret!(0, vec![(a[3], b)])
            }
            32 => {
                let o = fdo!(a[0]);
                let pm = self.sc.cfg.f_open;
                if let Some(x) = self.fault(pid, "dup", pm / 2, &[libc::EMFILE]) {
                    ret!(e(x));
                }
                match self.alloc_fd(pid, 0) {
                    Some(n) => {
                        self.install(pid, n, o, false);
                        ret!(n as i64)
                    }
                    None => {
                        self.limit(pid, "descriptor limit", libc::EMFILE);
                        ret!(e(libc::EMFILE))
                    },
                }
            }
            33 | 292 => {
                let o = fdo!(a[0]);
                let n = a[1] as i32;
                if n < 0 || n >= self.procs[&pid].nofile as i32 {
                    if n >= 0 {
                        self.limit(pid, "descriptor limit", libc::EBADF);
                    }
                    ret!(e(libc::EBADF))
                }
                if a[0] as i32 == n {
                    if r.nr == 292 {
                        ret!(e(libc::EINVAL))
                    }
                    ret!(n as i64)
                }
                self.install(pid, n, o, r.nr == 292 && a[2] as i32 & libc::O_CLOEXEC != 0);
                ret!(n as i64)
            }
            // ------------------------------------------------ identity
            39 | 186 => ret!(pid as i64),
            110 => ret!(self.procs[&pid].ppid as i64),
            102 | 104 | 107 | 108 => ret!(1000),
            111 => ret!(self.procs[&pid].pgid as i64),
            121 => {
                let t = if a[0] == 0 { pid } else { a[0] as i32 };
                match self.procs.get(&t) {
                    Some(p) => ret!(p.pgid as i64),
                    None => ret!(e(libc::ESRCH)),
                }
            }
            124 => {
                let t = if a[0] == 0 { pid } else { a[0] as i32 };
                match self.procs.get(&t) {
                    Some(p) => ret!(p.sid as i64),
                    None => ret!(e(libc::ESRCH)),
                }
            }
            112 => {
                let p = self.procs.get_mut(&pid).unwrap();
                if p.pgid == pid {
                    ret!(e(libc::EPERM))
                }
                p.sid = pid;
                p.pgid = pid;
                ret!(pid as i64)
            }
            109 => {
                let rv = self.sys_setpgid(pid, a[0] as i32, a[1] as i32);
                ret!(rv)
            }
            218 => ret!(pid as i64),
            157 => ret!(0),
            // ------------------------------------------------ processes
            56 | 57 | 58 => {
                let pm = self.sc.cfg.f_fork;
                if let Some(x) = self.fault(pid, "fork", pm, &[libc::EAGAIN, libc::ENOMEM]) {
                    ret!(e(x));
                }
                if self.sc.cfg.nproc > 0 && self.procs.len() as u32 >= self.sc.cfg.nproc && !self.procs.is_empty() {
                    self.limit(pid, "process limit", libc::EAGAIN);
                    ret!(e(libc::EAGAIN));
                }
                let fl = if r.nr == 56 { a[0] } else { 0 };
                if fl & 0x10000 != 0 && pid == ROOT_PID && self.sc.cfg.mode == Mode::Tty {
                    // the list of completions is another program (skim), in threads: the run ends here
                    let n = self.fed;
                    self.ev(Ev::Chooser(n));
                    self.ended = Some("chooser".into());
                    return self.block(pid, None);
                }
                if fl & 0x10000 != 0 {
                    // threads are not part of the shell
                    *self.stats.unknown.entry(-56).or_insert(0) += 1;
                    ret!(e(libc::EAGAIN))
                }
                let ctid = if fl & 0x0100_0000 != 0 { a[3] } else { 0 };
                let ptid = if fl & 0x0010_0000 != 0 { a[2] } else { 0 };
                let nsp = if r.nr == 56 { a[1] } else { 0 };
                let rv = self.sys_fork(pid, ctid, ptid, nsp);
                ret!(rv)
            }
            435 => ret!(e(libc::ENOSYS)),
            59 => {
                let path = it.str();
                let argv = it.strs();
                let envp = it.strs();
                // the longest argument Linux accepts is 128 KiB; what does not fit into the
                // transfer area counts as too long in total
                if r.data.len() >= DATASZ || argv.iter().chain(envp.iter()).any(|s| s.len() >= 131_072) {
                    self.limit(pid, "argument size limit", libc::E2BIG);
                    self.recs[uid].exec_fail.push((path.clone(), libc::E2BIG));
                    self.ev(Ev::ExecFail { uid, path, err: libc::E2BIG });
                    ret!(e(libc::E2BIG))
                }
                match self.sys_exec(pid, &path, argv, envp) {
                    Ok(()) => return false,
                    Err(x) => {
                        self.recs[uid].exec_fail.push((path.clone(), x));
                        self.ev(Ev::ExecFail { uid, path, err: x });
                        ret!(e(x))
                    }
                }
            }
            60 | 231 => {
                self.terminate(pid, (a[0] as i32 & 0xff) << 8);
                return false;
            }
            61 | 247 => {
                let (id, opts) = if r.nr == 61 { (a[0] as i32, a[2] as i32) } else { waitid_args(&r) };
                let (ex, rd) = self.wait_scan(&self.procs[&pid], id, opts);
                let c = match rd {
                    Some(c) => c,
                    None => {
                        if !ex {
                            ret!(e(libc::ECHILD))
                        }
                        if opts & 1 != 0 {
                            if r.nr == 247 && a[2] != 0 {
                                ret!(0, vec![(a[2], vec![0u8; 128])])
                            }
                            ret!(0)
                        }
                        return self.block(pid, None);
                    }
                };
                let cp = self.procs.get_mut(&c).unwrap();
                let cu = cp.uid;
                let keep = r.nr == 247 && opts & 0x0100_0000 != 0;
                let st = match cp.st {
                    PState::Zombie => cp.status,
                    PState::Stopped => {
                        let s = cp.stop_unrep.unwrap_or(SIGSTOP);
                        if !keep {
                            cp.stop_unrep = None;
                        }
                        (s << 8) | 0x7f
                    }
                    PState::Running => {
                        if !keep {
                            cp.cont_unrep = false;
                        }
                        0xffff
                    }
                };
                if cp.st == PState::Zombie && !keep {
                    let step = self.step;
                    self.recs[cu].reaped = Some(step);
                    self.procs.remove(&c);
                }
                if !keep {
                    self.ev(Ev::Reap { by: uid, uid: cu, status: st });
                }
                if r.nr == 61 {
                    let mut pk = vec![];
                    if a[1] != 0 {
                        pk.push((a[1], st.to_le_bytes().to_vec()));
                    }
                    if a[3] != 0 {
                        pk.push((a[3], vec![0u8; 144]));
                    }
                    ret!(c as i64, pk)
                }
                let mut b = vec![0u8; 128];
                let (code, val) = if st == 0xffff {
                    (6, SIGCONT)
                } else if st & 0xff == 0x7f {
                    (5, st >> 8)
                } else if st & 0x7f == 0 {
                    (1, st >> 8)
                } else {
                    (if st & 0x80 != 0 { 3 } else { 2 }, st & 0x7f)
                };
                b[0..4].copy_from_slice(&17i32.to_le_bytes());
                b[8..12].copy_from_slice(&(code as i32).to_le_bytes());
                b[12..16].copy_from_slice(&c.to_le_bytes());
                b[16..20].copy_from_slice(&1000i32.to_le_bytes());
                b[20..24].copy_from_slice(&(val as i32).to_le_bytes());
                let pk = if a[2] != 0 { vec![(a[2], b)] } else { vec![] };
                ret!(0, pk)
            }
            // ------------------------------------------------ directories and files
            79 => {
                let pm = self.sc.cfg.f_chdir;
                if let Some(x) = self.fault(pid, "getcwd", pm, &[libc::ENOENT, libc::EACCES, libc::ENOMEM]) {
                    ret!(e(x))
                }
                let c = self.procs[&pid].cwd;
                match self.fs.path_of(c) {
                    Some(s) => {
                        let mut b = s.into_bytes();
                        b.push(0);
                        if b.len() > a[1] as usize {
                            ret!(e(libc::ERANGE))
                        }
                        let n = b.len() as i64;
                        ret!(n, vec![(a[0], b)])
                    }
                    None => ret!(e(libc::ENOENT)),
                }
            }
            80 | 81 => {
                let (path, res) = if r.nr == 80 {
                    let path = it.str();
                    let pm = self.sc.cfg.f_chdir;
                    let cwd = self.procs[&pid].cwd;
                    let res = match self.fault(pid, "chdir", pm, &[libc::EACCES, libc::EIO, libc::ENOMEM]) {
                        Some(x) => Err(x),
                        None => match self.fs.walk(cwd, &path) {
                            Ok((_, _, Some(i))) => Ok(i),
                            Ok(_) => Err(libc::ENOENT),
                            Err(x) => Err(x),
                        },
                    };
                    (path, res)
                } else {
                    let o = fdo!(a[0]);
                    match self.fs.ofds[o].obj {
                        Obj::Dir(i) => (String::new(), Ok(i)),
                        _ => (String::new(), Err(libc::ENOTDIR)),
                    }
                };
                let rv = match res {
                    Ok(i) if matches!(self.fs.inodes[i].node, Node::Dir(_)) => {
                        self.procs.get_mut(&pid).unwrap().cwd = i;
                        0
                    }
                    Ok(_) => e(libc::ENOTDIR),
                    Err(x) => e(x),
                };
                self.ev(Ev::Chdir { uid, path, ret: rv });
                ret!(rv)
            }
            83 | 258 => {
                let (dfd, path) = if r.nr == 83 { (libc::AT_FDCWD as i64, it.str()) } else { (a[0] as i32 as i64, it.str()) };
                let d = match self.dirfd(pid, dfd) {
                    Ok(d) => d,
                    Err(x) => ret!(e(x)),
                };
                match self.fs.walk(d, &path) {
                    Ok((_, _, Some(_))) => ret!(e(libc::EEXIST)),
                    Ok((p, n, None)) => {
                        self.fs.add(p, &n, Node::Dir(Default::default()), 0o40755);
                        ret!(0)
                    }
                    Err(x) => ret!(e(x)),
                }
            }
            84 | 87 | 263 => {
                let (dfd, path, dir) = match r.nr {
                    84 => (libc::AT_FDCWD as i64, it.str(), true),
                    87 => (libc::AT_FDCWD as i64, it.str(), false),
                    _ => (a[0] as i32 as i64, it.str(), a[2] & 0x200 != 0),
                };
                let d = match self.dirfd(pid, dfd) {
                    Ok(d) => d,
                    Err(x) => ret!(e(x)),
                };
                let rv = match self.fs.lwalk(d, &path) {
                    Ok((p, n, Some(_))) => match self.fs.unlink_at(p, &n, dir) {
                        Ok(()) => 0,
                        Err(x) => e(x),
                    },
                    Ok(_) => e(libc::ENOENT),
                    Err(x) => e(x),
                };
                ret!(rv)
            }
            82 | 264 | 316 => {
                let (d1, p1, d2, p2) = if r.nr == 82 {
                    let x = it.str();
                    (libc::AT_FDCWD as i64, x, libc::AT_FDCWD as i64, it.str())
                } else {
                    let x = it.str();
                    (a[0] as i32 as i64, x, a[2] as i32 as i64, it.str())
                };
                let (d1, d2) = match (self.dirfd(pid, d1), self.dirfd(pid, d2)) {
                    (Ok(x), Ok(y)) => (x, y),
                    (Err(x), _) | (_, Err(x)) => ret!(e(x)),
                };
                let s = self.fs.lwalk(d1, &p1);
                let t = self.fs.lwalk(d2, &p2);
                match (s, t) {
                    (Ok((sp, sn, Some(si))), Ok((tp, tn, ti))) => {
                        if let Some(ti) = ti {
                            self.fs.inodes[ti].nlink = 0;
                        }
                        if let Node::Dir(m) = &mut self.fs.inodes[sp].node {
                            m.remove(&sn);
                        }
                        if let Node::Dir(m) = &mut self.fs.inodes[tp].node {
                            m.insert(tn, si);
                        }
                        self.fs.inodes[si].parent = tp;
                        ret!(0)
                    }
                    (Err(x), _) | (_, Err(x)) => ret!(e(x)),
                    _ => ret!(e(libc::ENOENT)),
                }
            }
            77 => {
                let o = fdo!(a[0]);
                if let Obj::File(i) = self.fs.ofds[o].obj {
                    if let Node::File(d) = &mut self.fs.inodes[i].node {
                        d.resize((a[1] as usize).min(1 << 24), 0);
                    }
                    ret!(0)
                }
                ret!(e(libc::EINVAL))
            }
            76 => {
                let path = it.str();
                let cwd = self.procs[&pid].cwd;
                match self.fs.walk(cwd, &path) {
                    Ok((_, _, Some(i))) => {
                        if let Node::File(d) = &mut self.fs.inodes[i].node {
                            d.resize((a[1] as usize).min(1 << 24), 0);
                        }
                        ret!(0)
                    }
                    Ok(_) => ret!(e(libc::ENOENT)),
                    Err(x) => ret!(e(x)),
                }
            }
            89 | 267 => {
                let (dfd, path, buf, len) = if r.nr == 89 { (libc::AT_FDCWD as i64, it.str(), a[1], a[2]) } else { (a[0] as i32 as i64, it.str(), a[2], a[3]) };
                let d = match self.dirfd(pid, dfd) {
                    Ok(d) => d,
                    Err(x) => ret!(e(x)),
                };
                match self.fs.lwalk(d, &path) {
                    Ok((_, _, Some(i))) => match self.fs.inodes[i].node.clone() {
                        Node::Link(t) => {
                            let t = t.as_bytes()[..t.len().min(len as usize)].to_vec();
                            ret!(t.len() as i64, vec![(buf, t)])
                        }
                        _ => ret!(e(libc::EINVAL)),
                    },
                    Ok(_) => ret!(e(libc::ENOENT)),
                    Err(x) => ret!(e(x)),
                }
            }
            90 | 91 | 92 | 93 | 94 | 260 | 268 | 73 | 74 | 75 => ret!(0),
            217 => {
                let o = fdo!(a[0]);
                let names: Vec<(String, Ino)> = match &self.fs.ofds[o].obj {
                    Obj::Dir(i) => match &self.fs.inodes[*i].node {
                        Node::Dir(m) => m.iter().map(|(k, v)| (k.clone(), *v)).collect(),
                        _ => vec![],
                    },
                    _ => ret!(e(libc::ENOTDIR)),
                };
                if pid == ROOT_PID {
                    let pm = self.sc.cfg.f_dir;
                    if let Some(x) = self.fault(pid, "read directory", pm, &[libc::EIO, libc::ENOENT]) {
                        ret!(e(x));
                    }
                }
                // (the simulated programs are not listed)
                let names: Vec<(String, Ino)> = names.into_iter().filter(|n| !crate::fs::Fs::is_prog(&n.0)).collect();
                let mut b: Vec<u8> = vec![];
                let mut pos = self.fs.ofds[o].off as usize;
                let most = pos + if names.len() > pos { self.sub_short(names.len() - pos) } else { 0 };
                while pos < most {
                    let (n, i) = &names[pos];
                    let n: Vec<u8> = n.bytes().filter(|c| *c != 0xef && *c != 0xbf).map(|c| if c == 0xbd { 0xff } else { c }).collect();
                    let len = (19 + n.len() + 1 + 7) & !7;
                    if b.len() + len > a[2] as usize {
                        break;
                    }
                    let s0 = b.len();
                    b.extend_from_slice(&(*i as u64 + 2).to_le_bytes());
                    b.extend_from_slice(&(pos as u64 + 1).to_le_bytes());
                    b.extend_from_slice(&(len as u16).to_le_bytes());
                    b.push(if matches!(self.fs.inodes[*i].node, Node::Dir(_)) { 4 } else { 8 });
                    b.extend_from_slice(&n);
                    b.resize(s0 + len, 0);
                    pos += 1;
                }
                self.fs.ofds[o].off = pos as u64;
                let n = b.len() as i64;
                ret!(n, vec![(a[1], b)])
            }
            95 => {
                let p = self.procs.get_mut(&pid).unwrap();
                let o = p.umask;
                p.umask = a[0] as u32 & 0o777;
                ret!(o as i64)
            }
            // ------------------------------------------------ time and misc
            35 | 230 => {
                let ts = it.fix().map(ts_ns).unwrap_or(0);
                let (_, late) = self.again(pid);
                if late {
                    ret!(0)
                }
                let abs = r.nr == 230 && a[1] & 1 != 0;
                let w = if first { Some(if abs { ts } else { self.now + ts }) } else { None };
                if let Some(t) = w {
                    if t <= self.now {
                        ret!(0)
                    }
                }
                return self.block(pid, w);
            }
            228 => {
                let mut b = (self.now / 1_000_000_000).to_le_bytes().to_vec();
                b.extend_from_slice(&(self.now % 1_000_000_000).to_le_bytes());
                ret!(0, vec![(a[1], b)])
            }
            202 => {
                let op = a[1] & 0x7f;
                if op == 0 || op == 9 {
                    let cur = it.fix().map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])).unwrap_or(0);
                    if first && cur != a[2] as u32 {
                        ret!(e(libc::EAGAIN))
                    }
                    let (_, late) = self.again(pid);
                    if late {
                        ret!(e(libc::ETIMEDOUT))
                    }
                    let to = it.fix().map(ts_ns);
                    let w = if first { to.map(|t| if op == 0 { self.now + t } else { t }) } else { None };
                    return self.block(pid, w);
                }
                ret!(0)
            }
            318 => {
                let n = (a[1] as usize).min(256);
                let mut g = Rng::new(self.sc.seed ^ 0x5eed);
                let b: Vec<u8> = (0..n).map(|_| g.next() as u8).collect();
                ret!(n as i64, vec![(a[0], b)])
            }
            302 | 97 => {
                let (res, out) = if r.nr == 302 { (a[1], a[3]) } else { (a[0], a[1]) };
                if out == 0 {
                    ret!(0)
                }
                let (x, y): (u64, u64) = match res {
                    7 => (self.procs[&pid].nofile as u64, self.procs[&pid].nofile as u64),
                    3 => (8 << 20, u64::MAX),
                    _ => (u64::MAX, u64::MAX),
                };
                let mut b = x.to_le_bytes().to_vec();
                b.extend_from_slice(&y.to_le_bytes());
                ret!(0, vec![(out, b)])
            }
            63 => {
                let mut b = vec![0u8; 390];
                b[0..5].copy_from_slice(b"Linux");
                b[65..68].copy_from_slice(b"sim");
                b[130..135].copy_from_slice(b"6.1.0");
                b[260..266].copy_from_slice(b"x86_64");
                ret!(0, vec![(a[0], b)])
            }
            9 => ret!(e(libc::ENODEV)),
            n => {
                *self.stats.unknown.entry(n).or_insert(0) += 1;
                self.note(|| format!("unknown system call {}", n));
                ret!(e(libc::ENOSYS))
            }
        }
    }

    fn sys_open(&mut self, pid: i32, dfd: i64, path: &str, flags: i32, mode: u32) -> i64 {
        let e = |x: i32| -(x as i64);
        if Self::ours(path) {
            let pm = self.sc.cfg.f_open;
            if let Some(x) = self.fault(pid, "open", pm, &[libc::EMFILE, libc::ENFILE, libc::EACCES, libc::EIO]) {
                return e(x);
            }
        }
        let d = match self.dirfd(pid, dfd) {
            Ok(d) => d,
            Err(x) => return e(x),
        };
        let fd = match self.alloc_fd(pid, 0) {
            Some(f) => f,
            None => {
                self.limit(pid, "descriptor limit", libc::EMFILE);
                return e(libc::EMFILE);
            }
        };
        let um = self.procs[&pid].umask;
        let w = match self.fs.walk(d, path) {
            Ok(w) => w,
            Err(x) => return e(x),
        };
        let acc = flags & 3;
        let obj = match w {
            (_, _, Some(i)) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return e(libc::EEXIST);
                }
                let nm = self.fs.inodes[i].mode;
                match &mut self.fs.inodes[i].node {
                    Node::Dir(_) => {
                        if acc != libc::O_RDONLY || flags & libc::O_CREAT != 0 {
                            return e(libc::EISDIR);
                        }
                        Obj::Dir(i)
                    }
                    Node::Null => Obj::Null,
                    Node::Tty => Obj::Tty,
                    Node::NoTty => return e(libc::ENXIO),
                    Node::Link(_) => return e(libc::ELOOP),
                    Node::File(data) => {
                        if flags & libc::O_DIRECTORY != 0 {
                            return e(libc::ENOTDIR);
                        }
                        if acc != libc::O_RDONLY && nm & 0o200 == 0 || acc != libc::O_WRONLY && nm & 0o400 == 0 {
                            return e(libc::EACCES);
                        }
                        if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                            data.clear();
                        }
                        Obj::File(i)
                    }
                }
            }
            (p, n, None) => {
                if flags & libc::O_CREAT == 0 {
                    return e(libc::ENOENT);
                }
                if !matches!(self.fs.inodes[p].node, Node::Dir(_)) {
                    return e(libc::ENOTDIR);
                }
                if self.fs.inodes[p].nlink == 0 || path.ends_with('/') {
                    return e(if path.ends_with('/') { libc::EISDIR } else { libc::ENOENT });
                }
                if self.fs.inodes[p].mode & 0o200 == 0 {
                    return e(libc::EACCES);
                }
                Obj::File(self.fs.add(p, &n, Node::File(vec![]), 0o100000 | (mode & !um)))
            }
        };
        let o = self.fs.new_ofd(obj, flags & !(libc::O_CREAT | libc::O_TRUNC | libc::O_EXCL | libc::O_CLOEXEC));
        self.install(pid, fd, o, flags & libc::O_CLOEXEC != 0);
        fd as i64
    }

    fn sys_kill(&mut self, by: i32, pid: i32, sig: i32) -> i64 {
        let bu = self.procs[&by].uid;
        let note = self.pid_note(by, pid);
        if !(0..65).contains(&sig) {
            self.ev(Ev::Kill { by: bu, pid, sig, ret: -(libc::EINVAL as i64), note });
            return -(libc::EINVAL as i64);
        }
        let (ret, targets): (i64, Vec<i32>) = if pid > 0 {
            if pid == LAUNCHER || pid == 1 {
                (-(libc::EPERM as i64), vec![])
            } else if self.procs.contains_key(&pid) {
                (0, vec![pid])
            } else {
                (-(libc::ESRCH as i64), vec![])
            }
        } else if pid == -1 {
            (-(libc::EPERM as i64), vec![])
        } else {
            let g = if pid == 0 { self.procs[&by].pgid } else { -pid };
            let t: Vec<i32> = self.procs.values().filter(|p| p.pgid == g).map(|p| p.pid).collect();
            if t.is_empty() {
                (-(libc::ESRCH as i64), vec![])
            } else {
                (0, t)
            }
        };
        self.ev(Ev::Kill { by: bu, pid, sig, ret, note });
        if let Some(i) = self.events.len().checked_sub(1) {
            let us: Vec<usize> = targets.iter().map(|t| self.procs[t].uid).collect();
            self.kill_targets.insert(i, us);
        }
        for t in targets {
            self.send_signal(t, sig);
        }
        ret
    }
    fn sys_setpgid(&mut self, by: i32, pid: i32, pgid: i32) -> i64 {
        let bu = self.procs[&by].uid;
        let t = if pid == 0 { by } else { pid };
        let g = if pgid == 0 { t } else { pgid };
        let note = if t == by { "" } else { self.pid_note(by, t) };
        let sid = self.procs[&by].sid;
        let ret = if g < 0 {
            -(libc::EINVAL as i64)
        } else {
            match self.procs.get(&t) {
                None => -(libc::ESRCH as i64),
                Some(p) if t != by && p.ppid != by => -(libc::ESRCH as i64),
                Some(p) if t != by && p.execd => -(libc::EACCES as i64),
                Some(p) if p.sid != sid || p.sid == p.pid => -(libc::EPERM as i64),
                Some(_) if g != t && !self.procs.values().any(|q| q.pgid == g && q.sid == sid) => -(libc::EPERM as i64),
                Some(_) => 0,
            }
        };
        if ret == 0 {
            self.procs.get_mut(&t).unwrap().pgid = g;
        }
        self.ev(Ev::Setpgid { by: bu, pid: t, pgid: g, ret, note });
        ret
    }
    fn sys_fork(&mut self, pid: i32, ctid: u64, ptid: u64, nsp: u64) -> i64 {
        let slot = match self.free_slots.pop() {
            Some(s) => s,
            None => {
                self.limit(pid, "process limit", libc::EAGAIN);
                return -(libc::EAGAIN as i64);
            }
        };
        let np = match self.new_pid() {
            Some(p) => p,
            None => {
                self.free_slots.push(slot);
                self.limit(pid, "process limit", libc::EAGAIN);
                return -(libc::EAGAIN as i64);
            }
        };
        let ps = match &self.procs[&pid].body {
            Body::Carrier(c) => c.slot,
            _ => unreachable!(),
        };
        if let Err(x) = self.z.fork(ps, slot, np, ctid, ptid, nsp) {
            self.harness_error = Some(x);
            return -(libc::EAGAIN as i64);
        }
        let uid = self.recs.len();
        let prio = if self.sc.cfg.pct == 1 { 1 + self.ch.draw(SCHED, 1000, |r| r.below(1000) as u32) as u64 } else { 0 };
        let p = &self.procs[&pid];
        let frames = match &p.body {
            Body::Carrier(c) => c.frames.clone(),
            _ => vec![],
        };
        let child = Proc {
            uid,
            pid: np,
            ppid: pid,
            pgid: p.pgid,
            sid: p.sid,
            st: PState::Running,
            status: 0,
            stop_unrep: None,
            cont_unrep: false,
            fds: p.fds.clone(),
            cwd: p.cwd,
            umask: p.umask,
            mask: p.mask,
            pend: 0,
            disp: p.disp,
            execd: false,
            body: Body::Carrier(Carrier {
                slot,
                phase: Phase::Pending(Req { kind: RQ_CHILD, nr: 0, a: [0; 6], data: vec![] }),
                blocked: false,
                held: false,
                frames,
                wake: None,
                saved_mask: None,
                progress: 0,
            }),
            prio,
            nofile: p.nofile,
        };
        let pu = p.uid;
        let pg = p.pgid;
        let fds: Vec<usize> = p.fds.values().map(|x| x.0).collect();
        for f in fds {
            self.fs.incref(f);
        }
        self.procs.insert(np, child);
        let (st, line) = (self.step, self.fed);
        let fork_raw = self.tty.termios != self.tty.orig;
        let line = if pu == 0 { line } else { self.recs[pu].line };
        self.recs.push(Rec { uid, pid: np, parent: pu, fork_step: st, fork_raw, line, pgid: pg, ..Default::default() });
        self.stats.forks += 1;
        self.ev(Ev::Fork { parent: pu, child: uid });
        np as i64
    }
    fn sys_exec(&mut self, pid: i32, path: &str, argv: Vec<String>, envp: Vec<String>) -> Result<(), i32> {
        let pm = self.sc.cfg.f_exec;
        if let Some(x) = self.fault(pid, "exec", pm, &[libc::ENOEXEC, libc::EACCES, libc::ENOMEM, libc::EIO, libc::ETXTBSY, libc::E2BIG]) {
            return Err(x);
        }
        let cwd = self.procs[&pid].cwd;
        let i = match self.fs.walk(cwd, path)? {
            (_, _, Some(i)) => i,
            _ => return Err(libc::ENOENT),
        };
        match &self.fs.inodes[i].node {
            Node::File(d) => {
                if self.fs.inodes[i].mode & 0o111 == 0 {
                    return Err(libc::EACCES);
                }
                if !d.starts_with(b"\x7fELF") {
                    return Err(libc::ENOEXEC);
                }
            }
            _ => return Err(libc::EACCES),
        }
        let tag = path.rsplit('/').next().unwrap_or("").to_string();
        let (step, line) = (self.step, self.fed);
        let cwds = self.fs.path_of(cwd);
        let raw = self.tty.termios != self.tty.orig;
        let p = self.procs.get_mut(&pid).unwrap();
        let slot = match &p.body {
            Body::Carrier(c) => c.slot,
            _ => 0,
        };
        let uid = p.uid;
        let close: Vec<i32> = p.fds.iter().filter(|f| f.1 .1).map(|f| *f.0).collect();
        let mut drop = vec![];
        for f in close {
            drop.push(p.fds.remove(&f).unwrap().0);
        }
        let mut ign = 0;
        let mut caught = 0;
        for s in 1..65 {
            match p.disp[s].h {
                0 => {}
                1 => ign |= bit(s as i32),
                _ => {
                    caught |= bit(s as i32);
                    p.disp[s] = Disp::default();
                }
            }
        }
        p.execd = true;
        p.body = Body::Prog(Prog::new(&tag, &argv));
        let (mask, pend, pgid, umask) = (p.mask, p.pend, p.pgid, p.umask);
        let fdl: Vec<(i32, usize)> = p.fds.iter().map(|(f, o)| (*f, o.0)).collect();
        for o in drop {
            self.fs.decref(o);
        }
        let fds = fdl.iter().map(|(f, o)| (*f, self.fs.ofds[*o].obj.clone(), *o)).collect();
        self.z.exit(slot, 0);
        if slot != 0 {
            self.free_slots.push(slot);
        }
        let idx = self.execs.len();
        self.mix(0xe8ec ^ (uid as u64) << 8);
        self.execs.push(ExecInfo { uid, step, line, path: path.to_string(), tag: tag.clone(), argv, env: envp, cwd: cwds, fds, mask, pend, ign, caught, pgid, umask, tty_raw: raw });
        self.recs[uid].exec = Some(idx);
        self.recs[uid].pgid = pgid;
        self.ev(Ev::Exec { uid, idx });
        if pid == ROOT_PID {
            self.root_fin = true;
        }
        while let Some(k) = self.acts.iter().position(|x| matches!(x, Act::Exec(t, _) if *t == tag)) {
            if let Act::Exec(_, w) = self.acts.remove(k) {
                self.perform(&w);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ typing on the terminal
    pub fn type_tty(&mut self) {
        if self.tty_rest.is_empty() {
            if self.fed >= self.sc.lines.len() {
                self.input_eof = true;
                self.acts.clear();
                self.ev(Ev::Eof);
                if self.sc.cfg.tty_hup == 1 {
                    self.tty.hup = true;
                } else {
                    self.tty.inq.push_back(4);
                }
                self.at_prompt = false;
                return;
            }
            let l = &self.sc.lines[self.fed];
            let t = self.resolve(&l.text);
            self.tty_rest.extend(t.bytes());
            self.typed.push(t.clone());
            let ctl = matches!(l.text.as_bytes().last(), Some(3) | Some(4));
            if !ctl {
                self.tty_rest.push_back(13);
            }
            let eof = matches!(crate::oracle::tty_lines(&self.sc, &self.typed).0.last(), Some(crate::oracle::Typed::Eof));
            self.acts = l.acts.clone();
            let n = self.fed;
            self.fed += 1;
            self.ev(Ev::Feed(n));
            if eof {
                self.input_eof = true;
                self.ev(Ev::Eof);
            }
        }
        let n = self.tty_rest.len();
        let pm = self.sc.cfg.short_pm;
        let k = if pm > 0 && n > 1 {
            n - self.ch.draw(IO, n as u32, |r| if r.pm(pm) { r.below(n as u64) as u32 } else { 0 }) as usize
        } else {
            n
        };
        // a key that sends several bytes arrives as a whole
        let mut k = k;
        for s in k.saturating_sub(4)..k {
            if self.tty_rest[s] == 27 {
                let e = (s + 2..n).find(|i| !(b'0'..=b'9').contains(&self.tty_rest[*i])).map(|i| i + 1).unwrap_or(n);
                k = k.max(e);
            }
        }
        while k < n && self.tty_rest[k] & 0xc0 == 0x80 {
            k += 1;
        }
        for _ in 0..k {
            let b = self.tty_rest.pop_front().unwrap();
            self.tty.inq.push_back(b);
        }
        self.at_prompt = false;
    }

    fn trace(&self, pid: i32, r: &Req) -> String {
        let nm = sysname(r.nr);
        let s = |d: &[u8]| -> String {
            let mut it = It { d, o: 0 };
            let n = it.u32() as usize;
            if n == 0xffff_ffff {
                return "NULL".into();
            }
            let b = it.take(n);
            format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(60)]))
        };
        let args = match r.nr {
            1 | 20 => format!("{}, {}", r.a[0] as i32, s(&r.data)),
            2 | 4 | 6 | 80 | 59 | 21 => s(&r.data),
            257 | 262 | 332 => format!("{}, flags {:#x}", s(&r.data), r.a[2]),
            61 => format!("{}, opts {}", r.a[0] as i32, r.a[2]),
            13 => format!("{}", signame(r.a[0] as i32)),
            14 => format!("how {}, {:#x}", r.a[0], u64at(&r.data, 4)),
            _ => format!("{}, {}, {}", r.a[0] as i64, r.a[1] as i64, r.a[2] as i64),
        };
        format!("pid {} {}({})", pid, nm, args)
    }
}

fn waitid_args(r: &Req) -> (i32, i32) {
    let id = match r.a[0] {
        0 => -1,
        1 => r.a[1] as i32,
        _ => -(r.a[1] as i32),
    };
    let o = r.a[3] as i32;
    let mut f = o & 1;
    if o & 2 != 0 {
        f |= 2;
    }
    if o & 8 != 0 {
        f |= 8;
    }
    f |= o & 0x0100_0000;
    (id, f)
}

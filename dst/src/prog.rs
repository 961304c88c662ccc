//! Simulated external commands.  `/bin/u<N> ops` interprets a small comma separated program:
//!   wN write N pattern bytes to stdout   eN write N bytes to stderr
//!   b  write a tab
//!   r  read stdin to its end             hN read N bytes of stdin
//!   mN write N multi-byte characters   qN write N special characters
//!   c  copy stdin to stdout              s / n write a blank / newline to stdout
//!   tN sleep N ms                        xN exit with N
//!   kS kill itself with signal S         zS stop itself with signal S
//!   f  run until killed                  iS ignore signal S from now on
use crate::choice::*;
use crate::scen::pat;
use crate::sim::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Write(u64),
    Err(u64),
    ReadAll,
    Read(u64),
    Copy,
    Byte(u8),
    Text(bool, u64),
    Sleep(u64),
    Exit(i32),
    Kill(i32),
    Stop(i32),
    Forever,
    Ignore(i32),
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub tag: String,
    pub ops: Vec<Op>,
    pub pc: usize,
    pub done: u64,
    pub wpos: u64,
    pub buf: Vec<u8>,
    pub out: Vec<u8>,
    pub inp: Vec<u8>,
    pub err: u64,
    pub eof: bool,
    pub epipe: bool,
    pub wake: Option<u64>,
}
pub fn parse_ops(s: &str) -> Vec<Op> {
    let mut v = vec![];
    for t in s.split(',') {
        if t.is_empty() || !t.is_char_boundary(1) {
            continue;
        }
        let n = t[1..].parse::<u64>().unwrap_or(0);
        v.push(match t.as_bytes()[0] {
            b'w' => Op::Write(n),
            b'e' => Op::Err(n),
            b'r' => Op::ReadAll,
            b'h' => Op::Read(n),
            b'c' => Op::Copy,
            b's' => Op::Byte(b' '),
            b'n' => Op::Byte(b'\n'),
            b'b' => Op::Byte(b'\t'),
            b'm' => Op::Text(true, n),
            b'q' => Op::Text(false, n),
            b't' => Op::Sleep(n),
            b'x' => Op::Exit(n as i32),
            b'k' => Op::Kill(n as i32),
            b'z' => Op::Stop(n as i32),
            b'f' => Op::Forever,
            b'i' => Op::Ignore(n as i32),
            _ => continue,
        });
    }
    v
}
/// the output of `mN` (characters of 1 to 4 bytes) or `qN` (what a shell could take for syntax)
pub fn text(tag: &str, wide: bool, n: u64) -> Vec<u8> {
    let abc: Vec<char> = if wide { "é€ü\u{1d11e}a漢ß".chars().collect() } else { "$|;&<>\"'`*#(){}!=$\\~?[]$X1".chars().collect() };
    let mut s = String::new();
    for i in 0..n {
        let k = pat(tag, i) as usize * 7 + i as usize;
        s.push(abc[k % abc.len()]);
    }
    s.into_bytes()
}
impl Prog {
    pub fn dead() -> Prog {
        Prog::default()
    }
    pub fn new(tag: &str, argv: &[String]) -> Prog {
        Prog { tag: tag.to_string(), ops: argv.get(1).map(|s| parse_ops(s)).unwrap_or_default(), ..Default::default() }
    }
    pub fn describe(&self) -> String {
        match self.ops.get(self.pc) {
            Some(Op::Write(n)) => format!("writing ({} of {} done)", self.done, n),
            Some(Op::ReadAll) | Some(Op::Read(_)) => format!("reading stdin ({} read)", self.inp.len()),
            Some(Op::Copy) => format!("copying ({} read, {} to write)", self.inp.len(), self.buf.len()),
            Some(Op::Forever) => "running for ever".into(),
            Some(o) => format!("{:?}", o),
            None => "exiting".into(),
        }
    }
}

enum Io {
    Some(usize),
    Block,
    Fail,
}

impl<'a> Sim<'a> {
    pub fn prog_can_run(&self, p: &Proc, g: &Prog) -> bool {
        let fdo = |fd: i32| p.fds.get(&fd).map(|x| x.0);
        let rd = || fdo(0).map(|o| self.ofd_readable(o)).unwrap_or(true);
        let wr = |fd: i32, n: u64| fdo(fd).map(|o| self.ofd_writable(o, (n as usize).min(self.sc.cfg.chunk as usize).max(1))).unwrap_or(true);
        match g.ops.get(g.pc) {
            None => true,
            Some(Op::Write(n)) => wr(1, n - g.done.min(*n)),
            Some(Op::Err(n)) => wr(2, n - g.done.min(*n)),
            Some(Op::Byte(_)) => wr(1, 1),
            Some(Op::Text(..)) => wr(1, 1),
            Some(Op::ReadAll) | Some(Op::Read(_)) => rd(),
            Some(Op::Copy) => {
                if g.buf.is_empty() {
                    rd()
                } else {
                    wr(1, g.buf.len() as u64)
                }
            }
            Some(Op::Sleep(_)) => match g.wake {
                Some(t) => t <= self.now,
                None => true,
            },
            Some(Op::Forever) => false,
            Some(_) => true,
        }
    }

    fn prog_mut(&mut self, pid: i32) -> &mut Prog {
        match &mut self.procs.get_mut(&pid).unwrap().body {
            Body::Prog(g) => g,
            _ => unreachable!(),
        }
    }
    fn prog_chunk(&mut self, n: usize) -> usize {
        let n = n.min(self.sc.cfg.chunk as usize).max(1);
        let pm = self.sc.cfg.pshort_pm;
        if pm == 0 || n <= 1 {
            return n;
        }
        let d = self.ch.draw(IO, n as u32, |r| if r.pm(pm) { r.below(n as u64) as u32 } else { 0 }) as usize;
        n - d
    }
    fn prog_write(&mut self, pid: i32, fd: i32, data: &[u8]) -> Io {
        let uid = self.procs[&pid].uid;
        let o = match self.procs[&pid].fds.get(&fd) {
            Some(x) => x.0,
            None => {
                self.terminate(pid, 1 << 8);
                return Io::Fail;
            }
        };
        match self.ofd_write(o, data, uid) {
            Ok(Some(n)) => Io::Some(n),
            Ok(None) => Io::Block,
            Err(e) => {
                if e == libc::EPIPE {
                    self.prog_mut(pid).epipe = true;
                    let d = self.procs[&pid].disp[SIGPIPE as usize];
                    let masked = self.procs[&pid].mask & bit(SIGPIPE) != 0;
                    if d.h == 0 && !masked {
                        self.terminate(pid, SIGPIPE);
                        return Io::Fail;
                    }
                }
                self.terminate(pid, 1 << 8);
                Io::Fail
            }
        }
    }
    fn prog_read(&mut self, pid: i32, n: usize) -> Result<Option<Vec<u8>>, ()> {
        let o = match self.procs[&pid].fds.get(&0) {
            Some(x) => x.0,
            None => {
                self.terminate(pid, 1 << 8);
                return Err(());
            }
        };
        match self.ofd_read(o, n) {
            Ok(x) => Ok(x),
            Err(_) => {
                self.terminate(pid, 1 << 8);
                Err(())
            }
        }
    }

    pub fn step_prog(&mut self, pid: i32) {
        if self.take_signal(pid) {
            return;
        }
        let (op, done, wpos, bl, wake, tag) = {
            let g = self.prog_mut(pid);
            (g.ops.get(g.pc).cloned(), g.done, g.wpos, g.buf.len(), g.wake, g.tag.clone())
        };
        let uid = self.procs[&pid].uid as u64;
        self.mix(0x9000 + uid);
        let next = |g: &mut Prog| {
            g.pc += 1;
            g.done = 0;
            g.wake = None;
        };
        match op {
            None => self.terminate(pid, 0),
            Some(Op::Write(n)) => {
                if done >= n {
                    next(self.prog_mut(pid));
                    return;
                }
                let k = self.prog_chunk((n - done) as usize);
                let d: Vec<u8> = (0..k as u64).map(|i| pat(&tag, wpos + i)).collect();
                if let Io::Some(w) = self.prog_write(pid, 1, &d) {
                    let g = self.prog_mut(pid);
                    g.out.extend_from_slice(&d[..w]);
                    g.done += w as u64;
                    g.wpos += w as u64;
                    if g.done >= n {
                        next(g);
                    }
                }
            }
            Some(Op::Err(n)) => {
                if done >= n {
                    next(self.prog_mut(pid));
                    return;
                }
                let k = self.prog_chunk((n - done) as usize);
                let d: Vec<u8> = (0..k as u64).map(|i| pat(&tag, 1_000_000 + done + i)).collect();
                if let Io::Some(w) = self.prog_write(pid, 2, &d) {
                    let g = self.prog_mut(pid);
                    g.err += w as u64;
                    g.done += w as u64;
                    if g.done >= n {
                        next(g);
                    }
                }
            }
            Some(Op::Byte(b)) => {
                if let Io::Some(_) = self.prog_write(pid, 1, &[b]) {
                    let g = self.prog_mut(pid);
                    g.out.push(b);
                    next(g);
                }
            }
            Some(Op::Text(wide, n)) => {
                let t = text(&tag, wide, n);
                if done >= t.len() as u64 {
                    next(self.prog_mut(pid));
                    return;
                }
                let k = self.prog_chunk(t.len() - done as usize);
                let d = t[done as usize..done as usize + k].to_vec();
                if let Io::Some(w) = self.prog_write(pid, 1, &d) {
                    let g = self.prog_mut(pid);
                    g.out.extend_from_slice(&d[..w]);
                    g.done += w as u64;
                    if g.done >= t.len() as u64 {
                        next(g);
                    }
                }
            }
            Some(Op::ReadAll) => {
                let k = self.prog_chunk(1 << 20);
                if let Ok(Some(d)) = self.prog_read(pid, k) {
                    let g = self.prog_mut(pid);
                    if d.is_empty() {
                        g.eof = true;
                        next(g);
                    } else {
                        g.inp.extend_from_slice(&d);
                    }
                }
            }
            Some(Op::Read(n)) => {
                if done >= n {
                    next(self.prog_mut(pid));
                    return;
                }
                let k = self.prog_chunk((n - done) as usize);
                if let Ok(Some(d)) = self.prog_read(pid, k) {
                    let g = self.prog_mut(pid);
                    if d.is_empty() {
                        g.eof = true;
                        next(g);
                    } else {
                        g.inp.extend_from_slice(&d);
                        g.done += d.len() as u64;
                        if g.done >= n {
                            next(g);
                        }
                    }
                }
            }
            Some(Op::Copy) => {
                if bl == 0 {
                    let k = self.prog_chunk(1 << 20);
                    if let Ok(Some(d)) = self.prog_read(pid, k) {
                        let g = self.prog_mut(pid);
                        if d.is_empty() {
                            g.eof = true;
                            next(g);
                        } else {
                            g.inp.extend_from_slice(&d);
                            g.buf = d;
                        }
                    }
                } else {
                    let k = self.prog_chunk(bl);
                    let d: Vec<u8> = self.prog_mut(pid).buf[..k].to_vec();
                    if let Io::Some(w) = self.prog_write(pid, 1, &d) {
                        let g = self.prog_mut(pid);
                        g.out.extend_from_slice(&d[..w]);
                        g.buf.drain(..w);
                    }
                }
            }
            Some(Op::Sleep(ms)) => {
                let now = self.now;
                match wake {
                    None => self.prog_mut(pid).wake = Some(now + ms * 1_000_000),
                    Some(t) if t <= now => next(self.prog_mut(pid)),
                    _ => {}
                }
            }
            Some(Op::Exit(n)) => self.terminate(pid, (n & 0xff) << 8),
            Some(Op::Kill(s)) | Some(Op::Stop(s)) => {
                next(self.prog_mut(pid));
                self.send_signal(pid, s);
                // a signal a process sends to itself arrives at once
                if self.procs.get(&pid).map(|p| p.st == PState::Running).unwrap_or(false) {
                    self.take_signal(pid);
                }
            }
            Some(Op::Ignore(s)) => {
                let p = self.procs.get_mut(&pid).unwrap();
                if (1..65).contains(&s) {
                    p.disp[s as usize].h = 1;
                }
                next(self.prog_mut(pid));
            }
            Some(Op::Forever) => {}
        }
    }
}

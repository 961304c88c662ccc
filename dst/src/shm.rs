//! Shared memory layout (mirrors shim.c), zygote handling and the request/reply hand-over.
use std::ffi::CString;
use std::sync::atomic::{AtomicU32, Ordering};

pub const NSLOT: usize = 96;
pub const DATASZ: usize = 256 * 1024;
const HDR: usize = 32;
const BLOB: usize = 65536 - 32;
const SLOT: usize = 4096;
const SLOTS_OFF: usize = HDR + BLOB;
const DATA_OFF: usize = SLOTS_OFF + NSLOT * SLOT;
pub const TOTAL: usize = DATA_OFF + NSLOT * DATASZ;

pub const RQ_SYS: u32 = 1;
pub const RQ_PEEKED: u32 = 2;
pub const RQ_SIGRET: u32 = 3;
pub const RQ_CHILD: u32 = 4;
pub const RQ_YIELD: u32 = 5;
pub const RQ_UNSAFE: u32 = 6;
pub const RP_RET: u32 = 1;
pub const RP_PEEK: u32 = 2;
pub const RP_SIG: u32 = 3;
pub const RP_EXIT: u32 = 4;
pub const RP_FORK: u32 = 5;

#[derive(Debug, Clone)]
pub struct Req {
    pub kind: u32,
    pub nr: i64,
    pub a: [u64; 6],
    pub data: Vec<u8>,
}

/// What a carrier did after we let it run.
pub enum Post {
    Req(Req),
    /// The real process died without asking: (wait status)
    Crashed(i32),
    /// It burned CPU without a system call.
    Spin,
}

pub struct Zygote {
    base: *mut u8,
    pub zpid: i32,
    seq: u32,
    live: Vec<(usize, i32)>, // slot, real pid
}
unsafe impl Send for Zygote {}

fn futex(p: *const AtomicU32, op: i32, v: u32, ms: Option<u64>) -> i64 {
    let ts = ms.map(|m| libc::timespec { tv_sec: (m / 1000) as i64, tv_nsec: ((m % 1000) * 1_000_000) as i64 });
    let tp = ts.as_ref().map(|t| t as *const _).unwrap_or(std::ptr::null());
    unsafe { libc::syscall(libc::SYS_futex, p, op, v, tp, 0usize, 0) }
}

impl Zygote {
    pub fn spawn(binary: &str, shim: &str) -> Result<Zygote, String> {
        unsafe {
            let name = CString::new("dst").unwrap();
            let fd = libc::memfd_create(name.as_ptr(), 0);
            if fd < 0 {
                return Err("memfd_create".into());
            }
            if libc::ftruncate(fd, TOTAL as i64) != 0 {
                return Err("ftruncate".into());
            }
            let base = libc::mmap(std::ptr::null_mut(), TOTAL, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            if base == libc::MAP_FAILED {
                return Err("mmap".into());
            }
            let prog = CString::new(binary).unwrap();
            let e1 = CString::new(format!("LD_PRELOAD={}", shim)).unwrap();
            let e2 = CString::new(format!("DST_SHM_FD={}", fd)).unwrap();
            let e3 = CString::new("LD_BIND_NOW=1").unwrap();
            let e4 = CString::new("GLIBC_TUNABLES=glibc.pthread.rseq=0").unwrap();
            let envp = [e1.as_ptr(), e2.as_ptr(), e3.as_ptr(), e4.as_ptr(), std::ptr::null()];
            let argv = [prog.as_ptr(), std::ptr::null()];
            let null = CString::new("/dev/null").unwrap();
            let pid = libc::fork();
            if pid < 0 {
                return Err("fork".into());
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL, 0, 0, 0);
                libc::personality(0x0040000); // ADDR_NO_RANDOMIZE
                for s in 1..32 {
                    libc::signal(s, libc::SIG_DFL);
                }
                let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &rl);
                let n = libc::open(null.as_ptr(), libc::O_RDWR);
                for t in 0..3 {
                    libc::dup2(n, t);
                }
                for f in 3..256 {
                    if f != fd {
                        libc::close(f);
                    }
                }
                libc::execve(prog.as_ptr(), argv.as_ptr(), envp.as_ptr());
                libc::_exit(127);
            }
            libc::close(fd);
            let z = Zygote { base: base as *mut u8, zpid: pid, seq: 0, live: vec![] };
            let rdy = z.u32at(20);
            let t0 = std::time::Instant::now();
            while (*rdy).load(Ordering::SeqCst) == 0 {
                futex(rdy, libc::FUTEX_WAIT, 0, Some(50));
                let mut st = 0;
                if libc::waitpid(pid, &mut st, libc::WNOHANG) == pid {
                    return Err(format!("zygote died, status {:#x} (shim refused or binary broken)", st));
                }
                if t0.elapsed().as_secs() > 60 {
                    return Err("zygote did not come up".into());
                }
            }
            Ok(z)
        }
    }
    fn u32at(&self, off: usize) -> *const AtomicU32 {
        unsafe { self.base.add(off) as *const AtomicU32 }
    }
    fn slot(&self, s: usize) -> *mut u8 {
        unsafe { self.base.add(SLOTS_OFF + s * SLOT) }
    }
    pub fn data(&self, s: usize) -> *mut u8 {
        unsafe { self.base.add(DATA_OFF + s * DATASZ) }
    }
    fn w32(&self, s: usize, off: usize, v: u32) {
        unsafe { (self.slot(s).add(off) as *mut u32).write_volatile(v) }
    }
    fn w64(&self, s: usize, off: usize, v: u64) {
        unsafe { (self.slot(s).add(off) as *mut u64).write_volatile(v) }
    }
    fn r32(&self, s: usize, off: usize) -> u32 {
        unsafe { (self.slot(s).add(off) as *const u32).read_volatile() }
    }
    fn r64(&self, s: usize, off: usize) -> u64 {
        unsafe { (self.slot(s).add(off) as *const u64).read_volatile() }
    }

    /// Start a fresh copy of the shell in slot 0.
    pub fn start(&mut self, argv: &[String], envp: &[String]) -> Result<(), String> {
        for s in 0..NSLOT {
            self.w32(s, 0, 0);
        }
        self.live.clear();
        let mut blob = vec![];
        for x in argv.iter().chain(envp.iter()) {
            blob.extend_from_slice(&crate::scen::raw(x));
            blob.push(0);
        }
        assert!(blob.len() < BLOB);
        unsafe {
            std::ptr::copy_nonoverlapping(blob.as_ptr(), self.base.add(HDR), blob.len());
            (self.base.add(8) as *mut u32).write_volatile(argv.len() as u32);
            (self.base.add(12) as *mut u32).write_volatile(envp.len() as u32);
            self.seq += 1;
            (*self.u32at(0)).store(self.seq, Ordering::SeqCst);
            futex(self.u32at(0), libc::FUTEX_WAKE, 1, None);
            let t0 = std::time::Instant::now();
            loop {
                let v = (*self.u32at(4)).load(Ordering::SeqCst);
                if v == self.seq {
                    break;
                }
                futex(self.u32at(4), libc::FUTEX_WAIT, v, Some(100));
                let mut st = 0;
                if libc::waitpid(self.zpid, &mut st, libc::WNOHANG) == self.zpid {
                    return Err(format!("zygote died with {:#x}", st));
                }
                if t0.elapsed().as_secs() > 60 {
                    return Err("zygote does not answer".into());
                }
            }
            let rp = (self.base.add(16) as *const i32).read_volatile();
            if rp < 0 {
                return Err(format!("zygote could not fork: {}", rp));
            }
            self.live.push((0, rp));
        }
        Ok(())
    }

    pub fn add_live(&mut self, slot: usize, real: i32) {
        self.live.push((slot, real));
    }
    fn real(&self, slot: usize) -> i32 {
        self.live.iter().find(|x| x.0 == slot).map(|x| x.1).unwrap_or(-1)
    }

    /// Wait until the carrier in `slot` posts its next request.
    pub fn wait(&mut self, slot: usize) -> Post {
        let st = self.slot(slot) as *const AtomicU32;
        let mut cpu0 = None;
        let mut rounds = 0;
        loop {
            let v = unsafe { (*st).load(Ordering::SeqCst) };
            if v == 1 {
                break;
            }
            futex(st, libc::FUTEX_WAIT, v, Some(if rounds < 20 { 5 } else { 100 }));
            if unsafe { (*st).load(Ordering::SeqCst) } == 1 {
                break;
            }
            rounds += 1;
            let real = self.real(slot);
            if real > 0 {
                let mut s = 0;
                let r = unsafe { libc::waitpid(real, &mut s, libc::WNOHANG | 0x40000000) };
                if r == real {
                    self.live.retain(|x| x.0 != slot);
                    // it may have posted before dying
                    if unsafe { (*st).load(Ordering::SeqCst) } == 1 {
                        break;
                    }
                    return Post::Crashed(s);
                }
                if rounds > 30 && rounds % 5 == 0 {
                    let c = cpu_ticks(real);
                    let base = *cpu0.get_or_insert(c);
                    if c >= base + 200 {
                        return Post::Spin;
                    }
                }
            }
        }
        let kind = self.r32(slot, 4);
        let nr = self.r64(slot, 8) as i64;
        let mut a = [0u64; 6];
        for (i, x) in a.iter_mut().enumerate() {
            *x = self.r64(slot, 16 + 8 * i);
        }
        let dlen = (self.r32(slot, 64) as usize).min(DATASZ);
        let mut data = vec![0u8; dlen];
        unsafe { std::ptr::copy_nonoverlapping(self.data(slot), data.as_mut_ptr(), dlen) };
        Post::Req(Req { kind, nr, a, data })
    }

    fn go(&self, slot: usize) {
        let st = self.slot(slot) as *const AtomicU32;
        unsafe { (*st).store(2, Ordering::SeqCst) };
        futex(st, libc::FUTEX_WAKE, 1, None);
    }
    pub fn ret(&self, slot: usize, ret: i64, pokes: &[(u64, Vec<u8>)], yield_after: u32) {
        let mut o = 0;
        let d = self.data(slot);
        for (ad, b) in pokes {
            unsafe {
                std::ptr::copy_nonoverlapping(ad.to_le_bytes().as_ptr(), d.add(o), 8);
                std::ptr::copy_nonoverlapping((b.len() as u32).to_le_bytes().as_ptr(), d.add(o + 8), 4);
                std::ptr::copy_nonoverlapping(b.as_ptr(), d.add(o + 12), b.len());
            }
            o += 12 + b.len();
            assert!(o < DATASZ);
        }
        self.w32(slot, 72, RP_RET);
        self.w32(slot, 76, yield_after);
        self.w64(slot, 80, ret as u64);
        self.w32(slot, 136, pokes.len() as u32);
        self.go(slot);
    }
    pub fn peek(&mut self, slot: usize, addr: u64, len: usize) -> Vec<u8> {
        self.w32(slot, 72, RP_PEEK);
        self.w64(slot, 88, addr);
        self.w64(slot, 96, len as u64);
        self.go(slot);
        match self.wait(slot) {
            Post::Req(r) if r.kind == RQ_PEEKED => r.data,
            _ => vec![],
        }
    }
    pub fn signal(&self, slot: usize, handler: u64, sig: i32, flags: u64, code: i32, pid: i32, yield_after: u32) {
        self.w32(slot, 72, RP_SIG);
        self.w32(slot, 76, yield_after);
        self.w64(slot, 88, handler);
        self.w64(slot, 96, sig as u64);
        self.w64(slot, 104, flags);
        self.w64(slot, 112, code as u64);
        self.w64(slot, 120, pid as u64);
        self.go(slot);
    }
    pub fn exit(&mut self, slot: usize, code: i32) {
        self.w32(slot, 72, RP_EXIT);
        self.w64(slot, 80, code as u64);
        self.go(slot);
        let real = self.real(slot);
        if real > 0 {
            let mut s = 0;
            unsafe { libc::waitpid(real, &mut s, 0x40000000) };
            self.live.retain(|x| x.0 != slot);
        }
        self.w32(slot, 0, 0);
    }
    /// Fork the carrier in `slot`; the copy uses `new`.  Both have posted when this returns
    /// (the parent a RQ_PEEKED, to be answered with `ret`; the child a RQ_CHILD).
    pub fn fork(&mut self, slot: usize, new: usize, simpid: i32, ctid: u64, ptid: u64, nsp: u64) -> Result<(), String> {
        self.w32(new, 0, 0);
        self.w32(slot, 72, RP_FORK);
        self.w32(slot, 76, 0);
        self.w64(slot, 80, simpid as u64);
        self.w64(slot, 88, new as u64);
        self.w64(slot, 96, ctid);
        self.w64(slot, 104, ptid);
        self.w64(slot, 112, nsp);
        self.go(slot);
        match self.wait(slot) {
            Post::Req(r) if r.kind == RQ_PEEKED && r.nr > 0 => {
                self.add_live(new, r.nr as i32);
            }
            _ => return Err("carrier fork failed".into()),
        }
        match self.wait(new) {
            Post::Req(r) if r.kind == RQ_CHILD => Ok(()),
            _ => Err("forked carrier did not report".into()),
        }
    }
    /// End of run: get rid of whatever is left.
    pub fn reset(&mut self) {
        for &(_, r) in &self.live {
            unsafe { libc::kill(r, libc::SIGKILL) };
        }
        for &(_, r) in &self.live {
            let mut s = 0;
            unsafe { libc::waitpid(r, &mut s, 0x40000000) };
        }
        self.live.clear();
    }
}
impl Drop for Zygote {
    fn drop(&mut self) {
        self.reset();
        unsafe {
            libc::kill(self.zpid, libc::SIGKILL);
            let mut s = 0;
            libc::waitpid(self.zpid, &mut s, 0);
            libc::munmap(self.base as *mut _, TOTAL);
        }
    }
}

fn cpu_ticks(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let r = match s.rfind(')') {
        Some(i) => &s[i + 1..],
        None => return 0,
    };
    let f: Vec<&str> = r.split_whitespace().collect();
    if f.len() < 13 {
        return 0;
    }
    f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
}

//! Seeded search: many simulated runs of one property's workload on all cores, minimisation of the
//! first violation, replay files and the evidence record.
use crate::choice::*;
use crate::gen;
use crate::oracle;
use crate::scen::*;
use crate::shm::Zygote;
use crate::sim::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// violation classes that are a breach of the property, besides the generic ones
pub fn counts(prop: &str, class: &str) -> bool {
    const GENERIC: &[&str] = &["hang", "livelock", "crash", "child-crash", "spin", "child-spin", "shell-stopped", "read-in-handler", "shell-exit"];
    if GENERIC.contains(&class) {
        return true;
    }
    let l: &[&str] = match prop {
        "C01" => &["pipe-", "exec-fds", "exec-stdio", "exec-missing", "exec-extra"],
        "C02" => &["order", "prompt-early", "exec-missing", "exec-extra", "fg-wait"],
        "C03" => &["exec-missing", "exec-extra", "exit-status"],
        "C04" => &["exec-missing", "exec-extra", "announce", "order", "jobs-number"],
        "C05" => &["zombie", "stale-pid", "fgbg-target", "announce-twice", "subst-zombie"],
        "C06" => &["jobs-", "announce"],
        "C07" => &["exec-missing", "exec-extra", "mask", "handler", "tty-", "start-signal"],
        "C08" => &["exec-missing", "exec-extra", "exit-status", "fgbg-", "fg-wait", "jobs-", "prompt-early"],
        "C09" => &["exec-mask", "exec-ignored", "exec-fds", "exec-pgid", "exec-cwd", "exec-envvar", "exec-stdio", "argv", "exec-parent"],
        "C10" => &["redir-", "exec-missing", "exec-extra", "exec-stdio", "exec-fds"],
        "C11" => &[""],
        "C12" => &["mask", "handler", "exec-missing", "exec-mask"],
        "C13" => &["subst-", "exec-missing", "exec-extra", "fdleak", "zombie", "argv", "exec-fds"],
        "C14" => &["error-silent", "exec-missing", "exec-extra", "order", "exit-status"],
        "C15" => &["exec-missing", "exec-extra", "exec-cwd", "exec-envvar", "pwd", "argv", "exec-parent", "exec-stdio", "fdleak"],
        "C16" => &["fdleak", "exec-fds"],
        "C17" => &["tty-", "exec-missing", "exec-extra", "mask", "handler"],
        "C18" => &["history", "exit-status"],
        "C21" => &["completion", "exec-missing", "exec-extra", "exec-argv", "tty-mode", "fdleak", "exec-fds", "exec-envvar"],
        "C24" => &["handler", "mask", "lookup", "exec-missing", "exec-extra", "exit-status", "argv", "exec-parent"],
        "C23" => &["error-silent", "exec-missing", "exec-extra", "exec-envvar", "exec-cwd", "fault-silent", "fdleak", "prompt-early", "mask", "handler"],
        "C22" => &["start-signal", "exec-mask", "exec-ignored", "exec-extra", "exec-missing"],
        _ => &[],
    };
    l.iter().any(|p| class.starts_with(p))
}

pub fn mix(prop: &str, seed: u64, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h ^ i.wrapping_mul(0xD134_2543_DE82_EF95));
    r.next() & 0x7fff_ffff_ffff_ffff
}

pub struct RunOut {
    pub viol: Vec<Viol>,
    pub judged: u64,
    pub stats: Stats,
    pub hash: u64,
    pub sched_hash: u64,
    pub alts: usize,
    pub rec: [Vec<u32>; NSTREAM],
    pub harness: Option<String>,
    pub log: Option<Vec<String>>,
}
pub fn run_once(z: &mut Zygote, sc: &Scenario, log: bool) -> RunOut {
    let mut s = Sim::new(z, sc, log);
    s.run();
    let (viol, judged) = oracle::check(&mut s);
    RunOut {
        viol,
        judged,
        stats: std::mem::take(&mut s.stats),
        hash: s.hash,
        sched_hash: s.sched_hash,
        alts: s.cur_alts,
        rec: std::mem::take(&mut s.ch.rec),
        harness: s.harness_error.clone(),
        log: s.log.take(),
    }
}

/// the process's CPUs, one per worker: a run hops between the simulator and the carriers at every
/// step, which is much faster on one CPU
fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 {
            return vec![];
        }
        (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect()
    }
}
fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

#[derive(Default)]
struct Agg {
    runs: u64,
    steps: u64,
    syscalls: u64,
    switches: u64,
    forks: u64,
    sim_ns: u128,
    judged: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    unknown: BTreeMap<i64, u64>,
    inter: HashSet<u64>,
    inter_nontrivial: HashSet<u64>,
    texts: HashSet<u64>,
    with_fault: u64,
    modes: BTreeMap<&'static str, u64>,
    other: BTreeMap<String, (u64, u64, String)>,
    harness: u64,
    harness_msg: String,
    flaky: u64,
    flaky_msg: String,
    det: u64,
    det_bad: u64,
    det_msg: String,
    samples: Vec<String>,
    found: Vec<(u64, Viol)>,
    inconclusive: u64,
}

fn txt_hash(sc: &Scenario) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for l in &sc.lines {
        for b in l.text.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 10).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Cfg {
    pub bin: String,
    pub shim: String,
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub cap: Duration,
    pub threads: usize,
    pub root: String, // /verif
}

fn worker(cfg: &Cfg, agg: &Mutex<Agg>, next: &AtomicU64, stop: &AtomicBool, t0: Instant) {
    let mut z = match Zygote::spawn(&cfg.bin, &cfg.shim) {
        Ok(z) => z,
        Err(e) => {
            let mut a = agg.lock().unwrap();
            a.harness += 1;
            a.harness_msg = e;
            return;
        }
    };
    let mut l = Agg::default();
    let mut errs = 0;
    while !stop.load(Ordering::SeqCst) && t0.elapsed() < cfg.cap {
        let i = next.fetch_add(1, Ordering::SeqCst);
        if i >= cfg.runs {
            break;
        }
        let seed = mix(&cfg.prop, cfg.seed, i);
        let sc = gen::generate(&cfg.prop, seed);
        let r = run_once(&mut z, &sc, false);
        if let Some(e) = &r.harness {
            l.harness += 1;
            l.harness_msg = format!("run {} seed {}: {}", i, seed, e);
            errs += 1;
            if errs > 20 {
                break;
            }
            match Zygote::spawn(&cfg.bin, &cfg.shim) {
                Ok(n) => z = n,
                Err(_) => break,
            }
            continue;
        }
        l.runs += 1;
        l.steps += r.stats.steps;
        l.syscalls += r.stats.syscalls;
        l.switches += r.stats.switches;
        l.forks += r.stats.forks;
        l.sim_ns += r.stats.sim_ns as u128;
        l.judged += r.judged;
        for (k, v) in &r.stats.faults {
            *l.faults.entry(k.clone()).or_insert(0) += v;
        }
        if !r.stats.faults.is_empty() {
            l.with_fault += 1;
        }
        for (k, v) in &r.stats.probes {
            *l.probes.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &r.stats.unknown {
            *l.unknown.entry(*k).or_insert(0) += v;
        }
        l.inter.insert(r.sched_hash);
        if r.judged > 0 && r.alts > 0 && r.stats.forks > 0 {
            l.inter_nontrivial.insert(r.sched_hash);
        }
        l.texts.insert(txt_hash(&sc));
        *l.modes.entry(sc.cfg.mode.name()).or_insert(0) += 1;
        if i < 3 {
            l.samples.push(format!("run {} of this check: {}", i, sc.to_text()));
        }
        // the same seed again, in the same worker, must give the same execution
        if i % 64 == 7 && r.viol.is_empty() {
            let r2 = run_once(&mut z, &sc, false);
            l.det += 1;
            if r2.hash != r.hash || r2.stats.steps != r.stats.steps {
                l.det_bad += 1;
                l.det_msg = format!("seed {}", seed);
            }
        }
        for v in &r.viol {
            if counts(&cfg.prop, &v.class) {
                if !r.stats.unknown.is_empty() {
                    l.inconclusive += 1;
                    continue;
                }
                // in a process that has not run anything else
                let again = Zygote::spawn(&cfg.bin, &cfg.shim).ok().map(|mut z2| run_once(&mut z2, &sc, false));
                let same = again.map(|r2| r2.harness.is_none() && r2.viol.iter().any(|w| w.class == v.class)).unwrap_or(false);
                if same {
                    l.found.push((i, v.clone()));
                    stop.store(true, Ordering::SeqCst);
                    break;
                } else {
                    l.flaky += 1;
                    l.flaky_msg = format!("seed {}: {} {}", seed, v.class, v.msg);
                }
            } else {
                let e = l.other.entry(v.class.clone()).or_insert((0, seed, v.msg.clone()));
                e.0 += 1;
            }
        }
    }
    let mut guard = agg.lock().unwrap();
    let a = &mut *guard;
    a.runs += l.runs;
    a.steps += l.steps;
    a.syscalls += l.syscalls;
    a.switches += l.switches;
    a.forks += l.forks;
    a.sim_ns += l.sim_ns;
    a.judged += l.judged;
    a.with_fault += l.with_fault;
    a.harness += l.harness;
    a.flaky += l.flaky;
    a.det += l.det;
    a.det_bad += l.det_bad;
    a.inconclusive += l.inconclusive;
    for (m, x) in [(&mut a.harness_msg, l.harness_msg), (&mut a.flaky_msg, l.flaky_msg), (&mut a.det_msg, l.det_msg)] {
        if m.is_empty() {
            *m = x;
        }
    }
    for (k, v) in l.faults {
        *a.faults.entry(k).or_insert(0) += v;
    }
    for (k, v) in l.probes {
        *a.probes.entry(k).or_insert(0) += v;
    }
    for (k, v) in l.unknown {
        *a.unknown.entry(k).or_insert(0) += v;
    }
    for (k, v) in l.modes {
        *a.modes.entry(k).or_insert(0) += v;
    }
    for (k, v) in l.other {
        let e = a.other.entry(k).or_insert((0, v.1, v.2));
        e.0 += v.0;
    }
    a.inter.extend(l.inter);
    a.inter_nontrivial.extend(l.inter_nontrivial);
    a.texts.extend(l.texts);
    a.samples.extend(l.samples);
    a.found.extend(l.found);
}

// ---------------------------------------------------------------------------- minimisation
struct Min<'a> {
    z: Zygote,
    cfg: &'a Cfg,
    class: String,
    tries: u64,
    end: Instant,
}
impl<'a> Min<'a> {
    fn fails(&mut self, sc: &Scenario) -> Option<RunOut> {
        if Instant::now() > self.end {
            return None;
        }
        self.tries += 1;
        let r = run_once(&mut self.z, sc, false);
        if r.harness.is_some() {
            if let Ok(z) = Zygote::spawn(&self.cfg.bin, &self.cfg.shim) {
                self.z = z;
            }
            return None;
        }
        if !r.stats.unknown.is_empty() || !r.viol.iter().any(|v| v.class == self.class) {
            return None;
        }
        Some(r)
    }
    /// try the smaller scenario with the recorded choices, then with a few fresh schedules
    fn accept(&mut self, cur: &mut Scenario, cand: Scenario) -> bool {
        let mut c = cand;
        if let Some(r) = self.fails(&c) {
            c.choices = Some(r.rec);
            *cur = c;
            return true;
        }
        for k in 0..6u64 {
            let mut d = c.clone();
            d.choices = None;
            d.seed = cur.seed.wrapping_add(k * 7919);
            if let Some(r) = self.fails(&d) {
                d.choices = Some(r.rec);
                *cur = d;
                return true;
            }
        }
        false
    }
    fn lines(&mut self, cur: &mut Scenario) -> bool {
        let mut any = false;
        let mut k = cur.lines.len();
        while k > 0 {
            k -= 1;
            if k >= cur.lines.len() {
                continue;
            }
            let mut c = cur.clone();
            c.lines.remove(k);
            any |= self.accept(cur, c);
        }
        any
    }
    fn acts(&mut self, cur: &mut Scenario) -> bool {
        let mut any = false;
        for i in 0..cur.lines.len() {
            let mut k = cur.lines[i].acts.len();
            while k > 0 {
                k -= 1;
                let mut c = cur.clone();
                c.lines[i].acts.remove(k);
                any |= self.accept(cur, c);
            }
        }
        any
    }
    fn files(&mut self, cur: &mut Scenario) -> bool {
        let mut any = false;
        let mut k = cur.files.len();
        while k > 0 {
            k -= 1;
            let mut c = cur.clone();
            c.files.remove(k);
            any |= self.accept(cur, c);
        }
        any
    }
    fn texts(&mut self, cur: &mut Scenario) -> bool {
        let mut any = false;
        for i in 0..cur.lines.len() {
            loop {
                let t = cur.lines[i].text.clone();
                let mut done = true;
                for n in shorter(&t) {
                    let mut c = cur.clone();
                    c.lines[i].text = n;
                    if self.accept(cur, c) {
                        any = true;
                        done = false;
                        break;
                    }
                    if Instant::now() > self.end {
                        return any;
                    }
                }
                if done {
                    break;
                }
            }
        }
        any
    }
    fn settings(&mut self, cur: &mut Scenario) -> bool {
        let mut any = false;
        let def = Config::default();
        for (k, d) in def.items() {
            let v = cur.cfg.items().iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(d);
            if v != d {
                let mut c = cur.clone();
                c.cfg.set(k, d);
                any |= self.accept(cur, c);
            }
        }
        any
    }
    /// drop deviations from "nothing unusual" in the recorded choices
    fn choices(&mut self, cur: &mut Scenario) {
        for st in [SIG, FAULT, IO, SCHED] {
            let nz = |c: &Scenario| c.choices.as_ref().map(|x| x[st].iter().enumerate().filter(|v| *v.1 != 0).map(|v| v.0).collect::<Vec<_>>()).unwrap_or_default();
            let mut size = nz(cur).len();
            while size > 0 {
                let mut at = 0;
                loop {
                    let pos = nz(cur);
                    if at >= pos.len() || Instant::now() > self.end {
                        break;
                    }
                    let mut c = cur.clone();
                    for p in pos.iter().skip(at).take(size) {
                        c.choices.as_mut().unwrap()[st][*p] = 0;
                    }
                    if let Some(r) = self.fails(&c) {
                        c.choices = Some(r.rec);
                        if nz(&c).len() < pos.len() {
                            *cur = c;
                            continue;
                        }
                    }
                    at += size;
                }
                size /= 2;
            }
        }
    }
}
/// shorter variants of an input line
fn shorter(t: &str) -> Vec<String> {
    let mut v = vec![];
    let toks: Vec<&str> = t.split(' ').collect();
    let seps: Vec<usize> = toks.iter().enumerate().filter(|x| matches!(*x.1, "|" | "&&" | "||") || x.1.ends_with(';')).map(|x| x.0).collect();
    let join = |a: &[&str]| a.join(" ");
    let n = toks.len();
    // segments between separators
    let mut cuts = vec![];
    let mut s0 = 0;
    for s in &seps {
        cuts.push((s0, s + 1));
        s0 = s + 1;
    }
    for (a, b) in &cuts {
        let mut x = toks[..*a].to_vec();
        x.extend_from_slice(&toks[*b..]);
        v.push(join(&x));
    }
    for s in &seps {
        if toks[*s].len() <= 2 {
            let e = seps.iter().find(|y| *y > s).copied().unwrap_or(n);
            let mut x = toks[..*s].to_vec();
            x.extend_from_slice(&toks[e..]);
            v.push(join(&x));
        } else {
            v.push(join(&toks[..=*s]).trim_end_matches(';').to_string());
        }
    }
    // single words, and operations of a simulated command
    for i in (1..n).rev() {
        if matches!(toks[i], "|" | "&&" | "||" | "&" | "{" | "}" | "()") {
            continue;
        }
        let mut x = toks.clone();
        x.remove(i);
        v.push(join(&x));
        let ops: Vec<&str> = toks[i].split(',').collect();
        if ops.len() > 1 {
            for k in 0..ops.len() {
                let mut o = ops.clone();
                o.remove(k);
                let j = o.join(",");
                let mut x = toks.clone();
                x[i] = &j;
                v.push(join(&x));
            }
        }
    }
    v.retain(|x| !x.trim().is_empty() && x.len() < t.len());
    v
}

fn trace_summary(log: &[String]) -> Vec<String> {
    log.iter().filter(|l| l.contains("EV ") || l.contains("VIOLATION")).cloned().collect()
}

/// Minimise and write the replay file; returns its path.
fn report(cfg: &Cfg, i: u64, v: &Viol) -> Result<(String, Viol), String> {
    let seed = mix(&cfg.prop, cfg.seed, i);
    let orig = gen::generate(&cfg.prop, seed);
    let z = Zygote::spawn(&cfg.bin, &cfg.shim)?;
    let budget = if cfg.tier == "thorough" { 150 } else { 45 };
    let mut m = Min { z, cfg, class: v.class.clone(), tries: 0, end: Instant::now() + Duration::from_secs(budget) };
    let mut cur = orig.clone();
    let r = m.fails(&cur).ok_or("the violation did not come again")?;
    let alts0: usize = r.rec.iter().map(|x| x.iter().filter(|v| **v != 0).count()).sum();
    cur.choices = Some(r.rec);
    for _ in 0..4 {
        let mut any = m.lines(&mut cur);
        any |= m.texts(&mut cur);
        any |= m.acts(&mut cur);
        any |= m.files(&mut cur);
        any |= m.settings(&mut cur);
        if !any || Instant::now() > m.end {
            break;
        }
    }
    m.choices(&mut cur);
    if let Some(c) = cur.choices.as_mut() {
        for s in c.iter_mut() {
            while s.last() == Some(&0) {
                s.pop();
            }
        }
    }
    // the final word: a fresh process, with a trace
    let mut z = Zygote::spawn(&cfg.bin, &cfg.shim)?;
    let f = run_once(&mut z, &cur, true);
    let v2 = f.viol.iter().find(|x| x.class == v.class).cloned().ok_or("the minimised run did not fail in a fresh process")?;
    let dir = format!("{}/replays", cfg.root);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = format!("{}/{}-{}-{}.txt", dir, cfg.prop, v.class, seed);
    let mut t = String::new();
    t.push_str(&format!("# property {}\n# violation {}: {}\n", cfg.prop, v2.class, v2.msg.replace('\n', "\\n")));
    t.push_str(&format!("# found as run {} of VERIF_SEED={} (scenario seed {}), {} -> {} lines, {} -> {} deviations from the default schedule, {} runs to minimise\n", i, cfg.seed, seed, orig.lines.len(), cur.lines.len(), alts0, cur.choices.as_ref().map(|c| c.iter().map(|x| x.iter().filter(|v| **v != 0).count()).sum::<usize>()).unwrap_or(0), m.tries));
    t.push_str(&format!("#! expect {} {} {:016x}\n", cfg.prop, v2.class, f.hash));
    t.push_str(&cur.to_text());
    t.push_str("# events of the minimised run:\n");
    for l in trace_summary(f.log.as_deref().unwrap_or(&[])).iter().take(400) {
        t.push_str(&format!("# {}\n", l.replace('\n', "\\n")));
    }
    std::fs::write(&path, t).map_err(|e| e.to_string())?;
    Ok((path, v2))
}

// ---------------------------------------------------------------------------- known findings
/// `finding: property=C05 class=zombie match=some text  # description`
fn known(root: &str, prop: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let (head, desc) = r.split_once(" -- ").unwrap_or((r, ""));
            let get = |k: &str| head.split(" ; ").find_map(|p| p.trim().strip_prefix(k)).unwrap_or("").trim().to_string();
            if get("property=") == prop {
                v.push((get("class="), get("match="), desc.to_string()));
            }
        }
    }
    v
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap<K: ToString, V: ToString>(m: impl Iterator<Item = (K, V)>) -> String {
    let v: Vec<String> = m.map(|(k, v)| format!("{}: {}", js(&k.to_string()), v.to_string())).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn check(cfg: &Cfg) -> i32 {
    let t0 = Instant::now();
    println!("{} {}: VERIF_SEED={} up to {} runs on {} workers", cfg.prop, cfg.tier, cfg.seed, cfg.runs, cfg.threads);
    let agg = Mutex::new(Agg::default());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let cp = cpus();
    std::thread::scope(|s| {
        for k in 0..cfg.threads {
            let (agg, next, stop, cp) = (&agg, &next, &stop, &cp);
            s.spawn(move || {
                if !cp.is_empty() {
                    pin(cp[k % cp.len()]);
                }
                worker(cfg, agg, next, stop, t0)
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    let kn = known(&cfg.root, &cfg.prop);
    a.found.sort_by_key(|x| x.0);
    let mut code = 0;
    let mut nviol = 0;
    for k in &kn {
        println!("KNOWN-FINDING: property={} {}", cfg.prop, k.2);
    }
    let open: Vec<(u64, Viol)> = a.found.iter().filter(|f| !kn.iter().any(|k| k.0 == f.1.class && f.1.msg.contains(&k.1))).cloned().collect();
    if let Some((i, v)) = open.first() {
        nviol = open.len();
        println!("violated: {}: {} (run {}, scenario seed {})", v.class, v.msg, i, mix(&cfg.prop, cfg.seed, *i));
        match report(cfg, *i, v) {
            Ok((p, v2)) => {
                println!("minimised: {}: {}", v2.class, v2.msg);
                println!("VIOLATION property={} replay={}", cfg.prop, p);
            }
            Err(e) => {
                // still a violation: it came twice; hand out the unreduced scenario
                println!("minimisation failed: {}", e);
                let sc = gen::generate(&cfg.prop, mix(&cfg.prop, cfg.seed, *i));
                let dir = format!("{}/replays", cfg.root);
                let _ = std::fs::create_dir_all(&dir);
                let p = format!("{}/{}-{}-{}.txt", dir, cfg.prop, v.class, sc.seed);
                let _ = std::fs::write(&p, sc.to_text());
                println!("VIOLATION property={} replay={}", cfg.prop, p);
            }
        }
        code = 1;
    }
    if a.flaky > 0 {
        println!("note: {} suspected violations did not come again and were not counted, first: {}", a.flaky, a.flaky_msg);
    }
    if a.det_bad > 0 {
        println!("note: {} of {} repeated runs differed, first: {}", a.det_bad, a.det, a.det_msg);
    }
    if a.inconclusive > 0 {
        println!("note: {} runs used system calls the simulator does not model ({:?}) and were not judged", a.inconclusive, a.unknown);
    }
    if a.harness > 0 {
        println!("note: {} runs could not be simulated, first: {}", a.harness, a.harness_msg);
    }
    for (c, (n, s, m)) in &a.other {
        println!("note: outside this property, {} x {} (seed {}): {}", n, c, s, m);
    }
    if code == 0 && (a.runs == 0 || a.harness > a.runs / 10 + 20) {
        println!("error: the simulation did not run");
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let rule = "One evaluation is one simulated session: a seeded scenario (input lines, signals, faults, limits) run under one seeded schedule. It counts as distinct and non-trivial when the shell forked at least once, at least one scheduling step had more than one runnable process, the reference model judged at least one fact, and the sequence of context switches (which process, number of processes so far, system calls of the line so far; hashed) is one not seen before in this run.";
    let e = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"wall_s\": {:.2}, \"violations\": {},\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n  \"distinct_interleavings\": {}, \"distinct_sessions\": {}, \"facts_judged\": {},\n  \"runs_per_hour_one_seed_each\": {}, \"simulated_seconds\": {:.3}, \"steps\": {}, \"context_switches\": {}, \"system_calls\": {}, \"forks\": {},\n  \"runs_with_injected_faults_or_signals\": {}, \"faults_injected\": {},\n  \"rare_situations_reached\": {}, \"input_modes\": {},\n  \"determinism\": {{\"repeated_runs\": {}, \"different\": {}, \"unreproducible_suspects\": {}, \"not_simulated\": {}, \"unmodelled_system_calls\": {}}},\n  \"observed_outside_this_property\": {},\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}]\n}}\n",
        js(&cfg.prop), js(&cfg.tier), cfg.seed, wall, nviol,
        a.runs, a.inter_nontrivial.len(), js(rule),
        a.inter.len(), a.texts.len(), a.judged,
        (a.runs as f64 / search_s.max(0.001) * 3600.0) as u64, a.sim_ns as f64 / 1e9, a.steps, a.switches, a.syscalls, a.forks,
        a.with_fault, jmap(a.faults.iter().map(|(k, v)| (k.clone(), *v))),
        jmap(a.probes.iter().map(|(k, v)| (k.clone(), *v))), jmap(a.modes.iter().map(|(k, v)| (*k, *v))),
        a.det, a.det_bad, a.flaky, a.harness, jmap(a.unknown.iter().map(|(k, v)| (*k, *v))),
        jmap(a.other.iter().map(|(k, v)| (k.clone(), v.0))),
        "[\"the complete rsh binary built from /repo (parser, evaluator, job control, signal handlers, builtins, rustyline, std, libc), including its forked copies up to exec\"]",
        "[\"kernel: processes, signals, pipes, files, terminal, clock (simulated)\", \"external commands (small simulated programs that read, write, sleep, die)\", \"user at the keyboard (scripted)\"]",
        a.samples.iter().take(3).map(|s| js(s)).collect::<Vec<_>>().join(", "),
        [
            "the simulated kernel behaves like Linux for the system calls the shell makes",
            "memory inside the shell is not corrupted by forked copies (they are real processes with their own memory)",
            "preemption of the shell happens at its system calls and at allocator entry points, not between arbitrary instructions",
        ].iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.root));
    if let Err(x) = std::fs::write(format!("{}/evidence/{}.json", cfg.root, cfg.prop), e) {
        println!("error: cannot write evidence: {}", x);
        code = if code == 0 { 2 } else { code };
    }
    println!("{}: {} runs, {} distinct interleavings, {:.1} s simulated, {} facts judged, {:.1} s; exit {}", cfg.prop, a.runs, a.inter_nontrivial.len(), a.sim_ns as f64 / 1e9, a.judged, wall, code);
    code
}

/// Replay a file: the same violation and the same execution must come out.
pub fn replay(bin: &str, shim: &str, file: &str, verbose: bool) -> i32 {
    let txt = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", file, e);
            return 2;
        }
    };
    let exp: Option<Vec<String>> = txt.lines().find_map(|l| l.strip_prefix("#! expect ")).map(|l| l.split_whitespace().map(|x| x.to_string()).collect());
    let sc = match Scenario::parse(&txt) {
        Ok(s) => s,
        Err(e) => {
            println!("{}", e);
            return 2;
        }
    };
    let mut z = match Zygote::spawn(bin, shim) {
        Ok(z) => z,
        Err(e) => {
            println!("{}", e);
            return 2;
        }
    };
    let r = run_once(&mut z, &sc, true);
    if let Some(e) = &r.harness {
        println!("could not be simulated: {}", e);
        return 2;
    }
    if verbose {
        for l in r.log.as_deref().unwrap_or(&[]) {
            println!("{}", l);
        }
    }
    for v in &r.viol {
        println!("violated: {}: {}", v.class, v.msg);
    }
    match exp {
        Some(x) if x.len() == 3 => {
            let got = r.viol.iter().any(|v| v.class == x[1]);
            let same = format!("{:016x}", r.hash) == x[2];
            println!("execution {:016x}, recorded {}: {}", r.hash, x[2], if same { "identical" } else { "different code or input" });
            if got {
                println!("VIOLATION property={} replay={}", x[0], file);
                return 1;
            }
            println!("the violation {} did not occur", x[1]);
            0
        }
        _ => {
            if let Some(v) = r.viol.iter().find(|v| counts(&sc.profile, &v.class)) {
                println!("VIOLATION property={} replay={} ({})", sc.profile, file, v.class);
                return 1;
            }
            0
        }
    }
}

/// Each seed several times, in different processes and after different predecessors.
pub fn selftest(bin: &str, shim: &str, prop: &str, n: u64) -> i32 {
    let mut bad = 0;
    let mut first: Vec<(u64, u64)> = vec![];
    let mut z = Zygote::spawn(bin, shim).unwrap();
    for i in 0..n {
        let sc = gen::generate(prop, mix(prop, 77, i));
        let r = run_once(&mut z, &sc, i % 3 == 0);
        first.push((r.hash, r.stats.steps));
        // the recorded choices replay to the same execution
        let mut s2 = sc.clone();
        s2.choices = Some(r.rec.clone());
        let s3 = Scenario::parse(&s2.to_text()).unwrap();
        let r2 = run_once(&mut z, &s3, false);
        if r2.hash != r.hash || r2.viol != r.viol {
            println!("{} {}: replay of the recorded choices differs", prop, i);
            bad += 1;
        }
    }
    let mut z = Zygote::spawn(bin, shim).unwrap();
    for i in (0..n).rev() {
        let sc = gen::generate(prop, mix(prop, 77, i));
        let r = run_once(&mut z, &sc, i % 2 == 0);
        if (r.hash, r.stats.steps) != first[i as usize] {
            println!("{} {}: second process differs", prop, i);
            bad += 1;
        }
    }
    println!("{}: {} seeds, each run 3 times in 2 processes, {} differences", prop, n, bad);
    (bad > 0) as i32
}

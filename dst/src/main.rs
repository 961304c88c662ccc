mod check;
mod choice;
mod fs;
mod gen;
mod lang;
mod oracle;
mod prog;
mod scen;
mod shm;
mod sim;
mod sys;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let bin = std::env::var("DST_RSH").unwrap();
    let shim = std::env::var("DST_SHIM").unwrap();
    match a[1].as_str() {
        "run" => {
            let txt = std::fs::read_to_string(&a[2]).unwrap();
            let sc = scen::Scenario::parse(&txt).unwrap();
            run1(&bin, &shim, &sc);
        }
        "gen" => {
            let sc = gen::generate(&a[2], a[3].parse().unwrap());
            print!("{}", sc.to_text());
        }
        "one" => {
            let sc = gen::generate(&a[2], a[3].parse().unwrap());
            run1(&bin, &shim, &sc);
        }
        "batch" => {
            let prop = &a[2];
            let s0: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            let mut z = shm::Zygote::spawn(&bin, &shim).unwrap();
            let t = std::time::Instant::now();
            let mut classes: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            let mut steps = 0;
            let mut judged = 0;
            for i in 0..n {
                let sc = gen::generate(prop, s0 + i);
                let t1 = std::time::Instant::now();
                let mut s = sim::Sim::new(&mut z, &sc, false);
                s.run();
                let he = s.harness_error.clone();
                let (v, j) = oracle::check(&mut s);
                steps += s.step;
                judged += j;
                let unk = s.stats.unknown.clone();
                drop(s);
                if t1.elapsed().as_millis() > 500 {
                    println!("slow seed {} {:?}", s0 + i, t1.elapsed());
                }
                if !unk.is_empty() {
                    println!("seed {} unknown syscalls {:?}", s0 + i, unk);
                }
                if let Some(e) = he {
                    println!("HARNESS seed {}: {}", s0 + i, e);
                    z = shm::Zygote::spawn(&bin, &shim).unwrap();
                }
                for x in v {
                    let e = classes.entry(x.class.clone()).or_insert((0, s0 + i, x.msg.clone()));
                    e.0 += 1;
                }
            }
            println!("{} {} runs in {:?}, {} steps, {} judged", prop, n, t.elapsed(), steps, judged);
            for (c, (k, s, m)) in classes {
                if !check::counts(prop, &c) {
                    print!("  uncounted");
                }
                println!("  {:5} {} first seed {}: {}", k, c, s, m);
            }
        }
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
            let num = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
            let thorough = a[3] == "thorough";
            let cfg = check::Cfg {
                bin,
                shim,
                prop: a[2].clone(),
                tier: a[3].clone(),
                seed,
                runs: num("DST_RUNS", if thorough { u64::MAX } else { 16_000 }),
                cap: std::time::Duration::from_secs(num("DST_CAP", if thorough { 600 } else { 60 })),
                threads: num("DST_THREADS", std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).min(16)) as usize,
                root: std::env::var("DST_ROOT").unwrap_or_else(|_| ".".into()),
            };
            std::process::exit(check::check(&cfg));
        }
        "replay" => std::process::exit(check::replay(&bin, &shim, &a[2], a.len() > 3)),
        "selftest" => std::process::exit(check::selftest(&bin, &shim, &a[2], a[3].parse().unwrap())),
        _ => {
            eprintln!("usage: dst check PROP quick|thorough | replay FILE | run FILE | one PROP SEED | batch PROP SEED N | selftest PROP N");
            std::process::exit(2);
        }
    }
}
fn run1(bin: &str, shim: &str, sc: &scen::Scenario) {
    let mut z = shm::Zygote::spawn(bin, shim).unwrap();
    let mut s = sim::Sim::new(&mut z, sc, true);
    s.run();
    let (v, j) = oracle::check(&mut s);
    for l in s.log.as_ref().unwrap() {
        println!("{}", l);
    }
    println!("ended {:?} root {:?} err {:?} hash {:x} unknown {:?} steps {} judged {}", s.ended, s.root_status, s.harness_error, s.hash, s.stats.unknown, s.step, j);
    for o in &s.outs {
        println!("out uid {} fd {} line {} {:?}", o.uid, o.fd, o.line, String::from_utf8_lossy(&o.data[..o.data.len().min(200)]));
    }
    println!("{}", sc.to_text());
    for v in &v {
        println!("VIOL {} {}", v.class, v.msg);
    }
}

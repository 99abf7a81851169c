mod agent;
mod alloc;
mod codec;
mod conns;
mod conv;
mod ctx;
mod driver;
mod env;
mod exec;
mod gen;
mod known;
mod logging;
mod minimise;
mod model;
mod net;
mod plan;
mod rng;
mod spop;
mod svc;
mod threads;

fn main() {
    exec::hook_panics();
    logging::install();
    let a: Vec<String> = std::env::args().collect();
    let var = |k: &str, d: &str| std::env::var(k).ok().filter(|v| !v.is_empty()).unwrap_or(d.to_string());
    let num = |k: usize| a.get(k).and_then(|s| s.parse::<u64>().ok());
    let cmd = a.get(1).map_or("", |s| s.as_str());
    if matches!(cmd, "scan" | "one" | "twice" | "div") {
        known::warm_up();
    }
    match cmd {
        // check ID [RUNS]
        "check" => {
            let tier = var("VERIF_TIER", "quick");
            let seed = var("VERIF_SEED", "1").parse().unwrap_or(1);
            let root = std::path::PathBuf::from(var("SPOPSIM_ROOT", "/verif"));
            std::process::exit(driver::check(&a[2], &tier, seed, &root, num(3)));
        }
        "work" => driver::work(&a[2], num(3).unwrap(), a[4] == "thorough", num(5).unwrap(), num(6).unwrap(), num(7).unwrap()),
        "try" => driver::try_plan(&a[2]),
        "replay" => std::process::exit(driver::replay(&a[2])),
        // for debugging
        "scan" => {
            let n = num(3).unwrap();
            let t0 = std::time::Instant::now();
            let from: u64 = a.get(4).map_or(0, |s| s.parse().unwrap());
            let mut classes = std::collections::BTreeMap::<String, (u64, u64, String)>::new();
            let mut shapes = std::collections::HashSet::new();
            let mut steps = 0;
            for i in from..from + n {
                let p = gen::plan(&a[2], 1, i, false);
                println!("R {i}");
                let o = exec::exec(&p, false);
                shapes.insert(o.shape);
                steps += o.steps;
                for v in &o.viols {
                    let e = classes.entry(v.class.to_string()).or_insert((0, i, v.detail.clone()));
                    e.0 += 1;
                }
            }
            eprintln!("{n} runs {:?} shapes {} steps {steps}", t0.elapsed(), shapes.len());
            for (k, v) in classes {
                eprintln!("{k:24} {:5}  first {:5}  {}", v.0, v.1, v.2.chars().take(160).collect::<String>());
            }
        }
        "one" => {
            let n = num(3).unwrap();
            let p = gen::plan(&a[2], 1, n, false);
            println!("{}", serde_json::to_string(&p).unwrap());
            let o = exec::exec(&p, true);
            for l in o.trace {
                println!("{}", l.chars().take(240).collect::<String>());
            }
            for v in o.viols {
                println!("{} {}", v.class, v.detail);
            }
            println!("{:x} {:?} {:?}", o.hash, o.faults, o.probes);
        }
        // div ID FROM STEP TO: what differs when the last one is executed again
        "div" => {
            let (from, step, to) = (num(3).unwrap(), num(4).unwrap(), num(5).unwrap());
            let mut i = from;
            while i < to {
                exec::exec(&gen::plan(&a[2], 1, i, false), false);
                i += step;
            }
            let p = gen::plan(&a[2], 1, to, false);
            let (x, y) = (exec::exec(&p, true), exec::exec(&p, true));
            for (k, (l, m)) in x.trace.iter().zip(&y.trace).enumerate() {
                if l != m {
                    println!("{k}\n{l}\n{m}");
                    break;
                }
            }
            println!("{:?} {:?}", (x.hash, x.shape, x.steps), (y.hash, y.shape, y.steps));
        }
        // stats ID RUNS: extremes of what is generated
        "stats" => {
            use plan::*;
            use spop::*;
            let mut h = std::collections::BTreeMap::<&str, Vec<(u64, u64)>>::new();
            for i in 0..num(3).unwrap() {
                let p = gen::plan(&a[2], 1, i, false);
                let mut put = |k: &'static str, n: u64| h.entry(k).or_default().push((n, i));
                let World::A(p) = p.world else { continue };
                put("conns", p.conns.len() as u64);
                put("accept faults", p.accept_faults.iter().map(|f| f.count as u64).sum());
                for c in &p.conns {
                    let (mut notifies, mut frags) = (0, 0);
                    let mut open = std::collections::BTreeMap::<(u64, u64), u64>::new();
                    let (mut most_open, mut most_frags) = (0, 0);
                    for op in &c.ops {
                        let Op::Frame(f) = op else { continue };
                        put("frame bytes", wire(f).len() as u64);
                        if let Body::Msgs(m) = &f.body {
                            notifies += 1;
                            put("msgs per frame", m.len() as u64);
                            for m in m {
                                put("args per msg", m.args.len() as u64);
                                for (k, v) in &m.args {
                                    put("arg name", k.len() as u64);
                                    match v {
                                        Val::Str(s) => put("string arg", s.len() as u64),
                                        Val::Bin(s) => put("binary arg", s.len() as u64),
                                        _ => {}
                                    }
                                }
                            }
                            if f.flags & FIN == 0 {
                                frags += 1;
                                let n = open.entry((f.sid, f.fid)).or_default();
                                *n += 1;
                                most_frags = most_frags.max(*n);
                                most_open = most_open.max(open.len() as u64);
                            } else {
                                open.remove(&(f.sid, f.fid));
                            }
                        }
                    }
                    put("notifies per conn", notifies);
                    put("fragments per conn", frags);
                    put("open requests", most_open);
                    put("fragments of one request", most_frags);
                    for k in &c.calls {
                        match &k.out {
                            Out::Acts(v) => put("actions", v.len() as u64),
                            Out::Err(s) => put("error text", s.len() as u64),
                            _ => {}
                        }
                        put("call delay", k.delay);
                    }
                    put("conn at", c.at);
                }
            }
            for (k, mut v) in h {
                v.sort();
                let q = |x: f64| v[((v.len() - 1) as f64 * x) as usize].0;
                println!("{k:26} n {:8} mean {:8.1} 50% {:5} 90% {:6} 99% {:7} 99.9% {:7} max {} (run {})", v.len(), v.iter().map(|n| n.0 as f64).sum::<f64>() / v.len() as f64, q(0.5), q(0.9), q(0.99), q(0.999), v[v.len() - 1].0, v[v.len() - 1].1);
            }
        }
        "twice" => {
            let p = gen::plan(&a[2], 1, num(3).unwrap(), false);
            let (x, y) = (exec::exec(&p, true), exec::exec(&p, true));
            println!("{} {}", x.trace.len(), y.trace.len());
            for (k, (l, m)) in x.trace.iter().zip(&y.trace).enumerate() {
                if l != m {
                    println!("{k}\n{l}\n{m}");
                    break;
                }
            }
            println!("{:?} {:?}", (x.hash, x.shape, x.steps), (y.hash, y.shape, y.steps));
        }
        _ => {
            eprintln!("spopsim check ID [RUNS] | replay FILE | scan ID RUNS [FROM] | one ID RUN");
            std::process::exit(2);
        }
    }
}

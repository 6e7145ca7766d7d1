mod exec;
mod expr;
#[allow(dead_code)]
mod ir;
mod z3;

use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b {
        let _ = write!(o, "{:02x}", x);
    }
    o
}
fn nums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn report(id: &str, h: &str, args: &[u64], r: &exec::JobResult) -> String {
    let s = &r.stats;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"id\":{},\"harness\":{},\"args\":{},\"status\":{},\"wall\":{:.4},\"paths\":{},\"dropped\":{},\"steps\":{},\"forks\":{},\"branches\":{},\"asserts\":{},\"asserts_simplified\":{},\"asserts_solver\":{},\"fast\":{},\"cached\":{},\"queries\":{},\"qsat\":{},\"qunsat\":{},\"qunknown\":{},\"qtime\":{:.4},\"qmax\":{:.4},\"decided\":{},\"confirmed\":{},\"trivial\":{},\"unconfirmed\":{},\"rewrites\":{},\"rewrites_distinct\":{},\"rewrites_checked\":{},\"cqueries\":{},\"ctime\":{:.4}",
        js(id), js(h), nums(args), js(&r.status), r.wall, s.paths, s.dropped, s.steps, s.forks, s.branches, s.asserts,
        s.asserts_simplified, s.asserts_solver, s.fast, s.cached, s.queries, s.qsat, s.qunsat, s.qunknown, s.qtime, s.qmax,
        s.decided, s.confirmed, s.trivial, s.unconfirmed, s.rewrites, s.rewrites_distinct, s.rewrites_checked, s.cqueries, s.ctime
    );
    let mut c: Vec<_> = r.covers.iter().collect();
    c.sort();
    let _ = write!(
        o,
        ",\"covers\":{{{}}}",
        c.iter().map(|(k, (n, m))| format!("\"{}\":[{},\"{}\"]", k, n, hex(m))).collect::<Vec<_>>().join(",")
    );
    let mut c: Vec<_> = r.assert_ids.iter().collect();
    c.sort();
    let _ = write!(
        o,
        ",\"assert_ids\":{{{}}}",
        c.iter().map(|(k, n)| format!("\"{}\":{}", k, n)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        o,
        ",\"samples\":[{}]",
        r.samples.iter().map(|(m, ob)| format!("[\"{}\",{}]", hex(m), nums(ob))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        o,
        ",\"violations\":[{}]}}",
        r.violations
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"detail\":{},\"input\":\"{}\",\"obs\":{},\"stack\":[{}]}}",
                js(&v.kind),
                js(&v.detail),
                hex(&v.input),
                nums(&v.obs),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: f64| -> f64 {
        a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d)
    };
    if a.len() > 1 && a[1] == "--selftest" {
        let r = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(2000);
        let s = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
        println!("selftest ok: {} comparisons", expr::selftest(r, s));
        return;
    }
    if a.len() < 4 {
        eprintln!("usage: symex module.ll jobs.txt out.jsonl [--threads N] [--query-ms N] [--job-secs N] [--steps N] [--paths N] [--samples N] [--seed N] [--stop N] [--wall N]");
        std::process::exit(2);
    }
    let text = std::fs::read_to_string(&a[1]).expect("module");
    let m = match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot parse the module: {}", e);
            std::process::exit(3);
        }
    };
    let jobs: Vec<(String, String, Vec<u64>)> = std::fs::read_to_string(&a[2])
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let mut w = l.split_whitespace();
            let id = w.next().unwrap().to_string();
            let h = w.next().unwrap().to_string();
            (id, h, w.map(|x| x.parse().expect("argument")).collect())
        })
        .collect();
    let threads = opt("--threads", 8.0) as usize;
    let qms = opt("--query-ms", 20000.0) as u32;
    let lim = exec::Limits {
        job_secs: opt("--job-secs", 120.0),
        steps: opt("--steps", 50e6) as u64,
        paths: opt("--paths", 1e7) as u64,
        samples: opt("--samples", 8.0) as usize,
        confirm: opt("--confirm", 1.0) != 0.0,
        rewrites: opt("--rewrites", 1.0) as u64,
        audited: Some(Default::default()),
    };
    let seed = opt("--seed", 1.0) as u64;
    // Stop handing out jobs after this many jobs with violations.
    let stop = opt("--stop", 1e9) as usize;
    let wall = opt("--wall", 1e9);
    let dump = a.iter().position(|x| x == "--dump").and_then(|i| a.get(i + 1)).cloned();
    // Assertions that do not count for --stop.
    let ignore: Vec<String> = a
        .iter()
        .position(|x| x == "--ignore")
        .and_then(|i| a.get(i + 1))
        .map(|x| x.split(',').map(|s| s.to_string()).collect())
        .unwrap_or_default();
    let next = AtomicUsize::new(0);
    let bad = AtomicUsize::new(0);
    let out = Mutex::new(Vec::<String>::new());
    let hits = Mutex::new(vec![0u64; m.funcs.len()]);
    let t0 = std::time::Instant::now();
    // what each thread works on, and since when
    let busy = Mutex::new(vec![None::<(usize, f64)>; threads]);
    let live = AtomicUsize::new(threads);
    let finish = |lines: &[String], hh: &[u64]| {
        let mut f: Vec<String> = Vec::new();
        for (i, n) in hh.iter().enumerate() {
            if *n > 0 {
                let ins: usize = m.funcs[i].blocks.iter().map(|b| b.ins.len() + b.phis.len()).sum();
                f.push(format!("{}:[{},{}]", js(&m.funcs[i].name), n, ins));
            }
        }
        let mut o = lines.join("\n");
        let _ = write!(
            o,
            "\n{{\"summary\":true,\"wall\":{:.3},\"z3\":{},\"functions\":{{{}}}}}\n",
            t0.elapsed().as_secs_f64(),
            js(&z3::version()),
            f.join(",")
        );
        std::fs::write(&a[3], o).expect("output");
    };
    let finish = &finish;
    std::thread::scope(|sc| {
        {
            // A job that does not even notice its time limit must not take the others along.
            let (busy, live, out, hits, next, jobs, lim) = (&busy, &live, &out, &hits, &next, &jobs, &lim);
            sc.spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let n = live.load(Ordering::SeqCst);
                if n == 0 {
                    break;
                }
                let now = t0.elapsed().as_secs_f64();
                let b = busy.lock().unwrap();
                let stuck = |x: &Option<(usize, f64)>| x.map_or(false, |(_, s)| now - s > 1.5 * lim.job_secs + 30.0);
                if now > wall + 1.5 * lim.job_secs + 30.0 || (n == b.iter().filter(|x| stuck(x)).count() && (n == threads || next.load(Ordering::SeqCst) >= jobs.len())) {
                    let mut o = out.lock().unwrap();
                    for x in b.iter() {
                        if let Some((i, _)) = x {
                            o.push(format!("{{\"id\":{},\"status\":\"error: stuck\"}}", js(&jobs[*i].0)));
                        }
                    }
                    let i0 = next.swap(jobs.len(), Ordering::SeqCst);
                    for i in i0..jobs.len() {
                        o.push(format!("{{\"id\":{},\"status\":\"error: out of time\"}}", js(&jobs[i].0)));
                    }
                    finish(&o, &hits.lock().unwrap());
                    std::process::exit(0);
                }
            });
        }
        for t in 0..threads {
            let (m, jobs, next, out, hits, bad, lim, dump, ignore) = (&m, &jobs, &next, &out, &hits, &bad, &lim, &dump, &ignore);
            let (busy, live) = (&busy, &live);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || {
                    let mut ex = exec::Exec::new(m, qms, dump.as_ref().map(|d| format!("{}.{}", d, t)));
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= jobs.len() {
                            break;
                        }
                        let (id, h, args) = &jobs[i];
                        busy.lock().unwrap()[t] = Some((i, t0.elapsed().as_secs_f64()));
                        let line = if bad.load(Ordering::SeqCst) >= stop {
                            format!("{{\"id\":{},\"status\":\"skipped\"}}", js(id))
                        } else if t0.elapsed().as_secs_f64() > wall {
                            format!("{{\"id\":{},\"status\":\"error: out of time\"}}", js(id))
                        } else {
                            let q = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run_job(h, args, lim, seed.wrapping_add(i as u64))));
                            let r = match q {
                                Ok(r) => r,
                                Err(_) => {
                                    ex = exec::Exec::new(m, qms, None);
                                    exec::JobResult::failed("error: the executor panicked")
                                }
                            };
                            if r.violations.iter().any(|v| v.kind != "assert" || !ignore.contains(&v.detail)) {
                                bad.fetch_add(1, Ordering::SeqCst);
                            }
                            report(id, h, args, &r)
                        };
                        {
                            let mut b = busy.lock().unwrap();
                            b[t] = None;
                            out.lock().unwrap().push(line);
                        }
                        let mut hh = hits.lock().unwrap();
                        for (x, y) in hh.iter_mut().zip(&mut ex.funcs_hit) {
                            *x += *y;
                            *y = 0;
                        }
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    let lines = out.into_inner().unwrap();
    finish(&lines, &hits.into_inner().unwrap());
}

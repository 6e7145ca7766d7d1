//! Runs harness jobs natively on recorded inputs.  One job per line on stdin:
//!   <tag> <harness> <12 arguments> <hex input or ->
//! and one line per job on stdout:
//!   <tag> obs=<comma list> asserts=<failed ids> panic=<message or -> assume=<0|1>
//! The line is written before the next job starts, so a crash or hang names its job.
#[path = "../../src/body.rs"]
pub mod body;
#[path = "../../src/oracle.rs"]
pub mod oracle;
#[path = "../../src/spec.rs"]
pub mod spec;

use std::cell::RefCell;
use std::io::{BufRead, Write};

#[derive(Default)]
struct S {
    input: Vec<u8>,
    at: usize,
    obs: Vec<u64>,
    bad: Vec<u32>,
    msg: String,
}
thread_local! { static ST: RefCell<S> = RefCell::new(S::default()); }

struct Infeasible;

#[no_mangle]
unsafe extern "C-unwind" fn sym_bytes(p: *mut u8, n: usize) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for j in 0..n {
            let v = s.input.get(s.at).copied().unwrap_or(0);
            s.at += 1;
            *p.add(j) = v;
        }
    })
}
#[no_mangle]
extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        std::panic::panic_any(Infeasible)
    }
}
#[no_mangle]
extern "C-unwind" fn sym_assert(c: bool, id: u32) {
    if !c {
        ST.with(|s| s.borrow_mut().bad.push(id))
    }
}
#[no_mangle]
extern "C-unwind" fn sym_cover(_: u32) {}
#[no_mangle]
extern "C-unwind" fn sym_observe(v: u64) {
    ST.with(|s| s.borrow_mut().obs.push(v))
}
#[no_mangle]
extern "C-unwind" fn sym_split(v: u64) -> u64 {
    v
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        ST.with(|s| s.borrow_mut().msg = format!("{} at {}", m, l).replace(|c: char| c == '\n' || c == '\t', " "));
    }));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.len() != 15 {
            eprintln!("bad line: {}", line);
            std::process::exit(2);
        }
        let a: Vec<u64> = w[2..14].iter().map(|x| x.parse().unwrap()).collect();
        let hx = if w[14] == "-" { "" } else { w[14] };
        let input: Vec<u8> = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect();
        {
            let mut o = out.lock();
            write!(o, "{}", w[0]).unwrap();
            o.flush().unwrap();
        }
        ST.with(|s| *s.borrow_mut() = S { input, ..S::default() });
        let h = w[1].to_string();
        // every run on its own thread: a large, fresh stack
        let r = std::thread::scope(|sc| {
            let st = ST.with(|s| std::mem::take(&mut *s.borrow_mut()));
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    ST.with(|s| *s.borrow_mut() = st);
                    let r = std::panic::catch_unwind(|| {
                        macro_rules! go { ($($n:ident),*) => { match h.as_str() {
                            $(stringify!($n) => body::$n(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]),)*
                            _ => { eprintln!("no harness {}", h); std::process::exit(2) }
                        } } }
                        go!(h_dec, h_enc, h_ascii, h_dec_l, h_enc_l, h_ascii_l, h_dec_x, h_enc_x)
                    });
                    let st = ST.with(|s| std::mem::take(&mut *s.borrow_mut()));
                    (r.err().map(|e| e.is::<Infeasible>()), st)
                })
                .unwrap()
                .join()
                .unwrap()
        });
        let (e, st) = r;
        let mut o = out.lock();
        writeln!(
            o,
            "\tobs={}\tasserts={}\tpanic={}\tassume={}",
            st.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            st.bad.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            if e == Some(false) { st.msg.as_str() } else { "-" },
            if e == Some(true) { 0 } else { 1 },
        )
        .unwrap();
        o.flush().unwrap();
    }
}

extern crate alloc;

mod bfs;
mod bm;
mod c;
mod ctx;
mod heap;
mod p;
mod refm;
mod sig;
mod step;

use ctx::{Cx, Merged};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn to_json(m: &Merged, secs: f64) -> String {
    let v: Vec<String> = m.viol.iter().map(|v| format!("{{\"case\":{:?},\"msg\":{}}}", v.case, jstr(&v.msg))).collect();
    let s: Vec<String> = m.samples.iter().map(|s| jstr(s)).collect();
    let mut notes = m.notes.clone();
    if ctx::LATE.load(std::sync::atomic::Ordering::Relaxed) {
        notes.insert("out of time".into(), 1);
    }
    let n: Vec<String> = notes.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    format!(
        "{{\"states\":{},\"transitions\":{},\"traces\":{},\"outcomes\":{},\"violations\":[{}],\"samples\":[{}],\"notes\":{{{}}},\"seconds\":{:.3}}}",
        m.states, m.transitions, m.traces, m.outcomes, v.join(","), s.join(","), n.join(","), secs
    )
}

fn parse_case(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().expect("number")).collect()
}

fn usage() -> ! {
    eprintln!("mc run ID quick|thorough OUT.json [workers] | mc replay ID n,n,... | mc refcheck FILE");
    std::process::exit(2)
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

/// Compare the reference model with vectors made by another implementation.
/// Lines: s out fanout depth leaf noff ndepth inner last key salt personal msg digest | p out key msg digest ('-' is empty)
fn refcheck(file: &str) {
    let f = std::fs::read_to_string(file).expect("vectors");
    let (mut n, mut bad) = (0, 0);
    for l in f.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let b = |s: &str| if s == "-" { vec![] } else { unhex(s) };
        let (got, want) = if w[0] == "s" {
            let num = |i: usize| w[i].parse::<u64>().expect("number");
            let r = refm::RP {
                out: num(1) as u8, fanout: num(2) as u8, depth: num(3) as u8, leaf: num(4) as u32, noff: num(5), ndepth: num(6) as u8,
                inner: num(7) as u8, last: num(8) != 0, key: b(w[9]), salt: b(w[10]), personal: b(w[11]),
            };
            let msg = b(w[12]);
            let d = r.hash(&msg);
            if msg.len() < 400 {
                let t = refm::prefix_table(&r, &msg);
                assert_eq!(t[msg.len()], d);
            }
            (d, b(w[13]))
        } else {
            let (out, key, msg) = (w[1].parse().expect("out"), b(w[2]), b(w[3]));
            let d = refm::blake2sp(out, &key, &msg);
            if msg.len() < 1700 {
                assert_eq!(refm::sp_prefix_table(out, &key, &msg)[msg.len()], d);
            }
            (d, b(w[4]))
        };
        n += 1;
        if got != want {
            bad += 1;
            eprintln!("reference mismatch: {}", &l[..l.len().min(200)]);
        }
    }
    println!("refcheck {} {}", n, bad);
    std::process::exit(if bad == 0 && n > 0 { 0 } else { 3 });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        usage();
    }
    if a[1] == "refcheck" {
        refcheck(&a[2]);
    }
    ctx::set_until();
    std::panic::set_hook(Box::new(|_| {}));
    sig::install();
    ctx::data();
    if a[1] == "steps" || a[1] == "races" {
        heap::simple();
    }
    if a[1] == "steps" && a.len() >= 6 {
        let t = std::time::Instant::now();
        let m = c::c17::steps(a[2] == "thorough", a[4].parse().expect("number"), a[5].parse().expect("number"));
        std::fs::write(&a[3], to_json(&m, t.elapsed().as_secs_f64())).expect("write result");
        std::process::exit(if m.viol.is_empty() { 0 } else { 1 });
    }
    if a[1] == "races" && a.len() >= 7 {
        let t = std::time::Instant::now();
        let m = c::races::races(a[2] == "thorough", a[4].parse().expect("number"), a[5].parse().expect("number"), &a[6]);
        std::fs::write(&a[3], to_json(&m, t.elapsed().as_secs_f64())).expect("write result");
        std::process::exit(if m.viol.is_empty() { 0 } else { 1 });
    }
    if let Ok(f) = std::env::var("MC_ADDRESSES") {
        assert!(step::load(&f) > 0, "empty address table");
    }
    let Some(check) = c::get(&a[2]) else { usage() };
    match a[1].as_str() {
        "run" if a.len() >= 5 => {
            let t = std::time::Instant::now();
            let n = a.get(5).and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get()));
            let m = ctx::run_parallel(&*check, a[3] == "thorough", n);
            std::fs::write(&a[4], to_json(&m, t.elapsed().as_secs_f64())).expect("write result");
            std::process::exit(if m.viol.is_empty() { 0 } else { 1 });
        }
        "replay" if a.len() >= 4 => {
            let case = parse_case(&a[3]);
            let mut cx = Cx::new(0, 1, false);
            cx.set_case(&case);
            println!("{}", ctx::describe(&*check, &case));
            match ctx::guarded(&*check, &case, &mut cx) {
                Ok(()) => println!("HOLDS"),
                Err(m) => {
                    println!("FAILS: {}", m);
                    std::process::exit(1);
                }
            }
        }
        _ => usage(),
    }
}

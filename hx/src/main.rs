//! hx list | hx replay NAME FILE | hx search NAME SEED MAX_ITERS MAX_MILLIS PROGRESS_FILE | hx one NAME SEED ITER
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    native::main()
}

#[cfg(not(kani))]
mod native {
    use hx::nd::{Discard, STATE, Source, rng};
    use std::cell::RefCell;
    use std::fmt::Write as _;
    use std::panic::{AssertUnwindSafe, catch_unwind};
    use std::time::{Duration, Instant};

    thread_local!(static LAST: RefCell<String> = const { RefCell::new(String::new()) });

    enum Outcome {
        Ok,
        Discarded,
        Failed(String),
    }

    fn run(f: fn(), src: Source) -> Outcome {
        STATE.with(|s| {
            let mut s = s.borrow_mut();
            s.src = src;
            s.trace.clear();
            s.text.clear();
        });
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(()) => Outcome::Ok,
            Err(p) if p.is::<Discard>() => Outcome::Discarded,
            Err(_) => Outcome::Failed(LAST.with(|l| l.borrow().clone())),
        }
    }

    fn esc(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }

    fn trace_json() -> String {
        STATE.with(|s| {
            let s = s.borrow();
            let t: Vec<String> = s.trace.iter().map(|b| format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect();
            let x: Vec<String> = s.text.iter().map(|b| esc(b)).collect();
            format!("\"vals\":[{}],\"text\":[{}]", t.join(","), x.join(","))
        })
    }

    fn iter_source(seed: u64, i: u64) -> Source {
        let mut st = seed ^ i.wrapping_mul(0xD1342543DE82EF95);
        rng(&mut st);
        Source::Random { state: st }
    }

    pub fn main() {
        std::panic::set_hook(Box::new(|info| {
            if info.payload().is::<Discard>() {
                return;
            }
            let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
        }));
        let a: Vec<String> = std::env::args().collect();
        let find = |n: &str| hx::all().into_iter().find(|h| h.name == n).unwrap_or_else(|| {
            eprintln!("no harness {n}");
            std::process::exit(3)
        });
        match a.get(1).map(|s| s.as_str()) {
            Some("list") => {
                let v: Vec<String> = hx::all().iter().map(|h| format!("{{\"name\":{},\"kind\":{},\"bound\":{}}}", esc(h.name), esc(h.kind), esc(h.bound))).collect();
                println!("[{}]", v.join(",\n"));
            }
            Some("replay") => {
                let h = find(&a[2]);
                // one value per line: space separated bytes
                let txt = std::fs::read_to_string(&a[3]).expect("replay file");
                let vals = txt.lines().filter(|l| !l.starts_with('#')).map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
                match run(h.f, Source::Replay { vals, next: 0 }) {
                    Outcome::Ok => println!("{{\"result\":\"ok\"}}"),
                    Outcome::Discarded => println!("{{\"result\":\"discarded\"}}"),
                    Outcome::Failed(m) => println!("{{\"result\":\"failed\",\"message\":{},{}}}", esc(&m), trace_json()),
                }
            }
            Some("one") => {
                let h = find(&a[2]);
                let (seed, i): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
                match run(h.f, iter_source(seed, i)) {
                    Outcome::Ok => println!("{{\"result\":\"ok\",{}}}", trace_json()),
                    Outcome::Discarded => println!("{{\"result\":\"discarded\"}}"),
                    Outcome::Failed(m) => println!("{{\"result\":\"failed\",\"message\":{},{}}}", esc(&m), trace_json()),
                }
            }
            Some("search") => {
                use std::os::unix::fs::FileExt;
                let h = find(&a[2]);
                let seed: u64 = a[3].parse().unwrap();
                let max: u64 = a[4].parse().unwrap();
                let limit = Duration::from_millis(a[5].parse().unwrap());
                let prog = std::fs::File::create(&a[6]).unwrap();
                let t0 = Instant::now();
                let (mut ok, mut disc) = (0u64, 0u64);
                let mut i = 0;
                let mut distinct = std::collections::HashSet::new();
                let mut sample = String::new();
                while i < max && t0.elapsed() < limit {
                    prog.write_at(&i.to_le_bytes(), 0).unwrap();
                    match run(h.f, iter_source(seed, i)) {
                        Outcome::Ok => {
                            ok += 1;
                            STATE.with(|s| {
                                use std::hash::{DefaultHasher, Hash, Hasher};
                                let s = s.borrow();
                                if distinct.len() < 2_000_000 {
                                    let mut hs = DefaultHasher::new();
                                    s.trace.hash(&mut hs);
                                    distinct.insert(hs.finish());
                                }
                                if sample.is_empty() {
                                    sample = s.text.join(" ");
                                }
                            });
                        }
                        Outcome::Discarded => disc += 1,
                        Outcome::Failed(m) => {
                            println!("{{\"result\":\"failed\",\"iter\":{i},\"message\":{},{}}}", esc(&m), trace_json());
                            return;
                        }
                    }
                    i += 1;
                }
                let reached = STATE.with(|s| s.borrow().reached.iter().map(|r| esc(r)).collect::<Vec<_>>().join(","));
                println!("{{\"result\":\"ok\",\"iters\":{i},\"passed\":{ok},\"discarded\":{disc},\"distinct\":{},\"reached\":[{reached}],\"sample\":{}}}", distinct.len(), esc(&sample));
            }
            _ => std::process::exit(3),
        }
    }
}

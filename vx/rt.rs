// Run-time support appended to the scratch copy of the crate (cfg kani / cfg vx only).
#[cfg(any(kani, vx))]
#[allow(dead_code, missing_docs, unused_imports)]
pub(crate) mod vx_rt {
    #[cfg(kani)]
    pub fn any<T: kani::Arbitrary>() -> T { kani::any() }
    #[cfg(kani)]
    pub fn assume(c: bool) { kani::assume(c) }
    #[cfg(kani)]
    pub fn f64_in(lo: f64, hi: f64) -> f64 { let x: f64 = kani::any(); kani::assume(x >= lo && x <= hi); x }
    #[cfg(kani)]
    pub fn int_in(lo: i64, hi: i64) -> i64 { let x: i64 = kani::any(); kani::assume(x >= lo && x <= hi); x }
    #[cfg(kani)]
    pub fn finite() -> f64 { let x: f64 = kani::any(); kani::assume(x.is_finite()); x }
    #[cfg(kani)]
    pub fn cover(c: bool) { kani::cover!(c) }

    #[cfg(vx)]
    pub use native::*;

    #[cfg(vx)]
    mod native {
        use std::cell::RefCell;
        use std::collections::HashSet;
        use std::panic::{catch_unwind, AssertUnwindSafe};

        #[derive(Default)]
        pub struct State {
            s: u64,
            salt: u64,
            log: Vec<String>,
            replay: Option<std::collections::VecDeque<Vec<u8>>>,
            covered: u64,
            // per-harness statistics
            evals: u64,
            nontrivial: u64,
            seen: HashSet<u64>,
            samples: Vec<String>,
            fails: u64,
            name: String,
            last_panic: String,
        }
        thread_local! { static ST: RefCell<State> = RefCell::new(State::default()); }
        pub struct Skip;

        pub fn rnd() -> u64 {
            ST.with(|s| {
                let mut s = s.borrow_mut();
                s.s = s.s.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = s.s;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                z ^ (z >> 31)
            })
        }
        /// Describe the current random case (shown when it fails).
        pub fn note(x: String) { if let Ok(mut g) = WATCH.lock() { if let Some((_, _, d)) = &mut *g { *d = x.clone(); } } log(x) }
        /// A number that stays the same during a random case.
        pub fn salt() -> u64 { ST.with(|s| { let z = s.borrow().salt; let z = (z ^ (z >> 31)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 29) }) }
        pub fn below(n: u64) -> u64 { if n == 0 { 0 } else { rnd() % n } }
        pub fn unit() -> f64 { (rnd() >> 11) as f64 / (1u64 << 53) as f64 }
        fn next_replay() -> Option<Vec<u8>> {
            ST.with(|s| s.borrow_mut().replay.as_mut().map(|q| q.pop_front().unwrap_or_default()))
        }
        fn log(x: String) { ST.with(|s| s.borrow_mut().log.push(x)) }

        pub trait Arb: Sized + std::fmt::Debug {
            fn gen() -> Self;
            fn from_bytes(b: &[u8]) -> Self;
        }
        macro_rules! int {
            ($($t:ty),*) => { $(impl Arb for $t {
                fn gen() -> Self {
                    match below(8) {
                        0..=3 => (below(9) as i64 - (if <$t>::MIN == 0 { 0 } else { 4 })) as $t,
                        4 => <$t>::MAX.wrapping_sub(below(3) as $t),
                        5 => <$t>::MIN.wrapping_add(below(3) as $t),
                        6 => (rnd() as $t) >> (below(<$t>::BITS as u64) as u32),
                        _ => rnd() as $t,
                    }
                }
                fn from_bytes(b: &[u8]) -> Self {
                    let mut a = [0u8; std::mem::size_of::<$t>()];
                    let n = a.len().min(b.len());
                    a[..n].copy_from_slice(&b[..n]);
                    <$t>::from_le_bytes(a)
                }
            })* }
        }
        int!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
        impl Arb for bool {
            fn gen() -> Self { rnd() & 1 == 1 }
            fn from_bytes(b: &[u8]) -> Self { b.first().copied().unwrap_or(0) & 1 == 1 }
        }
        thread_local! { static RECENT: RefCell<Vec<f64>> = const { RefCell::new(Vec::new()) }; }
        impl Arb for f64 {
            fn gen() -> Self {
                let x = match below(16) {
                    0..=3 => below(17) as f64 - 8.0,
                    4..=5 => (below(257) as f64 - 128.0) / 16.0,
                    6..=7 => unit() * 20.0 - 10.0,
                    8 => *[0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, -1e-300, 5e-324, f64::MIN_POSITIVE, 1e-6, 1e16, -1e16][below(12) as usize..].first().unwrap(),
                    9 => *[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::EPSILON, -f64::NAN][below(7) as usize..].first().unwrap(),
                    10 => f64::from_bits(rnd()),
                    11 => (unit() - 0.5) * 10f64.powi(below(40) as i32 - 20),
                    12..=13 => RECENT.with(|r| { let r = r.borrow(); if r.is_empty() { 0.0 } else { r[below(r.len() as u64) as usize] } }),
                    14 => RECENT.with(|r| { let r = r.borrow(); if r.is_empty() { 1.0 } else { let x = r[below(r.len() as u64) as usize]; f64::from_bits(x.to_bits().wrapping_add(below(5)).wrapping_sub(2)) } }),
                    _ => RECENT.with(|r| { let r = r.borrow(); if r.is_empty() { -1.0 } else { let x = r[below(r.len() as u64) as usize]; x + (unit() - 0.5) * 1e-6 } }),
                };
                RECENT.with(|r| r.borrow_mut().push(x));
                x
            }
            fn from_bytes(b: &[u8]) -> Self { f64::from_bits(u64::from_bytes(b)) }
        }
        pub fn any<T: Arb>() -> T {
            let x = match next_replay() { Some(b) => T::from_bytes(&b), None => T::gen() };
            log(format!("{:?}", x));
            x
        }
        pub fn assume(c: bool) { if !c { std::panic::panic_any(Skip) } }
        pub fn f64_in(lo: f64, hi: f64) -> f64 {
            let x = match next_replay() {
                Some(b) => { let x = f64::from_bytes(&b); assume(x >= lo && x <= hi); x }
                None => {
                    let mut x = match below(8) {
                        0 => lo,
                        1 => hi,
                        2 => 0.0,
                        3 => f64::gen(),
                        4 | 5 => ((lo + (hi - lo) * unit()) * 16.0).round() / 16.0,
                        _ => lo + (hi - lo) * unit(),
                    };
                    if !(x >= lo && x <= hi) { x = lo + (hi - lo) * unit(); }
                    if !(x >= lo && x <= hi) { x = lo; }
                    RECENT.with(|r| r.borrow_mut().push(x));
                    x
                }
            };
            log(format!("{:?}", x));
            x
        }
        pub fn int_in(lo: i64, hi: i64) -> i64 {
            let x = match next_replay() {
                Some(b) => { let x = i64::from_bytes(&b); assume(x >= lo && x <= hi); x }
                None => lo + below((hi - lo + 1) as u64) as i64,
            };
            log(format!("{:?}", x));
            x
        }
        pub fn finite() -> f64 {
            match next_replay() {
                Some(b) => { let x = f64::from_bytes(&b); assume(x.is_finite()); log(format!("{:?}", x)); x }
                None => loop { let x = f64::gen(); if x.is_finite() { log(format!("{:?}", x)); return x } },
            }
        }
        pub fn cover(c: bool) { if c { ST.with(|s| s.borrow_mut().covered += 1) } }

        fn esc(s: &str) -> String {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        fn hash(x: &[String]) -> u64 {
            let mut h = 0xcbf29ce484222325u64;
            for s in x { for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h = h.wrapping_mul(31) ^ 7; }
            h
        }
        pub fn report_fail(input: &str, why: &str) {
            let (name, n) = ST.with(|s| { let mut s = s.borrow_mut(); s.fails += 1; (s.name.clone(), s.fails) });
            if n <= 3 {
                println!("{{\"vx\":\"fail\",\"check\":{},\"input\":{},\"why\":{}}}", esc(&name), esc(input), esc(why));
            }
        }
        /// One case of an enumerating check: `desc` describes the input; a panic is a failure.
        pub fn case<F: FnOnce()>(desc: impl Fn() -> String, nontrivial: bool, f: F) {
            watch(Some(desc()));
            let r = catch_unwind(AssertUnwindSafe(f));
            watch(None);
            ST.with(|s| {
                let mut s = s.borrow_mut();
                s.evals += 1;
                if nontrivial { s.nontrivial += 1; if s.samples.len() < 3 && s.evals % 7 == 1 { let d = desc(); s.samples.push(d); } }
            });
            if let Err(e) = r {
                if e.downcast_ref::<Skip>().is_none() {
                    let why = ST.with(|s| s.borrow().last_panic.clone());
                    report_fail(&desc(), &why);
                }
            }
        }
        pub fn failed() -> bool { ST.with(|s| s.borrow().fails > 0) }
        use std::sync::Mutex;
        static WATCH: Mutex<Option<(std::time::Instant, String, String)>> = Mutex::new(None);
        fn watch(d: Option<String>) {
            let n = ST.with(|s| s.borrow().name.clone());
            *WATCH.lock().unwrap() = d.map(|d| (std::time::Instant::now(), n, d));
        }
        fn start_watch() {
            std::thread::spawn(|| loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let g = WATCH.lock().unwrap();
                if let Some((t, n, d)) = &*g {
                    if t.elapsed().as_secs() > 30 {
                        println!("{{\"vx\":\"fail\",\"check\":{},\"input\":{},\"why\":\"did not return within 30 s\"}}", esc(n), esc(d));
                        use std::io::Write;
                        let _ = std::io::stdout().flush();
                        std::process::exit(3);
                    }
                }
            });
        }

        pub enum Kind { Random(u64), Once }

        pub fn run(harnesses: &[(&str, Kind, fn())]) {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let replay = std::env::var("VX_REPLAY").ok();
            std::panic::set_hook(Box::new(|i| {
                if i.payload().downcast_ref::<Skip>().is_some() { return; }
                let m = i.payload().downcast_ref::<String>().cloned()
                    .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                ST.with(|s| s.borrow_mut().last_panic = format!("panicked at {l}: {m}"));
            }));
            start_watch();
            for (name, kind, f) in harnesses {
                if let Ok(only) = std::env::var("VX_ONLY") { if only != *name { continue } }
                ST.with(|s| { *s.borrow_mut() = State { name: name.to_string(), ..Default::default() } });
                if let Some(rp) = &replay {
                    // "1,2,3;4,5,6": one byte list per generated value
                    let q = rp.split(';').map(|v| v.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect()).collect();
                    ST.with(|s| s.borrow_mut().replay = Some(q));
                    watch(Some("replayed verifier counterexample".into()));
                    let r = catch_unwind(AssertUnwindSafe(f));
                    watch(None);
                    let input = ST.with(|s| s.borrow().log.join(", "));
                    match r {
                        Err(e) if e.downcast_ref::<Skip>().is_none() => { let why = ST.with(|s| s.borrow().last_panic.clone()); report_fail(&input, &why) }
                        Err(_) => println!("{{\"vx\":\"replay\",\"check\":{},\"result\":\"outside the precondition\",\"input\":{}}}", esc(name), esc(&input)),
                        Ok(()) => println!("{{\"vx\":\"replay\",\"check\":{},\"result\":\"no failure\",\"input\":{}}}", esc(name), esc(&input)),
                    }
                    continue;
                }
                let t0 = std::time::Instant::now();
                let mut skipped = 0u64;
                match kind {
                    Kind::Once => { ST.with(|s| s.borrow_mut().s = seed.wrapping_mul(0x5851F42D4C957F2D)); 
                        let r = catch_unwind(AssertUnwindSafe(f));
                        watch(None);
                        if r.is_err() { let why = ST.with(|s| s.borrow().last_panic.clone()); report_fail("(outside any case)", &why); } }
                    Kind::Random(n) => for i in 0..*n {
                        ST.with(|s| { let mut s = s.borrow_mut(); s.s = seed.wrapping_mul(0x5851F42D4C957F2D).wrapping_add(i.wrapping_mul(0x14057B7EF767814F)); s.salt = s.s; s.log.clear(); s.covered = 0; });
                        RECENT.with(|r| r.borrow_mut().clear());
                        if i % 64 == 0 { watch(Some(format!("random case {i} of {name} or one of the next 63"))); }
                        let r = catch_unwind(AssertUnwindSafe(f));
                        match r {
                            Err(e) if e.downcast_ref::<Skip>().is_some() => { skipped += 1; }
                            Err(_) => { let (l, why) = ST.with(|s| (s.borrow().log.join(", "), s.borrow().last_panic.clone())); report_fail(&format!("[VERIF_SEED={seed} case {i}] {l}"), &why); 
                                if ST.with(|s| s.borrow().fails) > 20 { break } }
                            Ok(()) => ST.with(|s| {
                                let mut s = s.borrow_mut();
                                s.evals += 1;
                                let h = hash(&s.log);
                                if s.seen.insert(h) { s.nontrivial += 1; }
                                if s.samples.len() < 3 && s.evals % 50 == 1 { let l = s.log.join(", "); s.samples.push(l); }
                            }),
                        }
                    },
                }
                watch(None);
                ST.with(|s| {
                    let s = s.borrow();
                    let smp: Vec<String> = s.samples.iter().map(|x| esc(&x.chars().take(300).collect::<String>())).collect();
                    println!("{{\"vx\":\"stat\",\"check\":{},\"evaluations\":{},\"nontrivial\":{},\"skipped\":{},\"fails\":{},\"secs\":{:.3},\"samples\":[{}]}}",
                        esc(name), s.evals, s.nontrivial, skipped, s.fails, t0.elapsed().as_secs_f64(), smp.join(","));
                });
            }
        }
    }
}

//! Executable contracts for the real code: every case runs functions of /repo's crate and compares them
//! with a direct, brute-force statement of the property.
use rand::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
pub mod oracle;
pub mod pots;
pub mod cchs;
pub mod td;

pub struct Ctx {
    pub suite: String,
    pub thorough: bool,
    pub seed: u64,
    pub rng: StdRng,
    idx: u64,
    only: Option<u64>,
    trace: bool,
    pub counts: Vec<(String, u64)>,
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static STARTED: AtomicU64 = AtomicU64::new(0);

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

/// runs a whole suite; exits 0 (no failing case) or 1 (first failing case printed)
pub fn main(suite: &str, f: impl FnOnce(&mut Ctx)) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    let limit: u64 = std::env::var("VP_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    if std::env::var("VP_STDERR").is_err() {
        // the code under test reports its progress on stderr
        use std::os::fd::AsRawFd;
        extern "C" {
            fn dup2(a: i32, b: i32) -> i32;
        }
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        unsafe { dup2(null.as_raw_fd(), 2) };
    }
    if std::env::var("VP_STDERR").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let c = CUR.load(SeqCst);
        let s = STARTED.load(SeqCst);
        if c != u64::MAX && now() > s + limit {
            println!("HANG case={}", c);
            std::process::exit(3);
        }
    });
    let mut ctx = Ctx {
        suite: suite.to_owned(),
        thorough,
        seed,
        rng: StdRng::seed_from_u64(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5bd1),
        idx: 0,
        only: std::env::var("VP_ONLY").ok().and_then(|s| s.parse().ok()),
        trace: std::env::var("VP_TRACE").is_ok(),
        counts: vec![],
    };
    f(&mut ctx);
    let total = ctx.idx;
    let groups: Vec<String> = ctx.counts.iter().map(|(n, c)| format!("{:?}: {}", n, c)).collect();
    println!("OK cases={} groups={{{}}}", total, groups.join(", "));
    std::process::exit(0);
}

/// number of worker threads the code under test may use from now on (at most what the machine offers)
pub fn threads(k: usize) {
    let max = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(1);
    std::env::set_var("RAYON_NUM_THREADS", k.min(max).to_string());
}

impl Ctx {
    pub fn rng(&mut self) -> StdRng {
        StdRng::seed_from_u64(self.rng.gen())
    }
    /// how many random cases: quick count, or `factor` times as many in the thorough tier
    pub fn n(&self, quick: usize, factor: usize) -> usize {
        quick * if self.thorough { factor.max(self.boost()) } else { self.boost() }
    }
    /// cheap suites run more cases: a quick run takes some ten seconds whatever the suite
    fn boost(&self) -> usize {
        match self.suite.as_str() {
            "c17" => 2,
            "c16" | "c18" | "c02" => 3,
            "c14" | "c15" => 5,
            "c19" | "c20" | "c21" | "c22" | "c24" => 8,
            "c25" => 40,
            _ => 15,
        }
    }

    pub fn case(&mut self, group: &str, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        let i = self.idx;
        self.idx += 1;
        match self.counts.iter_mut().find(|(g, _)| g == group) {
            Some(e) => e.1 += 1,
            None => {
                self.counts.push((group.to_owned(), 1));
                let d: String = desc().replace('\n', " ").chars().take(300).collect();
                println!("SAMPLE [{}] {}", group, d);
            }
        }
        if self.only.map(|o| o != i).unwrap_or(false) {
            return;
        }
        if self.trace {
            use std::io::Write;
            println!("CASE {} [{}] {}", i, group, desc());
            std::io::stdout().flush().unwrap();
        }
        STARTED.store(now(), SeqCst);
        CUR.store(i, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        CUR.store(u64::MAX, SeqCst);
        let err = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into());
                format!("panicked: {}", m)
            }
        };
        println!("FAILED case={} group={}", i, group);
        println!("INPUT {}", desc().replace('\n', " "));
        println!("ERROR {}", err.replace('\n', " "));
        std::process::exit(1);
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}
pub mod servers;

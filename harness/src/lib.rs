//! Shared helpers for the executable contract searches.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// integers with boundary bias
    pub fn edge(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => u64::MAX - self.below(4),
            2 => {
                let b = self.below(64);
                (1u64 << b).wrapping_add(self.below(3)).wrapping_sub(1)
            }
            3 => self.below(300),
            4 => u32::MAX as u64 - 2 + self.below(5),
            5 => u16::MAX as u64 - 2 + self.below(5),
            _ => self.next() >> self.below(64),
        }
    }
    pub fn edge32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(4) as u32,
            1 => u32::MAX - self.below(4) as u32,
            2 => (1u32 << self.below(32)).wrapping_add(self.below(3) as u32).wrapping_sub(1),
            _ => (self.next() as u32) >> self.below(32),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
}

static CASE: Mutex<String> = Mutex::new(String::new());
static TICKS: AtomicU64 = AtomicU64::new(0);
static TRACE: OnceLock<Option<std::path::PathBuf>> = OnceLock::new();
thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    rule: String,
    exhaustive: bool,
    deadline: std::time::Instant,
    started: std::time::Instant,
}

pub struct Fail(pub String);
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! chk {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::Fail(format!($($a)*))); } };
}

impl Ctx {
    /// record one evaluated case; `key` identifies it, trivial cases are not counted as distinct
    pub fn case<K: Hash + std::fmt::Debug>(&mut self, key: K, nontrivial: bool) {
        self.evals += 1;
        TICKS.fetch_add(1, Ordering::Relaxed);
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            if self.distinct.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 6 && self.evals % 997 == 0)) {
                let mut s = format!("{:?}", key);
                if s.len() > 300 {
                    let mut cut = 300;
                    while !s.is_char_boundary(cut) { cut -= 1; }
                    s.truncate(cut);
                }
                self.samples.push(s);
            }
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rule = s.to_string();
    }
    /// whether a known finding of this property, by its key in known-findings.txt, is listed
    pub fn known(&self, key: &str) -> bool {
        std::env::var("VERIF_KNOWN").unwrap_or_default().split(',').any(|k| k == key)
    }
    pub fn exhaustive(&mut self) {
        self.exhaustive = true;
    }
    /// iterations scaled by tier
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough { quick.saturating_mul(12) } else { quick }
    }
    pub fn out_of_time(&self) -> bool {
        std::time::Instant::now() > self.deadline
    }
    pub fn elapsed(&self) -> f64 {
        self.started.elapsed().as_secs_f64()
    }
}

/// description of the input currently exercised, used when the code under test panics
pub fn at(s: impl Into<String>) {
    let s = s.into();
    TICKS.fetch_add(1, Ordering::Relaxed);
    if let Some(p) = TRACE.get_or_init(|| std::env::var_os("VERIF_TRACE").map(Into::into)) {
        let _ = std::fs::write(p, &s);
    }
    *CASE.lock().unwrap() = s;
}

/// run `f`, turning a panic into Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// entry point of every harness binary
pub fn main_with(table: &[(&str, fn(&mut Ctx) -> R)]) {
    let mut prop = String::new();
    let (mut seed, mut tier, mut secs) = (1u64, "quick".to_string(), 0u64);
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--seed" => seed = a.next().unwrap().parse().unwrap(),
            "--tier" => tier = a.next().unwrap(),
            "--secs" => secs = a.next().unwrap().parse().unwrap(),
            _ => prop = x,
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let thorough = tier == "thorough";
    if secs == 0 {
        secs = if thorough { 400 } else { 45 };
    }
    let f = table.iter().find(|(n, _)| *n == prop).expect("unknown property").1;
    let started = std::time::Instant::now();
    let mut ctx = Ctx {
        prop: prop.clone(),
        seed,
        thorough,
        rng: Rng::new(seed),
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        rule: String::new(),
        exhaustive: false,
        deadline: started + std::time::Duration::from_secs(secs),
        started,
    };
    // watchdog: a case that makes no progress is reported as non-terminating
    {
        let prop = prop.clone();
        std::thread::spawn(move || {
            let (mut last, mut since) = (0, std::time::Instant::now());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let t = TICKS.load(Ordering::Relaxed);
                if t != last {
                    last = t;
                    since = std::time::Instant::now();
                } else if since.elapsed().as_secs() >= 90 {
                    println!(
                        "HARNESS {{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":0,\"rule\":\"\",\"samples\":[],\"exhaustive\":false,\"secs\":0,\"failure\":{}}}",
                        jstr(&prop), seed, t,
                        jstr(&format!("no progress for 90 s (non-termination?) at: {}", CASE.lock().unwrap()))
                    );
                    std::process::exit(1);
                }
            }
        });
    }
    // deep recursion in the code under test must not kill the harness
    let (res, ctx) = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
            let r = match r {
                Ok(Ok(())) => Ok(()),
                Ok(Err(Fail(m))) => Err(m),
                Err(_) => Err(format!(
                    "panic: {} | at: {}",
                    PANIC.with(|p| p.borrow().clone()),
                    CASE.lock().unwrap().clone()
                )),
            };
            (r, ctx)
        })
        .unwrap()
        .join()
        .unwrap();
    let samples: Vec<String> = ctx.samples.iter().map(|s| jstr(s)).collect();
    println!(
        "HARNESS {{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"exhaustive\":{},\"secs\":{:.2},\"failure\":{}}}",
        jstr(&ctx.prop),
        ctx.seed,
        ctx.evals,
        ctx.distinct.len(),
        jstr(&ctx.rule),
        samples.join(","),
        ctx.exhaustive,
        started.elapsed().as_secs_f64(),
        match &res {
            Ok(()) => "null".to_string(),
            Err(m) => jstr(m),
        }
    );
    std::process::exit(if res.is_ok() { 0 } else { 1 });
}

pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

// Shared by the native harness programs: reproducible random numbers, case bookkeeping, reporting.
use std::collections::HashSet;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn flip(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    // what commands and responses look like, with every kind of ending
    pub fn text(&mut self, max: usize) -> Vec<u8> {
        let mut v = vec![];
        for _ in 0..self.us(5) {
            v.extend(*self.pick(&[&b"*IDN?"[..], b"*idn?", b"MEAS:VOLT 1.5", b"?", b";", b":", b" ", b"  ", b"\t", b"\n", b"\r\n", b"\r", b"\0", b"\xff", b"\x7f", b"\"q\"", b"#15ab\ncd", b"\xc3\xa5"]));
        }
        match self.below(6) {
            0 => v.extend(b"\r\n"),
            1 => v.push(b'\n'),
            2 => v.push(0),
            3 => v.push(b'?'),
            _ => (),
        }
        v.truncate(max);
        v
    }
    // a 32-bit value with the interesting ones over-represented
    pub fn u32(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => u32::MAX,
            3 => 0x8000_0000,
            4 => self.next() as u32 & 0xff,
            5 => 1 << self.below(32),
            _ => self.next() as u32,
        }
    }
}

static CASE: Mutex<String> = Mutex::new(String::new());

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static STEPS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn step() {
    STEPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}
// processor time used so far, in hundredths of a second
fn cpu() -> Option<u64> {
    let s = std::fs::read_to_string("/proc/self/stat").ok()?;
    let mut f = s.rsplit(')').next()?.split_whitespace().skip(11);
    Some(f.next()?.parse::<u64>().ok()? + f.next()?.parse::<u64>().ok()?)
}
// a step that computes for 40 s of processor time does not end
fn watch() {
    let (mut last, mut at) = (0, cpu());
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let (n, t) = (STEPS.load(std::sync::atomic::Ordering::Relaxed), cpu());
        if n != last || at.is_none() {
            (last, at) = (n, t);
        } else if let (Some(a), Some(t)) = (at, t) {
            if t > a + 4000 {
                fail("an operation computes on and on without an end");
            }
        }
    }
}

pub fn set_case(s: String) {
    step();
    *CASE.lock().unwrap_or_else(|e| e.into_inner()) = s;
}

pub fn add_case(s: &str) {
    step();
    CASE.lock().unwrap_or_else(|e| e.into_inner()).push_str(s);
}

pub fn fail(what: &str) -> ! {
    let case = CASE.lock().unwrap_or_else(|e| e.into_inner()).clone();
    println!("RESULT {{\"status\":\"fail\",\"failure\":{{\"what\":{},\"input\":{}}}}}", esc(what), esc(&case));
    std::process::exit(1)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::common_h::fail(&format!($($a)*)); } };
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub rng: Rng,
    pub seed: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub rule: String,
    end: Instant,
}

impl Ctx {
    pub fn start() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        let prop = a.get(1).cloned().unwrap_or_default();
        let thorough = a.get(2).map(|x| x == "thorough").unwrap_or(false);
        let seed: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
        let secs: u64 = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(8);
        std::panic::set_hook(Box::new(|i| {
            let bt = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            fail(&format!("panic at {bt}: {m}"))
        }));
        std::thread::spawn(watch);
        Ctx { prop, thorough, rng: Rng::new(seed), seed, evals: 0, distinct: HashSet::new(), samples: vec![], rule: String::new(), end: Instant::now() + Duration::from_secs(secs) }
    }
    pub fn more(&self) -> bool {
        step();
        Instant::now() < self.end
    }
    // gives the next phase `secs` seconds
    pub fn phase(&mut self, secs: u64) {
        self.end = Instant::now() + Duration::from_secs(secs);
    }
    pub fn case(&mut self, s: String) {
        use std::hash::{Hash, Hasher};
        self.evals += 1;
        if self.distinct.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s.hash(&mut h);
            self.distinct.insert(h.finish());
        }
        if self.samples.len() < 3 && (self.evals % 97 == 3 || self.evals < 3) {
            self.samples.push(s.chars().take(300).collect());
        }
        set_case(s);
    }
    pub fn done(&self) -> ! {
        let s: Vec<String> = self.samples.iter().map(|x| esc(x)).collect();
        println!("RESULT {{\"status\":\"ok\",\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}]}}", self.evals, self.distinct.len(), esc(&self.rule), s.join(","));
        std::process::exit(0)
    }
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len();
    let mut s: String = b.iter().take(160).map(|x| format!("{x:02x}")).collect();
    if n > 160 {
        s.push_str(&format!("..({n})"));
    }
    s
}

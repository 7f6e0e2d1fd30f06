//! Runtime of the monitors: random numbers, verdict recording, in-flight records and the watchdog.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, OnceLock};

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ stream.wrapping_mul(0xD1B5_4A32_D192_ED03));
        r.u64();
        r.u64();
        r
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// uniform in 0..n
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    #[inline]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}

pub fn hash(b: &[u8]) -> u64 {
    // FNV-like with 8-byte steps
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x100_0000_01b3).rotate_left(23);
    }
    h ^ (h >> 29)
}

// ---------------------------------------------------------------- options
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Mini,
    Quick,
    Thorough,
}
#[derive(Clone)]
pub struct Opts {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub scratch: String,
    pub out: String,
    pub threads: usize,
    pub budget_s: f64,
    /// complete enumerations of 32-bit spaces (optimised builds only)
    pub full: bool,
    /// percentage of the tier's number of cases
    pub scale: u64,
    pub dict: crate::dict::Dict,
    pub start: std::time::Instant,
}
impl Opts {
    /// number of cases for the tier
    pub fn n(&self, mini: u64, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Mini => mini,
            Tier::Quick => (quick * self.scale / 100).max(1.min(quick)),
            Tier::Thorough => (thorough * self.scale / 100).max(1.min(thorough)),
        }
    }
    /// distance between the elements tried of a large enumeration
    pub fn step(&self, mini: u64, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            _ if self.full => 1,
            Tier::Mini => mini,
            // odd, so that the elements tried differ in all their bits
            Tier::Quick => (quick * 100 / self.scale.max(1)) | 1,
            Tier::Thorough => (thorough * 100 / self.scale.max(1)) | 1,
        }
    }
    pub fn over_budget(&self) -> bool {
        self.start.elapsed().as_secs_f64() > self.budget_s
    }
}

// ---------------------------------------------------------------- recording
#[derive(Clone)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Rec {
    pub evals: u64,
    pub enumerated: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub worker: usize,
}
const MAX_DISTINCT: usize = 1_500_000;
static VIOLATIONS: AtomicUsize = AtomicUsize::new(0);
/// The interpreter is slow: there, every loop ends when the time of its property is over.
#[cfg(miri)]
pub static DEADLINE: Mutex<Option<std::time::Instant>> = Mutex::new(None);
/// ... by a panic with this value, which `par` and `main` catch.
#[cfg(miri)]
pub struct TimeIsUp;
#[inline]
fn tick() {
    #[cfg(miri)]
    {
        let d = *DEADLINE.lock().unwrap();
        if d.is_some_and(|d| std::time::Instant::now() > d) && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(TimeIsUp));
        }
    }
}
pub fn enough() -> bool {
    VIOLATIONS.load(Relaxed) >= 12
}

impl Rec {
    pub fn new(worker: usize) -> Self {
        Rec { worker, ..Default::default() }
    }
    #[inline]
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(name) {
            *v += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// One generated case, with a hash of what makes it distinct.
    #[inline]
    pub fn case(&mut self, h: u64) {
        tick();
        self.evals += 1;
        if self.distinct.len() < MAX_DISTINCT {
            self.distinct.insert(h);
        }
    }
    /// n cases of a complete enumeration (distinct by construction).
    pub fn enumerate(&mut self, n: u64) {
        self.evals += n;
        self.enumerated += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn violate(&mut self, key: impl Into<String>, msg: impl Into<String>, detail: impl Into<String>) {
        VIOLATIONS.fetch_add(1, Relaxed);
        if self.violations.len() < 20 {
            self.violations.push(Violation { key: key.into(), msg: msg.into(), detail: detail.into() });
        }
    }
    pub fn merge(&mut self, o: Rec) {
        self.evals += o.evals;
        self.enumerated += o.enumerated;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
    }
    /// Runs library code: a panic inside it is a violation.
    pub fn lib<R>(&mut self, what: &str, detail: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match guarded(f) {
            Ok(r) => Some(r),
            Err(m) => {
                self.violate(format!("panic:{what}"), format!("panic in {what}: {m}"), detail());
                None
            }
        }
    }
}

// ---------------------------------------------------------------- panics of the library
thread_local! {
    static IN_LIB: RefCell<bool> = const { RefCell::new(false) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_LIB.with(|x| *x.borrow()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST.with(|l| *l.borrow_mut() = loc);
        } else {
            old(info);
        }
    }));
}
fn text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = IN_LIB.with(|x| x.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|x| x.replace(was));
    r.map_err(|e| {
        let t = text(&*e);
        let l = LAST.with(|l| l.borrow().clone());
        format!("{t} at {l}")
    })
}

// ---------------------------------------------------------------- in-flight records
// One slot per worker in a file mapped into memory: what is being done survives a crash, and the watchdog reads it.
pub const SLOT: usize = 8192;
pub const SLOTS: usize = 64;
#[repr(C)]
pub struct Slot {
    pub seq: AtomicU64, // even: idle, odd: in the library
    pub tid: AtomicU64,
    pub len: AtomicU64,
    pub label: [u8; 40],
    pub data: [u8; SLOT - 64],
}
static BASE: OnceLock<usize> = OnceLock::new();

#[cfg(not(miri))]
pub fn map_slots(dir: &str) {
    use std::os::fd::AsRawFd;
    let path = format!("{dir}/inflight");
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("inflight file");
    f.set_len((SLOT * SLOTS) as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), SLOT * SLOTS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    BASE.set(p as usize).unwrap();
}
#[cfg(miri)]
pub fn map_slots(_dir: &str) {}

fn slot(worker: usize) -> Option<*mut Slot> {
    BASE.get().map(|b| (*b + (worker % SLOTS) * SLOT) as *mut Slot)
}
/// Marks the start of one case in the library. `enter`/`leave` bracket the whole case.
#[inline]
pub fn enter(worker: usize, label: &str, data: &[u8]) {
    tick();
    if let Some(s) = slot(worker) {
        unsafe {
            let n = data.len().min(SLOT - 64);
            std::ptr::copy_nonoverlapping(data.as_ptr(), (*s).data.as_mut_ptr(), n);
            let l = label.len().min(39);
            std::ptr::copy_nonoverlapping(label.as_ptr(), (*s).label.as_mut_ptr(), l);
            (*s).label[l] = 0;
            (*s).len.store(n as u64, Relaxed);
            let q = (*s).seq.load(Relaxed);
            (*s).seq.store((q | 1).wrapping_add(if q & 1 == 1 { 2 } else { 0 }), Release);
        }
    }
}
#[inline]
pub fn leave(worker: usize) {
    if let Some(s) = slot(worker) {
        unsafe {
            let q = (*s).seq.load(Relaxed);
            (*s).seq.store((q | 1).wrapping_add(1), Release);
        }
    }
}
fn describe(worker: usize) -> (String, String) {
    match slot(worker) {
        None => (String::new(), String::new()),
        Some(s) => unsafe {
            let n = ((*s).len.load(Acquire) as usize).min(SLOT - 64);
            let data = std::slice::from_raw_parts((*s).data.as_ptr(), n);
            let lab: Vec<u8> = (*s).label.iter().copied().take_while(|c| *c != 0).collect();
            (String::from_utf8_lossy(&lab).into_owned(), hex(data))
        },
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

// ---------------------------------------------------------------- watchdog
/// Processor time used by one of our own threads, in ns, read without touching the descriptor table.
fn thread_cpu(tid: u64) -> Option<u64> {
    let clock = ((!(tid as i32)) << 3) | 6;
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut t) } != 0 {
        return None;
    }
    Some(t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)
}
pub static STOP_WATCH: AtomicBool = AtomicBool::new(false);
/// One case must not consume 15 s of processor time, nor stay unfinished for 120 s (cases take microseconds to
/// milliseconds; processor time is counted per thread by the kernel, so a busy machine does not use it up).
pub fn start_watchdog(out: String, prop: String) {
    if cfg!(miri) {
        return;
    }
    std::thread::spawn(move || {
        // (sequence number, processor time at its start, rounds)
        let mut seen: Vec<(u64, u64, u32)> = vec![(0, 0, 0); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            if STOP_WATCH.load(Relaxed) {
                return;
            }
            for w in 0..SLOTS {
                let Some(s) = slot(w) else { return };
                let (seq, tid) = unsafe { ((*s).seq.load(Acquire), (*s).tid.load(Acquire)) };
                if tid == 0 || seq & 1 == 0 {
                    seen[w] = (0, 0, 0);
                    continue;
                }
                let Some(cpu) = thread_cpu(tid) else { continue };
                if seen[w].0 != seq {
                    seen[w] = (seq, cpu, 0);
                    continue;
                }
                seen[w].2 += 1;
                let spun = cpu.saturating_sub(seen[w].1) > 15_000_000_000;
                let stuck = seen[w].2 >= 120;
                if spun || stuck {
                    let (label, data) = describe(w);
                    let mut rec = Rec::new(w);
                    rec.evals = 1;
                    rec.violate(
                        format!("hang:{label}"),
                        format!("a call does not return ({}): {label}", if spun { "15 s of processor time used" } else { "nothing for 120 s" }),
                        data,
                    );
                    write_report(&out, &prop, &rec, &[], 0.0);
                    unsafe { libc::_exit(1) };
                }
            }
        }
    });
}

// ---------------------------------------------------------------- running workers
/// Splits `total` cases over the worker threads. `f(rec, rng, first, count)` runs cases first..first+count.
pub fn par<F>(o: &Opts, rec: &mut Rec, salt: u64, total: u64, f: F)
where
    F: Fn(&mut Rec, &mut Rng, u64, u64) + Sync,
{
    let nt = o.threads.max(1) as u64;
    let chunk = (total / (nt * 8)).max(1);
    let next = AtomicU64::new(0);
    let all = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for w in 0..nt as usize {
            let (next, all, f) = (&next, &all, &f);
            s.spawn(move || {
                register(w);
                let mut r = Rec::new(w);
                loop {
                    let first = next.fetch_add(chunk, SeqCst);
                    if first >= total || enough() || o.over_budget() {
                        break;
                    }
                    let n = chunk.min(total - first);
                    // the stream depends on the chunk, not on the thread: reruns repeat the same cases
                    let mut rng = Rng::new(o.seed ^ salt.wrapping_mul(0xA24B_AED4_963E_E407), first + 1);
                    #[cfg(miri)]
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(&mut r, &mut rng, first, n))) {
                        if e.downcast_ref::<TimeIsUp>().is_some() {
                            break;
                        }
                        std::panic::resume_unwind(e);
                    }
                    #[cfg(not(miri))]
                    f(&mut r, &mut rng, first, n);
                    leave(w);
                }
                unregister(w);
                all.lock().unwrap().push(r);
            });
        }
    });
    for r in all.into_inner().unwrap() {
        rec.merge(r);
    }
}
pub fn register(w: usize) {
    if cfg!(miri) {
        return;
    }
    if let Some(s) = slot(w) {
        unsafe {
            (*s).seq.store(0, Relaxed);
            (*s).tid.store(libc::syscall(libc::SYS_gettid) as u64, Release);
        }
    }
}
pub fn unregister(w: usize) {
    if let Some(s) = slot(w) {
        unsafe { (*s).tid.store(0, Release) }
    }
}

// ---------------------------------------------------------------- report
pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn write_report(out: &str, prop: &str, r: &Rec, notes: &[String], wall: f64) {
    let mut s = String::new();
    s.push_str(&format!(
        "{{\"property\":{},\"evaluations\":{},\"enumerated\":{},\"distinct\":{},\"wall_s\":{:.2},",
        jstr(prop), r.evals, r.enumerated, r.distinct.len() as u64 + r.enumerated, wall
    ));
    s.push_str("\"counters\":{");
    s.push_str(&r.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"samples\":[");
    s.push_str(&r.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\"notes\":[");
    s.push_str(&notes.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\"violations\":[");
    s.push_str(
        &r.violations
            .iter()
            .map(|v| format!("{{\"key\":{},\"msg\":{},\"detail\":{}}}", jstr(&v.key), jstr(&v.msg), jstr(&v.detail)))
            .collect::<Vec<_>>()
            .join(","),
    );
    s.push_str("]}\n");
    let tmp = format!("{out}.tmp");
    std::fs::write(&tmp, s).expect("write report");
    std::fs::rename(&tmp, out).expect("rename report");
}

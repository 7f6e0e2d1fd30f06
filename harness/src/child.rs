//! Processes of their own: what a first use, the environment or the user could change.
use crate::bed::fingerprint;
use crate::prof::open_by;
use crate::rt::*;
use lcms2::state::Context;
use std::io::Write as _;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// What an open gave, in one word.
pub fn outcome(r: &std::io::Result<Box<lcms2::types::Profile>>) -> String {
    match r {
        Ok(p) => format!("ok:{:016x}", hash(fingerprint(p).as_bytes())),
        Err(e) => format!("err:{:?}", e.kind()),
    }
}
pub fn word(r: &Result<String, std::io::ErrorKind>) -> String {
    match r {
        Ok(s) => format!("ok:{:016x}", hash(s.as_bytes())),
        Err(k) => format!("err:{k:?}"),
    }
}

/// `CHILD burst DIR FILES THREADS SEED`: the first thing this process does with the library is many opens at once.
/// `CHILD each DIR FILES`: opens one file after the other, by both entries.
pub fn main(a: &[String]) -> ! {
    let dir = Path::new(&a[1]);
    let n: usize = a[2].parse().expect("files");
    let mut lines = String::new();
    match a[0].as_str() {
        "burst" => {
            let threads: usize = a[3].parse().expect("threads");
            let seed: u64 = a[4].parse().expect("seed");
            let barrier = std::sync::Barrier::new(threads);
            let all: Vec<Vec<String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|w| {
                        let barrier = &barrier;
                        s.spawn(move || {
                            let mut rng = Rng::new(seed, w as u64);
                            // all through the global context, all through their own, or mixed; one file or several
                            let (entries, same) = (seed % 3, seed % 2 == 0);
                            let plan: Vec<(usize, u64)> = (0..4)
                                .map(|_| {
                                    let i = if same { (seed / 6) as usize % n } else { rng.below(n as u64) as usize };
                                    (i, if entries == 2 { rng.below(2) } else { entries })
                                })
                                .collect();
                            let paths: Vec<_> = plan.iter().map(|(i, _)| dir.join(format!("f{i}"))).collect();
                            let mut v = vec![];
                            barrier.wait();
                            for ((i, e), p) in plan.into_iter().zip(&paths) {
                                #[cfg(feature = "sys")]
                                let r = {
                                    let plan = crate::sys::Plan { rng: rng.u64() | 1, delay: true, ..Default::default() };
                                    crate::sys::under(plan, || if e == 0 { open_by(0, &mut Context::new(None), p) } else { open_by(1, &mut Context::new(None), p) }).0
                                };
                                #[cfg(not(feature = "sys"))]
                                let r = if e == 0 { lcms2::types::Profile::open_from_file(p, lcms2::io::AccessMode::Read) } else { open_by(1, &mut Context::new(None), p) };
                                v.push(format!("{i} {e} {}", outcome(&r)));
                            }
                            v
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["0 0 panic".into()])).collect()
            });
            for l in all.into_iter().flatten() {
                lines.push_str(&l);
                lines.push('\n');
            }
        }
        "each" => {
            let mut ctx = Context::new(None);
            for i in 0..n {
                for e in 0..2 {
                    lines.push_str(&format!("{i} {e} {}\n", outcome(&open_by(e, &mut ctx, dir.join(format!("f{i}"))))));
                }
            }
        }
        x => panic!("{x}"),
    }
    let _ = std::io::stdout().write_all(lines.as_bytes());
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

/// A program of its own: environment, directory, user.
#[derive(Clone, Debug, Default)]
pub struct Surroundings {
    pub env: Vec<(&'static str, &'static str)>,
    /// variables with words of the source as names
    pub words: Vec<(String, String)>,
    pub bare: bool,
    pub cwd: Option<std::path::PathBuf>,
    pub nobody: bool,
    pub umask: Option<u32>,
    pub files: Option<u64>,
}
/// Runs this program as a child and compares every line it prints with the expected outcome of that file.
pub fn run(rec: &mut Rec, args: &[String], s: &Surroundings, want: &[String]) {
    let exe = std::env::current_exe().expect("exe");
    let mut c = Command::new(&exe);
    c.arg("CHILD").args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if s.bare {
        let keep: Vec<(String, String)> = std::env::vars().filter(|(k, _)| k.ends_with("_OPTIONS") || k.starts_with("LLVM")).collect();
        c.env_clear().envs(keep);
    }
    for (k, v) in &s.env {
        c.env(k, v);
    }
    c.envs(s.words.iter().map(|(k, v)| (k, v)));
    if let Some(d) = &s.cwd {
        c.current_dir(d);
    }
    let (nobody, umask, files) = (s.nobody, s.umask, s.files);
    unsafe {
        c.pre_exec(move || {
            if let Some(n) = files {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            }
            if let Some(m) = umask {
                libc::umask(m as libc::mode_t);
            }
            if nobody {
                libc::setgroups(0, std::ptr::null());
                libc::setresgid(65534, 65534, 65534);
                libc::setresuid(65534, 65534, 65534);
            }
            Ok(())
        });
    }
    let det = || format!("{args:?} {s:?}");
    let mut p = match c.spawn() {
        Ok(p) => p,
        Err(e) => {
            // the binary may be out of this user's reach
            rec.count(&format!("child not started: {:?}", e.kind()), 1);
            return;
        }
    };
    let out = p.stdout.take().map(|mut o| std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut o, &mut s); s }));
    let err = p.stderr.take().map(|mut o| std::thread::spawn(move || { let mut s = Vec::new(); let _ = std::io::Read::read_to_end(&mut o, &mut s); String::from_utf8_lossy(&s).into_owned() }));
    let t = Instant::now();
    let status = loop {
        match p.try_wait().expect("child") {
            Some(s) => break Some(s),
            None if t.elapsed() > Duration::from_secs(180) => {
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(if t.elapsed().as_millis() < 300 { 1 } else { 50 })),
        }
    };
    let (out, err) = (out.map(|h| h.join().unwrap()).unwrap_or_default(), err.map(|h| h.join().unwrap()).unwrap_or_default());
    rec.count("processes", 1);
    match status {
        None => rec.violate("child hangs", "a process that opens profiles hangs", det()),
        Some(s) if s.code() == Some(77) => {
            // a sanitizer's report
            eprintln!("{err}");
            std::process::exit(77);
        }
        Some(s) if !s.success() => rec.violate("child died", format!("a process that opens profiles ends with {s}: {}", err.chars().take(2000).collect::<String>()), det()),
        _ => {}
    }
    for l in out.lines() {
        let v: Vec<&str> = l.split(' ').collect();
        let (Some(i), Some(r)) = (v.first().and_then(|i| i.parse::<usize>().ok()), v.get(2)) else { continue };
        rec.count("opens in processes of their own", 1);
        if want.get(i).map(String::as_str) != Some(*r) {
            rec.violate("child", format!("file f{i}, entry {}: the outcome is {r}, elsewhere it is {:?}", v[1], want.get(i)), det());
        }
    }
}

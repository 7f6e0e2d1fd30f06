//! C07: many threads open, query and drop profiles at once; each call must give what it gives alone.
use crate::bed::{check_tags, fingerprint};
use crate::gen::{real_profile, structured, Want};
use crate::model::{self, Content, MProfile};
use crate::prof::open_by;
use crate::rt::*;
use lcms2::io::AccessMode;
use lcms2::state::Context;
use lcms2::types::Profile;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};

struct File {
    path: PathBuf,
    /// other ways to say it
    ways: Vec<PathBuf>,
    want: Result<MProfile, Vec<std::io::ErrorKind>>,
    /// what an open gives when nothing else is going on
    alone: Result<String, std::io::ErrorKind>,
}
fn files(o: &Opts, rec: &mut Rec) -> Vec<File> {
    let dir = Path::new(&o.scratch).join("conc");
    let _ = std::fs::create_dir(&dir);
    let mut rng = Rng::new(o.seed, 0x0707);
    let real = real_profile();
    let mut contents: Vec<Content> = vec![Content::new({
        let mut v = real.head.clone();
        v.resize(if cfg!(miri) { 400 } else { 60960 }, 0);
        v
    })];
    for i in 0..o.n(5, 22, 30) {
        let mut c = structured(&mut rng, &o.dict, if i % 2 == 0 { Want::Tags } else { Want::Any });
        c.len = c.head.len() as u64;
        match i {
            1 => c.put32(36, 0x1234_5678),
            3 => c.put16(26, 13),
            5 => c.put32(128, 101),
            7 => c.head.truncate(100),
            9 => c.head.truncate(140),
            11 => c.head.truncate(0),
            _ => {}
        }
        c.len = c.head.len() as u64;
        contents.push(c);
    }
    let mut v = vec![];
    for (i, c) in contents.iter().enumerate() {
        let path = dir.join(format!("f{i}"));
        std::fs::write(&path, &c.head).expect("scratch");
        let want = model::open(c).map_err(model::kinds);
        v.push((path, want));
    }
    v.push((dir.join("missing"), Err(vec![std::io::ErrorKind::NotFound])));
    let mut ctx = Context::new(None);
    v.into_iter()
        .map(|(path, want)| {
            let alone = match guarded(|| open_by(1, &mut ctx, &path)) {
                Ok(r) => r.map(|p| fingerprint(&p)).map_err(|e| e.kind()),
                Err(m) => {
                    rec.violate("panic:alone", format!("panic in an open: {m}"), String::new());
                    Err(std::io::ErrorKind::Other)
                }
            };
            let ways = ways(&path);
            File { path, ways, want, alone }
        })
        .collect()
}
/// The same file from the working directory, in other directories, under other names.
fn ways(path: &Path) -> Vec<PathBuf> {
    let mut v = vec![path.to_path_buf()];
    if cfg!(miri) {
        return v;
    }
    let (dir, name) = (path.parent().unwrap(), path.file_name().unwrap());
    if let (Ok(cwd), Ok(rel)) = (std::env::current_dir(), path.strip_prefix("/")) {
        let up: PathBuf = cwd.components().skip(1).map(|_| "..").collect();
        v.push(up.join(rel));
        if let Ok(short) = path.strip_prefix(&cwd) {
            v.push(short.to_path_buf());
        }
    }
    for k in 0..3 {
        let d = dir.join(format!("dir{k}"));
        let _ = std::fs::create_dir(&d);
        // one name for other files elsewhere
        let sub = d.join(name);
        let _ = std::fs::create_dir(&sub);
        let p = sub.join("profile.icc");
        if std::fs::hard_link(path, &p).is_ok() || !path.exists() {
            v.push(p);
        }
    }
    v
}
fn judge(rec: &mut Rec, f: &File, r: &std::io::Result<Box<Profile>>, what: &str, deep: bool) {
    let det = || format!("{what}, file {}", f.path.display());
    match (r, &f.want) {
        (Ok(p), Ok(m)) => {
            if let Some(Err(e)) = rec.lib("queries", det, || check_tags(p, m)) {
                rec.violate("result", format!("{what}: {e}"), det());
            }
            if deep {
                if let Some(s) = rec.lib("debug", det, || fingerprint(p)) {
                    if Ok(&s) != f.alone.as_ref() {
                        rec.violate("result", format!("{what}: the profile differs from the one opened alone: {s}\nalone: {:?}", f.alone), det());
                    }
                    rec.count("profiles compared in full", 1);
                }
            }
            rec.count("opened", 1);
        }
        (Err(e), Err(k)) => {
            if !k.contains(&e.kind()) {
                rec.violate("error", format!("{what}: the error is {e:?}, alone it is {:?}", f.alone), det());
            }
            rec.count("rejected", 1);
        }
        (Ok(_), Err(_)) => rec.violate("accepted", format!("{what}: a malformed file opens"), det()),
        (Err(e), Ok(_)) => rec.violate("rejected", format!("{what}: a good profile is rejected with {e:?}"), det()),
    }
}

pub fn c07(o: &Opts, rec: &mut Rec) {
    let files = files(o, rec);
    let files = &files;
    // processes whose first use of the library is many opens at once
    #[cfg(not(miri))]
    {
        let want: Vec<String> = files.iter().map(|f| crate::child::word(&f.alone)).collect();
        let dir = Path::new(&o.scratch).join("conc");
        for k in 0..o.n(2, 120, 3000) {
            let args = ["burst".to_string(), dir.to_string_lossy().into_owned(), (files.len() - 1).to_string(), ((o.threads * 2).clamp(4, 16)).to_string(), (o.seed * 1_000_003 + k).to_string()];
            crate::child::run(rec, &args, &Default::default(), &want);
            rec.case(hash(args[4].as_bytes()));
            if enough() || o.over_budget() {
                break;
            }
        }
    }
    let threads = if cfg!(miri) { 3 } else { (o.threads * 2).clamp(4, 16) };
    let rounds = o.n(6, 500, 20_000);
    let per_round = o.n(3, 24, 40);
    let barrier = Barrier::new(threads);
    let stop = AtomicUsize::new(0);
    let at_once = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    let all = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for w in 0..threads {
            let (barrier, stop, all, at_once, most) = (&barrier, &stop, &all, &at_once, &most);
            s.spawn(move || {
                register(w);
                let mut rec = Rec::new(w);
                let mut rng = Rng::new(o.seed, 0x7000 + w as u64);
                let mut own = Context::new(Some(vec![w as u8].into()));
                let mut held: Vec<(usize, Box<Profile>)> = vec![];
                let out = Path::new(&o.scratch).join(format!("conc-{w}.out"));
                for round in 0..rounds {
                    leave(w);
                    barrier.wait();
                    // decided between two barriers, so that all threads see the same
                    if w == 0 && (enough() || o.over_budget()) {
                        stop.store(1, SeqCst);
                    }
                    barrier.wait();
                    if stop.load(SeqCst) > 0 {
                        break;
                    }
                    // some rounds put all threads on one file, or on rejected files only
                    let pattern = round % 5;
                    let common = (round / 5) as usize % files.len();
                    let mut script = vec![];
                    for k in 0..per_round {
                        let i = match pattern {
                            0 => common,
                            1 if rng.chance(2, 3) => {
                                let bad: Vec<usize> = (0..files.len()).filter(|i| files[*i].want.is_err()).collect();
                                *rng.pick(&bad)
                            }
                            _ => rng.below(files.len() as u64) as usize,
                        };
                        let entry = if pattern == 2 { 0 } else { rng.below(2) };
                        let what = if entry == 0 { "a concurrent open through the global context" } else { "a concurrent open through an own context" };
                        enter(w, what, files[i].path.as_os_str().as_encoded_bytes());
                        let path = if rng.chance(1, 2) { &files[i].path } else { rng.pick(&files[i].ways) };
                        let det = || path.display().to_string();
                        let now = at_once.fetch_add(1, Relaxed) + 1;
                        most.fetch_max(now, Relaxed);
                        #[cfg(feature = "sys")]
                        let r = {
                            let plan = crate::sys::Plan { rng: rng.u64() | 1, delay: true, short: rng.chance(1, 4), eintr: rng.chance(1, 8), ..Default::default() };
                            let (r, log) = crate::sys::under(plan, || rec.lib(what, det, || open_by(entry, &mut own, path)));
                            rec.count("system calls with random delays", log.len() as u64);
                            r
                        };
                        #[cfg(not(feature = "sys"))]
                        let r = rec.lib(what, det, || open_by(entry, &mut own, path));
                        at_once.fetch_sub(1, Relaxed);
                        let Some(r) = r else { continue };
                        judge(&mut rec, &files[i], &r, what, (k + round) % 7 == 0);
                        script.push(i as u8);
                        if let Ok(p) = r {
                            if held.len() < 4 {
                                held.push((i, p));
                            } else {
                                let at = rng.below(4) as usize;
                                // what was opened before is as it was, and equals a new open of the same file
                                let (j, q) = &held[at];
                                if *j == i && rec.lib("eq", det, || *q == p) != Some(true) {
                                    rec.violate("held", "a profile held for a while differs from a new open of the same file", det());
                                }
                                held[at] = (i, p);
                            }
                        }
                        if rng.chance(1, 10) {
                            let mode = AccessMode::Write;
                            let r = rec.lib("open for writing", det, || if entry == 0 { Profile::open_from_file(&out, mode) } else { Profile::open_from_file_thr(&mut own, &out, mode) });
                            if !matches!(r, Some(Ok(_))) {
                                rec.violate("write", "a concurrent open for writing fails", det());
                            }
                            rec.count("opened for writing", 1);
                        }
                        if rng.chance(1, 12) && !held.is_empty() {
                            let at = rng.below(held.len() as u64) as usize;
                            let (j, p) = held.swap_remove(at);
                            if let Some(s) = rec.lib("debug", det, || fingerprint(&p)) {
                                if Ok(&s) != files[j].alone.as_ref() {
                                    rec.violate("held", format!("a profile held for a while is now {s}, at first {:?}", files[j].alone), det());
                                }
                                rec.count("held profiles compared", 1);
                            }
                        }
                        if rng.chance(1, 40) {
                            own = own.clone();
                        }
                        if rng.chance(1, 20) {
                            std::thread::yield_now();
                        }
                    }
                    rec.case(hash(&script) ^ round << 8 ^ w as u64);
                }
                leave(w);
                unregister(w);
                all.lock().unwrap().push(rec);
            });
        }
    });
    for r in all.into_inner().unwrap() {
        rec.merge(r);
    }
    rec.count("most calls in flight at once", most.load(Relaxed) as u64);
    rec.count("threads", threads as u64);
    rec.sample(|| format!("{threads} threads, {rounds} rounds of {per_round} opens over {} files ({} of them rejected)", files.len(), files.iter().filter(|f| f.want.is_err()).count()));
    // nothing that happened keeps a later open from working
    let mut ctx = Context::new(None);
    for f in files {
        for e in 0..2 {
            if let Some(r) = rec.lib("open afterwards", || f.path.display().to_string(), || open_by(e, &mut ctx, &f.path)) {
                judge(rec, f, &r, "an open after all threads ended", true);
            }
        }
    }
}

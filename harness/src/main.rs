//! Monitors for the properties of lcms2.rs: each command-line call runs the workload of one property against the library
//! as it is built in, observes it with an oracle written here, and writes a report.
mod bed;
#[cfg(feature = "clib")]
mod clib;
#[cfg(not(miri))]
mod child;
mod conc;
#[cfg(feature = "consts")]
mod consts;
#[cfg(feature = "consts")]
mod consts_table;
#[cfg(lcms2_vp = "convert")]
mod conv;
mod curves;
mod date;
mod dict;
#[cfg(lcms2_vp = "errors")]
mod errors;
#[cfg(not(miri))]
mod fsmon;
mod gen;
mod iostream;
mod model;
mod plugin;
mod probe;
mod prof;
#[cfg(not(miri))]
mod res;
mod rt;
#[cfg(lcms2_vp = "search")]
mod search;
mod sig;
#[cfg(feature = "sys")]
mod sys;
#[cfg(feature = "sys")]
mod sysfault;
mod typed;
mod values;
use rt::*;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: res::Counting = res::Counting;

fn run(o: &Opts, rec: &mut Rec) -> bool {
    match o.prop.as_str() {
        "C01" => prof::c01(o, rec),
        "C04" => prof::c04(o, rec),
        "C06" => prof::c06(o, rec),
        "C07" => conc::c07(o, rec),
        #[cfg(not(miri))]
        "C08" => fsmon::c08(o, rec),
        "C11" => iostream::c11(o, rec),
        "C12" => iostream::c12(o, rec),
        "C13" => typed::c13(o, rec),
        "C14" => typed::c14(o, rec),
        "C15" => typed::c15(o, rec),
        #[cfg(feature = "sys")]
        "C16" => sysfault::c16(o, rec),
        #[cfg(feature = "sys")]
        "C17" => sysfault::c17(o, rec),
        "C18" => typed::c18(o, rec),
        "C19" => sig::c19(o, rec),
        "C20" => date::c20(o, rec),
        "C21" => curves::c21(o, rec),
        "C22" => curves::c22(o, rec),
        "C23" => curves::c23(o, rec),
        "C24" => plugin::c24(o, rec),
        #[cfg(lcms2_vp = "errors")]
        "C25" => {
            plugin::c25(o, rec);
            errors::c25(o, rec)
        }
        #[cfg(not(lcms2_vp = "errors"))]
        "C25" => plugin::c25(o, rec),
        #[cfg(not(miri))]
        "C26" => res::c26(o, rec),
        #[cfg(feature = "clib")]
        "clib-curves" => clib::curves(o, rec),
        #[cfg(feature = "clib")]
        "clib-profiles" => clib::profiles(o, rec),
        #[cfg(feature = "consts")]
        "C29" => consts::c29(o, rec),
        "C02" => probe::c02(o, rec),
        "C03" => probe::c03(o, rec),
        #[cfg(not(miri))]
        "C09" => fsmon::c09(o, rec, &probe::fresh),
        #[cfg(lcms2_vp = "search")]
        "C05" => search::c05(o, rec),
        #[cfg(lcms2_vp = "errors")]
        "C10" => errors::c10(o, rec),
        #[cfg(lcms2_vp = "convert")]
        "C28" => conv::c28(o, rec),
        "C30" => values::c30(o, rec),
        "C31" => values::c31(o, rec),
        _ => return false,
    }
    true
}

fn main() {
    #[cfg(not(miri))]
    {
        let v: Vec<String> = std::env::args().skip(1).collect();
        if v.first().is_some_and(|s| s == "CHILD") {
            child::main(&v[1..]);
        }
    }
    let mut a = std::env::args().skip(1);
    let mut o = Opts {
        prop: a.next().expect("property"),
        tier: Tier::Quick,
        seed: 1,
        scratch: "/nonexistent".into(),
        out: "/dev/null".into(),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        budget_s: 1e9,
        full: false,
        scale: 100,
        dict: Default::default(),
        start: std::time::Instant::now(),
    };
    let mut dict = String::new();
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--tier" => {
                o.tier = match v().as_str() {
                    "mini" => Tier::Mini,
                    "quick" => Tier::Quick,
                    "thorough" => Tier::Thorough,
                    t => panic!("tier {t}"),
                }
            }
            "--seed" => o.seed = v().parse().expect("seed"),
            "--scratch" => o.scratch = v(),
            "--out" => o.out = v(),
            "--threads" => o.threads = v().parse().expect("threads"),
            "--budget" => o.budget_s = v().parse().expect("budget"),
            "--dict" => dict = v(),
            "--scale" => o.scale = v().parse().expect("scale"),
            "--full" => o.full = true,
            _ => panic!("option {k}"),
        }
    }
    o.dict = dict::Dict::load(&dict);
    install_panic_hook();
    map_slots(&o.scratch);
    start_watchdog(o.out.clone(), o.prop.clone());
    // under the interpreter or a sanitizer: the small workload of many properties in one process
    let props: Vec<String> = o.prop.split(',').map(String::from).collect();
    let mut rec = Rec::new(0);
    let name = o.prop.clone();
    register(0);
    for p in &props {
        #[cfg(miri)]
        {
            if p != "C07" // its threads wait for one another
            {
                *DEADLINE.lock().unwrap() = Some(std::time::Instant::now() + std::time::Duration::from_secs_f64(o.budget_s.min(1e6)));
            }
        }
        o.prop = p.clone();
        let before = rec.evals;
        #[cfg(miri)]
        let known = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&o, &mut rec))).unwrap_or_else(|e| {
            if e.downcast_ref::<TimeIsUp>().is_none() {
                std::panic::resume_unwind(e);
            }
            rec.count("stopped when the time was over", 1);
            true
        });
        #[cfg(not(miri))]
        let known = run(&o, &mut rec);
        if !known {
            eprintln!("{p} is not part of this build");
            std::process::exit(3);
        }
        if props.len() > 1 {
            let n = rec.evals - before;
            rec.count(&format!("cases of the workload of {p}"), n);
            eprintln!("{p}: {n} cases");
        }
    }
    STOP_WATCH.store(true, std::sync::atomic::Ordering::SeqCst);
    let wall = o.start.elapsed().as_secs_f64();
    write_report(&o.out, &name, &rec, &[], wall);
    std::process::exit(if rec.violations.is_empty() { 0 } else { 1 });
}

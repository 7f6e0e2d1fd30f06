//! Compares the models of this crate with the C library whose (repaired) objects are linked into VPH_CLIB, see tools/clib.sh.
//! This judges the models, not the library under test: differences that are known and intended are counted.
use crate::gen::{content, real_profile, Want};
use crate::model;
use crate::rt::*;
use std::ffi::{c_char, c_void, CString};

struct Lib(*mut c_void);
unsafe impl Sync for Lib {}
impl Lib {
    fn open() -> Lib {
        let p = CString::new(std::env::var("VPH_CLIB").expect("VPH_CLIB")).unwrap();
        let h = unsafe { libc::dlopen(p.as_ptr(), libc::RTLD_LAZY | libc::RTLD_GLOBAL) };
        assert!(!h.is_null(), "cannot load the C library");
        Lib(h)
    }
    fn sym<F: Copy>(&self, name: &str) -> F {
        let n = CString::new(name).unwrap();
        let p = unsafe { libc::dlsym(self.0, n.as_ptr()) };
        assert!(!p.is_null(), "{name}");
        unsafe { std::mem::transmute_copy(&p) }
    }
}
pub fn curves(o: &Opts, rec: &mut Rec) {
    let lib = Lib::open();
    let f: extern "C" fn(i32, *const f64, f64) -> f64 = lib.sym("DefaultEvalParametricFn");
    par(o, rec, 0xc11b, o.n(1000, 20_000_000, 400_000_000), |rec, rng, _f, n| {
        for _ in 0..n {
            crate::curves::against_c(rec, rng, o, |t, p, r| {
                let mut q = [0.0; 10];
                q[..p.len()].copy_from_slice(p);
                f(t, q.as_ptr(), r)
            });
            if enough() {
                break;
            }
        }
    });
}
type H = *mut c_void;
extern "C" fn quiet(_: *mut c_void, _: u32, _: *const c_char) {}
pub fn profiles(o: &Opts, rec: &mut Rec) {
    let lib = Lib::open();
    let set: extern "C" fn(extern "C" fn(*mut c_void, u32, *const c_char)) = lib.sym("cmsSetLogErrorHandler");
    set(quiet);
    let open: extern "C" fn(*const u8, u32) -> H = lib.sym("cmsOpenProfileFromMem");
    let close: extern "C" fn(H) -> i32 = lib.sym("cmsCloseProfile");
    let u: Vec<(&str, extern "C" fn(H) -> u32)> = ["cmsGetEncodedICCversion", "cmsGetDeviceClass", "cmsGetColorSpace", "cmsGetPCS", "cmsGetHeaderRenderingIntent", "cmsGetHeaderFlags", "cmsGetHeaderManufacturer", "cmsGetHeaderModel", "cmsGetHeaderCreator"].iter().map(|n| (*n, lib.sym(n))).collect();
    let attrs: extern "C" fn(H, *mut u64) = lib.sym("cmsGetHeaderAttributes");
    let id: extern "C" fn(H, *mut u8) = lib.sym("cmsGetHeaderProfileID");
    let date: extern "C" fn(H, *mut libc::tm) -> i32 = lib.sym("cmsGetHeaderCreationDateTime");
    let count: extern "C" fn(H) -> i32 = lib.sym("cmsGetTagCount");
    let sig: extern "C" fn(H, u32) -> u32 = lib.sym("cmsGetTagSignature");
    let linked: extern "C" fn(H, u32) -> u32 = lib.sym("cmsTagLinkedTo");
    let real = real_profile();
    let o1 = Opts { threads: 1, ..o.clone() };
    par(&o1, rec, 0xc12b, o.n(1000, 400_000, 4_000_000), |rec, rng, _f, n| {
        for k in 0..n {
            let c = content(rng, &o.dict, &real, if k % 3 == 0 { Want::Any } else { Want::Tags });
            if c.len > 1 << 20 {
                continue;
            }
            rec.case(c.hash());
            let mut v = c.head.clone();
            v.resize(c.len as usize, 0);
            let h = open(v.as_ptr(), v.len() as u32);
            let d = model::defects(&c);
            let det = || c.describe();
            if d & !model::BAD_DATE != 0 {
                rec.count("rejected by the model", 1);
                if !h.is_null() {
                    rec.violate("accept", "the C library accepts what the model rejects", det());
                    close(h);
                }
                continue;
            }
            if h.is_null() {
                if d == 0 {
                    rec.violate("reject", "the C library rejects what the model accepts", det());
                }
                continue;
            }
            if d != 0 {
                // the C library does not validate dates
                rec.count("impossible date accepted by the C library", 1);
                close(h);
                continue;
            }
            let m = model::open(&c).unwrap();
            rec.count("profiles compared", 1);
            let w = [m.version, m.class, m.space, m.pcs, m.intent, m.flags, m.manufacturer, m.model, m.creator];
            for ((n, f), w) in u.iter().zip(w) {
                let g = f(h);
                if g != w {
                    if *n == "cmsGetEncodedICCversion" {
                        rec.count("version corrected by the C library", 1);
                    } else {
                        rec.violate("field", format!("{n}: the C library has {g:#x}, the model {w:#x}"), det());
                    }
                }
            }
            let mut a = 0u64;
            attrs(h, &mut a);
            let mut i = [0u8; 16];
            id(h, i.as_mut_ptr());
            if a != m.attributes || i != m.id {
                rec.violate("field", format!("attributes {a:#x} {:#x}, id {i:x?} {:x?}", m.attributes, m.id), det());
            }
            let mut t: libc::tm = unsafe { std::mem::zeroed() };
            date(h, &mut t);
            if [t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec] != m.date.map(i32::from) {
                rec.violate("date", format!("{:?} {:?}", [t.tm_year + 1900, t.tm_mon + 1, t.tm_mday], m.date), det());
            }
            if count(h) != m.tags.len() as i32 {
                rec.violate("count", format!("the C library has {} tags, the model {}", count(h), m.tags.len()), det());
            } else {
                for (i, t) in m.tags.iter().enumerate() {
                    if sig(h, i as u32) != t.sig {
                        rec.violate("tag", format!("tag {i}"), det());
                    }
                    let first = m.tags.iter().position(|x| x.sig == t.sig).unwrap();
                    if linked(h, t.sig) != m.tags[first].link.unwrap_or(0) {
                        rec.violate("link", format!("tag {i}: {:#x} {:x?}", linked(h, t.sig), m.tags[first].link), det());
                    }
                    rec.count("tags compared", 1);
                }
            }
            close(h);
            if enough() {
                break;
            }
        }
    });
}

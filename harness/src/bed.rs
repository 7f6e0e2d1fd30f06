//! Files that the monitored opens work on.
use crate::model::{Content, MProfile};
use std::fs::File;
use std::io;
use std::path::{Path, PathBuf};

pub struct Bed {
    pub path: PathBuf,
    file: File,
}
impl Bed {
    pub fn new(dir: &str, name: &str) -> Bed {
        let path = Path::new(dir).join(name);
        let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("scratch file");
        Bed { path, file }
    }
    pub fn put(&self, c: &Content) {
        #[cfg(not(miri))]
        {
            use std::os::unix::fs::FileExt;
            self.file.set_len(0).expect("scratch");
            self.file.write_all_at(&c.stored(), 0).expect("scratch");
            if c.len != c.head.len().max(c.stored().len()) as u64 {
                self.file.set_len(c.len).expect("scratch");
            }
        }
        #[cfg(miri)]
        {
            let _ = &self.file;
            let mut v = c.stored().into_owned();
            v.resize(c.len as usize, 0);
            std::fs::write(&self.path, v).unwrap();
        }
    }
}

#[cfg(not(miri))]
impl Bed {
    /// Other names of the file while it is open here.
    pub fn numbered(&self) -> Vec<PathBuf> {
        use std::os::fd::AsRawFd;
        let n = self.file.as_raw_fd();
        vec![format!("/proc/self/fd/{n}").into(), format!("/dev/fd/{n}").into(), format!("/proc/{}/fd/{n}", std::process::id()).into()]
    }
    /// Locks the file, as another program may, by way of this descriptor; 0 unlocks.
    pub fn lock(&self, how: u64) {
        use std::os::fd::AsRawFd;
        let fd = self.file.as_raw_fd();
        let range = |kind: i32| {
            let mut l: libc::flock = unsafe { std::mem::zeroed() };
            l.l_type = kind as libc::c_short;
            l.l_whence = libc::SEEK_SET as libc::c_short;
            unsafe { libc::fcntl(fd, libc::F_OFD_SETLK, &l) };
        };
        match how {
            0 => {
                unsafe { libc::flock(fd, libc::LOCK_UN) };
                range(libc::F_UNLCK);
            }
            1 => drop(unsafe { libc::flock(fd, libc::LOCK_EX | libc::LOCK_NB) }),
            2 => drop(unsafe { libc::flock(fd, libc::LOCK_SH | libc::LOCK_NB) }),
            3 => range(libc::F_WRLCK),
            _ => range(libc::F_RDLCK),
        }
    }
    /// Sets the modification time, as tools that preserve it do.
    pub fn freeze(&self) {
        let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_185_318_337);
        let _ = self.file.set_times(std::fs::FileTimes::new().set_accessed(t).set_modified(t));
    }
}

/// Compares what the public queries say about an opened profile with the model.
pub fn check_tags(p: &lcms2::types::Profile, m: &MProfile) -> Result<(), String> {
    let n = p.get_tag_count();
    if n != m.tags.len() {
        return Err(format!("tag count is {n}, the file has {} tags in bounds", m.tags.len()));
    }
    for (i, t) in m.tags.iter().enumerate() {
        let s: u32 = p.get_tag_signature(i).into();
        if s != t.sig {
            return Err(format!("tag {i} has signature {s:#010x}, the file's is {:#010x}", t.sig));
        }
    }
    Ok(())
}
pub fn kind_of<T>(r: &io::Result<T>) -> Option<io::ErrorKind> {
    r.as_ref().err().map(|e| e.kind())
}

/// Everything observable about a profile, without what differs between two opens of the same file: the number of the
/// descriptor and the name.
pub fn fingerprint(p: &lcms2::types::Profile) -> String {
    let n = p.get_tag_count();
    let mut s = format!("{n}");
    for i in 0..n {
        s.push_str(&format!(",{:08x}", u32::from(p.get_tag_signature(i))));
    }
    if cfg!(miri) {
        return s;
    }
    let d = format!("{p:?}");
    // (the file's own output: number, path, mode)
    let d = match (d.find("path: \""), d.find("\", read: ")) {
        (Some(a), Some(b)) if a < b => format!("{}{}", &d[..a], &d[b..]),
        _ => d,
    };
    let mut rest = d.as_str();
    while let Some(i) = rest.find("fd: ") {
        s.push_str(&rest[..i]);
        rest = rest[i + 4..].trim_start_matches(|c: char| c.is_ascii_digit());
    }
    s.push_str(rest);
    s
}

//! A node image: one loaded copy of one build of the repository's crates, with its own statics.

use std::ffi::{c_void, CString};

#[repr(C)]
pub struct Host {
    pub slow: extern "C" fn(u32),
    pub blocked: extern "C" fn(),
    pub os_random: extern "C" fn(*mut u8, usize) -> isize,
    pub rng: extern "C" fn(*mut u8, usize, u32) -> i32,
    pub place: extern "C" fn() -> usize,
    pub watched: extern "C" fn(u32),
    pub alloc: extern "C" fn(usize) -> i32,
    pub clock: extern "C" fn(i32, *mut [i64; 2]),
    pub env: extern "C" fn(*const std::ffi::c_char) -> *const std::ffi::c_char,
    pub open: extern "C" fn() -> i32,
    pub aborted: extern "C" fn(),
}

pub const WATCH: u8 = 0x80;

pub const MAP: usize = 1 << 16;

#[repr(C)]
pub struct Cov {
    pub countdown: i64,
    pub active: u64,
    pub nguards: u64,
    pub live: u64,
    pub map: [u8; MAP],
}

#[repr(C)]
pub struct Out {
    pub ptr: *mut u8,
    pub cap: usize,
    pub len: usize,
}

pub type P = *mut u8;

macro_rules! image {
    ($($n:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[derive(Clone, Copy)]
        pub struct Fns { $(pub $n: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        unsafe fn resolve(h: *mut c_void) -> Result<Fns, String> {
            Ok(Fns { $($n: {
                let s = CString::new(concat!("kn_", stringify!($n))).unwrap();
                let p = libc::dlsym(h, s.as_ptr());
                if p.is_null() { return Err(format!("missing symbol kn_{}", stringify!($n))); }
                core::mem::transmute::<*mut c_void, unsafe extern "C" fn($($a),*) $(-> $r)?>(p)
            },)* })
        }
    };
}

image! {
    init: fn(*const Host) -> *mut Cov;
    last_panic: fn(*mut Out);
    caps: fn() -> u32;
    keygen: fn(u32, *mut P, *mut P) -> i32;
    keygen_os: fn(u32, u32, *mut P, *mut P) -> i32;
    keygen_det: fn(u32, *const u8, *mut P, *mut P) -> i32;
    dk_load: fn(u32, *const u8, usize, *mut P) -> i32;
    dk_store: fn(u32, P, *mut Out) -> i32;
    dk_ek: fn(u32, P, *mut P) -> i32;
    ek_load: fn(u32, *const u8, usize, *mut P) -> i32;
    ek_store: fn(u32, P, u32, *mut Out) -> i32;
    encap: fn(u32, P, *mut Out, *mut Out) -> i32;
    encap_det: fn(u32, P, *const u8, *mut Out, *mut Out) -> i32;
    decap: fn(u32, P, *const u8, usize, *mut Out) -> i32;
    ct_roundtrip: fn(u32, *const u8, usize, *const u8, usize, *mut Out) -> i32;
    dk_clone: fn(u32, P, *mut P) -> i32;
    ek_clone: fn(u32, P, *mut P) -> i32;
    dk_eq: fn(u32, P, P, *mut i32) -> i32;
    ek_eq: fn(u32, P, P, *mut i32) -> i32;
    dk_wipe: fn(u32, P) -> i32;
    rewrap: fn(u32, *mut P, *mut P) -> i32;
    dk_free: fn(u32, P) -> i32;
    ek_free: fn(u32, P) -> i32;
    dk_layout: fn(u32, *mut usize, *mut usize) -> i32;
    dk_place: fn(u32, P, P) -> i32;
    dk_drop_in_place: fn(u32, P) -> i32;
    dk_scoped: fn(u32, P, P) -> i32;
    kept: fn(*mut Out) -> i32;
    ct_place: fn(u32, *const u8, usize, P, *mut usize) -> i32;
    ct_drop_in_place: fn(u32, P) -> i32;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Build {
    A,
    B,
    C,
    D,
    E,
    F,
    G,
    H,
    /// reference-model peer, no code under test
    Ref,
}
impl Build {
    /// the builds of the code under test
    pub const ALL: [Build; 8] = [Build::A, Build::B, Build::C, Build::D, Build::E, Build::F, Build::G, Build::H];
    pub fn os(self) -> bool {
        matches!(self, Build::A | Build::F)
    }
    pub fn det(self) -> bool {
        matches!(self, Build::A | Build::F)
    }
    /// promises to erase private keys of this scheme
    pub fn erases(self, s: u32) -> bool {
        match self {
            Build::A | Build::D | Build::E => true,
            Build::F | Build::H => s < 3,
            _ => false,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Build::A => "A",
            Build::B => "B",
            Build::C => "C",
            Build::D => "D",
            Build::E => "E",
            Build::F => "F",
            Build::G => "G",
            Build::H => "H",
            Build::Ref => "Ref",
        }
    }
}

pub struct Image {
    pub build: Build,
    pub f: Fns,
    pub cov: *mut Cov,
    pub caps: u32,
}

impl Image {
    /// Load a private copy (own inode, so own statics) of the library at `path`.
    pub fn load(path: &str, build: Build) -> Result<Image, String> {
        let data = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
        unsafe {
            let name = CString::new("kemnode").unwrap();
            let fd = libc::memfd_create(name.as_ptr(), 0);
            let (p, tmp) = if fd >= 0 {
                let mut off = 0;
                while off < data.len() {
                    let n = libc::write(fd, data[off..].as_ptr().cast(), data.len() - off);
                    if n <= 0 {
                        return Err("memfd write".into());
                    }
                    off += n as usize;
                }
                (format!("/proc/self/fd/{fd}"), None)
            } else {
                let t = format!("{path}.{}.{}", std::process::id(), rand_suffix());
                std::fs::write(&t, &data).map_err(|e| e.to_string())?;
                (t.clone(), Some(t))
            };
            let c = CString::new(p).unwrap();
            let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            if let Some(t) = tmp {
                let _ = std::fs::remove_file(t);
            }
            // The descriptor stays open: the loader recognises libraries by name as well as by
            // inode, so a reused descriptor number would hand back an earlier image.
            if h.is_null() {
                let e = libc::dlerror();
                return Err(std::ffi::CStr::from_ptr(e).to_string_lossy().into_owned());
            }
            let f = resolve(h)?;
            let cov = (f.init)(&crate::kernel::HOST);
            {
                use std::sync::Mutex;
                static SEEN: Mutex<Vec<usize>> = Mutex::new(Vec::new());
                let mut seen = SEEN.lock().unwrap();
                if seen.contains(&(cov as usize)) {
                    return Err(format!("{path}: the loader handed back an earlier image"));
                }
                seen.push(cov as usize);
            }
            Ok(Image { build, caps: (f.caps)(), f, cov })
        }
    }
    /// What is in the library's own writable memory: its statics, and the calling thread's copies of
    /// its thread-locals.
    pub fn statics(&self) -> Vec<u8> {
        struct Find {
            at: usize,
            out: Vec<u8>,
        }
        unsafe extern "C" fn one(i: *mut libc::dl_phdr_info, _n: usize, f: *mut c_void) -> i32 {
            let (i, f) = (&*i, &mut *f.cast::<Find>());
            let ph = std::slice::from_raw_parts(i.dlpi_phdr, i.dlpi_phnum as usize);
            let range = |h: &libc::Elf64_Phdr| i.dlpi_addr as usize + h.p_vaddr as usize..i.dlpi_addr as usize + (h.p_vaddr + h.p_memsz) as usize;
            if !ph.iter().any(|h| h.p_type == libc::PT_LOAD && range(h).contains(&f.at)) {
                return 0;
            }
            // (what the loader made read-only again stays out: only the pages of data proper)
            for h in ph.iter().filter(|h| h.p_type == libc::PT_LOAD && h.p_flags & libc::PF_W != 0) {
                let r = range(h);
                f.out.extend_from_slice(std::slice::from_raw_parts(r.start as *const u8, r.len()));
            }
            if let (false, Some(h)) = (i.dlpi_tls_data.is_null(), ph.iter().find(|h| h.p_type == libc::PT_TLS)) {
                f.out.extend_from_slice(std::slice::from_raw_parts(i.dlpi_tls_data.cast(), h.p_memsz as usize));
            }
            1
        }
        let mut f = Find { at: self.cov as usize, out: vec![] };
        unsafe { libc::dl_iterate_phdr(Some(one), (&raw mut f).cast()) };
        f.out
    }
    pub fn has_det(&self) -> bool {
        self.caps >> 16 & 1 == 1
    }
    pub fn has_os(&self) -> bool {
        self.caps >> 17 & 1 == 1
    }
    pub fn nguards(&self) -> usize {
        unsafe { (*self.cov).nguards as usize }
    }
}

fn rand_suffix() -> u64 {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    N.fetch_add(1, Ordering::Relaxed)
}

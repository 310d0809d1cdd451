//! Loads private copies of the real plugin images and redirects their imports to the simulated system.
use crate::shims;
use std::ffi::{CStr, CString};

pub struct Image {
    pub handle: *mut libc::c_void,
    pub base: usize,
    pub ro: Vec<(usize, usize)>,
    pub unknown: Vec<String>,
}

pub static mut IMAGES: Vec<Vec<Image>> = Vec::new(); // [flavour][copy]
pub static mut RO: Vec<(usize, usize)> = Vec::new();

#[repr(C)]
struct Dyn {
    tag: i64,
    val: u64,
}
#[repr(C)]
struct Rela {
    off: u64,
    info: u64,
    addend: i64,
}
#[repr(C)]
struct Sym {
    name: u32,
    info: u8,
    other: u8,
    shndx: u16,
    value: u64,
    size: u64,
}

fn copy_to_memory(bytes: &[u8]) -> CString {
    unsafe {
        let fd = libc::memfd_create(b"plugin\0".as_ptr().cast(), libc::MFD_CLOEXEC);
        if fd >= 0 {
            let mut off = 0;
            while off < bytes.len() {
                let n = libc::write(fd, bytes[off..].as_ptr().cast(), bytes.len() - off);
                assert!(n > 0, "memfd write");
                off += n as usize;
            }
            return CString::new(format!("/proc/self/fd/{}", fd)).unwrap();
        }
        static mut N: u32 = 0;
        N += 1;
        let p = format!("/tmp/sim-{}-{}.so", libc::getpid(), N);
        std::fs::write(&p, bytes).expect("temporary plugin copy");
        CString::new(p).unwrap()
    }
}

unsafe extern "C" fn find(info: *mut libc::dl_phdr_info, _sz: usize, data: *mut libc::c_void) -> i32 {
    let want = &mut *(data as *mut (usize, usize, Vec<(usize, usize, u32)>));
    let i = &*info;
    let ph = std::slice::from_raw_parts(i.dlpi_phdr, i.dlpi_phnum as usize);
    let inside = ph.iter().any(|p| p.p_type == libc::PT_LOAD && {
        let a = i.dlpi_addr as usize + p.p_vaddr as usize;
        want.0 >= a && want.0 < a + p.p_memsz as usize
    });
    if !inside {
        return 0;
    }
    want.1 = i.dlpi_addr as usize;
    want.2 = ph.iter().map(|p| (i.dlpi_addr as usize + p.p_vaddr as usize, p.p_memsz as usize, if p.p_type == libc::PT_LOAD { p.p_flags } else if p.p_type == libc::PT_DYNAMIC { 0x1000 } else { 0x2000 })).collect();
    1
}

fn load(bytes: &[u8], symbol: &str) -> Image {
    unsafe {
        let path = copy_to_memory(bytes);
        let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            panic!("dlopen: {}", CStr::from_ptr(libc::dlerror()).to_string_lossy());
        }
        if path.to_bytes().starts_with(b"/tmp/") {
            libc::unlink(path.as_ptr());
        } else {
            let n: i32 = path.to_str().unwrap().rsplit('/').next().unwrap().parse().unwrap();
            // keep the descriptor number busy until the next copy is made from a fresh one
            KEEP.push(n);
        }
        let cs = CString::new(symbol).unwrap();
        let addr = libc::dlsym(h, cs.as_ptr()) as usize;
        assert!(addr != 0, "symbol {} missing", symbol);
        let mut want: (usize, usize, Vec<(usize, usize, u32)>) = (addr, 0usize, vec![]);
        libc::dl_iterate_phdr(Some(find), &mut want as *mut _ as *mut libc::c_void);
        let base = want.1;
        let dynamic = want.2.iter().find(|p| p.2 == 0x1000).expect("dynamic segment").0;
        let mut img = Image { handle: h, base, ro: vec![], unknown: vec![] };
        for (a, n, f) in &want.2 {
            if *f < 0x1000 && f & 2 == 0 {
                img.ro.push((*a, a + n));
                RO.push((*a, a + n));
            }
        }
        let mut d = dynamic as *const Dyn;
        let (mut rela, mut relasz, mut jmp, mut jmpsz, mut symtab, mut strtab) = (0usize, 0usize, 0usize, 0usize, 0usize, 0usize);
        let fix = |v: u64| if (v as usize) < base { v as usize + base } else { v as usize };
        while (*d).tag != 0 {
            match (*d).tag {
                7 => rela = fix((*d).val),
                8 => relasz = (*d).val as usize,
                23 => jmp = fix((*d).val),
                2 => jmpsz = (*d).val as usize,
                6 => symtab = fix((*d).val),
                5 => strtab = fix((*d).val),
                _ => {}
            }
            d = d.add(1);
        }
        for (t, sz) in [(rela, relasz), (jmp, jmpsz)] {
            for i in 0..sz / std::mem::size_of::<Rela>() {
                let r = &*(t as *const Rela).add(i);
                let ty = r.info as u32;
                if !matches!(ty, 1 | 6 | 7) {
                    continue;
                }
                let s = &*(symtab as *const Sym).add((r.info >> 32) as usize);
                if s.shndx != 0 || s.name == 0 {
                    continue;
                }
                let name = CStr::from_ptr((strtab + s.name as usize) as *const libc::c_char).to_string_lossy().into_owned();
                match shims::lookup(&name) {
                    Some(to) => {
                        let slot = base + r.off as usize;
                        let page = slot & !4095;
                        assert_eq!(libc::mprotect(page as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE), 0);
                        *(slot as *mut usize) = to + r.addend as usize;
                    }
                    None => {
                        if !shims::harmless(&name) && !img.unknown.contains(&name) {
                            img.unknown.push(name);
                        }
                    }
                }
            }
        }
        img
    }
}
static mut KEEP: Vec<i32> = Vec::new();

/// load `copies` private copies of each plugin file
#[allow(static_mut_refs)]
pub fn load_all(paths: &[String], symbol: &str, copies: usize) -> Vec<String> {
    let mut unknown = vec![];
    unsafe {
        for p in paths {
            let bytes = std::fs::read(p).unwrap_or_else(|e| {
                println!("{}: {}", p, e);
                std::process::exit(2)
            });
            let v: Vec<Image> = (0..copies).map(|_| load(&bytes, symbol)).collect();
            for n in &v[0].unknown {
                if !unknown.contains(n) {
                    unknown.push(n.clone());
                }
            }
            IMAGES.push(v);
        }
        RO.sort();
    }
    unknown
}

#[allow(static_mut_refs)]
pub fn plugin(flavour: usize, copy: usize) -> *const libc::c_void {
    symbol(flavour, copy, "sudo_pair")
}
#[allow(static_mut_refs)]
pub fn symbol(flavour: usize, copy: usize, name: &str) -> *const libc::c_void {
    unsafe {
        let i = &IMAGES[flavour][copy];
        let cs = CString::new(name).unwrap();
        let a = libc::dlsym(i.handle, cs.as_ptr());
        assert!(!a.is_null(), "symbol {}", name);
        a
    }
}

#[allow(static_mut_refs)]
pub fn has(flavour: usize, name: &str) -> bool {
    let cs = CString::new(name).unwrap();
    unsafe { IMAGES.get(flavour).map_or(false, |v| !libc::dlsym(v[0].handle, cs.as_ptr()).is_null()) }
}

/// is this address in a read-only part of a plugin image?
#[allow(static_mut_refs)]
pub fn is_constant(a: usize) -> bool {
    unsafe { RO.iter().any(|(x, y)| a >= *x && a < *y) }
}

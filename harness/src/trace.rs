// Calls with marks around them, for tools/arm.py, which reads the instructions executed in between.
use crate::ops::*;

#[no_mangle]
#[inline(never)]
pub extern "C" fn pa_mark(i: usize, p: *const u8) {
    unsafe { core::arch::asm!("/* {0} {1} */", in(reg) i, in(reg) p) }
}
const END: usize = 1 << 20;

/// Where the mark and this program's instructions are.
pub fn place() {
    println!("mark {:x}", pa_mark as *const () as usize);
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() > 5 && f[1].contains('x') && std::path::Path::new(f[5]) == exe { println!("text {}", f[0]); }
    }
}

unsafe extern "C" {
    fn fopen(p: *const i8, m: *const i8) -> *mut core::ffi::c_void;
    fn printf(fmt: *const i8, ...) -> i32;
    fn strlen(s: *const u8) -> usize;
    fn fflush(f: *mut core::ffi::c_void) -> i32;
    fn fscanf(f: *mut core::ffi::c_void, fmt: *const i8, ...) -> i32;
}

/// `table`: lines "type op o f init.lo init.hi a.lo a.hi b.lo b.hi"; each is called in turn, the whole table
/// `passes` times. (Read with the C library's functions, which are not part of this program's text: the
/// instructions traced are few.)
pub fn run(table: &str, passes: usize) {
    let mut rows = Vec::with_capacity(8192);
    let path = std::ffi::CString::new(table).unwrap();
    let file = unsafe { fopen(path.as_ptr() as *const i8, c"r".as_ptr() as *const i8) };
    if file.is_null() { panic!("no table"); }
    loop {
        let mut n = [[0u8; 16]; 4];
        let mut v = [0u64; 6];
        let [n0, n1, n2, n3] = &mut n;
        let [v0, v1, v2, v3, v4, v5] = &mut v;
        let k = unsafe { fscanf(file, c"%15s %15s %15s %15s %lx %lx %lx %lx %lx %lx".as_ptr() as *const i8, n0.as_mut_ptr(), n1.as_mut_ptr(), n2.as_mut_ptr(), n3.as_mut_ptr(),
            v0 as *mut u64, v1 as *mut u64, v2 as *mut u64, v3 as *mut u64, v4 as *mut u64, v5 as *mut u64) };
        if k != 10 { break; }
        let t = |i: usize| -> &'static str { let l = unsafe { strlen(n[i].as_ptr()) }; unsafe { std::str::from_utf8_unchecked(Box::leak(n[i][..l].to_vec().into_boxed_slice())) } };
        let w = |i: usize| v[i] as u128 | (v[i + 1] as u128) << 64;
        rows.push((t(0), t(1), parse_ord(t(2)), parse_ord(t(3)), w(0), w(2), w(4)));
    }
    let mut cells: Vec<(&'static str, Box<dyn Cell>)> = Vec::new();
    let mut res = Vec::with_capacity(rows.len() * passes);
    let dummy = 0u128;
    for pass in 0..passes {
        for (i, (ty, op, o, f, init, a, b)) in rows.iter().enumerate() {
            let id = pass * rows.len() + i;
            if *op == "fence" {
                pa_mark(id, &dummy as *const u128 as *const u8);
                portable_atomic::fence(*o);
                pa_mark(END, core::ptr::null());
                res.push((Ret::U, 0));
                continue;
            }
            let op = Op::parse(op);
            if !cells.iter().any(|c| c.0 == *ty) { cells.push((*ty, by_name(ty).unwrap())); }
            let c = &mut cells.iter_mut().find(|c| c.0 == *ty).unwrap().1;
            c.get_mut_write(*init);
            pa_mark(id, c.raw_ptr());
            let r = c.call(op, *a, *b, *o, *f);
            pa_mark(END, core::ptr::null());
            res.push((r, c.get_mut_read()));
        }
    }
    for (r, _) in res {
        let k = match r { Ret::V(_) => c"v", Ret::U => c"u", Ret::B(_) => c"b", Ret::Ok(_) => c"ok", Ret::Err(_) => c"err", _ => c"panic" };
        unsafe { printf(c"%s\n".as_ptr() as *const i8, k.as_ptr()); }
    }
    unsafe { fflush(core::ptr::null_mut()); }
}

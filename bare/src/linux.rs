// A program that makes the calls it reads from the standard input and writes what came of them: a tag, PA_CTX
// and PA_ARENA each way.  'C': make this call; 'K': go on after a closure.  'R': it returned; 'B': it is in a
// closure (and makes other calls until 'K'); 'P': it panicked.
use super::{PA_ARENA, PA_CTX};
use core::arch::{asm, global_asm};
use core::ptr::{addr_of, addr_of_mut};

// _start: pa_start(stack pointer).  pa_again(sp): pa_serve() on an empty stack.
#[cfg(any(target_arch = "aarch64"))]
global_asm!(".globl _start", "_start:", "mov x0, sp", "bl pa_start", "brk 0", ".globl pa_again", "pa_again:", "mov sp, x0", "b pa_serve");
#[cfg(target_arch = "arm")]
global_asm!(".globl _start", ".arm", "_start:", "mov r0, sp", "bl pa_start", "udf #0", ".globl pa_again", "pa_again:", "mov sp, r0", "b pa_serve");
#[cfg(target_arch = "s390x")]
global_asm!(".globl _start", "_start:", "lgr %r2, %r15", "aghi %r15, -160", "brasl %r14, pa_start", "j .+2", ".globl pa_again", "pa_again:", "lgr %r15, %r2", "aghi %r15, -160", "jg pa_serve");
#[cfg(target_arch = "powerpc64")]
global_asm!(".abiversion 2", ".globl _start", ".type _start, @function", "_start:", "addis 2, 12, .TOC.-_start@ha", "addi 2, 2, .TOC.-_start@l", "mr 3, 1", "clrrdi 1, 1, 4", "li 0, 0", "stdu 0, -128(1)", "bl pa_start", "nop", "trap",
    ".globl pa_again", ".type pa_again, @function", "pa_again:", "clrrdi 1, 3, 4", "li 0, 0", "stdu 0, -128(1)", "b pa_serve");
#[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
global_asm!(".globl _start", "_start:", "mv a0, sp", "call pa_start", "unimp", ".globl pa_again", "pa_again:", "mv sp, a0", "tail pa_serve");
#[cfg(target_arch = "loongarch64")]
global_asm!(".globl _start", "_start:", "move $a0, $sp", "bl pa_start", "break 0", ".globl pa_again", "pa_again:", "move $sp, $a0", "b pa_serve");
#[cfg(any(target_arch = "mips", target_arch = "mips64"))]
global_asm!(".set noreorder", ".globl _start", "_start:", "move $4, $29", "addiu $29, $29, -64", "lui $25, %hi(pa_start)", "addiu $25, $25, %lo(pa_start)", "jalr $25", "nop", "break",
    ".globl pa_again", "pa_again:", "addiu $29, $4, -64", "lui $25, %hi(pa_serve)", "addiu $25, $25, %lo(pa_serve)", "jr $25", "nop");
#[cfg(target_arch = "x86_64")]
global_asm!(".globl _start", "_start:", "mov rdi, rsp", "and rsp, -16", "call pa_start", "ud2", ".globl pa_again", "pa_again:", "mov rsp, rdi", "and rsp, -16", "call pa_serve", "ud2");
#[cfg(target_arch = "x86")]
global_asm!(".globl _start", "_start:", "mov eax, esp", "and esp, -16", "sub esp, 12", "push eax", "call pa_start", "ud2", ".globl pa_again", "pa_again:", "mov esp, dword ptr [esp + 4]", "and esp, -16", "call pa_serve", "ud2");
#[cfg(target_arch = "sparc64")]
global_asm!(".globl _start", "_start:", "add %sp, 2047, %o0", "sub %sp, 192, %sp", "call pa_start", "nop", ".globl pa_again", "pa_again:", "flushw", "sub %o0, 2047+192, %sp", "call pa_serve", "nop");

/// The kernel's answer, or -1.
#[inline(never)]
unsafe fn sys(n: [usize; 3], k: usize, a: usize, b: usize, c: usize) -> isize {
    let n = n[k];
    let r: isize;
    unsafe {
        #[cfg(target_arch = "aarch64")]
        asm!("svc 0", in("x8") n, inlateout("x0") a as isize => r, in("x1") b, in("x2") c);
        #[cfg(target_arch = "arm")]
        asm!("mov {t}, r7", "mov r7, {n}", "svc 0", "mov r7, {t}", t = out(reg) _, n = in(reg) n, inlateout("r0") a as isize => r, in("r1") b, in("r2") c);
        #[cfg(target_arch = "s390x")]
        asm!("svc 0", in("r1") n, inlateout("r2") a as isize => r, in("r3") b, in("r4") c);
        #[cfg(target_arch = "powerpc64")]
        asm!("sc", "bns+ 2f", "li 3, -1", "2:", inlateout("r0") n => _, inlateout("r3") a as isize => r, inlateout("r4") b => _, inlateout("r5") c => _, lateout("r6") _, lateout("r7") _, lateout("r8") _, lateout("r9") _, lateout("r10") _, lateout("r11") _, lateout("r12") _, lateout("cr0") _, lateout("ctr") _, lateout("xer") _);
        #[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
        asm!("ecall", in("a7") n, inlateout("a0") a as isize => r, in("a1") b, in("a2") c);
        #[cfg(target_arch = "loongarch64")]
        asm!("syscall 0", in("$a7") n, inlateout("$a0") a as isize => r, in("$a1") b, in("$a2") c, out("$t0") _, out("$t1") _, out("$t2") _, out("$t3") _, out("$t4") _, out("$t5") _, out("$t6") _, out("$t7") _, out("$t8") _);
        #[cfg(any(target_arch = "mips", target_arch = "mips64"))]
        {
            let e: usize;
            asm!("syscall", inlateout("$2") n as isize => r, lateout("$3") _, in("$4") a, in("$5") b, in("$6") c, lateout("$7") e, lateout("$8") _, lateout("$9") _, lateout("$10") _, lateout("$11") _, lateout("$12") _, lateout("$13") _, lateout("$14") _, lateout("$15") _, lateout("$24") _, lateout("$25") _);
            if e != 0 { return -1; }
        }
        #[cfg(target_arch = "x86_64")]
        asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, lateout("rcx") _, lateout("r11") _);
        #[cfg(target_arch = "x86")]
        asm!("push ebx", "mov ebx, edi", "int 0x80", "pop ebx", inlateout("eax") n as isize => r, in("edi") a, in("ecx") b, in("edx") c);
        #[cfg(target_arch = "sparc64")]
        {
            let e: usize;
            asm!("mov {n}, %g1", "ta 0x6d", "bcs,a %xcc, 1f", "mov -1, %o0", "1:", n = in(reg) n, inlateout("o0") a as isize => r, in("o1") b, in("o2") c, lateout("o3") e);
            let _ = e;
        }
    }
    r
}
/// read, write, exit
#[cfg(any(target_arch = "aarch64", target_arch = "riscv32", target_arch = "riscv64", target_arch = "loongarch64"))]
const N: [usize; 3] = [63, 64, 93];
#[cfg(any(target_arch = "arm", target_arch = "s390x", target_arch = "powerpc64", target_arch = "sparc64", target_arch = "x86"))]
const N: [usize; 3] = [3, 4, 1];
#[cfg(target_arch = "mips")]
const N: [usize; 3] = [4003, 4004, 4001];
#[cfg(target_arch = "mips64")]
const N: [usize; 3] = [5000, 5001, 5058];
#[cfg(target_arch = "x86_64")]
const N: [usize; 3] = [0, 1, 60];

const SIZE: usize = 1 + 64 + 192;
static mut BUF: [u8; SIZE] = [0; SIZE];
static mut SP: usize = 0;

unsafe fn leave() -> ! { unsafe { loop { sys(N, 2, 0, 0, 0); } } }
unsafe fn copy(d: *mut u8, s: *const u8, n: usize) { unsafe { for k in 0..n { d.add(k).write_volatile(s.add(k).read_volatile()); } } }
unsafe fn receive() -> u8 {
    unsafe {
        let b = addr_of_mut!(BUF).cast::<u8>();
        let mut k = 0;
        while k < SIZE {
            let n = sys(N, 0, 0, b as usize + k, SIZE - k);
            if n <= 0 { leave() }
            k += n as usize;
        }
        copy(addr_of_mut!(PA_CTX).cast(), b.add(1), 64);
        copy(addr_of_mut!(PA_ARENA).cast(), b.add(65), 192);
        b.read_volatile()
    }
}
#[no_mangle]
#[inline(never)]
unsafe extern "C" fn pa_send(tag: u8) {
    unsafe {
        let b = addr_of_mut!(BUF).cast::<u8>();
        b.write_volatile(tag);
        copy(b.add(1), addr_of!(PA_CTX).cast(), 64);
        copy(b.add(65), addr_of!(PA_ARENA).cast(), 192);
        let mut k = 0;
        while k < SIZE {
            let n = sys(N, 1, 1, b as usize + k, SIZE - k);
            if n <= 0 { leave() }
            k += n as usize;
        }
    }
}
#[no_mangle]
unsafe extern "C" fn pa_start(sp: usize) -> ! {
    unsafe {
        SP = sp;
        pa_serve()
    }
}
extern "C" { fn pa_again(sp: usize) -> !; }
#[no_mangle]
unsafe extern "C" fn pa_serve() -> ! { unsafe { loop { serve(); } } }
/// One call; or the end of a closure: true.
unsafe fn serve() -> bool {
    unsafe {
        match receive() {
            b'C' => { super::pa_run(); pa_send(b'R'); false }
            b'K' => true,
            _ => leave(),
        }
    }
}
#[inline(never)]
pub extern "C" fn pa_cb() { unsafe { pa_send(b'B'); while !serve() {} } }
#[inline(never)]
pub extern "C" fn pa_panic() -> ! { unsafe { pa_send(b'P'); pa_again(SP & !63) } }

/// What the kernel passed to the program (run-time detection asks the C library).
#[no_mangle]
unsafe extern "C" fn getauxval(t: usize) -> usize {
    unsafe {
        let mut p = SP as *const usize;
        p = p.add(p.read() + 2);                  // the arguments
        while p.read() != 0 { p = p.add(1); }     // the environment
        p = p.add(1);
        while p.read() != 0 { if p.read() == t { return p.add(1).read(); } p = p.add(2); }
        0
    }
}
/// (and other C functions that a program without a C library has not)
#[no_mangle]
unsafe extern "C" fn dlsym(_: usize, name: *const u8) -> usize {
    unsafe {
        for (k, c) in b"getauxval\0".iter().enumerate() { if name.add(k).read() != *c { return 0; } }
        getauxval as *const () as usize
    }
}

//! A program without the standard library and without an allocator that uses every operation of the library.
//! If the library (or what it pulls in) needed std or a heap, this would not link.
#![no_std]
#![no_main]
#![allow(incomplete_features)]
#![feature(generic_const_exprs)]
#[cfg(feature = "lib")]
mod work;
#[cfg(not(feature = "lib"))]
mod work {
    pub fn run(out: &mut dyn FnMut(&str, u64)) {
        out("nothing", 0);
    }
}

/// the outside world: libc, or bare system calls where there is no libc (32-bit)
#[cfg(not(target_arch = "x86"))]
mod sys {
    #[link(name = "c")]
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn abort() -> !;
    }
    pub fn say(m: &[u8]) {
        unsafe {
            write(1, m.as_ptr(), m.len());
        }
    }
    pub fn die() -> ! {
        unsafe { abort() }
    }
    #[no_mangle]
    pub extern "C" fn main(_argc: i32, _argv: *const *const u8) -> i32 {
        super::work::run(&mut super::out);
        0
    }
}
#[cfg(target_arch = "x86")]
mod sys {
    unsafe fn call(n: u32, a: u32, b: u32, c: u32) -> u32 {
        let r: u32;
        core::arch::asm!("int 0x80", inout("eax") n => r, in("ebx") a, in("ecx") b, in("edx") c);
        r
    }
    pub fn say(m: &[u8]) {
        unsafe {
            call(4, 1, m.as_ptr() as u32, m.len() as u32);
        }
    }
    pub fn die() -> ! {
        unsafe {
            call(1, 134, 0, 0);
        }
        loop {}
    }
    core::arch::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and esp, -16", "call {}", sym begin);
    extern "C" fn begin() -> ! {
        super::work::run(&mut super::out);
        unsafe {
            call(1, 0, 0, 0);
        }
        loop {}
    }
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    sys::say(b"panic\n");
    sys::die()
}
// core is built for unwinding; nothing unwinds here
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[no_mangle]
pub extern "C" fn _Unwind_Resume() -> ! {
    sys::die()
}
fn out(name: &str, hash: u64) {
    let mut line = [b' '; 80];
    let n = name.len().min(60);
    line[..n].copy_from_slice(&name.as_bytes()[..n]);
    for i in 0..16 {
        line[n + 1 + i] = b"0123456789abcdef"[(hash >> (60 - 4 * i)) as usize & 15];
    }
    line[n + 17] = b'\n';
    sys::say(&line[..n + 18]);
}

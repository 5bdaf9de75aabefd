//! `std::thread::available_parallelism` asks `sched_getaffinity`. Defining the symbol here lets a
//! check decide, per thread, how many processors the code under test believes it has.
use std::cell::Cell;

thread_local!(static PRETEND: Cell<usize> = const { Cell::new(0) });

/// # Safety
/// as sched_getaffinity(2)
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: libc::size_t, set: *mut libc::cpu_set_t) -> libc::c_int {
    let k = PRETEND.with(|p| p.get());
    if k == 0 || pid != 0 {
        let r = libc::syscall(libc::SYS_sched_getaffinity, pid, size, set);
        if r < 0 {
            return -1;
        }
        let r = r as usize;
        if r < size {
            std::ptr::write_bytes((set as *mut u8).add(r), 0, size - r);
        }
        return 0;
    }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for c in 0..k.min(size * 8) {
        libc::CPU_SET(c, &mut *set);
    }
    0
}

/// Runs `f` on this thread as if the machine had `k` processors.
pub fn with_processors<T>(k: usize, f: impl FnOnce() -> T) -> T {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            PRETEND.with(|p| p.set(self.0));
        }
    }
    let _r = Reset(PRETEND.with(|p| p.replace(k)));
    f()
}

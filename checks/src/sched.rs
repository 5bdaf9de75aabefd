//! Schedules of worker threads. The memory allocator of the harness is a scheduling point: a worker
//! of a case may be held there until the other workers of the case make no progress any more, so
//! that it goes on with whatever it knew when everything else is done.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

struct Ticking;
#[global_allocator]
static ALLOCATOR: Ticking = Ticking;

/// how often the workers of a case passed a scheduling point
static PROGRESS: [AtomicU64; 256] = [const { AtomicU64::new(0) }; 256];
static NEXT: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy)]
struct Me {
    slot: usize,
    left: u64,
    holds: u32,
    rng: u64,
    span: f64,
    /// count only memory requests of this many bytes (0: all)
    only: usize,
}
thread_local!(static ME: Cell<Me> = const { Cell::new(Me { slot: usize::MAX, left: 0, holds: 0, rng: 0, span: 0.0, only: 0 }) });

impl Me {
    fn random(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn draw(&mut self) {
        let u = (self.random() >> 11) as f64 / (1u64 << 53) as f64;
        self.left = (u * self.span).exp2() as u64 + 1;
    }
}

#[inline]
fn tick(size: usize) {
    let _ = ME.try_with(|cell| {
        let mut me = cell.get();
        if me.slot == usize::MAX {
            return;
        }
        PROGRESS[me.slot].fetch_add(1, Relaxed);
        if me.only != 0 && me.only != size {
            return;
        }
        me.left -= 1;
        if me.left == 0 {
            if me.holds > 0 {
                me.holds -= 1;
                hold(&mut me);
            }
            me.draw();
        }
        cell.set(me);
    });
}

fn hold(me: &mut Me) {
    let quiet = 40_000 + (me.random() % 4) as i64 * 60_000;
    let p = &PROGRESS[me.slot];
    for _ in 0..100 {
        let before = p.load(Relaxed);
        let t = libc::timespec { tv_sec: 0, tv_nsec: quiet };
        unsafe { libc::nanosleep(&t, std::ptr::null_mut()) };
        if p.load(Relaxed) == before {
            break;
        }
    }
}

unsafe impl GlobalAlloc for Ticking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        tick(1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        tick(size);
        System.realloc(p, l, size)
    }
}

/// Runs `f` on a pool of `workers` threads that are held up to `holds` times each, at distances of
/// up to 2^`span` scheduling points, drawn from `seed`; if `only` is not 0, at memory requests of
/// that many bytes.
pub fn with_schedule<T: Send>(workers: usize, seed: u64, holds: u32, span: f64, only: usize, f: impl FnOnce() -> T + Send) -> T {
    let slot = NEXT.fetch_add(1, Relaxed) % PROGRESS.len();
    let pool = rayon::ThreadPoolBuilder::new()
        .num_threads(workers)
        .start_handler(move |i| {
            let mut me = Me { slot, left: 0, holds, rng: seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ (i as u64) << 32, span, only };
            me.draw();
            ME.with(|cell| cell.set(me));
        })
        .exit_handler(|_| ME.with(|cell| cell.set(Me { slot: usize::MAX, left: 0, holds: 0, rng: 0, span: 0.0, only: 0 })))
        .build()
        .unwrap();
    pool.install(f)
}

//! Rust side of `rt.c`: step counting, seeded hash keys, simulated threads.
use std::sync::atomic::{AtomicU64, Ordering};

#[repr(C)]
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
pub struct Slot {
    /// Which of the runnable threads goes next.
    pub pick: u32,
    /// For how many points (basic blocks, loads, stores).
    pub quantum: u32,
    /// Counting only visits to places in the code that were seen to touch what
    /// another thread touches, in this plan, one of the two storing.
    pub hot: u32,
    /// Then for so many points more.
    pub extra: u32,
}

pub const EXIT_DEADLOCK: i32 = 77;
pub const EXIT_STEPS: i32 = 78;

extern "C" {
    fn rt_solo(limit: i64);
    fn rt_solo_end() -> u64;
    fn rt_solo_used() -> u64;
    fn rt_solo_refill(limit: i64);
    fn rt_pause() -> i32;
    fn rt_resume(a: i32);
    fn rt_key(k: u64);
    fn rt_sched_begin(n: i32, s: *const Slot, ns: usize, limit: u64);
    fn rt_sched_run();
    fn rt_hot_reset();
    fn rt_forget(p: usize, n: usize);
    fn rt_thread_enter(tid: i32);
    fn rt_thread_exit();
    fn rt_tick() -> u64;
    fn rt_sched_stats(out: *mut u64);
}

/// Run `f` on a fresh thread with fixed hash keys, not counted.
pub fn host<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                unsafe { rt_key(0x05ca_1ab1_e5ee_d000) };
                f()
            })
            .unwrap()
            .join()
            .unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}

/// Run `f` on a fresh thread whose hash maps are keyed from `key`, counting its
/// steps and ending the process when it takes more than `limit`.
pub fn incarnation<T: Send>(key: u64, limit: u64, f: impl FnOnce() -> T + Send) -> (T, u64) {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || unsafe {
                rt_key(key);
                rt_solo(limit as i64);
                let r = f();
                (r, rt_solo_end())
            })
            .unwrap()
            .join()
            .unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}

/// Points passed so far by this incarnation.
pub fn used() -> u64 { unsafe { rt_solo_used() } }

/// From here on, another `limit` points may be passed.
pub fn refill(limit: u64) { unsafe { rt_solo_refill(limit as i64) } }

/// A new plan: no place in the code is known to be touched by two threads.
pub fn hot_reset() { unsafe { rt_hot_reset() } }

/// Whatever the allocator does, without counting or preemption.
pub fn in_allocator<T>(f: impl FnOnce() -> T) -> T { uncounted(f) }

pub fn forget(p: *mut u8, n: usize) { unsafe { rt_forget(p as usize, n) } }

/// Run harness-internal work without counting or preemption.
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    struct Resume(i32);
    impl Drop for Resume {
        fn drop(&mut self) { unsafe { rt_resume(self.0) } }
    }
    let _r = Resume(unsafe { rt_pause() });
    f()
}

pub struct SchedStats {
    pub points: u64,
    pub switches: u64,
    pub hash: u64,
    pub blocks: u64,
    pub conflicts: u64,
    pub hot_places: u64,
}

pub type Job<'a, T> = Box<dyn FnOnce() -> T + Send + 'a>;

/// Run `jobs` as simulated threads: exactly one runs at a time, and `sched`
/// decides which and for how long. Returns their results in order.
pub fn threads<'a, T: Send>(keys: &[u64], sched: &[Slot], limit: u64, jobs: Vec<Job<'a, T>>) -> (Vec<T>, SchedStats) {
    assert!(jobs.len() <= 16);
    uncounted(|| unsafe {
        rt_sched_begin(jobs.len() as i32, sched.as_ptr(), sched.len(), limit);
        let out = std::thread::scope(|s| {
            let hs: Vec<_> = jobs
                .into_iter()
                .enumerate()
                .map(|(i, j)| {
                    let k = keys[i % keys.len()];
                    s.spawn(move || {
                        rt_key(k);
                        rt_thread_enter(i as i32);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
                        rt_thread_exit();
                        r
                    })
                })
                .collect();
            rt_sched_run();
            hs.into_iter()
                .map(|h| match h.join().unwrap() {
                    Ok(r) => r,
                    Err(p) => std::panic::resume_unwind(p),
                })
                .collect()
        });
        let mut o = [0u64; 6];
        rt_sched_stats(o.as_mut_ptr());
        (out, SchedStats { points: o[0], switches: o[1], hash: o[2], blocks: o[3], conflicts: o[4], hot_places: o[5] })
    })
}

/// Global order of history events among simulated threads.
pub fn tick() -> u64 { unsafe { rt_tick() } }

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub fn progress(v: u64) { PROGRESS.store(v, Ordering::Relaxed) }

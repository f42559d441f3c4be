//! Global allocator of the simulator: counts what each thread holds, poisons
//! memory on allocation and release, and ends the run with its own exit code on
//! a double free, a free with the wrong layout, or an overwritten guard word.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub const EXIT_MEMORY: i32 = 79;
/// More than this at once is refused: blocks are written to when they are taken.
const LARGEST: usize = 4 << 30;
const LIVE: u64 = 0x11fe_a110_c8ed_0001;
const DEAD: u64 = 0xdead_f4ee_d000_0002;
const TAIL: u64 = 0x7a11_9a4d_7a11_9a4d;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
    static SINK: Cell<*const Sink> = const { Cell::new(std::ptr::null()) };
}

/// What several threads hold together.
#[derive(Default)]
pub struct Sink {
    bytes: AtomicI64,
    blocks: AtomicI64,
}

impl Sink {
    pub fn held(&self) -> (i64, i64) { (self.bytes.load(Ordering::Relaxed), self.blocks.load(Ordering::Relaxed)) }
}

/// From here to its very end, this thread also counts there.
///
/// # Safety
/// `sink` outlives the thread.
pub unsafe fn count_in(sink: *const Sink) { SINK.with(|s| s.set(sink)) }

fn pour(bytes: i64, blocks: i64) {
    let p = SINK.try_with(|s| s.get()).unwrap_or(std::ptr::null());
    if !p.is_null() {
        let s = unsafe { &*p };
        s.bytes.fetch_add(bytes, Ordering::Relaxed);
        s.blocks.fetch_add(blocks, Ordering::Relaxed);
    }
}

/// Bytes and blocks allocated minus released by this thread.
pub fn live() -> (i64, i64) { (BYTES.with(|c| c.get()), BLOCKS.with(|c| c.get())) }

/// Allocations made by this thread so far.
pub fn allocs() -> u64 { ALLOCS.with(|c| c.get()) }

/// Bytes ever asked for by this thread.
pub fn taken() -> u64 { TAKEN.with(|c| c.get()) }

pub struct Guarded;

fn pad(layout: &Layout) -> usize { layout.align().max(64) }

fn outer(layout: &Layout) -> Layout {
    Layout::from_size_align(pad(layout) + layout.size() + 8, layout.align().max(64)).unwrap()
}

#[cold]
fn corrupt(what: &str) -> ! {
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(code: i32) -> !;
    }
    unsafe {
        let m = b"sim: memory: ";
        write(2, m.as_ptr(), m.len());
        write(2, what.as_ptr(), what.len());
        write(2, b"\n".as_ptr(), 1);
        _exit(EXIT_MEMORY)
    }
}

// Layout of a block: [.. | magic u64 | size u64] payload [tail u64]; the first
// sixteen bytes are left to the system allocator's free lists, so that the mark
// of a released block survives for a while.
unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 { crate::rt::in_allocator(|| self.take(layout)) }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = self.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        crate::rt::in_allocator(|| {
            crate::rt::forget(p, layout.size());
            self.give(p, layout)
        })
    }
}

impl Guarded {
    unsafe fn take(&self, layout: Layout) -> *mut u8 {
        if layout.size() > LARGEST {
            return std::ptr::null_mut();
        }
        let base = System.alloc(outer(&layout));
        if base.is_null() {
            return base;
        }
        let p = base.add(pad(&layout));
        *(p.sub(16) as *mut u64) = LIVE ^ layout.align() as u64;
        *(p.sub(8) as *mut u64) = layout.size() as u64;
        std::ptr::write_bytes(p, 0xa5, layout.size());
        (p.add(layout.size()) as *mut u64).write_unaligned(TAIL);
        pour(layout.size() as i64, 1);
        let _ = BYTES.try_with(|c| c.set(c.get() + layout.size() as i64));
        let _ = BLOCKS.try_with(|c| c.set(c.get() + 1));
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = TAKEN.try_with(|c| c.set(c.get() + layout.size() as u64));
        p
    }

    unsafe fn give(&self, p: *mut u8, layout: Layout) {
        let magic = *(p.sub(16) as *const u64);
        if magic == DEAD {
            corrupt("a block is released twice");
        }
        if magic ^ LIVE != layout.align() as u64 {
            corrupt("something that is no live block, or of another alignment, is released");
        }
        if *(p.sub(8) as *const u64) != layout.size() as u64 {
            corrupt("a block is released with the wrong size");
        }
        if (p.add(layout.size()) as *const u64).read_unaligned() != TAIL {
            corrupt("a block was written beyond its end");
        }
        *(p.sub(16) as *mut u64) = DEAD;
        std::ptr::write_bytes(p, 0xdd, layout.size());
        pour(-(layout.size() as i64), -1);
        let _ = BYTES.try_with(|c| c.set(c.get() - layout.size() as i64));
        let _ = BLOCKS.try_with(|c| c.set(c.get() - 1));
        System.dealloc(p.sub(pad(&layout)), outer(&layout))
    }
}

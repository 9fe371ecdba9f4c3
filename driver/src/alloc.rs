//! A checking allocator: the layout given on free must be the one used on allocation, red zones
//! before and after each block must be intact, freed memory must not be written, fresh memory is
//! filled with a pattern so that reads of uninitialised memory show in the results.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

pub struct CheckAlloc;

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FILL: AtomicU8 = AtomicU8::new(0x5A);
pub static QUARANTINE: AtomicUsize = AtomicUsize::new(1);

const MAGIC: u64 = 0x5047_4e55_4d41_4c4c;
const DEAD: u64 = 0xDEAD_5047_4e55_4d00;
const RZ: usize = 16;
const HEAD: usize = 48; // magic, size, align, lead, 16 bytes red zone

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    lead: usize,
    rz: [u8; RZ],
}

/// Off: a violation is reported on stderr and the process goes on as well as it can.
pub static STRICT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn die(msg: &str, a: usize, b: usize, c: usize, d: usize) {
    // no allocation here
    use std::io::Write;
    let mut buf = [0u8; 256];
    let n = {
        let mut cur = std::io::Cursor::new(&mut buf[..]);
        let _ = write!(cur, "ALLOC-VIOLATION {msg} ({a} {b} {c} {d})\n");
        cur.position() as usize
    };
    let _ = std::io::stderr().write_all(&buf[..n]);
    if STRICT.load(Relaxed) {
        std::process::abort()
    }
}

fn lead_for(align: usize) -> usize {
    if align <= 16 {
        HEAD
    } else {
        (HEAD + align - 1) / align * align
    }
}

const QN: usize = 64;
struct Quar {
    lock: std::sync::atomic::AtomicBool,
    slots: std::cell::UnsafeCell<[usize; QN]>,
    next: std::cell::UnsafeCell<usize>,
}
unsafe impl Sync for Quar {}
static QUAR: Quar = Quar {
    lock: std::sync::atomic::AtomicBool::new(false),
    slots: std::cell::UnsafeCell::new([0; QN]),
    next: std::cell::UnsafeCell::new(0),
};

unsafe fn release(p: *mut u8) {
    // p = user pointer of a dead block; verify that nobody wrote to it, then give it back
    let h = &*(p.sub(HEAD) as *const Head);
    if h.magic != DEAD {
        die("freed block header overwritten", p as usize, h.size, 0, 0);
        return;
    }
    let n = h.size.min(4096);
    let s = std::slice::from_raw_parts(p, n);
    if s.iter().any(|&b| b != 0xDD) {
        die("write to freed block", p as usize, h.size, 0, 0);
    }
    let lead = h.lead;
    let (size, align) = (h.size, h.align);
    System.dealloc(
        p.sub(lead),
        Layout::from_size_align_unchecked(lead + size + RZ, align.max(16)),
    );
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let lead = lead_for(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(
            lead + l.size() + RZ,
            l.align().max(16),
        ));
        if base.is_null() {
            return base;
        }
        let p = base.add(lead);
        *(p.sub(HEAD) as *mut Head) = Head {
            magic: MAGIC,
            size: l.size(),
            align: l.align(),
            lead,
            rz: [0xFB; RZ],
        };
        std::ptr::write_bytes(p, FILL.load(Relaxed), l.size());
        std::ptr::write_bytes(p.add(l.size()), 0xFE, RZ);
        LIVE.fetch_add(1, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = &mut *(p.sub(HEAD) as *mut Head);
        if h.magic != MAGIC {
            die(
                if h.magic == DEAD { "double free" } else { "free of a pointer that was not allocated, or underflow" },
                p as usize, l.size(), l.align(), 0,
            );
            return;
        }
        if h.size != l.size() || h.align != l.align() {
            die("free with a layout different from the allocation's (size,align | size,align)", h.size, h.align, l.size(), l.align());
        }
        if h.rz != [0xFB; RZ] {
            die("write before the start of a block", p as usize, h.size, 0, 0);
        }
        let tail = std::slice::from_raw_parts(p.add(h.size), RZ);
        if tail.iter().any(|&b| b != 0xFE) {
            die("write past the end of a block", p as usize, h.size, 0, 0);
        }
        h.magic = DEAD;
        std::ptr::write_bytes(p, 0xDD, h.size);
        LIVE.fetch_sub(1, Relaxed);
        if QUARANTINE.load(Relaxed) == 0 || h.size > 1 << 20 {
            release(p);
            return;
        }
        while QUAR.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let next = &mut *QUAR.next.get();
        let slots = &mut *QUAR.slots.get();
        let old = slots[*next];
        slots[*next] = p as usize;
        *next = (*next + 1) % QN;
        QUAR.lock.store(false, Release);
        if old != 0 {
            release(old as *mut u8);
        }
    }
}

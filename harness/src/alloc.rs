//! Guarding allocator: every block has canaries on both sides, is poisoned when allocated and when
//! freed, and carries its layout, so that out-of-bounds writes, double frees, frees with the wrong
//! layout and leaks become recorded events. Violations are recorded, never raised from inside the
//! allocator; `take_violation()` reports them at the end of a case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Guard;

const GUARD: usize = 64; // bytes of canary on either side; the front one also holds the header
const MAGIC_LIVE: u64 = 0x11FE_B10C_600D_F00D;
const MAGIC_DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const CANARY: u8 = 0xC9;

pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
static VIOL: AtomicU64 = AtomicU64::new(0); // kind (low 8 bits) | count << 8
static VIOL_A: AtomicUsize = AtomicUsize::new(0);
static VIOL_B: AtomicUsize = AtomicUsize::new(0);
pub static POISON: AtomicBool = AtomicBool::new(true);
const QN: usize = 64;
static QPOS: AtomicUsize = AtomicUsize::new(0);
static QUAR: [AtomicUsize; QN] = [const { AtomicUsize::new(0) }; QN];

#[repr(C)]
struct Header { magic: u64, size: usize, align: usize, front: usize }

fn front(align: usize) -> usize { GUARD.max(align) }

fn viol(kind: u64, a: usize, b: usize) {
    let v = VIOL.load(Relaxed);
    if v == 0 { VIOL_A.store(a, Relaxed); VIOL_B.store(b, Relaxed); VIOL.store(kind | 256, Relaxed); }
    else { VIOL.store(v + 256, Relaxed); }
}

/// What the allocator saw since the last call; wrong or repeated frees only if `frees`.
pub fn take_violation(frees: bool) -> Option<String> {
    let v = VIOL.swap(0, Relaxed);
    if v == 0 || (!frees && matches!(v & 255, 1 | 2 | 5)) { return None; }
    let (a, b) = (VIOL_A.load(Relaxed), VIOL_B.load(Relaxed));
    Some(match v & 255 {
        1 => format!("buffer freed twice ({} bytes)", a),
        2 => format!("buffer of {} bytes freed as a buffer of {} bytes (or with another alignment)", a, b),
        3 => format!("write before the start of a heap buffer of {} bytes", a),
        4 => format!("write past the end of a heap buffer of {} bytes", a),
        5 => "free of a pointer that was never allocated".to_string(),
        6 => format!("write to a freed heap buffer of {} bytes", a),
        k => format!("allocator violation {k}"),
    })
}

unsafe fn header(p: *mut u8) -> *mut Header { p.sub(std::mem::size_of::<Header>()) as *mut Header }

impl Guard {
    unsafe fn check_canaries(p: *mut u8, h: &Header) {
        let fr = h.front - std::mem::size_of::<Header>();
        let base = p.sub(h.front);
        for i in 0..fr { if *base.add(i) != CANARY { viol(3, h.size, 0); break; } }
        for i in 0..GUARD { if *p.add(h.size + i) != CANARY { viol(4, h.size, 0); break; } }
    }
    unsafe fn release(p: *mut u8) {
        let h = &*header(p);
        let l = Layout::from_size_align_unchecked(h.front + h.size + GUARD, h.align.max(16));
        if h.size <= 4096 {
            for i in 0..h.size { if *p.add(i) != 0xDB { viol(6, h.size, 0); break; } }
        }
        System.dealloc(p.sub(h.front), l);
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let fr = front(l.align());
        let Ok(full) = Layout::from_size_align(fr + l.size() + GUARD, l.align().max(16)) else { return std::ptr::null_mut() };
        let base = System.alloc(full);
        if base.is_null() { return base; }
        std::ptr::write_bytes(base, CANARY, fr);
        let p = base.add(fr);
        if l.size() <= (1 << 22) && POISON.load(Relaxed) { std::ptr::write_bytes(p, 0xAB, l.size()); }
        std::ptr::write_bytes(p.add(l.size()), CANARY, GUARD);
        *header(p) = Header { magic: MAGIC_LIVE, size: l.size(), align: l.align(), front: fr };
        ALLOCS.fetch_add(1, Relaxed); LIVE.fetch_add(1, Relaxed); LIVE_BYTES.fetch_add(l.size() as u64, Relaxed);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = &mut *header(p);
        if h.magic == MAGIC_DEAD { viol(1, h.size, 0); return; }
        if h.magic != MAGIC_LIVE { viol(5, 0, 0); return; }
        if h.size != l.size() || h.align != l.align() { viol(2, h.size, l.size()); }
        Self::check_canaries(p, h);
        h.magic = MAGIC_DEAD;
        FREES.fetch_add(1, Relaxed); LIVE.fetch_sub(1, Relaxed); LIVE_BYTES.fetch_sub(h.size as u64, Relaxed);
        if h.size > (1 << 16) {
            std::ptr::write_bytes(p, 0xDB, 4096.min(h.size));
            let lay = Layout::from_size_align_unchecked(h.front + h.size + GUARD, h.align.max(16));
            System.dealloc(p.sub(h.front), lay);
            return;
        }
        std::ptr::write_bytes(p, 0xDB, h.size);
        // quarantine: the block is given back to the system only after QN further frees
        let slot = QPOS.fetch_add(1, Relaxed) % QN;
        let old = QUAR[slot].swap(p as usize, Relaxed);
        if old != 0 { Self::release(old as *mut u8); }
    }
}

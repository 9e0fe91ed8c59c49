//! Checking allocator. While the tracking flag of a thread is set (only around calls into the library), memory comes
//! from a per-thread arena at a fixed address: bump allocation, no reuse within a history, red zones, poisoning,
//! addresses aligned exactly as requested and never better.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};

pub const LO: usize = 0x5EED_0000_0000;
pub const ARENA_SIZE: usize = 0x2000_0000; // 512 MB of address space per thread
pub const MAX_ARENAS: usize = 40;
const HI: usize = LO + ARENA_SIZE * MAX_ARENAS;
const RZ: u8 = 0xFD;
const FRESH: u8 = 0xA5;
/// other contents of fresh memory
pub const FILLS: [u8; 4] = [FRESH, 0x00, 0xFF, 0x5A];
const FREED: u8 = 0xDD;

#[derive(Clone, Copy)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    /// survived the end of an earlier history (a static cache, or a leak)
    pub old: bool,
}

pub struct Arena {
    pub base: usize,
    bump: usize,
    zone_end: usize,
    pub blocks: Vec<Block>,
    pub live_bytes: usize,
    pub live_blocks: usize,
    /// first violation seen by the allocator in this history
    pub error: Option<&'static str>,
    pub error_size: usize,
    pub abandoned: usize,
    /// fill and verify the zones around component pages as well
    pub strict: bool,
    /// what fresh memory holds
    pub fresh: u8,
    /// addresses fall from one request to the next instead of rising
    down: bool,
    /// lowest block of the falling part, and how many blocks the rising part has
    low: usize,
    ups: usize,
}

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static ARENA: Cell<*mut Arena> = const { Cell::new(std::ptr::null_mut()) };
}

#[inline(always)]
pub fn track(on: bool) {
    TRACK.with(|t| t.set(on))
}

#[inline(always)]
pub fn tracking() -> bool {
    TRACK.with(|t| t.get())
}

#[inline(always)]
pub fn arena() -> &'static mut Arena {
    unsafe { &mut *ARENA.with(|a| a.get()) }
}

static ARENAS: [AtomicPtr<Arena>; MAX_ARENAS] = [const { AtomicPtr::new(std::ptr::null_mut()) }; MAX_ARENAS];

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Must be called once per exploring thread.
pub fn init_arena(index: usize) {
    assert!(index < MAX_ARENAS);
    let known = ARENAS[index].load(SeqCst);
    if !known.is_null() {
        ARENA.with(|c| c.set(known));
        return;
    }
    let base = LO + index * ARENA_SIZE;
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let p = unsafe { mmap(base as *mut u8, ARENA_SIZE, 3, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0) };
    assert_eq!(p as usize, base, "arena address is not available");
    let a = Box::leak(Box::new(Arena {
        base,
        bump: base + 4096,
        zone_end: 0,
        blocks: Vec::with_capacity(256),
        live_bytes: 0,
        live_blocks: 0,
        error: None,
        error_size: 0,
        abandoned: 0,
        strict: true,
        fresh: FRESH,
        down: false,
        low: base + ARENA_SIZE - 65536,
        ups: 0,
    }));
    ARENAS[index].store(a, SeqCst);
    ARENA.with(|c| c.set(a));
}

unsafe fn fill(from: usize, to: usize, b: u8) {
    if to > from {
        std::ptr::write_bytes(from as *mut u8, b, to - from);
    }
}

unsafe fn all_are(from: usize, to: usize, b: u8) -> bool {
    if to <= from {
        return true;
    }
    let s = std::slice::from_raw_parts(from as *const u8, to - from);
    let (pre, mid, post) = s.align_to::<u64>();
    let w = u64::from_ne_bytes([b; 8]);
    let mut acc = 0u64;
    for m in mid {
        acc |= *m ^ w;
    }
    acc == 0 && pre.iter().all(|x| *x == b) && post.iter().all(|x| *x == b)
}

impl Arena {
    #[inline]
    fn zone(size: usize) -> usize {
        if size >= 4096 {
            16384
        } else {
            64
        }
    }

    fn fail(&mut self, what: &'static str, size: usize) {
        if self.error.is_none() {
            self.error = Some(what);
            self.error_size = size;
        }
    }

    fn alloc(&mut self, layout: Layout, zeroed: bool) -> *mut u8 {
        let size = layout.size();
        let align = layout.align();
        if size == 0 {
            self.fail("memory of size zero was requested", 0);
        }
        let gap = if size >= 4096 { 8192 } else { 32 };
        if self.down {
            return self.alloc_down(layout, zeroed, gap);
        }
        // aligned to `align`, not to 2 * align
        let mut addr = (self.bump + gap + align - 1) & !(align - 1);
        if addr & align == 0 {
            addr += align;
        }
        let end = addr + size;
        if end + 65536 > self.low {
            return std::ptr::null_mut();
        }
        let zone_end = end + Self::zone(size);
        unsafe {
            fill(addr, end, if zeroed { 0 } else { self.fresh });
            if self.strict {
                fill(self.bump.max(self.zone_end), addr, RZ);
                // the zone behind the last block must always be there
                fill(end, zone_end, RZ);
            }
        }
        self.bump = end;
        self.zone_end = zone_end;
        self.blocks.insert(self.ups, Block { addr, size, align, live: true, old: false });
        self.ups += 1;
        self.live_bytes += size;
        self.live_blocks += 1;
        addr as *mut u8
    }

    fn alloc_down(&mut self, layout: Layout, zeroed: bool, gap: usize) -> *mut u8 {
        let size = layout.size();
        let align = layout.align();
        let mut addr = (self.low - Self::zone(size) - gap - size) & !(align - 1);
        if addr & align == 0 {
            addr -= align;
        }
        if addr < self.bump + 65536 {
            return std::ptr::null_mut();
        }
        unsafe {
            fill(addr, addr + size, if zeroed { 0 } else { self.fresh });
            if self.strict {
                let top = self.base + ARENA_SIZE - 65536;
                fill(addr + size, if self.low == top { top + 32768 } else { self.low }, RZ);
                fill(addr - gap, addr, RZ);
            }
        }
        self.low = addr;
        self.blocks.insert(self.ups, Block { addr, size, align, live: true, old: false });
        self.live_bytes += size;
        self.live_blocks += 1;
        addr as *mut u8
    }

    /// The memory that store number `si` gets.
    pub fn habitat(&mut self, si: usize) {
        self.fresh = FILLS[si % FILLS.len()];
        self.down = si % 2 == 1;
    }

    fn free(&mut self, ptr: usize, layout: Layout) {
        match self.blocks.binary_search_by(|b| b.addr.cmp(&ptr)) {
            Err(_) => self.fail("memory that was never handed out was freed", layout.size()),
            Ok(i) => {
                let b = self.blocks[i];
                if !b.live {
                    return self.fail("memory was freed twice", layout.size());
                }
                if b.size != layout.size() {
                    self.fail("memory was freed with another size than it was requested with", layout.size());
                } else if b.align != layout.align() {
                    self.fail("memory was freed with another alignment than it was requested with", layout.size());
                }
                self.blocks[i].live = false;
                self.live_bytes -= b.size;
                self.live_blocks -= 1;
                if self.strict || b.size < 4096 {
                    unsafe { fill(b.addr, b.addr + b.size, FREED) };
                }
            }
        }
    }

    /// Ends a history: forgets everything except blocks that are still live.
    /// Returns how many blocks this history left behind.
    pub fn end_history(&mut self) -> usize {
        let fresh = self.blocks.iter().filter(|b| b.live && !b.old).count();
        self.blocks.retain(|b| b.live);
        for b in &mut self.blocks {
            b.old = true;
        }
        let middle = self.base + ARENA_SIZE / 2;
        self.ups = self.blocks.partition_point(|b| b.addr < middle);
        self.bump = self.blocks[..self.ups].last().map(|b| b.addr + b.size).unwrap_or(self.base + 4096);
        self.low = self.blocks.get(self.ups).map(|b| b.addr).unwrap_or(self.base + ARENA_SIZE - 65536);
        if self.bump > self.base + ARENA_SIZE / 4 || self.low < self.base + ARENA_SIZE / 4 * 3 {
            // a leak, not a cache: drop it all
            self.abandoned += 1;
            self.blocks.clear();
            self.live_bytes = 0;
            self.live_blocks = 0;
            self.ups = 0;
            self.bump = self.base + 4096;
            self.low = self.base + ARENA_SIZE - 65536;
        }
        self.zone_end = 0;
        self.error = None;
        self.fresh = FRESH;
        self.down = false;
        fresh
    }

    pub fn leftovers(&self) -> (usize, usize) {
        let it = self.blocks.iter().filter(|b| b.live && !b.old);
        (it.clone().count(), it.map(|b| b.size).sum())
    }

    /// Red zones and freed memory untouched?
    pub fn sweep(&self) -> Result<(), String> {
        if !self.strict {
            return Ok(());
        }
        unsafe {
            for (i, b) in self.blocks.iter().enumerate() {
                if b.old {
                    continue;
                }
                let end = b.addr + b.size;
                let next = match self.blocks.get(i + 1) {
                    Some(n) if i + 1 != self.ups => n.addr,
                    _ => end + Self::zone(b.size),
                };
                if !all_are(end, next, RZ) {
                    return Err(format!("memory was written beyond the end of a block of {} bytes", b.size));
                }
                if !b.live && !all_are(b.addr, end, FREED) {
                    return Err(format!("memory was written after it was freed (block of {} bytes)", b.size));
                }
            }
        }
        Ok(())
    }

    /// index of the block containing [addr, addr+len)
    pub fn find(&self, addr: usize) -> Option<usize> {
        let i = self.blocks.partition_point(|b| b.addr <= addr);
        if i == 0 {
            return None;
        }
        let b = &self.blocks[i - 1];
        // an address one past the end still belongs to the block
        (addr <= b.addr + b.size).then_some(i - 1)
    }

    pub fn owns(&self, addr: usize, len: usize) -> bool {
        match self.find(addr) {
            Some(i) => {
                let b = &self.blocks[i];
                b.live && addr + len <= b.addr + b.size
            }
            None => false,
        }
    }

    #[inline(always)]
    pub fn contains(&self, w: usize) -> bool {
        w.wrapping_sub(self.base) < ARENA_SIZE
    }
}

pub struct Checking;

#[inline(always)]
fn in_arenas(p: usize) -> bool {
    p.wrapping_sub(LO) < HI - LO
}

fn arena_or_null() -> *mut Arena {
    ARENA.with(|a| a.get())
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !tracking() {
            return System.alloc(layout);
        }
        track(false);
        let p = arena().alloc(layout, false);
        track(true);
        p
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if !tracking() {
            return System.alloc_zeroed(layout);
        }
        track(false);
        let p = arena().alloc(layout, true);
        track(true);
        p
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let t = tracking();
        if in_arenas(ptr as usize) {
            // blocks of another thread's arena belong to static caches: let them be
            let own = arena_or_null();
            if !own.is_null() && (*own).contains(ptr as usize) {
                track(false);
                (*own).free(ptr as usize, layout);
                track(t);
            }
        } else if t {
            // obtained before tracking began (e.g. a value handed to the library), or not memory at all
            if ptr.is_null() || layout.size() == 0 {
                track(false);
                arena().fail("memory of size zero was freed", 0);
                track(true);
            } else {
                System.dealloc(ptr, layout)
            }
        } else {
            System.dealloc(ptr, layout)
        }
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if in_arenas(ptr as usize) {
            let t = tracking();
            track(false);
            let n = arena().alloc(Layout::from_size_align_unchecked(new_size, layout.align()), false);
            if !n.is_null() {
                std::ptr::copy_nonoverlapping(ptr, n, layout.size().min(new_size));
                if arena().contains(ptr as usize) {
                    arena().free(ptr as usize, layout);
                }
            }
            track(t);
            n
        } else {
            System.realloc(ptr, layout, new_size)
        }
    }
}

/// 128-bit mixing hash
#[derive(Clone, Copy)]
pub struct H(pub u64, pub u64);

impl H {
    pub fn new() -> H {
        H(0x9E37_79B9_7F4A_7C15, 0xC2B2_AE3D_27D4_EB4F)
    }
    #[inline(always)]
    pub fn add(&mut self, w: u64) {
        let m = (self.0 ^ w) as u128 * 0xD6E8_FEB8_6659_FD93u128;
        self.0 = (m as u64) ^ ((m >> 64) as u64).wrapping_add(w);
        let m = (self.1 ^ w.rotate_left(32)) as u128 * 0xA076_1D64_78BD_642Fu128;
        self.1 = (m as u64).rotate_left(17) ^ ((m >> 64) as u64);
    }
    pub fn done(&self) -> u128 {
        let mut h = *self;
        h.add(0x5bd1e995);
        h.add(h.0 ^ h.1);
        ((h.0 as u128) << 64) | h.1 as u128
    }
}

/// Adds the canonical form of everything reachable from `roots` to `h`. Blocks of size `opaque` are component pages:
/// their identity counts, their content does not.
pub fn canonical_heap(roots: &[usize], opaque: usize, h: &mut H) {
    let a = arena();
    let mut order: Vec<usize> = Vec::with_capacity(a.blocks.len());
    let mut idx: Vec<u32> = vec![u32::MAX; a.blocks.len()];
    let visit = |p: usize, order: &mut Vec<usize>, idx: &mut Vec<u32>| -> Option<(u32, usize)> {
        let i = a.find(p)?;
        let b = &a.blocks[i];
        if !b.live {
            return None;
        }
        if idx[i] == u32::MAX {
            idx[i] = order.len() as u32;
            order.push(i);
        }
        Some((idx[i], p - b.addr))
    };
    for r in roots {
        match visit(*r, &mut order, &mut idx) {
            Some((i, o)) => h.add(((i as u64) << 40) | o as u64 | 1 << 63),
            None => h.add(*r as u64),
        }
    }
    let mut n = 0;
    while n < order.len() {
        let b = a.blocks[order[n]];
        n += 1;
        h.add(b.size as u64 ^ 0xB10C << 48);
        if b.size == opaque {
            continue;
        }
        let words = b.size / 8;
        if b.addr % 8 == 0 {
            for k in 0..words {
                let w = unsafe { *((b.addr + k * 8) as *const u64) };
                if a.contains(w as usize) {
                    match visit(w as usize, &mut order, &mut idx) {
                        Some((i, o)) => h.add(((i as u64) << 40) | o as u64 | 1 << 63),
                        None => h.add(0xDEAD_0000_0000_0000),
                    }
                } else {
                    h.add(w);
                }
            }
            for k in words * 8..b.size {
                h.add(unsafe { *((b.addr + k) as *const u8) } as u64 | 1 << 32);
            }
        } else {
            // not 8-aligned: cannot hold pointers
            let s = unsafe { std::slice::from_raw_parts(b.addr as *const u8, b.size) };
            for c in s.chunks(8) {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                h.add(u64::from_le_bytes(w));
            }
        }
    }
}

// Allocator of the test crates for Java and Python: finds double frees, wrong layouts and writes
// around blocks, poisons freed memory and keeps it for a while.
pub mod vf_alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
    pub struct Dbg;
    const LIVE: u64 = 0x5afe_b10c_a11c_0de5;
    const DEAD: u64 = 0xdead_b10c_f4ee_d000;
    const TAIL: u64 = 0x7a11_7a11_7a11_7a11;
    pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
    static KEPT: AtomicUsize = AtomicUsize::new(0);
    fn off(l: &Layout) -> usize {
        l.align().max(32)
    }
    fn real(l: &Layout) -> Layout {
        Layout::from_size_align(l.size() + off(l) + 8, l.align().max(16)).unwrap()
    }
    fn die(what: &'static str) -> ! {
        extern "C" {
            fn write(fd: i32, p: *const u8, n: usize) -> isize;
            fn abort() -> !;
        }
        unsafe {
            write(2, b"VF-ALLOC panicked: ".as_ptr(), 19);
            write(2, what.as_ptr(), what.len());
            write(2, b"\n".as_ptr(), 1);
            abort()
        }
    }
    unsafe impl GlobalAlloc for Dbg {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(real(&l));
            if p.is_null() {
                return p;
            }
            let q = p.add(off(&l));
            (q.sub(32) as *mut u64).write(LIVE);
            (q.sub(24) as *mut u64).write(l.size() as u64);
            (q.sub(16) as *mut u64).write(l.align() as u64);
            (q.add(l.size()) as *mut u64).write_unaligned(TAIL);
            BLOCKS.fetch_add(1, Ordering::Relaxed);
            q
        }
        unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
            match (q.sub(32) as *const u64).read() {
                LIVE => {}
                DEAD => die("memory freed twice"),
                _ => die("freed memory that was not allocated here"),
            }
            if (q.sub(24) as *const u64).read() != l.size() as u64 || (q.sub(16) as *const u64).read() != l.align() as u64 {
                die("memory freed with wrong layout");
            }
            if (q.add(l.size()) as *const u64).read_unaligned() != TAIL {
                die("write past the end of a block");
            }
            (q.sub(32) as *mut u64).write(DEAD);
            std::ptr::write_bytes(q, 0xa5, l.size());
            BLOCKS.fetch_sub(1, Ordering::Relaxed);
            if l.size() > 8192 || KEPT.fetch_add(l.size() + 64, Ordering::Relaxed) > 200_000_000 {
                System.dealloc(q.sub(off(&l)), real(&l));
            }
        }
    }
    #[global_allocator]
    static A: Dbg = Dbg;
}

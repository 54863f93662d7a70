//! Counts, per thread, the bytes allocated by what runs inside `inside` and not yet freed.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static HELD: Cell<i64> = const { Cell::new(0) };
}

/// Runs code under test.
pub fn inside<T>(f: impl FnOnce() -> T) -> T {
    struct Leave(bool);
    impl Drop for Leave {
        fn drop(&mut self) {
            INSIDE.with(|i| i.set(self.0));
        }
    }
    let _leave = Leave(INSIDE.with(|i| i.replace(true)));
    f()
}

/// Bytes held on this thread.
pub fn held() -> i64 {
    HELD.with(|h| h.get())
}

struct Counting;

#[global_allocator]
static COUNTING: Counting = Counting;

/// Room for a mark in front of what is allocated.
fn room(layout: Layout) -> usize {
    layout.align().max(16)
}

// Sound: passes on to the system allocator with a larger size and the same or a larger alignment.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let room = room(layout);
        let Ok(whole) = Layout::from_size_align(layout.size() + room, room) else { return std::ptr::null_mut() };
        let start = System.alloc(whole);
        if start.is_null() {
            return start;
        }
        let at = start.add(room);
        let counted = INSIDE.try_with(|i| i.get()).unwrap_or(false);
        at.sub(8).cast::<u64>().write(counted as u64);
        if counted {
            let _ = HELD.try_with(|h| h.set(h.get() + layout.size() as i64));
        }
        at
    }

    unsafe fn dealloc(&self, at: *mut u8, layout: Layout) {
        let room = room(layout);
        if at.sub(8).cast::<u64>().read() == 1 {
            let _ = HELD.try_with(|h| h.set(h.get() - layout.size() as i64));
        }
        System.dealloc(at.sub(room), Layout::from_size_align_unchecked(layout.size() + room, room));
    }

    unsafe fn realloc(&self, at: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let room = room(layout);
        let counted = at.sub(8).cast::<u64>().read() == 1;
        let start = System.realloc(at.sub(room), Layout::from_size_align_unchecked(layout.size() + room, room), size + room);
        if start.is_null() {
            return start;
        }
        if counted {
            let _ = HELD.try_with(|h| h.set(h.get() + size as i64 - layout.size() as i64));
        }
        start.add(room)
    }
}

//! Places input text next to inaccessible memory.
use proptest::prelude::*;
use vcore::{json, Json};

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Place {
    /// The byte after the text is inaccessible.
    End,
    /// The byte before the text is inaccessible.
    Start,
    /// Text at this offset from a 64-byte boundary, special characters on both sides.
    Mid(u8),
}

impl Place {
    pub fn to_json(self) -> Json {
        match self {
            Place::End => json!("end"),
            Place::Start => json!("start"),
            Place::Mid(o) => json!(o),
        }
    }
    pub fn from_json(v: &Json) -> Place {
        match v.as_str() {
            Some("end") => Place::End,
            Some(_) => Place::Start,
            None => Place::Mid(v.as_u64().unwrap() as u8),
        }
    }
}

pub fn place() -> BoxedStrategy<Place> {
    prop_oneof![
        1 => Just(Place::End),
        1 => Just(Place::Start),
        2 => (0u8..64).prop_map(Place::Mid),
    ]
    .boxed()
}

const PAGE: usize = 4096;
const PAGES: usize = 320;
const FILL: &[u8] = b"<\"&'>";

static mut AREA: *mut u8 = std::ptr::null_mut();

/// Copies `s` to a place and hands out the copy. One text can be placed per slot at a time.
pub fn with<R>(s: &str, p: Place, f: impl FnOnce(&str) -> R) -> R {
    unsafe {
        if AREA.is_null() {
            let a = libc::mmap(
                std::ptr::null_mut(),
                (PAGES + 2) * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(a != libc::MAP_FAILED);
            let a = a as *mut u8;
            assert_eq!(
                libc::mprotect(a.add(PAGE) as _, PAGES * PAGE, libc::PROT_READ | libc::PROT_WRITE),
                0
            );
            AREA = a.add(PAGE);
        }
        let size = PAGES * PAGE;
        assert!(s.len() + 256 <= size, "text too long to place");
        let at = match p {
            Place::End => size - s.len(),
            Place::Start => 0,
            Place::Mid(o) => 128 + o as usize,
        };
        for i in 0..100 {
            if i < at {
                *AREA.add(at - 1 - i) = FILL[i % 5];
            }
            if at + s.len() + i < size {
                *AREA.add(at + s.len() + i) = FILL[i % 5];
            }
        }
        std::ptr::copy_nonoverlapping(s.as_ptr(), AREA.add(at), s.len());
        let t = std::slice::from_raw_parts(AREA.add(at), s.len());
        f(std::str::from_utf8(t).unwrap())
    }
}

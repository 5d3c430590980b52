//! C23 product and category names

use crate::nd;
use crate::spec::{CATEGORIES, MODULES};
use ur20::{Error, ModuleCategory, ModuleType};

/// Assumed contract of `str::to_uppercase` on ASCII text (up to 24 characters).
#[cfg(kani)]
fn upper(s: &str) -> String {
    let b = s.as_bytes();
    kani::assert(b.len() <= 24, "text length");
    let mut v = [0u8; 24];
    for i in 0..b.len() {
        kani::assert(b[i] < 128, "ASCII text");
        v[i] = b[i].to_ascii_uppercase();
    }
    unsafe { String::from_utf8_unchecked(v[..b.len()].to_vec()) }
}

/// Assumed contract of `str::replace(c, "x")` on ASCII text (up to 24 characters).
#[cfg(kani)]
fn subst<P: std::str::pattern::Pattern>(s: &str, p: P, to: &str) -> String {
    let b = s.as_bytes();
    kani::assert(b.len() <= 24 && to.len() == 1, "text length");
    kani::assert(std::mem::size_of::<P>() == 4, "a character is replaced");
    let c: u32 = unsafe { std::mem::transmute_copy(&p) };
    let mut v = [0u8; 24];
    for i in 0..b.len() {
        v[i] = if u32::from(b[i]) == c { to.as_bytes()[0] } else { b[i] };
    }
    unsafe { String::from_utf8_unchecked(v[..b.len()].to_vec()) }
}

/// A near miss: one character of a text changed, inserted or left out.
fn near_miss(buf: &mut [u8], len: usize) -> usize {
    const ODD: [u8; 16] = *b" -_\t\n\r.0A,+U2/R\0";
    let mut len = len;
    let c = ODD[nd::upto(15)];
    // the ends are as likely as all places between
    let at = match nd::upto(2) {
        0 => 0,
        1 => len,
        _ => nd::upto(len),
    };
    match nd::upto(2) {
        0 if at < len => buf[at] = c,
        1 if at < len => {
            for i in at..len - 1 {
                buf[i] = buf[i + 1];
            }
            len -= 1;
        }
        _ if len < buf.len() => {
            let mut i = len;
            while i > at {
                buf[i] = buf[i - 1];
                i -= 1;
            }
            buf[at] = c;
            len += 1;
        }
        _ => {}
    }
    len
}

/// A product name, every letter in either case, every separator - or _.
fn names(from: usize, to: usize) {
    for k in from..to {
        let name = MODULES[k].1.as_bytes();
        let mut buf = [0u8; 24];
        for i in 0..name.len() {
            buf[i] = match name[i] {
                b'_' if nd::bool() => b'-',
                c if c.is_ascii_uppercase() && nd::bool() => c + 32,
                c => c,
            };
        }
        // ASCII
        let s = unsafe { std::str::from_utf8_unchecked(&buf[..name.len()]) };
        match s.parse::<ModuleType>() {
            Ok(t) => assert!(t == MODULES[k].0, "name parses to another type"),
            Err(_) => panic!("a product name is rejected"),
        }
    }
}

macro_rules! name_groups {
    ($($n:ident: $from:literal, $to:literal;)*) => {
        harnesses! {
            $(
                #[kani::unwind(65)]
                #[kani::stub(str::to_uppercase, upper)]
                #[kani::stub(str::replace, subst)]
                fn $n() {
                    names($from, $to);
                }
            )*
        }
    };
}

pub mod names {
    use super::*;
    name_groups! {
        c23_names_0: 0, 8;
        c23_names_1: 8, 16;
        c23_names_2: 16, 24;
        c23_names_3: 24, 32;
        c23_names_4: 32, 40;
        c23_names_5: 40, 48;
        c23_names_6: 48, 56;
        c23_names_7: 56, 63;
    }
}

harnesses! {
    #[kani::unwind(65)]
    #[kani::stub(str::to_uppercase, upper)]
    fn c23_category_name() {
        let mut buf: [u8; 5] = nd::u8s();
        let mut len = nd::upto(5);
        if nd::steered() && nd::upto(9) > 0 {
            let name = CATEGORIES[nd::upto(CATEGORIES.len() - 1)].1.as_bytes();
            len = name.len();
            for i in 0..len {
                buf[i] = if nd::bool() { name[i] } else { name[i].to_ascii_lowercase() };
            }
            if nd::bool() {
                len = near_miss(&mut buf, len);
            }
        }
        let mut norm = [0u8; 5];
        for i in 0..5 {
            nd::assume(buf[i] < 128);
            norm[i] = match buf[i] {
                c if c >= b'a' && c <= b'z' => c - 32,
                c => c,
            };
        }
        let mut want = None;
        for m in &CATEGORIES {
            let n = m.1.as_bytes();
            let mut same = n.len() == len;
            for i in 0..n.len() {
                same &= norm[i] == n[i];
            }
            if same {
                want = Some(&m.0);
            }
        }
        let s = unsafe { std::str::from_utf8_unchecked(&buf[..len]) };
        let r = s.parse::<ModuleCategory>();
        match (&r, want) {
            (Ok(t), Some(w)) => assert!(t == w, "name parses to another category"),
            (Ok(_), None) => panic!("a text that is no category is accepted"),
            (Err(_), Some(_)) => panic!("a category is rejected"),
            (Err(e), None) => assert!(*e == Error::UnknownCategory, "error of an unknown category"),
        }
        nd::forget(r);
    }
}

searches! {
    // every ASCII text of up to 25 characters: accepted iff, with upper case
    // letters and - for _, it is a product name; and then the type of that name
    fn c23_name() {
        let mut buf: [u8; 25] = nd::u8s();
        let mut len = nd::upto(25);
        if nd::steered() && nd::upto(9) > 0 {
            // mostly product names
            let name = MODULES[nd::upto(62)].1.as_bytes();
            len = name.len();
            for i in 0..len {
                buf[i] = match name[i] {
                    b'_' if nd::bool() => b'-',
                    c if nd::bool() => c.to_ascii_lowercase(),
                    c => c,
                };
            }
            while len > 0 && nd::bool() {
                len = near_miss(&mut buf, len);
            }
        }
        let mut norm = [0u8; 25];
        for i in 0..25 {
            buf[i] &= 127;
            norm[i] = match buf[i] {
                b'-' => b'_',
                c if c >= b'a' && c <= b'z' => c - 32,
                c => c,
            };
        }
        let mut want = None;
        for m in &MODULES {
            let n = m.1.as_bytes();
            let mut same = n.len() == len;
            for i in 0..n.len() {
                same &= norm[i] == n[i];
            }
            if same {
                want = Some(&m.0);
            }
        }
        // ASCII, as assumed above
        let s = unsafe { std::str::from_utf8_unchecked(&buf[..len]) };
        let r = s.parse::<ModuleType>();
        match (&r, want) {
            (Ok(t), Some(w)) => assert!(t == w, "name parses to another type"),
            (Ok(_), None) => panic!("a text that is no product name is accepted"),
            (Err(_), Some(_)) => panic!("a product name is rejected"),
            (Err(e), None) => assert!(*e == Error::UnknownModule, "error of an unknown name"),
        }
        nd::forget(r);
    }
}

//! Nondeterminism shim. Every contract harness draws its inputs from here.
//!
//! * under Kani a draw is `kani::any()`: the harness speaks about *all* values;
//! * natively a draw comes from a recorded counterexample (replay) or from a
//!   seeded generator (search for a failing input on the real code).

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn bool() -> bool {
        kani::any()
    }
    pub fn f32() -> f32 {
        f32::from_bits(kani::any())
    }
    pub fn u8s<const N: usize>() -> [u8; N] {
        kani::any()
    }
    pub fn u16s<const N: usize>() -> [u16; N] {
        kani::any()
    }
    /// A value in `0..=max`.
    pub fn upto(max: usize) -> usize {
        let v: u8 = kani::any();
        kani::assume(v as usize <= max);
        v as usize
    }
    pub fn assume(c: bool) {
        kani::assume(c);
    }
    /// Reachability witness: the end of the harness is not vacuous.
    pub fn witness() {
        kani::cover!(true, "witness");
    }
    pub fn forget<T>(t: T) {
        std::mem::forget(t);
    }
    pub const fn bound(kani: usize, _native: usize) -> usize {
        kani
    }
    /// natively most inputs are steered to where something happens
    pub const fn steered() -> bool {
        false
    }
    pub const NATIVE: bool = false;
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub struct Rejected;

    pub enum Source {
        /// flat little-endian stream of a recorded counterexample
        Replay(Vec<u8>, usize),
        /// the same of Kani's, whose inputs are not steered
        Kani(Vec<u8>, usize),
        /// xorshift state, log of the drawn bytes
        Random(u64, Vec<u8>),
    }

    thread_local! {
        static SRC: RefCell<Source> = const { RefCell::new(Source::Random(1, Vec::new())) };
    }

    pub fn install(s: Source) {
        SRC.with(|c| *c.borrow_mut() = s);
    }
    pub fn drawn() -> Vec<u8> {
        SRC.with(|c| match &*c.borrow() {
            Source::Replay(v, _) | Source::Kani(v, _) => v.clone(),
            Source::Random(_, v) => v.clone(),
        })
    }
    fn next64(s: &mut u64) -> u64 {
        *s ^= *s << 13;
        *s ^= *s >> 7;
        *s ^= *s << 17;
        s.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    fn draw(n: usize, pick: impl FnOnce(&mut dyn FnMut() -> u64) -> u64) -> u64 {
        SRC.with(|c| match &mut *c.borrow_mut() {
            Source::Replay(v, at) | Source::Kani(v, at) => {
                let mut r = 0u64;
                for i in 0..n {
                    // a recording that is too short belongs to another harness
                    let b = v.get(*at + i).copied().unwrap_or(0);
                    r |= u64::from(b) << (8 * i);
                }
                *at += n;
                r
            }
            Source::Random(s, log) => {
                let r = pick(&mut || next64(s));
                for i in 0..n {
                    log.push((r >> (8 * i)) as u8);
                }
                r
            }
        })
    }
    pub fn u8() -> u8 {
        draw(1, |r| match r() % 4 {
            0 => r() % 4,
            1 => [0, 1, 255, 128, 127, 8, 16, 7, 15][(r() % 9) as usize],
            _ => r() & 0xff,
        }) as u8
    }
    fn pick16(r: &mut dyn FnMut() -> u64) -> u64 {
        match r() % 8 {
            0 => r() % 4,
            1 => r() % 24,
            2 => [0xffff, 0x8000, 0x7fff, 0x6c00, 0x9400, 0x4000, 0xc000, 0x100, 0xff]
                [(r() % 9) as usize],
            3 => 1 << (r() % 16),
            _ => r() & 0xffff,
        }
    }
    pub fn u16() -> u16 {
        draw(2, pick16) as u16
    }
    pub fn u32() -> u32 {
        draw(4, |r| match r() % 4 {
            0 => r() % 8,
            1 => (pick16(r) << 16) | pick16(r),
            _ => r() & 0xffff_ffff,
        }) as u32
    }
    pub fn bool() -> bool {
        draw(1, |r| r() & 1) != 0
    }
    pub fn f32() -> f32 {
        f32::from_bits(draw(4, |r| match r() % 8 {
            0 => u64::from(((r() % 41) as f32 - 20.0).to_bits()),
            1 => u64::from(f32::NAN.to_bits()),
            2 => u64::from(f32::INFINITY.to_bits()) | (r() & 1) << 31,
            3 => r() & 0xffff_ffff,
            _ => u64::from(((r() % 50_000) as f32 / 1_000.0 - 25.0).to_bits()),
        }) as u32)
    }
    pub fn u8s<const N: usize>() -> [u8; N] {
        std::array::from_fn(|_| u8())
    }
    pub fn u16s<const N: usize>() -> [u16; N] {
        std::array::from_fn(|_| u16())
    }
    pub fn upto(max: usize) -> usize {
        let v = draw(1, |r| r() % (max as u64 + 1)) as usize;
        assume(v <= max);
        v
    }
    /// A number in `0..=usual`, now and then in `0..=rare`.
    pub fn count(usual: usize, rare: usize) -> usize {
        draw(2, |r| if r() % 16 == 0 { r() % (rare as u64 + 1) } else { r() % (usual as u64 + 1) }) as usize
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Rejected);
        }
    }
    pub fn witness() {}
    pub fn forget<T>(_: T) {}
    pub const fn bound(_kani: usize, native: usize) -> usize {
        native
    }
    pub fn steered() -> bool {
        SRC.with(|c| !matches!(&*c.borrow(), Source::Kani(..)))
    }
    pub const NATIVE: bool = true;
}

pub use imp::*;

/// Declares contract harnesses: a Kani proof each, and an entry of the native
/// replay and search driver.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            $(#[$m])*
            pub fn $name() {
                let () = $body;
                $crate::nd::witness();
            }
            #[cfg(not(kani))]
            pub fn $name() {
                let () = $body;
                $crate::nd::witness();
            }
        )*
        #[cfg(not(kani))]
        pub const LIST: &[$crate::Entry] = &[
            $( (concat!(module_path!(), "::", stringify!($name)), true, $name as fn()) ),*
        ];
    };
}

/// Declares searches that only run natively: longer histories and larger
/// inputs than the verifier takes.
#[macro_export]
macro_rules! searches {
    ($( fn $name:ident() $body:block )*) => {
        $(
            #[cfg(not(kani))]
            pub fn $name() {
                let () = $body;
            }
        )*
        #[cfg(not(kani))]
        pub const SEARCHES: &[$crate::Entry] = &[
            $( (concat!(module_path!(), "::", stringify!($name)), false, $name as fn()) ),*
        ];
    };
}

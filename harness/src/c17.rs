//! C17 slicing of the process image

use crate::mock::Mock;
use crate::nd;
use ur20::ur20_fbc_mod_tcp::{process_input_data, process_output_data, ModuleOffset, ProcessModbusTcpData};
use ur20::{ChannelValue, Error};

fn byte(d: &[u16], i: usize) -> u8 {
    if i % 2 == 0 { (d[i / 2] & 0xff) as u8 } else { (d[i / 2] >> 8) as u8 }
}

/// module `m` of the result holds the `size` bytes of the image from `at` on
fn holds(v: &[ChannelValue], d: &[u16], at: usize, size: usize) {
    assert!(v.len() == 1, "values of the module");
    match &v[0] {
        ChannelValue::Bytes(b) => {
            assert!(b.len() == size, "size");
            for i in 0..size {
                assert!(b[i] == byte(d, at + i), "the module's own bytes");
            }
        }
        _ => panic!("value kind"),
    }
}

/// one module at offset `off`, an image of `W` registers
fn at_offset<const W: usize>(output: bool, size: usize, off: u16) {
    let d: [u16; W] = nd::u16s();
    let base = if output { 0x0800u32 } else { 0 };
    let m = Mock { size };
    let o = ModuleOffset {
        input: if output { None } else { Some(off) },
        output: if output { Some(off) } else { None },
    };
    let list: [(&dyn ProcessModbusTcpData, &ModuleOffset); 1] = [(&m, &o)];
    let r = if output { process_output_data(&list, &d) } else { process_input_data(&list, &d) };
    let (reg, bit) = (off as u32 / 16, off as u32 % 16);
    let at = 2 * (reg as i64 - base as i64) + bit as i64 / 8;
    let fits = reg >= base && bit % 8 == 0 && at + size as i64 <= 2 * W as i64;
    match &r {
        Ok(v) => {
            assert!(fits, "an offset out of the image or off a byte boundary is accepted");
            assert!(v.len() == 1, "one entry per module");
            holds(&v[0], &d, at as usize, size);
        }
        Err(e) => {
            assert!(!fits, "a valid offset is rejected");
            assert!(matches!(e, Error::ModuleOffset | Error::BufferLength), "error kind");
        }
    }
    nd::forget(r);
}

/// every byte position of the image, and one beyond
fn positions<const W: usize>(output: bool, size: usize) {
    let base = if output { 0x8000u16 } else { 0 };
    let mut at = 0;
    while at <= 2 * W as u16 {
        at_offset::<W>(output, size, base + 8 * at);
        at += 1;
    }
}

/// offsets off a byte boundary, below the area or far beyond
fn wrong(output: bool, size: usize) {
    let base = if output { 0x8000u16 } else { 0 };
    let mut bit = 1;
    while bit < 16 {
        if bit != 8 {
            at_offset::<4>(output, size, base + bit);
            at_offset::<4>(output, size, base + 16 + bit);
        }
        bit += 1;
    }
    at_offset::<4>(output, size, base + 0x1000);
    at_offset::<4>(output, size, 0xfff8);
    if output {
        at_offset::<4>(output, size, 0);
        at_offset::<4>(output, size, 8);
        at_offset::<4>(output, size, 0x7fe0);
        at_offset::<4>(output, size, 0x7ff0);
        at_offset::<4>(output, size, 0x7ff8);
    }
}

harnesses! {
    #[kani::unwind(20)]
    fn c17_in_1() { positions::<2>(false, 1); }
    #[kani::unwind(20)]
    fn c17_in_2() { positions::<2>(false, 2); }
    #[kani::unwind(20)]
    fn c17_in_4() { positions::<3>(false, 4); }
    #[kani::unwind(20)]
    fn c17_in_8() { positions::<5>(false, 8); }
    #[kani::unwind(20)]
    fn c17_in_16() { positions::<9>(false, 16); }
    #[kani::unwind(24)]
    fn c17_in_20() { positions::<11>(false, 20); }
    #[kani::unwind(20)]
    fn c17_out_1() { positions::<2>(true, 1); }
    #[kani::unwind(20)]
    fn c17_out_2() { positions::<2>(true, 2); }
    #[kani::unwind(20)]
    fn c17_out_8() { positions::<5>(true, 8); }
    #[kani::unwind(20)]
    fn c17_out_12() { positions::<7>(true, 12); }
    #[kani::unwind(20)]
    fn c17_in_wrong() { wrong(false, 2); }
    #[kani::unwind(20)]
    fn c17_out_wrong() { wrong(true, 2); }

    // several modules, in any order, with and without data
    #[kani::unwind(20)]
    fn c17_layout_in() {
        layout::<3, 6>(false, [1, 1, 4], [Some(0), Some(1), Some(2)]);
        layout::<3, 6>(false, [4, 1, 2], [Some(3), None, Some(7)]);
        layout::<3, 6>(false, [2, 8, 1], [Some(9), Some(1), Some(0)]);
    }
    #[kani::unwind(20)]
    fn c17_layout_out() {
        layout::<3, 6>(true, [1, 1, 4], [Some(0), Some(1), Some(2)]);
        layout::<3, 6>(true, [4, 1, 2], [Some(3), None, Some(7)]);
        layout::<3, 6>(true, [2, 8, 1], [Some(9), Some(1), Some(0)]);
    }
    #[kani::unwind(20)]
    fn c17_layout_error() {
        layout::<3, 2>(false, [1, 2, 2], [Some(0), Some(3), None]);
        layout::<3, 2>(true, [1, 1, 2], [Some(3), Some(4), Some(0)]);
    }
}

/// modules of the given sizes at the given byte positions
fn layout<const M: usize, const W: usize>(output: bool, size: [usize; M], at: [Option<usize>; M]) {
    let d: [u16; W] = nd::u16s();
    layout_of(output, &size, &at, &d);
}

fn layout_of(output: bool, size: &[usize], at: &[Option<usize>], d: &[u16]) {
    let base = if output { 0x8000 } else { 0 };
    let m: Vec<Mock> = size.iter().map(|s| Mock { size: *s }).collect();
    let o: Vec<ModuleOffset> = at
        .iter()
        .map(|a| {
            let a = a.map(|a| base + 8 * a as u16);
            // the offset of the other direction is of no concern
            if output { ModuleOffset { input: Some(5), output: a } } else { ModuleOffset { input: a, output: Some(5) } }
        })
        .collect();
    let list: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> =
        m.iter().zip(&o).map(|(m, o)| (m as &dyn ProcessModbusTcpData, o)).collect();
    let r = if output { process_output_data(&list, d) } else { process_input_data(&list, d) };
    let mut fits = true;
    for i in 0..size.len() {
        if let Some(a) = at[i] {
            fits &= a + size[i] <= 2 * d.len();
        }
    }
    match &r {
        Ok(v) => {
            assert!(fits, "an offset out of the image is accepted");
            assert!(v.len() == size.len(), "one entry per module");
            for i in 0..size.len() {
                match at[i] {
                    Some(a) => holds(&v[i], d, a, size[i]),
                    None => {
                        assert!(v[i].len() == 2, "one value per channel");
                        assert!(matches!(v[i][0], ChannelValue::None) && matches!(v[i][1], ChannelValue::None), "no data");
                    }
                }
            }
        }
        Err(e) => {
            assert!(!fits, "a valid layout is rejected");
            assert!(matches!(e, Error::ModuleOffset | Error::BufferLength), "error kind");
        }
    }
    nd::forget(r);
    nd::forget(list);
    nd::forget(o);
    nd::forget(m);
}

fn size() -> usize {
    [1, 1, 1, 2, 2, 4, 8, 12, 16, 20][nd::upto(9)]
}

searches! {
    // any offset of one module
    fn c17_any_offset() {
        let output = nd::bool();
        let off = if nd::bool() { nd::u16() } else { output as u16 * 0x8000 + 8 * nd::upto(40) as u16 };
        nd::assume(off != 0xffff);
        if nd::bool() { at_offset::<3>(output, size(), off) } else { at_offset::<12>(output, size(), off) }
    }
    // images of many modules
    fn c17_many() {
        let n = nd::count(20, 150);
        let mut next = 0;
        let (mut s, mut a) = (vec![], vec![]);
        for _ in 0..n {
            let k = size();
            s.push(k);
            a.push(match nd::upto(5) {
                0 => None,
                1 => Some(nd::upto(60)),
                _ => Some(next),
            });
            next += k + nd::upto(3) / 3;
        }
        let d: Vec<u16> = (0..nd::upto(9) + next.div_ceil(2)).map(|_| nd::u16()).collect();
        layout_of(nd::bool(), &s, &a, &d);
    }
}

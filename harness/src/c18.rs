//! C18 assembly of the output image

use crate::mock::Mock;
use crate::nd;
use ur20::ur20_fbc_mod_tcp::{process_output_values, ModuleOffset, ProcessModbusTcpData};
use ur20::{ChannelValue, Error};

/// Modules of the given sizes at the given bit addresses (`None`: no output).
/// `expect`: the byte positions if the layout is valid.
fn assemble<const B: usize>(size: &[usize], off: &[Option<u16>], good: bool) {
    let n = size.len();
    let user: [u8; B] = nd::u8s();
    let m: Vec<Mock> = size.iter().map(|s| Mock { size: *s }).collect();
    let o: Vec<ModuleOffset> = off.iter().map(|a| ModuleOffset { input: Some(3), output: *a }).collect();
    let list: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> =
        m.iter().zip(&o).map(|(m, o)| (m as &dyn ProcessModbusTcpData, o)).collect();
    let mut used = 0;
    let mut values: Vec<Vec<ChannelValue>> = Vec::with_capacity(n);
    for i in 0..n {
        values.push(vec![ChannelValue::Bytes(user[used..used + size[i]].to_vec())]);
        used += size[i];
    }
    assembled(&list, &values, size, off, &user, good);
    nd::forget(values);
    nd::forget(list);
    nd::forget(o);
    nd::forget(m);
}

/// two modules
fn pair<const X: usize, const Y: usize>(x: Option<u16>, y: Option<u16>, good: bool) {
    let u: [u8; X] = nd::u8s();
    let w: [u8; Y] = nd::u8s();
    let mut user = [0u8; 16];
    user[..X].copy_from_slice(&u);
    user[X..X + Y].copy_from_slice(&w);
    let m = [Mock { size: X }, Mock { size: Y }];
    let o = [ModuleOffset { input: Some(3), output: x }, ModuleOffset { input: Some(3), output: y }];
    let list: [(&dyn ProcessModbusTcpData, &ModuleOffset); 2] = [(&m[0], &o[0]), (&m[1], &o[1])];
    let values = [vec![ChannelValue::Bytes(u.to_vec())], vec![ChannelValue::Bytes(w.to_vec())]];
    assembled(&list, &values, &[X, Y], &[x, y], &user, good);
    nd::forget(values);
}

fn assembled(
    list: &[(&dyn ProcessModbusTcpData, &ModuleOffset)],
    values: &[Vec<ChannelValue>],
    size: &[usize],
    off: &[Option<u16>],
    user: &[u8],
    good: bool,
) {
    let n = size.len();
    let r = process_output_values(list, values);
    match &r {
        Ok(w) => {
            assert!(good, "a wrong layout is accepted");
            // the image byte by byte: a module's byte, or zero
            let mut image = [0u8; nd::bound(128, 2048)];
            let mut end = 0;
            let mut used = 0;
            for i in 0..n {
                if let Some(a) = off[i] {
                    let at = (a - 0x8000) as usize / 8;
                    for k in 0..size[i] {
                        image[at + k] = user[used + k];
                    }
                    if at + size[i] > end {
                        end = at + size[i];
                    }
                }
                used += size[i];
            }
            assert!(w.len() == end.div_ceil(2), "size of the image");
            for i in 0..w.len() {
                assert!((w[i] & 0xff) as u8 == image[2 * i], "low byte of a register");
                assert!((w[i] >> 8) as u8 == image[2 * i + 1], "high byte of a register");
            }
        }
        Err(e) => {
            assert!(!good, "a valid layout is rejected");
            assert!(matches!(e, Error::ModuleOffset), "error kind");
        }
    }
    nd::forget(r);
}

/// byte position -> bit address
const fn at(i: u16) -> Option<u16> {
    Some(0x8000 + 8 * i)
}

/// one module
fn one<const X: usize>(x: Option<u16>, good: bool) {
    let u: [u8; X] = nd::u8s();
    let m = Mock { size: X };
    let o = ModuleOffset { input: Some(3), output: x };
    let list: [(&dyn ProcessModbusTcpData, &ModuleOffset); 1] = [(&m, &o)];
    let values = [vec![ChannelValue::Bytes(u.to_vec())]];
    assembled(&list, &values, &[X], &[x], &u, good);
    nd::forget(values);
}

harnesses! {
    #[kani::unwind(5)]
    fn c18_single_1() { one::<1>(at(0), true); }
    #[kani::unwind(5)]
    fn c18_single_2() { one::<2>(None, true); one::<2>(at(0), true); }
    #[kani::unwind(7)]
    fn c18_single_4() { one::<4>(at(0), true); }
    #[kani::unwind(11)]
    fn c18_single_8() { one::<8>(at(0), true); }
    // two modules share a register
    #[kani::unwind(5)]
    fn c18_shared_1() { pair::<1, 1>(at(0), at(1), true); }
    #[kani::unwind(5)]
    fn c18_shared_2() { pair::<1, 2>(at(0), at(1), true); }
    #[kani::unwind(7)]
    fn c18_shared_4() { pair::<1, 4>(at(0), at(1), true); }
    #[kani::unwind(11)]
    fn c18_shared_8() { pair::<1, 8>(at(0), at(1), true); }
    #[kani::unwind(6)]
    fn c18_chain_3() { assemble::<4>(&[1, 2, 1], &[at(0), at(1), at(3)], true); }
    #[kani::unwind(7)]
    fn c18_chain_4() { assemble::<6>(&[2, 1, 1, 2], &[at(0), at(2), at(3), at(4)], true); }
    // registers of their own, modules without outputs between
    #[kani::unwind(5)]
    fn c18_registers_12() { pair::<1, 2>(at(0), at(2), true); }
    #[kani::unwind(6)]
    fn c18_registers_22() { pair::<2, 2>(at(0), at(2), true); }
    #[kani::unwind(5)]
    fn c18_registers_none() { pair::<2, 1>(None, at(0), true); pair::<1, 2>(at(0), None, true); }
    #[kani::unwind(7)]
    fn c18_registers_3() { assemble::<5>(&[2, 2, 1], &[at(0), None, at(2)], true); }
    // gaps and misplaced modules
    #[kani::unwind(6)]
    fn c18_gaps() {
        one::<2>(at(1), false);
        one::<2>(at(2), false);
        pair::<2, 2>(at(2), at(0), false);
    }
    #[kani::unwind(6)]
    fn c18_gaps_between() {
        pair::<2, 2>(at(0), at(4), false);
        pair::<2, 1>(at(0), at(3), false);
    }
    // outside the output area, or off a byte boundary
    #[kani::unwind(5)]
    fn c18_wrong() {
        one::<2>(Some(0), false);
        one::<2>(Some(8), false);
        one::<2>(Some(0x7ff0), false);
        one::<2>(Some(0x7ff8), false);
        one::<2>(Some(0xfff8), false);
    }
    #[kani::unwind(8)]
    fn c18_wrong_low() {
        let mut bit = 1;
        while bit < 8 {
            one::<2>(Some(0x8000 + bit), false);
            bit += 1;
        }
    }
    #[kani::unwind(8)]
    fn c18_wrong_high() {
        let mut bit = 9;
        while bit < 16 {
            one::<2>(Some(0x8000 + bit), false);
            bit += 1;
        }
    }
    #[kani::unwind(6)]
    fn c18_wrong_second() {
        pair::<2, 2>(at(0), Some(0x8011), false);
        pair::<1, 2>(at(0), Some(0x8007), false);
        pair::<1, 2>(at(0), Some(0x800f), false);
        pair::<2, 2>(at(0), Some(0x10), false);
    }
    // lists of values that do not match the modules
    #[kani::unwind(6)]
    fn c18_values() {
        let m = [Mock { size: 2 }, Mock { size: 2 }];
        let o = [ModuleOffset { input: None, output: at(0) }, ModuleOffset { input: None, output: at(2) }];
        let list: [(&dyn ProcessModbusTcpData, &ModuleOffset); 2] = [(&m[0], &o[0]), (&m[1], &o[1])];
        let b: [u8; 2] = nd::u8s();
        let v = [
            vec![ChannelValue::Bytes(vec![b[0], b[1]])],
            vec![ChannelValue::Bytes(vec![b[1], b[0]])],
            vec![ChannelValue::Bytes(vec![1, 1])],
            vec![ChannelValue::Bytes(vec![1, 1])],
        ];
        rejected(process_output_values(&list, &v[..0]));
        rejected(process_output_values(&list, &v[..1]));
        rejected(process_output_values(&list, &v[..3]));
        rejected(process_output_values(&list, &v));
        rejected(process_output_values(&list[..0], &v[..1]));
        let w = [vec![ChannelValue::Bytes(vec![b[0], b[1]])], vec![ChannelValue::Bit(true)]];
        rejected(process_output_values(&list, &w));
        let w = [vec![ChannelValue::Disabled], vec![ChannelValue::Bytes(vec![b[0], b[1]])]];
        rejected(process_output_values(&list, &w));
        let r = process_output_values(&[], &[]);
        match &r {
            Ok(w) => assert!(w.is_empty(), "no modules, no data"),
            Err(_) => panic!("no modules, no data"),
        }
        nd::forget(r);
        nd::forget(v);
    }
}

fn rejected(r: Result<Vec<u16>, Error>) {
    assert!(matches!(r, Err(Error::ChannelValue)), "a wrong list is accepted");
    nd::forget(r);
}

searches! {
    fn c18_many() {
        let n = nd::count(16, 100);
        let (mut size, mut off) = (vec![], vec![]);
        let mut end = 0usize;
        let mut good = true;
        for _ in 0..n {
            let k = [1, 1, 1, 2, 2, 4, 6, 8][nd::upto(7)];
            if nd::upto(5) == 0 {
                size.push(k);
                off.push(None);
                continue;
            }
            // next byte, or next register
            let p = if end % 2 == 1 && nd::bool() { end + 1 } else { end };
            let p = match nd::upto(60) {
                0 => {
                    good = false;
                    p + 2 + nd::upto(3)
                }
                _ => p,
            };
            let a = 0x8000 + 8 * p as u16;
            let a = match nd::upto(90) {
                0 => {
                    good = false;
                    a + 1 + nd::upto(6) as u16
                }
                1 => {
                    good = false;
                    a - 0x8000
                }
                _ => a,
            };
            size.push(k);
            off.push(Some(a));
            end = p + k;
            if end > 1000 || !good {
                break;
            }
        }
        if n > 16 { assemble::<800>(&size, &off, good) } else { assemble::<128>(&size, &off, good) }
    }
}

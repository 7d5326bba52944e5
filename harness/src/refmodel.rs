// A fast mirror of spec/Ops.tla. It never decides anything: it only picks which recorded calls are
// worth sending to TLC first (every mismatch is sent; TLC, evaluating Ops.tla, is the judge).
use crate::ops::*;

pub fn sext(v: u128, bits: u32) -> i128 { if bits >= 128 { v as i128 } else { ((v << (128 - bits)) as i128) >> (128 - bits) } }

fn is_nan(v: u128, bits: u32) -> bool {
    let (e, m) = match bits { 16 => (5, 10), 32 => (8, 23), 64 => (11, 52), _ => (15, 112) };
    let exp = (v >> m) & ((1u128 << e) - 1);
    exp == (1u128 << e) - 1 && v & ((1u128 << m) - 1) != 0
}

/// (expected return, expected new value); `orc` is the plain float result.
pub fn expect(i: &Info, op: Op, c: u128, a: u128, b: u128, orc: u128) -> (Ret, u128) {
    let m = i.mask();
    let lt = |x: u128, y: u128| if i.kind == Kind::SInt { sext(x, i.bits) < sext(y, i.bits) } else { x < y };
    let bit = if i.bits >= 8 { 1u128 << (a as u32 % i.bits) } else { 1 };
    let v = |n: u128| (Ret::V(c), n & m);
    let u = |n: u128| (Ret::U, n & m);
    if i.kind == Kind::Float {
        let key = |x: u128| { let s = 1u128 << (i.bits - 1); if x & s != 0 { -((x & (s - 1)) as i128) } else { x as i128 } };
        match op {
            Add | Sub => return (Ret::V(c), orc),
            Max | Min => {
                if is_nan(c, i.bits) && !is_nan(a, i.bits) { return v(a); }
                if is_nan(a, i.bits) { return v(c); }
                let pick_a = if op == Max { key(a) > key(c) } else { key(a) < key(c) };
                return v(if pick_a { a } else { c });
            }
            Neg => return v(c ^ (1u128 << (i.bits - 1))),
            Abs => return v(c & !(1u128 << (i.bits - 1))),
            _ => {}
        }
    }
    match op {
        Load => v(c),
        Store => u(a),
        Swap => v(a),
        Cas | CasW => if c == a { (Ret::Ok(c), b) } else { (Ret::Err(c), c) },
        Add => v(c.wrapping_add(a)),
        Sub => v(c.wrapping_sub(a)),
        And => v(c & a),
        Nand => v(!(c & a)),
        Or => v(c | a),
        Xor => v(c ^ a),
        Max => v(if lt(c, a) { a } else { c }),
        Min => v(if lt(a, c) { a } else { c }),
        Not => v(!c),
        Neg => v((!c).wrapping_add(1)),
        NAdd => u(c.wrapping_add(a)),
        NSub => u(c.wrapping_sub(a)),
        NAnd => u(c & a),
        NOr => u(c | a),
        NXor => u(c ^ a),
        NNot => u(!c),
        NNeg => u((!c).wrapping_add(1)),
        BitSet => (Ret::B(c & bit != 0), c | bit),
        BitClear => (Ret::B(c & bit != 0), c & !bit),
        BitToggle => (Ret::B(c & bit != 0), c ^ bit),
        Upd => if c == b { (Ret::Err(c), c) } else { (Ret::Ok(c), c.wrapping_add(a) & m) },
        PAdd => v(c.wrapping_add(a.wrapping_mul(i.size_of))),
        PSub => v(c.wrapping_sub(a.wrapping_mul(i.size_of))),
        BAdd => v(c.wrapping_add(a)),
        BSub => v(c.wrapping_sub(a)),
        Abs => unreachable!(),
    }
}

/// May the observed result be accepted without asking (same up to the freedoms the spec gives)?
pub fn same(i: &Info, op: Op, c: u128, a: u128, exp: (Ret, u128), got: (Ret, u128)) -> bool {
    if exp == got { return true; }
    if op == CasW && got == (Ret::Err(c), c) { return true; }
    if i.kind == Kind::Float && exp.0 == got.0 && is_nan(exp.1, i.bits) && is_nan(got.1, i.bits) && matches!(op, Add | Sub | Max | Min) { return true; }
    // max/min of zeros of different sign: either
    if i.kind == Kind::Float && matches!(op, Max | Min) && exp.0 == got.0 && (got.1 == c || got.1 == a) && (c | a) << (129 - i.bits) == 0 { return true; }
    false
}

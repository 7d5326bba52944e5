// Arm: A32 and T16 of Armv4T/Armv5TE with a privileged CPSR, and Armv6-M.
use super::cpu::*;
#[derive(Clone)]
pub struct Arm { pub r: [u32; 16], pub cpsr: u32, pub spsr: u32, pub primask: u32, pub v5: bool, pub mclass: bool, pub probes: u32, pub kuser: bool }
const N: u32 = 1 << 31;
const Z: u32 = 1 << 30;
const C: u32 = 1 << 29;
const V: u32 = 1 << 28;
const T: u32 = 1 << 5;
impl Arm {
    pub fn new(v5: bool, mclass: bool) -> Self { Arm { r: [0; 16], cpsr: 0x13, spsr: 0, primask: 0, v5, mclass, probes: 0, kuser: false } }
    fn ill<Q>(&self, i: u32) -> R<Q> { Err(format!("instruction {i:#x} at {:#x}", self.r[15])) }
    fn f(&self, b: u32) -> bool { self.cpsr & b != 0 }
    fn setf(&mut self, b: u32, on: bool) { if on { self.cpsr |= b } else { self.cpsr &= !b } }
    fn nz(&mut self, v: u32) { self.setf(N, v >> 31 == 1); self.setf(Z, v == 0); }
    fn add(&mut self, a: u32, b: u32, c: bool, s: bool) -> u32 {
        let w = a as u64 + b as u64 + c as u64;
        let v = w as u32;
        if s { self.nz(v); self.setf(C, w >> 32 == 1); self.setf(V, (a ^ v) & (b ^ v) & N != 0); }
        v
    }
    fn cond(&self, c: u32) -> bool {
        let (n, z, cc, v) = (self.f(N), self.f(Z), self.f(C), self.f(V));
        match c { 0 => z, 1 => !z, 2 => cc, 3 => !cc, 4 => n, 5 => !n, 6 => v, 7 => !v, 8 => cc && !z, 9 => !cc || z, 10 => n == v, 11 => n != v, 12 => !z && n == v, 13 => z || n != v, _ => true }
    }
    fn bx(&mut self, to: u32) -> R<()> {
        if to as u64 & !1 == RET { self.r[15] = RET as u32; return Ok(()); }
        if to & 1 == 1 { self.cpsr |= T; self.r[15] = to & !1; }
        else if self.mclass { return Err(format!("leaves Thumb state for {to:#x}")); }
        else { self.cpsr &= !T; if to & 2 != 0 { return Err(format!("jump to {to:#x}")); } self.r[15] = to; }
        Ok(())
    }
    /// A load of the program counter.
    fn ldpc(&mut self, to: u32) -> R<()> { if self.v5 || self.mclass || to as u64 & !1 == RET { self.bx(to) } else { self.r[15] = to & if self.f(T) { !1 } else { !3 }; Ok(()) } }
    fn shift(&self, ty: u32, v: u32, n: u32, by_reg: bool) -> (u32, bool) {
        let c = self.f(C);
        if by_reg && n == 0 { return (v, c); }
        let n = if !by_reg && n == 0 && (ty == 1 || ty == 2) { 32 } else { n };
        match ty {
            0 => if n == 0 { (v, c) } else if n < 32 { (v << n, v >> (32 - n) & 1 == 1) } else { (0, n == 32 && v & 1 == 1) },
            1 => if n < 32 { (v >> n, v >> (n - 1) & 1 == 1) } else { (0, n == 32 && v >> 31 == 1) },
            2 => if n < 32 { ((v as i32 >> n) as u32, v >> (n - 1) & 1 == 1) } else { ((v as i32 >> 31) as u32, v >> 31 == 1) },
            _ => if !by_reg && n == 0 { ((c as u32) << 31 | v >> 1, v & 1 == 1) } else { let k = n & 31; if k == 0 { (v, v >> 31 == 1) } else { (v.rotate_right(k), v >> (k - 1) & 1 == 1) } },
        }
    }
    fn msr(&mut self, mask: u32, v: u32) {
        let mut m = 0;
        for k in 0..4 { if mask >> k & 1 == 1 { m |= 0xff << (8 * k); } }
        if m & 0xff != 0 && self.cpsr & 0x1f == 0x10 { m &= !0xff; } // user mode: no effect
        m &= !T; // the state bit is not written this way
        self.cpsr = self.cpsr & !m | v & m;
    }
    fn a32(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.r[15];
        let i = m.fetch(pc as u64, 4)?;
        let reg = |s: &Self, n: u32| if n == 15 { pc.wrapping_add(8) } else { s.r[n as usize] };
        self.r[15] = pc.wrapping_add(4);
        let cond = i >> 28;
        if cond == 15 {
            if self.v5 && i >> 25 & 7 == 5 {
                self.r[14] = pc.wrapping_add(4);
                self.cpsr |= T;
                self.r[15] = pc.wrapping_add(8).wrapping_add(((i << 8) as i32 >> 6) as u32).wrapping_add(i >> 23 & 2);
                return Ok(());
            }
            if self.v5 && i & 0x0d70f000 == 0x0550f000 { return Ok(()); } // PLD
            self.r[15] = pc;
            return self.ill(i);
        }
        if !self.cond(cond) { return Ok(()); }
        let (rn, rd, rs, rm) = (i >> 16 & 15, i >> 12 & 15, i >> 8 & 15, i & 15);
        let s = i >> 20 & 1 == 1;
        macro_rules! bad { () => {{ self.r[15] = pc; return self.ill(i); }} }
        match i >> 25 & 7 {
            0 if i & 0x0ffffff0 == 0x012fff10 => { let t = reg(self, rm); return self.bx(t); }
            0 if self.v5 && i & 0x0ffffff0 == 0x012fff30 => { let t = reg(self, rm); self.r[14] = pc.wrapping_add(4); return self.bx(t); }
            0 if self.v5 && i & 0x0fff0ff0 == 0x016f0f10 => self.r[rd as usize] = reg(self, rm).leading_zeros(),
            0 if i & 0x0fbf0fff == 0x010f0000 => self.r[rd as usize] = if i >> 22 & 1 == 1 { self.spsr } else { self.cpsr },
            0 if i & 0x0fb0fff0 == 0x0120f000 => { let v = reg(self, rm); if i >> 22 & 1 == 1 { self.spsr = v } else { self.msr(rn, v) } }
            0 if i & 0x0f900090 == 0x01000080 => {
                // halfword multiplies
                if !self.v5 { bad!(); }
                let h = |v: u32, t: u32| if t == 1 { (v as i32 >> 16) as i64 } else { v as i16 as i64 };
                let (x, y) = (i >> 5 & 1, i >> 6 & 1);
                let (a, b) = (reg(self, rm), reg(self, rs));
                match i >> 21 & 3 {
                    3 => self.r[rn as usize] = (h(a, x) * h(b, y)) as u32,
                    0 => self.r[rn as usize] = (h(a, x) * h(b, y)).wrapping_add(reg(self, rd) as i32 as i64) as u32,
                    1 if x == 1 => self.r[rn as usize] = ((a as i32 as i64 * h(b, y)) >> 16) as u32,
                    1 => self.r[rn as usize] = ((a as i32 as i64 * h(b, y)) >> 16).wrapping_add(reg(self, rd) as i32 as i64) as u32,
                    _ => { let w = (self.r[rn as usize] as u64) << 32 | self.r[rd as usize] as u64; let w = (w as i64).wrapping_add(h(a, x) * h(b, y)) as u64; self.r[rd as usize] = w as u32; self.r[rn as usize] = (w >> 32) as u32; }
                }
            }
            0 if i & 0x90 == 0x90 => {
                if i & 0x60 == 0 {
                    if i >> 24 & 1 == 0 {
                        let (a, b) = (reg(self, rm), reg(self, rs));
                        match i >> 21 & 7 {
                            0 | 1 => { let mut v = a.wrapping_mul(b); if i >> 21 & 1 == 1 { v = v.wrapping_add(self.r[rd as usize]); } self.r[rn as usize] = v; if s { self.nz(v); } }
                            k @ 4..=7 => {
                                let mut w = if k & 2 == 0 { a as u64 * b as u64 } else { (a as i32 as i64 * b as i32 as i64) as u64 };
                                if k & 1 == 1 { w = w.wrapping_add((self.r[rn as usize] as u64) << 32 | self.r[rd as usize] as u64); }
                                self.r[rd as usize] = w as u32;
                                self.r[rn as usize] = (w >> 32) as u32;
                                if s { self.setf(N, w >> 63 == 1); self.setf(Z, w == 0); }
                            }
                            _ => bad!(),
                        }
                    } else if i & 0x0fb00ff0 == 0x01000090 {
                        // SWP
                        let (p, n) = (reg(self, rn) as u64, if i >> 22 & 1 == 1 { 1 } else { 4 });
                        let old = m.rda(p, n)? as u32;
                        m.wra(p, n, reg(self, rm) as u64)?;
                        self.r[rd as usize] = old;
                    } else { bad!() }
                } else {
                    let (p, u, im, w, l) = (i >> 24 & 1, i >> 23 & 1, i >> 22 & 1, i >> 21 & 1, s);
                    let off = if im == 1 { i >> 4 & 0xf0 | i & 15 } else { reg(self, rm) };
                    let base = reg(self, rn);
                    let moved = if u == 1 { base.wrapping_add(off) } else { base.wrapping_sub(off) };
                    let a = (if p == 1 { moved } else { base }) as u64;
                    let sh = i >> 5 & 3;
                    if !l && sh != 1 {
                        if !self.v5 || rd % 2 == 1 { bad!(); }
                        if a % 8 != 0 { return Err(format!("misaligned access to {a:#x}")); }
                        if sh == 2 { let (x, y) = (m.rd(a, 4)?, m.rd(a + 4, 4)?); self.r[rd as usize] = x as u32; self.r[rd as usize + 1] = y as u32; }
                        else { m.wr(a, 4, self.r[rd as usize] as u64)?; m.wr(a + 4, 4, self.r[rd as usize + 1] as u64)?; }
                        if p == 0 || w == 1 { if !(sh == 2 && (rn == rd || rn == rd + 1)) { self.r[rn as usize] = moved; } }
                        return Ok(());
                    }
                    if l {
                        let v = match sh { 1 => m.rda(a, 2)? as u32, 2 => m.rda(a, 1)? as i8 as u32, _ => m.rda(a, 2)? as i16 as u32 };
                        if p == 0 || w == 1 { self.r[rn as usize] = moved; }
                        self.r[rd as usize] = v;
                    } else { m.wra(a, 2, reg(self, rd) as u64)?; if p == 0 || w == 1 { self.r[rn as usize] = moved; } }
                }
            }
            k @ (0 | 1) => {
                let op = i >> 21 & 15;
                if (8..12).contains(&op) && !s {
                    // MSR immediate
                    if k == 1 && i & 0x0fb0f000 == 0x0320f000 { let v = (i & 0xff).rotate_right(2 * rs); if i >> 22 & 1 == 1 { self.spsr = v } else { self.msr(rn, v) } return Ok(()); }
                    bad!();
                }
                let (b, sc) = if k == 1 { let v = (i & 0xff).rotate_right(2 * rs); (v, if rs == 0 { self.f(C) } else { v >> 31 == 1 }) }
                    else if i >> 4 & 1 == 1 { let v = if rm == 15 { pc.wrapping_add(12) } else { self.r[rm as usize] }; self.shift(i >> 5 & 3, v, self.r[rs as usize] & 0xff, true) }
                    else { self.shift(i >> 5 & 3, reg(self, rm), i >> 7 & 31, false) };
                let a = reg(self, rn);
                let c = self.f(C);
                let s_ = s && rd != 15 || (8..12).contains(&op);
                let v = match op {
                    0 | 8 => a & b, 1 | 9 => a ^ b, 12 => a | b, 13 => b, 14 => a & !b, 15 => !b,
                    2 | 10 => self.add(a, !b, true, s_), 3 => self.add(b, !a, true, s_), 4 | 11 => self.add(a, b, false, s_),
                    5 => self.add(a, b, c, s_), 6 => self.add(a, !b, c, s_), _ => self.add(b, !a, c, s_),
                };
                if s_ && matches!(op, 0 | 1 | 8 | 9 | 12..=15) { self.nz(v); self.setf(C, sc); }
                if !(8..12).contains(&op) {
                    if rd == 15 {
                        if s { bad!(); } // return from an exception
                        if v as u64 & !1 == RET { self.r[15] = RET as u32; } else { self.r[15] = v & !3; }
                    } else { self.r[rd as usize] = v; }
                }
            }
            k @ (2 | 3) => {
                if k == 3 && i >> 4 & 1 == 1 { bad!(); }
                let (p, u, by, w) = (i >> 24 & 1, i >> 23 & 1, i >> 22 & 1, i >> 21 & 1);
                let off = if k == 2 { i & 0xfff } else { self.shift(i >> 5 & 3, reg(self, rm), i >> 7 & 31, false).0 };
                let base = reg(self, rn);
                let moved = if u == 1 { base.wrapping_add(off) } else { base.wrapping_sub(off) };
                let a = (if p == 1 { moved } else { base }) as u64;
                let n = if by == 1 { 1 } else { 4 };
                if s {
                    let v = m.rda(a, n)? as u32;
                    if p == 0 || w == 1 { self.r[rn as usize] = moved; }
                    if rd == 15 { return self.ldpc(v); }
                    self.r[rd as usize] = v;
                } else { m.wra(a, n, if rd == 15 { pc.wrapping_add(12) } else { self.r[rd as usize] } as u64)?; if p == 0 || w == 1 { self.r[rn as usize] = moved; } }
            }
            4 => {
                let (p, u, ps, w) = (i >> 24 & 1, i >> 23 & 1, i >> 22 & 1, i >> 21 & 1);
                if ps == 1 { bad!(); }
                let list = i & 0xffff;
                let n = list.count_ones() * 4;
                let base = reg(self, rn);
                let mut a = if u == 1 { base } else { base.wrapping_sub(n) };
                if p == u { a = a.wrapping_add(4); }
                let end = if u == 1 { base.wrapping_add(n) } else { base.wrapping_sub(n) };
                let mut to = None;
                for k in 0..16 {
                    if list >> k & 1 == 0 { continue; }
                    if s { let v = m.rda(a as u64, 4)? as u32; if k == 15 { to = Some(v) } else { self.r[k] = v; } }
                    else { m.wra(a as u64, 4, if k == 15 { pc.wrapping_add(12) } else { self.r[k] } as u64)?; }
                    a = a.wrapping_add(4);
                }
                if w == 1 && !(s && list >> rn & 1 == 1) { self.r[rn as usize] = end; }
                if let Some(v) = to { return self.ldpc(v); }
            }
            5 => { if i >> 24 & 1 == 1 { self.r[14] = pc.wrapping_add(4); } self.r[15] = pc.wrapping_add(8).wrapping_add(((i << 8) as i32 >> 6) as u32); }
            _ => bad!(),
        }
        Ok(())
    }
    fn t16(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.r[15];
        let i = m.fetch(pc as u64, 2)?;
        self.r[15] = pc.wrapping_add(2);
        let (lo, mid, hi3) = ((i & 7) as usize, (i >> 3 & 7) as usize, (i >> 6 & 7) as usize);
        macro_rules! bad { () => {{ self.r[15] = pc; return self.ill(i); }} }
        match i >> 12 {
            0 | 1 => match i >> 11 & 3 {
                3 => {
                    let b = if i >> 10 & 1 == 1 { hi3 as u32 } else { self.r[hi3] };
                    let a = self.r[mid];
                    self.r[lo] = if i >> 9 & 1 == 1 { self.add(a, !b, true, true) } else { self.add(a, b, false, true) };
                }
                ty => { let (v, c) = self.shift(ty, self.r[mid], i >> 6 & 31, false); self.r[lo] = v; self.nz(v); self.setf(C, c); }
            },
            2 | 3 => {
                let (d, k) = ((i >> 8 & 7) as usize, i & 0xff);
                let a = self.r[d];
                match i >> 11 & 3 { 0 => { self.r[d] = k; self.nz(k); } 1 => { self.add(a, !k, true, true); } 2 => self.r[d] = self.add(a, k, false, true), _ => self.r[d] = self.add(a, !k, true, true) }
            }
            4 if i >> 10 & 3 == 0 => {
                let (a, b, c) = (self.r[lo], self.r[mid], self.f(C));
                match i >> 6 & 15 {
                    0 => { self.r[lo] = a & b; self.nz(a & b); } 1 => { self.r[lo] = a ^ b; self.nz(a ^ b); }
                    k @ (2 | 3 | 4 | 7) => { let ty = match k { 2 => 0, 3 => 1, 4 => 2, _ => 3 }; let (v, sc) = self.shift(ty, a, b & 0xff, true); self.r[lo] = v; self.nz(v); self.setf(C, sc); }
                    5 => self.r[lo] = self.add(a, b, c, true), 6 => self.r[lo] = self.add(a, !b, c, true),
                    8 => self.nz(a & b), 9 => self.r[lo] = self.add(0, !b, true, true), 10 => { self.add(a, !b, true, true); } 11 => { self.add(a, b, false, true); }
                    12 => { self.r[lo] = a | b; self.nz(a | b); } 13 => { let v = a.wrapping_mul(b); self.r[lo] = v; self.nz(v); }
                    14 => { self.r[lo] = a & !b; self.nz(a & !b); } _ => { self.r[lo] = !b; self.nz(!b); }
                }
            }
            4 if i >> 10 & 3 == 1 => {
                let d = (i & 7 | i >> 4 & 8) as usize;
                let s = (i >> 3 & 15) as usize;
                let get = |c: &Self, n: usize| if n == 15 { pc.wrapping_add(4) } else { c.r[n] };
                let (a, b) = (get(self, d), get(self, s));
                match i >> 8 & 3 {
                    0 => { let v = a.wrapping_add(b); if d == 15 { self.r[15] = v & !1; } else { self.r[d] = v; } }
                    1 => { self.add(a, !b, true, true); }
                    2 => if d == 15 { if b as u64 & !1 == RET { self.r[15] = RET as u32; } else { self.r[15] = b & !1; } } else { self.r[d] = b; },
                    _ => { if i & 0x80 != 0 { if !self.v5 && !self.mclass { bad!(); } self.r[14] = pc.wrapping_add(2) | 1; } return self.bx(b); }
                }
            }
            4 => { let d = (i >> 8 & 7) as usize; self.r[d] = m.rda((pc.wrapping_add(4) & !3).wrapping_add((i & 0xff) * 4) as u64, 4)? as u32; }
            5 => {
                let a = self.r[mid].wrapping_add(self.r[hi3]) as u64;
                match i >> 9 & 7 {
                    0 => m.wra(a, 4, self.r[lo] as u64)?, 1 => m.wra(a, 2, self.r[lo] as u64)?, 2 => m.wra(a, 1, self.r[lo] as u64)?,
                    3 => self.r[lo] = m.rda(a, 1)? as i8 as u32, 4 => self.r[lo] = m.rda(a, 4)? as u32, 5 => self.r[lo] = m.rda(a, 2)? as u32, 6 => self.r[lo] = m.rda(a, 1)? as u32, _ => self.r[lo] = m.rda(a, 2)? as i16 as u32,
                }
            }
            6..=8 => {
                let n = match i >> 12 { 6 => 4, 7 => 1, _ => 2 };
                let a = self.r[mid].wrapping_add((i >> 6 & 31) * n) as u64;
                if i >> 11 & 1 == 1 { self.r[lo] = m.rda(a, n as usize)? as u32; } else { m.wra(a, n as usize, self.r[lo] as u64)?; }
            }
            9 => { let d = (i >> 8 & 7) as usize; let a = self.r[13].wrapping_add((i & 0xff) * 4) as u64; if i >> 11 & 1 == 1 { self.r[d] = m.rda(a, 4)? as u32; } else { m.wra(a, 4, self.r[d] as u64)?; } }
            10 => { let d = (i >> 8 & 7) as usize; self.r[d] = (if i >> 11 & 1 == 1 { self.r[13] } else { pc.wrapping_add(4) & !3 }).wrapping_add((i & 0xff) * 4); }
            11 => match i >> 8 & 15 {
                0 => { let k = (i & 0x7f) * 4; self.r[13] = if i & 0x80 != 0 { self.r[13].wrapping_sub(k) } else { self.r[13].wrapping_add(k) }; }
                4 | 5 => {
                    let list = i & 0xff;
                    let lr = i >> 8 & 1;
                    let mut a = self.r[13].wrapping_sub(4 * (list.count_ones() + lr));
                    self.r[13] = a;
                    for k in 0..8 { if list >> k & 1 == 1 { m.wra(a as u64, 4, self.r[k] as u64)?; a = a.wrapping_add(4); } }
                    if lr == 1 { m.wra(a as u64, 4, self.r[14] as u64)?; }
                }
                12 | 13 => {
                    let mut a = self.r[13];
                    for k in 0..8 { if i >> k & 1 == 1 { self.r[k] = m.rda(a as u64, 4)? as u32; a = a.wrapping_add(4); } }
                    if i >> 8 & 1 == 1 { let v = m.rda(a as u64, 4)? as u32; self.r[13] = a.wrapping_add(4); return self.ldpc(v); }
                    self.r[13] = a;
                }
                2 if self.mclass => { let v = self.r[mid]; self.r[lo] = match i >> 6 & 3 { 0 => v as i16 as u32, 1 => v as i8 as u32, 2 => v & 0xffff, _ => v & 0xff }; }
                10 if self.mclass => { let v = self.r[mid]; self.r[lo] = match i >> 6 & 3 { 0 => v.swap_bytes(), 1 => (v & 0xff00ff) << 8 | v >> 8 & 0xff00ff, 3 => (v as u16).swap_bytes() as i16 as u32, _ => bad!() }; }
                6 if self.mclass && i & 0xffef == 0xb662 => self.primask = i >> 4 & 1,
                15 if self.mclass && i & 0xf == 0 => {}
                _ => bad!(),
            },
            12 => {
                let n = (i >> 8 & 7) as usize;
                let mut a = self.r[n];
                let load = i >> 11 & 1 == 1;
                for k in 0..8 { if i >> k & 1 == 1 { if load { self.r[k] = m.rda(a as u64, 4)? as u32; } else { m.wra(a as u64, 4, self.r[k] as u64)?; } a = a.wrapping_add(4); } }
                if !(load && i >> n & 1 == 1) { self.r[n] = a; }
            }
            13 => { let c = i >> 8 & 15; if c >= 14 { bad!(); } if self.cond(c) { self.r[15] = pc.wrapping_add(4).wrapping_add(((i as i8 as i32) << 1) as u32); } }
            14 if i >> 11 & 1 == 0 => self.r[15] = pc.wrapping_add(4).wrapping_add((((i << 21) as i32) >> 20) as u32),
            15 => {
                let j = m.fetch(pc.wrapping_add(2) as u64, 2)?;
                let w = i << 16 | j;
                self.r[15] = pc.wrapping_add(4);
                if i >> 11 & 3 == 2 && (j >> 11 == 0x1f && (!self.mclass) || self.mclass && j & 0xd000 == 0xd000 || self.v5 && j >> 11 == 0x1d) {
                    let off = if self.mclass {
                        let s = i >> 10 & 1;
                        let (i1, i2) = (!(j >> 13 ^ s) & 1, !(j >> 11 ^ s) & 1);
                        ((s << 24 | i1 << 23 | i2 << 22 | (i & 0x3ff) << 12 | (j & 0x7ff) << 1) << 7) as i32 >> 7
                    } else { (((i & 0x7ff) << 12 | (j & 0x7ff) << 1) << 9) as i32 >> 9 };
                    self.r[14] = pc.wrapping_add(4) | 1;
                    let t = pc.wrapping_add(4).wrapping_add(off as u32);
                    if j >> 11 == 0x1d && !self.mclass { self.cpsr &= !T; self.r[15] = t & !3; } else { self.r[15] = t; }
                } else if self.mclass && w & 0xfffff0ff == 0xf3ef8010 & 0xfffff0ff { self.r[(j >> 8 & 15) as usize] = self.primask; }
                else if self.mclass && w & 0xfffff0ff == 0xf3ef8000 { self.r[(j >> 8 & 15) as usize] = self.cpsr & 0xf0000000; }
                else if self.mclass && w & 0xfff0ffff == 0xf3808810 { self.primask = self.r[(i & 15) as usize] & 1; }
                else if self.mclass && w & 0xfff0ffff == 0xf3808800 { self.cpsr = self.cpsr & 0x0fffffff | self.r[(i & 15) as usize] & 0xf0000000; }
                else if self.mclass && w & 0xffffff80 == 0xf3bf8f00 && (4..7).contains(&(j >> 4 & 15)) {} // DSB, DMB, ISB
                else { bad!() }
            }
            _ => bad!(),
        }
        Ok(())
    }
}
impl Cpu for Arm {
    fn pc(&self) -> u64 { self.r[15] as u64 }
    fn step(&mut self, m: &mut Mem) -> R<()> { if self.f(T) { self.t16(m) } else { self.a32(m) } }
    fn call(&mut self, _m: &mut Mem, pc: u64) {
        self.r[15] = pc as u32 & !1;
        self.setf(T, pc & 1 == 1 || self.mclass);
        self.r[14] = RET as u32 | (pc & 1) as u32;
    }
    fn sp(&self) -> u64 { self.r[13] as u64 }
    fn set_sp(&mut self, sp: u64) { self.r[13] = sp as u32; }
    fn irq(&self, fast: bool) -> bool { if self.mclass { self.primask == 0 } else { self.cpsr & 0x1f != 0x10 && self.cpsr & if fast { 0x40 } else { 0x80 } == 0 } }
    fn enter(&mut self, fast: bool) { if self.mclass { } else { self.cpsr |= if fast { 0xc0 } else { 0x80 }; } }
    fn status(&self) -> u64 { if self.mclass { self.primask as u64 } else { (self.cpsr & 0x0fffffff & !T) as u64 } }
    fn set_status(&mut self, masked: bool, rnd: u64) {
        if self.mclass { self.primask = masked as u32; return; }
        // supervisor or system mode, the fast interrupt masked or not
        self.cpsr = self.cpsr & 0xf000_0020 | if rnd & 1 == 1 { 0x13 } else { 0x1f } | (rnd as u32 & 0x40) | (rnd as u32 & 0x100) | if masked { 0x80 } else { 0 };
    }
    fn boxed(&self) -> Box<dyn Cpu> { Box::new(self.clone()) }
    fn ptr_bits(&self) -> u32 { 32 }
}

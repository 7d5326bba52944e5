// AVR with 16-bit program counter (AVRe+, atmega1284p) and, if asked, the RMW instructions of AVRxm.
use super::cpu::*;
#[derive(Clone)]
pub struct Avr { pub r: [u8; 32], pub sreg: u8, pub sp: u16, pub pc: u16, pub rmw: bool, pub xmega: bool, pub rampz: u8 }
const C: u8 = 1;
const Z: u8 = 2;
const N: u8 = 4;
const V: u8 = 8;
const S: u8 = 16;
const H: u8 = 32;
const T: u8 = 64;
impl Avr {
    pub fn new() -> Self { Avr { r: [0; 32], sreg: 0, sp: 0, pc: 0, rmw: false, xmega: false, rampz: 0 } }
    fn f(&mut self, b: u8, on: bool) { if on { self.sreg |= b } else { self.sreg &= !b } }
    fn is(&self, b: u8) -> bool { self.sreg & b != 0 }
    fn nzs(&mut self, v: u8, ov: bool) { self.f(N, v & 0x80 != 0); self.f(V, ov); self.f(Z, v == 0); let s = (v & 0x80 != 0) != ov; self.f(S, s); }
    fn add(&mut self, a: u8, b: u8, c: bool) -> u8 {
        let w = a as u16 + b as u16 + c as u16;
        let v = w as u8;
        self.f(C, w > 255);
        self.f(H, (a & 15) + (b & 15) + c as u8 > 15);
        self.nzs(v, (a ^ v) & (b ^ v) & 0x80 != 0);
        v
    }
    fn sub(&mut self, a: u8, b: u8, c: bool, keepz: bool) -> u8 {
        let w = (a as i16) - (b as i16) - c as i16;
        let v = w as u8;
        let z = self.is(Z);
        self.f(C, w < 0);
        self.f(H, ((a & 15) as i16) - ((b & 15) as i16) - (c as i16) < 0);
        self.nzs(v, (a ^ b) & (a ^ v) & 0x80 != 0);
        if keepz { let on = v == 0 && z; self.f(Z, on); }
        v
    }
    fn pair(&self, n: usize) -> u16 { self.r[n] as u16 | (self.r[n + 1] as u16) << 8 }
    fn setp(&mut self, n: usize, v: u16) { self.r[n] = v as u8; self.r[n + 1] = (v >> 8) as u8; }
    fn lb(&self, m: &mut Mem, a: u16) -> R<u8> {
        // xmega: no registers in data memory, but I/O at 0
        match a {
            0x00..=0x1f if !self.xmega => Ok(self.r[a as usize]),
            _ => { let io = if self.xmega { a } else { a.wrapping_sub(0x20) }; if io < 0x40 && (self.xmega || a >= 0x20) { self.io(io as u8) } else { Ok(m.rd(a as u64, 1)? as u8) } }
        }
    }
    fn sb(&mut self, m: &mut Mem, a: u16, v: u8) -> R<()> {
        match a {
            0x00..=0x1f if !self.xmega => { self.r[a as usize] = v; Ok(()) }
            _ => { let io = if self.xmega { a } else { a.wrapping_sub(0x20) }; if io < 0x40 && (self.xmega || a >= 0x20) { self.out(io as u8, v) } else { m.wr(a as u64, 1, v as u64) } }
        }
    }
    fn io(&self, a: u8) -> R<u8> { match a { 0x3f => Ok(self.sreg), 0x3d => Ok(self.sp as u8), 0x3e => Ok((self.sp >> 8) as u8), 0x3b => Ok(self.rampz), _ => Err(format!("reads I/O register {a:#x}")) } }
    fn out(&mut self, a: u8, v: u8) -> R<()> { match a { 0x3f => self.sreg = v, 0x3d => self.sp = self.sp & 0xff00 | v as u16, 0x3e => self.sp = self.sp & 0xff | (v as u16) << 8, 0x3b => self.rampz = v, _ => return Err(format!("writes I/O register {a:#x}")) } Ok(()) }
    fn push(&mut self, m: &mut Mem, v: u8) -> R<()> { let a = self.sp; self.sp = a.wrapping_sub(1); m.wr(a as u64, 1, v as u64) }
    fn pop(&mut self, m: &mut Mem) -> R<u8> { self.sp = self.sp.wrapping_add(1); Ok(m.rd(self.sp as u64, 1)? as u8) }
    fn lpm(&self, m: &Mem, a: u32) -> R<u8> { Ok((m.fetch((a & !1) as u64, 2)? >> (8 * (a & 1))) as u8) }
}
impl Cpu for Avr {
    fn pc(&self) -> u64 { self.pc as u64 * 2 }
    fn step(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.pc;
        let i = m.fetch(pc as u64 * 2, 2)?;
        let two = |k: u32| k & 0xfe0e == 0x940c || k & 0xfe0e == 0x940e || k & 0xfc0f == 0x9000;
        let skip = |m: &Mem, pc: u16| -> R<u16> { let j = m.fetch((pc.wrapping_add(1)) as u64 * 2, 2)?; Ok(pc.wrapping_add(if two(j) { 3 } else { 2 })) };
        let ill = || Err(format!("instruction {i:#06x} at {:#x}", pc as u32 * 2));
        let (d, s) = ((i >> 4 & 31) as usize, (i & 15 | i >> 5 & 16) as usize);
        let (dh, k) = ((16 + (i >> 4 & 15)) as usize, (i & 15 | i >> 4 & 0xf0) as u8);
        let mut next = pc.wrapping_add(1);
        let c = self.is(C);
        match i >> 12 {
            0 => match i >> 10 & 3 {
                0 => match i >> 8 & 3 {
                    0 if i == 0 => {}
                    1 => { let v = self.pair((i & 15) as usize * 2); self.setp((i >> 4 & 15) as usize * 2, v); }
                    2 => { let w = (self.r[16 + (i >> 4 & 15) as usize] as i8 as i16 * self.r[16 + (i & 15) as usize] as i8 as i16) as u16; self.setp(0, w); self.f(C, w >> 15 == 1); self.f(Z, w == 0); }
                    3 if i & 0x88 == 0 => { let w = (self.r[16 + (i >> 4 & 7) as usize] as i8 as i16).wrapping_mul(self.r[16 + (i & 7) as usize] as i16) as u16; self.setp(0, w); self.f(C, w >> 15 == 1); self.f(Z, w == 0); }
                    _ => return ill(),
                },
                1 => { let (a, b) = (self.r[d], self.r[s]); self.sub(a, b, c, true); }
                2 => { let (a, b) = (self.r[d], self.r[s]); self.r[d] = self.sub(a, b, c, true); }
                _ => { let (a, b) = (self.r[d], self.r[s]); self.r[d] = self.add(a, b, false); }
            },
            1 => match i >> 10 & 3 {
                0 => if self.r[d] == self.r[s] { next = skip(m, pc)?; },
                1 => { let (a, b) = (self.r[d], self.r[s]); self.sub(a, b, false, false); }
                2 => { let (a, b) = (self.r[d], self.r[s]); self.r[d] = self.sub(a, b, false, false); }
                _ => { let (a, b) = (self.r[d], self.r[s]); self.r[d] = self.add(a, b, c); }
            },
            2 => match i >> 10 & 3 {
                3 => self.r[d] = self.r[s],
                o => { let (a, b) = (self.r[d], self.r[s]); let v = match o { 0 => a & b, 1 => a ^ b, _ => a | b }; self.r[d] = v; self.nzs(v, false); }
            },
            3 => { let a = self.r[dh]; self.sub(a, k, false, false); }
            4 => { let a = self.r[dh]; self.r[dh] = self.sub(a, k, c, true); }
            5 => { let a = self.r[dh]; self.r[dh] = self.sub(a, k, false, false); }
            6 => { let v = self.r[dh] | k; self.r[dh] = v; self.nzs(v, false); }
            7 => { let v = self.r[dh] & k; self.r[dh] = v; self.nzs(v, false); }
            8 | 10 => {
                let q = (i & 7 | i >> 7 & 0x18 | i >> 8 & 0x20) as u16;
                let a = self.pair(if i & 8 != 0 { 28 } else { 30 }).wrapping_add(q);
                if i >> 9 & 1 == 1 { let v = self.r[d]; self.sb(m, a, v)?; } else { self.r[d] = self.lb(m, a)?; }
            }
            9 => match i >> 9 & 7 {
                0 | 1 => {
                    let store = i >> 9 & 1 == 1;
                    let o = i & 15;
                    if o == 0 { let a = m.fetch((pc.wrapping_add(1)) as u64 * 2, 2)? as u16; next = pc.wrapping_add(2); if store { let v = self.r[d]; self.sb(m, a, v)?; } else { self.r[d] = self.lb(m, a)?; } }
                    else if o == 15 { if store { let v = self.r[d]; self.push(m, v)?; } else { self.r[d] = self.pop(m)?; } }
                    else if !store && (4..=7).contains(&o) {
                        let z = self.pair(30);
                        let full = if o & 2 != 0 { (self.rampz as u32) << 16 | z as u32 } else { z as u32 };
                        self.r[d] = self.lpm(m, full)?;
                        if o & 1 == 1 { let n = full.wrapping_add(1); self.setp(30, n as u16); if o & 2 != 0 { self.rampz = (n >> 16) as u8; } }
                    } else if store && (4..=7).contains(&o) {
                        // XCH, LAS, LAC, LAT
                        if !self.rmw { return ill(); }
                        let z = self.pair(30);
                        let old = m.rd(z as u64, 1)? as u8;
                        let v = self.r[d];
                        m.wr(z as u64, 1, match o { 4 => v, 5 => old | v, 6 => old & !v, _ => old ^ v } as u64)?;
                        self.r[d] = old;
                    } else {
                        let (p, mode) = match o { 1 => (30, 1), 2 => (30, 2), 9 => (28, 1), 10 => (28, 2), 12 => (26, 0), 13 => (26, 1), 14 => (26, 2), _ => return ill() };
                        let mut a = self.pair(p);
                        if mode == 2 { a = a.wrapping_sub(1); self.setp(p, a); }
                        if store { let v = self.r[d]; self.sb(m, a, v)?; } else { self.r[d] = self.lb(m, a)?; }
                        if mode == 1 { self.setp(p, a.wrapping_add(1)); }
                    }
                }
                2 if i & 0xff8f == 0x9408 => { let b = 1u8 << (i >> 4 & 7); self.f(b, true); }
                2 if i & 0xff8f == 0x9488 => { let b = 1u8 << (i >> 4 & 7); self.f(b, false); }
                2 if i == 0x9508 => { let h = self.pop(m)?; let l = self.pop(m)?; next = (h as u16) << 8 | l as u16; }
                2 if i == 0x9518 => return ill(),
                2 if i == 0x95c8 => { let z = self.pair(30); self.r[0] = self.lpm(m, z as u32)?; }
                2 if i == 0x9409 => next = self.pair(30),
                2 if i == 0x9509 => { let t = self.pair(30); let n = pc.wrapping_add(1); self.push(m, n as u8)?; self.push(m, (n >> 8) as u8)?; next = t; }
                2 if i & 0xe == 0xc => next = m.fetch((pc.wrapping_add(1)) as u64 * 2, 2)? as u16,
                2 if i & 0xe == 0xe => { let t = m.fetch((pc.wrapping_add(1)) as u64 * 2, 2)? as u16; let n = pc.wrapping_add(2); self.push(m, n as u8)?; self.push(m, (n >> 8) as u8)?; next = t; }
                2 => {
                    let a = self.r[d];
                    match i & 15 {
                        0 => { let v = !a; self.r[d] = v; self.nzs(v, false); self.f(C, true); }
                        1 => { self.r[d] = self.sub(0, a, false, false); }
                        2 => self.r[d] = a.rotate_left(4),
                        3 => { let v = a.wrapping_add(1); self.r[d] = v; self.nzs(v, v == 0x80); }
                        10 => { let v = a.wrapping_sub(1); self.r[d] = v; self.nzs(v, v == 0x7f); }
                        k @ (5 | 6 | 7) => {
                            let v = match k { 5 => a >> 1 | a & 0x80, 6 => a >> 1, _ => a >> 1 | (c as u8) << 7 };
                            let nc = a & 1 == 1;
                            self.r[d] = v;
                            self.f(C, nc);
                            let ov = (v & 0x80 != 0) != nc;
                            self.nzs(v, ov);
                        }
                        _ => return ill(),
                    }
                }
                3 => {
                    let p = 24 + 2 * (i >> 4 & 3) as usize;
                    let k = (i & 15 | i >> 2 & 0x30) as u16;
                    let a = self.pair(p);
                    let sub = i >> 8 & 1 == 1;
                    let v = if sub { a.wrapping_sub(k) } else { a.wrapping_add(k) };
                    self.setp(p, v);
                    let (n, ah) = (v >> 15 == 1, a >> 15 == 1);
                    let (ov, cy) = if sub { (ah && !n, !ah && n) } else { (!ah && n, ah && !n) };
                    self.f(N, n); self.f(V, ov); self.f(Z, v == 0); self.f(C, cy); self.f(S, n != ov);
                }
                4 | 5 => {
                    // CBI SBIC SBI SBIS
                    let (a, b) = ((i >> 3 & 31) as u8, 1u8 << (i & 7));
                    let v = self.io(a)?;
                    match i >> 8 & 3 { 0 => self.out(a, v & !b)?, 2 => self.out(a, v | b)?, 1 => if v & b == 0 { next = skip(m, pc)?; }, _ => if v & b != 0 { next = skip(m, pc)?; } }
                }
                _ => { let w = self.r[d] as u16 * self.r[s] as u16; self.setp(0, w); self.f(C, w >> 15 == 1); self.f(Z, w == 0); }
            },
            11 => { let a = (i & 15 | i >> 5 & 0x30) as u8; if i >> 11 & 1 == 1 { let v = self.r[d]; self.out(a, v)?; } else { self.r[d] = self.io(a)?; } }
            12 | 13 => {
                let off = (((i << 4) as u16) as i16 >> 4) as u16;
                let n = pc.wrapping_add(1);
                if i >> 12 == 13 { self.push(m, n as u8)?; self.push(m, (n >> 8) as u8)?; }
                next = n.wrapping_add(off);
            }
            14 => self.r[dh] = k,
            _ => {
                let b = (i & 7) as u32;
                match i >> 10 & 3 {
                    0 | 1 => { let set = i >> 10 & 1 == 0; let off = (((i >> 3 & 0x7f) << 9) as u16 as i16 >> 9) as u16; if (self.sreg >> b & 1 == 1) == set { next = next.wrapping_add(off); } }
                    2 if i & 8 == 0 => if i >> 9 & 1 == 0 { let t = self.is(T); self.r[d] = self.r[d] & !(1 << b) | (t as u8) << b; } else { let t = self.r[d] >> b & 1 == 1; self.f(T, t); },
                    3 if i & 8 == 0 => if (self.r[d] >> b & 1 == 1) == (i >> 9 & 1 == 1) { next = skip(m, pc)?; },
                    _ => return ill(),
                }
            }
        }
        self.pc = next;
        Ok(())
    }
    fn call(&mut self, m: &mut Mem, pc: u64) {
        self.pc = (pc / 2) as u16;
        let n = (RET & 0xffff) / 2;
        let _ = self.push(m, n as u8);
        let _ = self.push(m, (n >> 8) as u8);
        self.r[1] = 0;
    }
    fn exit(&self) -> u64 { RET & 0xffff }
    fn sp(&self) -> u64 { self.sp as u64 }
    fn set_sp(&mut self, sp: u64) { self.sp = sp as u16; }
    fn irq(&self, _fast: bool) -> bool { self.sreg & 0x80 != 0 }
    fn enter(&mut self, _fast: bool) { self.sreg &= 0x7f; }
    fn status(&self) -> u64 { (self.sreg & 0x80) as u64 }
    fn set_status(&mut self, masked: bool, rnd: u64) { self.sreg = rnd as u8 & 0x7f | if masked { 0 } else { 0x80 }; }
    fn boxed(&self) -> Box<dyn Cpu> { Box::new(self.clone()) }
    fn ptr_bits(&self) -> u32 { 16 }
}

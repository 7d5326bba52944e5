// RV32/RV64 I, M, A (Zalrsc, Zaamo), Zabha, Zacas, Zicsr (mstatus, sstatus); no compressed instructions.
use super::cpu::*;
#[derive(Clone)]
pub struct Riscv { pub x: [u64; 32], pub pc: u64, pub rv32: bool, pub st: u64, pub smode: bool, pub priv_: bool, pub m: bool, pub lrsc: bool, pub aamo: bool, pub abha: bool, pub acas: bool, pub resv: Option<u64>, pub hwprobe: Option<u64>, pub probes: u32 }
// what sstatus shows of mstatus
const SVIEW: u64 = 1 << 1 | 1 << 5 | 1 << 6 | 1 << 8 | 3 << 9 | 3 << 13 | 3 << 15 | 1 << 18 | 1 << 19;
impl Riscv {
    pub fn new(rv32: bool) -> Self { Riscv { x: [0; 32], pc: 0, rv32, st: 0, smode: false, priv_: true, m: true, lrsc: false, aamo: false, abha: false, acas: false, resv: None, hwprobe: None, probes: 0 } }
    fn sx(&self, v: u64) -> u64 { if self.rv32 { v as i32 as i64 as u64 } else { v } }
    fn set(&mut self, r: usize, v: u64) { if r != 0 { self.x[r] = self.sx(v); } }
    fn addr(&self, v: u64) -> u64 { if self.rv32 { v & 0xffff_ffff } else { v } }
    fn ill<T>(&self, i: u32) -> R<T> { Err(format!("instruction {i:#010x} at {:#x}", self.pc)) }
    fn csr(&mut self, i: u32) -> R<()> {
        let (rd, rs, f3, n) = ((i >> 7 & 31) as usize, (i >> 15 & 31) as usize, i >> 12 & 7, i >> 20);
        if !self.priv_ { return self.ill(i); }
        let view = match n { 0x300 if !self.smode => !0, 0x100 => SVIEW, _ => return self.ill(i) };
        let src = if f3 & 4 != 0 { rs as u64 } else { self.x[rs] };
        let old = self.st & view;
        let wr = !(f3 & 3 != 1 && rs == 0);
        let new = match f3 & 3 { 1 => src, 2 => old | src, 3 => old & !src, _ => return self.ill(i) };
        if wr { self.st = self.st & !view | new & view; }
        self.set(rd, old);
        Ok(())
    }
    fn amo(&mut self, i: u32, m: &mut Mem) -> R<()> {
        let (rd, rs1, rs2, f3, f5) = ((i >> 7 & 31) as usize, (i >> 15 & 31) as usize, (i >> 20 & 31) as usize, i >> 12 & 7, i >> 27);
        let n = 1usize << f3;
        let a = self.addr(self.x[rs1]);
        let word = n == 4 || n == 8 && !self.rv32;
        if f5 == 5 {
            // compare and swap
            if !self.acas || n < 4 && !self.abha || n > 16 || n == 16 && self.rv32 { return self.ill(i); }
            let pair = n == 16 || n == 8 && self.rv32;
            if pair {
                if rd % 2 == 1 || rs2 % 2 == 1 { return self.ill(i); }
                let h = n / 2;
                if a % n as u64 != 0 { return Err(format!("misaligned access to {a:#x}")); }
                let get = |c: &Self, r: usize| if r == 0 { (0, 0) } else { (c.x[r], c.x[r + 1]) };
                let old = (m.rd(a, h)?, m.rd(a + h as u64, h)?);
                let want = get(self, rd);
                let new = get(self, rs2);
                let mask = if h == 4 { 0xffff_ffff } else { !0 };
                if old.0 == want.0 & mask && old.1 == want.1 & mask { m.wr(a, h, new.0)?; m.wr(a + h as u64, h, new.1)?; }
                if rd != 0 { self.set(rd, old.0); self.set(rd + 1, old.1); }
                return Ok(());
            }
            let old = m.rda(a, n)?;
            let mask = if n == 8 { !0 } else { (1u64 << (8 * n)) - 1 };
            if old == self.x[rd] & mask { m.wra(a, n, self.x[rs2])?; }
            self.set(rd, ext(old, n));
            return Ok(());
        }
        if f5 == 2 || f5 == 3 {
            if !self.lrsc || !word { return self.ill(i); }
            if f5 == 2 { let v = m.rda(a, n)?; self.resv = Some(a); self.set(rd, ext(v, n)); }
            else {
                let ok = self.resv.take() == Some(a);
                if ok { m.wra(a, n, self.x[rs2])?; }
                self.set(rd, !ok as u64);
            }
            return Ok(());
        }
        if !self.aamo || n > 8 || n == 8 && self.rv32 || n < 4 && !self.abha { return self.ill(i); }
        let old = ext(m.rda(a, n)?, n);
        let b = ext(self.x[rs2], n);
        let u = |v: u64| if n == 8 { v } else { v & ((1u64 << (8 * n)) - 1) };
        let new = match f5 {
            1 => b, 0 => old.wrapping_add(b), 4 => old ^ b, 12 => old & b, 8 => old | b,
            16 => if (old as i64) < b as i64 { old } else { b }, 20 => if (old as i64) > b as i64 { old } else { b },
            24 => if u(old) < u(b) { old } else { b }, 28 => if u(old) > u(b) { old } else { b },
            _ => return self.ill(i),
        };
        m.wra(a, n, new)?;
        self.set(rd, old);
        Ok(())
    }
}
fn ext(v: u64, n: usize) -> u64 { match n { 1 => v as i8 as i64 as u64, 2 => v as i16 as i64 as u64, 4 => v as i32 as i64 as u64, _ => v } }
impl Cpu for Riscv {
    fn pc(&self) -> u64 { self.addr(self.pc) }
    fn regs(&self) -> &[u64] { &self.x }
    fn step(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.pc();
        let i = m.fetch(pc, 4)?;
        let (rd, rs1, rs2, f3, f7) = ((i >> 7 & 31) as usize, (i >> 15 & 31) as usize, (i >> 20 & 31) as usize, i >> 12 & 7, i >> 25);
        let (a, b) = (self.x[rs1], self.x[rs2]);
        let imm_i = (i as i32 >> 20) as i64 as u64;
        let mut next = pc.wrapping_add(4);
        match i & 0x7f {
            0x37 => self.set(rd, (i & 0xfffff000) as i32 as i64 as u64),
            0x17 => self.set(rd, pc.wrapping_add((i & 0xfffff000) as i32 as i64 as u64)),
            0x6f => {
                let o = ((i as i32 >> 31) << 20) as u32 | i & 0xff000 | (i >> 20 & 1) << 11 | (i >> 21 & 0x3ff) << 1;
                self.set(rd, next);
                next = pc.wrapping_add(o as i32 as i64 as u64);
            }
            0x67 => { if f3 != 0 { return self.ill(i); } let t = a.wrapping_add(imm_i) & !1; self.set(rd, next); next = t; }
            0x63 => {
                let o = ((i as i32 >> 31) << 12) as u32 | (i >> 7 & 1) << 11 | (i >> 25 & 0x3f) << 5 | (i >> 8 & 15) << 1;
                let t = match f3 { 0 => a == b, 1 => a != b, 4 => (a as i64) < b as i64, 5 => a as i64 >= b as i64, 6 => a < b, 7 => a >= b, _ => return self.ill(i) };
                if t { next = pc.wrapping_add(o as i32 as i64 as u64); }
            }
            0x03 => {
                let p = self.addr(a.wrapping_add(imm_i));
                let v = match f3 {
                    0 => ext(m.rda(p, 1)?, 1), 1 => ext(m.rda(p, 2)?, 2), 2 => ext(m.rda(p, 4)?, 4), 3 if !self.rv32 => m.rda(p, 8)?,
                    4 => m.rda(p, 1)?, 5 => m.rda(p, 2)?, 6 if !self.rv32 => m.rda(p, 4)?, _ => return self.ill(i),
                };
                self.set(rd, v);
            }
            0x23 => {
                let p = self.addr(a.wrapping_add((i as i32 >> 25 << 5 | (i >> 7 & 31) as i32) as i64 as u64));
                if f3 > 3 || f3 == 3 && self.rv32 { return self.ill(i); }
                m.wra(p, 1 << f3, b)?;
            }
            0x13 | 0x33 => {
                let imm = i & 0x7f == 0x13;
                let y = if imm { imm_i } else { b };
                let bits = if self.rv32 { 32 } else { 64 };
                let sh = (y & (bits - 1)) as u32;
                if !imm && f7 == 1 {
                    if !self.m { return self.ill(i); }
                    let v = if self.rv32 {
                        let (s, t) = (a as i32, b as i32);
                        let (us, ut) = (a as u32, b as u32);
                        (match f3 {
                            0 => s.wrapping_mul(t) as u32, 1 => ((s as i64 * t as i64) >> 32) as u32, 2 => ((s as i64 * ut as i64) >> 32) as u32, 3 => ((us as u64 * ut as u64) >> 32) as u32,
                            4 => if t == 0 { !0 } else { s.wrapping_div(t) as u32 }, 5 => if ut == 0 { !0 } else { us / ut },
                            6 => if t == 0 { us } else { s.wrapping_rem(t) as u32 }, _ => if ut == 0 { us } else { us % ut },
                        }) as u64
                    } else {
                        let (s, t) = (a as i64, b as i64);
                        match f3 {
                            0 => a.wrapping_mul(b), 1 => ((s as i128 * t as i128) >> 64) as u64, 2 => ((s as i128 * b as i128) >> 64) as u64, 3 => ((a as u128 * b as u128) >> 64) as u64,
                            4 => if t == 0 { !0 } else { s.wrapping_div(t) as u64 }, 5 => if b == 0 { !0 } else { a / b },
                            6 => if t == 0 { a } else { s.wrapping_rem(t) as u64 }, _ => if b == 0 { a } else { a % b },
                        }
                    };
                    self.set(rd, v);
                } else {
                    let top = if imm && f3 != 1 && f3 != 5 { 0 } else if imm && !self.rv32 { f7 & !1 } else { f7 };
                    let v = match (f3, top) {
                        (0, 0) => a.wrapping_add(y), (0, 0x20) if !imm => a.wrapping_sub(y),
                        (1, 0) => a << sh, (2, 0) => ((a as i64) < y as i64) as u64, (3, 0) => (a < y) as u64, (4, 0) => a ^ y,
                        (5, 0) => if self.rv32 { (a as u32 >> sh) as u64 } else { a >> sh },
                        (5, 0x20) => if self.rv32 { (a as i32 >> sh) as u64 } else { (a as i64 >> sh) as u64 },
                        (6, 0) => a | y, (7, 0) => a & y, _ => return self.ill(i),
                    };
                    self.set(rd, v);
                }
            }
            0x1b | 0x3b if !self.rv32 => {
                let imm = i & 0x7f == 0x1b;
                let (s, y) = (a as u32, if imm { imm_i as u32 } else { b as u32 });
                let v = if !imm && f7 == 1 {
                    if !self.m { return self.ill(i); }
                    let (p, q) = (s as i32, y as i32);
                    match f3 { 0 => s.wrapping_mul(y), 4 => if q == 0 { !0 } else { p.wrapping_div(q) as u32 }, 5 => if y == 0 { !0 } else { s / y }, 6 => if q == 0 { s } else { p.wrapping_rem(q) as u32 }, 7 => if y == 0 { s } else { s % y }, _ => return self.ill(i) }
                } else {
                    match (f3, if imm && f3 == 0 { 0 } else { f7 }) { (0, 0) => s.wrapping_add(y), (0, 0x20) => s.wrapping_sub(y), (1, 0) => s << (y & 31), (5, 0) => s >> (y & 31), (5, 0x20) => (s as i32 >> (y & 31)) as u32, _ => return self.ill(i) }
                };
                self.set(rd, v as i32 as i64 as u64);
            }
            0x0f => {} // fences
            0x2f => self.amo(i, m)?,
            0x73 if f3 != 0 => self.csr(i)?,
            0x73 if i == 0x73 && self.hwprobe.is_some() => {
                // Linux: riscv_hwprobe(pairs, 1, 0, NULL, 0) is all there is
                if self.x[17] != 258 { return self.ill(i); }
                self.probes += 1;
                let (p, n) = (self.addr(self.x[10]), self.x[11]);
                for k in 0..n {
                    let q = p + 16 * k;
                    let key = m.rd(q, 8)?;
                    let bits = self.hwprobe.unwrap();
                    if key == 4 { m.wr(q + 8, 8, bits)?; } else { m.wr(q, 8, !0)?; m.wr(q + 8, 8, 0)?; }
                }
                let r = if self.hwprobe == Some(!0) { -38i64 as u64 } else { 0 };
                self.set(10, r);
            }
            _ => return self.ill(i),
        }
        self.pc = self.addr(next);
        Ok(())
    }
    fn call(&mut self, _m: &mut Mem, pc: u64) { self.pc = pc; self.x[1] = RET; }
    fn exit(&self) -> u64 { RET }
    fn sp(&self) -> u64 { self.addr(self.x[2]) }
    fn set_sp(&mut self, sp: u64) { self.x[2] = sp; }
    fn irq(&self, _fast: bool) -> bool { self.priv_ && self.st & if self.smode { 2 } else { 8 } != 0 }
    fn enter(&mut self, _fast: bool) {
        let (e, p) = if self.smode { (1, 5) } else { (3, 7) };
        self.st = self.st & !(1 << p) | (self.st >> e & 1) << p;
        self.st &= !(1 << e);
        self.resv = None;
    }
    fn status(&self) -> u64 { self.st }
    fn set_status(&mut self, masked: bool, rnd: u64) {
        let bit = if self.smode { 2 } else { 8 };
        self.st = rnd & 0x7fffe & !bit | if masked { 0 } else { bit };
    }
    fn boxed(&self) -> Box<dyn Cpu> { Box::new(self.clone()) }
    fn ptr_bits(&self) -> u32 { if self.rv32 { 32 } else { 64 } }
    fn snoop(&mut self, a: u64, n: u64) { if let Some(r) = self.resv { if a < r + 8 && r < a + n { self.resv = None; } } }
}

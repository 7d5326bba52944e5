// MSP430.
use super::cpu::*;
#[derive(Clone)]
pub struct Msp430 { pub r: [u16; 16], /* GIE before the last instruction */ late: bool }
const C: u16 = 1;
const Z: u16 = 2;
const N: u16 = 4;
const GIE: u16 = 8;
const V: u16 = 256;
enum Loc { Reg(usize), Mem(u16), Imm(u16) }
impl Msp430 {
    pub fn new() -> Self { Msp430 { r: [0; 16], late: false } }
    fn word(&mut self, m: &Mem) -> R<u16> { let v = m.fetch(self.r[0] as u64, 2)? as u16; self.r[0] = self.r[0].wrapping_add(2); Ok(v) }
    fn src(&mut self, m: &Mem, r: usize, mode: u16, byte: bool) -> R<Loc> {
        Ok(match (r, mode) {
            (3, k) => Loc::Imm([0, 1, 2, 0xffff][k as usize]),
            (2, 2) => Loc::Imm(4), (2, 3) => Loc::Imm(8),
            (_, 0) => Loc::Reg(r),
            (2, 1) => Loc::Mem(self.word(m)?),
            (0, 1) => { let at = self.r[0]; Loc::Mem(self.word(m)?.wrapping_add(at)) }
            (_, 1) => { let x = self.word(m)?; Loc::Mem(x.wrapping_add(self.r[r])) }
            (_, 2) => Loc::Mem(self.r[r]),
            (0, _) => Loc::Imm(self.word(m)?),
            _ => { let a = self.r[r]; self.r[r] = a.wrapping_add(if byte && r != 1 { 1 } else { 2 }); Loc::Mem(a) }
        })
    }
    fn get(&self, m: &mut Mem, l: &Loc, byte: bool) -> R<u16> {
        Ok(match *l { Loc::Reg(r) => if byte { self.r[r] & 0xff } else { self.r[r] }, Loc::Imm(v) => if byte { v & 0xff } else { v }, Loc::Mem(a) => m.rda(a as u64, if byte { 1 } else { 2 })? as u16 })
    }
    fn put(&mut self, m: &mut Mem, l: &Loc, byte: bool, v: u16) -> R<()> {
        match *l {
            Loc::Reg(3) => {}
            Loc::Reg(r) => { let v = if byte { v & 0xff } else { v }; self.r[r] = if r == 0 || r == 1 { v & !1 } else { v } }
            Loc::Mem(a) => m.wra(a as u64, if byte { 1 } else { 2 }, v as u64)?,
            Loc::Imm(_) => return Err("writes an immediate".into()),
        }
        Ok(())
    }
    fn flags(&mut self, v: u16, byte: bool, c: bool, ov: bool) {
        let (top, z) = if byte { (v >> 7 & 1, v & 0xff == 0) } else { (v >> 15, v == 0) };
        let mut s = self.r[2] & !(C | Z | N | V);
        if c { s |= C; } if z { s |= Z; } if top == 1 { s |= N; } if ov { s |= V; }
        self.r[2] = s;
    }
}
impl Cpu for Msp430 {
    fn pc(&self) -> u64 { self.r[0] as u64 }
    fn step(&mut self, m: &mut Mem) -> R<()> {
        let pc = self.r[0];
        // interrupts may still be taken directly after the instruction that disables them
        let gie = self.r[2] & GIE != 0;
        let i = self.word(m)?;
        let ill = || Err(format!("instruction {i:#x} at {pc:#x}"));
        match i >> 12 {
            1 => {
                if i >> 10 != 4 { return ill(); }
                let byte = i >> 6 & 1 == 1;
                let op = i >> 7 & 7;
                let l = self.src(m, (i & 15) as usize, i >> 4 & 3, byte)?;
                if op == 6 { return ill(); }
                let v = self.get(m, &l, byte)?;
                let top = if byte { 0x80 } else { 0x8000 };
                match op {
                    0 => { let c = self.r[2] & C != 0; let w = v >> 1 | if c { top } else { 0 }; self.put(m, &l, byte, w)?; self.flags(w, byte, v & 1 == 1, false); }
                    1 => self.put(m, &l, false, v.swap_bytes())?,
                    2 => { let w = v >> 1 | v & top; self.put(m, &l, byte, w)?; self.flags(w, byte, v & 1 == 1, false); }
                    3 => { let w = v as i8 as u16; self.put(m, &l, false, w)?; self.flags(w, false, w != 0, false); }
                    4 => { self.r[1] = self.r[1].wrapping_sub(2); m.wra(self.r[1] as u64, 2, v as u64)?; }
                    5 => { self.r[1] = self.r[1].wrapping_sub(2); m.wra(self.r[1] as u64, 2, self.r[0] as u64)?; self.r[0] = v & !1; }
                    _ => return ill(),
                }
            }
            2 | 3 => {
                let s = self.r[2];
                let (n, ov) = (s & N != 0, s & V != 0);
                let t = match i >> 10 & 7 { 0 => s & Z == 0, 1 => s & Z != 0, 2 => s & C == 0, 3 => s & C != 0, 4 => n, 5 => n == ov, 6 => n != ov, _ => true };
                if t { self.r[0] = self.r[0].wrapping_add((((i << 6) as i16) >> 5) as u16); }
            }
            op @ 4..=15 => {
                let byte = i >> 6 & 1 == 1;
                let s = self.src(m, (i >> 8 & 15) as usize, i >> 4 & 3, byte)?;
                let a = self.get(m, &s, byte)?;
                let d = (i & 15) as usize;
                let l = if i >> 7 & 1 == 0 { Loc::Reg(d) } else if d == 2 { Loc::Mem(self.word(m)?) } else if d == 0 { let at = self.r[0]; Loc::Mem(self.word(m)?.wrapping_add(at)) } else { let x = self.word(m)?; Loc::Mem(x.wrapping_add(self.r[d])) };
                if op == 4 { self.put(m, &l, byte, a)?; }
                else {
                    let b = if d == 3 && i >> 7 & 1 == 0 { 0 } else { self.get(m, &l, byte)? };
                    let mask: u32 = if byte { 0xff } else { 0xffff };
                    let top = (mask + 1) / 2;
                    let c = (self.r[2] & C) as u32;
                    let sum = |x: u32, y: u32, c: u32| { let w = x + y + c; (w & mask, w > mask, (x ^ w) & (y ^ w) & top != 0) };
                    let (x, y) = (b as u32, a as u32);
                    let (v, cf, ov) = match op {
                        5 => sum(x, y, 0), 6 => sum(x, y, c), 7 => sum(x, !y & mask, c), 8 | 9 => sum(x, !y & mask, 1),
                        11 | 15 => { let w = x & y; (w, w != 0, false) } 12 => (x & !y, false, false), 13 => (x | y, false, false),
                        14 => { let w = x ^ y; (w, w != 0, x & y & top != 0) } _ => return ill(),
                    };
                    if op != 9 && op != 11 { self.put(m, &l, byte, v as u16)?; }
                    if op != 12 && op != 13 && !(d == 2 && i >> 7 & 1 == 0 && op != 9 && op != 11) { self.flags(v as u16, byte, cf, ov); }
                }
            }
            _ => return ill(),
        }
        self.late = gie;
        Ok(())
    }
    fn call(&mut self, m: &mut Mem, pc: u64) { self.r[0] = pc as u16; self.r[1] = self.r[1].wrapping_sub(2); let _ = m.wr(self.r[1] as u64, 2, RET & 0xffff); self.late = false; }
    fn exit(&self) -> u64 { RET & 0xffff }
    fn sp(&self) -> u64 { self.r[1] as u64 }
    fn set_sp(&mut self, sp: u64) { self.r[1] = sp as u16; }
    fn irq(&self, _fast: bool) -> bool { self.r[2] & GIE != 0 || self.late }
    fn enter(&mut self, _fast: bool) { self.r[2] &= !(GIE | 0x70 | C | Z | N | V); self.late = false; }
    fn status(&self) -> u64 { (self.r[2] & !(C | Z | N | V)) as u64 }
    fn set_status(&mut self, masked: bool, rnd: u64) { self.r[2] = self.r[2] & (C | Z | N | V) | (rnd as u16 & 0xe0) | if masked { 0 } else { GIE }; self.late = false; }
    fn boxed(&self) -> Box<dyn Cpu> { Box::new(self.clone()) }
    fn ptr_bits(&self) -> u32 { 16 }
}

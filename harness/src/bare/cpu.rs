// What the drivers need of an emulated processor, and the memory it sees.
pub struct Mem { pub b: Vec<u8>, pub code: Vec<u8>, pub touched: Option<Vec<(u32, u32, bool)>> }
pub type R<T> = Result<T, String>;
impl Mem {
    fn at(&mut self, a: u64, n: usize, write: bool) -> R<usize> {
        if a < 16 || a as usize + n > self.b.len() || a > 0xffff_ffff { return Err(format!("access to address {a:#x}")); }
        if let Some(t) = &mut self.touched { t.push((a as u32, n as u32, write)); }
        Ok(a as usize)
    }
    pub fn rd(&mut self, a: u64, n: usize) -> R<u64> {
        let i = self.at(a, n, false)?;
        let mut x = [0u8; 8];
        x[..n].copy_from_slice(&self.b[i..i + n]);
        Ok(u64::from_le_bytes(x))
    }
    pub fn wr(&mut self, a: u64, n: usize, v: u64) -> R<()> {
        let i = self.at(a, n, true)?;
        self.b[i..i + n].copy_from_slice(&v.to_le_bytes()[..n]);
        Ok(())
    }
    /// Aligned, as the machine requires.
    pub fn rda(&mut self, a: u64, n: usize) -> R<u64> { if a % n as u64 != 0 { return Err(format!("misaligned access to {a:#x}")); } self.rd(a, n) }
    pub fn wra(&mut self, a: u64, n: usize, v: u64) -> R<()> { if a % n as u64 != 0 { return Err(format!("misaligned access to {a:#x}")); } self.wr(a, n, v) }
    pub fn fetch(&self, a: u64, n: usize) -> R<u32> {
        let c = if self.code.is_empty() { &self.b } else { &self.code };
        if a as usize + n > c.len() || a == 0 && n == 4 { return Err(format!("execution at {a:#x}")); }
        let mut x = [0u8; 4];
        x[..n].copy_from_slice(&c[a as usize..a as usize + n]);
        Ok(u32::from_le_bytes(x))
    }
}

pub trait Cpu {
    fn pc(&self) -> u64;
    fn step(&mut self, m: &mut Mem) -> R<()>;
    /// Prepares a call of the function at `pc`, which returns to RET.
    fn call(&mut self, m: &mut Mem, pc: u64);
    fn sp(&self) -> u64;
    fn set_sp(&mut self, sp: u64);
    /// Would an interrupt be taken before the next instruction?
    fn irq(&self, fast: bool) -> bool;
    /// The hardware's part of taking it.
    fn enter(&mut self, fast: bool);
    /// The interrupt state and everything else that belongs to the surrounding program's mode.
    fn status(&self) -> u64;
    fn set_status(&mut self, masked: bool, rnd: u64);
    fn boxed(&self) -> Box<dyn Cpu>;
    fn ptr_bits(&self) -> u32;
    /// Another processor of the same machine wrote here.
    fn snoop(&mut self, _a: u64, _n: u64) {}
    fn exit(&self) -> u64 { RET }
    /// The registers, for a log of what is executed.
    fn regs(&self) -> &[u64] { &[] }
}
pub const RET: u64 = 0xffff_fff0;

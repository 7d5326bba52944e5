// A guest program run by qemu, spoken to through pipes.
use super::*;
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::process::{Child as Proc, ChildStdin, ChildStdout, Command, Stdio};
pub struct Child { p: Proc, i: ChildStdin, o: ChildStdout, big: bool, gdb: Option<Gdb> }
/// The debugger's side of qemu: steps the guest, and is the other processor that writes to its memory.
struct Gdb { s: UnixStream, run: u64, send: u64, arena: u64, pc: (usize, usize), big: bool, trace: Vec<u64>, steps: bool, plan: Option<(Option<u64>, bool, u64, usize, *mut dyn FnMut(&mut [u8]))> }
impl Gdb {
    fn put(&mut self, c: &str) { let k = c.bytes().fold(0u8, |a, b| a.wrapping_add(b)); let _ = self.s.write_all(format!("${c}#{k:02x}").as_bytes()); }
    fn get(&mut self) -> Result<String, String> {
        let mut out = vec![];
        let mut b = [0u8; 1];
        loop {
            if self.s.read_exact(&mut b).is_err() { return Err("the debugger's connection ended".into()); }
            match b[0] { b'$' => out.clear(), b'+' => {} b'#' => break, x => out.push(x) }
        }
        let mut k = [0u8; 2];
        if self.s.read_exact(&mut k).and_then(|_| self.s.write_all(b"+")).is_err() { return Err("the debugger's connection ended".into()); }
        Ok(String::from_utf8_lossy(&out).into_owned())
    }
    fn ask(&mut self, c: &str) -> Result<String, String> { self.put(c); self.get() }
    fn hex(t: &str) -> Vec<u8> { (0..t.len() / 2).map(|k| u8::from_str_radix(&t[2 * k..2 * k + 2], 16).unwrap_or(0)).collect() }
    fn stopped(&mut self) -> Result<u64, String> {
        let r = self.get()?;
        if !r.starts_with("T05") && !r.starts_with("S05") { return Err(format!("the guest ended: {r}")); }
        let g = Self::hex(&self.ask("g")?);
        Ok(get(&g[self.pc.0..], self.pc.1, self.big) as u64)
    }
    fn stop_at(&mut self, a: u64, on: bool) -> Result<(), String> { self.ask(&format!("{}0,{a:x},{}", if on { 'Z' } else { 'z' }, 4)).map(|_| ()) }
    fn step(&mut self) -> Result<u64, String> { self.put("s"); self.stopped() }
    fn is_stop(&self, a: u64) -> bool { a == self.run || a == self.send }
    /// On from `a` to the next stop (`also`: one more place that is one).
    fn on(&mut self, a: u64, also: Option<u64>) -> Result<u64, String> {
        let here = self.is_stop(a);
        if here { self.stop_at(a, false)?; }
        let b = self.step()?;
        if here { self.stop_at(a, true)?; }
        if self.is_stop(b) || also == Some(b) { return Ok(b); }
        if let Some(x) = also { self.stop_at(x, true)?; }
        self.put("c");
        let r = self.stopped();
        if let Some(x) = also { self.stop_at(x, false)?; }
        r
    }
    fn meddle(&mut self, at: u64, n: usize, f: *mut dyn FnMut(&mut [u8])) -> Result<(), String> {
        let old = self.ask(&format!("m{at:x},{n:x}"))?;
        let mut v = Self::hex(&old);
        if v.len() != n { return Err(format!("the debugger reads {old}")); }
        unsafe { (*f)(&mut v) };
        let t: String = v.iter().map(|b| format!("{b:02x}")).collect();
        if self.ask(&format!("M{at:x},{n:x}:{t}"))? != "OK" { return Err("the debugger cannot write".into()); }
        Ok(())
    }
    /// From the request to right before the answer.
    fn through(&mut self) -> Result<(), String> {
        let mut pc = self.stopped()?;
        while pc != self.send {
            if pc == self.run {
                match self.plan.take() {
                    None => {}
                    Some((None, ..)) => {
                        self.trace.clear();
                        self.stop_at(self.run, false)?;
                        while pc != self.send {
                            self.trace.push(pc);
                            // (stops may make a reservation end: a loop is left at full speed, to the instruction behind it)
                            let seen: Vec<usize> = (0..self.trace.len()).filter(|&k| self.trace[k] == pc).collect();
                            if seen.len() < 3 || self.steps && self.trace.len() < 4000 { pc = self.step()?; continue; }
                            let end = self.trace[seen[seen.len() - 2]..].iter().max().unwrap() + 4;
                            pc = self.on(pc, Some(end))?;
                        }
                        self.stop_at(self.run, true)?;
                        continue;
                    }
                    Some((Some(k), again, at, n, f)) => {
                        let to = self.trace[k as usize];
                        let mut left = self.trace[..k as usize].iter().filter(|&&x| x == to).count() + (k > 0) as usize;
                        if self.is_stop(to) { left = 0; }
                        while left > 0 && pc != self.send { pc = self.on(pc, Some(to))?; if pc == to { left -= 1; } }
                        if pc == to {
                            self.meddle(at, n, f)?;
                            if again && pc != self.send { pc = self.on(pc, Some(to))?; if pc == to { self.meddle(at, n, f)?; } }
                        }
                        if pc == self.send { continue; }
                    }
                }
            }
            pc = self.on(pc, None)?;
        }
        self.stop_at(pc, false)?;
        self.step()?;
        self.stop_at(pc, true)?;
        self.put("c");
        Ok(())
    }
}
const REST: usize = 64 + ARENA;
impl Child {
    /// `machine`: "qemu:<program and arguments, separated by blanks>"; big-endian ones start with "qemu!".
    pub fn start(path: &str, machine: &str, debug: bool) -> Child {
        let big = machine.starts_with("qemu!");
        let mut w = machine[5..].split(' ');
        let mut c = Command::new(w.next().unwrap());
        for a in w { c.arg(a); }
        let sock = std::env::temp_dir().join(format!("pa-gdb-{}", std::process::id()));
        if debug { c.arg("-g").arg(&sock); }
        let mut p = c.arg(path).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| { eprintln!("{machine}: {e}"); std::process::exit(2) });
        let (i, o) = (p.stdin.take().unwrap(), p.stdout.take().unwrap());
        let mut gdb = None;
        if debug {
            let t0 = std::time::Instant::now();
            let s = loop {
                match UnixStream::connect(&sock) { Ok(s) => break s, Err(e) if t0.elapsed().as_secs() > 20 => { eprintln!("{machine}: no debugger: {e}"); std::process::exit(2) } _ => std::thread::sleep(std::time::Duration::from_millis(5)) }
            };
            let _ = std::fs::remove_file(&sock);
            let (_, syms) = elf(path);
            let y = |n: &str| syms.get(n).copied().unwrap_or_else(|| { eprintln!("{path}: no symbol {n}"); std::process::exit(2) });
            // where the program counter is among the registers
            let pc = match machine[5..].split(' ').next().unwrap().trim_start_matches("qemu-") {
                "s390x" => (8, 8), "ppc64" | "ppc64le" => (256, 8), "aarch64" | "aarch64_be" => (256, 8), "arm" => (60, 4), "mips" => (148, 4), "loongarch64" => (264, 8), "sparc64" => (512, 8), "riscv64" => (256, 8), "riscv32" => (128, 4), "x86_64" => (128, 8), "i386" => (32, 4),
                m => panic!("registers of {m}"),
            };
            let mut g = Gdb { s, run: y("pa_run"), send: y("pa_send"), arena: y("PA_ARENA"), pc, big, trace: vec![], steps: machine.contains("86"), plan: None };
            let go = || -> Result<(), String> { let (run, send) = (g.run, g.send); g.stop_at(run, true)?; g.stop_at(send, true)?; g.put("c"); gdb = Some(g); Ok(()) };
            if let Err(e) = go() { eprintln!("{machine}: {e}"); std::process::exit(2); }
        }
        Child { p, i, o, big, gdb }
    }
    fn turn(&mut self, tag: u8, ctx: &mut [u8; 64], arena: &mut [u8; ARENA]) -> Result<u8, String> {
        let mut m = [0u8; 1 + REST];
        m[0] = tag;
        m[1..65].copy_from_slice(ctx);
        m[65..].copy_from_slice(arena);
        let dead = |s: &mut Self| { let _ = s.p.kill(); format!("the guest ended: {:?}", s.p.wait().ok()) };
        if self.i.write_all(&m).and_then(|_| self.i.flush()).is_err() { return Err(dead(self)); }
        if let Some(g) = &mut self.gdb { if let Err(e) = g.through() { return Err(dead(self) + ": " + &e); } }
        if self.o.read_exact(&mut m).is_err() { return Err(dead(self)); }
        ctx.copy_from_slice(&m[1..65]);
        arena.copy_from_slice(&m[65..]);
        Ok(m[0])
    }
}
impl Guest for Child {
    fn call(&mut self, ctx: &mut [u8; 64], arena: &mut [u8; ARENA], inj: &mut dyn FnMut(&[u8; 64], &mut [u8; ARENA])) -> Result<(), String> {
        let mut tag = b'C';
        loop {
            match self.turn(tag, ctx, arena)? {
                b'R' => return Ok(()),
                b'P' => return Err("panic".into()),
                b'B' => { let c = *ctx; nested(self as *mut Child, &mut || inj(&c, arena)); tag = b'K'; }
                t => return Err(format!("answer {t}")),
            }
        }
    }
    fn big(&self) -> bool { self.big }
    fn with(&mut self, ctx: &mut [u8; 64], arena: &mut [u8; ARENA], lo: usize, n: usize, at: Option<u64>, again: bool, other: &mut dyn FnMut(&mut [u8])) -> Result<u64, String> {
        let f: *mut (dyn FnMut(&mut [u8]) + '_) = other;
        let g = self.gdb.as_mut().expect("started for this");
        g.plan = Some((at, again, g.arena + lo as u64, n, unsafe { core::mem::transmute::<*mut (dyn FnMut(&mut [u8]) + '_), *mut (dyn FnMut(&mut [u8]) + 'static)>(f) }));
        self.call(ctx, arena, &mut |_, _| {})?;
        Ok(self.gdb.as_ref().unwrap().trace.len() as u64)
    }
}
impl Drop for Child { fn drop(&mut self) { let _ = self.p.kill(); let _ = self.p.wait(); } }

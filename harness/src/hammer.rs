//! Two threads applying read-modify-writes to one atomic as fast as they can while a third only looks.
//! Each returned old value together with the operation gives one edge old -> new; all operations are
//! explained by some order exactly if the edges form a path from the initial to the final value
//! (spec/OpsTrace.tla ChainRow).  Edges are counted, so a run of any length is one row.
use crate::lit::{arena, cell_at, put};
use crate::ops::*;
use crate::rng::Rng;
use crate::seq::{arg_json, kind, limbs};
use core::sync::atomic::Ordering;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::*};

type Edge = (Op, u128, u128, Ret);

fn values(i: &Info) -> (u128, u128, u128) {
    // x, y: two operands; z: the initial value. Both halves of wide values change.
    let p = |k: u8| u128::from_le_bytes([k; 16]) & i.mask();
    match i.kind {
        Kind::Bool => (1, 0, 0),
        Kind::Float => { let m = match i.bits { 16 => 10, 32 => 23, 64 => 52, _ => 112 }; let e = i.bits - m - 1; let one = ((1u128 << (e - 1)) - 1) << m; (one, one | 1 << (i.bits - 1), 0) }
        Kind::Ptr => (0x1_0000_0001 & i.mask(), p(2), 0),
        _ => (p(1), p(2), 0),
    }
}
/// (initial value, operation and arguments of each thread)
fn jobs(c: &dyn Cell, i: &Info) -> Vec<(u128, (Op, u128, u128), (Op, u128, u128))> {
    let (x, y, z) = values(i);
    let m = i.mask();
    let top = i.bits as u128 - 1;
    let far = if i.bits == 128 { u64::MAX as u128 } else { x };
    let mut v = vec![
        (z, (Swap, x, 0), (Swap, y, 0)), (z, (Cas, z, x), (Cas, x, z)), (z, (CasW, z, x), (CasW, x, z)), (z, (Cas, z, x), (Swap, z, 0)),
        (z, (Upd, x, m & !1), (Swap, y, 0)), (z, (Swap, x, 0), (Store, y, 0)), (z, (Store, x, 0), (Store, y, 0)),
    ];
    if i.kind == Kind::Float {
        v.extend([(z, (Add, x, 0), (Add, y, 0)), (z, (Max, x, 0), (Min, y, 0)), (x, (Neg, 0, 0), (Neg, 0, 0)), (y, (Neg, 0, 0), (Abs, 0, 0)), (x, (Sub, x, 0), (Add, x, 0))]);
    } else {
        v.extend([(z, (Or, x, 0), (And, m & !x, 0)), (z, (Xor, x, 0), (Xor, (y | 2) & m, 0)), (z, (Nand, x, 0), (Nand, m, 0)), (z, (Nand, m, 0), (Xor, x, 0)),
            (z, (Not, 0, 0), (Not, 0, 0)), (z, (Not, 0, 0), (Xor, x, 0)), (z, (Add, x, 0), (Sub, x, 0)), (z, (Add, far, 0), (Sub, far, 0)), (x, (Neg, 0, 0), (Neg, 0, 0)), (far, (Neg, 0, 0), (Neg, 0, 0)),
            (z, (Max, x, 0), (Min, z, 0)), (z, (Max, y, 0), (And, x, 0)), (z, (Min, x, 0), (Or, y | m ^ (m >> 1), 0)),
            (z, (BitSet, 0, 0), (BitClear, 0, 0)), (z, (BitSet, top, 0), (BitClear, top, 0)), (z, (BitToggle, 0, 0), (BitToggle, top, 0)), (z, (BitToggle, top / 2, 0), (BitSet, 1 % (top + 1), 0)),
            (z, (PAdd, 1, 0), (PSub, 1, 0)), (z, (BAdd, far, 0), (BSub, far, 0)),
            // without a result: commuting operations, so that the count alone fixes the end
            (z, (NAdd, far, 0), (NSub, far, 0)), (z, (NNot, 0, 0), (NNot, 0, 0)), (z, (NXor, x, 0), (NXor, y, 0)), (z, (NXor, x, 0), (NNot, 0, 0)), (x, (NNeg, 0, 0), (NNeg, 0, 0)),
            (z, (NOr, x, 0), (NOr, y, 0)), (m, (NAnd, x, 0), (NAnd, y | 1, 0))]);
    }
    v.retain(|j| c.supports(j.1 .0) && c.supports(j.2 .0));
    v
}

pub fn run(types: &str, n: u64, seed: u64) {
    let base = arena();
    let mut rng = Rng::new(seed ^ 0x4a);
    let ords = [Ordering::Relaxed, Ordering::Acquire, Ordering::Release, Ordering::AcqRel, Ordering::SeqCst];
    for ty in types.split(',') {
        let probe = crate::ops::by_name(ty).unwrap_or_else(|| panic!("no type {ty}"));
        let info = probe.info();
        for (init, a, b) in jobs(&*probe, &info) {
            base.0[..256].fill(0xA5);
            let off = 64 + rng.below(4) * 16;
            let cell = cell_at(ty, unsafe { base.0.as_mut_ptr().add(off) });
            unsafe { put(cell, init) };
            let go = AtomicU32::new(0);
            let stop = AtomicU32::new(0);
            let tight = a.0 == Store || rng.below(4) == 0;
            let (oa, ob) = (ords[rng.below(5)], ords[rng.below(5)]);
            let fix = |op: Op, o: Ordering| if op == Store && !matches!(o, Ordering::Relaxed | Ordering::Release | Ordering::SeqCst) { Ordering::Release } else { o };
            // Each thread alternates the two operations, out of step with the other, so that values stay few.
            let work = |j: [(Op, u128, u128); 2], o: Ordering| -> BTreeMap<Edge, u64> {
                let mut seen: Vec<(u64, Ret, u64)> = vec![];
                let mut all: BTreeMap<Edge, u64> = BTreeMap::new();
                go.fetch_add(1, AcqRel);
                while go.load(Acquire) < 2 { std::hint::spin_loop(); }
                for k in 0..n {
                    let (op, x, y) = j[(k & 1) as usize];
                    let r = cell.call(op, x, y, fix(op, o), Ordering::Relaxed);
                    if let Some(e) = seen.iter_mut().find(|e| e.0 == k & 1 && e.1 == r) { e.2 += 1; continue; }
                    if seen.len() < 24 { seen.push((k & 1, r, 1)); } else { *all.entry((op, x, y, r)).or_default() += 1; }
                }
                stop.fetch_add(1, AcqRel);
                for (w, r, k) in seen { let (op, x, y) = j[w as usize]; *all.entry((op, x, y, r)).or_default() += k; }
                all
            };
            let (ea, eb, looks) = std::thread::scope(|s| {
                let ta = s.spawn(|| work([a, b], oa));
                let tb = s.spawn(|| work([b, a], ob));
                let tl = s.spawn(|| {
                    let mut seen: Vec<u128> = vec![];
                    let mut look = |v: u128| if !seen.contains(&v) && seen.len() < 200 { seen.push(v); };
                    let (f, p) = (cell.fast(Load, Ordering::Acquire), cell.raw_ptr());
                    while stop.load(Acquire) < 2 {
                        match f {
                            Some(f) => for _ in 0..16 { look(f(p, 0)); },
                            None => if let Ret::V(v) = cell.call(Load, 0, 0, Ordering::Acquire, Ordering::Relaxed) { look(v) },
                        }
                        if !tight && n > 500 { std::thread::yield_now(); }
                    }
                    seen
                });
                (ta.join().unwrap(), tb.join().unwrap(), tl.join().unwrap())
            });
            let fin = match cell.call(Load, 0, 0, Ordering::SeqCst, Ordering::SeqCst) { Ret::V(v) => v, _ => 0 };
            let size = (info.bits as usize + 7) / 8;
            let g = (0..256).all(|k| k >= off && k < off + size || base.0[k] == 0xA5);
            let mut edges = ea;
            for (e, k) in eb { *edges.entry(e).or_default() += k; }
            let es: Vec<String> = edges.iter().map(|((op, x, y, r), k)| format!("{{\"op\":\"{}\",\"a\":{},\"b\":{},{},\"x\":{},\"n\":{k}}}", op.name(), arg_json(*op, *x, &info), if op.arity() == 2 { limbs(*y, &info) } else { "[]".into() }, crate::seq::ret_json(*r, &info), match r { Ret::V(v) if info.kind == Kind::Float => limbs(float_oracle(info.name, *op, *v, *x), &info), _ => "[]".into() })).collect();
            let ls: Vec<String> = looks.iter().map(|v| limbs(*v, &info)).collect();
            println!("{{\"q\":\"chain\",\"t\":\"{ty}\",\"w\":{},\"K\":\"{}\",\"z\":{},\"c\":{},\"n\":{},\"g\":{},\"edges\":[{}],\"looks\":[{}],\"stores\":{}}}",
                info.bits, kind(&info), info.size_of, limbs(init, &info), limbs(fin, &info), g as u8, es.join(","), ls.join(","), (a.0 == Store || b.0 == Store) as u8);
        }
    }
}

//! Random differential test of the expression simplifier: every constructor is compared with
//! arithmetic on concrete values.

use crate::expr::*;
use crate::solver::Model;
use std::collections::HashMap;

pub fn run(rounds: u64, seed: u64) -> Result<u64, String> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let mut n = 0;
    for _ in 0..rounds {
        let mut a = Arena::new();
        let mut m = Model::default();
        let mut pool: Vec<(E, u128)> = vec![];
        for (i, w) in [1u8, 8, 8, 8, 8, 16, 32, 64, 64].into_iter().enumerate() {
            let e = a.var(w, "x");
            let v = match rnd() % 4 {
                0 => rnd() as u128,
                1 => (rnd() % 4) as u128,
                2 => u128::MAX - (rnd() % 4) as u128,
                _ => 1u128 << (rnd() % w as u64),
            } & mask(w);
            m.vars.insert(i as u32, v);
            pool.push((e, v));
        }
        for _ in 0..60 {
            let (p, pv) = pool[rnd() as usize % pool.len()];
            let w = a.w(p);
            // an operand of the same width
            let same: Vec<(E, u128)> = pool.iter().copied().filter(|q| a.w(q.0) == w).collect();
            let (q, qv) = if rnd() % 3 == 0 {
                let v = match rnd() % 4 {
                    0 => rnd() as u128,
                    1 => (rnd() % 20) as u128,
                    2 => mask((rnd() % w as u64) as u8 + 1),
                    _ => 1u128 << (rnd() % w as u64),
                } & mask(w);
                (a.c(w, v), v)
            } else {
                same[rnd() as usize % same.len()]
            };
            let k = mask(w);
            let (e, v) = match rnd() % 22 {
                0 | 1 | 2 => (a.add(p, q), pv.wrapping_add(qv) & k),
                3 => (a.sub(p, q), pv.wrapping_sub(qv) & k),
                4 => {
                    let c = 1u64 << (rnd() % w as u64);
                    (a.mul_const(p, c), pv.wrapping_mul(c as u128) & k)
                }
                5 => (a.mul(p, q), pv.wrapping_mul(qv) & k),
                6 => (a.and(p, q), pv & qv),
                7 | 8 => (a.or(p, q), pv | qv),
                9 => (a.xor(p, q), pv ^ qv),
                10 if w == 1 => (a.not(p), !pv & k),
                10 => continue,
                11 | 12 => {
                    let s = rnd() as u8 % w;
                    let sc = a.c(w, s as u128);
                    if (s as u128) > k {
                        continue;
                    }
                    match rnd() % 3 {
                        0 => (a.bin(BinOp::Shl, p, sc), (pv << s) & k),
                        1 => (a.bin(BinOp::LShr, p, sc), pv >> s),
                        _ => (a.bin(BinOp::AShr, p, sc), (sext_val(pv, w) >> s) as u128 & k),
                    }
                }
                13 | 14 => {
                    let (r, rv) = pool[rnd() as usize % pool.len()];
                    let w2 = a.w(r);
                    if w + w2 > 64 {
                        continue;
                    }
                    (a.concat(p, r), pv << w2 | rv)
                }
                15 => {
                    let lo = rnd() as u8 % w;
                    let n = 1 + rnd() as u8 % (w - lo);
                    (a.extract(p, lo, n), pv >> lo & mask(n))
                }
                16 | 17 => {
                    let w2 = [8u8, 16, 32, 64][rnd() as usize % 4];
                    if w2 < w {
                        continue;
                    }
                    if rnd() % 3 == 0 {
                        (a.sext(p, w2), sext_val(pv, w) as u128 & mask(w2))
                    } else {
                        (a.zext(p, w2), pv)
                    }
                }
                18 => {
                    let cs: Vec<(E, u128)> = pool.iter().copied().filter(|q| a.w(q.0) == 1).collect();
                    let (c, cv) = cs[rnd() as usize % cs.len()];
                    (a.ite(c, p, q), if cv == 1 { pv } else { qv })
                }
                19 => (a.eq(p, q), (pv == qv) as u128),
                20 => (a.ult(p, q), (pv < qv) as u128),
                _ => (a.slt(p, q), (sext_val(pv, w) < sext_val(qv, w)) as u128),
            };
            let mut memo = HashMap::new();
            let got = m.eval(&a, e, &mut memo);
            n += 1;
            if got != v {
                return Err(format!("{} evaluates to {:x}, not {:x}\n  from {} and {}", a.show(e, 9), got, v, a.show(p, 9), a.show(q, 9)));
            }
            let r = a.range(e);
            if v < r.0 || v > r.1 {
                return Err(format!("{} = {:x} outside of {:x?}", a.show(e, 9), v, r));
            }
            pool.push((e, v));
        }
    }
    Ok(n)
}

//! C20: ValueAllocator vs a plain set of free integers.
#[path = "../sx.rs"]
#[macro_use]
mod sx;
#[cfg(feature = "native")]
#[path = "../native.rs"]
mod native;
use mqtt_protocol_core::mqtt::ValueAllocator;

/// Oracle: the set of used values as slots (value, active); all queries are branch-free so that the whole
/// comparison stays one symbolic expression.
macro_rules! gen {
    ($m:ident, $t:ty, $sym:expr) => {
        mod $m {
            use super::*;
            struct Set {
                lo: $t,
                hi: $t,
                u: Vec<($t, u8)>,
            }
            impl Set {
                fn in_range(&self, v: $t) -> bool {
                    (v >= self.lo) & (v <= self.hi)
                }
                fn used(&self, v: $t) -> bool {
                    let mut r = false;
                    for (x, a) in &self.u {
                        r |= (*a == 1) & (*x == v);
                    }
                    r
                }
                fn free(&self, v: $t) -> bool {
                    self.in_range(v) & !self.used(v)
                }
                /// nothing is free. (The smallest free value, if any, is lo or the successor of a used value.)
                fn full(&self) -> bool {
                    let mut r = !self.free(self.lo);
                    for (x, a) in &self.u {
                        r &= !((*a == 1) & (*x < self.hi) & !self.used((*x).wrapping_add(1)));
                    }
                    r
                }
                /// v is the smallest free value
                fn is_smallest(&self, v: $t) -> bool {
                    let mut r = self.free(v) & ((v == self.lo) | !self.free(self.lo));
                    for (x, a) in &self.u {
                        let c = (*x).wrapping_add(1);
                        r &= !((*a == 1) & (*x < self.hi) & (c < v) & !self.used(c));
                    }
                    r
                }
                fn add(&mut self, v: $t) {
                    self.u.push((v, 1));
                }
                fn del(&mut self, v: $t) {
                    for (x, a) in self.u.iter_mut() {
                        *a &= (*x != v) as u8;
                    }
                }
                /// number of maximal runs of free values
                fn runs(&self) -> usize {
                    let mut n = self.free(self.lo) as usize;
                    for (x, a) in &self.u {
                        n += ((*a == 1) & (*x < self.hi) & self.free((*x).wrapping_add(1))) as usize;
                    }
                    n
                }
            }
            fn audit(a: &ValueAllocator<$t>, s: &Set) {
                sx::check(a.interval_count() == s.runs(), "interval count equals number of maximal free runs");
                match a.first_vacant() {
                    None => sx::check(s.full(), "first_vacant is None only when nothing is free"),
                    Some(v) => sx::check(s.is_smallest(v), "first_vacant is the smallest free value"),
                }
            }
            fn step(a: &mut ValueAllocator<$t>, s: &mut Set) {
                match sx::choose(4) {
                    0 => match a.allocate() {
                        None => {
                            sx::reach("allocate none");
                            sx::check(s.full(), "allocate returns None only when nothing is free")
                        }
                        Some(v) => {
                            sx::reach("allocate some");
                            sx::obs(1, v as u64);
                            sx::check(s.is_smallest(v), "allocate returns the smallest free value");
                            s.add(v);
                        }
                    },
                    1 => {
                        let v: $t = $sym();
                        let f = s.free(v);
                        let r = a.use_value(v);
                        sx::obs(2, r as u64);
                        sx::check(r == f, "use_value succeeds exactly for free values");
                        if r {
                            sx::reach("use_value ok");
                            s.add(v);
                        } else {
                            sx::reach("use_value refused");
                        }
                    }
                    2 => {
                        let v: $t = $sym();
                        sx::assume(s.in_range(v));
                        let was = s.used(v);
                        a.deallocate(v);
                        s.del(v);
                        if was {
                            sx::reach("release used");
                        } else {
                            sx::reach("release free");
                        }
                    }
                    _ => {
                        a.clear();
                        s.u.clear();
                    }
                }
            }
            fn finish(a: ValueAllocator<$t>, s: Set) {
                let q: $t = $sym();
                let r = a.is_used(q);
                sx::obs(3, r as u64);
                sx::check(r == (s.in_range(q) & s.used(q)), "is_used: true exactly for in-range values that are not free");
                std::mem::forget((a, s));
            }
            /// arbitrary range, k arbitrary operations from the initial state
            pub fn ops() {
                sx::expect(&["allocate none", "allocate some", "use_value ok", "use_value refused", "release used", "release free"]);
                let k = sx::param(0);
                let lo: $t = $sym();
                let hi: $t = $sym();
                sx::assume(lo <= hi);
                let mut a = ValueAllocator::<$t>::new(lo, hi);
                let mut s = Set { lo, hi, u: Vec::with_capacity(k as usize) };
                for _ in 0..k {
                    step(&mut a, &mut s);
                    audit(&a, &s);
                }
                finish(a, s);
            }
            /// many intervals (several B-tree nodes): every second value of a range used, then k arbitrary operations
            pub fn wide() {
                let k = sx::param(0);
                let n = sx::param(1) as $t;
                let lo: $t = 3;
                let hi: $t = lo + 2 * n;
                let mut a = ValueAllocator::<$t>::new(lo, hi);
                let mut s = Set { lo, hi, u: Vec::with_capacity(n as usize + k as usize) };
                for i in 0..n {
                    let v = lo + 1 + 2 * i;
                    sx::check(a.use_value(v), "use_value of a free value");
                    s.add(v);
                }
                audit(&a, &s);
                for _ in 0..k {
                    step(&mut a, &mut s);
                    audit(&a, &s);
                }
                finish(a, s);
            }
        }
    };
}
gen!(t8, u8, sx::u8);
gen!(t16, u16, sx::u16);
gen!(t32, u32, sx::u32);
gen!(s8, i8, || sx::u8() as i8);
gen!(s16, i16, || sx::u16() as i16);

entries! {
    h_u8 => t8::ops, h_u16 => t16::ops, h_u32 => t32::ops, h_i8 => s8::ops, h_i16 => s16::ops,
    h_w16 => t16::wide, h_w8 => t8::wide, h_w32 => t32::wide, h_wi8 => s8::wide, h_wi16 => s16::wide,
}

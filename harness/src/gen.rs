//! Shared generators.

use std::collections::{BTreeMap, BTreeSet};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::model::{self, Fill, Tree, B32, H};

/// Numbers: uniform, limits, small, powers of two, any length in bits.
pub fn num64() -> BoxedStrategy<u64> {
    prop_oneof![
        8 => any::<u64>(),
        1 => Just(0u64),
        1 => Just(u64::MAX),
        2 => 0u64..=300,
        1 => (0u32..64).prop_map(|b| 1 << b),
        1 => (0u32..64).prop_map(|b| (1 << b) - 1),
        2 => (any::<u64>(), 0u32..64).prop_map(|(x, b)| x >> b),
        1 => (any::<u64>(), 0u32..64).prop_map(|(x, b)| x << b),
    ]
    .boxed()
}

/// 32 bytes: uniform, small numbers, repeated bytes, all bits set.
pub fn b32() -> BoxedStrategy<B32> {
    prop_oneof![
        6 => any::<[u64; 4]>().prop_map(|w| {
            let mut h = [0u8; 32];
            for i in 0..4 {
                h[i * 8..i * 8 + 8].copy_from_slice(&w[i].to_le_bytes());
            }
            B32(h)
        }),
        1 => any::<u16>().prop_map(|x| B32(model::u256_le(x as u64))),
        1 => prop_oneof![Just(0u8), Just(0xFFu8), any::<u8>()].prop_map(|x| B32([x; 32])),
        1 => (any::<u64>(), 0usize..25).prop_map(|(x, at)| {
            let mut h = [0u8; 32];
            h[at..at + 8].copy_from_slice(&x.to_le_bytes()[..8]);
            B32(h)
        }),
    ]
    .boxed()
}

pub fn uni32() -> BoxedStrategy<B32> {
    any::<[u64; 4]>()
        .prop_map(|w| {
            let mut h = [0u8; 32];
            for i in 0..4 {
                h[i * 8..i * 8 + 8].copy_from_slice(&w[i].to_le_bytes());
            }
            B32(h)
        })
        .boxed()
}

/// A message placed at a chosen slot of a tree.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LeafSpec {
    /// How the slot is selected.
    pub mode: u8,
    pub arg: u32,
    /// The protocol id is the number closest to this which belongs to the slot.
    pub base: B32,
    pub msg: B32,
}

impl LeafSpec {
    pub fn pid(&self, pos: u32, m: u32) -> H { model::mk_pid(pos, m, &self.base.0) }
}

pub fn leaf_spec() -> BoxedStrategy<LeafSpec> {
    (
        prop_oneof![4 => Just(0u8), 3 => Just(1u8), 3 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)],
        any::<u32>(),
        b32(),
        b32(),
    )
        .prop_map(|(mode, arg, base, msg)| LeafSpec { mode, arg, base, msg })
        .boxed()
}

/// A tree of any depth with any cofactor (not necessarily the one a search would choose).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TreeSpec {
    pub depth: u8,
    pub cofactor: u16,
    pub opaque: bool,
    pub fill: u64,
    pub leaves: Vec<LeafSpec>,
}

impl TreeSpec {
    /// Builds the model; leaves with occupied slots or repeated protocol ids are dropped.
    pub fn build(&self) -> Tree {
        let m = model::factored(self.depth, self.cofactor);
        let mut leaves: BTreeMap<u32, (H, H)> = BTreeMap::new();
        let mut prev = 0u32;
        for l in &self.leaves {
            let pos = match l.mode {
                0 => l.arg % m,
                1 => (prev as u64 + 1 + (l.arg % 3) as u64) as u32 % m,
                2 => (prev ^ (1u32 << (l.arg % self.depth.max(1) as u32))) % m,
                3 => m - 1 - (l.arg % 3).min(m - 1),
                _ => (l.arg % 3) % m,
            };
            prev = pos;
            let pid = l.pid(pos, m);
            debug_assert_eq!(model::mod_le(&pid, m), pos);
            // Messages equal to the id, or with all bits equal
            let msg = match l.arg >> 27 {
                0 => pid,
                1 => [0; 32],
                2 => [0xFF; 32],
                _ => l.msg.0,
            };
            leaves.entry(pos).or_insert((pid, msg));
        }
        Tree {
            depth: self.depth,
            cofactor: self.cofactor,
            leaves,
            fill: if self.opaque { Fill::Opaque(self.fill) } else { Fill::Entropy(self.fill) },
        }
    }
}

pub fn cofactor(depth: u8) -> BoxedStrategy<u16> {
    let w = model::width(depth.min(16)).min(65535) as u16;
    prop_oneof![
        3 => Just(0u16),
        2 => 0u16..=8,
        2 => 0..=w.saturating_sub(1).min(500),
        1 => 250u16..=500,
        1 => w.saturating_sub(3)..=w.saturating_add(3),
        1 => any::<u16>(),
    ]
    .boxed()
}

/// Trees whose empty slots have real placeholders.
pub fn small_tree(depths: std::ops::RangeInclusive<u8>, max_leaves: usize) -> BoxedStrategy<TreeSpec> {
    depths
        .prop_flat_map(move |depth| {
            (Just(depth), cofactor(depth), num64(), prop::collection::vec(leaf_spec(), 1..=max_leaves))
        })
        .prop_map(|(depth, cofactor, fill, leaves)| TreeSpec { depth, cofactor, opaque: false, fill, leaves })
        .boxed()
}

/// Trees of any depth with arbitrary hashes for sub-trees without messages.
pub fn deep_tree(depths: std::ops::RangeInclusive<u8>, max_leaves: usize) -> BoxedStrategy<TreeSpec> {
    depths
        .prop_flat_map(move |depth| {
            (Just(depth), cofactor(depth), num64(), prop::collection::vec(leaf_spec(), 1..=max_leaves))
        })
        .prop_map(|(depth, cofactor, fill, leaves)| TreeSpec { depth, cofactor, opaque: true, fill, leaves })
        .boxed()
}

pub fn any_tree(max_leaves: usize) -> BoxedStrategy<TreeSpec> {
    prop_oneof![
        3 => small_tree(0..=7, max_leaves),
        3 => deep_tree(0..=31, max_leaves),
        1 => deep_tree(16..=31, max_leaves),
    ]
    .boxed()
}

/// Subset of the keys selected by the bits of the mask.
pub fn subset(t: &Tree, mask: u64) -> BTreeSet<u32> {
    t.leaves
        .keys()
        .enumerate()
        .filter(|(i, _)| mask >> (i % 64) & 1 == 1)
        .map(|(_, p)| *p)
        .collect()
}

pub fn mask() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => any::<u64>(),
        1 => Just(0u64),
        1 => Just(u64::MAX),
        2 => (0u32..64).prop_map(|b| 1u64 << b),
        1 => (0u32..64).prop_map(|b| !(1u64 << b)),
    ]
    .boxed()
}

/// Source of a multi-protocol commitment.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SourceSpec {
    pub min_depth: u8,
    pub entropy: Option<u64>,
    pub messages: Vec<(B32, B32)>,
}

impl SourceSpec {
    pub fn map(&self) -> BTreeMap<H, H> { self.messages.iter().map(|(p, m)| (p.0, m.0)).collect() }
}

/// Ids with adversarial arithmetic relations: equal residues modulo 2^d, small differences, multiples
/// of factored widths.
pub fn related_pids(max: usize) -> BoxedStrategy<Vec<B32>> {
    prop_oneof![
        4 => prop::collection::vec(uni32(), 0..=max),
        2 => prop::collection::vec(b32(), 0..=max),
        // same residues modulo a power of two and small multiples
        3 => (0u32..14, 0u32..64, prop::collection::vec((0u32..40, any::<bool>()), 0..=max)).prop_map(|(sh, base, ks)| {
            ks.into_iter()
                .map(|(k, hi)| {
                    let mut h = model::u256_le(base as u64 + ((k as u64) << sh));
                    if hi { h[31] = k as u8; }
                    B32(h)
                })
                .collect()
        }),
        // multiples of several factored widths
        3 => (1u32..4000, 0u32..5, prop::collection::vec(0u64..64, 0..=max)).prop_map(|(m, r, ks)| {
            ks.into_iter().map(|k| B32(model::u256_le(r as u64 + m as u64 * k))).collect()
        }),
        // product of all factored widths of a range of cofactors: collide for each of them
        2 => (3u8..=6, 1u32..=20, 0u64..6, prop::collection::vec(0u64..6, 0..=max.min(5))).prop_map(|(d, upto, r, ks)| {
            let w = model::width(d);
            let mut l: u128 = 1;
            for c in 0..=upto.min(w - 1) {
                let m = (w - c) as u128;
                let n = l / gcd(l, m);
                l = match n.checked_mul(m) { Some(x) if x < 1 << 120 => x, _ => break };
            }
            ks.into_iter()
                .map(|k| {
                    let v = r as u128 + l * k as u128;
                    let mut h = [0u8; 32];
                    h[..16].copy_from_slice(&v.to_le_bytes());
                    B32(h)
                })
                .collect()
        }),
        // differ only in one byte
        1 => (uni32(), prop::collection::vec((0usize..32, any::<u8>()), 0..=max)).prop_map(|(b, ds)| {
            ds.into_iter().map(|(i, x)| { let mut h = b.0; h[i] ^= x; B32(h) }).collect()
        }),
    ]
    .boxed()
}

pub fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }

pub fn source(max: usize, min_depths: std::ops::RangeInclusive<u8>) -> BoxedStrategy<SourceSpec> {
    (min_depths, num64(), related_pids(max), 0u8..16)
        .prop_flat_map(|(min_depth, entropy, pids, same)| {
            let n = pids.len();
            (Just(min_depth), Just(entropy), Just(pids), prop::collection::vec(b32(), n..=n), Just(same))
        })
        .prop_map(|(min_depth, entropy, pids, mut msgs, same)| {
            // Messages related to the ids, or to each other
            match same {
                0 => msgs.clone_from(&pids),
                1 => msgs = vec![msgs.first().copied().unwrap_or(B32([0; 32])); pids.len()],
                2 => msgs.iter_mut().zip(pids.iter().rev()).for_each(|(m, p)| *m = *p),
                _ => {}
            }
            SourceSpec { min_depth, entropy: Some(entropy), messages: pids.into_iter().zip(msgs).collect() }
        })
        .boxed()
}

/// Sources which need (large) cofactors: almost full trees and ids colliding for many cofactors.
pub fn crowded() -> BoxedStrategy<SourceSpec> {
    let almost_full = (1u8..=5, num64(), 0u32..=300, any::<u64>(), 0usize..4).prop_flat_map(
        |(depth, e, cof, seed, missing)| {
            let w = model::width(depth);
            let cof = cof.min(w / 2) as u16;
            let f = model::factored(depth, cof);
            let n = (f as usize).saturating_sub(missing).max(1);
            (prop::collection::vec((uni32(), b32()), n..=n)).prop_map(move |bases| {
                let start = (seed % f as u64) as u32;
                SourceSpec {
                    min_depth: depth,
                    entropy: Some(e),
                    messages: bases
                        .iter()
                        .enumerate()
                        .map(|(i, (b, m))| (B32(model::mk_pid((start + i as u32) % f, f, &b.0)), *m))
                        .collect(),
                }
            })
        },
    );
    // A pair of ids which collides for all the cofactors below `upto` of the given depth, with the
    // previous depths colliding as well.
    let pair = (2u8..=10, 1u32..=400, uni32(), prop::collection::vec((uni32(), b32()), 0..4), num64(), b32(), any::<bool>())
        .prop_map(|(depth, upto, base, others, e, m, exact)| {
            let w = model::width(depth);
            let upto = upto.min(w / 2);
            // primes and prime powers below: the difference is divisible by each factored width
            let mut d: [u64; 5] = [1, 0, 0, 0, 0];
            let mut reached = 0;
            let mut lcm_parts: BTreeMap<u64, u64> = BTreeMap::new();
            for c in 0..upto {
                let mut n = (w - c) as u64;
                let mut add = vec![];
                let mut p = 2;
                while n > 1 {
                    let mut q = 1;
                    while n % p == 0 {
                        n /= p;
                        q *= p;
                    }
                    if q > 1 {
                        add.push((p, q));
                    }
                    p += 1;
                }
                let mut next = lcm_parts.clone();
                for (p, q) in add {
                    let x = next.entry(p).or_insert(1);
                    *x = (*x).max(q);
                }
                let mut t: [u64; 5] = [1, 0, 0, 0, 0];
                for q in next.values() {
                    let mut carry = 0u128;
                    for x in t.iter_mut() {
                        let y = *x as u128 * *q as u128 + carry;
                        *x = y as u64;
                        carry = y >> 64;
                    }
                }
                if t[4] != 0 || t[3] >> 60 != 0 {
                    break;
                }
                d = t;
                lcm_parts = next;
                reached = c;
            }
            let _ = reached;
            let mut a = base.0;
            a[31] = 0;
            let mut b = a;
            let mut carry = 0u128;
            for i in 0..4 {
                let x = u64::from_le_bytes(a[i * 8..i * 8 + 8].try_into().unwrap()) as u128 + d[i] as u128 + carry;
                b[i * 8..i * 8 + 8].copy_from_slice(&(x as u64).to_le_bytes());
                carry = x >> 64;
            }
            let mut messages = vec![(B32(a), m), (B32(b), m)];
            messages.extend(others);
            SourceSpec { min_depth: if exact { depth } else { depth - 1 }, entropy: Some(e), messages }
        });
    prop_oneof![almost_full, pair].boxed()
}

/// Sources whose ids collide in pairs for each of the cofactors up to a bound, and for the depths
/// before; the shape found has a cofactor above the bound or a greater depth.
pub fn colliding(depths: std::ops::RangeInclusive<u8>, max_cofactor: u32) -> BoxedStrategy<SourceSpec> {
    (
        depths,
        prop_oneof![2 => 0..=max_cofactor, 1 => max_cofactor.saturating_sub(5)..=max_cofactor],
        num64(),
        prop::collection::vec((uni32(), b32()), 80),
        prop::collection::vec((uni32(), b32()), 0..3),
    )
        .prop_map(|(depth, upto, entropy, bases, others)| {
            let w = model::width(depth);
            let mut mods = vec![w as u64 / 2, (w as u64 / 2 - 1).max(1)];
            mods.extend((0..=upto.min(w - 2)).map(|c| (w - c) as u64));
            let mut messages: Vec<(B32, B32)> = vec![];
            let mut bases = bases.into_iter();
            let mut i = 0;
            while i < mods.len() {
                // the least common multiple of as many as possible
                let mut l = [0u64; 4];
                l[0] = 1;
                while i < mods.len() {
                    let g = gcd(rem(&l, mods[i]) as u128, mods[i] as u128) as u64;
                    match mul(&l, mods[i] / g) {
                        Some(x) if x[3] >> 61 == 0 => l = x,
                        _ => break,
                    }
                    i += 1;
                }
                let Some((base, m)) = bases.next() else { break };
                let mut a = base.0;
                a[31] = 0;
                messages.push((B32(a), m));
                messages.push((B32(sum(&a, &l)), base));
            }
            messages.extend(others);
            SourceSpec { min_depth: depth - 1, entropy: Some(entropy), messages }
        })
        .boxed()
}

fn rem(v: &[u64; 4], m: u64) -> u64 {
    v.iter().rev().fold(0u128, |r, x| ((r << 64) | *x as u128) % m as u128) as u64
}

fn mul(v: &[u64; 4], k: u64) -> Option<[u64; 4]> {
    let mut out = [0u64; 4];
    let mut carry = 0u128;
    for i in 0..4 {
        let y = v[i] as u128 * k as u128 + carry;
        out[i] = y as u64;
        carry = y >> 64;
    }
    (carry == 0).then_some(out)
}

fn sum(a: &H, d: &[u64; 4]) -> H {
    let mut out = *a;
    let mut carry = 0u128;
    for i in 0..4 {
        let x = u64::from_le_bytes(a[i * 8..i * 8 + 8].try_into().unwrap()) as u128 + d[i] as u128 + carry;
        out[i * 8..i * 8 + 8].copy_from_slice(&(x as u64).to_le_bytes());
        carry = x >> 64;
    }
    out
}

/// Another entropy value: unrelated, or almost the same.
pub fn other_entropy(e: u64, how: u8, arg: u64) -> u64 {
    match how % 6 {
        0 => e ^ (1 << (arg % 64)),
        1 => e ^ ((arg & 0xFFFF_FFFF) << 32),
        2 => e ^ (arg & 0xFFFF_FFFF),
        3 => e.wrapping_add(arg % 5),
        4 => e.rotate_left((arg % 64) as u32),
        _ => arg,
    }
}

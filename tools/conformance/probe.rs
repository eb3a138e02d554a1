//! Probe functions for tools/conformance.py: each exercises library calls whose transfer functions the analyser supplies.
//! The analyser interprets every function; the same functions are executed natively; the two results must agree.
#![allow(dead_code, clippy::all, clippy::pedantic)]
use num_bigint::{BigInt, BigUint};
use num_complex::Complex64;
use num_traits::{One, ToPrimitive, Zero};
use rustc_hash::{FxHashMap, FxHashSet};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, VecDeque};
use std::fmt::Write;
use std::rc::Rc;

fn f(x: f64) -> i64 {
    (x * 1e6).round() as i64
}
fn b(x: bool) -> i64 {
    i64::from(x)
}
fn o(x: Option<i64>) -> i64 {
    x.unwrap_or(-99)
}
fn u(x: Option<usize>) -> i64 {
    x.map_or(-99, |v| v as i64)
}

// ---- slices and vectors
pub fn p_windows_rev() -> Vec<i64> {
    [1, 2, 3, 4].windows(2).rev().map(|w| w[0] * 10 + w[1]).collect()
}
pub fn p_chunks_rev() -> Vec<i64> {
    [1, 2, 3, 4, 5].chunks(2).rev().map(|w| w.iter().sum::<i64>()).collect()
}
pub fn p_chunks_exact() -> Vec<i64> {
    let v = [1, 2, 3, 4, 5];
    let c = v.chunks_exact(2);
    let r = c.remainder().to_vec();
    c.map(|w| w[0] * w[1]).chain(r).collect()
}
pub fn p_rchunks() -> Vec<i64> {
    [1, 2, 3, 4, 5].rchunks(2).map(|w| w[0]).collect()
}
pub fn p_binary_search() -> Vec<i64> {
    let v = vec![1, 3, 5, 7];
    vec![v.binary_search(&3).map_or(-1, |x| x as i64), v.binary_search(&4).map_or_else(|e| 100 + e as i64, |x| x as i64), v.binary_search_by(|p| p.cmp(&7)).unwrap() as i64, v.partition_point(|x| *x < 5) as i64]
}
pub fn p_binary_search_by_key() -> Vec<i64> {
    let v = vec![(1, 9), (3, 8), (5, 7)];
    vec![v.binary_search_by_key(&3, |p| p.0).unwrap() as i64, v.binary_search_by_key(&6, |p| p.0).unwrap_err() as i64]
}
pub fn p_dedup() -> Vec<i64> {
    let mut v = vec![1, 1, 2, 2, 3, 1];
    v.dedup();
    let mut w = vec![10, 11, 20, 21, 30];
    w.dedup_by_key(|x| *x / 10);
    let mut z = vec![1, 2, 4, 9];
    z.dedup_by(|a, b| *a - *b == 1);
    v.extend(w);
    v.extend(z);
    v
}
pub fn p_rotate() -> Vec<i64> {
    let mut v = vec![1, 2, 3, 4, 5];
    v.rotate_left(2);
    v[1..4].rotate_right(1);
    v
}
pub fn p_splice() -> Vec<i64> {
    let mut v = vec![1, 2, 3, 4];
    let gone: Vec<i64> = v.splice(1..3, [7, 8, 9]).collect();
    v.extend(gone);
    v
}
pub fn p_split() -> Vec<i64> {
    [1, 0, 2, 3, 0, 4].split(|x| *x == 0).map(|s| s.iter().sum()).collect()
}
pub fn p_ends_with() -> Vec<i64> {
    let v = [1, 2, 3];
    vec![b(v.ends_with(&[2, 3])), b(v.starts_with(&[1])), b(v.ends_with(&[1])), b(v.contains(&2)), b(v.is_sorted())]
}
pub fn p_strip() -> Vec<i64> {
    let v = [1, 2, 3];
    v.strip_prefix(&[1]).map(|s| s.to_vec()).unwrap_or_default()
}
pub fn p_copy_within() -> Vec<i64> {
    let mut v = vec![1, 2, 3, 4];
    v.copy_within(0..2, 2);
    v
}
pub fn p_swap_slices() -> Vec<i64> {
    let mut v = vec![1, 2, 3, 4];
    let (a, c) = v.split_at_mut(2);
    a.swap_with_slice(c);
    v.swap(0, 3);
    v.reverse();
    v
}
pub fn p_select_nth() -> Vec<i64> {
    let mut v = vec![5, 1, 4, 2];
    let (_, m, _) = v.select_nth_unstable(1);
    vec![*m]
}
pub fn p_sort_variants() -> Vec<i64> {
    let mut v: Vec<i64> = vec![3, -1, 2];
    v.sort_by(|a, b| b.cmp(a));
    let mut w = v.clone();
    w.sort_by_key(|x| x.abs());
    let mut z = w.clone();
    z.sort_unstable_by_key(|x| std::cmp::Reverse(*x));
    v.append(&mut w);
    v.append(&mut z);
    v
}
pub fn p_concat_join() -> Vec<i64> {
    let v = [vec![1, 2], vec![3]].concat();
    let w = [vec![1, 2], vec![3]].join(&9);
    v.into_iter().chain(w).collect()
}
pub fn p_repeat() -> Vec<i64> {
    [1, 2].repeat(2)
}
pub fn p_insert_remove() -> Vec<i64> {
    let mut v = vec![1, 2, 3];
    v.insert(1, 9);
    let r = v.remove(2);
    let s = v.swap_remove(0);
    v.push(r);
    v.push(s);
    v.truncate(4);
    v.resize(6, 7);
    v
}
pub fn p_drain_range() -> Vec<i64> {
    let mut v = vec![1, 2, 3, 4, 5];
    let d: Vec<i64> = v.drain(1..=2).collect();
    v.extend(d.iter().rev());
    v
}
pub fn p_retain() -> Vec<i64> {
    let mut v = vec![1, 2, 3, 4];
    v.retain(|x| x % 2 == 0);
    v.retain_mut(|x| {
        *x += 1;
        *x > 3
    });
    v
}
pub fn p_extract_if() -> Vec<i64> {
    let mut v = vec![1, 2, 3, 4];
    let e: Vec<i64> = v.extract_if(.., |x| *x > 2).collect();
    v.extend(e);
    v
}
pub fn p_split_off() -> Vec<i64> {
    let mut v = vec![1, 2, 3];
    let w = v.split_off(1);
    w.into_iter().chain(v).collect()
}
pub fn p_first_last() -> Vec<i64> {
    let v = vec![4, 5, 6];
    let (h, t) = v.split_first().unwrap();
    let (l, r) = v.split_last().unwrap();
    vec![*h, t.len() as i64, *l, r[0], *v.first().unwrap(), *v.last().unwrap(), o(v.get(7).copied()), o(v.get(1).copied())]
}
pub fn p_first_chunk() -> Vec<i64> {
    let v = [1, 2, 3];
    let a: &[i64; 2] = v.first_chunk().unwrap();
    let [x, y] = *a;
    vec![x, y]
}
pub fn p_pattern() -> Vec<i64> {
    let v = vec![1, 2, 3, 4];
    match v.as_slice() {
        [] => vec![],
        [a, .., z] => vec![*a, *z],
        [a] => vec![*a],
    }
}
pub fn p_pattern_rest() -> Vec<i64> {
    let v = vec![1, 2, 3, 4];
    if let [a, rest @ .., _] = &v[..] { vec![*a, rest.len() as i64, rest[1]] } else { vec![] }
}
pub fn p_array_map() -> Vec<i64> {
    [1, 2, 3].map(|x| x * 2).to_vec()
}
pub fn p_array_from_fn() -> Vec<i64> {
    let a: [i64; 4] = std::array::from_fn(|i| (i * i) as i64);
    a.into_iter().collect()
}
pub fn p_array_iter() -> Vec<i64> {
    let a = [[1, 2], [3, 4]];
    a.iter().flatten().copied().chain(a.into_iter().map(|r| r[1])).collect()
}
pub fn p_fill() -> Vec<i64> {
    let mut v = vec![0; 4];
    v[1..3].fill(5);
    v
}
pub fn p_iter_mut() -> Vec<i64> {
    let mut v = vec![1, 2, 3];
    for x in &mut v {
        *x *= 3;
    }
    for (i, x) in v.iter_mut().enumerate() {
        *x += i as i64;
    }
    if let Some(l) = v.last_mut() {
        *l = 0;
    }
    v
}
pub fn p_chunks_mut() -> Vec<i64> {
    let mut v = vec![1, 2, 3, 4, 5];
    for c in v.chunks_mut(2) {
        c[0] = 9;
    }
    v
}
pub fn p_vec_eq_ord() -> Vec<i64> {
    let v = vec![1, 2];
    vec![b(v == [1, 2]), b(v < vec![1, 3]), b(v.as_slice() > &[1][..]), b(vec![1, 2, 0] > v)]
}
pub fn p_box_slice() -> Vec<i64> {
    let v: Box<[i64]> = vec![1, 2, 3].into_boxed_slice();
    let s: i64 = v.iter().sum();
    let mut w = v.into_vec();
    w.push(s);
    w
}
pub fn p_rc_slice() -> Vec<i64> {
    let v: Rc<[i64]> = Rc::from(vec![1, 2, 3]);
    v.iter().map(|x| x + 1).collect()
}
pub fn p_chunk_by() -> Vec<i64> {
    [1, 1, 2, 3, 3].chunk_by(|a, b| a == b).map(|c| c.len() as i64).collect()
}
pub fn p_mem() -> Vec<i64> {
    let mut v = vec![1, 2];
    let w = std::mem::take(&mut v);
    let mut x = 4;
    let y = std::mem::replace(&mut x, 5);
    let mut z = 6;
    std::mem::swap(&mut x, &mut z);
    vec![w.len() as i64, v.len() as i64, x, y, z]
}
pub fn p_pop_if() -> Vec<i64> {
    let mut v = vec![1, 2, 3, 4];
    let a = v.pop_if(|x| *x % 2 == 0);
    let c = v.pop_if(|x| *x % 2 == 0);
    vec![o(a), o(c), v.len() as i64]
}
pub fn p_slice_cmp_concat() -> Vec<i64> {
    let a = vec![3, 4];
    [&[1, 2][..], &a[..]].concat()
}
pub fn p_to_array() -> Vec<i64> {
    let v = vec![1, 2, 3];
    let a: [i64; 3] = v.try_into().unwrap();
    let s: &[i64] = &a;
    let c: Result<[i64; 2], _> = s.try_into();
    vec![a[2], b(c.is_err())]
}

// ---- iterators
pub fn p_it_rev_enum() -> Vec<i64> {
    [5, 6, 7].iter().enumerate().rev().map(|(i, x)| i as i64 * 100 + x).collect()
}
pub fn p_it_step_by() -> Vec<i64> {
    (0..10).step_by(3).chain((0..10).rev().step_by(4)).collect()
}
pub fn p_it_zip_unzip() -> Vec<i64> {
    let (a, c): (Vec<i64>, Vec<i64>) = [1, 2, 3].into_iter().zip([4, 5]).unzip();
    a.into_iter().chain(c).collect()
}
pub fn p_it_partition() -> Vec<i64> {
    let (a, c): (Vec<i64>, Vec<i64>) = (1..7).partition(|x| x % 3 == 0);
    a.into_iter().chain(c).collect()
}
pub fn p_it_fold() -> Vec<i64> {
    vec![(1..5).fold(0, |a, x| a * 10 + x), (1..5).rfold(0, |a, x| a * 10 + x), (1..5).product(), (1..5).sum(), (1..5i64).reduce(|a, x| a - x).unwrap()]
}
pub fn p_it_try_fold() -> Vec<i64> {
    let a = [1i64, 2, 3].iter().try_fold(0i64, |a, x| a.checked_add(*x));
    let c = [1i64, 2, 3].iter().try_fold(0i64, |a, x| if *x == 2 { Err(a) } else { Ok(a + x) });
    vec![o(a), c.unwrap_or_else(|e| e + 50)]
}
pub fn p_it_try_for_each() -> Vec<i64> {
    let mut out = vec![];
    let r: Result<(), i64> = (0..5).try_for_each(|x| {
        if x == 3 {
            return Err(x);
        }
        out.push(x);
        Ok(())
    });
    out.push(r.unwrap_err());
    out
}
pub fn p_it_minmax() -> Vec<i64> {
    let v = [3i64, 9, -2, 9];
    vec![*v.iter().max().unwrap(), *v.iter().min().unwrap(), v.iter().copied().max_by_key(|x| -x).unwrap(), u(v.iter().position(|x| *x == 9)), u(v.iter().rposition(|x| *x == 9)), *v.iter().min_by(|a, b| b.cmp(a)).unwrap(), v.iter().copied().min_by_key(|x| (x - 4).abs()).unwrap()]
}
pub fn p_it_max_ties() -> Vec<i64> {
    let v = [(1, 5), (2, 7), (3, 7)];
    vec![v.iter().max_by_key(|p| p.1).unwrap().0, v.iter().min_by_key(|p| -p.1).unwrap().0, v.iter().max_by(|a, b| a.1.cmp(&b.1)).unwrap().0]
}
pub fn p_it_take_skip() -> Vec<i64> {
    (0..10).skip(2).take(5).skip_while(|x| *x < 4).take_while(|x| *x < 6).chain((0..3).cycle().take(4)).collect()
}
pub fn p_it_scan() -> Vec<i64> {
    (1..5).scan(0, |s, x| { *s += x; Some(*s) }).collect()
}
pub fn p_it_map_while() -> Vec<i64> {
    [1, 2, -1, 4].iter().map_while(|x| if *x > 0 { Some(x * 2) } else { None }).collect()
}
pub fn p_it_flat_map() -> Vec<i64> {
    (1..4).flat_map(|x| (0..x).map(move |y| x * 10 + y)).collect()
}
pub fn p_it_flat_rev() -> Vec<i64> {
    vec![vec![1, 2], vec![3]].into_iter().flatten().rev().collect()
}
pub fn p_it_flatten_opt() -> Vec<i64> {
    vec![Some(1), None, Some(3)].into_iter().flatten().collect()
}
pub fn p_it_filter_map() -> Vec<i64> {
    (0..6).filter_map(|x| (x % 2 == 0).then(|| x * x)).collect()
}
pub fn p_it_peekable() -> Vec<i64> {
    let mut it = [1, 1, 2, 3].iter().peekable();
    let mut out = vec![];
    while let Some(x) = it.next() {
        if it.peek() == Some(&x) {
            out.push(100);
        }
        if let Some(y) = it.next_if(|y| **y == 3) {
            out.push(y + 1000);
        }
        out.push(*x);
    }
    out
}
pub fn p_it_peekable_eq() -> Vec<i64> {
    let mut it = [1, 2].into_iter().peekable();
    vec![o(it.next_if_eq(&1)), o(it.next_if_eq(&1)), o(it.next())]
}
pub fn p_it_cmp() -> Vec<i64> {
    vec![b([1, 2].iter().eq([1, 2].iter())), b((0..3).lt(0..4)), b((0..3).all(|x| x < 3)), b((0..3).any(|x| x > 3)), b((0..3).ne(0..2)), b([1, 2, 2].iter().is_sorted())]
}
pub fn p_it_last_nth() -> Vec<i64> {
    let mut it = (0..10i64).into_iter();
    let a = it.nth(2);
    let c = it.nth_back(1);
    vec![o(a), o(c), it.size_hint().0 as i64, o(it.clone().last()), it.count() as i64]
}
pub fn p_it_by_ref() -> Vec<i64> {
    let mut it = [1, 2, 3, 4, 5].into_iter();
    let a: Vec<i64> = it.by_ref().take(2).collect();
    let c: i64 = it.sum();
    vec![a.len() as i64, c]
}
pub fn p_it_find() -> Vec<i64> {
    vec![o((0..9).find(|x| x * x > 20)), o((0..9).find_map(|x| if x > 4 { Some(x * 10) } else { None })), o((0..9).rfind(|x| x % 4 == 0))]
}
pub fn p_it_inspect() -> Vec<i64> {
    let mut seen = vec![];
    let s: i64 = (0..3).inspect(|x| seen.push(*x)).sum();
    seen.push(s);
    seen
}
pub fn p_it_from_fn() -> Vec<i64> {
    let mut c = 0;
    std::iter::from_fn(|| { c += 1; if c < 4 { Some(c) } else { None } }).chain(std::iter::once(7)).chain(std::iter::repeat(8).take(2)).chain(std::iter::empty()).collect()
}
pub fn p_it_successors() -> Vec<i64> {
    std::iter::successors(Some(1), |x| if *x < 50 { Some(x * 3) } else { None }).collect()
}
pub fn p_it_repeat_with() -> Vec<i64> {
    let mut c = 1;
    std::iter::repeat_with(|| { c *= 2; c }).take(3).chain(std::iter::repeat_n(4, 2)).collect()
}
pub fn p_it_collect_opt() -> Vec<i64> {
    let a: Option<Vec<i64>> = vec![Some(1), Some(2)].into_iter().collect();
    let c: Option<Vec<i64>> = vec![Some(1), None].into_iter().collect();
    let d: Result<Vec<i64>, i64> = vec![Ok(1), Err(5), Err(6)].into_iter().collect();
    let s: Option<i64> = [Some(1), Some(4)].into_iter().sum();
    vec![a.unwrap().len() as i64, b(c.is_none()), d.unwrap_err(), o(s)]
}
pub fn p_it_range_incl() -> Vec<i64> {
    (1..=3).rev().chain((5..=4).map(|x| x)).chain((0..0).map(|x| x)).collect()
}
pub fn p_it_while_loop() -> Vec<i64> {
    let mut out = vec![];
    let mut i = 0;
    loop {
        i += 1;
        if i % 2 == 0 {
            continue;
        }
        if i > 7 {
            break;
        }
        out.push(i);
    }
    out
}
pub fn p_it_labeled() -> Vec<i64> {
    let mut out = vec![];
    'a: for i in 0..4 {
        for j in 0..4 {
            if i * j == 4 {
                break 'a;
            }
            if j > i {
                continue 'a;
            }
            out.push(i * 10 + j);
        }
    }
    out
}
pub fn p_it_double_ended() -> Vec<i64> {
    let mut it = [1, 2, 3, 4].iter();
    let mut out = vec![];
    while let (Some(a), Some(z)) = (it.next(), it.next_back()) {
        out.push(a * z);
    }
    out
}
pub fn p_it_sum_float() -> Vec<i64> {
    vec![f([0.5, 0.25].iter().sum::<f64>()), f([2.0, 3.0].iter().product::<f64>()), f([1.5, -2.0].iter().copied().fold(f64::MIN, f64::max))]
}
pub fn p_it_dyn() -> Vec<i64> {
    let it: Box<dyn Iterator<Item = i64>> = if b(true) == 1 { Box::new(0..3) } else { Box::new(std::iter::once(1)) };
    it.map(|x| x + 1).collect()
}
pub fn p_it_skip_back() -> Vec<i64> {
    [1, 2, 3, 4].iter().skip(1).rev().copied().chain([1, 2, 3].iter().take(2).rev().copied()).collect()
}
pub fn p_it_zip_rev() -> Vec<i64> {
    [1, 2, 3].iter().zip([10, 20].iter()).map(|(a, c)| a + c).chain([1, 2, 3].iter().zip([4, 5, 6].iter()).rev().map(|(a, c)| a * c)).collect()
}
pub fn p_it_chain_rev() -> Vec<i64> {
    [1, 2].iter().chain([3].iter()).rev().copied().collect()
}
pub fn p_it_array_windows() -> Vec<i64> {
    let v = vec![1, 4, 9];
    v.iter().zip(v.iter().skip(1)).map(|(a, c)| c - a).collect()
}
pub fn p_it_fuse() -> Vec<i64> {
    (0..3).fuse().collect()
}
pub fn p_it_extend_ref() -> Vec<i64> {
    let mut v = vec![1];
    v.extend(&[2, 3]);
    v.extend([4].iter());
    v.extend(Some(5));
    v.extend_from_slice(&[6]);
    v
}
pub fn p_it_sum_map_bool() -> Vec<i64> {
    vec![[true, false, true].iter().map(|x| i64::from(*x)).sum(), [true, false].iter().filter(|x| **x).count() as i64]
}
pub fn p_it_cmp_by() -> Vec<i64> {
    vec![[1, 2].iter().cmp([1, 3].iter()) as i64, [2].iter().partial_cmp([1].iter()).unwrap() as i64]
}

// ---- maps, sets, queues
pub fn p_btree_map() -> Vec<i64> {
    let mut m = BTreeMap::new();
    for (k, v) in [(3, 30), (1, 10), (2, 20)] {
        m.insert(k, v);
    }
    *m.entry(5).or_insert(0) += 50;
    *m.entry(1).or_default() += 1;
    m.entry(2).and_modify(|v| *v += 2).or_insert(9);
    m.remove(&3);
    m.iter().map(|(k, v)| k * 1000 + v).chain(m.keys().copied()).chain(m.values().rev().copied()).chain(m.first_key_value().map(|(k, _)| *k)).chain(m.last_key_value().map(|(k, _)| *k)).collect()
}
pub fn p_btree_range() -> Vec<i64> {
    let m: BTreeMap<i64, i64> = (0..6).map(|x| (x, x * x)).collect();
    m.range(2..4).map(|(_, v)| *v).chain(m.range(..=1).map(|(k, _)| *k)).collect()
}
pub fn p_btree_pop() -> Vec<i64> {
    let mut m = BTreeMap::from([(2, 'b'), (1, 'a')]);
    let a = m.pop_first().unwrap().0;
    let c = m.pop_last().unwrap().0;
    vec![a, c, b(m.is_empty())]
}
pub fn p_btree_set() -> Vec<i64> {
    let mut s: BTreeSet<i64> = [3, 1, 2, 3].into_iter().collect();
    let n = s.insert(1);
    let r = s.remove(&2);
    let t = BTreeSet::from([3, 4]);
    s.iter().copied().chain([b(n), b(r), s.len() as i64]).chain(s.union(&t).copied()).chain(s.intersection(&t).copied()).chain(s.difference(&t).copied()).chain(t.first().copied()).collect()
}
pub fn p_hash_map() -> Vec<i64> {
    let mut m: FxHashMap<i64, i64> = FxHashMap::default();
    let a = m.insert(1, 10);
    let c = m.insert(1, 11);
    m.insert(2, 20);
    let e = m.get(&1).copied();
    let g = m.contains_key(&7);
    if let Some(x) = m.get_mut(&2) {
        *x += 5;
    }
    *m.entry(3).or_insert_with(|| 30) += 1;
    let r = m.remove(&1);
    let mut ks: Vec<i64> = m.keys().copied().collect();
    ks.sort();
    let total: i64 = m.values().sum();
    let mut out = vec![o(a), o(c), o(e), b(g), o(r), total, m[&2], m.len() as i64];
    out.extend(ks);
    out
}
pub fn p_hash_std() -> Vec<i64> {
    let mut m: HashMap<String, i64> = HashMap::new();
    m.insert("a".to_string(), 1);
    m.entry("a".into()).and_modify(|x| *x += 1).or_insert(5);
    m.entry("b".into()).or_insert(7);
    let mut v: Vec<_> = m.into_iter().collect();
    v.sort();
    v.into_iter().map(|(k, v)| k.len() as i64 * 10 + v).collect()
}
pub fn p_hash_retain() -> Vec<i64> {
    let mut m: FxHashMap<i64, i64> = (0..5).map(|x| (x, x)).collect();
    m.retain(|k, v| {
        *v += 1;
        k % 2 == 0
    });
    let mut v: Vec<i64> = m.into_values().collect();
    v.sort_unstable();
    v
}
pub fn p_hash_entry_match() -> Vec<i64> {
    use std::collections::hash_map::Entry;
    let mut m: FxHashMap<i64, i64> = FxHashMap::default();
    for k in [1, 1, 2] {
        match m.entry(k) {
            Entry::Occupied(mut e) => {
                *e.get_mut() += 10;
            }
            Entry::Vacant(e) => {
                e.insert(1);
            }
        }
    }
    vec![m[&1], m[&2]]
}
pub fn p_hash_entry_occupied_remove() -> Vec<i64> {
    use std::collections::hash_map::Entry;
    let mut m: FxHashMap<i64, i64> = [(1, 4)].into_iter().collect();
    let mut r = 0;
    if let Entry::Occupied(e) = m.entry(1) {
        r = e.remove();
    }
    vec![r, m.len() as i64]
}
pub fn p_hash_drain() -> Vec<i64> {
    let mut m: FxHashMap<i64, i64> = [(1, 4), (2, 5)].into_iter().collect();
    let mut v: Vec<i64> = m.drain().map(|(k, v)| k * v).collect();
    v.sort();
    v.push(m.len() as i64);
    v
}
pub fn p_hash_set() -> Vec<i64> {
    let mut s: FxHashSet<i64> = FxHashSet::default();
    let v = vec![b(s.insert(1)), b(s.insert(1)), b(s.contains(&1)), b(s.remove(&1)), b(s.remove(&1)), b(s.is_empty())];
    let t: HashSet<i64> = [1, 2].into_iter().collect();
    let w: HashSet<i64> = HashSet::from([2, 3]);
    let mut x: Vec<i64> = t.intersection(&w).copied().collect();
    x.extend(t.difference(&w));
    x.push(b(t.is_subset(&w)));
    x.push(b(t.is_disjoint(&w)));
    v.into_iter().chain(x).collect()
}
pub fn p_hash_set_toggle() -> Vec<i64> {
    let mut s: HashSet<usize> = HashSet::new();
    for x in [1, 2, 1, 3, 2, 2] {
        if !s.remove(&x) {
            s.insert(x);
        }
    }
    let mut v: Vec<i64> = s.iter().map(|x| *x as i64).collect();
    v.sort();
    v.push(u(s.get(&3).copied()));
    v.push(u(s.take(&3)));
    v.push(b(s.replace(9).is_none()));
    v
}
pub fn p_vec_deque() -> Vec<i64> {
    let mut q = VecDeque::with_capacity(4);
    q.push_back(1);
    q.push_back(2);
    q.push_front(0);
    let a = q.pop_front();
    let c = q.back().copied();
    let d = q.front().copied();
    q.extend([5, 6]);
    let e = q.pop_back();
    let l = q.len() as i64;
    q[0] += 100;
    if let Some(x) = q.get_mut(1) {
        *x *= 2;
    }
    let mut out = vec![o(a), o(c), o(d), o(e), l, b(q.is_empty()), b(q.contains(&4))];
    out.extend(q.iter());
    while let Some(x) = q.pop_front() {
        out.push(x);
    }
    out
}
pub fn p_vec_deque2() -> Vec<i64> {
    let mut q: VecDeque<i64> = (0..5).collect();
    q.rotate_left(2);
    q.truncate(4);
    q.retain(|x| *x != 3);
    q.make_contiguous().sort();
    let d: Vec<i64> = q.drain(..1).collect();
    q.insert(1, 77);
    q.remove(0);
    for x in q.iter_mut() {
        *x += 1;
    }
    q.swap(0, 1);
    let v: Vec<i64> = q.into();
    v.into_iter().chain(d).collect()
}
pub fn p_vec_deque3() -> Vec<i64> {
    let mut q = VecDeque::from(vec![1, 2]);
    let mut r = VecDeque::from([3]);
    q.append(&mut r);
    q.clear();
    q.resize(2, 4);
    q.into_iter().rev().chain(r).collect()
}
pub fn p_binary_heap() -> Vec<i64> {
    let mut h = BinaryHeap::new();
    for x in [3, 9, 1] {
        h.push(x);
    }
    let p = h.peek().copied();
    let mut out = vec![o(p)];
    while let Some(x) = h.pop() {
        out.push(x);
    }
    out
}

// ---- options and results
pub fn p_option() -> Vec<i64> {
    let a = Some(3);
    let n: Option<i64> = None;
    vec![
        o(a.map(|x| x + 1)), o(n.or(Some(5))), o(a.and_then(|x| if x > 2 { Some(x) } else { None })), o(a.filter(|x| *x > 5)), a.map_or(0, |x| x * 2), n.map_or_else(|| 7, |x| x),
        o(a.xor(n)), o(a.zip(Some(4)).map(|(x, y)| x * y)), b(a.is_some_and(|x| x == 3)), b(n.is_none()), o(n.or_else(|| Some(8))), n.unwrap_or(9), n.unwrap_or_default(), n.unwrap_or_else(|| 11),
        b(n.is_none_or(|x| x > 1)), o(a.and(Some(2))), a.ok_or(1).unwrap(), n.ok_or_else(|| 6).unwrap_err(), b(a == Some(3)), b(a > n), o(a.as_ref().copied()), o(Some(a).flatten()),
    ]
}
pub fn p_option_mut() -> Vec<i64> {
    let mut a = Some(3);
    let t = a.take();
    let r = a.replace(4);
    let g = *a.get_or_insert(9);
    if let Some(x) = a.as_mut() {
        *x += 1;
    }
    let i = *a.insert(20);
    let tf = a.take_if(|x| *x > 10);
    let w = *a.get_or_insert_with(|| 33);
    vec![o(t), o(r), g, i, o(tf), w, o(a)]
}
pub fn p_result() -> Vec<i64> {
    let a: Result<i64, i64> = Ok(2);
    let e: Result<i64, i64> = Err(4);
    vec![
        a.map(|x| x + 1).unwrap(), e.map_err(|x| x * 2).unwrap_err(), o(a.ok()), o(e.ok()), e.unwrap_or(5), e.unwrap_or_else(|x| x + 1), b(a.is_ok_and(|x| x == 2)), b(e.is_err()), o(e.err()),
        a.and_then(|x| if x > 5 { Ok(x) } else { Err(0) }).unwrap_err(), e.or_else(|x| if x == 4 { Ok::<i64, i64>(1) } else { Err(x) }).unwrap(), a.map_or(0, |x| x), e.unwrap_or_default(), a.iter().count() as i64,
    ]
}
fn q_inner(x: i64) -> Result<i64, String> {
    let y: i64 = if x > 3 { Err("big")? } else { x };
    let z = Some(y).ok_or("none".to_string())?;
    Ok(z + 1)
}
pub fn p_question() -> Vec<i64> {
    vec![q_inner(2).unwrap(), q_inner(5).unwrap_err().len() as i64]
}
fn q_opt(v: &[i64]) -> Option<i64> {
    let a = v.first()?;
    let c = v.get(1)?;
    Some(a + c)
}
pub fn p_question_opt() -> Vec<i64> {
    vec![o(q_opt(&[1])), o(q_opt(&[1, 2]))]
}
pub fn p_let_else() -> Vec<i64> {
    let v = [1, 2];
    let Some(x) = v.get(1) else { return vec![] };
    let Ok(y) = u8::try_from(300i64).map_err(|_| 5) else { return vec![*x, 99] };
    vec![i64::from(y)]
}

// ---- integers and floats
pub fn p_ints() -> Vec<i64> {
    let a = 13i64;
    vec![
        a.rem_euclid(5), (-a).rem_euclid(5), -a % 5, -a / 5, (-a).div_euclid(5), a.pow(2), a.abs_diff(20) as i64, a.signum(), i64::from(a.count_ones()), i64::from(a.trailing_zeros()), i64::from(a.leading_zeros()),
        o(a.checked_sub(20)), o(i64::MAX.checked_add(1)), i64::MAX.wrapping_add(1), i64::MAX.saturating_add(1), a.min(4), a.max(40), a.clamp(0, 10), o(a.checked_div(0)), o(a.checked_rem(4)), o(a.checked_mul(2)), b(i64::MAX.overflowing_add(1).1), (a as u8) as i64, (-1i64) as u32 as i64,
        300i64 as u8 as i64, -1i32 as i64, a.isqrt(), a.ilog2() as i64, (a as usize).is_power_of_two() as i64, (a as u64).next_power_of_two() as i64, a.rotate_left(1), a ^ 6, a & 6, a | 16, !a, a << 2, a >> 1, -a >> 1,
    ]
}
pub fn p_ints2() -> Vec<i64> {
    vec![
        i64::from(3u8.wrapping_sub(5)), 7usize.div_ceil(2) as i64, b(6u64.is_multiple_of(3)), 5usize.abs_diff(9) as i64, u(5usize.checked_sub(6)), 5usize.saturating_sub(6) as i64, i64::try_from(5usize).unwrap(), b(u8::try_from(256).is_err()),
        i64::from(true), b(i64::from_str_radix("ff", 16).unwrap() == 255), "42".parse::<i64>().unwrap(), b("4x".parse::<i64>().is_err()), i64::from(u8::MAX), i64::from(b'a'), 'a' as i64, (b'a' + 1) as char as i64, (10usize.checked_pow(2)).map_or(0, |x| x as i64),
        i64::from((-5i32).unsigned_abs()), 1i64.wrapping_shl(65), o(1i64.checked_shl(64)), i64::from(0x12u8.swap_bytes()), i64::from(i16::from_le_bytes([1, 2])), i64::from(u32::from_be_bytes([0, 0, 1, 2])), i64::from(258u16.to_le_bytes()[0]), i64::from(5u8.next_multiple_of(4)),
    ]
}
pub fn p_floats() -> Vec<i64> {
    let x = 2.5f64;
    vec![
        f(x.floor()), f(x.ceil()), f(x.trunc()), f(x.fract()), f(x.round()), f((-x).abs()), f(x.powi(3)), f(4.0f64.sqrt()), f(x.mul_add(2.0, 1.0)), f(x.max(7.0)), f(x.min(1.0)), f(x.signum()), f(x.hypot(1.0)), f(x.recip()), f(x.clamp(0.0, 1.0)), f(x.rem_euclid(2.0)), f(x % 2.0),
        f(x.to_degrees()), f(180f64.to_radians()), b(x.is_nan()), b(x.is_finite()), b((-x).is_sign_negative()), f(x.copysign(-1.0)), x.total_cmp(&1.0) as i64, x as i64, -2.7f64 as i64, f64::MAX as i64, -1.0f64 as u64 as i64, b(x.partial_cmp(&2.5) == Some(std::cmp::Ordering::Equal)),
    ]
}
pub fn p_trig() -> Vec<i64> {
    let x = 0.7f64;
    let (s, c) = x.sin_cos();
    vec![f(x.sin()), f(x.cos()), f(s), f(c), f(x.tan()), f(x.asin()), f(x.acos()), f(x.atan()), f(x.atan2(2.0)), f(x.sinh()), f(x.cosh()), f(x.tanh()), f(x.exp()), f(x.ln()), f(x.log2()), f(x.log10()), f(x.log(3.0)), f(x.powf(1.5)), f(x.exp2()), f(x.exp_m1()), f(x.ln_1p()), f(x.cbrt())]
}
pub fn p_complex() -> Vec<i64> {
    let z = Complex64::new(3.0, 4.0);
    let w = Complex64::new(0.0, 1.0);
    let q = z * w;
    let r = z / w;
    let mut t = z;
    t += w;
    t *= 2.0;
    t -= Complex64::one();
    t /= w;
    let e = (w * 0.5).exp();
    let p = Complex64::from_polar(2.0, 0.5);
    let n = -z;
    vec![
        f(z.norm()), f(z.norm_sqr()), f(z.arg()), f(z.conj().im), f(q.re), f(q.im), f(r.re), f(r.im), f(t.re), f(t.im), f(e.re), f(e.im), f(p.re), f(p.im), f(n.re), f(z.powi(2).re), f(z.powu(3).im), f(z.scale(2.0).im), f(z.unscale(2.0).re), f(z.inv().re), f(z.l1_norm()), b(z == Complex64::new(3.0, 4.0)),
        f((2.0 * z).re), f((z + 1.0).re), f((z - w).im), f(Complex64::cis(0.3).im), f(z.sqrt().re), f(Complex64::from(2.0).re), b(Complex64::zero().is_zero()), f(Complex64::i().im), f(z.to_polar().1), f(Complex64::default().re), f((z * &w).re), f((&z + &w).im), f([z, w].iter().sum::<Complex64>().im), f([z, w].iter().product::<Complex64>().re),
    ]
}
pub fn p_big() -> Vec<i64> {
    let a = BigUint::from(5u32);
    let c = BigUint::one() << 70u32;
    let mut d = &a + &c;
    d.set_bit(0, false);
    let e = &d & &c;
    let g = (&d ^ &c) | BigUint::from(8u8);
    let h = &c - 1u32;
    let i = &c / 3u32 % 1000u32;
    let mut j = BigUint::zero();
    j |= BigUint::from(6u64);
    j ^= &a;
    j <<= 2usize;
    j += 1u32;
    j -= 1usize;
    j *= 2u32;
    vec![
        b(d.bit(70)), b(d.bit(0)), d.bits() as i64, e.count_ones() as i64, g.to_i64().unwrap(), h.count_ones() as i64, i.to_i64().unwrap(), c.trailing_zeros().unwrap() as i64, b(c > a), b(c.to_u64().is_none()), j.to_usize().map_or(-1, |x| x as i64), b(a.is_zero()), b(a.is_one()),
        b(d.cmp(&c) == std::cmp::Ordering::Greater), (&a * &a).to_u64().unwrap() as i64, a.pow(3).to_i64().unwrap(), b(BigUint::default().is_zero()), u64::try_from(a.clone()).unwrap() as i64, usize::try_from(&a).unwrap() as i64, (a.clone() >> 1u32).to_i64().unwrap(), b(BigUint::ZERO == BigUint::zero()), c.iter_u32_digits().len() as i64, c.to_u64_digits()[1] as i64,
        BigUint::from_bytes_le(&[1, 2]).to_i64().unwrap(), i64::from(a.to_bytes_be()[0]), (a.clone() + 2u8).to_i64().unwrap(),
    ]
}
pub fn p_bigint() -> Vec<i64> {
    let a = BigInt::from(-17);
    let c = BigInt::from(5);
    let z = |x: BigInt| x.to_i64().unwrap();
    vec![
        z(&a / &c), z(&a % &c), z(&a + &c), z(&a - &c), z(&a * &c), z(-&a), z(&a >> 1u32), z(&a << 2), z(&a & &c), z(&a | &c), z(&a ^ &c), z(!&a), b(a < c), z(c.pow(3)), z(c.modpow(&BigInt::from(3), &BigInt::from(7))), b(a.sign() == num_bigint::Sign::Minus), z(a.magnitude().clone().into()),
        a.bits() as i64, z(num_traits::Signed::abs(&a)), z(num_traits::Pow::pow(&c, 2u32)), z(BigInt::from_signed_bytes_be(&[0xff, 0x01])), i64::from(a.to_signed_bytes_le()[0]), z(BigInt::zero()), z("-12".parse::<BigInt>().unwrap()), b(a.to_string() == "-17"), z(num_traits::Euclid::rem_euclid(&a, &c)), z(BigInt::from(3u64)), b(i64::try_from(&a).is_ok()),
    ]
}

// ---- text
pub fn s_fmt() -> String {
    let mut s = String::new();
    write!(s, "{}-{:?}-{:>4}-{:<4}|{:^5}|{:04}|{:+}|{:x}|{:#b}", 1, "q\"", 7, 8, 9, 42, 5, 255, 5).unwrap();
    writeln!(s, "{0} {name} {0:?}", "a", name = 'c').unwrap();
    s
}
pub fn s_fmt2() -> String {
    format!("{:?} {:?} {:?} {:?} {:?}", vec![1, 2], Some(3), (1, 'x'), None::<i64>, ["a"])
}
pub fn s_fmt_float() -> String {
    format!("{} {} {:.2} {:e} {:?} {} {}", 1.0f64, 0.1f64, 2.345f64, 1500.0f64, 1.0f64, f64::INFINITY, f64::NAN)
}
pub fn s_build() -> String {
    let mut s = String::with_capacity(8);
    s.push('a');
    s.push_str("bc");
    s += "d";
    s.insert(0, 'z');
    s.insert_str(1, "yy");
    s.extend(['1', '2']);
    s.extend(["34", "5"]);
    s.truncate(9);
    let p = s.pop();
    s.push(p.unwrap().to_ascii_uppercase());
    s = s + "!" + &String::from("?");
    s
}
pub fn s_join() -> String {
    let v = vec!["a".to_string(), "b".to_string()];
    let w = ["x", "y"];
    [v.join(", "), w.concat(), v.iter().map(|s| s.as_str()).collect::<Vec<_>>().join("/"), "ab".repeat(2), w.iter().map(|s| s.to_string()).collect::<String>(), w.iter().copied().collect::<String>()].join("|")
}
pub fn s_replace() -> String {
    ["a-b-c".replace('-', "+"), "aXbX".replacen("X", "", 1), "  t ".trim().to_string(), "Ab".to_uppercase(), "Ab".to_lowercase(), "xaby".trim_matches('x').into(), "pre_x".strip_prefix("pre_").unwrap().to_owned(), "x\n".trim_end().to_string()].join(",")
}
pub fn p_str() -> Vec<i64> {
    let s = "héllo, w";
    vec![
        s.len() as i64, s.chars().count() as i64, u(s.find(',')), u(s.find("llo")), b(s.contains("lo")), b(s.starts_with('h')), b(s.ends_with("w")), s.bytes().map(i64::from).sum(), s.split(',').count() as i64, s.split_once(", ").map_or(0, |(a, c)| (a.len() * 10 + c.len()) as i64), s.char_indices().nth(2).unwrap().0 as i64, b(s.is_empty()), u(s.rfind('l')),
        s.as_bytes()[0] as i64, s.lines().count() as i64, b(s.is_char_boundary(2)), s.chars().rev().next().unwrap() as i64, b(s.eq_ignore_ascii_case("HéLLO, W")), b("a" < "b"), b("abc".cmp("abd") == std::cmp::Ordering::Less), s.split_whitespace().count() as i64, b(s.is_ascii()), b(s.get(1..2).is_none()), s[..1].len() as i64,
        "a,b,,c".split(',').filter(|x| !x.is_empty()).count() as i64, "aXbXc".rsplit('X').next().unwrap().len() as i64, "k=v=w".splitn(2, '=').last().unwrap().len() as i64, "abc".char_indices().map(|(i, c)| i as i64 * c as i64).sum(), "a b".split(' ').map(str::len).sum::<usize>() as i64, "xyz".chars().position(|c| c == 'z').unwrap() as i64,
    ]
}
pub fn p_char() -> Vec<i64> {
    vec![b('a'.is_alphabetic()), b('1'.is_ascii_digit()), i64::from('7'.to_digit(10).unwrap()), 'é'.len_utf8() as i64, b('\n'.is_control()), b(' '.is_whitespace()), char::from(65u8) as i64, char::from_u32(0x41).unwrap() as i64, char::from_digit(5, 10).unwrap() as i64, b('a'.is_ascii_graphic()), u32::from('b') as i64, b('a' < 'b'), b(('a'..='z').contains(&'q'))]
}
pub fn s_char_map() -> String {
    "a\"b\\c\n".chars().flat_map(|c| c.escape_default()).collect::<String>() + &"x".escape_debug().to_string()
}
pub fn s_match_push() -> String {
    let mut out = String::new();
    for c in "a\tb\"".chars() {
        match c {
            '\t' => out.push_str("\\t"),
            '"' => out.push_str("\\\""),
            c if c.is_ascii() => out.push(c),
            _ => {}
        }
    }
    out
}
pub fn p_bytes() -> Vec<i64> {
    let v = "ab".to_string().into_bytes();
    let s = String::from_utf8(v.clone()).unwrap();
    let t = std::str::from_utf8(&v).unwrap();
    let l = String::from_utf8_lossy(&v);
    vec![v.len() as i64, b(s == t), l.len() as i64, i64::from(v[1]), b(v == b"ab"), b(std::str::from_utf8(&[0xff]).is_err()), b(b"ab".eq_ignore_ascii_case(b"AB"))]
}
pub fn p_cstr() -> Vec<i64> {
    use std::ffi::{CStr, CString};
    let c = CString::new("hey").unwrap();
    let d: &CStr = c.as_c_str();
    vec![d.to_bytes().len() as i64, d.to_bytes_with_nul().len() as i64, b(d.to_str().unwrap() == "hey"), b(CString::new("a\0b").is_err()), d.to_string_lossy().len() as i64, c.as_bytes().len() as i64, d.count_bytes() as i64, c.into_string().unwrap().len() as i64]
}
pub fn s_cow() -> String {
    use std::borrow::Cow;
    let a: Cow<str> = Cow::Borrowed("ab");
    let mut c: Cow<str> = Cow::Owned("cd".to_string());
    c.to_mut().push('e');
    format!("{a}{c}{}", a.clone().into_owned())
}
pub fn s_io_write() -> String {
    use std::io::Write as W;
    let mut v: Vec<u8> = Vec::new();
    v.write_all(b"ab").unwrap();
    write!(&mut v, "{}", 5).unwrap();
    writeln!(v, "x").unwrap();
    v.flush().unwrap();
    String::from_utf8(v).unwrap()
}
pub fn s_display_impl() -> String {
    struct P(i64);
    impl std::fmt::Display for P {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("P<")?;
            write!(f, "{}", self.0)?;
            f.write_char('>')
        }
    }
    format!("{} {}", P(3), P(4).to_string())
}

// ---- cells and shared pointers
pub fn p_rc() -> Vec<i64> {
    let a = Rc::new(5i64);
    let c = Rc::clone(&a);
    let w = Rc::downgrade(&a);
    let n = Rc::strong_count(&a) as i64;
    let p = Rc::ptr_eq(&a, &c);
    drop(c);
    let t = Rc::try_unwrap(a).unwrap_or(0);
    vec![n, b(p), t, b(w.upgrade().is_none())]
}
pub fn p_rc_mut() -> Vec<i64> {
    let mut a = Rc::new(vec![1, 2]);
    Rc::make_mut(&mut a).push(3);
    let c = a.clone();
    Rc::make_mut(&mut a).push(4);
    let g = Rc::get_mut(&mut a).is_some();
    let h = Rc::into_inner(c).map_or(0, |v| v.len() as i64);
    vec![a.len() as i64, b(g), h]
}
pub fn p_refcell() -> Vec<i64> {
    let r = RefCell::new(vec![1]);
    r.borrow_mut().push(2);
    let l = r.borrow().len() as i64;
    let old = r.replace(vec![9]);
    let t = r.take();
    let busy = {
        let _g = r.borrow();
        r.try_borrow_mut().is_err()
    };
    let s = Rc::new(RefCell::new(1));
    *s.borrow_mut() += 4;
    let v = *s.borrow();
    vec![l, old.len() as i64, t[0], b(busy), v, r.into_inner().len() as i64]
}
pub fn p_cell() -> Vec<i64> {
    let c = Cell::new(4);
    c.set(c.get() + 1);
    let o = c.replace(9);
    let t = c.take();
    vec![o, t, c.into_inner()]
}
pub fn p_boxed() -> Vec<i64> {
    let mut x = Box::new(3);
    *x += 1;
    let p = Box::into_raw(x);
    let y = unsafe {
        *p += 1;
        Box::from_raw(p)
    };
    let g: Box<dyn Fn(i64) -> i64> = Box::new(move |z| z + *y);
    vec![g(2)]
}
pub fn p_closures() -> Vec<i64> {
    let mut acc = vec![];
    let mut add = |x: i64| acc.push(x);
    add(1);
    add(2);
    fn twice(g: impl Fn(i64) -> i64, x: i64) -> i64 {
        g(g(x))
    }
    fn dynf(g: &dyn Fn(i64) -> i64) -> i64 {
        g(10)
    }
    let k = 3;
    acc.push(twice(|x| x * k, 2));
    acc.push(dynf(&|x| x - k));
    let fp: fn(i64) -> i64 = |x| x + 1;
    acc.push(fp(1));
    acc.extend([1, 2].into_iter().map(i64::abs));
    acc
}
pub fn p_struct_enum() -> Vec<i64> {
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
    enum E {
        A,
        B(i64),
        C { x: i64 },
    }
    #[derive(Clone, Default, PartialEq, Debug)]
    struct S {
        a: i64,
        v: Vec<i64>,
    }
    let es = [E::C { x: 3 }, E::A, E::B(2)];
    let mut sorted = es.to_vec();
    sorted.sort();
    let s = S { a: 1, ..S::default() };
    let t = S { v: vec![2], ..s.clone() };
    let val = |e: &E| match e {
        E::A => 0,
        E::B(x) if *x > 5 => 100,
        E::B(x) => *x,
        E::C { x } => x * 10,
    };
    vec![val(&sorted[0]), val(&sorted[1]), val(&sorted[2]), b(s == t), b(E::A < E::B(0)), t.v[0] + t.a, b(matches!(es[1], E::A)), b(std::mem::discriminant(&es[0]) == std::mem::discriminant(&E::C { x: 0 }))]
}
pub fn p_trait_obj() -> Vec<i64> {
    trait T {
        fn v(&self) -> i64;
        fn w(&self) -> i64 {
            self.v() * 2
        }
    }
    struct A(i64);
    struct B;
    impl T for A {
        fn v(&self) -> i64 {
            self.0
        }
    }
    impl T for B {
        fn v(&self) -> i64 {
            7
        }
        fn w(&self) -> i64 {
            1
        }
    }
    let ts: Vec<Box<dyn T>> = vec![Box::new(A(3)), Box::new(B)];
    ts.iter().map(|t| t.v() + t.w()).collect()
}
pub fn p_drop_order() -> Vec<i64> {
    struct D<'a>(i64, &'a RefCell<Vec<i64>>);
    impl Drop for D<'_> {
        fn drop(&mut self) {
            self.1.borrow_mut().push(self.0);
        }
    }
    let log = RefCell::new(vec![]);
    {
        let _a = D(1, &log);
        let c = D(2, &log);
        let _v = vec![D(3, &log), D(4, &log)];
        drop(c);
        let _ = D(5, &log);
        let o = Some(D(6, &log));
        if let Some(d) = o {
            std::mem::forget(d);
        }
    }
    log.into_inner()
}
pub fn p_ndarray() -> Vec<i64> {
    use ndarray::{Array1, Array2, Axis, arr2, array, s};
    let a = array![[1.0, 2.0], [3.0, 4.0]];
    let e: Array2<f64> = Array2::eye(2);
    let p = a.dot(&a);
    let t = a.t().to_owned();
    let mut z = Array2::<f64>::zeros((3, 3));
    z.slice_mut(s![1.., 1..]).assign(&a);
    z[[0, 0]] = 9.0;
    z[(0, 1)] = 8.0;
    let g = Array2::from_shape_fn((2, 2), |(i, j)| (i * 10 + j) as f64);
    let v: Vec<f64> = a.iter().copied().collect();
    let r1: Array1<f64> = a.row(1).to_owned();
    let c0 = a.column(0).sum();
    let m = a.mapv(|x| x * 2.0);
    let q = arr2(&[[1.0, 0.0]]);
    let n = &a + &e;
    let k = &a * 2.0;
    vec![f(p[[0, 1]]), f(t[[0, 1]]), f(z[[1, 2]]), f(z[[0, 1]]), f(g[[1, 1]]), v.len() as i64, f(r1[0]), f(c0), f(m[[1, 1]]), q.ncols() as i64, f(n[[0, 0]]), f(k[[0, 1]]), z.nrows() as i64, f(a.rows().into_iter().map(|r| r[1]).sum::<f64>()), a.shape()[1] as i64, a.dim().0 as i64, f(a.sum()), a.len() as i64, f(a.index_axis(Axis(0), 1)[0]), b(a.is_square()), f(a.indexed_iter().map(|((i, j), x)| (i + j) as f64 * x).sum::<f64>()), f(a.outer_iter().map(|r| r.sum()).product::<f64>()), f(*a.get((0, 1)).unwrap()), b(a.get((5, 0)).is_none()), f(Array2::from_shape_vec((1, 2), vec![5.0, 6.0]).unwrap()[[0, 1]]), f(Array2::from_elem((1, 1), 3.0)[[0, 0]]), f(a.diag().sum())]
}

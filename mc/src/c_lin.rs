//! C17 (sparse matrices), C18 (PETSc files), C20 (dense eigensolver).
use crate::cases::*;
use crate::c_num::near;
use crate::ctx::*;
use crate::obs::ensure;
use crate::refm::*;
use crate::uni;
use fem_2d::fem_problem::linalg::nalgebra_solve::NalgebraGEPError;
use fem_2d::fem_problem::linalg::sparse_matrix::{AIJMatrixBinary, SparseMatrix};
use fem_2d::fem_problem::linalg::{EigenPair, GEP};
use fem_2d::prelude::*;
use nalgebra::DMatrix;
use std::collections::BTreeMap;

pub fn single(ctx: &Ctx, case: String, f: &dyn Fn() -> Result<(), String>) {
    if ctx.stopped() || ctx.only.as_ref().map_or(false, |o| *o != case) {
        return;
    }
    ctx.state();
    ctx.sample(|| case.clone());
    let r = guard(f).unwrap_or_else(|p| Err(format!("panicked: {p}")));
    ctx.valid();
    ctx.check(&|| case.clone(), r);
}

// ------------------------------------------------------------------------------------------------ C17

type Ref = BTreeMap<(usize, usize), f64>;

#[derive(Clone, Debug)]
enum Op {
    Insert(usize, [usize; 2]),
    Group(usize, Vec<[usize; 2]>),
    /// matrix .0 takes everything of the other one
    Consume(usize),
}

impl Op {
    fn name(&self) -> String {
        match self {
            Op::Insert(m, p) => format!("i{m}@{}.{}", p[0], p[1]),
            Op::Group(m, v) => format!("g{m}@{}", v.iter().map(|p| format!("{}.{}", p[0], p[1])).collect::<Vec<_>>().join("/")),
            Op::Consume(m) => format!("c{m}"),
        }
    }
}

/// a sparse matrix against what was inserted into it
fn sparse_is(m: &SparseMatrix, r: &Ref, dim: usize) -> Result<(), String> {
    ensure!(m.dimension == dim, "dimension {} instead of {dim}", m.dimension);
    let it: Vec<([usize; 2], f64)> = m.iter_upper_tri().collect();
    let mut stored: Ref = BTreeMap::new();
    for (k, ([a, b], v)) in it.iter().enumerate() {
        ensure!(a <= b, "iteration yields ({a},{b}), below the diagonal");
        if k > 0 {
            ensure!(it[k - 1].0 < [*a, *b], "iteration yields {:?} and then {:?}", it[k - 1].0, [*a, *b]);
        }
        ensure!(r.contains_key(&(*a, *b)), "entry ({a},{b}) was never inserted");
        stored.insert((*a, *b), *v);
    }
    for (k, v) in r {
        match stored.get(k) {
            Some(x) => ensure!(x == v, "entry {k:?} is {x} instead of {v}"),
            None => ensure!(*v == 0.0, "entry {k:?} is missing, expected {v}"),
        }
    }
    let count = it.iter().map(|([a, b], _)| if a == b { 1 } else { 2 }).sum::<usize>();
    ensure!(m.num_entries() == count, "{} entries reported, {count} in the matrix", m.num_entries());
    let d: DMatrix<f64> = m.clone().into();
    ensure!(d.nrows() == dim && d.ncols() == dim, "dense form is {}x{}", d.nrows(), d.ncols());
    for a in 0..dim {
        for b in 0..dim {
            let want = r.get(&(a.min(b), a.max(b))).cloned().unwrap_or(0.0);
            ensure!(d[(a, b)] == want, "dense entry ({a},{b}) is {} instead of {want}", d[(a, b)]);
        }
    }
    Ok(())
}

struct Pair {
    m: [SparseMatrix; 2],
    r: [Ref; 2],
    k: i32,
}

fn value(k: i32, variant: usize) -> f64 {
    match variant {
        // distinct powers of two: every sum is exact and tells which values it contains
        0 => (2.0_f64).powi(k),
        // the same value again and again, with alternating signs: sums cancel
        1 => {
            if k % 2 == 0 {
                1.5
            } else {
                -1.5
            }
        }
        _ => 0.0,
    }
}

fn apply(p: &mut Pair, op: &Op, variant: usize) {
    let mut add = |r: &mut Ref, q: [usize; 2], v: f64| {
        *r.entry((q[0].min(q[1]), q[0].max(q[1]))).or_insert(0.0) += v;
    };
    match op {
        Op::Insert(m, q) => {
            let v = value(p.k, variant);
            p.k += 1;
            p.m[*m].insert(*q, v);
            add(&mut p.r[*m], *q, v);
        }
        Op::Group(m, qs) => {
            let mut g = vec![];
            for q in qs {
                let v = value(p.k, variant);
                p.k += 1;
                g.push((*q, v));
                add(&mut p.r[*m], *q, v);
            }
            p.m[*m].insert_group(g);
        }
        Op::Consume(m) => {
            let (a, b) = p.m.split_at_mut(1);
            let (dst, src) = if *m == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) };
            dst.consume_matrix(src);
            let other = std::mem::take(&mut p.r[1 - *m]);
            for ((x, y), v) in other {
                add(&mut p.r[*m], [x, y], v);
            }
        }
    }
}

fn alphabet(dim: usize, group: usize) -> Vec<Op> {
    let pos: Vec<[usize; 2]> = (0..dim).flat_map(|a| (0..dim).map(move |b| [a, b])).collect();
    let mut ops = vec![];
    for m in 0..2 {
        for p in &pos {
            ops.push(Op::Insert(m, *p));
        }
        let mut lists: Vec<Vec<[usize; 2]>> = vec![vec![]];
        let mut last = lists.clone();
        for _ in 0..group {
            let mut next = vec![];
            for l in &last {
                for p in &pos {
                    let mut x = l.clone();
                    x.push(*p);
                    next.push(x);
                }
            }
            lists.extend(next.clone());
            last = next;
        }
        for l in lists {
            ops.push(Op::Group(m, l));
        }
        ops.push(Op::Consume(m));
    }
    ops
}

fn c17_sequences(ctx: &Ctx, dim: usize, group: usize, depth: usize) {
    let ops = alphabet(dim, group);
    for variant in 0..2 {
        par_for(ctx, &ops, |first| {
            // depth-first over all continuations; every sequence is executed from its beginning
            let mut stack: Vec<Vec<Op>> = vec![vec![first.clone()]];
            while let Some(seq) = stack.pop() {
                if ctx.stopped() {
                    return;
                }
                let case = || format!("sequence dim {dim} values {variant}: {}", seq.iter().map(|o| o.name()).collect::<Vec<_>>().join(" "));
                let run = ctx.only.as_ref().map_or(true, |o| *o == case());
                if run {
                    ctx.state();
                    ctx.step();
                    let r = guard(|| {
                        let mut p = Pair { m: [SparseMatrix::new(dim), SparseMatrix::new(dim)], r: [Ref::new(), Ref::new()], k: 0 };
                        for o in &seq {
                            apply(&mut p, o, variant);
                        }
                        for m in 0..2 {
                            sparse_is(&p.m[m], &p.r[m], dim).map_err(|w| format!("matrix {m}: {w}"))?;
                        }
                        if let Some(Op::Consume(m)) = seq.last() {
                            ensure!(p.m[1 - m].num_entries() == 0 && p.m[1 - m].iter_upper_tri().next().is_none(), "the merged matrix is not empty");
                        }
                        let mut g = GEP::new(dim);
                        g.a = p.m[0].clone();
                        g.b = p.m[1].clone();
                        let [a, b] = g.to_nalgebra_dense_mats();
                        let (da, db): (DMatrix<f64>, DMatrix<f64>) = (p.m[0].clone().into(), p.m[1].clone().into());
                        ensure!(a == da && b == db, "the dense matrices of the problem are not those of A and B");
                        Ok(())
                    });
                    ctx.valid();
                    if !ctx.check(&case, r.unwrap_or_else(|p| Err(format!("panicked: {p}")))) {
                        return;
                    }
                }
                if seq.len() < depth {
                    for o in &ops {
                        let mut n = seq.clone();
                        n.push(o.clone());
                        stack.push(n);
                    }
                }
            }
        });
    }
}

/// merges of every pair of patterns
fn c17_merges(ctx: &Ctx, dim: usize) {
    let pos: Vec<[usize; 2]> = (0..dim).flat_map(|a| (a..dim).map(move |b| [a, b])).collect();
    let n = 1usize << pos.len();
    let items: Vec<usize> = (0..n).collect();
    par_for(ctx, &items, |&x| {
        for y in 0..n {
            single(ctx, format!("merge dim {dim} patterns {x} {y}"), &|| {
                ctx.step();
                let mut p = Pair { m: [SparseMatrix::new(dim), SparseMatrix::new(dim)], r: [Ref::new(), Ref::new()], k: 0 };
                for (bits, m) in [(x, 0), (y, 1)] {
                    for (k, q) in pos.iter().enumerate() {
                        if bits == usize::MAX || (k < 64 && bits >> k & 1 == 1) {
                            apply(&mut p, &Op::Insert(m, if k % 2 == 0 { *q } else { [q[1], q[0]] }), 0);
                        }
                    }
                }
                apply(&mut p, &Op::Consume(0), 0);
                for m in 0..2 {
                    sparse_is(&p.m[m], &p.r[m], dim).map_err(|w| format!("matrix {m}: {w}"))?;
                }
                Ok(())
            });
        }
    });
}

/// every value from the smallest to the largest, at every position, along every way into a matrix
fn c17_values(ctx: &Ctx) {
    let mut vals: Vec<f64> = (-323..=308).step_by(ctx.pick(7, 1)).flat_map(|e| [format!("1e{e}"), format!("-7.7e{}", e.min(307))]).map(|t| t.parse().unwrap()).collect();
    vals.extend([0.0, 0.1, 1.0 / 3.0, -2.0 / 3.0, 1.0 + f64::EPSILON, 1e15 + 0.3, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, std::f64::consts::PI]);
    par_for(ctx, &vals, |&v| {
        for pos in (0..9).map(|k| [k / 3, k % 3]) {
            single(ctx, format!("value {v:e} at {pos:?}"), &|| {
                let key = (pos[0].min(pos[1]), pos[0].max(pos[1]));
                let r: Ref = [(key, v)].into();
                for way in 0..5 {
                    ctx.step();
                    let (mut m, mut o, mut r) = (SparseMatrix::new(3), SparseMatrix::new(3), r.clone());
                    match way {
                        0 => m.insert(pos, v),
                        1 => m.insert_group(vec![(pos, v)]),
                        2 => {
                            o.insert(pos, v);
                            m.consume_matrix(&mut o);
                        }
                        3 => {
                            // beside other entries
                            for q in [(0, 0), (1, 2), (2, 2)] {
                                if q != key {
                                    m.insert([q.1, q.0], 0.3);
                                    r.insert(q, 0.3);
                                }
                            }
                            o.insert_group(vec![(pos, v)]);
                            m.consume_matrix(&mut o);
                        }
                        _ => {
                            // half and half: sums to the same, exactly
                            if v.abs() < 1e-300 {
                                continue;
                            }
                            m.insert(pos, v / 2.0);
                            m.insert_group(vec![([pos[1], pos[0]], v / 2.0)]);
                        }
                    }
                    sparse_is(&m, &r, 3).map_err(|w| format!("way {way}: {w}"))?;
                }
                Ok(())
            });
        }
    });
}

fn c17_refusals(ctx: &Ctx) {
    for dim in 0..=3usize {
        let bad = [dim, dim + 1, dim + 2, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, usize::MAX];
        let all: Vec<usize> = (0..dim).chain(bad).collect();
        for &a in &all {
            for &b in &all {
                if a < dim && b < dim {
                    continue;
                }
                single(ctx, format!("out of range dim {dim} ({a},{b})"), &|| {
                    ctx.step();
                    let mut m = SparseMatrix::new(dim);
                    let mut r = Ref::new();
                    if dim > 0 {
                        m.insert([dim - 1, 0], 2.0);
                        r.insert((0, dim - 1), 2.0);
                    }
                    ensure!(guard(|| m.insert([a, b], 1.0)).is_err(), "an insert at ({a},{b}) is accepted");
                    sparse_is(&m, &r, dim).map_err(|w| format!("after a refused insert: {w}"))?;
                    for before in 0..=1 {
                        let mut g = vec![];
                        if dim > 0 && before == 1 {
                            g.push(([0, 0], 1.0));
                        }
                        g.push(([a, b], 1.0));
                        if dim > 0 {
                            g.push(([0, 0], 1.0));
                        }
                        let mut m = SparseMatrix::new(dim);
                        ensure!(guard(|| m.insert_group(g)).is_err(), "a group with ({a},{b}) is accepted");
                        for ([x, y], _) in m.iter_upper_tri() {
                            ensure!(x < dim && y < dim, "a refused group left entry ({x},{y}) behind");
                        }
                    }
                    Ok(())
                });
            }
        }
        for other in 0..=4usize {
            if other == dim {
                continue;
            }
            for (fa, fb) in [(false, false), (false, true), (true, false), (true, true)] {
                single(ctx, format!("merge of dimensions {dim} {other} filled {fa} {fb}"), &|| {
                    ctx.step();
                    let mut a = SparseMatrix::new(dim);
                    let mut b = SparseMatrix::new(other);
                    let (mut ra, mut rb) = (Ref::new(), Ref::new());
                    if fa && dim > 0 {
                        a.insert([0, 0], 1.0);
                        ra.insert((0, 0), 1.0);
                    }
                    if fb && other > 0 {
                        b.insert([0, other - 1], 2.0);
                        rb.insert((0, other - 1), 2.0);
                    }
                    ensure!(guard(|| a.consume_matrix(&mut b)).is_err(), "matrices of dimensions {dim} and {other} are merged");
                    sparse_is(&a, &ra, dim).map_err(|w| format!("target after a refused merge: {w}"))?;
                    sparse_is(&b, &rb, other).map_err(|w| format!("source after a refused merge: {w}"))?;
                    Ok(())
                });
            }
        }
    }
    // positions at the far end of the index range
    for dim in [1usize << 16, (1 << 31) + 5, u32::MAX as usize] {
        single(ctx, format!("large dimension {dim}"), &|| {
            let mut m = SparseMatrix::new(dim);
            let ps = [[0, dim - 1], [dim - 1, dim - 1], [dim - 2, 1], [dim - 1, 0], [0, 0]];
            let mut r = Ref::new();
            for (k, p) in ps.iter().enumerate() {
                ctx.step();
                m.insert(*p, (2.0_f64).powi(k as i32));
                *r.entry((p[0].min(p[1]), p[0].max(p[1]))).or_insert(0.0) += (2.0_f64).powi(k as i32);
            }
            m.insert_group(ps.iter().map(|p| (*p, 64.0)).collect());
            for p in &ps {
                *r.get_mut(&(p[0].min(p[1]), p[0].max(p[1]))).unwrap() += 64.0;
            }
            let got: Vec<_> = m.iter_upper_tri().collect();
            let want: Vec<_> = r.iter().map(|(k, v)| ([k.0, k.1], *v)).collect();
            ensure!(got == want, "entries {got:?} instead of {want:?}");
            ensure!(m.num_entries() == 6, "{} entries reported instead of 6", m.num_entries());
            ensure!(guard(|| m.insert([dim, 0], 1.0)).is_err(), "an insert at row {dim} is accepted");
            ensure!(guard(|| m.insert([0, dim], 1.0)).is_err(), "an insert at column {dim} is accepted");
            Ok(())
        });
    }
    // every pair of positions around the powers of two that index types end at
    for dim in [300usize, 70_000, 1 << 20, (1 << 24) + 5, u32::MAX as usize] {
        let mut at: Vec<usize> = [0usize, 1, 8, 16, 24, 31].iter().flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).chain([2, 99, 131, 999, 1000, 40_000, dim / 2, dim - 2, dim - 1]).filter(|k| *k < dim).collect();
        at.sort();
        at.dedup();
        let mut prs: Vec<[usize; 2]> = at.iter().flat_map(|a| at.iter().map(move |b| [*a, *b])).collect();
        for order in 0..4 {
            match order {
                1 => prs.reverse(),
                2 => prs.sort_by_key(|p| (p[0] * 7919 + p[1] * 104729) % 65_537),
                _ => (),
            }
            for how in 0..3 {
                single(ctx, format!("positions of dimension {dim} order {order} {}", ["singly", "group", "merge"][how]), &|| {
                    ctx.step();
                    let vals: Vec<([usize; 2], f64)> = prs.iter().enumerate().filter(|(k, p)| order < 3 || k % 3 == 0 || p[0] > p[1]).map(|(k, p)| (*p, 1.0 + k as f64)).collect();
                    let mut r = Ref::new();
                    for (p, v) in &vals {
                        *r.entry((p[0].min(p[1]), p[0].max(p[1]))).or_insert(0.0) += v;
                    }
                    let mut m = SparseMatrix::new(dim);
                    let mut o = SparseMatrix::new(dim);
                    match how {
                        0 => vals.iter().for_each(|(p, v)| m.insert(*p, *v)),
                        1 => m.insert_group(vals),
                        _ => {
                            let h = vals.len() / 2;
                            m.insert_group(vals[..h].to_vec());
                            o.insert_group(vals[h..].to_vec());
                            m.consume_matrix(&mut o);
                            ensure!(o.num_entries() == 0 && o.iter_upper_tri().next().is_none(), "the merged matrix is not empty");
                        }
                    }
                    let mut got = m.iter_upper_tri();
                    for (k, v) in &r {
                        let g = got.next();
                        ensure!(g == Some(([k.0, k.1], *v)), "entry {g:?} instead of {:?}", (k, v));
                    }
                    let both: usize = r.keys().map(|k| 1 + (k.0 != k.1) as usize).sum();
                    ensure!(got.next().is_none() && m.num_entries() == both, "{} entries reported instead of {both}", m.num_entries());
                    Ok(())
                });
            }
        }
    }
    single(ctx, "dimension above the index range".into(), &|| {
        ensure!(guard(|| SparseMatrix::new(1 << 32)).is_err(), "a dimension of 2^32 is accepted");
        Ok(())
    });
}

/// all sequences of bulk operations: whole families of positions, in several orders, inserted one by one, as one group, or merged
fn c17_bulk(ctx: &Ctx, dim: usize, depth: usize) {
    let fams: Vec<(&'static str, Vec<(usize, usize)>)> = families(dim).into_iter().filter(|(n, _)| ["dense", "tridiagonal", "last column", "arrow", "checkered"].contains(n)).collect();
    let mut ops: Vec<(usize, usize, usize)> = vec![];
    for f in 0..fams.len() {
        for order in 0..5 {
            for how in 0..3 {
                ops.push((f, order, how));
            }
        }
    }
    let listed = |f: usize, order: usize| -> Vec<[usize; 2]> {
        let up: Vec<[usize; 2]> = fams[f].1.iter().map(|&(a, b)| [a, b]).collect();
        match order {
            0 => up,
            1 => up.into_iter().rev().collect(),
            2 => up.into_iter().map(|[a, b]| [b, a]).collect(),
            3 => (0..7).flat_map(|r| up.iter().copied().skip(r).step_by(7).collect::<Vec<_>>()).collect(),
            // everything twice, from both sides
            _ => up.iter().copied().chain(up.iter().map(|[a, b]| [*b, *a])).collect(),
        }
    };
    let mut seqs: Vec<Vec<(usize, usize, usize)>> = ops.iter().map(|o| vec![*o]).collect();
    let mut last = seqs.clone();
    for _ in 1..depth {
        last = last.iter().flat_map(|s| ops.iter().map(move |o| s.iter().copied().chain([*o]).collect())).collect();
        seqs.extend(last.clone());
    }
    par_for(ctx, &seqs, |seq| {
        let name = seq.iter().map(|(f, o, h)| format!("{} order {o} {}", fams[*f].0, ["singly", "group", "merge"][*h])).collect::<Vec<_>>().join(", ");
        single(ctx, format!("bulk dim {dim}: {name}"), &|| {
            ctx.step();
            let mut p = Pair { m: [SparseMatrix::new(dim), SparseMatrix::new(dim)], r: [Ref::new(), Ref::new()], k: 0 };
            let mut k = 0;
            for &(f, o, h) in seq {
                // integers below 2^20: sums are exact
                let vals: Vec<([usize; 2], f64)> = listed(f, o)
                    .into_iter()
                    .map(|q| {
                        k += 1;
                        (q, (k * 37 % 4099) as f64 - 2000.5)
                    })
                    .collect();
                for (q, v) in &vals {
                    *p.r[0].entry((q[0].min(q[1]), q[0].max(q[1]))).or_insert(0.0) += v;
                }
                let t = (h == 2) as usize;
                if h == 0 {
                    vals.iter().for_each(|(q, v)| p.m[0].insert(*q, *v));
                } else {
                    p.m[t].insert_group(vals);
                }
                if h == 2 {
                    let (a, b) = p.m.split_at_mut(1);
                    a[0].consume_matrix(&mut b[0]);
                    ensure!(p.m[1].num_entries() == 0 && p.m[1].iter_upper_tri().next().is_none(), "the merged matrix is not empty");
                }
            }
            sparse_is(&p.m[0], &p.r[0], dim)
        });
    });
}

pub fn c17() -> i32 {
    let ctx = Ctx::new("C17");
    c17_bulk(&ctx, 9, ctx.pick(2, 3));
    c17_bulk(&ctx, 24, 2);
    c17_bulk(&ctx, 300, 1);
    c17_values(&ctx);
    c17_refusals(&ctx);
    c17_sequences(&ctx, 1, 3, ctx.pick(5, 6));
    c17_sequences(&ctx, 2, 2, ctx.pick(3, 4));
    c17_sequences(&ctx, 2, 0, ctx.pick(5, 6));
    c17_sequences(&ctx, 3, 2, ctx.pick(2, 3));
    c17_sequences(&ctx, 3, 0, ctx.pick(4, 5));
    for d in 1..=ctx.pick(3, 4) {
        c17_merges(&ctx, d);
    }
    ctx.finish(
        "model_checking",
        "all sequences of inserts, group inserts (of up to 2-3 entries) and merges, in both directions, over two matrices of dimension 1 to 3 up to the stated depth, with values whose sums are exact, distinct or cancelling; merges of every pair of patterns; every pair (9x9 thorough: triple) of bulk operations on 9x9 and 24x24 and every one on 300x300 matrices: five families of positions, five orders, inserted singly, as a group, or merged; every out-of-range position of a boundary alphabet; every pair of different small dimensions; all pairs of some twenty positions around powers of two in dimensions 300 to 2^32-1",
        &["an entry whose values cancel may be stored as zero or dropped", "what a refused group insert leaves of its earlier entries is not judged"],
    )
}

// ------------------------------------------------------------------------------------------------ C18

fn extreme(k: usize) -> f64 {
    let v = [
        1.0 / 3.0,
        -0.0,
        f64::MAX,
        f64::MIN_POSITIVE,
        -5e-324,
        f64::INFINITY,
        -1.0,
        0.0,
        1e-300,
        -2.0f64.powi(53) - 1.0,
        f64::NAN,
        std::f64::consts::PI,
        f64::MIN,
        f64::NEG_INFINITY,
        256.0,
        -1e22,
    ];
    v[k % v.len()]
}

/// decode a file and compare it with the entries (upper triangle)
pub fn petsc_is(bytes: &[u8], dim: usize, ent: &BTreeMap<(usize, usize), f64>) -> Result<(), String> {
    let mut full: BTreeMap<(usize, usize), f64> = BTreeMap::new();
    for (&(r, c), &v) in ent {
        full.insert((r, c), v);
        full.insert((c, r), v);
    }
    let need = 16 + 4 * dim + 12 * full.len();
    ensure!(bytes.len() == need, "{} bytes instead of {need}", bytes.len());
    let i32at = |o: usize| i32::from_be_bytes(bytes[o..o + 4].try_into().unwrap());
    ensure!(i32at(0) == 1211216, "class id {} instead of 1211216", i32at(0));
    ensure!(i32at(4) as usize == dim && i32at(8) as usize == dim, "dimensions {} x {} instead of {dim}", i32at(4), i32at(8));
    ensure!(i32at(12) as usize == full.len(), "{} entries instead of {}", i32at(12), full.len());
    let cols = 16 + 4 * dim;
    let vals = cols + 4 * full.len();
    let mut k = 0;
    let mut got: BTreeMap<(usize, usize), u64> = BTreeMap::new();
    for r in 0..dim {
        let n = i32at(16 + 4 * r);
        let want = full.range((r, 0)..(r + 1, 0)).count();
        ensure!(n as usize == want, "row {r} has {n} entries instead of {want}");
        let mut last = -1;
        for _ in 0..n {
            let c = i32at(cols + 4 * k);
            ensure!(c > last && (c as usize) < dim, "column {c} after column {last} in row {r}");
            last = c;
            let b = u64::from_be_bytes(bytes[vals + 8 * k..vals + 8 * k + 8].try_into().unwrap());
            got.insert((r, c as usize), b);
            k += 1;
        }
    }
    for (p, v) in &full {
        // a zero that was summed has no sign worth keeping
        let same = got.get(p).map_or(false, |b| *b == v.to_bits() || (*v == 0.0 && f64::from_bits(*b) == 0.0));
        ensure!(same, "entry {p:?} is {:?} instead of {v:e}", got.get(p).map(|b| f64::from_bits(*b)));
    }
    ensure!(got.len() == full.len(), "{} distinct positions instead of {}", got.len(), full.len());
    Ok(())
}

pub fn build(dim: usize, bits: usize, shift: usize) -> (SparseMatrix, BTreeMap<(usize, usize), f64>) {
    let mut m = SparseMatrix::new(dim);
    let mut e = BTreeMap::new();
    let mut k = 0;
    for a in 0..dim {
        for b in a..dim {
            if bits == usize::MAX || (k < 64 && bits >> k & 1 == 1) {
                let v = extreme(k + shift);
                m.insert(if k % 2 == 0 { [a, b] } else { [b, a] }, v);
                e.insert((a, b), v);
            }
            k += 1;
        }
    }
    (m, e)
}

fn c18_patterns(ctx: &Ctx, dim: usize) {
    let nb = dim * (dim + 1) / 2;
    let chunks: Vec<usize> = (0..(1usize << nb)).step_by(64).collect();
    par_for(ctx, &chunks, |&c| {
        let tag = crate::c_io::thread_tag();
        let p = ctx.scratch.join(format!("m_{tag}.dat"));
        let p = p.to_str().unwrap().to_string();
        for bits in c..(c + 64).min(1 << nb) {
            single(ctx, format!("dim {dim} pattern {bits}"), &|| {
                for shift in [0, 5, 11] {
                    ctx.step();
                    let (m, e) = build(dim, bits, shift);
                    let aij = AIJMatrixBinary::from(m.clone());
                    let n = e.iter().map(|((a, b), _)| if a == b { 1 } else { 2 }).sum::<usize>();
                    ensure!(aij.dim == dim && aij.a.len() == n && aij.j.len() == n && aij.i.len() == dim, "{} values, {} columns, {} rows, dimension {}", aij.a.len(), aij.j.len(), aij.i.len(), aij.dim);
                    if shift == 5 {
                        // something longer is already there
                        std::fs::write(&p, vec![0xAA; 4096]).unwrap();
                    } else {
                        let _ = std::fs::remove_file(&p);
                    }
                    aij.print_to_petsc_binary_file(&p).map_err(|e| format!("writing fails: {e}"))?;
                    petsc_is(&std::fs::read(&p).unwrap(), dim, &e)?;
                    let first = std::fs::read(&p).unwrap();
                    std::fs::remove_file(&p).unwrap();
                    m.write_to_petsc_binary_format(&p).map_err(|e| format!("writing fails: {e}"))?;
                    ensure!(std::fs::read(&p).unwrap() == first, "write_to_petsc_binary_format writes another file than print_to_petsc_binary_file");
                    ensure!(m.num_entries() == n, "writing changed the matrix");
                }
                Ok(())
            });
        }
    });
}

/// every byte at which the writing of a file can fail (before any thread is started: forks)
fn c18_cut_short(ctx: &Ctx) {
    let p = ctx.scratch.join("cut.dat");
    let p = p.to_str().unwrap();
    for dim in [1usize, 3, 40] {
        let (m, e) = build(dim, usize::MAX, 1);
        let aij = AIJMatrixBinary::from(m.clone());
        let size = (16 + 4 * dim + 12 * e.keys().map(|(a, b)| if a == b { 1 } else { 2 }).sum::<usize>()) as u64;
        let limits: Vec<u64> = if size < 1000 { (0..=size + 1).collect() } else { (0..size).step_by(509).chain([4095, 4096, 8191, 8192, 8193, 16384, size - 1, size, size + 1]).collect() };
        for limit in limits {
            for which in 0..2 {
                single(ctx, format!("dim {dim}: the file can not grow beyond {limit} of {size} bytes, method {which}"), &|| {
                    ctx.step();
                    let _ = std::fs::remove_file(p);
                    let ok = with_file_size_limit(limit, || if which == 0 { aij.print_to_petsc_binary_file(p).is_ok() } else { m.write_to_petsc_binary_format(p).is_ok() })?;
                    ensure!(ok == (limit >= size), "the export {}", if ok { "reports success" } else { "fails" });
                    if ok {
                        petsc_is(&std::fs::read(p).unwrap(), dim, &e)?;
                    }
                    Ok(())
                });
            }
        }
    }
}

/// families with a regular structure, larger than any buffer
fn families(dim: usize) -> Vec<(&'static str, Vec<(usize, usize)>)> {
    let all = |f: &dyn Fn(usize, usize) -> bool| -> Vec<(usize, usize)> { (0..dim).flat_map(|a| (a..dim).map(move |b| (a, b))).filter(|&(a, b)| f(a, b)).collect() };
    vec![
        ("empty", vec![]),
        ("dense", all(&|_, _| true)),
        ("diagonal", all(&|a, b| a == b)),
        ("tridiagonal", all(&|a, b| b - a <= 1)),
        ("arrow", all(&|a, b| a == 0 || a == b)),
        ("last column", all(&|_, b| b == dim - 1)),
        ("checkered", all(&|a, b| (a + b) % 2 == 1)),
        ("empty rows", all(&|a, b| a % 3 == 1 && b % 3 == 1)),
        ("antidiagonal", all(&|a, b| a + b == dim - 1)),
    ]
}

/// one large matrix
fn large(ctx: &Ctx, dim: usize, ps: &[(usize, usize)]) -> Result<(), String> {
    ctx.step();
    let mut m = SparseMatrix::new(dim);
    let mut e = BTreeMap::new();
    for (k, &(a, b)) in ps.iter().enumerate() {
        let v = k as f64 + 0.1;
        m.insert([b, a], v);
        e.insert((a, b), v);
    }
    let p = ctx.scratch.join(format!("large_{}.dat", crate::c_io::thread_tag()));
    let p = p.to_str().unwrap();
    m.write_to_petsc_binary_format(p).map_err(|e| format!("writing fails: {e}"))?;
    let r = petsc_is(&std::fs::read(p).unwrap(), dim, &e);
    let _ = std::fs::remove_file(p);
    r
}

pub fn gep_of(a: &(SparseMatrix, BTreeMap<(usize, usize), f64>), b: &(SparseMatrix, BTreeMap<(usize, usize), f64>)) -> GEP {
    let mut g = GEP::new(a.0.dimension);
    g.a = a.0.clone();
    g.b = b.0.clone();
    g
}

pub fn c18() -> i32 {
    let ctx = Ctx::new("C18");
    c18_cut_short(&ctx);
    for d in 0..=ctx.pick(4, 6) {
        c18_patterns(&ctx, d);
    }
    for dim in [7, 33, 64, ctx.pick(100, 400)] {
        for (name, ps) in families(dim) {
            single(&ctx, format!("family {name} {dim}"), &|| {
                ctx.step();
                let mut m = SparseMatrix::new(dim);
                let mut e = BTreeMap::new();
                for (k, &(a, b)) in ps.iter().enumerate() {
                    let v = if k % 7 == 0 { extreme(k / 7) } else { k as f64 + 0.1 };
                    m.insert([b, a], v);
                    e.insert((a, b), v);
                }
                let p = ctx.scratch.join("family.dat");
                let p = p.to_str().unwrap();
                AIJMatrixBinary::from(m.clone()).print_to_petsc_binary_file(p).map_err(|e| format!("writing fails: {e}"))?;
                petsc_is(&std::fs::read(p).unwrap(), dim, &e)
            });
        }
    }
    // more rows and entries than two bytes can count
    for dim in [257usize, 300, ctx.pick(370, 1500)] {
        for (name, ps) in families(dim).into_iter().filter(|f| ["dense", "last column", "checkered"].contains(&f.0)) {
            single(&ctx, format!("family {name} {dim}"), &|| large(&ctx, dim, &ps));
        }
    }
    for dim in [65535usize, 65536, 65537, 70001] {
        let fams: Vec<(&str, Vec<(usize, usize)>)> = vec![
            ("diagonal", (0..dim).map(|k| (k, k)).collect()),
            ("tridiagonal", (0..dim).map(|k| (k, k)).chain((1..dim).map(|k| (k - 1, k))).collect()),
            ("last column", (0..dim).map(|k| (k, dim - 1)).collect()),
            ("one entry", vec![(3, dim - 1)]),
            ("every 300th row", (0..dim).step_by(300).map(|k| (k, k)).collect()),
        ];
        par_for(&ctx, &fams, |(name, ps)| single(&ctx, format!("family {name} {dim}"), &|| large(&ctx, dim, ps)));
    }
    // two matrices, two files
    for dim in 0..=3usize {
        let nb = dim * (dim + 1) / 2;
        for x in 0..1usize << nb {
            for y in 0..1usize << nb {
                single(&ctx, format!("problem dim {dim} patterns {x} {y}"), &|| {
                    ctx.step();
                    let d = ctx.scratch.join("gep");
                    let _ = std::fs::remove_dir_all(&d);
                    std::fs::create_dir_all(d.join("tmp")).unwrap();
                    let (a, b) = (build(dim, x, 0), build(dim, y, 3));
                    gep_of(&a, &b).print_to_petsc_binary_files(d.to_str().unwrap(), "pre_fix").map_err(|e| format!("writing fails: {e}"))?;
                    let mut names: Vec<String> = std::fs::read_dir(d.join("tmp")).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
                    names.sort();
                    ensure!(names == ["pre_fix_a.dat", "pre_fix_b.dat"], "files {names:?}");
                    petsc_is(&std::fs::read(d.join("tmp/pre_fix_a.dat")).unwrap(), dim, &a.1).map_err(|w| format!("A: {w}"))?;
                    petsc_is(&std::fs::read(d.join("tmp/pre_fix_b.dat")).unwrap(), dim, &b.1).map_err(|w| format!("B: {w}"))?;
                    Ok(())
                });
            }
        }
    }
    // unwritable locations, for files smaller and larger than a write buffer
    for dim in [0usize, 1, 3, 60] {
        for (kind, path) in [("missing directory", ctx.scratch.join("absent/x.dat")), ("a directory", ctx.scratch.clone()), ("a full device", "/dev/full".into()), ("an empty path", "".into())] {
            single(&ctx, format!("unwritable dim {dim}: {kind}"), &|| {
                ctx.step();
                let mut m = SparseMatrix::new(dim);
                for a in 0..dim {
                    for b in 0..=a {
                        m.insert([a, b], 1.0);
                    }
                }
                let p = path.to_str().unwrap();
                ensure!(AIJMatrixBinary::from(m.clone()).print_to_petsc_binary_file(p).is_err(), "writing to {kind} reports success");
                ensure!(m.write_to_petsc_binary_format(p).is_err(), "write_to_petsc_binary_format to {kind} reports success");
                Ok(())
            });
        }
        for (kind, blocked) in [("no tmp directory", None), ("A's file blocked", Some("q_a.dat")), ("B's file blocked", Some("q_b.dat"))] {
            for full in [false, true] {
                if blocked.is_none() && full {
                    continue;
                }
                single(&ctx, format!("problem dim {dim}: {kind} full {full}"), &|| {
                    ctx.step();
                    let d = ctx.scratch.join("gep2");
                    let _ = std::fs::remove_dir_all(&d);
                    std::fs::create_dir_all(&d).unwrap();
                    if let Some(b) = blocked {
                        std::fs::create_dir_all(d.join("tmp")).unwrap();
                        if full {
                            std::os::unix::fs::symlink("/dev/full", d.join("tmp").join(b)).unwrap();
                        } else {
                            std::fs::create_dir_all(d.join("tmp").join(b)).unwrap();
                        }
                    }
                    let mut g = GEP::new(dim);
                    for a in 0..dim {
                        g.a.insert([a, a], 1.0);
                        g.b.insert([a, a], 1.0);
                    }
                    ensure!(g.print_to_petsc_binary_files(d.to_str().unwrap(), "q").is_err(), "exporting with {kind} reports success");
                    Ok(())
                });
            }
        }
    }
    ctx.finish(
        "model_checking",
        "every sparsity pattern of matrices of dimension 0 to 4 (quick) or 6 (thorough) with three assignments of distinguishable and extreme values, nine structured families up to dimension 100 (400), three up to 370 (1500; more entries than two bytes can count), five around dimension 65536; every pair of patterns of dimension up to 3 for the two-file export; the bytes are decoded and compared bit for bit; unwritable locations of every kind for files of several sizes",
        &["values are stored by a single insert each; sums are C17's subject"],
    )
}

// ------------------------------------------------------------------------------------------------ C20

/// eigenvalues and eigenvectors of a symmetric matrix (Jacobi rotations)
pub fn jacobi(n: usize, a: &[f64]) -> (Vec<f64>, Vec<Vec<f64>>) {
    let mut a = a.to_vec();
    let mut v = vec![0.0; n * n];
    for k in 0..n {
        v[k * n + k] = 1.0;
    }
    for _ in 0..100 {
        let off: f64 = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| i != j).map(|(i, j)| a[i * n + j].powi(2)).sum();
        let tot: f64 = a.iter().map(|x| x * x).sum();
        if off <= 1e-32 * tot || off == 0.0 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                let apq = a[p * n + q];
                if apq == 0.0 {
                    continue;
                }
                let th = (a[q * n + q] - a[p * n + p]) / (2.0 * apq);
                let t = (if th >= 0.0 { 1.0 } else { -1.0 }) / (th.abs() + (th * th + 1.0).sqrt());
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k * n + p], a[k * n + q]);
                    a[k * n + p] = c * x - s * y;
                    a[k * n + q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p * n + k], a[q * n + k]);
                    a[p * n + k] = c * x - s * y;
                    a[q * n + k] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[k * n + p], v[k * n + q]);
                    v[k * n + p] = c * x - s * y;
                    v[k * n + q] = s * x + c * y;
                }
            }
        }
    }
    let vals = (0..n).map(|k| a[k * n + k]).collect();
    let vecs = (0..n).map(|k| (0..n).map(|r| v[r * n + k]).collect()).collect();
    (vals, vecs)
}

pub fn cholesky(n: usize, b: &[f64]) -> Option<Vec<f64>> {
    let mut l = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = b[i * n + j];
            for k in 0..j {
                s -= l[i * n + k] * l[j * n + k];
            }
            if i == j {
                if s <= 0.0 {
                    return None;
                }
                l[i * n + i] = s.sqrt();
            } else {
                l[i * n + j] = s / l[j * n + j];
            }
        }
    }
    Some(l)
}

/// B^-1 A and L^-1 A L^-T
pub fn reduced(n: usize, a: &[f64], l: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let fwd = |m: &mut Vec<f64>| {
        for c in 0..n {
            for r in 0..n {
                let mut s = m[r * n + c];
                for k in 0..r {
                    s -= l[r * n + k] * m[k * n + c];
                }
                m[r * n + c] = s / l[r * n + r];
            }
        }
    };
    let mut y = a.to_vec();
    fwd(&mut y); // L^-1 A
    let mut ba = y.clone();
    for c in 0..n {
        for r in (0..n).rev() {
            let mut s = ba[r * n + c];
            for k in r + 1..n {
                s -= l[k * n + r] * ba[k * n + c];
            }
            ba[r * n + c] = s / l[r * n + r];
        }
    }
    let mut t: Vec<f64> = (0..n * n).map(|k| y[(k % n) * n + k / n]).collect(); // (L^-1 A)^T
    fwd(&mut t);
    (ba, t)
}

const MISMATCH: &str = "eigenpair-of-the-lower-triangle-of-b-inverse-a";

/// the outcome of one solve against the reference; Err is a violation
fn judge(ctx: &Ctx, case: &str, n: usize, a: &[f64], b: &[f64], pd: Option<bool>, target: f64, got: &Result<EigenPair, NalgebraGEPError>) -> Result<(), String> {
    let name = |r: &Result<EigenPair, NalgebraGEPError>| match r {
        Ok(p) => format!("eigenvalue {:e}", p.value),
        Err(e) => format!("{e:?}"),
    };
    if n > 1000 {
        ensure!(matches!(got, Err(NalgebraGEPError::ProblemTooLarge)), "a problem of dimension {n} gives {}", name(got));
        return Ok(());
    }
    if pd == Some(false) {
        ensure!(matches!(got, Err(NalgebraGEPError::FailedToInvertB)), "B is not positive definite, but the result is {}", name(got));
        ctx.outcome("B refused");
        return Ok(());
    }
    let l = cholesky(n, b).ok_or("reference factorisation failed")?;
    let (ba, t) = reduced(n, a, &l);
    let sym: Vec<f64> = (0..n * n).map(|k| (t[k] + t[(k % n) * n + k / n]) / 2.0).collect();
    let (ev, _) = jacobi(n, &sym);
    let scale = ev.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if scale < 1e-13 {
        ensure!(matches!(got, Err(NalgebraGEPError::SpuriouslyConverged)), "all eigenvalues are zero, but the result is {}", name(got));
        ctx.outcome("all zero");
        return Ok(());
    }
    ensure!(scale > 1e-10, "harness: eigenvalues too close to the threshold");
    let p = match got {
        Ok(p) => p,
        Err(e) => {
            // symmetrising the lower triangle can only give all zeros if that triangle is zero
            return Err(format!("eigenvalues {ev:?} exist, but the result is {e:?}"));
        }
    };
    ensure!(p.vector.len() == n, "the eigenvector has {} entries instead of {n}", p.vector.len());
    ensure!(p.value.is_finite() && p.vector.iter().all(|x| x.is_finite()), "the eigenpair is not finite");
    let norm = p.vector.iter().map(|x| x * x).sum::<f64>().sqrt();
    ensure!(norm > 1e-6, "the eigenvector is zero");
    let best = ev.iter().fold(f64::MAX, |m, x| m.min((x - target).abs()));
    let mut res = 0.0f64;
    let (mut na, mut nb) = (0.0f64, 0.0f64);
    for r in 0..n {
        let (mut x, mut y) = (0.0, 0.0);
        for c in 0..n {
            x += a[r * n + c] * p.vector[c];
            y += b[r * n + c] * p.vector[c];
            na = na.max(a[r * n + c].abs());
            nb = nb.max(b[r * n + c].abs());
        }
        res = res.max((x - p.value * y).abs());
    }
    let cond = nb * n as f64 / (0..n).map(|k| l[k * n + k].powi(2)).fold(f64::MAX, f64::min);
    let tol = 1e-11 * cond * (1.0 + scale) + 1e-15 * target.abs();
    let size = (na + p.value.abs() * nb) * norm * n as f64;
    let right = res <= 1e-11 * cond * size && ((p.value - target).abs() - best).abs() <= tol;
    if right {
        ctx.outcome("nearest eigenpair");
        return Ok(());
    }
    // the recorded deviation: the pair belongs to the matrix made of the lower triangle of B^-1 A
    let asym = (0..n * n).map(|k| (ba[k] - ba[(k % n) * n + k / n]).abs()).fold(0.0f64, f64::max);
    let what = format!("eigenvalue {:e}, residual {:e} (target {target}, true eigenvalues {ev:?})", p.value, res / size);
    let low: Vec<f64> = (0..n * n).map(|k| if k / n >= k % n { ba[k] } else { ba[(k % n) * n + k / n] }).collect();
    let (lv, _) = jacobi(n, &low);
    let lscale = lv.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let lbest = lv.iter().fold(f64::MAX, |m, x| m.min((x - target).abs()));
    let ltol = 1e-11 * cond * (1.0 + lscale) + 1e-15 * target.abs();
    let lres = low_residual(n, &low, p.value, &p.vector);
    if ((p.value - target).abs() - lbest).abs() <= ltol {
        if asym > 1e-9 * (1.0 + scale) && lres <= ltol * norm {
            ctx.outcome("known deviation: lower triangle");
            ctx.deviate(MISMATCH, case, what);
            return Ok(());
        }
    }
    Err(what)
}

fn low_residual(n: usize, m: &[f64], l: f64, v: &[f64]) -> f64 {
    (0..n).map(|r| ((0..n).map(|c| m[r * n + c] * v[c]).sum::<f64>() - l * v[r]).abs()).fold(0.0f64, f64::max)
}

fn solve(ctx: &Ctx, case: &str, n: usize, a: &[f64], b: &[f64], pd: Option<bool>, target: f64) -> Result<(), String> {
    ctx.step();
    let mut g = GEP::new(n);
    for r in 0..n {
        for c in r..n {
            if a[r * n + c] != 0.0 {
                g.a.insert([r, c], a[r * n + c]);
            }
            if b[r * n + c] != 0.0 {
                g.b.insert([c, r], b[r * n + c]);
            }
        }
    }
    let got = guard(|| nalgebra_solve_gep(g, target)).map_err(|p| format!("panicked: {p}"))?;
    judge(ctx, case, n, a, b, pd, target, &got)
}

fn unpack(n: usize, mut code: usize, vals: &[f64]) -> Vec<f64> {
    let mut m = vec![0.0; n * n];
    for r in 0..n {
        for c in r..n {
            let v = vals[code % vals.len()];
            code /= vals.len();
            m[r * n + c] = v;
            m[c * n + r] = v;
        }
    }
    m
}

/// Some(is B positive definite), None if it is singular to rounding
fn definite(n: usize, b: &[f64]) -> Option<bool> {
    let low = jacobi(n, b).0.into_iter().fold(f64::MAX, f64::min);
    if low > 1e-9 {
        Some(true)
    } else if low < -1e-9 {
        Some(false)
    } else {
        None
    }
}

fn pencils(ctx: &Ctx, n: usize, va: &[f64], vb: &[f64], targets: &[f64]) {
    let e = (n * (n + 1) / 2) as u32;
    let nb: Vec<usize> = (0..vb.len().pow(e)).collect();
    par_for(ctx, &nb, |&cb| {
        let b = unpack(n, cb, vb);
        let Some(pd) = definite(n, &b) else {
            ctx.outcome("B singular to rounding: not judged");
            return;
        };
        for ca in 0..va.len().pow(e) {
            // one problem with a B that must be refused is enough per A in a coarse grid
            if !pd && ca % 7 != 3 && n == 3 {
                continue;
            }
            let a = unpack(n, ca, va);
            let case = format!("pencil {n} values {va:?} {vb:?} codes {ca} {cb}");
            single(ctx, case.clone(), &|| {
                for &t in targets {
                    solve(ctx, &case, n, &a, &b, Some(pd), t)?;
                }
                Ok(())
            });
            if ctx.stopped() {
                return;
            }
        }
    });
}

fn normalisation(ctx: &Ctx) {
    let vals = [-2.0, -0.5, 0.0, 1.0, 3.0];
    for n in 1..=4u32 {
        for code in 0..5usize.pow(n) {
            for scale in [1.0, 1e-100, 1e100, -1.0, 1e-8] {
                let mut c = code;
                let v: Vec<f64> = (0..n)
                    .map(|_| {
                        let x = vals[c % 5] * scale;
                        c /= 5;
                        x
                    })
                    .collect();
                if v.iter().all(|x| *x == 0.0) {
                    continue;
                }
                single(ctx, format!("normalise {v:?}"), &|| {
                    ctx.step();
                    let e = EigenPair { value: 2.0, vector: v.clone() };
                    let u = e.normalized_eigenvector();
                    ensure!(u.len() == v.len() && e.vector == v && e.value == 2.0, "lengths {} and {}, or the pair changed", u.len(), v.len());
                    let s: f64 = u.iter().map(|x| x * x).sum();
                    ensure!((s - 1.0).abs() < 1e-12, "squared length {s}");
                    let norm = v.iter().map(|x| (x / scale).powi(2)).sum::<f64>().sqrt() * scale.abs();
                    for (x, y) in v.iter().zip(&u) {
                        ensure!(near(x / norm, *y, 1e-12), "component {y} instead of {}", x / norm);
                    }
                    Ok(())
                });
            }
        }
    }
}

/// standard problems (B = identity or a multiple) made from known, also degenerate spectra by rotations
fn spectra(ctx: &Ctx) {
    let n = 5;
    let sets: [[f64; 5]; 5] = [[1.0, 2.0, 3.0, 4.0, 5.0], [-1.0, -1.0, 0.0, 0.0, 3.0], [2.0; 5], [1e-6, 1.0, 1.0 + 1e-9, 50.0, -50.0], [-3.0, -2.0, 0.0, 1e-3, 1e3]];
    for (k, d) in sets.iter().enumerate() {
        for rots in 0..4usize.pow(3) {
            for scale in [1.0, 4.0] {
                let case = format!("spectrum {k} rotations {rots} B {scale}");
                single(ctx, case.clone(), &|| {
                    let mut a = vec![0.0; n * n];
                    for i in 0..n {
                        a[i * n + i] = d[i] * scale;
                    }
                    let mut c = rots;
                    for (p, q) in [(0, 1), (1, 3), (2, 4)] {
                        let th = [0.0, std::f64::consts::FRAC_PI_4, 0.3, 1e-9][c % 4];
                        c /= 4;
                        let (co, si) = (f64::cos(th), f64::sin(th));
                        for r in 0..n {
                            let (x, y) = (a[r * n + p], a[r * n + q]);
                            a[r * n + p] = co * x - si * y;
                            a[r * n + q] = si * x + co * y;
                        }
                        for r in 0..n {
                            let (x, y) = (a[p * n + r], a[q * n + r]);
                            a[p * n + r] = co * x - si * y;
                            a[q * n + r] = si * x + co * y;
                        }
                    }
                    for r in 0..n {
                        for c in 0..r {
                            a[r * n + c] = a[c * n + r];
                        }
                    }
                    let mut b = vec![0.0; n * n];
                    for i in 0..n {
                        b[i * n + i] = scale;
                    }
                    for t in [-60.0, -1.4, 0.2, 1.0, 2.4, 4.6, 700.0] {
                        solve(ctx, &case, n, &a, &b, Some(true), t)?;
                    }
                    Ok(())
                });
            }
        }
    }
}

/// eigenvalues and targets of very different sizes
fn far_targets(ctx: &Ctx) {
    let shapes: [[f64; 4]; 3] = [[1.0, 2.0, 3.0, 5.0], [-4.0, -1.0, 0.5, 2.0], [-3.0, -2.5, -2.0, -1.0]];
    let far: [f64; 8] = [0.0, 1.6, 40.0, 1e4, 1e8, 1e13, 1e19, 1e60];
    for (k, d) in shapes.iter().enumerate() {
        for size in [1e-3, 1.0, 1e3, 1e6, 1e9, 1e13, 1e20, 1e50] {
            for turn in [0.0, 0.3, std::f64::consts::FRAC_PI_4] {
                for order in [[0, 1, 2, 3], [3, 1, 0, 2], [2, 3, 1, 0]] {
                    let case = format!("far spectrum {k} size {size:e} turn {turn} order {order:?}");
                    single(ctx, case.clone(), &|| {
                        let n = 4;
                        let mut a = vec![0.0; 16];
                        for i in 0..n {
                            a[i * n + i] = d[order[i]] * size;
                        }
                        // one plane turned
                        let (c, s) = (f64::cos(turn), f64::sin(turn));
                        let (x, y) = (a[0], a[2 * n + 2]);
                        a[0] = c * c * x + s * s * y;
                        a[2 * n + 2] = s * s * x + c * c * y;
                        a[2] = c * s * (x - y);
                        a[2 * n] = a[2];
                        let mut b = vec![0.0; 16];
                        (0..n).for_each(|i| b[i * n + i] = 2.0);
                        for t in far {
                            for t in [t, -t, t * size, -t * size] {
                                solve(ctx, &case, n, &a, &b, Some(true), t)?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

/// matrices of assembled problems, to be judged like any others
fn assembled(ctx: &Ctx) {
    let plans: Vec<Plan> = vec![
        Plan { grid: uni::unit(), kinds: &BASIC, depth: ctx.pick(1, 2), max_elems: 9, bases: vec![[2, 2], [3, 2], [3, 3]], alt: vec![[1, 2]], dev: ctx.pick(0, 1), dedupe: true },
        Plan { grid: uni::horiz2(), kinds: &BASIC, depth: 1, max_elems: 8, bases: vec![[1, 1], [2, 2]], alt: vec![[3, 1]], dev: 1, dedupe: true },
        Plan { grid: uni::square4s(), kinds: &BASIC, depth: ctx.pick(0, 1), max_elems: 9, bases: vec![[1, 1], [2, 2]], alt: vec![[2, 1]], dev: 1, dedupe: true },
    ];
    for p in plans {
        for_cases(ctx, &p, &|s| {
            let dom = domain(s)?;
            let n = dom.dofs.len();
            if n == 0 || n > 60 {
                return Ok(());
            }
            let g = galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&dom, None).map_err(|e| format!("assembly: {e}"))?;
            let [a, b] = g.clone().to_nalgebra_dense_mats();
            let (av, bv): (Vec<f64>, Vec<f64>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
            let pd = cholesky(n, &bv).is_some();
            ensure!(pd, "the assembled B is not positive definite");
            for t in [0.0, 1.7, 6.0, 25.0] {
                ctx.step();
                let g = g.clone();
                let got = guard(|| nalgebra_solve_gep(g, t)).map_err(|p| format!("panicked: {p}"))?;
                judge(ctx, &case_name(s), n, &av, &bv, Some(true), t, &got).map_err(|w| format!("assembled problem: {w}"))?;
            }
            Ok(())
        });
    }
}

pub fn c20() -> i32 {
    let ctx = Ctx::new("C20");
    normalisation(&ctx);
    let ts = [-3.1, -0.5, 0.0, 0.3, 1.0, 1.45, 10.0];
    pencils(&ctx, 1, &[-3.0, -1.0, 0.0, 0.5, 2.0], &[-1.0, 0.0, 0.25, 1.0, 3.0], &ts);
    pencils(&ctx, 2, &[-2.0, -1.0, 0.0, 1.0, 3.0], &[-1.0, 0.0, 1.0, 2.0, 4.0], &ts);
    pencils(&ctx, 2, &[-2.3, -0.9, 0.0, 1.1, 3.7], &[-1.3, 0.0, 0.83, 2.1, 4.4], &ts);
    if ctx.thorough() {
        pencils(&ctx, 3, &[-1.0, 0.0, 1.0, 2.0], &[-1.0, 0.0, 1.0, 2.0], &ts);
        pencils(&ctx, 3, &[-1.3, 0.0, 0.83, 2.1], &[-0.7, 0.0, 1.17, 2.9], &ts);
        pencils(&ctx, 4, &[0.0, 1.0], &[0.0, 1.0], &[-1.2, 0.1, 0.9]);
        pencils(&ctx, 4, &[-1.0, 2.0], &[0.0, 3.0], &[-1.2, 0.1, 0.9]);
    } else {
        pencils(&ctx, 3, &[-1.0, 0.0, 2.0], &[0.0, 1.0, 3.0], &[-1.2, 0.1, 0.9]);
        pencils(&ctx, 3, &[-1.3, 0.0, 2.1], &[-0.4, 1.17, 2.9], &[-1.2, 0.1, 0.9]);
    }
    spectra(&ctx);
    far_targets(&ctx);
    assembled(&ctx);
    // sizes around the limit, with diagonal matrices
    for n in [999, 1000, 1001, 1002, 1500] {
        single(&ctx, format!("size {n}"), &|| {
            let mut g = GEP::new(n);
            for k in 0..n {
                g.a.insert([k, k], 1.0 + k as f64);
                g.b.insert([k, k], 2.0);
            }
            ctx.step();
            let r = nalgebra_solve_gep(g, 20.2);
            if n > 1000 {
                ensure!(matches!(r, Err(NalgebraGEPError::ProblemTooLarge)), "a problem of dimension {n} is not refused as too large");
            } else {
                let p = r.map_err(|e| format!("a problem of dimension {n} is refused: {e:?}"))?;
                ensure!(near(p.value, 20.0, 1e-9), "eigenvalue {} instead of 20", p.value);
                let big = p.vector.iter().enumerate().max_by(|x, y| x.1.abs().partial_cmp(&y.1.abs()).unwrap()).unwrap();
                ensure!(p.vector.len() == n && big.0 == 39 && p.vector.iter().enumerate().all(|(k, x)| k == 39 || x.abs() < 1e-9 * big.1.abs()), "not the eigenvector of entry 39");
            }
            Ok(())
        });
    }
    ctx.finish(
        "model_checking",
        "all symmetric matrix pairs of dimension 1 to 3 over small value sets with a grid of targets, assembled problems of every small refinement tree and order assignment, sizes around the limit, all small vectors for normalisation; eigenpairs are substituted into the equation and compared with the eigenvalues of an independent Jacobi solver",
        &["a B that is singular to rounding may be refused or not, and what comes out is not judged", "targets at equal distance from two eigenvalues may give either", "accuracy is judged relative to the conditioning of B", "problems without unknowns are not judged", "infinite or NaN entries and targets are not explored", "components whose squares leave the range of f64 are not normalised"],
    )
}

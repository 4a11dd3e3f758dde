//! C08: p-refinement arithmetic, bounds and atomicity.
use crate::cases::huge;
use crate::ctx::*;
use crate::explore::*;
use crate::obs::*;
use crate::refm::*;
use crate::uni;
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::mesh::p_refinement::{PRefError, PolyOrders};
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::fem_domain::domain::mesh::MeshAccessError;
use fem_2d::prelude::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;

const MAXO: i64 = 20;

fn in_range(n: i64) -> bool {
    (1..=MAXO).contains(&n)
}

/// the value types, exhaustively
fn values(ctx: &Ctx) {
    let orders: Vec<(u8, u8)> = (1..=20u8).flat_map(|a| (1..=20u8).map(move |b| (a, b))).collect();
    par_for(ctx, &orders, |&(ni, nj)| {
        ctx.state();
        let r = guard(|| -> Result<u64, String> {
            let mut n = 0u64;
            for di in i8::MIN..=i8::MAX {
                for dj in i8::MIN..=i8::MAX {
                    n += 1;
                    let mut p = PolyOrders { ni, nj };
                    let (a, b) = (ni as i64 + di as i64, nj as i64 + dj as i64);
                    let res = p.refine(PRef::from(di, dj));
                    let good = match res {
                        Ok(()) => in_range(a) && in_range(b) && p.ni as i64 == a && p.nj as i64 == b,
                        Err(ref e) => {
                            let m = match e {
                                PRefError::NegExpansion => a < 1 || b < 1,
                                PRefError::ExceededMaxExpansion => a > MAXO || b > MAXO,
                                _ => false,
                            };
                            m && p.ni == ni && p.nj == nj
                        }
                    };
                    ensure!(good, "refining ({ni},{nj}) by ({di},{dj}) gave {:?} and orders ({},{})", res.map_err(|e| e.to_string()), p.ni, p.nj);
                    // the window of these orders
                    let w = [[1 - ni as i8, 20 - ni as i8], [1 - nj as i8, 20 - nj as i8]];
                    let pr = PRef::from(di, dj);
                    let c = pr.constrained_to(w).as_array();
                    let want = [di.clamp(w[0][0], w[0][1]), dj.clamp(w[1][0], w[1][1])];
                    ensure!(c == want, "constraining ({di},{dj}) to {:?} gave {:?}", w, c);
                    ensure!(pr.falls_within(w) == (in_range(a) && in_range(b)), "falls_within({:?}) of ({di},{dj}) is wrong", w);
                    ensure!(pr.as_array() == [di, dj], "as_array of ({di},{dj})");
                }
            }
            let p = PolyOrders { ni, nj };
            ensure!(p.as_array() == [ni as usize, nj as usize], "as_array");
            for o in [[0u8, 0], [ni, nj], [nj, ni], [20, 1], [1, 20], [ni + 1, nj - 1]] {
                ensure!(p.max_with(o) == [ni.max(o[0]), nj.max(o[1])], "max_with {:?}", o);
            }
            let perm = |d| p.permutations(d).collect::<HashSet<_>>();
            for (d, a, b) in [(BasisDir::U, ni - 1, nj), (BasisDir::V, ni, nj - 1), (BasisDir::W, ni, nj)] {
                let want: HashSet<[u8; 2]> = (0..=a).flat_map(|i| (0..=b).map(move |j| [i, j])).collect();
                ensure!(perm(d) == want && p.permutations(d).count() == want.len(), "permutations of ({ni},{nj}) in direction {:?}", d);
            }
            Ok(n)
        })
        .unwrap_or_else(|p| Err(format!("panicked: {p}")));
        match r {
            Ok(n) => {
                ctx.transitions.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
                ctx.validated.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
            }
            Err(e) => ctx.violate(format!("orders ({ni},{nj})"), e),
        }
    });
    // sums: all pairs, with different values in the two directions
    let firsts: Vec<i8> = (i8::MIN..=i8::MAX).collect();
    par_for(ctx, &firsts, |&a| {
        let r = guard(|| -> Result<(), String> {
            for b in i8::MIN..=i8::MAX {
                let (c, d) = (!a, b.wrapping_add(37));
                let mut p = PRef::from(a, c);
                p += PRef::from(b, d);
                let mut q = PRef::from(b, d);
                q += PRef::from(a, c);
                let (x, y) = (a as i64 + b as i64, c as i64 + d as i64);
                let sat = |v: i64| v.clamp(-128, 127) as i8;
                ensure!(p.as_array() == [sat(x), sat(y)], "({a},{c}) + ({b},{d}) = {:?}", p.as_array());
                ensure!(p == q, "the sum of ({a},{c}) and ({b},{d}) depends on the order");
                for (ni, nj) in [(1u8, 20u8), (10, 10), (20, 1)] {
                    let (ra, rb) = (ni as i64 + x, nj as i64 + y);
                    let mut o = PolyOrders { ni, nj };
                    let ok = o.refine(p).is_ok();
                    let want = in_range(ra) && in_range(rb);
                    ensure!(ok == want && (if want { [o.ni as i64, o.nj as i64] == [ra, rb] } else { (o.ni, o.nj) == (ni, nj) }), "refining ({ni},{nj}) by ({a},{c}) + ({b},{d})");
                    let w = [[1 - ni as i8, 20 - ni as i8], [1 - nj as i8, 20 - nj as i8]];
                    ensure!(p.falls_within(w) == want, "falls_within of ({a},{c}) + ({b},{d})");
                    let cl = p.constrained_to(w).as_array();
                    ensure!(cl == [x.clamp(w[0][0] as i64, w[0][1] as i64) as i8, y.clamp(w[1][0] as i64, w[1][1] as i64) as i8], "constrained sum ({a},{c}) + ({b},{d})");
                }
                let u = PRef::on_dir(ParaDir::U, a).as_array();
                let v = PRef::on_dir(ParaDir::V, a).as_array();
                ensure!(u == [a, 0] && v == [0, a], "on_dir {a}");
            }
            Ok(())
        })
        .unwrap_or_else(|p| Err(format!("panicked: {p}")));
        ctx.transitions.fetch_add(256, std::sync::atomic::Ordering::Relaxed);
        ctx.check(&|| format!("sums with {a}"), r);
    });
    let small: Vec<i8> = vec![-128, -127, -64, -20, -19, -2, -1, 0, 1, 3, 19, 20, 64, 126, 127];
    for &a in &small {
        for &b in &small {
            let bounds = [a.min(b), a.max(b)];
            for d in i8::MIN..=i8::MAX {
                let p = PRef::from(d, 0);
                let ok = guard(|| p.constrained_to([bounds, [0, 0]]).as_array() == [d.clamp(bounds[0], bounds[1]), 0] && p.falls_within([bounds, [0, 0]]) == (d >= bounds[0] && d <= bounds[1]));
                let q = PRef::from(0, d);
                let ok2 = guard(|| q.constrained_to([[0, 0], bounds]).as_array() == [0, d.clamp(bounds[0], bounds[1])] && q.falls_within([[0, 0], bounds]) == (d >= bounds[0] && d <= bounds[1]));
                ctx.step();
                if ok != Ok(true) || ok2 != Ok(true) {
                    return ctx.violate(format!("constrain {d} to {:?}", bounds), "wrong");
                }
            }
            for &c in &small {
                ctx.step();
                let r = guard(|| {
                    let s = |v: [i8; 3]| {
                        let mut p = PRef::from(v[0], -1);
                        p += PRef::from(v[1], 0);
                        p += PRef::from(v[2], 2);
                        let mut o = PolyOrders { ni: 10, nj: 10 };
                        let ok = o.refine(p).is_ok();
                        (ok, o.ni, o.nj)
                    };
                    let t = 10 + a as i64 + b as i64 + c as i64;
                    let want = if in_range(t) { (true, t as u8, 11) } else { (false, 10, 10) };
                    [[a, b, c], [a, c, b], [b, a, c], [b, c, a], [c, a, b], [c, b, a]].iter().all(|v| s(*v) == want)
                });
                if r != Ok(true) {
                    return ctx.violate(format!("sum of {a},{b},{c}"), format!("three increments do not sum up correctly in every order: {:?}", r));
                }
            }
        }
    }
    for i in 0..=255u8 {
        for j in 0..=255u8 {
            let want = in_range(i as i64) && in_range(j as i64);
            let t = Orders::try_new(i, j);
            let ok = match &t {
                Ok(o) => want && o.to_array() == [i, j],
                Err(PRefError::InvalidExpansionOrders(a, b)) => !want && (*a, *b) == (i, j),
                _ => false,
            };
            let mut p = PolyOrders { ni: 3, nj: 4 };
            let s = p.set([i, j]);
            let ok2 = match s {
                Ok(()) => want && (p.ni, p.nj) == (i, j),
                Err(PRefError::ExceededMaxExpansion) => (i > 20 || j > 20) && (p.ni, p.nj) == (3, 4),
                Err(PRefError::NegExpansion) => (i < 1 || j < 1) && (p.ni, p.nj) == (3, 4),
                _ => false,
            };
            ctx.step();
            if !ok || !ok2 {
                return ctx.violate(format!("orders [{i},{j}]"), "Orders::try_new or PolyOrders::set disagrees with the valid range");
            }
            if i < 24 && j < 24 {
                let n = guard(|| Orders::new(i, j).to_array());
                if n.is_ok() != want || (want && n != Ok([i, j])) {
                    return ctx.violate(format!("Orders::new({i},{j})"), format!("{:?}", n));
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Exec(Vec<(usize, [i8; 2])>),
    List(Vec<usize>, [i8; 2]),
    Set(Vec<(usize, [u8; 2])>),
    SetList(Vec<usize>, [u8; 2]),
    GlobalP([i8; 2]),
    GlobalSet([u8; 2]),
    /// per element: refinement by filter (None: untouched)
    Filter(Vec<Option<[i8; 2]>>),
    FilterBounded(Vec<Option<[i8; 2]>>),
    /// bounded filter that asks for `bounds` moved by an offset
    FilterWindow(bool, i8),
    SetFilter(Vec<Option<[u8; 2]>>),
    H(usize, Kind),
}

type Orders2 = Vec<[u8; 2]>;

/// expected orders after the operation (by real id), or the acceptable errors
fn model(o: &Orders2, op: &Op) -> Result<Orders2, Vec<String>> {
    let n = o.len();
    let mut out = o.clone();
    let mut errs: Vec<String> = vec![];
    let add = |m: &BTreeMap<usize, [i64; 2]>, out: &mut Orders2, errs: &mut Vec<String>| {
        for (e, d) in m {
            let v = [out[*e][0] as i64 + d[0], out[*e][1] as i64 + d[1]];
            if in_range(v[0]) && in_range(v[1]) {
                out[*e] = [v[0] as u8, v[1] as u8];
            } else {
                errs.push(format!("RefinementOutOfBounds({e})"));
            }
        }
    };
    let clamp = |v: u8, d: i8| (v as i64 + d as i64).clamp(1, MAXO) as u8;
    match op {
        Op::Exec(b) => {
            let mut m = BTreeMap::new();
            for (e, d) in b {
                if *e >= n {
                    errs.push(format!("ElemDoesNotExist({e})"));
                } else {
                    let x: &mut [i64; 2] = m.entry(*e).or_insert([0, 0]);
                    x[0] += d[0] as i64;
                    x[1] += d[1] as i64;
                }
            }
            add(&m, &mut out, &mut errs);
        }
        Op::List(l, d) => {
            let mut m = BTreeMap::new();
            for e in l {
                if *e >= n {
                    errs.push(format!("ElemDoesNotExist({e})"));
                } else {
                    m.insert(*e, [d[0] as i64, d[1] as i64]);
                }
            }
            if l.iter().collect::<HashSet<_>>().len() < l.len() {
                errs.push("DuplicateElemIds".into());
            }
            add(&m, &mut out, &mut errs);
        }
        Op::Set(_) | Op::SetList(..) => {
            let b: Vec<(usize, [u8; 2])> = match op {
                Op::Set(b) => b.clone(),
                Op::SetList(l, v) => l.iter().map(|e| (*e, *v)).collect(),
                _ => unreachable!(),
            };
            for (e, v) in &b {
                if *e >= n {
                    errs.push(format!("ElemDoesNotExist({e})"));
                } else {
                    out[*e] = *v;
                }
            }
            if b.iter().map(|x| x.0).collect::<HashSet<_>>().len() < b.len() {
                errs.push("DuplicateElemIds".into());
            }
        }
        Op::GlobalP(d) => {
            for v in out.iter_mut() {
                *v = [clamp(v[0], d[0]), clamp(v[1], d[1])];
            }
        }
        Op::GlobalSet(s) => out = vec![*s; n],
        Op::Filter(f) => {
            for (v, d) in out.iter_mut().zip(f) {
                if let Some(d) = d {
                    *v = [clamp(v[0], d[0]), clamp(v[1], d[1])];
                }
            }
        }
        Op::FilterBounded(f) => {
            let m: BTreeMap<usize, [i64; 2]> = f.iter().enumerate().filter_map(|(i, d)| d.map(|d| (i, [d[0] as i64, d[1] as i64]))).collect();
            add(&m, &mut out, &mut errs);
        }
        Op::FilterWindow(hi, off) => {
            for e in 0..n {
                for k in 0..2 {
                    let t = if *hi { MAXO } else { 1 } + *off as i64;
                    if in_range(t) {
                        out[e][k] = t as u8;
                    } else {
                        errs.push(format!("RefinementOutOfBounds({e})"));
                    }
                }
            }
        }
        Op::SetFilter(f) => {
            for (v, d) in out.iter_mut().zip(f) {
                if let Some(d) = d {
                    *v = *d;
                }
            }
        }
        Op::H(..) => {}
    }
    if errs.is_empty() {
        Ok(out)
    } else {
        Err(errs)
    }
}

fn apply(mesh: &mut Mesh, op: &Op) -> Result<(), String> {
    let p = |d: &[i8; 2]| PRef::from(d[0], d[1]);
    let s = |d: &[u8; 2]| Orders::new(d[0], d[1]);
    let r = match op {
        Op::Exec(b) => mesh.execute_p_refinements(b.iter().map(|(e, d)| (*e, p(d))).collect()),
        Op::List(l, d) => mesh.p_refine_elems(l.clone(), p(d)),
        Op::Set(b) => mesh.set_expansion_orders(b.iter().map(|(e, d)| (*e, s(d))).collect()),
        Op::SetList(l, d) => mesh.set_expansion_on_elems(l.clone(), s(d)),
        Op::GlobalP(d) => {
            mesh.global_p_refinement(p(d));
            Ok(())
        }
        Op::GlobalSet(d) => {
            mesh.set_global_expansion_orders(s(d));
            Ok(())
        }
        Op::Filter(f) => {
            mesh.p_refine_with_filter(|e| f[e.id].as_ref().map(p));
            Ok(())
        }
        Op::FilterBounded(f) => mesh.p_refine_with_filter_bounded(|e, _| f[e.id].as_ref().map(p)),
        Op::FilterWindow(hi, off) => mesh.p_refine_with_filter_bounded(|_, w| {
            let k = *hi as usize;
            Some(PRef::from(w[0][k] + *off, w[1][k] + *off))
        }),
        Op::SetFilter(f) => {
            mesh.set_expansions_with_filter(|e| f[e.id].as_ref().map(s));
            Ok(())
        }
        Op::H(..) => unreachable!(),
    };
    r.map_err(|e| format!("{:?}", e))
}

fn ops(n: usize, leaves: &[usize], rich: bool) -> Vec<Op> {
    let d: Vec<[i8; 2]> = if rich {
        vec![[0, 0], [1, 0], [0, 1], [-1, 0], [0, -1], [2, -1], [-1, 2], [19, 0], [0, 19], [20, 0], [0, -20], [-19, 19], [10, 10], [127, -128], [-128, 127], [1, 127]]
    } else {
        vec![[1, 0], [0, 2], [-1, 1], [19, 0], [1, -20]]
    };
    let s: Vec<[u8; 2]> = if rich { vec![[1, 1], [1, 20], [20, 1], [20, 20], [3, 2], [2, 3]] } else { vec![[1, 20], [3, 2]] };
    let mut v = vec![];
    let ids: Vec<usize> = (0..n + 1).chain([usize::MAX]).collect();
    for (i, a) in ids.iter().enumerate() {
        for da in &d {
            v.push(Op::Exec(vec![(*a, *da)]));
        }
        v.push(Op::List(vec![*a], d[0]));
        v.push(Op::SetList(vec![*a], s[0]));
        for sa in &s {
            v.push(Op::Set(vec![(*a, *sa)]));
        }
        for b in &ids[..] {
            for (k, da) in d.iter().enumerate() {
                let db = d[(k + i + 1) % d.len()];
                v.push(Op::Exec(vec![(*a, *da), (*b, db)]));
                if rich {
                    for c in &ids {
                        v.push(Op::Exec(vec![(*a, *da), (*b, db), (*c, d[(2 * k + 3) % d.len()])]));
                    }
                }
                v.push(Op::List(vec![*a, *b], *da));
            }
            for sa in &s {
                v.push(Op::SetList(vec![*a, *b], *sa));
                v.push(Op::Set(vec![(*a, *sa), (*b, s[0])]));
                for c in &ids {
                    v.push(Op::Set(vec![(*a, *sa), (*b, s[0]), (*c, s[s.len() - 1])]));
                }
            }
        }
    }
    for da in &d {
        v.push(Op::GlobalP(*da));
        for k in 0..n {
            let mut f = vec![None; n];
            f[k] = Some(*da);
            v.push(Op::Filter(f.clone()));
            v.push(Op::FilterBounded(f.clone()));
            f[(k + 1) % n] = Some(d[0]);
            v.push(Op::Filter(f.clone()));
            v.push(Op::FilterBounded(f));
        }
        v.push(Op::Filter(vec![Some(*da); n]));
        v.push(Op::FilterBounded(vec![Some(*da); n]));
    }
    for sa in &s {
        v.push(Op::GlobalSet(*sa));
        for k in 0..n {
            let mut f = vec![None; n];
            f[k] = Some(*sa);
            v.push(Op::SetFilter(f));
        }
    }
    for hi in [false, true] {
        for off in [-1, 0, 1] {
            v.push(Op::FilterWindow(hi, off));
        }
    }
    for l in leaves {
        for k in if rich { &ALL[..] } else { &BASIC[..] } {
            v.push(Op::H(*l, *k));
        }
    }
    v
}

#[derive(Clone)]
struct PSt {
    st: St,
    orders: Orders2,
    trace: String,
}

fn queries(s: &PSt) -> Result<(), String> {
    let mesh = &s.st.mesh;
    let n = mesh.elems.len();
    let mut mx = [0u8; 2];
    for (i, o) in s.orders.iter().enumerate() {
        ensure!([mesh.elems[i].poly_orders.ni, mesh.elems[i].poly_orders.nj] == *o, "element {} has orders ({},{}), expected {:?}", i, mesh.elems[i].poly_orders.ni, mesh.elems[i].poly_orders.nj, o);
        mx = [mx[0].max(o[0]), mx[1].max(o[1])];
        let w = mesh.elem_p_refinement_window(i).map_err(|e| e.to_string())?;
        let want = [[1 - o[0] as i8, 20 - o[0] as i8], [1 - o[1] as i8, 20 - o[1] as i8]];
        ensure!(w == want, "element {} reports window {:?}, expected {:?}", i, w, want);
    }
    ensure!(mesh.max_expansion_orders() == mx, "max_expansion_orders() = {:?}, expected {:?}", mesh.max_expansion_orders(), mx);
    for i in [n, n + 1, usize::MAX] {
        ensure!(matches!(mesh.elem_p_refinement_window(i), Err(MeshAccessError::ElemDoesNotExist(j)) if j == i), "window of missing element {i}");
    }
    Ok(())
}

fn do_op(s: &PSt, op: &Op, full: bool) -> Result<Option<PSt>, String> {
    if let Op::H(id, k) = op {
        let e = s.st.m.refi[*id];
        let st = s.st.step(e, *k)?;
        let mut orders = vec![[0, 0]; st.mesh.elems.len()];
        for (i, o) in orders.iter_mut().enumerate() {
            // inherited from the nearest element that existed before
            let mut r = st.m.refi[i];
            while r >= s.st.r.elems.len() {
                r = st.r.elems[r].parent.unwrap().0;
            }
            *o = s.orders[s.st.m.real[r]];
        }
        let n = PSt { st, orders, trace: format!("{};{:?}", s.trace, op) };
        guard(|| queries(&n)).unwrap_or_else(|p| Err(format!("panicked: {p}")))?;
        return Ok(Some(n));
    }
    let want = model(&s.orders, op);
    let mut mesh = s.st.mesh.clone();
    let got = guard(|| apply(&mut mesh, op)).map_err(|p| format!("panicked: {p}"))?;
    let orders: Orders2 = mesh.elems.iter().map(|e| [e.poly_orders.ni, e.poly_orders.nj]).collect();
    match (&want, &got) {
        (Ok(w), Ok(())) => {
            if let Some(k) = (0..w.len()).find(|k| orders.get(*k) != Some(&w[*k])) {
                return Err(format!("element {} has orders {:?}, expected {:?}", k, orders.get(k), w[k]));
            }
        }
        (Err(es), Err(e)) => {
            ensure!(es.contains(e), "refused with {e}, expected one of {:?}", es);
            if let Some(k) = (0..orders.len()).find(|k| orders[*k] != s.orders[*k]) {
                return Err(format!("the refused request changed the orders of element {} from {:?} to {:?}", k, s.orders[k], orders[k]));
            }
        }
        (Ok(_), Err(e)) => return Err(format!("a valid request was refused: {e}")),
        (Err(es), Ok(())) => return Err(format!("accepted, expected {:?}", es)),
    }
    if full {
        // nothing else changed
        let mut b = s.st.mesh.clone();
        for (e, o) in b.elems.iter_mut().zip(&orders) {
            e.poly_orders = PolyOrders { ni: o[0], nj: o[1] };
        }
        ensure!(dump(&b) == dump(&mesh), "a p-refinement changed something other than expansion orders");
    }
    if got.is_err() {
        return Ok(None);
    }
    let mut st = s.st.clone();
    for (i, o) in orders.iter().enumerate() {
        st.r.elems[st.m.refi[i]].orders = *o;
    }
    st.mesh = mesh;
    let n = PSt { st, orders, trace: format!("{};{:?}", s.trace, op) };
    guard(|| queries(&n)).unwrap_or_else(|p| Err(format!("panicked: {p}")))?;
    Ok(Some(n))
}

fn sequences(ctx: &Ctx, g: &uni::Grid, depth: usize, max_elems: usize) {
    let st = match St::start(ctx, g) {
        Ok(s) => s,
        Err(e) => return ctx.violate(g.name.clone(), e),
    };
    let n = st.mesh.elems.len();
    let start = PSt { st, orders: vec![[1, 1]; n], trace: g.name.clone() };
    if let Err(e) = queries(&start) {
        return ctx.violate(g.name.clone(), e);
    }
    let mut frontier = vec![start];
    let mut seen: HashSet<String> = HashSet::new();
    for d in 0..depth {
        let sm = Mutex::new(std::mem::take(&mut seen));
        let next = Mutex::new(vec![]);
        par_for(ctx, &frontier, |s| {
            ctx.state();
            let rich = d < 2 && s.orders.len() <= 3;
            for op in ops(s.orders.len(), &s.st.leaf_real_ids(), rich) {
                if ctx.stopped() {
                    return;
                }
                ctx.step();
                match do_op(s, &op, d < 2) {
                    Err(e) => return ctx.violate(format!("{};{:?}", s.trace, op), e),
                    Ok(Some(ns)) => {
                        ctx.valid();
                        if d + 1 < depth && ns.orders.len() <= max_elems && sm.lock().unwrap().insert(ns.st.r.canon(true)) {
                            ctx.sample(|| ns.trace.clone());
                            next.lock().unwrap().push(ns);
                        }
                    }
                    Ok(None) => ctx.valid(),
                }
            }
            ctx.outcome(&format!("{} elements", s.orders.len()));
        });
        seen = sm.into_inner().unwrap();
        frontier = next.into_inner().unwrap();
        frontier.sort_by(|a, b| a.trace.cmp(&b.trace));
    }
}

/// a state whose elements have the given orders
fn with(st: St, f: &dyn Fn(usize) -> [u8; 2]) -> Result<PSt, String> {
    let mut s = st;
    let n = s.mesh.elems.len();
    let orders: Orders2 = (0..n).map(f).collect();
    guard(|| s.mesh.set_expansion_orders(orders.iter().enumerate().map(|(k, o)| (k, Orders::new(o[0], o[1]))).collect())).map_err(|p| format!("panicked: {p}"))?.map_err(|e| format!("setting all orders was refused: {e}"))?;
    for (i, o) in orders.iter().enumerate() {
        s.r.elems[s.m.refi[i]].orders = *o;
    }
    let p = PSt { trace: s.case(), st: s, orders };
    queries(&p)?;
    Ok(p)
}

/// requests on meshes with many elements and many levels
fn wide(ctx: &Ctx) {
    let mut starts: Vec<(String, PSt)> = vec![];
    let spread = |i: usize| [(i * 7 % 20 + 1) as u8, (i * 11 % 19 + 2) as u8];
    let mut push = |name: &str, st: Result<St, String>| match st.and_then(|s| with(s, &spread)) {
        Ok(s) => starts.push((name.into(), s)),
        Err(e) => ctx.violate(name.to_string(), e),
    };
    push("block17x16", St::start(ctx, &uni::block(17, 16)));
    push("block8x4", St::start(ctx, &uni::block(8, 4)).and_then(|s| s.step(3, Kind::T)).and_then(|s| s.step(30, Kind::U)));
    let chain = |g: &uni::Grid, k: usize| {
        let mut s = St::start(ctx, g)?;
        let mut at = 0;
        for n in 0..12 {
            match chain_step(&s, at, MOVES[(k + if k > 7 { 3 * n } else { 0 }) % 8]) {
                Some(x) => (s, at) = x?,
                None => break,
            }
        }
        Ok(s)
    };
    for k in [0, 3, 4, 7, 9] {
        push(&format!("chain {k}"), chain(&uni::unit(), k));
    }
    let mut tasks: Vec<(usize, Op)> = vec![];
    for (w, (_, s)) in starts.iter().enumerate() {
        let n = s.orders.len();
        let orders: [Box<dyn Fn(usize) -> usize>; 3] = [Box::new(|k| k), Box::new(move |k| n - 1 - k), Box::new(move |k| (k * 5 + 3) % n)];
        // three increments per element that sum up to something valid (and overflow on the way)
        let three = |e: usize| -> [[i8; 2]; 3] {
            let o = s.orders[e];
            let t = [(e * 3 % 20 + 1) as i64 - o[0] as i64, (e * 13 % 20 + 1) as i64 - o[1] as i64];
            [[120, -120], [(t[0] - 100) as i8, (t[1] + 100) as i8], [-20, 20]]
        };
        for f in &orders {
            for near in [true, false] {
                let mut b = vec![];
                if near {
                    (0..n).map(f).for_each(|e| three(e).iter().for_each(|d| b.push((e, *d))));
                } else {
                    (0..3).for_each(|r| (0..n).map(f).for_each(|e| b.push((e, three(e)[(r + e) % 3]))));
                }
                tasks.push((w, Op::Exec(b)));
            }
            tasks.push((w, Op::Set((0..n).map(|k| (f(k), [(k % 20 + 1) as u8, (k * 3 % 20 + 1) as u8])).collect())));
            tasks.push((w, Op::SetList((0..n).map(f).collect(), [4, 17])));
        }
        // one wrong entry at every position of a long batch
        let spots: Vec<usize> = if n > 100 { (0..n).step_by(9).chain([254, 255, 256, 257, n - 1]).collect() } else { (0..n).collect() };
        let fine = |e: usize| [if s.orders[e][0] < 20 { 1i8 } else { -1 }, 0i8];
        for &k in &spots {
            let base: Vec<(usize, [i8; 2])> = (0..n).map(|e| (e, fine(e))).collect();
            let mut b = base.clone();
            b[k].1 = [0, 20 - s.orders[k][1] as i8 + 1];
            tasks.push((w, Op::Exec(b)));
            let mut b = base.clone();
            b.insert(k, (n, [0, 0]));
            tasks.push((w, Op::Exec(b)));
            let mut b = base.clone();
            b[k].1 = [-(s.orders[k][0] as i8), 0];
            tasks.push((w, Op::FilterBounded(b.iter().map(|x| Some(x.1)).collect())));
            tasks.push((w, Op::Filter(b.iter().map(|x| Some(x.1)).collect())));
            let mut b: Vec<(usize, [u8; 2])> = (0..n).map(|e| (e, [3, 5])).collect();
            b.insert(k, (n + 7, [2, 2]));
            tasks.push((w, Op::Set(b)));
            let mut l: Vec<usize> = (0..n).collect();
            l.insert(k, usize::MAX);
            tasks.push((w, Op::SetList(l, [2, 2])));
        }
        // the same element twice, at all distances
        for &a in &spots {
            for &b in &spots {
                if a < b && (n < 40 || (a + b) % 3 == 0 || b - a > n / 2) {
                    let mut l: Vec<usize> = (0..n).collect();
                    l[b] = a;
                    tasks.push((w, Op::SetList(l.clone(), [2, 9])));
                    tasks.push((w, Op::List(l.clone(), [0, 0])));
                    tasks.push((w, Op::Set(l.iter().map(|e| (*e, [2, 9])).collect())));
                }
            }
        }
        for d in (-21..=21).chain([-128, 127]) {
            tasks.push((w, Op::GlobalP([d, -d.max(-127)])));
            tasks.push((w, Op::Filter((0..n).map(|e| if e % 3 == 0 { None } else { Some([d, (e % 7) as i8 - 3]) }).collect())));
        }
        for o in [[1, 1], [20, 20], [7, 13]] {
            tasks.push((w, Op::GlobalSet(o)));
            tasks.push((w, Op::SetFilter((0..n).map(|e| if e % 3 == 1 { None } else { Some([o[0], (e % 20 + 1) as u8]) }).collect())));
        }
        for l in s.st.leaf_real_ids() {
            for k in ALL {
                if s.st.halvable(s.st.m.refi[l], k) && (n < 100 || spots.contains(&l)) {
                    tasks.push((w, Op::H(l, k)));
                }
            }
        }
    }
    par_for(ctx, &tasks, |(w, op)| {
        ctx.step();
        let (name, s) = &starts[*w];
        match guard(|| do_op(s, op, true)).unwrap_or_else(|p| Err(format!("panicked: {p}"))) {
            Err(e) => ctx.violate(format!("{name} {};{:?}", s.trace, op), e),
            Ok(_) => ctx.valid(),
        }
    });
}

/// requests on a mesh of more than 65536 elements
fn huge_requests(ctx: &Ctx) {
    let seen: Mutex<Option<PSt>> = Mutex::new(None);
    huge(ctx, false, &|prev, s| {
        if prev.is_none() {
            *seen.lock().unwrap() = Some(with(s.clone(), &|i| [(i * 7 % 20 + 1) as u8, (i * 11 % 19 + 2) as u8])?);
        }
        Ok(())
    });
    let Some(s) = seen.into_inner().unwrap() else { return };
    let n = s.orders.len();
    let to = |e: usize, o: [u8; 2]| (e, [o[0] as i8 - s.orders[e][0] as i8, o[1] as i8 - s.orders[e][1] as i8]);
    let spots = [0usize, 1, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, n - 2, n - 1];
    let mut ops: Vec<(String, Op)> = vec![];
    ops.push(("refine some".into(), Op::Exec(spots.iter().enumerate().map(|(k, e)| to(*e, [k as u8 + 1, 20 - k as u8])).collect())));
    ops.push(("refine some from the last".into(), Op::Exec(spots.iter().rev().enumerate().map(|(k, e)| to(*e, [k as u8 + 1, 20 - k as u8])).collect())));
    ops.push(("refine all".into(), Op::Exec((0..n).map(|e| to(e, [(e % 20) as u8 + 1, (e / 20 % 20) as u8 + 1])).collect())));
    ops.push(("refine all from the last".into(), Op::Exec((0..n).rev().map(|e| to(e, [(e % 20) as u8 + 1, (e / 20 % 20) as u8 + 1])).collect())));
    ops.push(("set all".into(), Op::Set((0..n).map(|e| (e, [(e % 19) as u8 + 1, (e / 19 % 20) as u8 + 1])).collect())));
    ops.push(("set list".into(), Op::SetList((0..n).step_by(3).collect(), [4, 17])));
    ops.push(("refine list".into(), Op::List((0..n).rev().step_by(4).collect(), [0, 0])));
    for e in spots {
        ops.push((format!("refine only {e}"), Op::Exec(vec![to(e, [20, 1])])));
        ops.push((format!("set only {e}"), Op::Set(vec![(e, [1, 20])])));
        if let Some(f) = e.checked_add(65536).filter(|f| *f < n) {
            ops.push((format!("set {e} and {f}"), Op::SetList(vec![e, f], [2, 3])));
            ops.push((format!("refine {e} and {f}"), Op::Exec(vec![to(e, [2, 3]), to(f, [5, 7])])));
            let fits = |d: &[i8; 2]| [e, f].iter().all(|k| (0..2).all(|c| (1..=20).contains(&(s.orders[*k][c] as i8 + d[c]))));
            let d = [[1i8, 1], [1, -1], [-1, 1], [-1, -1]].into_iter().find(fits).unwrap_or([0, 0]);
            ops.push((format!("list of {e} and {f}"), Op::List(vec![e, f], d)));
            ops.push((format!("list of {e}, {f} and {e} again"), Op::List(vec![e, f, e], d)));
        }
        ops.push((format!("{e} twice, far apart"), Op::SetList((0..n).chain([e]).collect(), [2, 3])));
        let mut bad: Vec<(usize, [i8; 2])> = (0..n).map(|k| to(k, [3, 4])).collect();
        bad[e].1 = [0, 21 - s.orders[e][1] as i8];
        ops.push((format!("out of range at {e}"), Op::Exec(bad.clone())));
        bad[e] = (n + e, [0, 0]);
        ops.push((format!("missing element at {e}"), Op::Exec(bad)));
    }
    ops.push(("filter".into(), Op::Filter((0..n).map(|e| if e % 3 == 0 { None } else { Some(to(e, [(e % 20) as u8 + 1, 7]).1) }).collect())));
    ops.push(("filter with bounds".into(), Op::FilterBounded((0..n).map(|e| if e % 3 == 1 { None } else { Some(to(e, [11, (e % 20) as u8 + 1]).1) }).collect())));
    ops.push(("set by filter".into(), Op::SetFilter((0..n).map(|e| if e % 3 == 1 { None } else { Some([(e % 20) as u8 + 1, 5]) }).collect())));
    ops.push(("set everywhere".into(), Op::GlobalSet([6, 5])));
    par_for(ctx, &ops, |(name, op)| {
        ctx.step();
        let full = ["refine some", "set list", "filter"].contains(&name.as_str());
        match guard(|| do_op(&s, op, full)).unwrap_or_else(|p| Err(format!("panicked: {p}"))) {
            Err(e) => ctx.violate(format!("huge mesh, {name}"), e),
            Ok(_) => ctx.valid(),
        }
    });
}

pub fn c08() -> i32 {
    let ctx = Ctx::new("C08");
    values(&ctx);
    if !ctx.stopped() {
        sequences(&ctx, &uni::unit(), ctx.pick(3, 4), ctx.pick(5, 5));
    }
    if !ctx.stopped() {
        sequences(&ctx, &uni::horiz2(), ctx.pick(2, 3), ctx.pick(6, 6));
    }
    if !ctx.stopped() {
        sequences(&ctx, &uni::lshape(), ctx.pick(1, 2), 8);
        wide(&ctx);
    }
    if !ctx.stopped() {
        huge_requests(&ctx);
    }
    ctx.finish(
        "model_checking",
        "value types: every order pair x every pair of i8 increments, every sum of two increments, every window; meshes: breadth-first over every sequence of p-requests (batches of up to three, lists, sets, global and filter forms, valid and invalid) and h-refinements up to the depth, states merged by tree and orders, each step compared with integer arithmetic; long batches, lists and filters on meshes of up to 272 cells and on deep chains, with one wrong or repeated entry at every position",
        &["batches at mesh level use a fixed alphabet of increments that includes the extreme and boundary values"],
    )
}

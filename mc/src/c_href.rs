//! C06 (every h-refinement entry point does exactly what was requested) and C07 (refusals are atomic and well named).
use crate::cases::huge;
use crate::ctx::*;
use crate::explore::*;
use crate::obs::*;
use crate::refm::*;
use crate::uni::{self, Grid};
use fem_2d::fem_domain::domain::mesh::MeshAccessError;
use fem_2d::prelude::*;
use std::collections::BTreeMap;

fn name_batch(b: &[(usize, Kind)]) -> String {
    b.iter().map(|(e, k)| format!("{}{}", e, k.name())).collect::<Vec<_>>().join("+")
}

fn full_check(mesh: &Mesh, r: &RefMesh) -> Result<Map, String> {
    let m = build_map(mesh, r)?;
    check_geometry(mesh, r, &m)?;
    check_topology(mesh, r, &m)?;
    check_activation(mesh, r, &m)?;
    Ok(m)
}

/// batch -> (real mesh after, reference after), both checked against each other
fn run_batch(s: &St, b: &[(usize, Kind)]) -> Result<(Mesh, RefMesh), String> {
    let mut mesh = s.mesh.clone();
    let mut r = s.r.clone();
    r.refine_batch(b);
    let req: Vec<(usize, HRef)> = b.iter().map(|(e, k)| (s.m.real[*e], k.href())).collect();
    guard(|| mesh.execute_h_refinements(req))
        .map_err(|p| format!("batch {} panicked: {}", name_batch(b), p))?
        .map_err(|e| format!("valid batch {} was refused: {}", name_batch(b), e))?;
    full_check(&mesh, &r).map_err(|e| format!("after batch {}: {}", name_batch(b), e))?;
    Ok((mesh, r))
}

fn permutations<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}

/// meshes with many cells or many levels
fn wide_states(ctx: &Ctx) -> Vec<St> {
    let mut out = vec![];
    let mut push = |r: Result<St, String>| match r {
        Ok(s) => out.push(s),
        Err(e) => ctx.violate("wide meshes", e),
    };
    push(St::start(ctx, &uni::block(17, 16)));
    push(St::start(ctx, &uni::block(8, 4)).and_then(|s| s.step(3, Kind::T)).and_then(|s| s.step(30, Kind::U)).and_then(|s| s.step(12, Kind::V0)));
    push(St::start(ctx, &uni::block(40, 1)));
    for g in [uni::unit(), uni::square4s()] {
        for k in 0..12 {
            push((|| {
                let mut s = St::start(ctx, &g)?;
                let mut at = 0;
                for n in 0..12 {
                    // the size of the last leaves leaves room for one more refinement of any kind
                    match chain_step(&s, at, MOVES[(k + if k > 7 { 3 * n } else { 0 }) % 8]) {
                        Some(x) if s.roomy(at) => {
                            let (n, c) = x?;
                            if !n.roomy(c) {
                                break;
                            }
                            (s, at) = (n, c)
                        }
                        _ => break,
                    }
                }
                Ok(s)
            })());
        }
    }
    out
}

/// batches, lists and filters that name every leaf of meshes with many cells or levels
fn wide_batches(ctx: &Ctx) {
    let states = wide_states(ctx);
    let mut tasks: Vec<(usize, usize)> = vec![];
    for i in 0..states.len() {
        for p in 0..24 {
            tasks.push((i, p));
        }
    }
    par_for(ctx, &tasks, |&(i, p)| {
        let s = &states[i];
        let leaves = s.r.leaves();
        let n = leaves.len();
        // pattern p: the requests of each leaf
        let kind = |k: usize| ALL[k % 7];
        let per = |q: usize| -> Vec<Kind> {
            match p {
                0..=6 => vec![kind(p)],
                7..=13 => vec![kind(q + p)],
                14..=17 => vec![kind(q * (p - 12)), kind(q + p)],
                18..=20 => vec![kind(q), kind(q * 3 + p), kind(q / 2)],
                _ => (0..q * p % 3).map(|k| kind(q + k * 2)).collect(),
            }
        };
        let reqs: Vec<Vec<(usize, Kind)>> = leaves.iter().enumerate().map(|(q, e)| per(q).into_iter().map(|k| (*e, k)).collect()).collect();
        let sizes = reqs.iter().map(|r| r.len()).max().unwrap();
        let mut lists: Vec<Vec<(usize, Kind)>> = vec![];
        for o in 0..4usize {
            let at = |k: usize| match o {
                0 => k,
                1 => n - 1 - k,
                2 => if n % 5 == 0 { k } else { (k * 5 + 3) % n },
                _ => (k + n / 2) % n,
            };
            lists.push((0..n).flat_map(|k| reqs[at(k)].clone()).collect());
            // the requests of one leaf far apart
            lists.push((0..sizes).flat_map(|c| (0..n).filter_map(move |k| Some((at(k), c)))).filter_map(|(k, c)| reqs[k].get(c).copied()).collect());
        }
        let case = |l: &[(usize, Kind)]| format!("{} batch {}", s.case(), name_batch(l));
        let want = match run_batch(s, &lists[0]) {
            Ok((m, _)) => dump(&m),
            Err(e) => return ctx.violate(case(&lists[0]), e),
        };
        ctx.step();
        ctx.valid();
        for l in &lists[1..] {
            ctx.step();
            let mut mesh = s.mesh.clone();
            let rq: Vec<(usize, HRef)> = l.iter().map(|(e, k)| (s.m.real[*e], k.href())).collect();
            let ok = guard(|| mesh.execute_h_refinements(rq).is_ok()).unwrap_or(false);
            if !ok || dump(&mesh) != want {
                return ctx.violate(case(l), "the result differs from that of the same requests in another order");
            }
        }
        // the other entry points
        let same = reqs.iter().all(|r| r.len() == 1 && r[0].1 == reqs[0][0].1);
        if same {
            let k = reqs[0][0].1;
            let mut mesh = s.mesh.clone();
            if guard(|| mesh.global_h_refinement(k.href())).is_err() || dump(&mesh) != want {
                return ctx.violate(format!("{} global {}", s.case(), k.name()), "global refinement differs from the batch of all leaves");
            }
            for l in &lists {
                let ids: Vec<usize> = l.iter().map(|x| s.m.real[x.0]).collect();
                let mut mesh = s.mesh.clone();
                ctx.step();
                let ok = guard(|| mesh.h_refine_elems(ids.clone(), k.href()).is_ok()).unwrap_or(false);
                if !ok || dump(&mesh) != want {
                    return ctx.violate(format!("{} list {:?} {}", s.case(), ids, k.name()), "list form differs from the batch form");
                }
            }
        }
        if reqs.iter().all(|r| r.len() <= 1) {
            let fm: BTreeMap<usize, Kind> = reqs.iter().flatten().map(|(e, k)| (s.m.real[*e], *k)).collect();
            let mut mesh = s.mesh.clone();
            ctx.step();
            let r = guard(|| mesh.h_refine_with_filter(|el| if el.has_children() { Some(HRef::T) } else { fm.get(&el.id).map(|k| k.href()) }));
            if r.is_err() || dump(&mesh) != want {
                return ctx.violate(format!("{} filter {}", s.case(), name_batch(&lists[0])), "filtered refinement differs from the batch form");
            }
        }
        ctx.valid();
        ctx.outcome("batch that names all leaves of a large mesh");
    });
}

/// long batches and lists with one or two wrong entries, at every position
fn wide_refusals(ctx: &Ctx) {
    let states = wide_states(ctx);
    let mut tasks: Vec<(usize, usize)> = vec![];
    for (i, s) in states.iter().enumerate() {
        let n = s.r.leaves().len();
        if n > 100 {
            tasks.extend((0..=n).step_by(23).chain([1, 255, 256, 257, n]).map(|p| (i, p)));
        } else {
            tasks.extend((0..=n).map(|p| (i, p)));
        }
    }
    let before: Vec<String> = states.iter().map(|s| dump(&s.mesh)).collect();
    par_for(ctx, &tasks, |&(i, p)| {
        let s = &states[i];
        let ids = s.leaf_real_ids();
        let total = s.mesh.elems.len();
        let parent = s.r.elems.iter().enumerate().rev().find(|(_, e)| !e.children.is_empty()).map(|(k, _)| s.m.real[k]);
        let mut bads = vec![Bad::Missing(total), Bad::Missing(total + 200), Bad::Missing(total + 256), Bad::Missing(usize::MAX), Bad::Ext(ids[0], HRef::U(Some(2))), Bad::Ext(ids[ids.len() - 1], HRef::V(Some(256)))];
        bads.extend(parent.map(Bad::Refined));
        for (q, b) in bads.iter().enumerate() {
            for k in [Kind::T, Kind::U1] {
                let mut batch: Vec<(usize, HRef)> = ids.iter().enumerate().map(|(n, e)| (*e, ALL[(n + q) % 7].href())).collect();
                batch.insert(p, bad_req(b, k));
                ctx.step();
                let mut mesh = s.mesh.clone();
                let r = guard(|| mesh.execute_h_refinements(batch.clone()));
                let ok = matches!(&r, Ok(Err(e)) if bad_matches(b, e));
                if !ok || dump(&mesh) != before[i] {
                    return ctx.violate(format!("{} batch of all leaves with {b:?} at {p}", s.case()), format!("wrong outcome {:?} or the mesh is modified", r.map(|x| x.map_err(|e| e.to_string()))));
                }
                if let Bad::Missing(x) | Bad::Refined(x) = b {
                    let mut l = ids.clone();
                    l.insert(p, *x);
                    let mut mesh = s.mesh.clone();
                    let r = guard(|| mesh.h_refine_elems(l, k.href()));
                    let ok = matches!(&r, Ok(Err(e)) if bad_matches(b, e));
                    if !ok || dump(&mesh) != before[i] {
                        return ctx.violate(format!("{} list of all leaves with {b:?} at {p}", s.case()), format!("wrong outcome {:?} or the mesh is modified", r.map(|x| x.map_err(|e| e.to_string()))));
                    }
                }
            }
        }
        // the leaf at position p once more, everywhere
        if p < ids.len() {
            let spots: Vec<usize> = if ids.len() > 100 { vec![0, 1, p, p + 1, ids.len() / 2, ids.len()] } else { (0..=ids.len()).collect() };
            for q in spots {
                let mut l = ids.clone();
                l.insert(q, ids[p]);
                ctx.step();
                let mut mesh = s.mesh.clone();
                let r = guard(|| mesh.h_refine_elems(l, HRef::U(None)));
                if !matches!(r, Ok(Err(HRefError::DuplicateElemIds))) || dump(&mesh) != before[i] {
                    return ctx.violate(format!("{} list of all leaves with the one at {p} again at {q}", s.case()), "duplicates: wrong outcome or the mesh is modified");
                }
            }
        }
        ctx.valid();
        // the question whether an element can be refined
        if p == 0 {
            for id in 0..total + 300 {
                let q = guard(|| s.mesh.elem_is_h_refineable(id));
                let ok = match &q {
                    Ok(Ok(b)) => id < total && refineable_ref(&s.r, s.m.refi[id]).map_or(true, |w| w == *b),
                    Ok(Err(MeshAccessError::ElemDoesNotExist(k))) => id >= total && *k == id,
                    _ => false,
                };
                if !ok {
                    return ctx.violate(format!("{} refineable {}", s.case(), id), format!("wrong answer {:?}", q.map(|r| r.map_err(|e| e.to_string()))));
                }
            }
        }
    });
}

/// batches on a mesh of more than 65536 elements: valid (`good`) or with a wrong entry
fn huge_batches(ctx: &Ctx, good: bool) {
    let seen = std::sync::Mutex::new(None);
    huge(ctx, false, &|prev, s| {
        if prev.is_none() {
            *seen.lock().unwrap() = Some(s.clone());
        }
        Ok(())
    });
    let Some(s) = seen.into_inner().unwrap() else { return };
    let (n, leaves) = (s.mesh.elems.len(), s.r.leaves());
    let pick: Vec<usize> = [0, 1, 43690, 43691, 43692, leaves.len() - 2, leaves.len() - 1].iter().map(|k| leaves[*k]).collect();
    if good {
        let a: Vec<(usize, Kind)> = pick.iter().enumerate().map(|(k, e)| (*e, ALL[k % 7])).collect();
        let mut b = a.clone();
        b.extend(pick.iter().enumerate().map(|(k, e)| (*e, ALL[(k * 3 + 1) % 7])));
        let rows = match St::start(ctx, &uni::block(260, 256)) {
            Ok(s) => s,
            Err(w) => return ctx.violate("block260x256:", w),
        };
        // elements 65536 apart
        let apart: Vec<(usize, Kind)> = [0usize, 1, 300, 1023].iter().flat_map(|e| [(*e, Kind::U), (*e + 65536, Kind::V), (*e + 1, Kind::V1)]).collect();
        // one refinement of a list: the same, in any order
        let list: Vec<usize> = [1023usize, 0, 1, 300].iter().flat_map(|e| [*e + 65536, *e]).chain([256, 512, 32768, 4096, 65535, 65534]).collect();
        let lists: Vec<(&St, Vec<usize>, Kind)> = vec![(&rows, list.clone(), Kind::T), (&rows, list, Kind::U0), (&s, pick.clone(), Kind::V), (&s, leaves.iter().rev().step_by(5).copied().collect(), Kind::V1)];
        par_for(ctx, &lists, |(s, l, k)| {
            ctx.step();
            let case = || format!("{} list of {} refined by {}", s.case(), l.len(), k.name());
            let want = match run_batch(s, &l.iter().map(|e| (*e, *k)).collect::<Vec<_>>()) {
                Ok((m, _)) => dump(&m),
                Err(e) => return ctx.violate(case(), e),
            };
            let mut mesh = s.mesh.clone();
            let real: Vec<usize> = l.iter().map(|e| s.m.real[*e]).collect();
            let r = guard(|| mesh.h_refine_elems(real, k.href()).map_err(|e| e.to_string()));
            if !matches!(r, Ok(Ok(()))) || dump(&mesh) != want {
                return ctx.violate(case(), format!("{r:?}, or the result differs from the batch form"));
            }
            ctx.valid();
        });
        let tasks: Vec<(&St, Vec<(usize, Kind)>)> = vec![(&s, a), (&s, b), (&rows, apart)];
        par_for(ctx, &tasks, |(s, b)| {
            let req = |b: &[(usize, Kind)]| -> Vec<(usize, HRef)> { b.iter().map(|(e, k)| (s.m.real[*e], k.href())).collect() };
            ctx.step();
            let case = || format!("{} batch {}", s.case(), name_batch(b));
            let want = match run_batch(s, b) {
                Ok((m, _)) => dump(&m),
                Err(e) => return ctx.violate(case(), e),
            };
            let mut back: Vec<(usize, Kind)> = b.clone();
            back.reverse();
            let mut mesh = s.mesh.clone();
            ctx.step();
            if !matches!(guard(|| mesh.execute_h_refinements(req(&back)).is_ok()), Ok(true)) || dump(&mesh) != want {
                return ctx.violate(case(), "the result differs from that of the same requests in another order");
            }
            let mut per: BTreeMap<usize, Kind> = BTreeMap::new();
            for (e, k) in b {
                per.entry(s.m.real[*e]).and_modify(|c| *c = c.join(*k)).or_insert(*k);
            }
            let mut mesh = s.mesh.clone();
            ctx.step();
            if guard(|| mesh.h_refine_with_filter(|el| per.get(&el.id).map(|k| k.href()))).is_err() || dump(&mesh) != want {
                return ctx.violate(case(), "filtered refinement differs from the batch form");
            }
            ctx.valid();
        });
    } else {
        let before = dump(&s.mesh);
        let all: Vec<(usize, HRef)> = leaves.iter().map(|e| (s.m.real[*e], HRef::T)).collect();
        let mut tasks: Vec<(Bad, usize)> = vec![];
        for at in [0, 1, all.len() / 2, all.len()] {
            tasks.extend([Bad::Missing(n), Bad::Missing(n + 65536), Bad::Missing(1 << 32), Bad::Refined(0), Bad::Refined(s.r.elems[leaves[0]].parent.unwrap().0)].map(|b| (b, at)));
        }
        par_for(ctx, &tasks, |(b, at)| {
            let mut batch = all.clone();
            batch.insert(*at, bad_req(b, Kind::T));
            let mut mesh = s.mesh.clone();
            ctx.step();
            let r = guard(|| mesh.execute_h_refinements(batch.clone()));
            let ok = matches!(&r, Ok(Err(e)) if bad_matches(b, e));
            if !ok || dump(&mesh) != before {
                return ctx.violate(format!("{} batch of all leaves with {b:?} at {at}", s.case()), format!("wrong outcome {:?} or the mesh is modified", r.map(|x| x.map_err(|e| e.to_string()))));
            }
            let mut mesh = s.mesh.clone();
            let r = guard(|| mesh.h_refine_elems(batch.iter().map(|x| x.0).collect(), HRef::U(None)));
            let ok = matches!(&r, Ok(Err(e)) if bad_matches(b, e));
            if !ok || dump(&mesh) != before {
                return ctx.violate(format!("{} list of all leaves with {b:?} at {at}", s.case()), format!("wrong outcome {:?} or the mesh is modified", r.map(|x| x.map_err(|e| e.to_string()))));
            }
            ctx.valid();
        });
        for id in (0..n).step_by(97).chain([65535, 65536, 65537, n - 1]) {
            let q = guard(|| s.mesh.elem_is_h_refineable(id));
            let want = s.r.elems[s.m.refi[id]].children.is_empty();
            if !matches!(q, Ok(Ok(b)) if b == want) {
                return ctx.violate(format!("{} refineable {}", s.case(), id), "wrong answer".to_string());
            }
        }
    }
}

pub fn c06() -> i32 {
    let ctx = Ctx::new("C06");
    // --- combination of request kinds ---
    for a in ALL {
        for b in ALL {
            ctx.step();
            let mut x = a.href();
            x += b.href();
            if x != a.join(b).href() {
                ctx.violate(format!("sum:{}+{}", a.name(), b.name()), format!("{} combined with {} gives {}, expected {}", a.name(), b.name(), x, a.join(b).name()));
            }
            for c in ALL {
                ctx.step();
                ctx.valid();
                let mut l = a.href();
                l += b.href();
                l += c.href();
                let mut rr = b.href();
                rr += c.href();
                let mut q = a.href();
                q += rr;
                let mut w = c.href();
                w += b.href();
                w += a.href();
                let want = a.join(b).join(c).href();
                if l != want || q != want || w != want {
                    ctx.violate(
                        format!("sum:{}+{}+{}", a.name(), b.name(), c.name()),
                        format!("combining depends on the grouping or order: {} / {} / {}, expected {}", l, q, w, want),
                    );
                }
            }
        }
    }
    let grids: Vec<(Grid, usize, usize)> = if ctx.thorough() {
        vec![(uni::unit(), 3, 7), (uni::horiz2(), 2, 6), (uni::vert2s(), 2, 6), (uni::lshape(), 1, 8), (uni::square4s(), 1, 9), (uni::odd2(), 1, 8)]
    } else {
        vec![(uni::unit(), 2, 7), (uni::horiz2(), 1, 5), (uni::vert2s(), 1, 5), (uni::square4s(), 0, 4)]
    };
    let max3 = ctx.pick(2, 3);
    let maxf = ctx.pick(3, 4);
    for (g, depth, max_leaves) in grids {
        let states = collect(&ctx, &g, &ALL, depth);
        let states: Vec<St> = states.into_iter().filter(|s| s.r.leaves().len() <= max_leaves).collect();
        let mut jobs: Vec<(usize, usize)> = vec![];
        for (i, s) in states.iter().enumerate() {
            for j in 0..s.r.leaves().len() * 7 {
                jobs.push((i, j));
            }
        }
        // --- batches ---
        par_for(&ctx, &jobs, |&(i, j)| {
            let s = &states[i];
            let leaves = s.r.leaves();
            let req: Vec<(usize, Kind)> = leaves.iter().flat_map(|e| ALL.iter().map(move |k| (*e, *k))).collect();
            let a = req[j];
            let one = |b: &[(usize, Kind)]| -> bool {
                // one representative order is compared with the model, all other orders with that one, exactly
                let case = || format!("{} batch {}", s.case(), name_batch(b));
                let (m0, _) = match run_batch(s, b) {
                    Ok(x) => x,
                    Err(e) => {
                        ctx.violate(case(), e);
                        return false;
                    }
                };
                ctx.step();
                ctx.valid();
                if b.len() > 1 {
                    let d0 = dump(&m0);
                    for p in permutations(b).into_iter().skip(1) {
                        let mut mesh = s.mesh.clone();
                        let rq: Vec<(usize, HRef)> = p.iter().map(|(e, k)| (s.m.real[*e], k.href())).collect();
                        let ok = guard(|| mesh.execute_h_refinements(rq).is_ok()).unwrap_or(false);
                        ctx.step();
                        if !ok || dump(&mesh) != d0 {
                            ctx.violate(format!("{} batch {}", s.case(), name_batch(&p)), format!("the result differs from that of the same requests in the order {}", name_batch(b)));
                            return false;
                        }
                    }
                }
                ctx.outcome(&format!("batch of {} on {} element(s)", b.len(), b.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().len()));
                true
            };
            if !one(&[a]) {
                return;
            }
            for jj in j..req.len() {
                let b = req[jj];
                if !one(&[a, b]) {
                    return;
                }
                if leaves.len() <= max3 {
                    for c in &req[jj..] {
                        if !one(&[a, b, *c]) {
                            return;
                        }
                    }
                }
            }
        });
        // --- entry points agree ---
        par_for(&ctx, &states, |s| {
            let leaves = s.r.leaves();
            for k in ALL {
                let all: Vec<(usize, Kind)> = leaves.iter().map(|e| (*e, k)).collect();
                let want = match run_batch(s, &all) {
                    Ok((m, _)) => dump(&m),
                    Err(e) => return ctx.violate(format!("{} batch {}", s.case(), name_batch(&all)), e),
                };
                ctx.step();
                let mut mesh = s.mesh.clone();
                if guard(|| mesh.global_h_refinement(k.href())).is_err() || dump(&mesh) != want {
                    return ctx.violate(format!("{} global {}", s.case(), k.name()), "global refinement differs from the batch of all leaves");
                }
                // lists: every non-empty subset, in ascending and descending order
                if leaves.len() <= 6 {
                    for mask in 1u32..(1 << leaves.len()) {
                        let sub: Vec<(usize, Kind)> = leaves.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, e)| (*e, k)).collect();
                        let want = match run_batch(s, &sub) {
                            Ok((m, _)) => dump(&m),
                            Err(e) => return ctx.violate(format!("{} batch {}", s.case(), name_batch(&sub)), e),
                        };
                        for rev in [false, true] {
                            let mut ids: Vec<usize> = sub.iter().map(|(e, _)| s.m.real[*e]).collect();
                            if rev {
                                ids.reverse();
                            }
                            ctx.step();
                            let mut mesh = s.mesh.clone();
                            let r = guard(|| mesh.h_refine_elems(ids.clone(), k.href()).map_err(|e| e.to_string()));
                            if !matches!(r, Ok(Ok(()))) || dump(&mesh) != want {
                                return ctx.violate(format!("{} list {:?} {}", s.case(), ids, k.name()), format!("list form differs from the batch form ({:?})", r));
                            }
                            // a duplicate at every position is refused
                            for p in 0..ids.len() {
                                for q in 0..=ids.len() {
                                    let mut dup = ids.clone();
                                    dup.insert(q, ids[p]);
                                    ctx.step();
                                    let mut mesh = s.mesh.clone();
                                    let r = guard(|| mesh.h_refine_elems(dup.clone(), k.href()));
                                    if !matches!(r, Ok(Err(HRefError::DuplicateElemIds))) {
                                        return ctx.violate(format!("{} list {:?} {}", s.case(), dup, k.name()), format!("duplicate ids are not refused as such: {:?}", r.map(|x| x.map_err(|e| e.to_string()))));
                                    }
                                }
                            }
                        }
                    }
                }
                ctx.valid();
            }
            // filters: every function from leaves to {none, 7 kinds}; elements that are not leaves must not be touched
            if leaves.len() <= maxf {
                let n = 8u64.pow(leaves.len() as u32);
                for code in 0..n {
                    if ctx.stopped() {
                        return;
                    }
                    let mut c = code;
                    let mut b = vec![];
                    for e in &leaves {
                        let d = (c % 8) as usize;
                        c /= 8;
                        if d > 0 {
                            b.push((*e, ALL[d - 1]));
                        }
                    }
                    let want = match run_batch(s, &b) {
                        Ok((m, _)) => dump(&m),
                        Err(e) => return ctx.violate(format!("{} batch {}", s.case(), name_batch(&b)), e),
                    };
                    let fm: BTreeMap<usize, Kind> = b.iter().map(|(e, k)| (s.m.real[*e], *k)).collect();
                    ctx.step();
                    let mut mesh = s.mesh.clone();
                    let r = guard(|| {
                        mesh.h_refine_with_filter(|el| if el.has_children() { Some(HRef::T) } else { fm.get(&el.id).map(|k| k.href()) });
                    });
                    if r.is_err() || dump(&mesh) != want {
                        return ctx.violate(format!("{} filter {}", s.case(), name_batch(&b)), "filtered refinement differs from the batch form");
                    }
                }
                ctx.valid();
                ctx.outcome("all filters of a mesh");
            }
        });
        if ctx.stopped() {
            break;
        }
    }
    if !ctx.stopped() {
        wide_batches(&ctx);
    }
    if !ctx.stopped() {
        huge_batches(&ctx, true);
    }
    ctx.finish(
        "model_checking",
        "every ordered batch of 1, 2 (and on small meshes 3) requests, with repetition, over every leaf and all seven kinds, from every reachable small mesh; every list, every duplicated list, every filter function; batches of up to three requests for every leaf, in eight orders, on meshes of up to 272 cells and on chains of 12 levels; compared with the least-covering-refinement model and, across orders and entry points, exactly",
        &["batches of more than three requests are covered through the list, filter and global forms only"],
    )
}

#[derive(Clone, Debug)]
enum Bad {
    Missing(usize),
    Refined(usize),
    Ext(usize, HRef),
}

fn bad_matches(b: &Bad, e: &HRefError) -> bool {
    match (b, e) {
        (Bad::Missing(i), HRefError::ElemDoesNotExist(j)) => i == j,
        (Bad::Refined(i), HRefError::ElemNotRefineable(j)) => i == j,
        (Bad::Refined(i), HRefError::ElemHasChildren(j)) => i == j,
        (Bad::Ext(..), HRefError::BisectionIdxExceeded) => true,
        _ => false,
    }
}

fn bad_req(b: &Bad, k: Kind) -> (usize, HRef) {
    match b {
        Bad::Missing(i) | Bad::Refined(i) => (*i, k.href()),
        Bad::Ext(i, h) => (*i, *h),
    }
}

const MIN: f64 = fem_2d::fem_domain::domain::mesh::MIN_EDGE_LENGTH;

/// Would refining leaf `e` by `k` be possible without an edge shorter than the minimum, and would every element involved be refineable?
/// None: exactly at the limit (unspecified).
fn big_enough(r: &RefMesh, e: usize, k: Kind) -> Option<bool> {
    let [x0, x1, y0, y1] = r.real_rect(e);
    let (w, h) = (x1 - x0, y1 - y0);
    let mut ok = true;
    let near = |a: f64| (a - MIN).abs() < 1e-9 * MIN;
    // the element itself
    for s in [w, h] {
        if near(s) {
            return None;
        }
        ok &= s > MIN;
    }
    let (mut w2, mut h2) = (w, h);
    match k.base() {
        Kind::T => {
            w2 /= 2.0;
            h2 /= 2.0;
        }
        Kind::U => {
            w2 /= 2.0;
            if k.ext().is_some() {
                h2 /= 2.0;
            }
        }
        _ => {
            h2 /= 2.0;
            if k.ext().is_some() {
                w2 /= 2.0;
            }
        }
    }
    for s in [w2, h2] {
        if near(s) {
            return None;
        }
        ok &= s > MIN;
    }
    Some(ok)
}

fn refineable_ref(r: &RefMesh, e: usize) -> Option<bool> {
    if !r.elems[e].children.is_empty() {
        return Some(false);
    }
    let [x0, x1, y0, y1] = r.real_rect(e);
    for s in [x1 - x0, y1 - y0] {
        if (s - MIN).abs() < 1e-9 * MIN {
            return None;
        }
        if s < MIN {
            return Some(false);
        }
    }
    Some(true)
}

pub fn c07() -> i32 {
    let ctx = Ctx::new("C07");
    let grids: Vec<(Grid, usize)> = if ctx.thorough() {
        vec![(uni::unit(), 3), (uni::horiz2(), 2), (uni::vert2s(), 2), (uni::square4s(), 1), (uni::lshape(), 1)]
    } else {
        vec![(uni::unit(), 2), (uni::horiz2s(), 1), (uni::vert2(), 1)]
    };
    for (g, depth) in grids {
        let states = collect(&ctx, &g, &BASIC, depth);
        par_for(&ctx, &states, |s| {
            let before = dump(&s.mesh);
            let n = s.mesh.elems.len();
            let leaves = s.leaf_real_ids();
            // refineability query
            for id in 0..n + 3 {
                ctx.step();
                let q = guard(|| s.mesh.elem_is_h_refineable(id));
                let ok = match &q {
                    Ok(Ok(b)) => id < n && *b == s.r.elems[s.m.refi[id]].children.is_empty(),
                    Ok(Err(MeshAccessError::ElemDoesNotExist(i))) => id >= n && *i == id,
                    _ => false,
                };
                if !ok {
                    return ctx.violate(format!("{} refineable {}", s.case(), id), format!("wrong answer {:?}", q.map(|r| r.map_err(|e| e.to_string()))));
                }
            }
            let mut bads: Vec<Bad> = vec![Bad::Missing(n), Bad::Missing(n + 1), Bad::Missing(n + 5), Bad::Missing(usize::MAX)];
            for id in 0..n {
                if s.mesh.elems[id].has_children() {
                    bads.push(Bad::Refined(id));
                }
            }
            for &l in [leaves[0], *leaves.last().unwrap()].iter().take(if leaves.len() == 1 { 1 } else { 2 }) {
                for i in [2usize, 3, 255, usize::MAX] {
                    bads.push(Bad::Ext(l, HRef::U(Some(i))));
                    bads.push(Bad::Ext(l, HRef::V(Some(i))));
                }
            }
            let kinds: &[Kind] = if ctx.thorough() || leaves.len() <= 2 { &[Kind::T, Kind::U, Kind::V, Kind::U0, Kind::V1] } else { &[Kind::T, Kind::U0, Kind::V] };
            let valid: Vec<(usize, HRef)> = leaves.iter().flat_map(|l| kinds.iter().map(move |k| (*l, k.href()))).collect();
            let expect = |batch: Vec<(usize, HRef)>, invalid: &[&Bad]| -> bool {
                let mut mesh = s.mesh.clone();
                ctx.step();
                let txt = || format!("{} batch {:?}", s.case(), batch);
                let r = guard(|| mesh.execute_h_refinements(batch.clone()));
                match r {
                    Err(p) => {
                        ctx.violate(txt(), format!("panicked: {p}"));
                        return false;
                    }
                    Ok(Ok(())) => {
                        ctx.violate(txt(), "an invalid batch was accepted");
                        return false;
                    }
                    Ok(Err(e)) => {
                        if !invalid.iter().any(|b| bad_matches(b, &e)) {
                            ctx.violate(txt(), format!("refused with the wrong error: {e}"));
                            return false;
                        }
                    }
                }
                if dump(&mesh) != before {
                    ctx.violate(txt(), "the refused batch modified the mesh");
                    return false;
                }
                ctx.valid();
                true
            };
            for b in &bads {
                for k in ALL {
                    if !matches!(b, Bad::Ext(..)) || k == Kind::T {
                        if !expect(vec![bad_req(b, k)], &[b]) {
                            return;
                        }
                    }
                }
                let x = bad_req(b, Kind::U0);
                for v in &valid {
                    if !expect(vec![x, *v], &[b]) || !expect(vec![*v, x], &[b]) {
                        return;
                    }
                    if ctx.thorough() || leaves.len() <= 4 {
                        for w in valid.iter().filter(|w| ctx.thorough() || w.1 == HRef::T) {
                            if !expect(vec![x, *v, *w], &[b]) || !expect(vec![*v, x, *w], &[b]) || !expect(vec![*v, *w, x], &[b]) {
                                return;
                            }
                        }
                    }
                }
                for b2 in &bads {
                    let y = bad_req(b2, Kind::T);
                    if !expect(vec![x, y], &[b, b2]) {
                        return;
                    }
                    let v = valid[0];
                    if !expect(vec![v, x, y], &[b, b2]) || !expect(vec![x, v, y], &[b, b2]) {
                        return;
                    }
                }
                // list form
                if let Bad::Missing(i) | Bad::Refined(i) = b {
                    for pos in 0..=leaves.len() {
                        for k in ALL {
                            let mut ids = leaves.clone();
                            ids.insert(pos, *i);
                            ctx.step();
                            let mut mesh = s.mesh.clone();
                            let r = guard(|| mesh.h_refine_elems(ids.clone(), k.href()));
                            let ok = matches!(&r, Ok(Err(e)) if bad_matches(b, e));
                            if !ok || dump(&mesh) != before {
                                return ctx.violate(format!("{} list {:?} {}", s.case(), ids, k.name()), format!("wrong outcome {:?} or mesh modified", r.map(|x| x.map_err(|e| e.to_string()))));
                            }
                        }
                    }
                }
            }
            for p in 0..leaves.len() {
                for q in 0..=leaves.len() {
                    let mut ids = leaves.clone();
                    ids.insert(q, leaves[p]);
                    ctx.step();
                    let mut mesh = s.mesh.clone();
                    let r = guard(|| mesh.h_refine_elems(ids.clone(), HRef::T));
                    if !matches!(r, Ok(Err(HRefError::DuplicateElemIds))) || dump(&mesh) != before {
                        return ctx.violate(format!("{} list {:?}", s.case(), ids), "duplicates: wrong outcome or mesh modified");
                    }
                }
            }
            ctx.outcome("state with every invalid batch tried");
        });
    }
    // invalid extension indices through the constructors
    for i in 0..=255u8 {
        ctx.step();
        let u = HRef::u_extened(i);
        let v = HRef::v_extened(i);
        let ok = if i < 2 {
            matches!(u, Ok(HRef::U(Some(k))) if k == i as usize) && matches!(v, Ok(HRef::V(Some(k))) if k == i as usize)
        } else {
            matches!(u, Err(HRefError::BisectionIdxExceeded)) && matches!(v, Err(HRefError::BisectionIdxExceeded))
        };
        if !ok {
            ctx.violate(format!("u_extened({i})"), "wrong outcome");
        }
    }
    // --- around the minimum edge length ---
    let mult: &[f64] = if ctx.thorough() { &[0.5, 0.9, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 6.0, 8.0, 9.0] } else { &[0.9, 1.0, 1.5, 2.0, 2.5, 4.0, 5.0, 9.0] };
    let mut small: Vec<Grid> = vec![];
    for (a, &w) in mult.iter().enumerate() {
        for (b, &h) in mult.iter().enumerate() {
            small.push(Grid::new(&format!("min_{a}_{b}"), &[0.0, w * MIN], &[0.0, h * MIN], &[(0, 0)]));
            if w > 1.0 && h > 1.0 {
                let mut g = Grid::new(&format!("minp_{a}_{b}"), &[0.0, 5.0 * MIN, (5.0 + w) * MIN], &[0.0, h * MIN], &[(0, 0), (1, 0)]);
                small.push(g.clone());
                g = Grid::new(&format!("minq_{a}_{b}"), &[0.0, w * MIN], &[0.0, h * MIN, (h + 2.5) * MIN], &[(0, 0), (0, 1)]);
                small.push(g);
            }
        }
    }
    let depth = ctx.pick(2, 3);
    par_for(&ctx, &small, |g| min_universe(&ctx, g, depth));
    if !ctx.stopped() {
        wide_refusals(&ctx);
        huge_batches(&ctx, false);
    }
    ctx.finish(
        "model_checking",
        "every batch with invalid requests (missing ids, refined elements, bad child indices; singly, in pairs, and at every position among one or two valid requests), every such list, from every reachable small mesh, and at every position of requests for all leaves of meshes of up to 272 cells and of chains of 12 levels; every refinement sequence and every pair of requests on meshes whose cells are 0.5..9 (exactly 1, 2, 4 and 8 among them) minimum edge lengths wide and high; the complete mesh state is compared before and after",
        &["whether a length within 1e-9 of the limit is refused or accepted is not judged (either must be complete)", "huge ids are tried at usize::MAX only"],
    )
}

fn min_universe(ctx: &Ctx, g: &Grid, depth: usize) {
    let start = match St::start(ctx, g) {
        Ok(s) => s,
        Err(e) => return ctx.violate(g.name.clone(), e),
    };
    let mut frontier = vec![start];
    let pair_depth = ctx.pick(1, 2);
    for d in 0..=depth {
        let mut next: Vec<St> = vec![];
        let mut seen = std::collections::HashSet::new();
        for s in &frontier {
            ctx.state();
            let before = dump(&s.mesh);
            let leaves = s.r.leaves();
            for e in 0..s.r.elems.len() {
                if let Some(want) = refineable_ref(&s.r, e) {
                    let q = guard(|| s.mesh.elem_is_h_refineable(s.m.real[e]));
                    if !matches!(&q, Ok(Ok(b)) if *b == want) {
                        return ctx.violate(format!("{} refineable {}", s.case(), s.m.real[e]), format!("wrong answer, expected {want}"));
                    }
                }
            }
            // single requests, and every request paired with a second one
            let req: Vec<(usize, Kind)> = leaves.iter().flat_map(|e| ALL.iter().map(move |k| (*e, *k))).collect();
            let try_batch = |b: &[(usize, Kind)]| -> Option<Option<Mesh>> {
                let mut joined: BTreeMap<usize, Kind> = BTreeMap::new();
                for &(e, k) in b {
                    joined.entry(e).and_modify(|c| *c = c.join(k)).or_insert(k);
                }
                let verdicts: Vec<Option<bool>> = joined.iter().map(|(e, k)| big_enough(&s.r, *e, *k)).collect();
                // exactly at the limit either outcome is right, as long as it is complete
                let free = verdicts.iter().any(|v| v.is_none()) && !verdicts.iter().any(|v| *v == Some(false));
                let want_ok = verdicts.iter().all(|v| *v == Some(true));
                let mut mesh = s.mesh.clone();
                let rq: Vec<(usize, HRef)> = b.iter().map(|(e, k)| (s.m.real[*e], k.href())).collect();
                ctx.step();
                let case = || format!("{} batch {}", s.case(), name_batch(b));
                match guard(|| mesh.execute_h_refinements(rq)) {
                    Err(p) => {
                        ctx.violate(case(), format!("panicked: {p}"));
                        None
                    }
                    Ok(Ok(())) => {
                        if !want_ok && !free {
                            ctx.violate(case(), "accepted a refinement below the minimum edge length");
                            return None;
                        }
                        if free {
                            ctx.outcome("element at the limit: accepted");
                            let mut r = s.r.clone();
                            r.refine_batch(b);
                            if let Err(e) = full_check(&mesh, &r) {
                                ctx.violate(case(), e);
                                return None;
                            }
                        }
                        if let Some(bad) = mesh.edges.iter().find(|e| e.length < MIN * (1.0 - 1e-12)) {
                            ctx.violate(case(), format!("edge {} is shorter than the minimum: {}", bad.id, bad.length));
                            return None;
                        }
                        ctx.valid();
                        ctx.outcome("small element: accepted");
                        Some(Some(mesh))
                    }
                    Ok(Err(e)) => {
                        if want_ok {
                            ctx.violate(case(), format!("refused a possible refinement: {e}"));
                            return None;
                        }
                        let ok = match &e {
                            HRefError::MinEdgeLength(_) => true,
                            HRefError::ElemNotRefineable(i) => joined.iter().any(|(el, k)| s.m.real[*el] == *i && big_enough(&s.r, *el, *k) != Some(true)),
                            _ => false,
                        };
                        if !ok {
                            ctx.violate(case(), format!("refused with the wrong error: {e}"));
                            return None;
                        }
                        if dump(&mesh) != before {
                            ctx.violate(case(), "the refused batch modified the mesh");
                            return None;
                        }
                        ctx.valid();
                        ctx.outcome("small element: refused");
                        Some(None)
                    }
                }
            };
            for (i, a) in req.iter().enumerate() {
                if ctx.stopped() {
                    return;
                }
                match try_batch(&[*a]) {
                    None => return,
                    Some(Some(mesh)) => {
                        if d < depth {
                            let mut n = s.clone();
                            n.hist.push(*a);
                            n.r.refine(a.0, a.1);
                            n.mesh = mesh;
                            match build_map(&n.mesh, &n.r) {
                                Ok(m) => n.m = m,
                                Err(e) => return ctx.violate(n.case(), e),
                            }
                            if seen.insert(n.r.canon(false)) {
                                next.push(n);
                            }
                        }
                    }
                    _ => {}
                }
                if d > pair_depth {
                    continue;
                }
                for b in &req[i..] {
                    if try_batch(&[*a, *b]).is_none() || try_batch(&[*b, *a]).is_none() {
                        return;
                    }
                }
            }
            // global and filtered forms skip what can't be refined
            for k in ALL {
                let verdicts: Vec<(usize, Option<bool>)> = leaves.iter().map(|e| (*e, big_enough(&s.r, *e, k))).collect();
                if verdicts.iter().any(|v| v.1.is_none()) || leaves.iter().any(|e| refineable_ref(&s.r, *e).is_none()) {
                    continue;
                }
                let ok: Vec<(usize, Kind)> = verdicts.iter().filter(|v| v.1 == Some(true)).map(|v| (v.0, k)).collect();
                // eligible according to the query, yet impossible to split
                let stuck = verdicts.iter().any(|v| v.1 == Some(false) && refineable_ref(&s.r, v.0) == Some(true));
                let mut r = s.r.clone();
                r.refine_batch(&ok);
                for form in ["global", "filter"] {
                    let mut mesh = s.mesh.clone();
                    ctx.step();
                    let res = guard(|| if form == "global" { mesh.global_h_refinement(k.href()) } else { mesh.h_refine_with_filter(|_| Some(k.href())) });
                    let case = || format!("{} {} {}", s.case(), form, k.name());
                    match res {
                        Err(p) => {
                            if stuck && p.contains("MinEdgeLength") && dump(&mesh) == before {
                                ctx.deviate("global-or-filter-panics-between-one-and-two-min-edge-lengths", case(), p);
                            } else {
                                return ctx.violate(case(), format!("panicked: {p}"));
                            }
                        }
                        Ok(()) => {
                            if let Err(e) = full_check(&mesh, &r) {
                                return ctx.violate(case(), e);
                            }
                        }
                    }
                }
            }
        }
        frontier = next;
    }
}

//! C09 (degrees of freedom), C10 (conformity), C11 (matrices), C12 (assembly inputs), C14 (nested spaces).
use crate::cases::*;
use crate::ctx::*;
use crate::explore::*;
use crate::obs::*;
use crate::poly::*;
use crate::refm::*;
use crate::uni;
use fem_2d::fem_domain::domain::dof::basis_spec::*;
use fem_2d::prelude::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};

const ASSUME: &[&str] = &[
    "refinement trees and order assignments beyond the stated bounds are not explored; start meshes are the listed rectangular grids",
    "only the H(curl) condition and the hierarchical polynomial basis are built by the library's stable feature set",
];

fn plan(grid: uni::Grid, kinds: &'static [Kind], depth: usize, max_elems: usize, bases: &[[u8; 2]], alt: &[[u8; 2]], dev: usize) -> Plan {
    Plan { grid, kinds, depth, max_elems, bases: bases.to_vec(), alt: alt.to_vec(), dev, dedupe: true }
}

// ------------------------------------------------------------------------------------------------ C09

fn c09_case(s: &St) -> Result<(), String> {
    let dom = domain(s)?;
    let r = &s.r;
    // nothing but edge activation may change
    let geo = |m: &Mesh| strip_activation(&dump(m));
    ensure!(geo(&s.mesh) == geo(&dom.mesh), "building the domain changed the mesh");
    // the rule
    let mut got = dof_funs(&dom, &s.m.refi)?;
    got.sort();
    let want = expected_dofs(r);
    if got != want {
        let gs: BTreeSet<_> = got.iter().collect();
        let ws: BTreeSet<_> = want.iter().collect();
        let extra: Vec<_> = gs.difference(&ws).take(3).collect();
        let missing: Vec<_> = ws.difference(&gs).take(3).collect();
        return Err(format!(
            "the domain has {} degrees of freedom, the rule gives {}; not expected: {:?}; missing: {:?} (elements in model numbering)",
            got.len(),
            want.len(),
            extra,
            missing
        ));
    }
    // bijection
    ensure!(dom.basis_specs.len() == dom.mesh.elems.len(), "{} lists of basis functions for {} elements", dom.basis_specs.len(), dom.mesh.elems.len());
    let mut seen: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut ids: BTreeSet<usize> = BTreeSet::new();
    for (k, d) in dom.dofs.iter().enumerate() {
        ensure!(d.id == k, "degree of freedom at index {} has id {}", k, d.id);
        let adr = d.get_basis_specs();
        let mut specs = vec![];
        for a in &adr {
            let sp = dom.get_basis_spec(*a).map_err(|e| format!("address {} of degree of freedom {}: {}", a, k, e))?;
            ensure!(seen.insert((a.elem_id, a.elem_idx)), "address {} belongs to two degrees of freedom (second: {})", a, k);
            ensure!(sp.dof_id == Some(k), "record at {} names degree of freedom {:?}, but belongs to {}", a, sp.dof_id, k);
            ensure!(sp.elem_id == a.elem_id && sp.elem_idx == Some(a.elem_idx), "record at {} says it is at {}({:?})", a, sp.elem_id, sp.elem_idx);
            ensure!(ids.insert(sp.id), "two basis-function records have the id {}", sp.id);
            let el = &dom.mesh.elems[sp.elem_id];
            let loc = match (sp.dir, sp.i, sp.j) {
                (BasisDir::U, _, j) if j < 2 => BasisLoc::EdgeBs(j, el.edges[j as usize]),
                (BasisDir::V, i, _) if i < 2 => BasisLoc::EdgeBs(i + 2, el.edges[i as usize + 2]),
                _ => BasisLoc::ElemBs,
            };
            ensure!(sp.loc == loc, "record {} is attached to {:?}, expected {:?}", sp.id, sp.loc, loc);
            let data = sp.integration_data();
            ensure!(data == ([sp.i as usize, sp.j as usize], sp.dir, k), "integration data of record {} is {:?}", sp.id, data);
            specs.push(sp);
        }
        match specs.len() {
            1 => ensure!(specs[0].loc == BasisLoc::ElemBs, "degree of freedom {} has a single function attached to {:?}", k, specs[0].loc),
            2 => {
                let e = |s: &BasisSpec| if let BasisLoc::EdgeBs(i, e) = s.loc { Some((i, e)) } else { None };
                let (a, b) = (e(specs[0]), e(specs[1]));
                ensure!(a.is_some() && b.is_some(), "degree of freedom {} joins functions that are not on an edge", k);
                let ((ia, ea), (ib, eb)) = (a.unwrap(), b.unwrap());
                ensure!(ea == eb, "degree of freedom {} joins functions on edges {} and {}", k, ea, eb);
                ensure!(ia ^ ib == 1, "degree of freedom {} joins functions on sides {} and {}", k, ia, ib);
                ensure!(specs[0].dir == specs[1].dir, "degree of freedom {} joins functions of different directions", k);
                let mut pair = dom.mesh.edges[ea].active_elem_pair().ok_or(format!("degree of freedom {} is on the inactive edge {}", k, ea))?;
                let mut mine = [specs[0].elem_id, specs[1].elem_id];
                pair.sort();
                mine.sort();
                ensure!(pair == mine, "degree of freedom {} joins elements {:?}, the active pair is {:?}", k, mine, pair);
            }
            n => return Err(format!("degree of freedom {} has {} functions", k, n)),
        }
    }
    let total: usize = dom.basis_specs.iter().map(|v| v.len()).sum();
    ensure!(total == seen.len(), "{} basis-function records exist, {} belong to a degree of freedom", total, seen.len());
    for (e, l) in dom.basis_specs.iter().enumerate() {
        for (k, sp) in l.iter().enumerate() {
            ensure!(sp.elem_id == e && sp.elem_idx == Some(k), "record {} stored at {}({}) says {}({:?})", sp.id, e, k, sp.elem_id, sp.elem_idx);
        }
        // an element has each function once, and its records are told apart by equality
        if l.len() <= 100 {
            for (k, a) in l.iter().enumerate() {
                for (n, b) in l.iter().enumerate() {
                    ensure!((a == b) == (k == n), "records {} and {} of element {} compare {}", a, b, e, if a == b { "equal" } else { "different" });
                }
            }
        }
    }
    Ok(())
}

/// the exact state of a mesh without the activation of its edges
pub fn strip_activation(d: &str) -> String {
    let mut out = String::with_capacity(d.len());
    for l in d.lines() {
        match (l.starts_with('E'), l.find(" aSome(").or_else(|| l.find(" aNone"))) {
            (true, Some(p)) => {
                out += &l[..p];
                out += &l[p + l[p..].find(" i").unwrap_or(0)..];
            }
            _ => out += l,
        }
        out.push('\n');
    }
    out
}

/// start meshes of the deep histories, and the cells of the chains that run in two cells at once
pub fn deep_grids() -> Vec<(uni::Grid, Option<[usize; 2]>)> {
    vec![(uni::unit(), None), (uni::horiz2s(), Some([0, 1])), (uni::vert2(), Some([0, 1])), (uni::square4s(), Some([0, 3]))]
}

pub fn c09() -> i32 {
    let ctx = Ctx::new("C09");
    let f = |s: &St| {
        ctx.step();
        ctx.valid();
        c09_case(s)
    };
    let small: &[[u8; 2]] = &[[1, 1], [1, 2], [2, 1], [2, 2], [3, 3], [1, 3], [4, 1], [2, 5]];
    let plans = if ctx.thorough() {
        vec![
            plan(uni::unit(), &BASIC, 4, 99, &[[1, 1], [2, 2], [3, 2]], &[[1, 1], [1, 2], [3, 1], [2, 2], [4, 3]], 1),
            plan(uni::unit(), &ALL, 3, 99, &[[1, 1], [2, 3]], &[[1, 1], [1, 2], [3, 1], [2, 2]], 1),
            plan(uni::unit(), &BASIC, 2, 99, &[[1, 1], [2, 2], [3, 3]], small, 2),
            plan(uni::horiz2s(), &BASIC, 3, 99, &[[1, 1], [2, 2], [3, 1]], small, 1),
            plan(uni::horiz2(), &BASIC, 2, 99, &[[1, 1], [2, 2], [1, 4]], small, 2),
            plan(uni::vert2s(), &BASIC, 3, 99, &[[1, 1], [2, 2], [1, 3]], small, 1),
            plan(uni::vert2(), &BASIC, 2, 99, &[[1, 1], [2, 2], [4, 1]], small, 2),
            plan(uni::square4s(), &BASIC, 2, 99, &[[1, 1], [2, 3]], small, 2),
            plan(uni::square4(), &ALL, 2, 99, &[[1, 1], [2, 2]], small, 1),
            plan(uni::lshape(), &BASIC, 3, 99, &[[2, 2], [1, 3]], &[[1, 1], [3, 1], [1, 2]], 1),
            plan(uni::diag2(), &BASIC, 3, 99, &[[2, 2]], small, 1),
            plan(uni::ring8(), &BASIC, 2, 99, &[[1, 1], [2, 3]], small, 1),
            plan(uni::horiz2(), &BASIC, 0, 99, &[[1, 1], [20, 20], [10, 3]], &all_orders(20), 1),
            plan(uni::vert2(), &BASIC, 0, 99, &[[1, 1], [20, 20], [3, 10]], &all_orders(20), 1),
        ]
    } else {
        vec![
            plan(uni::unit(), &BASIC, 3, 99, &[[1, 1], [2, 2], [3, 2]], &[[1, 1], [1, 2], [3, 1], [2, 2]], 1),
            plan(uni::unit(), &ALL, 2, 99, &[[1, 1], [2, 3]], &[[1, 1], [1, 2], [3, 1], [2, 2]], 1),
            plan(uni::unit(), &BASIC, 1, 99, &[[1, 1], [2, 2], [3, 3]], small, 2),
            plan(uni::horiz2s(), &BASIC, 2, 99, &[[1, 1], [2, 2], [3, 1]], small, 1),
            plan(uni::horiz2(), &BASIC, 1, 99, &[[1, 1], [2, 2], [1, 4]], small, 2),
            plan(uni::vert2s(), &BASIC, 2, 99, &[[1, 1], [2, 2], [1, 3]], small, 1),
            plan(uni::vert2(), &BASIC, 1, 99, &[[1, 1], [2, 2], [4, 1]], small, 2),
            plan(uni::square4s(), &BASIC, 1, 99, &[[1, 1], [2, 3]], small, 2),
            plan(uni::square4s(), &BASIC, 2, 99, &[[2, 2]], &[[1, 1], [3, 1], [1, 2]], 1),
            plan(uni::lshape(), &BASIC, 2, 99, &[[2, 2], [1, 3]], &[[1, 1], [3, 1], [1, 2]], 1),
            plan(uni::diag2(), &BASIC, 2, 99, &[[2, 2]], &[[1, 1], [3, 1], [1, 2]], 1),
            plan(uni::ring8(), &BASIC, 1, 99, &[[1, 1], [2, 3]], &[[1, 1], [3, 1], [1, 2]], 1),
            plan(uni::horiz2(), &BASIC, 0, 99, &[[1, 1], [20, 20]], &all_orders(20), 1),
            plan(uni::vert2(), &BASIC, 0, 99, &[[1, 1], [20, 20]], &all_orders(20), 1),
        ]
    };
    for p in &plans {
        for_cases(&ctx, p, &f);
    }
    let wide = ctx.pick(60, 400);
    for (g, cells) in deep_grids() {
        let v = deep_states(&ctx, &g, ctx.pick(1, 2), 15, cells.map(|c| (c, ctx.pick(8, 14))), ctx.pick(2, 1));
        for_states(&ctx, &v, &[[1, 1], [2, 2], [3, 1]], &[], 0, &f);
        let v = globals(&ctx, &g, 3, wide);
        for_states(&ctx, &v, &[[1, 1], [2, 2], [1, 3]], &[[3, 1], [1, 2]], 1, &f);
        let v = lead_states(&ctx, &g, &(0..g.cells.len()).collect::<Vec<_>>(), 15);
        for_states(&ctx, &v, &[[2, 2], [1, 2]], &[], 0, &f);
    }
    for g in uni::vast() {
        for_states(&ctx, &vast_states(&ctx, &g, ctx.pick(5, 1)), &[[1, 1], [2, 3]], &[], 0, &f);
    }
    for (g, c) in [(uni::horiz2s(), 0), (uni::vert2(), 1), (uni::square4s(), 2)] {
        for n in 3..=ctx.pick(5, 6) {
            for_states(&ctx, &one_sided(&ctx, &g, c, &vec![Kind::T; n]).into_iter().collect::<Vec<_>>(), &[[2, 2]], &[], 0, &f);
        }
    }
    // many cells; large cells far from the origin
    for (w, h) in [(17, 16), (ctx.pick(100, 300), 1), (1, ctx.pick(100, 300))] {
        for_cases(&ctx, &plan(uni::block(w, h), &BASIC, 0, 99999, &[[1, 1], [2, 3]], &[[3, 1]], ctx.pick(0, 1)), &f);
    }
    for_cases(&ctx, &plan(uni::block(9, 9), &BASIC, 1, 999, &[[2, 2]], &[], 0), &f);
    huge(&ctx, true, &|_, s| f(s));
    for g in [uni::horiz2s().scaled(3e3, -1e3, 0.0), uni::square4s().scaled(1e6, 0.0, 7.5e5), uni::vert2s().scaled(0.01, 0.0, 0.0)] {
        for_cases(&ctx, &plan(g, &BASIC, ctx.pick(1, 2), 99, &[[1, 1], [3, 2]], &[[1, 2], [3, 1]], 1), &f);
    }
    ctx.finish(
        "model_checking",
        "every refinement tree to the stated depth, deep chains and refinements of all leaves x every order assignment that is uniform except at up to one or two elements (non-leaf elements included); the library's domain is compared with the degrees of freedom derived from the rectangles, and every address, record and id is cross-checked",
        ASSUME,
    )
}

pub fn all_orders(n: u8) -> Vec<[u8; 2]> {
    let mut v = vec![];
    for i in 1..=n {
        for j in 1..=n {
            v.push([i, j]);
        }
    }
    v
}

// ------------------------------------------------------------------------------------------------ fields

/// the library's field of each unit solution vector, sampled on an nd x nd uniform grid per leaf:
/// result[dof][leaf (ascending library id)][component][m * nd + n]
pub fn sampled(dom: &Domain, nd: usize) -> Result<(Vec<usize>, Vec<Vec<[Vec<f64>; 2]>>), String> {
    let leaves: Vec<usize> = dom.mesh.elems.iter().filter(|e| !e.has_children()).map(|e| e.id).collect();
    let mut out = Vec::with_capacity(dom.dofs.len());
    let mut ufs = UniformFieldSpace::new(dom, [nd, nd]);
    for d in 0..dom.dofs.len() {
        let mut sol = vec![0.0; dom.dofs.len()];
        sol[d] = 1.0;
        let names = ufs.xy_fields::<HierPoly>("f", sol).map_err(|e| e.to_string())?;
        let mut comp: [Vec<f64>; 2] = [vec![], vec![]];
        for c in 0..2 {
            let cell = RefCell::new(Vec::with_capacity(leaves.len() * nd * nd));
            let rc = &cell;
            ufs.map_to_quantity(&names[c], "capture", move |x| {
                rc.borrow_mut().push(*x);
                *x
            })
            .map_err(|e| e.to_string())?;
            comp[c] = cell.into_inner();
            ensure!(comp[c].len() == leaves.len() * nd * nd, "field has {} values, expected {}", comp[c].len(), leaves.len() * nd * nd);
        }
        let mut per = vec![];
        for k in 0..leaves.len() {
            let cut = |c: usize| comp[c][k * nd * nd..(k + 1) * nd * nd].to_vec();
            per.push([cut(0), cut(1)]);
        }
        out.push(per);
    }
    Ok((leaves, out))
}

fn local(lo: i64, hi: i64, x: f64) -> f64 {
    -1.0 + 2.0 * (x - lo as f64) / (hi - lo) as f64
}

fn c10_case(ctx: &Ctx, s: &St) -> Result<(), String> {
    let dom = domain(s)?;
    let r = &s.r;
    let maxo = r.elems.iter().map(|e| e.orders[0].max(e.orders[1])).max().unwrap() as usize;
    let nd = maxo + 2;
    let (leaves, fields) = sampled(&dom, nd)?;
    let lref: Vec<usize> = leaves.iter().map(|l| s.m.refi[*l]).collect();
    // interfaces between leaves (vertical flag, lower/left leaf, upper/right leaf, overlap)
    let mut faces: Vec<(bool, usize, usize, i64, i64)> = vec![];
    for (a, &ea) in lref.iter().enumerate() {
        for (b, &eb) in lref.iter().enumerate() {
            let (ra, rb) = (r.elems[ea].rect, r.elems[eb].rect);
            if ra[3] == rb[2] {
                let (l, h) = (ra[0].max(rb[0]), ra[1].min(rb[1]));
                if l < h {
                    faces.push((false, a, b, l, h));
                }
            }
            if ra[1] == rb[0] {
                let (l, h) = (ra[2].max(rb[2]), ra[3].min(rb[3]));
                if l < h {
                    faces.push((true, a, b, l, h));
                }
            }
        }
    }
    let mut cols = vec![];
    for (d, f) in fields.iter().enumerate() {
        ctx.step();
        let scale = f.iter().flat_map(|l| l.iter().flatten()).fold(0.0f64, |m, x| m.max(x.abs()));
        ensure!(scale > 0.0 && scale.is_finite(), "the field of degree of freedom {} is zero or not finite", d);
        // tangential values along a side of a leaf: side 0=S, 1=N, 2=W, 3=E
        let side = |leaf: usize, side: usize| -> Vec<f64> {
            (0..nd)
                .map(|k| match side {
                    0 => f[leaf][0][k * nd],
                    1 => f[leaf][0][k * nd + nd - 1],
                    2 => f[leaf][1][k],
                    _ => f[leaf][1][(nd - 1) * nd + k],
                })
                .collect()
        };
        for &(vert, a, b, l, h) in &faces {
            let (sa, sb) = if vert { (side(a, 3), side(b, 2)) } else { (side(a, 1), side(b, 0)) };
            let (ra, rb) = (r.elems[lref[a]].rect, r.elems[lref[b]].rect);
            let o = if vert { 2 } else { 0 };
            for k in 0..=nd {
                let x = l as f64 + (h - l) as f64 * k as f64 / nd as f64;
                let va = lagrange(&sa, local(ra[o], ra[o + 1], x));
                let vb = lagrange(&sb, local(rb[o], rb[o + 1], x));
                ensure!(
                    (va - vb).abs() <= 1e-8 * scale,
                    "degree of freedom {}: the tangential field jumps from {:e} to {:e} across the interface between leaf elements {} and {}",
                    d,
                    va,
                    vb,
                    leaves[a],
                    leaves[b]
                );
            }
        }
        for (k, &e) in lref.iter().enumerate() {
            for (q, sg) in RefMesh::sides(&r.elems[e].rect).iter().enumerate() {
                if r.seg_on_boundary(*sg) {
                    let m = side(k, q).iter().fold(0.0f64, |m, x| m.max(x.abs()));
                    ensure!(m <= 1e-10 * scale, "degree of freedom {}: tangential field {:e} on the domain boundary (element {}, side {})", d, m, leaves[k], q);
                }
            }
        }
        cols.push(f.iter().flat_map(|l| l.iter().flatten().copied()).collect::<Vec<f64>>());
    }
    let n = cols.len();
    // the monomials of high orders are too nearly dependent for double precision when both orders are high
    if r.elems.iter().any(|e| e.orders[0] as usize + e.orders[1] as usize > 24) {
        ctx.outcome("rank not judged");
        return Ok(());
    }
    let (q, piv) = orth(cols, 1e-11);
    ensure!(q.len() == n, "the {} fields span only {} dimensions (smallest pivot {:e})", n, q.len(), piv);
    Ok(())
}

pub fn c10() -> i32 {
    let ctx = Ctx::new("C10");
    let f = |s: &St| {
        ctx.valid();
        c10_case(&ctx, s)
    };
    let few: &[[u8; 2]] = &[[1, 1], [1, 2], [3, 1], [2, 2]];
    let plans = if ctx.thorough() {
        vec![
            plan(uni::unit(), &BASIC, 3, 99, &[[2, 2], [3, 1]], few, 1),
            plan(uni::unit(), &ALL, 3, 99, &[[2, 2]], few, 0),
            plan(uni::unit(), &BASIC, 4, 99, &[[2, 2]], few, 0),
            plan(uni::rect1(), &BASIC, 2, 99, &[[1, 1], [2, 2], [4, 5]], &all_orders(3), 1),
            plan(uni::horiz2s(), &BASIC, 3, 99, &[[2, 2]], few, 1),
            plan(uni::horiz2(), &BASIC, 1, 99, &[[1, 1], [2, 2], [4, 3]], &all_orders(3), 2),
            plan(uni::vert2s(), &BASIC, 3, 99, &[[2, 2]], few, 1),
            plan(uni::vert2(), &BASIC, 1, 99, &[[1, 1], [2, 2], [3, 4]], &all_orders(3), 2),
            plan(uni::square4s(), &BASIC, 2, 99, &[[2, 2], [1, 3]], few, 1),
            plan(uni::lshape(), &BASIC, 2, 99, &[[2, 2]], few, 1),
            plan(uni::odd2(), &BASIC, 2, 99, &[[2, 2]], few, 1),
            plan(uni::diag2(), &BASIC, 2, 99, &[[2, 2]], few, 1),
            plan(uni::ring8(), &BASIC, 1, 99, &[[1, 1], [2, 2]], few, 1),
        ]
    } else {
        vec![
            plan(uni::unit(), &BASIC, 2, 99, &[[2, 2], [3, 1]], few, 1),
            plan(uni::unit(), &ALL, 2, 99, &[[2, 2]], few, 0),
            plan(uni::unit(), &BASIC, 3, 99, &[[2, 2]], few, 0),
            plan(uni::rect1(), &BASIC, 1, 99, &[[1, 1], [2, 2], [4, 5]], &all_orders(3), 1),
            plan(uni::horiz2s(), &BASIC, 2, 99, &[[2, 2]], few, 1),
            plan(uni::vert2s(), &BASIC, 2, 99, &[[2, 2]], few, 1),
            plan(uni::square4s(), &BASIC, 1, 99, &[[2, 2], [1, 3]], few, 1),
            plan(uni::lshape(), &BASIC, 2, 99, &[[2, 2]], few, 0),
            plan(uni::odd2(), &BASIC, 2, 99, &[[2, 2]], few, 0),
            plan(uni::diag2(), &BASIC, 1, 99, &[[2, 2]], few, 1),
            plan(uni::ring8(), &BASIC, 1, 99, &[[2, 2]], few, 0),
        ]
    };
    for p in &plans {
        for_cases(&ctx, p, &f);
    }
    for (g, cells) in deep_grids() {
        let v = deep_states(&ctx, &g, ctx.pick(1, 2), ctx.pick(6, 8), cells.map(|c| (c, ctx.pick(4, 6))), 2);
        for_states(&ctx, &v, &[[2, 2]], &[], 0, &f);
        for_states(&ctx, &globals(&ctx, &g, 2, ctx.pick(30, 90)), &[[2, 2], [1, 3]], few, ctx.pick(0, 1), &f);
        for_states(&ctx, &lead_states(&ctx, &g, &(0..g.cells.len()).collect::<Vec<_>>(), 6), &[[2, 2]], &[], 0, &f);
        for_states(&ctx, &deep_states(&ctx, &g, 1, 15, cells.map(|c| (c, ctx.pick(12, 16))), 6), &[[2, 2]], &[], 0, &f);
    }
    for g in uni::vast() {
        for_states(&ctx, &vast_states(&ctx, &g, 11), &[[1, 1]], &[], 0, &f);
    }
    for (g, c) in [(uni::horiz2s(), 0), (uni::vert2(), 1)] {
        for_states(&ctx, &one_sided(&ctx, &g, c, &vec![Kind::T; ctx.pick(3, 4)]).into_iter().collect::<Vec<_>>(), &[[2, 2]], &[], 0, &f);
    }
    // high orders on small meshes
    for k in 3..=ctx.pick(10u8, 16) {
        for g in [uni::horiz2(), uni::vert2s()] {
            for_cases(&ctx, &plan(g, &BASIC, ctx.pick(0, 1), 99, &[[k, k], [1, k], [k, 2]], &[[2, 2], [k, 1], [1, k]], 1), &f);
        }
    }
    for k in 11..=20u8 {
        for g in [uni::horiz2s(), uni::vert2()] {
            for_cases(&ctx, &plan(g, &BASIC, 0, 99, &[[1, k], [k, 1], [2, k], [k, 2]], &[[2, 2], [k, 1], [1, k]], 1), &f);
        }
        for_cases(&ctx, &plan(uni::unit(), &BASIC, 1, 99, &[[1, k], [k, 1]], &[], 0), &f);
    }
    ctx.finish(
        "model_checking",
        "every refinement tree to the stated depth x order assignments within the deviation bound; the library's own field of every unit solution vector is sampled on every leaf and its tangential traces are compared on every leaf-leaf interface and on the boundary; the rank of all fields must equal their number (judged up to a sum of orders of 24 in one element)",
        ASSUME,
    )
}

// ------------------------------------------------------------------------------------------------ C11 / C12

fn to_dense(gep: &fem_2d::fem_problem::linalg::GEP, n: usize) -> Result<(Sym, Sym), String> {
    let f = |m: &fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix| -> Result<Sym, String> {
        ensure!(m.dimension == n, "matrix has dimension {}, expected {}", m.dimension, n);
        let mut s = Sym::zero(n);
        let mut seen = BTreeSet::new();
        for ([r, c], v) in m.iter_upper_tri() {
            ensure!(r < n && c < n && seen.insert((r.min(c), r.max(c))), "entry ({}, {}) is out of range or listed twice", r, c);
            s.add(r, c, v);
            if r != c {
                s.add(c, r, v);
            }
        }
        Ok(s)
    };
    Ok((f(&gep.a)?, f(&gep.b)?))
}

fn assemble(dom: &Domain, glq: Option<[usize; 2]>) -> Result<fem_2d::fem_problem::linalg::GEP, String> {
    guard(|| fem_2d::fem_problem::galerkin::galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(dom, glq))
        .map_err(|p| format!("assembly panicked: {p}"))?
        .map_err(|e| format!("assembly was refused: {e}"))
}

fn compare(name: &str, got: &Sym, want: &Sym, diag: &[f64], tol: f64) -> Result<(), String> {
    for i in 0..want.n {
        for j in 0..want.n {
            let sc = (diag[i] * diag[j]).sqrt();
            ensure!(
                (got.get(i, j) - want.get(i, j)).abs() <= tol * sc,
                "{}[{}, {}] = {:e}, expected {:e} (scale {:e})",
                name,
                i,
                j,
                got.get(i, j),
                want.get(i, j),
                sc
            );
        }
    }
    Ok(())
}

/// scale of each row of A: its diagonal (no basis function is free of curl)
fn diag_a(a: &Sym) -> Vec<f64> {
    (0..a.n).map(|i| a.get(i, i).abs()).collect()
}

fn cholesky_ok(b: &Sym, floor: f64) -> bool {
    let n = b.n;
    let d: Vec<f64> = (0..n).map(|i| b.get(i, i).sqrt()).collect();
    if d.iter().any(|x| !(*x > 0.0)) {
        return false;
    }
    let mut l = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = b.get(i, j) / (d[i] * d[j]);
            for k in 0..j {
                s -= l[i * n + k] * l[j * n + k];
            }
            if i == j {
                if !(s > floor) {
                    return false;
                }
                l[i * n + i] = s.sqrt();
            } else {
                l[i * n + j] = s / l[j * n + j];
            }
        }
    }
    true
}

fn real_materials(g: &uni::Grid) -> uni::Grid {
    let mut g = g.clone();
    for (k, m) in g.materials.iter_mut().enumerate() {
        // imaginary parts zero: the assembled problem is real
        *m = [1.0 + 0.75 * k as f64, 0.0, 2.0 / (1.0 + k as f64), 0.0];
        if g.unit {
            *m = [1.0, 0.0, 1.0, 0.0];
        }
    }
    g
}

fn c11_case(ctx: &Ctx, s: &St, mats: &[[f64; 4]]) -> Result<(), String> {
    let dom = domain(s)?;
    if dom.dofs.is_empty() {
        ctx.outcome("no degrees of freedom");
        return Ok(());
    }
    let n = dom.dofs.len();
    let gep = assemble(&dom, None)?;
    let (a, b) = to_dense(&gep, n)?;
    let funs = dof_funs(&dom, &s.m.refi)?;
    let (ra, rb) = reference_matrices(&s.r, &funs, mats);
    let db: Vec<f64> = (0..n).map(|i| rb.get(i, i)).collect();
    compare("A", &a, &ra, &diag_a(&ra), 1e-9)?;
    compare("B", &b, &rb, &db, 1e-9)?;
    // strictly, unless the orders are so high that double precision cannot tell
    let strict = s.r.elems.iter().all(|e| e.orders[0] as usize + e.orders[1] as usize <= 16);
    let mut sb = Sym::zero(n);
    for k in 0..n * n {
        sb.a[k] = b.a[k] + if k % (n + 1) == 0 && !strict { 1e-9 * b.a[k] } else { 0.0 };
    }
    ensure!(cholesky_ok(&sb, if strict { 1e-12 } else { 0.0 }), "B is not positive definite");
    // A plus a shift well above rounding must be positive definite if A is positive semidefinite
    let da = diag_a(&ra);
    let mut sh = Sym::zero(n);
    for i in 0..n {
        for j in 0..n {
            sh.a[i * n + j] = a.get(i, j) / (da[i] * da[j]).sqrt() + if i == j { 1e-8 } else { 0.0 };
        }
    }
    ensure!(cholesky_ok(&sh, 0.0), "A is not positive semidefinite");
    // functions that do not overlap
    for i in 0..n {
        for j in 0..n {
            let lap = funs[i].iter().any(|p| funs[j].iter().any(|q| overlap(&s.r, p.e, q.e)));
            if !lap {
                ensure!(a.get(i, j) == 0.0 && b.get(i, j) == 0.0, "entry ({}, {}) is not zero although the functions do not overlap", i, j);
            }
        }
    }
    Ok(())
}

/// the same comparison without dense matrices
fn c11_sparse(ctx: &Ctx, s: &St, mats: &[[f64; 4]]) -> Result<(), String> {
    let dom = domain(s)?;
    let n = dom.dofs.len();
    let gep = assemble(&dom, None)?;
    let funs = dof_funs(&dom, &s.m.refi)?;
    let (ra, rb) = reference_sparse(&s.r, &funs, mats);
    for (name, got, want) in [("A", &gep.a, &ra), ("B", &gep.b, &rb)] {
        ensure!(got.dimension == n, "{} has dimension {}, expected {}", name, got.dimension, n);
        let mut seen = HashMap::new();
        for ([r, c], v) in got.iter_upper_tri() {
            ensure!(r < n && c < n && seen.insert((r.min(c), r.max(c)), v).is_none(), "entry ({}, {}) of {} is out of range or listed twice", r, c, name);
            let (r, c) = (r.min(c), r.max(c));
            match want.get(&(r, c)) {
                None => ensure!(v == 0.0, "{}[{}, {}] = {:e} although the functions do not overlap", name, r, c, v),
                Some(w) => {
                    let sc = (want[&(r, r)] * want[&(c, c)]).sqrt();
                    ensure!((v - w).abs() <= 1e-9 * sc, "{}[{}, {}] = {:e}, expected {:e} (scale {:e})", name, r, c, v, w, sc);
                }
            }
        }
        for ((r, c), w) in want {
            let sc = (want[&(*r, *r)] * want[&(*c, *c)]).sqrt();
            ensure!(w.abs() <= 1e-9 * sc || seen.contains_key(&(*r, *c)), "{}[{}, {}] is missing, expected {:e}", name, r, c, w);
        }
        ctx.step();
    }
    Ok(())
}

fn overlap(r: &RefMesh, a: usize, b: usize) -> bool {
    let (p, q) = (r.elems[a].rect, r.elems[b].rect);
    p[0].max(q[0]) < p[1].min(q[1]) && p[2].max(q[2]) < p[3].min(q[3])
}

fn c11_plans(ctx: &Ctx) -> Vec<Plan> {
    let few: &[[u8; 2]] = &[[1, 1], [1, 3], [3, 1]];
    let mut v = if ctx.thorough() {
        vec![
            plan(uni::unit(), &BASIC, 3, 99, &[[2, 2]], few, 1),
            plan(uni::unit(), &ALL, 2, 99, &[[2, 2], [3, 3]], few, 0),
            plan(uni::unit(), &BASIC, 4, 99, &[[2, 2]], few, 0),
            plan(uni::rect1(), &BASIC, 2, 99, &[[2, 2], [4, 5], [5, 4]], &all_orders(3), 1),
            plan(uni::horiz2s(), &BASIC, 3, 99, &[[2, 2]], few, 0),
            plan(uni::horiz2(), &BASIC, 2, 99, &[[2, 2]], few, 1),
            plan(uni::vert2s(), &BASIC, 2, 99, &[[2, 2]], few, 1),
            plan(uni::vert2(), &BASIC, 1, 99, &[[1, 1], [2, 2]], few, 2),
            plan(uni::square4s(), &BASIC, 2, 99, &[[2, 2]], few, 0),
            plan(uni::square4(), &BASIC, 1, 99, &[[2, 2], [1, 3]], few, 1),
            plan(uni::lshape(), &BASIC, 2, 99, &[[2, 2]], few, 1),
            plan(uni::odd2(), &BASIC, 2, 99, &[[2, 2]], few, 0),
            plan(uni::diag2(), &BASIC, 2, 99, &[[2, 2]], few, 0),
            plan(uni::ring8(), &BASIC, 1, 99, &[[1, 1], [2, 2]], few, 1),
            plan(uni::rect1(), &BASIC, 0, 99, &[[1, 1]], &all_orders(8), 1),
        ]
    } else {
        vec![
            plan(uni::unit(), &BASIC, 2, 99, &[[2, 2]], few, 1),
            plan(uni::unit(), &BASIC, 3, 99, &[[1, 1]], few, 0),
            plan(uni::rect1(), &BASIC, 1, 99, &[[2, 2], [4, 5]], &all_orders(3), 1),
            plan(uni::rect1(), &ALL, 1, 99, &[[3, 3]], few, 0),
            plan(uni::horiz2s(), &BASIC, 2, 99, &[[2, 2]], few, 0),
            plan(uni::horiz2(), &BASIC, 1, 99, &[[2, 2]], few, 1),
            plan(uni::vert2s(), &BASIC, 2, 99, &[[2, 2]], few, 0),
            plan(uni::vert2(), &BASIC, 1, 99, &[[2, 2]], few, 1),
            plan(uni::square4s(), &BASIC, 1, 99, &[[2, 2], [1, 3]], few, 0),
            plan(uni::lshape(), &BASIC, 1, 99, &[[2, 2]], few, 1),
            plan(uni::odd2(), &BASIC, 1, 99, &[[2, 2]], few, 1),
            plan(uni::diag2(), &BASIC, 1, 99, &[[2, 2]], few, 0),
            plan(uni::rect1(), &BASIC, 0, 99, &[[1, 1]], &all_orders(6), 1),
        ]
    };
    for p in v.iter_mut() {
        p.grid = real_materials(&p.grid);
    }
    v
}

pub fn c11() -> i32 {
    let ctx = Ctx::new("C11");
    for p in &c11_plans(&ctx) {
        for_cases(&ctx, p, &|s: &St| {
            ctx.step();
            ctx.valid();
            c11_case(&ctx, s, &p.grid.materials)
        });
    }
    for (g, cells) in deep_grids() {
        let g = real_materials(&g);
        let f = |s: &St| {
            ctx.step();
            ctx.valid();
            c11_case(&ctx, s, &g.materials)
        };
        let v = deep_states(&ctx, &g, ctx.pick(1, 2), ctx.pick(6, 8), cells.map(|c| (c, ctx.pick(4, 6))), 2);
        for_states(&ctx, &v, &[[2, 2]], &[], 0, &f);
        for_states(&ctx, &globals(&ctx, &g, 2, ctx.pick(30, 90)), &[[2, 2], [1, 3]], &[[3, 1], [1, 2]], ctx.pick(0, 1), &f);
        for_states(&ctx, &lead_states(&ctx, &g, &(0..g.cells.len()).collect::<Vec<_>>(), 6), &[[2, 2]], &[], 0, &f);
        for_states(&ctx, &deep_states(&ctx, &g, 1, 15, cells.map(|c| (c, ctx.pick(12, 16))), 6), &[[2, 2]], &[], 0, &f);
    }
    for g in uni::vast() {
        let g = real_materials(&g);
        for_states(&ctx, &vast_states(&ctx, &g, ctx.pick(11, 3)), &[[1, 1], [2, 2]], &[], 0, &|s: &St| {
            ctx.step();
            ctx.valid();
            c11_case(&ctx, s, &g.materials)
        });
    }
    // functions that overlap those of more than a thousand descendants
    for (g, c) in [(uni::horiz2s(), 0), (uni::vert2(), 1), (uni::square4s(), 2)] {
        let g = real_materials(&g);
        let v: Vec<St> = [3, 5, ctx.pick(5, 6)].iter().filter_map(|n| one_sided(&ctx, &g, c, &vec![Kind::T; *n])).collect();
        for_states(&ctx, &v, &[[1, 1], [2, 2]], &[], 0, &|s: &St| c11_sparse(&ctx, s, &g.materials));
    }
    // materials, sizes and proportions far from one
    let far: [f64; 9] = [1e-15, 1e-9, 1e-6, 1e-3, 1.0, 1e3, 1e6, 1e9, 1e15];
    for (n, g0) in [uni::horiz2s(), uni::vert2(), uni::square4s()].into_iter().enumerate() {
        for (i, &eps) in far.iter().enumerate() {
            for (j, &mu) in far.iter().enumerate() {
                if n == 2 && i != j && i + j != 8 && !ctx.thorough() {
                    continue;
                }
                let mut g = real_materials(&g0);
                g.name += &format!(" eps {eps:e} mu {mu:e}");
                g.materials[0] = [eps, 0.0, mu, 0.0];
                for (q, all) in [false, true].into_iter().enumerate() {
                    let mut h = g.clone();
                    if all {
                        h.name += " everywhere";
                        let m = h.materials[0];
                        h.materials.iter_mut().for_each(|x| *x = m);
                    }
                    let few: &[[u8; 2]] = if q == 0 { &[[2, 2]] } else { &[[3, 2]] };
                    for_cases(&ctx, &plan(h.clone(), &BASIC, ctx.pick(0, 1), 99, few, &[], 0), &|s: &St| {
                        ctx.step();
                        ctx.valid();
                        c11_case(&ctx, s, &h.materials)
                    });
                }
            }
        }
        let mut sizes: Vec<uni::Grid> = [1e-4, 1e-2, 1e2, 1e4, 1e8].iter().map(|f| g0.scaled(*f, -3.0 * f, 10.0 * f)).collect();
        for f in [1e-6, 1e-3, 1e3, 1e6] {
            let mut t = g0.clone();
            t.name += &format!(" stretched by {f:e}");
            t.xs.iter_mut().for_each(|v| *v *= f);
            sizes.push(t);
        }
        for g in sizes {
            let g = real_materials(&g);
            let big = g.xs[1] - g.xs[0] > 1e-3;
            for_cases(&ctx, &plan(g.clone(), &BASIC, if big { 1 } else { 0 }, 99, &[[2, 2], [1, 3]], &[], 0), &|s: &St| {
                ctx.step();
                ctx.valid();
                c11_case(&ctx, s, &g.materials)
            });
        }
    }
    // many cells
    for (w, h) in [(ctx.pick(80, 200), 1), (1, ctx.pick(80, 200)), (12, 11)] {
        let mut g = real_materials(&uni::block(w, h));
        for (k, m) in g.materials.iter_mut().enumerate() {
            *m = [1.0 + (k % 7) as f64, 0.0, 0.5 + (k % 5) as f64, 0.0];
        }
        for_cases(&ctx, &plan(g.clone(), &BASIC, 0, 999, &[[1, 1], [2, 2], [1, 3]], &[], 0), &|s: &St| {
            ctx.step();
            ctx.valid();
            c11_case(&ctx, s, &g.materials)
        });
    }
    // more than 65536 elements, edges and degrees of freedom
    let one = uni::unit();
    huge(&ctx, false, &|_, s| c11_sparse(&ctx, s, &one.materials));
    // some thousand elements, with functions on more than one level and cells of different materials
    for (g, kinds) in [(uni::square4s(), [Kind::T; 4].as_slice()), (uni::lshape(), [Kind::T, Kind::U, Kind::V, Kind::T].as_slice()), (uni::ring8(), [Kind::V, Kind::T, Kind::U].as_slice())] {
        let g = real_materials(&g);
        let mut s = match St::start(&ctx, &g) {
            Ok(s) => s,
            Err(w) => {
                ctx.violate(format!("{}:", g.name), w);
                continue;
            }
        };
        for k in kinds {
            match s.global(*k) {
                Ok(n) => s = n,
                Err(w) => {
                    ctx.violate(s.case(), w);
                    break;
                }
            }
        }
        let mut v = vec![s.clone()];
        let l = s.r.leaves();
        for e in [l[0], l[l.len() / 2], *l.last().unwrap()] {
            v.extend(s.step(e, Kind::T).ok());
        }
        for_states(&ctx, &v, ctx.pick(&[[1, 1], [2, 2]], &[[1, 1], [2, 2], [1, 3]]), &[], 0, &|s: &St| c11_sparse(&ctx, s, &g.materials));
    }
    for k in 11..=20u8 {
        let g = real_materials(&uni::vert2s());
        for_cases(&ctx, &plan(g.clone(), &BASIC, 0, 99, &[[1, k], [k, 2]], &[[2, 2], [k, 1], [1, k]], 1), &|s: &St| {
            ctx.step();
            ctx.valid();
            c11_case(&ctx, s, &g.materials)
        });
    }
    for k in 3..=ctx.pick(10u8, 16) {
        let g = real_materials(&uni::horiz2s());
        for_cases(&ctx, &plan(g.clone(), &BASIC, 0, 99, &[[1, k], [k, 2]], &[[2, 2], [k, 1], [1, k]], 1), &|s: &St| {
            ctx.step();
            ctx.valid();
            c11_case(&ctx, s, &g.materials)
        });
    }
    ctx.finish(
        "model_checking",
        "every refinement tree to the stated depth x order assignments within the deviation bound, cells with distinct materials (permittivity and permeability from 1e-15 to 1e15, sizes from 1e-6 to 1e8, meshes of about a hundred cells, orders to 20 at depth 0); every entry of the library's matrices is compared with an independent integration of the closed forms leaf by leaf",
        &[
            ASSUME[0],
            ASSUME[1],
            "cell materials have zero imaginary parts; entries are compared to a relative tolerance of 1e-9 of the geometric mean of the diagonals",
        ],
    )
}

fn same_matrices(x: &(Sym, Sym), y: &(Sym, Sym), da: &[f64], db: &[f64], tol: f64) -> Result<(), String> {
    compare("A", &x.0, &y.0, da, tol)?;
    compare("B", &x.1, &y.1, db, tol)
}

fn c12_case(ctx: &Ctx, s: &St, top: Option<usize>) -> Result<(), String> {
    use fem_2d::fem_problem::galerkin::{galerkin_sample_gep_hcurl, GalerkinSamplingError as G};
    let mut dom = domain(s)?;
    let n = dom.dofs.len();
    let maxo = s.r.elems.iter().map(|e| e.orders[0].max(e.orders[1])).max().unwrap() as usize;
    let before = dump(&dom.mesh);
    let specs_before = format!("{:?}", dom.basis_specs);
    let run = |dom: &Domain, g: Option<[usize; 2]>| guard(|| galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(dom, g)).map_err(|p| format!("assembly with grid {g:?} panicked: {p}"));
    // a wrong continuity condition is reported first, whatever the rest
    for cc in [ContinuityCondition::HDiv, ContinuityCondition::Discontinuous] {
        dom.cc = cc;
        for g in [None, Some([3, 3]), Some([8, 8])] {
            ctx.step();
            match run(&dom, g)? {
                Err(G::WrongContinuityCondition(ContinuityCondition::HCurl, c)) if c == cc => ctx.outcome("wrong continuity"),
                Err(e) => return Err(format!("{cc:?} domain: {e}")),
                Ok(_) => return Err(format!("{cc:?} domain was accepted")),
            }
        }
    }
    dom.cc = ContinuityCondition::HCurl;
    let need = maxo + 1;
    let base = match run(&dom, None)? {
        Ok(g) => {
            ensure!(n > 0, "a problem without degrees of freedom was accepted");
            Some(to_dense(&g, n)?)
        }
        Err(G::EmptyDOFSet) => {
            ensure!(n == 0, "a problem with {} degrees of freedom was reported empty", n);
            None
        }
        Err(e) => return Err(format!("default grid: {e}")),
    };
    let (da, db) = match &base {
        Some((a, b)) => (diag_a(a), (0..n).map(|i| b.get(i, i)).collect::<Vec<f64>>()),
        None => (vec![], vec![]),
    };
    let dims: Vec<usize> = match top {
        Some(t) => (0..=t).chain([20, 33]).collect(),
        None => vec![need.max(4), need + 13],
    };
    for &gu in &dims {
        for &gv in &dims {
            ctx.step();
            match run(&dom, Some([gu, gv]))? {
                Err(G::EmptyDOFSet) => {
                    ensure!(n == 0, "grid [{}, {}]: a problem with {} degrees of freedom was reported empty", gu, gv, n);
                    ctx.outcome("empty");
                }
                Err(G::InvalidGLQSettings) => {
                    ensure!(n > 0 && (gu < 4 || gv < 4), "grid [{}, {}] was refused", gu, gv);
                    ctx.outcome("grid refused");
                }
                Err(e) => return Err(format!("grid [{gu}, {gv}]: {e}")),
                Ok(g) => {
                    ensure!(n > 0, "a problem without degrees of freedom was accepted");
                    ensure!(gu >= 4 && gv >= 4, "grid [{}, {}] was accepted", gu, gv);
                    ctx.outcome("accepted");
                    let m = to_dense(&g, n)?;
                    ctx.valid();
                    if gu >= need && gv >= need {
                        same_matrices(&m, base.as_ref().unwrap(), &da, &db, 1e-9).map_err(|e| format!("grid [{gu}, {gv}] and the default grid differ: {e}"))?;
                    }
                }
            }
        }
    }
    if let Some(b) = &base {
        let again = to_dense(&run(&dom, None)?.map_err(|e| e.to_string())?, n)?;
        same_matrices(&again, b, &da, &db, 1e-12).map_err(|e| format!("repeated assembly differs: {e}"))?;
    }
    ensure!(dump(&dom.mesh) == before && format!("{:?}", dom.basis_specs) == specs_before && dom.dofs.len() == n, "assembly changed the domain");
    Ok(())
}

pub fn c12() -> i32 {
    let ctx = Ctx::new("C12");
    let few: &[[u8; 2]] = &[[1, 1], [1, 3], [3, 1]];
    let top = ctx.pick(9, 14);
    let plans = if ctx.thorough() {
        vec![
            plan(uni::unit(), &BASIC, 2, 99, &[[1, 1], [2, 2]], few, 1),
            plan(uni::horiz2(), &BASIC, 1, 99, &[[1, 1], [2, 2]], few, 1),
            plan(uni::vert2s(), &BASIC, 1, 99, &[[1, 1], [2, 2]], few, 1),
            plan(uni::diag2(), &BASIC, 1, 99, &[[1, 1], [2, 2]], few, 1),
            plan(uni::rect1(), &BASIC, 0, 99, &[[1, 1], [9, 9], [12, 4]], &all_orders(6), 1),
        ]
    } else {
        vec![
            plan(uni::unit(), &BASIC, 1, 99, &[[1, 1], [2, 2]], few, 1),
            plan(uni::horiz2(), &BASIC, 1, 99, &[[2, 2]], few, 0),
            plan(uni::diag2(), &BASIC, 0, 99, &[[1, 1], [2, 2]], few, 1),
            plan(uni::rect1(), &BASIC, 0, 99, &[[1, 1], [6, 5]], &all_orders(3), 1),
        ]
    };
    for mut p in plans {
        p.grid = real_materials(&p.grid);
        for_cases(&ctx, &p, &|s: &St| c12_case(&ctx, s, Some(top)));
    }
    // unequal and high orders: the default grid against grids that are exact in both directions
    for k in 2..=20u8 {
        let b = [[1, k], [k, 1], [2, k], [k, 2]];
        for_cases(&ctx, &plan(real_materials(&uni::rect1()), &BASIC, ctx.pick(0, 1), 99, &b, &[], 0), &|s: &St| c12_case(&ctx, s, None));
        if k <= ctx.pick(9, 20) {
            for_cases(&ctx, &plan(real_materials(&uni::horiz2s()), &BASIC, 0, 99, &b, &[[1, 1], [1, k], [k, 1]], 1), &|s: &St| c12_case(&ctx, s, None));
            for_cases(&ctx, &plan(real_materials(&uni::vert2()), &BASIC, 0, 99, &b, &[[1, 1], [1, k], [k, 1]], 1), &|s: &St| c12_case(&ctx, s, None));
        }
    }

    // many cells, deep trees, extreme materials and sizes
    for (w, h) in [(12, 11), (ctx.pick(90, 300), 1)] {
        for_cases(&ctx, &plan(real_materials(&uni::block(w, h)), &BASIC, 0, 999, &[[2, 1]], &[], 0), &|s: &St| c12_case(&ctx, s, None));
    }
    for (g, cells) in deep_grids() {
        let v = deep_states(&ctx, &real_materials(&g), 1, 15, cells.map(|c| (c, 10)), ctx.pick(6, 2));
        for_states(&ctx, &v, &[[1, 2], [3, 1]], &[], 0, &|s: &St| c12_case(&ctx, s, None));
    }
    for (eps, mu, f) in [(1e-12, 1e9, 1.0), (1e12, 1e-9, 1.0), (1.0, 1.0, 1e-3), (1.0, 1.0, 1e6)] {
        let mut g = real_materials(&uni::horiz2s()).scaled(f, 0.0, 2.0 * f);
        g.name += &format!(" eps {eps:e} mu {mu:e}");
        g.materials[0] = [eps, 0.0, mu, 0.0];
        for_cases(&ctx, &plan(g, &BASIC, 1, 99, &[[2, 3]], &[], 0), &|s: &St| c12_case(&ctx, s, None));
    }

    // a domain around an empty mesh
    for cc in [ContinuityCondition::HCurl, ContinuityCondition::HDiv, ContinuityCondition::Discontinuous] {
        use fem_2d::fem_problem::galerkin::{galerkin_sample_gep_hcurl, GalerkinSamplingError as G};
        for g in [None, Some([2, 2]), Some([8, 8])] {
            ctx.step();
            let r = guard(|| galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&Domain::blank(cc), g));
            let ok = match (&r, cc) {
                (Ok(Err(G::EmptyDOFSet)), ContinuityCondition::HCurl) => true,
                (Ok(Err(G::WrongContinuityCondition(_, c))), cc) => *c == cc && cc != ContinuityCondition::HCurl,
                _ => false,
            };
            if !ok {
                ctx.violate(format!("blank domain, {cc:?}, grid {g:?}"), format!("unexpected outcome {:?}", r.map(|x| x.map(|_| "accepted"))));
            }
        }
    }
    ctx.finish(
        "model_checking",
        "refinement trees x order assignments x every quadrature grid 0..=N in each direction (plus 20 and 33) and the default grid, compared entry by entry; every error condition in every combination",
        ASSUME,
    )
}

// ------------------------------------------------------------------------------------------------ C14

/// each old field, evaluated at the new mesh's sample points, must lie in the span of the new fields
fn nested(old: &St, new: &St, what: &str) -> Result<(), String> {
    let maxo = new.r.elems.iter().map(|e| e.orders[0].max(e.orders[1])).max().unwrap() as usize;
    let nd = maxo + 2;
    let d0 = domain(old)?;
    let d1 = domain(new)?;
    ensure!(d1.dofs.len() >= d0.dofs.len(), "{}: the number of degrees of freedom drops from {} to {}", what, d0.dofs.len(), d1.dofs.len());
    let (l0, f0) = sampled(&d0, nd)?;
    let (l1, f1) = sampled(&d1, nd)?;
    let cols: Vec<Vec<f64>> = f1.iter().map(|f| f.iter().flat_map(|l| l.iter().flatten().copied()).collect()).collect();
    let (q, _) = orth(cols, 1e-8);
    // where each new leaf lies in an old leaf
    let hosts: Vec<usize> = l1
        .iter()
        .map(|id| {
            let mut e = new.m.refi[*id];
            loop {
                if let Some(k) = l0.iter().position(|o| old.m.refi[*o] == e) {
                    return k;
                }
                e = new.r.elems[e].parent.unwrap().0;
            }
        })
        .collect();
    let step = |k: usize| -1.0 + 2.0 * k as f64 / (nd - 1) as f64;
    // interpolation weights per new leaf
    let w: Vec<[Vec<Vec<f64>>; 2]> = l1
        .iter()
        .zip(&hosts)
        .map(|(id, h)| {
            let a = new.r.elems[new.m.refi[*id]].rect;
            let b = old.r.elems[old.m.refi[l0[*h]]].rect;
            let axis = |o: usize| -> Vec<Vec<f64>> {
                (0..nd)
                    .map(|m| {
                        let x = a[o] as f64 + (a[o + 1] - a[o]) as f64 * (step(m) + 1.0) / 2.0;
                        let t = local(b[o], b[o + 1], x);
                        (0..nd)
                            .map(|k| {
                                let mut e = vec![0.0; nd];
                                e[k] = 1.0;
                                lagrange(&e, t)
                            })
                            .collect()
                    })
                    .collect()
            };
            [axis(0), axis(2)]
        })
        .collect();
    for (d, f) in f0.iter().enumerate() {
        let mut v = vec![];
        for (k, h) in hosts.iter().enumerate() {
            for c in 0..2 {
                let src = &f[*h][c];
                for m in 0..nd {
                    let row: Vec<f64> = (0..nd).map(|y| (0..nd).map(|x| w[k][0][m][x] * src[x * nd + y]).sum()).collect();
                    for n in 0..nd {
                        v.push((0..nd).map(|y| w[k][1][n][y] * row[y]).sum::<f64>());
                    }
                }
            }
        }
        let res = residual(&q, &v);
        ensure!(res < 1e-6, "{}: the field of old degree of freedom {} is not in the new space (relative distance {:e})", what, d, res);
    }
    Ok(())
}

pub fn c14() -> i32 {
    let ctx = Ctx::new("C14");
    let bases: &[[u8; 2]] = ctx.pick(&[[1, 1], [2, 2], [1, 2]], &[[1, 1], [2, 2], [3, 3], [1, 2], [3, 1]]);
    let grids = if ctx.thorough() {
        vec![
            (uni::unit(), 3, 2),
            (uni::rect1(), 2, 2),
            (uni::horiz2s(), 2, 2),
            (uni::vert2s(), 2, 2),
            (uni::lshape(), 2, 1),
            (uni::square4s(), 1, 1),
            (uni::square4(), 2, 1),
            (uni::odd2(), 2, 1),
            (uni::diag2(), 1, 1),
        ]
    } else {
        vec![(uni::unit(), 2, 1), (uni::horiz2s(), 1, 1), (uni::vert2s(), 1, 1), (uni::square4s(), 1, 0), (uni::lshape(), 1, 0)]
    };
    for (g, dh, dp) in grids {
        let p = plan(g.clone(), &BASIC, dh, 99, bases, &[], 0);
        for_cases(&ctx, &p, &|s: &St| {
            for e in s.r.leaves() {
                for k in ALL {
                    ctx.step();
                    ctx.valid();
                    let n = s.step(e, k)?;
                    nested(s, &n, &format!("h-refining element {} by {}", s.m.real[e], k.name()))?;
                }
            }
            Ok(())
        });
        let p = plan(g, &BASIC, dp, 99, bases, &[], 0);
        for_cases(&ctx, &p, &|s: &St| {
            let b = s.r.elems[0].orders;
            let inc: Vec<[u8; 2]> = [[0, 1], [1, 0], [1, 1], [2, 0]].iter().map(|i| [b[0] + i[0], b[1] + i[1]]).collect();
            let mut all = assignments(s.r.elems.len(), &[b], &inc, 2);
            all.extend(inc.iter().map(|i| vec![*i; s.r.elems.len()]));
            for o in all {
                ctx.step();
                ctx.valid();
                let n = with_orders(s, &o)?;
                nested(s, &n, &format!("raising orders to {:?}", o))?;
            }
            Ok(())
        });
    }
    // deep histories: each refinement of a chain against the state before it
    for (g, cells) in deep_grids() {
        let f = |p: Option<&St>, n: &St| -> Result<(), String> {
            let s = p.unwrap();
            for o in [[1, 1], [2, 2]] {
                let a = with_orders(s, &vec![o; s.r.elems.len()])?;
                let &(e, k) = n.hist.last().unwrap();
                nested(&a, &a.step(e, k)?, &format!("orders {:?}: refining {:?}", o, (e, k)))?;
            }
            Ok(())
        };
        let pairs: std::sync::Mutex<Vec<(St, St)>> = std::sync::Mutex::new(vec![]);
        let keep = |p: Option<&St>, n: &St| {
            pairs.lock().unwrap().push((p.unwrap().clone(), n.clone()));
            Ok(())
        };
        chains(&ctx, &g, 0, ctx.pick(1, 2), ctx.pick(6, 8), &keep);
        if let Some(c) = cells {
            twin_chains(&ctx, &g, c, ctx.pick(4, 8), true, &keep);
        }
        lead_chains(&ctx, &g, g.cells.len() - 1, ctx.pick(4, 7), &keep);
        let mut v = pairs.into_inner().unwrap();
        v.sort_by(|a, b| b.1.hist.len().cmp(&a.1.hist.len()).then_with(|| a.1.hist.cmp(&b.1.hist)));
        par_for(&ctx, &v, |(p, n)| {
            let r = guard(|| f(Some(p), n)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
            ctx.check(&|| n.case(), r);
        });
        // constant chains to the size limit, with orders that differ between the directions
        let long: std::sync::Mutex<Vec<(St, St)>> = std::sync::Mutex::new(vec![]);
        chains(&ctx, &g, 0, 1, 15, &|p: Option<&St>, n: &St| {
            long.lock().unwrap().push((p.unwrap().clone(), n.clone()));
            Ok(())
        });
        let mut v = long.into_inner().unwrap();
        v.sort_by(|a, b| b.1.hist.len().cmp(&a.1.hist.len()).then_with(|| a.1.hist.cmp(&b.1.hist)));
        par_for(&ctx, &v, |(p, n)| {
            let r = guard(|| {
                let o = [2, 3];
                let a = with_orders(p, &vec![o; p.r.elems.len()])?;
                let &(e, k) = n.hist.last().unwrap();
                let b = a.step(e, k)?;
                let what = || format!("orders {:?}: refining {:?}", o, (e, k));
                if n.hist.len() % ctx.pick(3, 1) == 0 {
                    ctx.step();
                    ctx.valid();
                    return nested(&a, &b, &what());
                }
                let (p, q) = (domain(&a)?.dofs.len(), domain(&b)?.dofs.len());
                ensure!(q >= p, "{}: the number of degrees of freedom drops from {} to {}", what(), p, q);
                Ok(())
            })
            .unwrap_or_else(|p| Err(format!("panicked: {p}")));
            ctx.check(&|| n.case(), r);
        });
    }
    // high orders, largest first
    let mut tasks: Vec<(St, St, String)> = vec![];
    for k in ctx.pick(vec![8u8, 6, 4], (4..=12).rev().collect()) {
        for g in [uni::horiz2s(), uni::vert2()] {
            let Ok(s0) = St::start(&ctx, &g) else { continue };
            for b in [[k, k], [1, k], [k, 1]] {
                let Ok(s) = with_orders(&s0, &vec![b; s0.r.elems.len()]) else { continue };
                for e in s.r.leaves() {
                    for q in BASIC {
                        match s.step(e, q) {
                            Ok(n) => tasks.push((s.clone(), n, format!("h-refining element {} by {}", s.m.real[e], q.name()))),
                            Err(w) => {
                                ctx.violate(case_name(&s), w);
                            }
                        }
                    }
                }
                for o in assignments(s.r.elems.len(), &[b], &[[b[0] + 1, b[1]], [b[0], b[1] + 1], [b[0] + 1, b[1] + 1]], 2) {
                    match with_orders(&s, &o) {
                        Ok(n) => tasks.push((s.clone(), n, format!("raising orders to {:?}", o))),
                        Err(w) => {
                            ctx.violate(case_name(&s), w);
                        }
                    }
                }
            }
        }
    }
    // more cells: every single refinement, and every element's orders raised alone
    for g in [uni::block(4, 3), uni::ring8(), uni::horiz2s().scaled(1e4, -2e4, 0.0), uni::vert2s().scaled(0.01, 0.0, 0.0)] {
        let Ok(s0) = St::start(&ctx, &g) else { continue };
        for b in [[1, 1], [2, 1], [1, 2]] {
            let Ok(s) = with_orders(&s0, &vec![b; s0.r.elems.len()]) else { continue };
            for e in s.r.leaves() {
                for q in ALL {
                    match s.step(e, q) {
                        Ok(n) => tasks.push((s.clone(), n, format!("h-refining element {} by {}", s.m.real[e], q.name()))),
                        Err(w) => ctx.violate(case_name(&s), w),
                    }
                }
            }
            for o in assignments(s.r.elems.len(), &[b], &[[b[0] + 1, b[1]], [b[0], b[1] + 1], [b[0] + 2, b[1] + 1]], 1) {
                match with_orders(&s, &o) {
                    Ok(n) => tasks.push((s.clone(), n, format!("raising orders to {:?}", o))),
                    Err(w) => ctx.violate(case_name(&s), w),
                }
            }
        }
    }
    par_for(&ctx, &tasks, |(s, n, what)| {
        if ctx.only.as_ref().map_or(false, |c| *c != case_name(s)) {
            return;
        }
        ctx.step();
        ctx.valid();
        let r = guard(|| nested(s, n, what)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        ctx.check(&|| case_name(s), r);
    });
    ctx.finish(
        "model_checking",
        "every refinement tree to the stated depth with every uniform order of the list, then every single h-refinement (any leaf, seven kinds) and every order increase of up to two elements or of all; the library's fields before and after are sampled and each old field is projected on the span of the new ones",
        ASSUME,
    )
}

//! C03 (geometry and tree), C04 (topology), C05 (edge activation): invariants on every reachable mesh.
use crate::ctx::*;
use crate::explore::*;
use crate::obs::*;
use crate::refm::*;
use crate::uni::{self, Grid};

const ASSUME: &[&str] = &[
    "start meshes are the listed rectangular grids; coordinates outside them are not explored",
    "two histories that reach the same refinement trees are merged after their transition has been checked; meshes that differ only in numbering are treated as one state",
];

/// (grid, depth with basic kinds, depth with all seven kinds, depth without merging)
fn plan(ctx: &Ctx) -> Vec<(Grid, usize, usize, usize)> {
    let q = [
        (uni::unit(), 5, 3, 3),
        (uni::horiz2(), 4, 2, 2),
        (uni::vert2s(), 3, 2, 2),
        (uni::square4s(), 2, 2, 1),
        (uni::lshape(), 3, 2, 1),
        (uni::odd2(), 2, 2, 1),
        (uni::diag2(), 2, 1, 1),
        (uni::ring8(), 1, 1, 1),
        (uni::block(3, 3), 2, 1, 1),
    ];
    let t = [
        (uni::unit(), 6, 4, 4),
        (uni::rect1(), 5, 4, 4),
        (uni::horiz2(), 5, 3, 3),
        (uni::vert2(), 4, 3, 3),
        (uni::horiz2s(), 4, 3, 3),
        (uni::vert2s(), 4, 3, 3),
        (uni::square4(), 3, 3, 2),
        (uni::square4s(), 4, 3, 2),
        (uni::lshape(), 4, 3, 2),
        (uni::odd2(), 4, 3, 2),
        (uni::diag2(), 4, 3, 2),
        (uni::ring8(), 3, 2, 2),
        (uni::block(3, 3), 3, 2, 2),
        (uni::block(2, 3), 3, 2, 2),
    ];
    if ctx.thorough() {
        t.into_iter().collect()
    } else {
        q.into_iter().collect()
    }
}

fn run(ctx: &Ctx, visit: &(dyn Fn(Option<&St>, &St) -> Result<(), String> + Sync)) {
    for (g, db, da, dn) in plan(ctx) {
        explore(ctx, &g, &Opts { kinds: &BASIC, depth: db, dedupe: true }, visit, &|_| Ok(()));
        explore(ctx, &g, &Opts { kinds: &ALL, depth: da, dedupe: true }, visit, &|_| Ok(()));
        explore(ctx, &g, &Opts { kinds: &BASIC, depth: dn, dedupe: false }, visit, &|_| Ok(()));
        if ctx.stopped() {
            return;
        }
    }
    run_deep(ctx, visit);
}

/// deep and wide histories: chains towards one child, twin chains in two neighbouring cells, refinements of every leaf
fn run_deep(ctx: &Ctx, visit: &(dyn Fn(Option<&St>, &St) -> Result<(), String> + Sync)) {
    let t = ctx.thorough();
    let nothing = |_: &St| Ok(());
    for (g, len, tail) in [(uni::unit(), 15, true), (uni::horiz2s(), 15, t), (uni::vert2(), 15, t), (uni::lshape(), ctx.pick(0, 15), t)] {
        let ends = chains(ctx, &g, 0, 2, len, visit);
        if tail {
            for s in ends {
                if ctx.stopped() {
                    return;
                }
                let kinds: &[Kind] = if t { &ALL } else { &BASIC };
                explore_from(ctx, s, &Opts { kinds, depth: 1, dedupe: true }, visit, &nothing);
            }
        }
    }
    for (g, cells) in [(uni::horiz2(), [0, 1]), (uni::vert2s(), [0, 1]), (uni::square4s(), [0, 1]), (uni::square4s(), [0, 2]), (uni::square4s(), [0, 3]), (uni::diag2(), [0, 1])] {
        for alt in [false, true] {
            twin_chains(ctx, &g, cells, ctx.pick(if alt { 30 } else { 10 }, 30), alt, visit);
        }
    }
    // one first move of another kind, so that what it created lies far above the last leaf; in every cell
    for g in [uni::unit(), uni::horiz2s(), uni::vert2(), uni::square4s(), uni::block(3, 3)] {
        let cells: Vec<usize> = if g.cells.len() > 4 && !t { vec![4] } else { (0..g.cells.len()).collect() };
        for c in cells {
            lead_chains(ctx, &g, c, 15, visit);
        }
    }
    // large cells, far from the origin: up to 22 refinements of refinements
    for g in [uni::rect1().scaled(5000.0, 1e4, -3e3), uni::horiz2s().scaled(3e3, -1e3, 0.0), uni::vert2().scaled(1e6, 0.0, 7.5e5), uni::rect1().scaled(200.0, -60.0, 0.0)] {
        chains(ctx, &g, 0, ctx.pick(1, 2), 23, visit);
        if g.cells.len() > 1 {
            twin_chains(ctx, &g, [0, 1], ctx.pick(0, 40), true, visit);
        }
        explore(ctx, &g, &Opts { kinds: &BASIC, depth: ctx.pick(2, 3), dedupe: true }, visit, &nothing);
    }
    for g in uni::vast() {
        chains(ctx, &g, 0, ctx.pick(1, 2), 35, visit);
        if t || g.cells.len() > 1 {
            lead_chains(ctx, &g, g.cells.len() - 1, 34, visit);
        }
    }
    // many cells
    for (w, h) in [(17, 16), (ctx.pick(100, 300), 1), (1, ctx.pick(100, 300))] {
        let g = uni::block(w, h);
        let s = match St::start(ctx, &g) {
            Ok(s) => s,
            Err(e) => return ctx.violate(format!("{}:", g.name), e),
        };
        explore_from(ctx, s, &Opts { kinds: &[Kind::T], depth: 1, dedupe: true }, visit, &nothing);
    }
    crate::cases::huge(ctx, true, visit);
    for (g, depth, max) in [(uni::unit(), 4, 400), (uni::horiz2(), 3, ctx.pick(90, 200)), (uni::vert2s(), 3, ctx.pick(90, 200)), (uni::square4s(), 3, ctx.pick(90, 400)), (uni::lshape(), 3, ctx.pick(70, 300)), (uni::ring8(), 2, 200)] {
        for s in globals(ctx, &g, depth, max) {
            if ctx.stopped() {
                return;
            }
            let one = if t || s.r.elems.len() <= 40 { 1 } else { 0 };
            explore_from(ctx, s, &Opts { kinds: &BASIC, depth: one, dedupe: true }, visit, &nothing);
        }
    }
}

const RULE: &str = "every refinement sequence (any leaf, any kind) from every start mesh up to the stated depth: T/U/V with merging of equal trees, all seven kinds with merging, T/U/V without merging; then deep histories: every chain with a pattern of one or two moves (8 moves) to the size limit, constant chains in two cells together, chains with a first move of another kind in every cell, chains of 22 refinements in large cells far from the origin, chains of up to 35 refinements in vast cells, one refinement of every cell of meshes of 100 to 300 cells, and every short sequence of refinements of all leaves, with every single refinement on top; the real mesh is refined in lock step with an integer-rectangle model and compared with it after every transition";

pub fn c03() -> i32 {
    let ctx = Ctx::new("C03");
    run(&ctx, &|prev, s| {
        check_geometry(&s.mesh, &s.r, &s.m)?;
        if let Some(p) = prev {
            for (a, b) in p.mesh.elems.iter().zip(&s.mesh.elems) {
                ensure!(a.id == b.id && a.nodes == b.nodes && a.edges == b.edges && a.parent_id() == b.parent_id() && a.loc_stack() == b.loc_stack(), "existing element {} was changed by a refinement", a.id);
                ensure!(!a.has_children() || a.child_ids() == b.child_ids(), "the children of element {} were replaced", a.id);
            }
            for (a, b) in p.mesh.nodes.iter().zip(&s.mesh.nodes) {
                ensure!(a.id == b.id && a.coords == b.coords, "existing node {} was changed by a refinement", a.id);
            }
            ensure!(s.mesh.edges.len() >= p.mesh.edges.len() && s.mesh.nodes.len() >= p.mesh.nodes.len(), "edges or nodes were removed");
            for (a, b) in p.mesh.edges.iter().zip(&s.mesh.edges) {
                ensure!(a.id == b.id && a.nodes == b.nodes && a.parent_id() == b.parent_id(), "existing edge {} was changed by a refinement", a.id);
                ensure!(!a.has_children() || a.child_ids() == b.child_ids(), "the children of edge {} were replaced", a.id);
            }
            ensure!(p.mesh.elements.len() == s.mesh.elements.len(), "the number of cells changed");
        }
        // the leaves tile each cell exactly (integer areas)
        let mut area = vec![0i128; s.r.cells.len()];
        for e in s.r.leaves() {
            let [x0, x1, y0, y1] = s.r.elems[e].rect;
            area[s.r.elems[e].root] += (x1 - x0) as i128 * (y1 - y0) as i128;
        }
        ensure!(area.iter().all(|a| *a == (UNIT as i128) * (UNIT as i128)), "leaves do not tile their cells");
        Ok(())
    });
    ctx.finish("model_checking", RULE, ASSUME)
}

pub fn c04() -> i32 {
    let ctx = Ctx::new("C04");
    run(&ctx, &|_, s| check_topology(&s.mesh, &s.r, &s.m));
    ctx.finish("model_checking", RULE, ASSUME)
}

pub fn c05() -> i32 {
    let ctx = Ctx::new("C05");
    run(&ctx, &|_, s| check_activation(&s.mesh, &s.r, &s.m));
    ctx.finish("model_checking", RULE, ASSUME)
}

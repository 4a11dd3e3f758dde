//! C01 (import), C02 (malformed files), C22 (JSON export), C23 (queries).
use crate::cases::*;
use crate::ctx::*;
use crate::explore::*;
use crate::obs::*;
use crate::refm::*;
use crate::uni::{self, Grid};
use fem_2d::fem_domain::domain::dof::basis_spec::BSAddress;
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::fem_domain::domain::mesh::MeshAccessError;
use fem_2d::prelude::*;
use json::JsonValue;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------------------------------------ C01

/// the JSON parser rounds decimal numbers to within a few units in the last place
fn rounded(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-15 * b.abs()
}

fn edge_lists(mesh: &Mesh, e: usize) -> Result<[Vec<usize>; 2], String> {
    let js = mesh.edges[e].to_json();
    let f = |s: usize| -> Vec<usize> { js["elems"][s].members().filter_map(|m| m["cell_id"].as_usize()).collect() };
    ensure!(js["elems"].len() == 2, "edge {} lists {} sides", e, js["elems"].len());
    Ok([f(0), f(1)])
}

fn c01_check(g: &Grid, mesh: &Mesh) -> Result<(), String> {
    let nn = g.nodes.len();
    let corners = g.all_cell_nodes();
    // the cells around each node, by which corner of the cell it is
    let mut around: Vec<[Vec<usize>; 4]> = vec![Default::default(); nn];
    for (e, c) in corners.iter().enumerate() {
        for k in 0..4 {
            around[c[k]][k].push(e);
        }
    }
    ensure!(mesh.elements.len() == g.cells.len() && mesh.elems.len() == g.cells.len(), "{} cells and {} elements, the file has {}", mesh.elements.len(), mesh.elems.len(), g.cells.len());
    ensure!(mesh.nodes.len() == nn, "{} nodes, the file has {}", mesh.nodes.len(), nn);
    for (k, &(i, j)) in g.nodes.iter().enumerate() {
        let n = &mesh.nodes[k];
        ensure!(n.id == k, "node at index {} has id {}", k, n.id);
        ensure!(rounded(n.coords.x, g.xs[i]) && rounded(n.coords.y, g.ys[j]), "node {} is at ({}, {}), the file says ({}, {})", k, n.coords.x, n.coords.y, g.xs[i], g.ys[j]);
        let cnt: usize = around[k].iter().map(|l| l.len()).sum();
        ensure!(n.boundary == (cnt < 4), "node {} touches {} cells, boundary = {}", k, cnt, n.boundary);
        let js = n.to_json();
        for c in 0..4 {
            let want = &around[k][c];
            let got: Vec<usize> = js["elems"][c].members().filter_map(|m| m.as_usize()).collect();
            ensure!(&got == want, "node {} as corner {} belongs to {:?}, expected {:?}", k, c, got, want);
        }
    }
    // distinct sides: (low node, high node) -> [cell below / left, cell above / right]
    let mut sides: BTreeMap<(usize, usize), [Option<usize>; 2]> = BTreeMap::new();
    for e in 0..g.cells.len() {
        let c = corners[e];
        for (k, (a, b)) in [(0, 1), (2, 3), (0, 2), (1, 3)].into_iter().enumerate() {
            sides.entry((c[a], c[b])).or_default()[if k % 2 == 0 { 1 } else { 0 }] = Some(e);
        }
    }
    ensure!(mesh.edges.len() == sides.len(), "{} edges, the file has {} distinct sides", mesh.edges.len(), sides.len());
    let mut by_nodes: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (k, ed) in mesh.edges.iter().enumerate() {
        ensure!(ed.id == k, "edge at index {} has id {}", k, ed.id);
        let key = (ed.nodes[0], ed.nodes[1]);
        let adj = sides.get(&key).ok_or(format!("edge {} joins nodes {:?}, which is not a side of a cell in that direction", k, key))?;
        ensure!(by_nodes.insert(key, k).is_none(), "two edges join nodes {:?}", key);
        let (p, q) = (g.nodes[key.0], g.nodes[key.1]);
        let horizontal = p.1 == q.1;
        ensure!(ed.dir == if horizontal { ParaDir::U } else { ParaDir::V }, "edge {} has direction {:?}", k, ed.dir);
        let len = if horizontal { (g.xs[q.0] - g.xs[p.0]).abs() } else { (g.ys[q.1] - g.ys[p.1]).abs() };
        let size = if horizontal { g.xs[q.0].abs().max(g.xs[p.0].abs()) } else { g.ys[q.1].abs().max(g.ys[p.1].abs()) };
        ensure!((ed.length - len).abs() <= 1e-12 * len + 1e-15 * size, "edge {} has length {}, expected {}", k, ed.length, len);
        ensure!(ed.boundary == (adj.iter().flatten().count() == 1), "edge {} has boundary = {}", k, ed.boundary);
        ensure!(ed.parent_id().is_none() && ed.child_ids().is_none() && ed.child_node_id().is_none(), "edge {} is part of a refinement", k);
        let l = edge_lists(mesh, k)?;
        for s in 0..2 {
            ensure!(l[s] == adj[s].into_iter().collect::<Vec<_>>(), "edge {} has {:?} on side {}, expected {:?}", k, l[s], s, adj[s]);
        }
    }
    for e in 0..g.cells.len() {
        let el = &mesh.elems[e];
        let cell = &mesh.elements[e];
        let c = corners[e];
        ensure!(el.id == e && cell.id == e && el.element.id == e, "element {} has ids {} {} {}", e, el.id, cell.id, el.element.id);
        ensure!(el.nodes == c, "element {} has corners {:?}, the file says {:?}", e, el.nodes, c);
        for k in 0..4 {
            let (i, j) = g.nodes[c[k]];
            ensure!(rounded(cell.points[k].x, g.xs[i]) && rounded(cell.points[k].y, g.ys[j]), "cell {} corner {} is at {:?}", e, k, (cell.points[k].x, cell.points[k].y));
        }
        let m = g.materials[e];
        for mat in [&cell.materials, el.get_materials()] {
            ensure!([mat.eps_rel.re, mat.eps_rel.im, mat.mu_rel.re, mat.mu_rel.im].iter().zip(&m).all(|(a, b)| rounded(*a, *b)), "cell {} has materials {:?}, the file says {:?}", e, mat, m);
        }
        for (k, (a, b)) in [(0, 1), (2, 3), (0, 2), (1, 3)].into_iter().enumerate() {
            ensure!(by_nodes.get(&(c[a], c[b])) == Some(&el.edges[k]), "side {} of element {} is edge {}, expected {:?}", k, e, el.edges[k], by_nodes.get(&(c[a], c[b])));
        }
        ensure!([el.poly_orders.ni, el.poly_orders.nj] == [1, 1], "element {} starts with orders {:?}", e, el.poly_orders);
        ensure!(!el.has_children() && el.child_ids().is_none() && el.parent_id().is_none() && el.loc_stack().is_empty(), "element {} does not start as a leaf without parent", e);
        ensure!(el.h_levels.u == 0 && el.h_levels.v == 0, "element {} starts with levels {:?}", e, el.h_levels);
        ensure!(el.parametric_range() == [[-1.0, 1.0], [-1.0, 1.0]], "element {} starts with range {:?}", e, el.parametric_range());
    }
    Ok(())
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for k in 0..=p.len() {
            let mut q = p.clone();
            q.insert(k, n - 1);
            out.push(q);
        }
    }
    out
}

/// all orders of n things up to `full`, otherwise: identity, reversal, rotations, all transpositions, and their reversals
fn orders_of(n: usize, full: usize) -> Vec<Vec<usize>> {
    if n <= full {
        return permutations(n);
    }
    let id: Vec<usize> = (0..n).collect();
    let mut out = vec![id.clone()];
    for k in 1..n {
        let mut r = id.clone();
        r.rotate_left(k);
        out.push(r);
    }
    for a in 0..n {
        for b in a + 1..n {
            let mut t = id.clone();
            t.swap(a, b);
            out.push(t);
        }
    }
    let rev: Vec<Vec<usize>> = out.iter().map(|o| o.iter().rev().copied().collect()).collect();
    out.extend(rev);
    out
}

fn text_of(g: &Grid, style: usize) -> String {
    let t = g.file_text();
    match style {
        0 => t,
        1 => json::parse(&t).unwrap().pretty(4),
        _ => {
            // nodes first, whole numbers without a fraction, exponent notation for the rest, unknown keys present
            let num = |x: f64| if x == x.trunc() && x != 0.0 && x.abs() < 1e15 { format!("{}", x as i64) } else if x == 0.0 { "0".to_string() } else { format!("{:e}", x) };
            let mut s = String::from("{\"comment\":\"mesh\",\"Nodes\":[");
            for (n, &(i, j)) in g.nodes.iter().enumerate() {
                s += &format!("{}[{} , {}]", if n > 0 { ",\n" } else { "" }, num(g.xs[i]), num(g.ys[j]));
            }
            s += "],\"Elements\":[";
            for k in 0..g.cells.len() {
                let m = g.materials[k];
                s += &format!("{}{{\"node_ids\":{:?},\"name\":\"c{}\",\"materials\":[{},{},{},{}]}}", if k > 0 { ",\n" } else { "" }, g.cell_nodes(k), k, num(m[0]), num(m[1]), num(m[2]), num(m[3]));
            }
            s + "]}\n"
        }
    }
}

fn import(ctx: &Ctx, tag: &str, text: &str) -> Result<Result<Mesh, String>, String> {
    let path = ctx.scratch.join(format!("{tag}.json"));
    std::fs::write(&path, text).map_err(|e| e.to_string())?;
    Ok(match guard(|| Mesh::from_file(path.to_str().unwrap())) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    })
}

pub fn thread_tag() -> String {
    format!("t{:?}", std::thread::current().id()).replace(['(', ')'], "_")
}

pub fn c01() -> i32 {
    let ctx = Ctx::new("C01");
    let lines: &[&[f64]] = &[&[0.0, 1.0, 2.0, 3.0, 4.0], &[-1.5, -0.25, 0.0, 7.0, 7.5], &[-0.3, 0.1, 0.7, 1e3, 2e3], &[1e-3, 2.5e-3, 0.5, 0.75, 1.0]];
    let boxes: Vec<(usize, usize)> = ctx.pick(vec![(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2)], vec![(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (4, 1), (1, 4), (2, 2), (3, 2), (2, 3), (3, 3)]);
    let mut work: Vec<(Grid, usize, usize)> = vec![];
    for (w, h) in boxes {
        let all: Vec<(usize, usize)> = (0..h).flat_map(|j| (0..w).map(move |i| (i, j))).collect();
        for mask in 1..1usize << all.len() {
            let cells: Vec<(usize, usize)> = (0..all.len()).filter(|k| mask >> k & 1 == 1).map(|k| all[k]).collect();
            for (lk, xs) in lines.iter().enumerate() {
                let ys = lines[(lk + 1) % lines.len()];
                let g = Grid::new(&format!("{w}x{h}m{mask}l{lk}"), &xs[..w + 1], &ys[..h + 1], &cells);
                work.push((g, lk, mask));
            }
        }
    }
    let nfull = ctx.pick(5, 6);
    let cfull = ctx.pick(3, 4);
    let only = ctx.only.clone();
    par_for(&ctx, &work, |(g0, lk, _)| {
        let tag = thread_tag();
        // node orders with cells in order, then cell orders with nodes in order and reversed
        let nodes = orders_of(g0.nodes.len(), if *lk == 1 { nfull + 1 } else { nfull });
        let nodes: Vec<Vec<usize>> = if *lk >= 2 { nodes.into_iter().take(40).collect() } else { nodes };
        let cells = orders_of(g0.cells.len(), cfull + 1);
        let mut combos: Vec<(Vec<usize>, Vec<usize>)> = nodes.iter().map(|n| (n.clone(), cells[0].clone())).collect();
        let idn: Vec<usize> = (0..g0.nodes.len()).collect();
        for c in &cells {
            combos.push((idn.clone(), c.clone()));
            combos.push((idn.iter().rev().copied().collect(), c.clone()));
        }
        for (k, (no, co)) in combos.iter().enumerate() {
            if ctx.stopped() {
                return;
            }
            let mut g = g0.clone();
            g.nodes = no.iter().map(|n| g0.nodes[*n]).collect();
            g.cells = co.iter().map(|c| g0.cells[*c]).collect();
            for m in 0..g.materials.len() {
                g.materials[m] = [1.0 + m as f64 / 3.0, 0.1 * m as f64, 2.5 - m as f64 / 7.0, -0.01 * m as f64];
            }
            let case = || format!("{} nodes {:?} cells {:?}", g.name, no, co);
            if only.as_ref().is_some_and(|o| *o != case()) {
                continue;
            }
            ctx.state();
            ctx.step();
            ctx.sample(case);
            let r = match import(&ctx, &tag, &text_of(&g, k % 3)) {
                Err(e) => Err(e),
                Ok(Err(e)) => Err(format!("a well-formed file was refused: {e}")),
                Ok(Ok(m)) => {
                    ctx.valid();
                    guard(|| {
                        c01_check(&g, &m)?;
                        let r = RefMesh::from_grid(&g);
                        let map = build_map(&m, &r)?;
                        check_geometry(&m, &r, &map)?;
                        check_topology(&m, &r, &map)
                    })
                    .unwrap_or_else(|p| Err(format!("panic: {p}")))
                }
            };
            if !ctx.check(&case, r) {
                return;
            }
        }
    });
    // cells of every size, near and far from the origin; meshes of many cells
    let mut family: Vec<(Grid, usize)> = vec![];
    for g in [uni::rect1(), uni::horiz2s(), uni::vert2s(), uni::lshape(), uni::square4s(), uni::diag2(), uni::odd2(), uni::ring8()] {
        for e in -9..=12 {
            let f = 10f64.powi(e);
            for (dx, dy) in [(0.0, 0.0), (f, -f), (-100.0 * f, 1000.0 * f), (3e3 * f, 7e4 * f)] {
                family.push((g.scaled(f, dx, dy), 3));
            }
        }
        for e in [-30, -24, -20, -10, 20, 60, 100] {
            let f = 2f64.powi(e);
            for (x, y) in [(f, 1.0), (1.0, f)] {
                // long and thin
                let mut t = g.clone();
                t.name += &format!("*2^{e}{}", if y == 1.0 { "x" } else { "y" });
                t.xs.iter_mut().for_each(|v| *v *= x);
                t.ys.iter_mut().for_each(|v| *v *= y);
                family.push((t, 3));
            }
        }
    }
    let big = ctx.pick(270usize, 600);
    for (w, h) in [(big, 1), (1, big), (big / 2, 2), (17, big / 17 + 1), (9, 9)] {
        let g = uni::block(w, h);
        family.push((g.clone(), 0));
        let mut rev = g.clone();
        rev.name += " reversed";
        rev.cells.reverse();
        rev.nodes.reverse();
        family.push((rev, 1));
        // every k-th first, then the next residue
        for k in [2, 7, 16] {
            let mut t = g.clone();
            t.name += &format!(" in steps of {k}");
            t.cells = (0..k).flat_map(|r| g.cells.iter().copied().skip(r).step_by(k)).collect();
            t.nodes = (0..k).flat_map(|r| g.nodes.iter().copied().skip(r).step_by(k)).collect();
            family.push((t, 2));
        }
        // with holes
        for k in [2, 3, 5] {
            let cells: Vec<(usize, usize)> = g.cells.iter().copied().filter(|(i, j)| (i + 2 * j) % k != 0).collect();
            if !cells.is_empty() {
                family.push((Grid::new(&format!("{} without every {k}th", g.name), &g.xs, &g.ys, &cells), 0));
            }
        }
    }
    // more than 65536 cells, nodes and edges
    family.insert(0, (uni::block(260, 256), 0));
    family.insert(1, (uni::block(66000, 1), 1));
    par_for(&ctx, &family, |(g, style)| {
        let mut g = g.clone();
        for m in 0..g.materials.len() {
            g.materials[m] = [1.0 + m as f64 / 3.0, 0.1 * m as f64, 2.5 - m as f64 / 7.0, -0.01 * m as f64];
        }
        for style in if *style == 3 { vec![0, 2] } else { vec![*style] } {
            let case = || format!("{} style {style}", g.name);
            if ctx.stopped() || only.as_ref().is_some_and(|o| *o != case()) {
                continue;
            }
            ctx.state();
            ctx.step();
            ctx.sample(case);
            let r = match import(&ctx, &thread_tag(), &text_of(&g, style)) {
                Err(e) => Err(e),
                Ok(Err(e)) => Err(format!("a well-formed file was refused: {e}")),
                Ok(Ok(m)) => {
                    ctx.valid();
                    guard(|| c01_check(&g, &m)).unwrap_or_else(|p| Err(format!("panic: {p}")))
                }
            };
            ctx.check(&case, r);
        }
    });
    // nodes that no cell uses are kept
    {
        let mut g = uni::horiz2();
        g.xs.push(9.0);
        for pos in 0..=g.nodes.len() {
            let mut h = g.clone();
            h.nodes.insert(pos, (3, 0));
            ctx.state();
            let r = match import(&ctx, "extra", &h.file_text()) {
                Ok(Ok(m)) => c01_check(&h, &m),
                Ok(Err(e)) | Err(e) => Err(e),
            };
            ctx.check(&|| format!("unused node at position {pos}"), r);
        }
    }
    // the built-in mesh is the same as the imported one
    {
        let g = uni::unit();
        ctx.state();
        let mut f = g.clone();
        f.unit = false;
        let r = match import(&ctx, "unit", &f.file_text()) {
            Ok(Ok(m)) => {
                // (edges may be numbered differently; everything else is compared with the file)
                let count = |m: &Mesh| (m.elements.len(), m.elems.len(), m.edges.len(), m.nodes.len());
                if count(&m) == count(&Mesh::unit()) {
                    c01_check(&g, &m).and_then(|_| c01_check(&g, &Mesh::unit()))
                } else {
                    Err(format!("the unit mesh has {:?} elements, edges and nodes, the imported one {:?}", count(&Mesh::unit()), count(&m)))
                }
            }
            Ok(Err(e)) | Err(e) => Err(e),
        };
        ctx.check(&|| "unit mesh against its file".to_string(), r);
    }
    ctx.finish(
        "model_checking",
        "every non-empty set of cells of boxes up to 3x2 (quick) or 3x3 and 4x1 (thorough), with every order of nodes and cells for small files (identity, reversal, rotations and all transpositions for larger ones), four coordinate sets and three spellings of the file; eight meshes at 22 scales from 1e-9 to 1e12 with four offsets each and stretched by up to 2^100 in one direction; blocks, rows and columns of several hundred cells in several listing orders and with holes; every field of the imported mesh compared with the file",
        &["cells are axis-aligned and non-overlapping, as the format requires", "node orders are exhaustive up to 5 or 6 nodes only"],
    )
}

// ------------------------------------------------------------------------------------------------ C02

fn bad_values(num: bool) -> Vec<(&'static str, JsonValue)> {
    let mut v = vec![
        ("null", JsonValue::Null),
        ("true", true.into()),
        ("false", false.into()),
        ("text", "1".into()),
        ("empty text", "".into()),
        ("object", json::object! { "a": 1 }),
        ("array", json::array![1]),
        ("empty array", json::array![]),
    ];
    if !num {
        v.push(("number", 1.into()));
    }
    v
}

fn mutants(base: &JsonValue) -> Vec<(String, JsonValue)> {
    let mut out: Vec<(String, JsonValue)> = vec![];
    let ne = base["Elements"].len();
    let nn = base["Nodes"].len();
    let mut add = |name: String, f: &dyn Fn(&mut JsonValue)| {
        let mut j = base.clone();
        f(&mut j);
        out.push((name, j));
    };
    for top in ["Elements", "Nodes"] {
        add(format!("{top} missing"), &|j| {
            j.remove(top);
        });
        add(format!("{top} misspelt"), &|j| {
            let v = j.remove(top);
            j[top.to_lowercase()] = v;
        });
        for (n, v) in bad_values(false) {
            if n.contains("array") {
                continue;
            }
            add(format!("{top} is {n}"), &|j| j[top] = v.clone());
        }
    }
    for e in 0..ne {
        for (n, v) in bad_values(false) {
            add(format!("element {e} is {n}"), &|j| j["Elements"][e] = v.clone());
        }
        for key in ["node_ids", "materials"] {
            add(format!("element {e} without {key}"), &|j| {
                j["Elements"][e].remove(key);
            });
            for (n, v) in bad_values(false) {
                add(format!("{key} of element {e} is {n}"), &|j| j["Elements"][e][key] = v.clone());
            }
            let len = base["Elements"][e][key].len();
            for k in 0..len {
                add(format!("{key} of element {e} lacks entry {k}"), &|j| {
                    j["Elements"][e][key].array_remove(k);
                });
                add(format!("{key} of element {e} has entry {k} twice at the end"), &|j| {
                    let v = j["Elements"][e][key][k].clone();
                    j["Elements"][e][key].push(v).unwrap();
                });
                for (n, v) in bad_values(true) {
                    add(format!("entry {k} of {key} of element {e} is {n}"), &|j| j["Elements"][e][key][k] = v.clone());
                }
            }
        }
        for k in 0..4 {
            let own = base["Elements"][e]["node_ids"][k].as_usize().unwrap();
            for (n, v) in [
                ("negative", JsonValue::from(-1)),
                ("minus its value", JsonValue::from(-(own as i64) - 1)),
                ("a half", JsonValue::from(own as f64 + 0.5)),
                ("a tenth more", JsonValue::from(own as f64 + 0.1)),
                ("the number of nodes", JsonValue::from(nn)),
                ("one past the number of nodes", JsonValue::from(nn + 1)),
                ("huge", JsonValue::from(1u64 << 62)),
                ("very huge", JsonValue::from(1e30)),
                ("wrapping", JsonValue::from(18446744073709551615u64)),
            ] {
                add(format!("node id {k} of element {e} is {n}"), &|j| j["Elements"][e]["node_ids"][k] = v.clone());
            }
            for q in 0..4 {
                if q != k {
                    add(format!("node ids {k} and {q} of element {e} are equal"), &|j| {
                        let v = j["Elements"][e]["node_ids"][q].clone();
                        j["Elements"][e]["node_ids"][k] = v;
                    });
                }
            }
        }
        for pos in [0, ne] {
            add(format!("element {e} listed again at {pos}"), &|j| {
                let v = j["Elements"][e].clone();
                let mut l: Vec<JsonValue> = j["Elements"].members().cloned().collect();
                l.insert(pos, v);
                j["Elements"] = JsonValue::Array(l);
            });
        }
        // a second, different cell on the same side of one edge: it shares two nodes with element e and has two nodes of its own
        for (a, b) in [(0, 1), (2, 3), (0, 2), (1, 3)] {
            add(format!("another cell on the same side of edge {a}-{b} of element {e}"), &|j| {
                let c: Vec<usize> = (0..4).map(|k| j["Elements"][e]["node_ids"][k].as_usize().unwrap()).collect();
                let p = |j: &JsonValue, n: usize| [j["Nodes"][n][0].as_f64().unwrap(), j["Nodes"][n][1].as_f64().unwrap()];
                let mut ids = c.clone();
                let mut next = nn;
                for k in 0..4 {
                    if k != a && k != b {
                        // same direction from the edge, but three quarters of the way
                        let other = match (a, b, k) {
                            (0, 1, 2) | (0, 2, 1) => 0,
                            (0, 1, 3) => 1,
                            (0, 2, 3) => 2,
                            (2, 3, 0) => 2,
                            (2, 3, 1) => 3,
                            (1, 3, 0) => 1,
                            _ => 3,
                        };
                        let (f, t) = (p(j, c[other]), p(j, c[k]));
                        j["Nodes"].push(json::array![f[0] + 0.75 * (t[0] - f[0]), f[1] + 0.75 * (t[1] - f[1])]).unwrap();
                        ids[k] = next;
                        next += 1;
                    }
                }
                j["Elements"].push(json::object! { "materials": json::array![1, 0, 1, 0], "node_ids": ids }).unwrap();
            });
        }
    }
    for n in 0..nn {
        for (b, v) in bad_values(false) {
            add(format!("node {n} is {b}"), &|j| j["Nodes"][n] = v.clone());
        }
        add(format!("node {n} has one coordinate"), &|j| {
            j["Nodes"][n].array_remove(1);
        });
        add(format!("node {n} has three coordinates"), &|j| {
            j["Nodes"][n].push(0.0).unwrap();
        });
        for k in 0..2 {
            for (b, v) in bad_values(true) {
                add(format!("coordinate {k} of node {n} is {b}"), &|j| j["Nodes"][n][k] = v.clone());
            }
        }
        for m in 0..nn {
            if m != n {
                add(format!("nodes {n} and {m} at one place"), &|j| {
                    let v = j["Nodes"][m].clone();
                    j["Nodes"][n] = v;
                });
            }
        }
        add(format!("node {n} duplicated at the end"), &|j| {
            let v = j["Nodes"][n].clone();
            j["Nodes"].push(v).unwrap();
        });
        add(format!("node {n} duplicated at the front and all ids shifted"), &|j| {
            let v = j["Nodes"][n].clone();
            let mut l: Vec<JsonValue> = j["Nodes"].members().cloned().collect();
            l.insert(0, v);
            j["Nodes"] = JsonValue::Array(l);
            for e in 0..ne {
                for k in 0..4 {
                    let o = j["Elements"][e]["node_ids"][k].as_usize().unwrap();
                    j["Elements"][e]["node_ids"][k] = (o + 1).into();
                }
            }
        });
    }
    drop(add);
    out
}

/// a fan of n cells that all use one node, each otherwise with nodes of its own and each geometrically a rectangle
fn fan(n: usize) -> String {
    let mut nodes = vec!["[0.0,0.0]".to_string()];
    let mut els = vec![];
    for k in 0..n {
        // quadrants in turn, of growing size, so that no side is shared
        let s = 1.0 + (k / 4) as f64 * 0.5;
        let t = s + 0.25;
        let (sx, sy) = [(1.0, 1.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)][k % 4];
        let base = nodes.len();
        let w = s + 0.01 * k as f64;
        let h = t + 0.013 * k as f64;
        nodes.push(format!("[{:?},{:?}]", sx * w, 0.0));
        nodes.push(format!("[{:?},{:?}]", 0.0, sy * h));
        nodes.push(format!("[{:?},{:?}]", sx * w, sy * h));
        let (x, y, d) = (base, base + 1, base + 2);
        let ids = match k % 4 {
            0 => [0, x, y, d],
            1 => [x, 0, d, y],
            2 => [y, d, 0, x],
            _ => [d, y, x, 0],
        };
        els.push(format!("{{\"materials\":[1,0,1,0],\"node_ids\":{:?}}}", ids));
    }
    format!("{{\"Elements\":[{}],\"Nodes\":[{}]}}", els.join(","), nodes.join(","))
}

pub fn c02() -> i32 {
    let ctx = Ctx::new("C02");
    let grids: Vec<Grid> = ctx.pick(
        vec![uni::rect1(), uni::horiz2s(), uni::vert2s(), uni::square4s(), uni::diag2()],
        vec![uni::rect1(), uni::horiz2(), uni::horiz2s(), uni::vert2(), uni::vert2s(), uni::lshape(), uni::square4(), uni::square4s(), uni::diag2(), uni::odd2(), uni::ring8()],
    );
    let mut bad: Vec<(String, String)> = vec![];
    let mut good: Vec<(String, String)> = vec![];
    for g in &grids {
        for s in 0..3 {
            good.push((format!("{} style {s}", g.name), text_of(g, s)));
        }
        let t = g.file_text();
        let base = json::parse(&t).unwrap();
        for (n, j) in mutants(&base) {
            bad.push((format!("{}: {}", g.name, n), j.dump()));
        }
        // text damage: every truncation, every deletion of one structural character, trailing garbage
        for s in [0, 2] {
            let t = text_of(g, s);
            let t = t.trim_end();
            for k in 0..t.len() {
                bad.push((format!("{} style {s}: truncated to {k} bytes", g.name), t[..k].to_string()));
            }
            let in_comment = |k: usize| s == 2 && k < 20 && k > 0;
            for (k, c) in t.char_indices() {
                if "{}[]:\"".contains(c) || (c == ',' && !in_comment(k)) {
                    if c == ',' && t[k + 1..].trim_start().starts_with(|x: char| x.is_ascii_digit()) && t[..k].trim_end().ends_with(|x: char| x.is_ascii_digit()) {
                        // two numbers would merge into one: covered by the arity cases above when it still parses
                        let merged = format!("{}{}", &t[..k], &t[k + 1..]);
                        if json::parse(&merged).is_ok() {
                            bad.push((format!("{} style {s}: comma at {k} removed", g.name), merged));
                            continue;
                        }
                    }
                    let m = format!("{}{}", &t[..k], &t[k + 1..]);
                    bad.push((format!("{} style {s}: {c:?} at {k} removed", g.name), m));
                }
            }
            for x in ["x", "}", "]", "{}", ",", "\0"] {
                bad.push((format!("{} style {s}: followed by {x:?}", g.name), format!("{t}{x}")));
            }
        }
    }
    // long lists: one location repeated at every pair of places, as a node of its own and as the node of a cell; and every cell repeated
    for g in [uni::block(ctx.pick(48, 150), 1), uni::block(1, ctx.pick(48, 150)), uni::block(ctx.pick(7, 12), 7)] {
        let base = json::parse(&g.file_text()).unwrap();
        let (nn, ne) = (g.nodes.len(), g.cells.len());
        good.push((g.name.clone(), g.file_text()));
        for n in 0..nn {
            for p in 0..=nn {
                let mut j = base.clone();
                let mut l: Vec<JsonValue> = j["Nodes"].members().cloned().collect();
                l.insert(p, j["Nodes"][n].clone());
                j["Nodes"] = JsonValue::Array(l);
                for e in j["Elements"].members_mut() {
                    for k in 0..4 {
                        let o = e["node_ids"][k].as_usize().unwrap();
                        if o >= p {
                            e["node_ids"][k] = (o + 1).into();
                        }
                    }
                }
                bad.push((format!("{}: node {n} repeated before place {p}", g.name), j.dump()));
            }
        }
        for e in 0..ne {
            for p in 0..=ne {
                let mut j = base.clone();
                let mut l: Vec<JsonValue> = j["Elements"].members().cloned().collect();
                l.insert(p, j["Elements"][e].clone());
                j["Elements"] = JsonValue::Array(l);
                bad.push((format!("{}: cell {e} repeated before place {p}", g.name), j.dump()));
            }
            for (k, v) in [(0, nn), (1, nn + 300), (2, nn + (1 << 16)), (3, nn + (1 << 32))] {
                let mut j = base.clone();
                j["Elements"][e]["node_ids"][k] = v.into();
                bad.push((format!("{}: node id {k} of element {e} is {v}", g.name), j.dump()));
            }
        }
    }
    // well-formed: small and large cells, close neighbours far away
    for g in [uni::rect1(), uni::horiz2s(), uni::vert2s(), uni::lshape(), uni::square4s(), uni::diag2(), uni::ring8()] {
        for e in -10..=12 {
            let f = 10f64.powi(e);
            for (dx, dy) in [(0.0, 0.0), (-100.0 * f, 1000.0 * f)] {
                let t = g.scaled(f, dx, dy);
                good.push((t.name.clone(), t.file_text()));
            }
        }
        for e in -32..=0 {
            for side in 0..2 {
                // one row or column much thinner than the rest
                let mut t = g.clone();
                t.name += &format!(" with a gap of 2^{e} on {}", ["x", "y"][side]);
                let l = if side == 0 { &mut t.xs } else { &mut t.ys };
                let shift = (l[1] - l[0]) - 2f64.powi(e);
                l.iter_mut().skip(1).for_each(|v| *v -= shift);
                good.push((t.name.clone(), t.file_text()));
            }
        }
    }
    for (w, h) in [(ctx.pick(300, 1000), 1), (1, ctx.pick(300, 1000)), (17, 17)] {
        let t = uni::block(w, h);
        good.push((t.name.clone(), t.file_text()));
    }
    for n in 5..=9 {
        bad.push((format!("a node used by {n} cells"), fan(n)));
    }
    for (n, t) in [
        ("a number", "3"),
        ("null", "null"),
        ("a list", "[]"),
        ("an empty object", "{}"),
        ("text", "\"Elements\""),
        ("only elements", "{\"Elements\":[]}"),
        ("only nodes", "{\"Nodes\":[]}"),
        ("not json", "Elements: []"),
        ("xml", "<Elements/>"),
    ] {
        bad.push((n.to_string(), t.to_string()));
    }
    let only = ctx.only.clone();
    par_for(&ctx, &bad, |(name, text)| {
        if only.as_ref().is_some_and(|o| o != name) {
            return;
        }
        ctx.state();
        ctx.step();
        ctx.sample(|| format!("{name}: {}", &text.chars().take(200).collect::<String>()));
        match import(&ctx, &thread_tag(), text) {
            Ok(Ok(m)) => ctx.violate(name.clone(), format!("a malformed file was accepted and gave a mesh with {} elements; file: {}", m.elems.len(), text)),
            Ok(Err(e)) => {
                ctx.valid();
                ctx.outcome(if e.starts_with("error") { "refused with an error" } else { "refused with a panic" });
            }
            Err(e) => ctx.violate(name.clone(), e),
        }
    });
    for (name, text) in good.iter().chain([("fan of 4".to_string(), fan(4))].iter()) {
        ctx.state();
        match import(&ctx, "good", text) {
            Ok(Ok(_)) => {
                ctx.valid();
                ctx.outcome("accepted");
            }
            Ok(Err(e)) | Err(e) => ctx.violate(name.clone(), format!("a well-formed file was refused: {e}")),
        }
    }
    // unreadable paths are errors, not panics
    let file = ctx.scratch.join("plain.json");
    std::fs::write(&file, uni::rect1().file_text()).unwrap();
    let bin = ctx.scratch.join("binary.json");
    std::fs::write(&bin, [0xff, 0xfe, 0x00, 0x80]).unwrap();
    let s = |p: std::path::PathBuf| p.to_str().unwrap().to_string();
    let long = format!("{}/{}", s(ctx.scratch.clone()), "a".repeat(5000));
    for p in [s(ctx.scratch.join("absent.json")), s(ctx.scratch.clone()), String::new(), s(file.join("below")), s(ctx.scratch.join("a/b/c.json")), long, "nul\0byte".to_string(), s(bin)] {
        ctx.state();
        match guard(|| Mesh::from_file(&p)) {
            Ok(Err(_)) => {
                ctx.valid();
                ctx.outcome("unreadable path reported");
            }
            Ok(Ok(_)) => ctx.violate(p.clone(), "an unreadable path gave a mesh"),
            Err(e) => ctx.violate(p.clone(), format!("an unreadable path panicked: {e}")),
        }
    }
    ctx.finish(
        "model_checking",
        "every single corruption of the listed kinds at every position of every base file (structure, arity, type, range, duplicate and adjacency faults), every truncation, every deleted structural character, every node and cell of rows, columns and blocks of about fifty cells (150 in the thorough tier) repeated at every place of the list, and unreadable paths; each must be refused; the uncorrupted files, the same at 23 scales and with gaps down to 2^-32, and meshes of several hundred cells accepted",
        &["single corruptions of valid files; combinations of several faults are not enumerated", "cells that overlap or are not rectangles are not judged (the format's documentation does not promise their rejection)"],
    )
}

// ------------------------------------------------------------------------------------------------ C22

fn ids(j: &JsonValue) -> Vec<usize> {
    j.members().map(|m| m.as_usize().unwrap_or(usize::MAX)).collect()
}
fn same(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-13 * a.abs().max(b.abs())
}

fn c22_check(j: &JsonValue, s: &St, g: &Grid) -> Result<(), String> {
    let (r, m, mesh) = (&s.r, &s.m, &s.mesh);
    ensure!(j.is_object(), "the file does not hold an object");
    for (k, n) in [("Elements", mesh.elements.len()), ("Elems", r.elems.len()), ("Nodes", mesh.nodes.len()), ("Edges", mesh.edges.len())] {
        ensure!(j[k].is_array() && j[k].len() == n, "{} has {} entries, expected {}", k, j[k].len(), n);
        for (i, e) in j[k].members().enumerate() {
            ensure!(e["id"].as_usize() == Some(i), "entry {} of {} has id {}", i, k, e["id"].dump());
        }
    }
    ensure!(j["Elements"].len() == g.cells.len(), "{} materials for {} cells", j["Elements"].len(), g.cells.len());
    for (i, e) in j["Elements"].members().enumerate() {
        let f = |k: &str| e[k].as_f64().unwrap_or(f64::NAN);
        let w = g.materials[i];
        ensure!(same(f("eps_rel"), w[0]) && same(f("eps_rel_im"), w[1]) && same(f("mu_rel"), w[2]) && same(f("mu_rel_im"), w[3]), "material {} is exported as {}", i, e.dump());
    }
    for (re, el) in r.elems.iter().enumerate() {
        let id = m.real[re];
        let e = &j["Elems"][id];
        let real = &mesh.elems[id];
        ensure!(e["element_id"].as_usize() == Some(el.root), "element {} is exported with cell {}", id, e["element_id"].dump());
        ensure!(e["parent"].as_usize() == el.parent.map(|p| m.real[p.0]) && (e["parent"].is_null() || e["parent"].is_number()), "element {} is exported with parent {}", id, e["parent"].dump());
        ensure!(e["active"].as_bool() == Some(el.children.is_empty()), "element {} is exported with active = {}", id, e["active"].dump());
        let kids: Vec<usize> = el.children.iter().map(|c| m.real[*c]).collect();
        ensure!(e["children"].is_array() && ids(&e["children"]) == kids, "element {} is exported with children {}", id, e["children"].dump());
        ensure!(ids(&e["nodes"]) == real.nodes && ids(&e["edges"]) == real.edges, "element {} is exported with nodes {} edges {}", id, e["nodes"].dump(), e["edges"].dump());
        ensure!(e["expansion"]["u"].as_u8() == Some(el.orders[0]) && e["expansion"]["v"].as_u8() == Some(el.orders[1]), "element {} is exported with orders {}", id, e["expansion"].dump());
        ensure!(e["h_levels"]["u"].as_u8() == Some(el.lu) && e["h_levels"]["v"].as_u8() == Some(el.lv), "element {} is exported with levels {}", id, e["h_levels"].dump());
    }
    let t = r.topology();
    let loc = locate(mesh, r)?;
    let back = |v: &Vec<usize>| -> Vec<usize> { v.iter().map(|e| m.real[*e]).collect() };
    for (k, n) in mesh.nodes.iter().enumerate() {
        let e = &j["Nodes"][k];
        ensure!(same(e["point"]["x"].as_f64().unwrap_or(f64::NAN), n.coords.x) && same(e["point"]["y"].as_f64().unwrap_or(f64::NAN), n.coords.y), "node {} is exported at {}", k, e["point"].dump());
        ensure!(e["boundary"].as_bool() == Some(n.boundary), "node {} is exported with boundary {}", k, e["boundary"].dump());
    }
    for (p, inc) in &t.nodes {
        let k = *loc.node_at.get(p).ok_or(format!("no node at {:?}", p))?;
        let e = &j["Nodes"][k];
        for c in 0..4 {
            ensure!(ids(&e["elems"][c]) == back(&inc[c]), "node {} is exported with {} at corner {}, expected {:?}", k, e["elems"][c].dump(), c, back(&inc[c]));
        }
    }
    let act = t.active(r);
    for (sg, ed) in &t.edges {
        let k = *loc.edge_at.get(sg).ok_or(format!("no edge at {:?}", sg))?;
        let e = &j["Edges"][k];
        let real = &mesh.edges[k];
        ensure!(ids(&e["nodes"]) == vec![loc.node_at[&sg.0], loc.node_at[&sg.1]], "edge {} is exported with nodes {}", k, e["nodes"].dump());
        ensure!(ids(&e["nodes"]) == real.nodes, "edge {} is exported with nodes {}", k, e["nodes"].dump());
        ensure!(e["boundary"].as_bool() == Some(r.seg_on_boundary(*sg)), "edge {} is exported with boundary {}", k, e["boundary"].dump());
        ensure!(e["direction"].as_str() == Some(if is_horizontal(sg) { "U-Dir" } else { "V-Dir" }), "edge {} is exported with direction {}", k, e["direction"].dump());
        ensure!(e["parent"].as_usize() == ed.parent.map(|p| loc.edge_at[&p]) && (e["parent"].is_null() || e["parent"].is_number()), "edge {} is exported with parent {}", k, e["parent"].dump());
        let kids: Vec<usize> = ed.children.map(|c| c.iter().map(|x| loc.edge_at[x]).collect()).unwrap_or_default();
        ensure!(ids(&e["children"]) == kids && real.child_ids().map(|c| c.to_vec()).unwrap_or_default() == kids, "edge {} is exported with children {}", k, e["children"].dump());
        for side in 0..2 {
            let got: Vec<usize> = e["elems"][side].members().map(|x| x["cell_id"].as_usize().unwrap_or(usize::MAX)).collect();
            ensure!(got == back(&ed.sides[side]), "edge {} is exported with {:?} on side {}, expected {:?}", k, got, side, back(&ed.sides[side]));
            for (x, el) in e["elems"][side].members().zip(&ed.sides[side]) {
                let (u, v) = (r.elems[*el].lu as usize, r.elems[*el].lv as usize);
                let want = if is_horizontal(sg) { vec![v, u] } else { vec![u, v] };
                ensure!(ids(&x["level_key"]) == want, "edge {} is exported with level key {} for element {}, expected {:?}", k, x["level_key"].dump(), m.real[*el], want);
            }
        }
        let want: Vec<usize> = act.get(sg).map(|p| p.iter().map(|e| m.real[*e]).collect()).unwrap_or_default();
        ensure!(e["active_elems"].is_array() && ids(&e["active_elems"]) == want, "edge {} is exported with active pair {}, expected {:?}", k, e["active_elems"].dump(), want);
    }
    Ok(())
}

/// every byte at which the writing of the file can fail (before any thread is started: forks)
fn c22_cut_short(ctx: &Ctx) {
    for (grid, depth) in [(uni::unit(), 0usize), (uni::horiz2(), 1), (uni::square4(), 4)] {
        let case = format!("{} cut short", grid.name);
        if ctx.only.as_ref().map_or(false, |o| !o.starts_with(&case)) {
            continue;
        }
        let mut s = match St::start(ctx, &grid) {
            Ok(s) => s,
            Err(e) => return ctx.violate(case, e),
        };
        for _ in 0..depth {
            let leaf = s.r.leaves()[0];
            s = match s.step(leaf, Kind::T) {
                Ok(s) => s,
                Err(e) => return ctx.violate(case, e),
            };
        }
        let p = ctx.scratch.join("cut.json");
        let p = p.to_str().unwrap().to_string();
        if let Err(e) = s.mesh.export_to_json(&p) {
            return ctx.violate(case, format!("exporting failed: {e}"));
        }
        let whole = std::fs::read(&p).unwrap();
        let size = whole.len() as u64;
        let limits: Vec<u64> = if size < 3000 { (0..=size + 1).collect() } else { (0..size).step_by(397).chain([4096, 8191, 8192, 8193, size - 1, size, size + 1]).collect() };
        for limit in limits {
            ctx.state();
            ctx.step();
            let _ = std::fs::remove_file(&p);
            let r = with_file_size_limit(limit, || s.mesh.export_to_json(&p).is_ok());
            let r = match r {
                Ok(ok) if ok != (limit >= size) => Err(format!("the export {}", if ok { "reports success" } else { "fails" })),
                Ok(true) if std::fs::read_to_string(&p).ok().and_then(|t| json::parse(&t).ok()) != json::parse(std::str::from_utf8(&whole).unwrap()).ok() => Err("two exports of the same mesh differ".into()),
                Ok(_) => Ok(()),
                Err(e) => Err(e),
            };
            ctx.valid();
            if !ctx.check(&|| format!("{case}: no more than {limit} of {size} bytes"), r) {
                return;
            }
        }
    }
}

pub fn c22() -> i32 {
    let ctx = Ctx::new("C22");
    c22_cut_short(&ctx);
    let alt: &[[u8; 2]] = &[[1, 3], [5, 2], [20, 11]];
    let mk = |g: Grid, kinds: &'static [Kind], depth: usize, dev: usize| Plan { grid: g, kinds, depth, max_elems: 99, bases: vec![[1, 1]], alt: alt.to_vec(), dev, dedupe: true };
    let plans = if ctx.thorough() {
        vec![
            mk(uni::unit(), &BASIC, 4, 1),
            mk(uni::unit(), &ALL, 3, 1),
            mk(uni::rect1(), &ALL, 3, 1),
            mk(uni::horiz2s(), &ALL, 2, 1),
            mk(uni::vert2s(), &BASIC, 3, 1),
            mk(uni::square4s(), &BASIC, 3, 0),
            mk(uni::lshape(), &BASIC, 3, 1),
            mk(uni::odd2(), &BASIC, 3, 0),
            mk(uni::diag2(), &ALL, 2, 1),
            mk(uni::ring8(), &BASIC, 2, 0),
        ]
    } else {
        vec![
            mk(uni::unit(), &BASIC, 3, 1),
            mk(uni::rect1(), &ALL, 2, 0),
            mk(uni::horiz2s(), &BASIC, 2, 1),
            mk(uni::vert2s(), &BASIC, 2, 0),
            mk(uni::square4s(), &BASIC, 2, 0),
            mk(uni::lshape(), &BASIC, 2, 0),
            mk(uni::odd2(), &BASIC, 2, 0),
            mk(uni::diag2(), &BASIC, 1, 1),
            mk(uni::ring8(), &BASIC, 1, 0),
        ]
    };
    let run = |g: &Grid, s: &St| -> Result<(), String> {
        ctx.step();
        let path = ctx.scratch.join(format!("{}.json", thread_tag()));
        let ps = path.to_str().unwrap().to_string();
        let mut s = s.clone();
        let before = dump(&s.mesh);
        // twice: once into a fresh file, once over an existing longer one
        for round in 0..2 {
            if round == 1 {
                let mut junk = std::fs::read(&path).map_err(|e| e.to_string())?;
                junk.extend_from_slice(b"{{{ left over");
                std::fs::write(&path, junk).map_err(|e| e.to_string())?;
            } else {
                let _ = std::fs::remove_file(&path);
            }
            guard(|| s.mesh.export_to_json(&ps)).map_err(|p| format!("exporting panicked: {p}"))?.map_err(|e| format!("exporting failed: {e}"))?;
            let text = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
            let j = json::parse(&text).map_err(|e| format!("the exported file is not JSON: {e}"))?;
            ctx.valid();
            c22_check(&j, &s, g)?;
        }
        ensure!(crate::c_dom::strip_activation(&dump(&s.mesh)) == crate::c_dom::strip_activation(&before), "exporting changed the mesh");
        check_activation(&s.mesh, &s.r, &s.m)?;
        for bad in [ctx.scratch.join("absent/dir/file.json"), ctx.scratch.clone(), std::path::PathBuf::from("/dev/full"), std::path::PathBuf::new()] {
            let b = bad.to_str().unwrap().to_string();
            match guard(|| s.mesh.export_to_json(&b)) {
                Err(p) => return Err(format!("exporting to the unwritable {b:?} panicked: {p}")),
                Ok(Ok(())) => return Err(format!("exporting to the unwritable {b:?} reported success")),
                Ok(Err(_)) => ctx.outcome("unwritable path reported"),
            }
        }
        Ok(())
    };
    for p in &plans {
        for_cases(&ctx, p, &|s: &St| run(&p.grid, s));
    }
    // long chains, refinements of every leaf, many cells
    for (g, cells) in crate::c_dom::deep_grids() {
        let v = deep_states(&ctx, &g, ctx.pick(1, 2), 15, cells.map(|c| (c, ctx.pick(18, 24))), ctx.pick(3, 1));
        for_states(&ctx, &v, &[[1, 1]], &[], 0, &|s: &St| run(&g, s));
        for_states(&ctx, &globals(&ctx, &g, ctx.pick(3, 4), ctx.pick(400, 2000)), &[[1, 1], [20, 13]], &[], 0, &|s: &St| run(&g, s));
    }
    for g in uni::vast() {
        for_states(&ctx, &crate::cases::vast_states(&ctx, &g, ctx.pick(5, 1)), &[[1, 1]], &[], 0, &|s: &St| run(&g, s));
    }
    for (w, h) in [(17, 16), (300, 1), (1, 300)] {
        let g = uni::block(w, h);
        let v: Vec<St> = match St::start(&ctx, &g) {
            Ok(s) => [0, 1, 255, 256, 257, w * h - 1].into_iter().filter_map(|e| s.step(e, Kind::T).ok()).chain([s.clone()]).collect(),
            Err(e) => {
                ctx.violate(format!("{}:", g.name), e);
                vec![]
            }
        };
        for_states(&ctx, &v, &[[1, 1], [3, 2]], &[], 0, &|s: &St| run(&g, s));
    }
    huge(&ctx, false, &|_, s| run(&uni::unit(), s));
    ctx.finish(
        "model_checking",
        "every refinement tree to the stated depth with orders deviating at up to one element, chains of 14 refinements and pairs of chains of 9, refinements of all leaves, and meshes of about 300 cells; the exported file is parsed and every entry compared with the rectangle model and the mesh; unwritable paths (missing directory, directory, full device, empty path)",
        &["numbers are compared to 1e-13 relative accuracy", "the file is parsed with the json crate that also wrote it"],
    )
}

// ------------------------------------------------------------------------------------------------ C23

fn c23_case(ctx: &Ctx, s: &St) -> Result<(), String> {
    let (r, m) = (&s.r, &s.m);
    let dom = domain(s)?;
    let mesh = &dom.mesh;
    let sorted = |mut v: Vec<usize>| {
        v.sort();
        v
    };
    let mut counts = vec![0; mesh.elems.len()];
    for a in dom.dofs.iter().flat_map(|d| d.get_basis_specs()) {
        counts[a.elem_id] += 1;
    }
    for id in 0..mesh.elems.len() {
        ctx.step();
        let e = m.refi[id];
        let desc: Vec<usize> = sorted(r.descendants(e).iter().map(|x| m.real[*x]).collect());
        let anc: Vec<usize> = r.ancestors(e).iter().map(|x| m.real[*x]).collect();
        let d0 = mesh.descendant_elems(id, false).map_err(|e| e.to_string())?;
        let d1 = mesh.descendant_elems(id, true).map_err(|e| e.to_string())?;
        ensure!(sorted(d0.clone()) == desc, "descendants of {} are {:?}, expected {:?}", id, d0, desc);
        let mut with = desc.clone();
        with.push(id);
        ensure!(sorted(d1.clone()) == sorted(with), "descendants of {} with itself are {:?}", id, d1);
        let a0 = mesh.ancestor_elems(id, false).map_err(|e| e.to_string())?;
        let a1 = mesh.ancestor_elems(id, true).map_err(|e| e.to_string())?;
        ensure!(a0 == anc, "ancestors of {} are {:?}, expected {:?}", id, a0, anc);
        let mut with = vec![id];
        with.extend(&anc);
        ensure!(a1 == with, "ancestors of {} with itself are {:?}", id, a1);
        let pts = mesh.elem_points(id).map_err(|e| e.to_string())?;
        let dg = mesh.elem_diag_points(id).map_err(|e| e.to_string())?;
        let rr = r.real_rect(e);
        let sc = rr.iter().fold(1.0f64, |m, x| m.max(x.abs()));
        let want = [[rr[0], rr[2]], [rr[1], rr[2]], [rr[0], rr[3]], [rr[1], rr[3]]];
        for c in 0..4 {
            ensure!(close(pts[c].x, want[c][0], sc) && close(pts[c].y, want[c][1], sc), "corner {} of {} is {:?}", c, id, (pts[c].x, pts[c].y));
        }
        ensure!((dg[0].x, dg[0].y) == (pts[0].x, pts[0].y) && (dg[1].x, dg[1].y) == (pts[3].x, pts[3].y), "diagonal points of {} are {:?}", id, dg);
        // basis functions
        let local = dom.local_basis_specs(id).map_err(|e| e.to_string())?;
        ensure!(local.len() == dom.basis_specs[id].len() && local.iter().all(|b| b.elem_id == id), "local functions of {} are not its own", id);
        let count = counts[id];
        ensure!(count == local.len(), "element {} has {} local functions, {} belong to degrees of freedom", id, local.len(), count);
        let dl = dom.descendant_basis_specs(id).map_err(|e| e.to_string())?;
        ensure!(sorted(dl.iter().map(|x| x.0).collect()) == desc, "descendant functions of {} come from {:?}", id, dl.iter().map(|x| x.0).collect::<Vec<_>>());
        let al = dom.ancestor_basis_specs(id).map_err(|e| e.to_string())?;
        ensure!(al.iter().map(|x| x.0).collect::<Vec<_>>() == anc, "ancestor functions of {} come from {:?}", id, al.iter().map(|x| x.0).collect::<Vec<_>>());
        for (x, l) in dl.iter().chain(al.iter()) {
            let a: Vec<usize> = l.iter().map(|b| b.id).collect();
            let b: Vec<usize> = dom.basis_specs[*x].iter().map(|b| b.id).collect();
            ensure!(a == b, "functions listed for {} (asked from {}) are not that element's", x, id);
        }
        for k in 0..local.len() {
            let b = dom.get_basis_spec(BSAddress::new(id, k))?;
            ensure!(b.id == local[k].id, "address {}({}) gives record {}", id, k, b.id);
        }
        for k in [local.len(), local.len() + 1, usize::MAX] {
            ensure!(guard(|| dom.get_basis_spec(BSAddress::new(id, k)).is_err()) == Ok(true), "address {}({}) past the end does not give an error", id, k);
        }
        ensure!(mesh.elem_is_h_refineable(id).is_ok() && mesh.elem_p_refinement_window(id).is_ok(), "queries on the existing element {} fail", id);
    }
    let t = r.topology();
    let loc = locate(mesh, r)?;
    for (sg, ed) in &t.edges {
        let id = loc.edge_at[sg];
        let p = mesh.edge_points(id).map_err(|e| e.to_string())?;
        let n = mesh.edges[id].nodes;
        ensure!([loc.node_at[&sg.0], loc.node_at[&sg.1]] == n, "edge {} has ends {:?}", id, n);
        for c in 0..2 {
            ensure!((p[c].x, p[c].y) == (mesh.nodes[n[c]].coords.x, mesh.nodes[n[c]].coords.y), "end {} of edge {} is {:?}", c, id, (p[c].x, p[c].y));
        }
        let mut desc = vec![];
        let mut st: Vec<Seg> = ed.children.map(|c| c.to_vec()).unwrap_or_default();
        while let Some(x) = st.pop() {
            desc.push(loc.edge_at[&x]);
            st.extend(t.edges[&x].children.map(|c| c.to_vec()).unwrap_or_default());
        }
        let d0 = mesh.descendant_edges(id, false).map_err(|e| e.to_string())?;
        let d1 = mesh.descendant_edges(id, true).map_err(|e| e.to_string())?;
        ensure!(sorted(d0.clone()) == sorted(desc.clone()), "descendants of edge {} are {:?}, expected {:?}", id, d0, desc);
        desc.push(id);
        ensure!(sorted(d1.clone()) == sorted(desc), "descendants of edge {} with itself are {:?}", id, d1);
    }
    // ids that do not exist
    let no_elem = |x: usize, name: &str, r: Result<Result<(), MeshAccessError>, String>| -> Result<(), String> {
        match r {
            Ok(Err(MeshAccessError::ElemDoesNotExist(i))) if i == x => Ok(()),
            other => Err(format!("{name}({x}) on a mesh with {} elements gives {:?}", mesh.elems.len(), other)),
        }
    };
    for x in [mesh.elems.len(), mesh.elems.len() + 1, 2 * mesh.elems.len() + 7, usize::MAX] {
        for inc in [false, true] {
            no_elem(x, "descendant_elems", guard(|| mesh.descendant_elems(x, inc).map(|_| ())))?;
            no_elem(x, "ancestor_elems", guard(|| mesh.ancestor_elems(x, inc).map(|_| ())))?;
        }
        no_elem(x, "elem_points", guard(|| mesh.elem_points(x).map(|_| ())))?;
        no_elem(x, "elem_diag_points", guard(|| mesh.elem_diag_points(x).map(|_| ())))?;
        no_elem(x, "elem_is_h_refineable", guard(|| mesh.elem_is_h_refineable(x).map(|_| ())))?;
        no_elem(x, "elem_p_refinement_window", guard(|| mesh.elem_p_refinement_window(x).map(|_| ())))?;
        no_elem(x, "local_basis_specs", guard(|| dom.local_basis_specs(x).map(|_| ())))?;
        no_elem(x, "descendant_basis_specs", guard(|| dom.descendant_basis_specs(x).map(|_| ())))?;
        no_elem(x, "ancestor_basis_specs", guard(|| dom.ancestor_basis_specs(x).map(|_| ())))?;
        for k in [0, 1, usize::MAX] {
            ensure!(guard(|| dom.get_basis_spec(BSAddress::new(x, k)).is_err()) == Ok(true), "get_basis_spec({}, {}) does not give an error", x, k);
        }
    }
    for x in [mesh.edges.len(), mesh.edges.len() + 1, 2 * mesh.edges.len() + 7, usize::MAX] {
        for (name, r) in [
            ("edge_points", guard(|| mesh.edge_points(x).map(|_| ()))),
            ("descendant_edges", guard(|| mesh.descendant_edges(x, false).map(|_| ()))),
            ("descendant_edges (with start)", guard(|| mesh.descendant_edges(x, true).map(|_| ()))),
        ] {
            match r {
                Ok(Err(MeshAccessError::EdgeDoesNotExist(i))) if i == x => {}
                other => return Err(format!("{name}({x}) on a mesh with {} edges gives {:?}", mesh.edges.len(), other)),
            }
        }
    }
    // iterators
    ensure!(dom.elems().map(|e| e.id).eq(0..mesh.elems.len()) && dom.edges().map(|e| e.id).eq(0..mesh.edges.len()) && dom.nodes().map(|e| e.id).eq(0..mesh.nodes.len()), "the domain's iterators do not visit every entity in order");
    let _: BTreeSet<usize> = BTreeSet::new();
    Ok(())
}

pub fn c23() -> i32 {
    let ctx = Ctx::new("C23");
    let mk = |g: Grid, kinds: &'static [Kind], depth: usize, dev: usize| Plan { grid: g, kinds, depth, max_elems: 99, bases: vec![[1, 1], [2, 2]], alt: vec![[1, 3], [2, 2]], dev, dedupe: true };
    let plans = if ctx.thorough() {
        vec![
            mk(uni::unit(), &BASIC, 5, 0),
            mk(uni::unit(), &BASIC, 3, 1),
            mk(uni::unit(), &ALL, 3, 0),
            mk(uni::horiz2s(), &BASIC, 3, 0),
            mk(uni::horiz2s(), &BASIC, 2, 1),
            mk(uni::vert2s(), &ALL, 2, 0),
            mk(uni::square4s(), &BASIC, 3, 0),
            mk(uni::lshape(), &BASIC, 3, 0),
            mk(uni::diag2(), &BASIC, 3, 0),
            mk(uni::ring8(), &BASIC, 2, 0),
        ]
    } else {
        vec![
            mk(uni::unit(), &BASIC, 3, 1),
            mk(uni::unit(), &BASIC, 4, 0),
            mk(uni::horiz2s(), &BASIC, 2, 1),
            mk(uni::vert2s(), &ALL, 2, 0),
            mk(uni::square4s(), &BASIC, 2, 0),
            mk(uni::lshape(), &BASIC, 2, 0),
            mk(uni::diag2(), &BASIC, 1, 1),
            mk(uni::ring8(), &BASIC, 1, 0),
        ]
    };
    for p in &plans {
        for_cases(&ctx, p, &|s: &St| {
            ctx.valid();
            c23_case(&ctx, s)
        });
    }
    for (g, cells) in crate::c_dom::deep_grids() {
        let v = deep_states(&ctx, &g, ctx.pick(1, 2), 15, cells.map(|c| (c, ctx.pick(22, 26))), ctx.pick(2, 1));
        for_states(&ctx, &v, &[[1, 1], [2, 3]], &[], 0, &|s: &St| {
            ctx.valid();
            c23_case(&ctx, s)
        });
        for_states(&ctx, &globals(&ctx, &g, ctx.pick(3, 4), ctx.pick(200, 1500)), &[[1, 1], [2, 2]], &[], 0, &|s: &St| {
            ctx.valid();
            c23_case(&ctx, s)
        });
    }
    for g in uni::vast() {
        for_states(&ctx, &crate::cases::vast_states(&ctx, &g, ctx.pick(3, 1)), &[[1, 1]], &[], 0, &|s: &St| {
            ctx.valid();
            c23_case(&ctx, s)
        });
    }
    for (w, h) in [(17, 16), (300, 1), (1, 300)] {
        let g = uni::block(w, h);
        let v: Vec<St> = match St::start(&ctx, &g) {
            Ok(s) => [0, 255, 256, w * h - 1].into_iter().filter_map(|e| s.step(e, Kind::T).ok()).collect(),
            Err(e) => {
                ctx.violate(format!("{}:", g.name), e);
                vec![]
            }
        };
        for_states(&ctx, &v, &[[1, 1]], &[], 0, &|s: &St| {
            ctx.valid();
            c23_case(&ctx, s)
        });
    }
    huge(&ctx, false, &|_, s| {
        ctx.valid();
        c23_case(&ctx, s)
    });
    // meshes without anything in them
    for x in [0, 1, usize::MAX] {
        let m = Mesh::blank();
        let d = Domain::blank(ContinuityCondition::HCurl);
        let ok = guard(|| {
            m.descendant_elems(x, true).is_err()
                && m.ancestor_elems(x, true).is_err()
                && m.elem_points(x).is_err()
                && m.elem_diag_points(x).is_err()
                && m.edge_points(x).is_err()
                && m.descendant_edges(x, true).is_err()
                && m.elem_is_h_refineable(x).is_err()
                && m.elem_p_refinement_window(x).is_err()
                && d.local_basis_specs(x).is_err()
                && d.descendant_basis_specs(x).is_err()
                && d.ancestor_basis_specs(x).is_err()
                && d.get_basis_spec(BSAddress::new(x, 0)).is_err()
                && m.max_expansion_orders() == [0, 0]
        });
        ctx.state();
        if ok != Ok(true) {
            ctx.violate(format!("blank mesh, id {x}"), format!("a query on an empty mesh does not give an error: {ok:?}"));
        }
    }
    ctx.finish(
        "model_checking",
        "every refinement tree to the stated depth with a few order assignments, chains of 14 refinements and pairs of chains of 11, refinements of all leaves, meshes of about 300 cells; every query on every existing id compared with the rectangle model, and on ids past the end (first, second, far, maximal)",
        &["ids between the listed past-the-end values are not tried"],
    )
}

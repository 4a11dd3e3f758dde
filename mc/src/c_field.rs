//! C21: field evaluation and VTK export.
use crate::c_lin::single;
use crate::cases::*;
use crate::ctx::*;
use crate::explore::*;
use crate::obs::ensure;
use crate::poly::*;
use crate::refm::*;
use crate::uni;
use fem_2d::fem_domain::domain::fields::UniformFieldError;
use fem_2d::prelude::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

/// a parsed file
pub struct Vtk {
    pub points: Vec<[f64; 3]>,
    pub cells: Vec<[usize; 4]>,
    pub data: Vec<(String, Vec<f64>)>,
}

pub fn parse(text: &str) -> Result<Vtk, String> {
    let mut lines = text.splitn(3, '\n');
    let head = lines.next().unwrap_or("");
    ensure!(head.starts_with("# vtk DataFile Version "), "first line {head:?}");
    let title = lines.next().unwrap_or("");
    ensure!(title.len() <= 256, "title of {} characters", title.len());
    let mut t = lines.next().unwrap_or("").split_whitespace();
    let mut word = |w: &str| -> Result<(), String> {
        let g = t.next();
        ensure!(g == Some(w), "{g:?} where {w} belongs");
        Ok(())
    };
    word("ASCII")?;
    word("DATASET")?;
    word("UNSTRUCTURED_GRID")?;
    word("POINTS")?;
    fn num<T: std::str::FromStr>(w: Option<&str>) -> Result<T, String> {
        w.and_then(|s| s.parse().ok()).ok_or(format!("{w:?} where a number belongs"))
    }
    let np: usize = num(t.next())?;
    ensure!(matches!(t.next(), Some("double" | "float")), "type of the points");
    let mut points = vec![];
    for _ in 0..np {
        points.push([num(t.next())?, num(t.next())?, num(t.next())?]);
    }
    ensure!(t.next() == Some("CELLS"), "CELLS is missing after {np} points");
    let nc: usize = num(t.next())?;
    let size: usize = num(t.next())?;
    ensure!(size == 5 * nc, "CELLS {nc} {size}");
    let mut cells = vec![];
    for _ in 0..nc {
        ensure!(t.next() == Some("4"), "a cell without 4 points");
        let c: [usize; 4] = [num(t.next())?, num(t.next())?, num(t.next())?, num(t.next())?];
        ensure!(c.iter().all(|p| *p < np), "cell {c:?} with {np} points");
        cells.push(c);
    }
    ensure!(t.next() == Some("CELL_TYPES"), "CELL_TYPES is missing after {nc} cells");
    let nt: usize = num(t.next())?;
    ensure!(nt == nc, "CELL_TYPES {nt} for {nc} cells");
    for _ in 0..nc {
        ensure!(t.next() == Some("9"), "a cell that is not a quadrilateral");
    }
    ensure!(t.next() == Some("POINT_DATA"), "POINT_DATA is missing after {nc} cell types");
    let nd: usize = num(t.next())?;
    ensure!(nd == np, "POINT_DATA {nd} for {np} points");
    let mut data = vec![];
    loop {
        match t.next() {
            None => break,
            Some("SCALARS") => {}
            w => return Err(format!("{w:?} where SCALARS belongs (after {} quantities)", data.len())),
        }
        let name = t.next().ok_or("a quantity without a name")?.to_string();
        ensure!(matches!(t.next(), Some("double" | "float")), "type of {name}");
        let mut w = t.next();
        if w == Some("1") {
            w = t.next();
        }
        ensure!(w == Some("LOOKUP_TABLE") && t.next() == Some("default"), "lookup table of {name}");
        let mut v = vec![];
        for _ in 0..np {
            v.push(num(t.next()).map_err(|e| format!("{e} (value {} of {name})", v.len()))?);
        }
        data.push((name, v));
    }
    Ok(Vtk { points, cells, data })
}

/// For every point of the file: (reference leaf, x index, y index). Every leaf must have its own grid of points, tiled by cells.
pub fn layout(v: &Vtk, r: &RefMesh, [dx, dy]: [usize; 2]) -> Result<Vec<(usize, usize, usize)>, String> {
    let leaves = r.leaves();
    ensure!(v.points.len() == leaves.len() * dx * dy, "{} points for {} leaves with {dx} x {dy}", v.points.len(), leaves.len());
    ensure!(v.cells.len() == leaves.len() * (dx - 1) * (dy - 1), "{} cells for {} leaves with {dx} x {dy} points", v.cells.len(), leaves.len());
    let n = v.points.len();
    let mut parent: Vec<usize> = (0..n).collect();
    fn root(p: &mut Vec<usize>, mut k: usize) -> usize {
        while p[k] != k {
            p[k] = p[p[k]];
            k = p[k];
        }
        k
    }
    for c in &v.cells {
        for k in 1..4 {
            let (a, b) = (root(&mut parent, c[0]), root(&mut parent, c[k]));
            parent[a] = b;
        }
    }
    let mut group: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for k in 0..n {
        let q = root(&mut parent, k);
        group.entry(q).or_default().push(k);
    }
    ensure!(group.len() == leaves.len(), "the cells form {} patches for {} leaves", group.len(), leaves.len());
    let mut out = vec![(usize::MAX, 0, 0); n];
    let mut by_left: Vec<(f64, usize)> = leaves.iter().map(|l| (r.real_rect(*l)[0], *l)).collect();
    by_left.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut taken = BTreeSet::new();
    for g in group.values() {
        ensure!(g.len() == dx * dy, "a patch of {} points", g.len());
        let ext = |c: usize, f: fn(f64, f64) -> f64, s: f64| g.iter().map(|p| v.points[*p][c]).fold(s, f);
        let bb = [ext(0, f64::min, f64::MAX), ext(0, f64::max, f64::MIN), ext(1, f64::min, f64::MAX), ext(1, f64::max, f64::MIN)];
        let near = by_left.partition_point(|(x, _)| *x < bb[0] - 1e-9);
        let leaf = by_left[near..].iter().take_while(|(x, _)| *x < bb[0] + 1e-9).map(|(_, l)| l).find(|l| r.real_rect(**l).iter().zip(&bb).all(|(a, b)| (a - b).abs() < 1e-9)).ok_or(format!("a patch covers {bb:?}, which is no leaf"))?;
        ensure!(taken.insert(*leaf), "two patches cover the leaf {bb:?}");
        let mut seen = BTreeSet::new();
        for &p in g {
            let (x, y) = (v.points[p][0], v.points[p][1]);
            // the file has ten decimals
            let tol = |w: f64, d: usize| 1e-6f64.max(2.5e-10 / w * (d - 1) as f64);
            let fx = (x - bb[0]) / (bb[1] - bb[0]) * (dx - 1) as f64;
            let fy = (y - bb[2]) / (bb[3] - bb[2]) * (dy - 1) as f64;
            ensure!((fx - fx.round()).abs() < tol(bb[1] - bb[0], dx) && (fy - fy.round()).abs() < tol(bb[3] - bb[2], dy), "point ({x}, {y}) is not on the {dx} x {dy} grid of {bb:?}");
            ensure!(v.points[p][2] == 0.0, "point with z = {}", v.points[p][2]);
            let at = (fx.round() as usize, fy.round() as usize);
            ensure!(seen.insert(at), "two points at ({x}, {y}) of the leaf {bb:?}");
            out[p] = (*leaf, at.0, at.1);
        }
    }
    let mut tiles = BTreeSet::new();
    for c in &v.cells {
        let q: Vec<_> = c.iter().map(|p| out[*p]).collect();
        ensure!(q.iter().all(|x| x.0 == q[0].0), "cell {c:?} crosses from one leaf to another");
        let (m, k) = (q.iter().map(|x| x.1).min().unwrap(), q.iter().map(|x| x.2).min().unwrap());
        let rel: Vec<_> = q.iter().map(|x| (x.1 - m, x.2 - k)).collect();
        let around = [(0, 0), (1, 0), (1, 1), (0, 1)];
        let s = around.iter().position(|a| *a == rel[0]).ok_or(format!("cell {c:?} is no grid cell"))?;
        let fwd = (0..4).all(|i| rel[i] == around[(s + i) % 4]);
        let bwd = (0..4).all(|i| rel[i] == around[(s + 4 - i) % 4]);
        ensure!(fwd || bwd, "cell {c:?} does not go around its grid cell: {rel:?}");
        ensure!(tiles.insert((q[0].0, m, k)), "two cells at ({m}, {k}) of a leaf");
    }
    Ok(out)
}

/// the reference field of one vector at the points of the layout: (x component, y component, scale)
pub fn reference(r: &RefMesh, funs: &[Vec<Fun>], sol: &[f64], pts: &[(usize, usize, usize)], [dx, dy]: [usize; 2], at: &dyn Fn(&Fun, &[f64; 4], f64, f64) -> [f64; 3]) -> [Vec<f64>; 3] {
    let mut per_leaf: BTreeMap<usize, Vec<(usize, Fun)>> = BTreeMap::new();
    let mut per_elem: BTreeMap<usize, Vec<(usize, Fun)>> = BTreeMap::new();
    for (d, fs) in funs.iter().enumerate().filter(|(d, _)| sol[*d] != 0.0) {
        for f in fs {
            per_elem.entry(f.e).or_default().push((d, *f));
        }
    }
    for l in r.leaves() {
        let v = r.ancestors(l).into_iter().chain([l]).flat_map(|e| per_elem.get(&e).into_iter().flatten().copied()).collect();
        per_leaf.insert(l, v);
    }
    let mut out = [vec![], vec![], vec![]];
    for &(l, m, n) in pts {
        let q = r.real_rect(l);
        let x = q[0] + (q[1] - q[0]) * m as f64 / (dx - 1) as f64;
        let y = q[2] + (q[3] - q[2]) * n as f64 / (dy - 1) as f64;
        let (mut fx, mut fy, mut s) = (0.0, 0.0, 0.0);
        for (d, f) in &per_leaf[&l] {
            let v = at(f, &r.real_rect(f.e), x, y);
            fx += sol[*d] * v[0];
            fy += sol[*d] * v[1];
            s += (sol[*d] * v[0]).abs() + (sol[*d] * v[1]).abs();
        }
        out[0].push(fx);
        out[1].push(fy);
        out[2].push(s);
    }
    out
}

/// the values are of the order 2 / width times the coefficients; a function that vanishes at every point of the file is judged against that
pub fn floor(r: &RefMesh, sol: &[f64]) -> f64 {
    let w = r.leaves().iter().flat_map(|l| { let q = r.real_rect(*l); [q[1] - q[0], q[3] - q[2]] }).fold(f64::MAX, f64::min);
    1e-14 * (1.0 + 2.0 / w) * sol.iter().fold(1.0f64, |a, b| a.max(b.abs()))
}

pub fn close(what: &str, got: &[f64], want: &[f64], scale: &[f64], pts: &[(usize, usize, usize)], floor: f64) -> Result<(), String> {
    let top = scale.iter().fold(0.0f64, |a, b| a.max(*b));
    for k in 0..got.len() {
        ensure!((got[k] - want[k]).abs() <= 1e-10 * top + floor, "{what} at point {k} (leaf, x index, y index {:?}) is {:e} instead of {:e}", pts[k], got[k], want[k]);
    }
    Ok(())
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn static_name(k: usize) -> &'static str {
    use std::sync::{Mutex, OnceLock};
    static N: OnceLock<Mutex<Vec<&'static str>>> = OnceLock::new();
    let mut v = N.get_or_init(|| Mutex::new(vec![])).lock().unwrap();
    while v.len() <= k {
        let n = v.len();
        v.push(leak(format!("q{n}")));
    }
    v[k]
}

pub fn values<'a>(v: &'a Vtk, name: &str) -> Result<&'a [f64], String> {
    let mut it = v.data.iter().filter(|d| d.0 == name);
    let d = it.next().ok_or(format!("quantity {name} is not in the file"))?;
    ensure!(it.next().is_none(), "quantity {name} is in the file twice");
    Ok(&d.1)
}

pub fn shot(ctx: &Ctx, write: impl FnOnce(&str) -> Result<(), Box<dyn std::error::Error>>) -> Result<Vtk, String> {
    let p = ctx.scratch.join(format!("f_{}.vtk", crate::c_io::thread_tag()));
    write(p.to_str().unwrap()).map_err(|e| format!("the export fails: {e}"))?;
    let t = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
    parse(&t)
}

pub fn general(n: usize, s: usize) -> Vec<f64> {
    (0..n).map(|k| ((k * 7 + s * 3) % 11) as f64 / 3.0 - 1.1 + if (k + s) % 5 == 0 { 1e3 } else { 0.0 }).collect()
}

fn fields_case(ctx: &Ctx, s: &St, dens: &[[usize; 2]], units: bool) -> Result<(), String> {
    let dom = domain(s)?;
    let r = &s.r;
    let funs = dof_funs(&dom, &s.m.refi)?;
    let nd = dom.dofs.len();
    for (q, &d) in dens.iter().enumerate() {
        ctx.step();
        let mut ufs = UniformFieldSpace::new(&dom, d);
        // a general vector, and (with the first density only) every unit vector
        let mut sols = vec![general(nd, q)];
        if q == 0 && units {
            for k in 0..nd {
                let mut e = vec![0.0; nd];
                e[k] = 1.0;
                sols.push(e);
            }
        }
        let mut names: Vec<[String; 2]> = vec![];
        for (k, sol) in sols.iter().enumerate() {
            let n = static_name(k);
            let out = ufs.xy_fields::<HierPoly>(n, sol.clone()).map_err(|e| format!("a solution of the right size is refused: {e}"))?;
            ensure!(out[0] == format!("{n}_x") && out[1] == format!("{n}_y"), "the names are {out:?}");
            names.push(out);
        }
        // derived quantities of the general vector
        ufs.map_to_quantity(&names[0][0], "mapped", |x| 2.0 * x.abs() + 1.0).map_err(|e| e.to_string())?;
        ufs.expression_2arg([&names[0][0], &names[0][1]], "combined", |a, b| a - 3.0 * b).map_err(|e| e.to_string())?;
        // coefficients far below and far above one, brought back by a mapping
        let small = [1e-20, 1e-300, 1e200][q % 3];
        let small_names = ufs.xy_fields::<HierPoly>("small", sols[0].iter().map(|x| x * small).collect()).map_err(|e| e.to_string())?;
        ufs.map_to_quantity(&small_names[q % 2], "grown", move |x| x / small).map_err(|e| e.to_string())?;
        let all: Vec<String> = names.iter().flatten().cloned().chain(["mapped".to_string(), "combined".to_string()]).collect();
        let v = shot(ctx, |p| ufs.print_quantities_to_vkt(p, all.iter().cloned().chain(["grown".to_string()]).collect()))?;
        ensure!(v.data.len() == all.len() + 1, "{} quantities in the file instead of {}", v.data.len(), all.len() + 1);
        let pts = layout(&v, r, d)?;
        for (k, sol) in sols.iter().enumerate() {
            let want = reference(r, &funs, sol, &pts, d, &Fun::at);
            for c in 0..2 {
                let what = format!("density {d:?}: component {} of solution {}", ["x", "y"][c], if k == 0 { "vector".into() } else { format!("unit {}", k - 1) });
                close(&what, values(&v, &names[k][c])?, &want[c], &want[2], &pts, floor(r, sol))?;
            }
            if k == 0 {
                close(&format!("density {d:?}: field of the coefficients times {small:e}, over {small:e}"), values(&v, "grown")?, &want[q % 2], &want[2], &pts, floor(r, sol))?;
                let sc: Vec<f64> = want[2].iter().map(|x| 4.0 * x + 1.0).collect();
                let m: Vec<f64> = want[0].iter().map(|x| 2.0 * x.abs() + 1.0).collect();
                close(&format!("density {d:?}: mapped quantity"), values(&v, "mapped")?, &m, &sc, &pts, floor(r, sol))?;
                let e: Vec<f64> = want[0].iter().zip(&want[1]).map(|(a, b)| a - 3.0 * b).collect();
                close(&format!("density {d:?}: expression"), values(&v, "combined")?, &e, &sc, &pts, floor(r, sol))?;
            }
        }
        // a selection, in the order asked for
        let pick = vec!["combined".to_string(), names[0][1].clone()];
        let w = shot(ctx, |p| ufs.print_quantities_to_vkt(p, pick.clone()))?;
        ensure!(w.data.iter().map(|x| &x.0).eq(pick.iter()), "the file has the quantities {:?} instead of {pick:?}", w.data.iter().map(|x| &x.0).collect::<Vec<_>>());
        let pw = layout(&w, r, d)?;
        ensure!(pw == pts && w.data[0].1 == values(&v, "combined")? && w.data[1].1 == values(&v, &names[0][1])?, "two exports of the same quantity differ");
        ctx.valid();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ sequences of operations

const NAMES: [&str; 8] = ["f_x", "f_y", "g_x", "p", "absent", "f", "f_xx", "F_X"];
const VECTORS: [&str; 4] = ["f", "g", "f_x", "p"];

#[derive(Clone, Copy, Debug)]
enum Op {
    /// fields named by VECTORS of vector .1 of the right size (or a wrong one: .1 >= 4)
    Xy(usize, usize),
    Map(usize, usize, usize),
    Expr(usize, usize, usize),
}

fn alphabet() -> Vec<Op> {
    let mut v = vec![Op::Xy(0, 0), Op::Xy(0, 1), Op::Xy(1, 1), Op::Xy(0, 4), Op::Xy(1, 5)];
    for a in [0, 1, 3, 4] {
        for (b, k) in [(3, 0), (0, 1), (a, 2)] {
            v.push(Op::Map(a, b, k));
        }
    }
    for (a, b) in [(0, 1), (1, 0), (0, 3), (3, 2), (0, 0), (4, 0), (0, 4)] {
        for c in [3, 1] {
            v.push(Op::Expr(a, b, c));
        }
    }
    // names that begin with, extend or resemble other names
    v.extend([Op::Xy(2, 1), Op::Xy(3, 0), Op::Map(0, 5, 0), Op::Map(5, 0, 1), Op::Map(0, 6, 1), Op::Map(6, 5, 2), Op::Map(7, 0, 0), Op::Expr(0, 1, 5), Op::Expr(5, 6, 7), Op::Expr(3, 0, 6)]);
    v
}

fn mapf(k: usize, x: f64) -> f64 {
    [x.abs(), 2.0 * x - 1.0, x * x][k]
}
fn exprf(a: f64, b: f64) -> f64 {
    a - 0.5 * b + 0.125
}

type Quants = BTreeMap<String, Vec<f64>>;

/// run a sequence on a fresh field space and on maps of values; `base[v][c]` are the values of vector v, in file order
fn sequence(ctx: &Ctx, dom: &Domain, d: [usize; 2], ops: &[Op], base: &[[Vec<f64>; 2]]) -> Result<(), String> {
    let nd = dom.dofs.len();
    let mut ufs = UniformFieldSpace::new(dom, d);
    let mut model: Quants = BTreeMap::new();
    for op in ops {
        match *op {
            Op::Xy(n, v) => {
                let name = VECTORS[n];
                if v >= 4 {
                    let len = if v == 4 { nd + 1 } else { nd - 1 };
                    match ufs.xy_fields::<HierPoly>(name, vec![1.0; len]) {
                        Err(UniformFieldError::MismatchedSolutionSize(a, b)) => ensure!((a, b) == (nd, len), "a vector of {len} for {nd} is refused as {b} for {a}"),
                        Err(e) => return Err(format!("wrong size refused as {e}")),
                        Ok(_) => return Err(format!("a vector of length {len} is accepted for {nd} degrees of freedom")),
                    }
                } else {
                    let out = ufs.xy_fields::<HierPoly>(name, general(nd, v)).map_err(|e| format!("{op:?}: {e}"))?;
                    for c in 0..2 {
                        model.insert(out[c].clone(), base[v][c].clone());
                    }
                }
            }
            Op::Map(a, b, k) => {
                let got = ufs.map_to_quantity(NAMES[a], NAMES[b], move |x| mapf(k, *x));
                match (model.get(NAMES[a]).cloned(), got) {
                    (None, Err(UniformFieldError::MissingQuantity(n))) => ensure!(n == NAMES[a], "{n} is reported missing instead of {}", NAMES[a]),
                    (None, _) => return Err(format!("{op:?}: the missing quantity {} is not reported", NAMES[a])),
                    (Some(_), Err(e)) => return Err(format!("{op:?}: {e}")),
                    (Some(v), Ok(())) => {
                        model.insert(NAMES[b].into(), v.iter().map(|x| mapf(k, *x)).collect());
                    }
                }
            }
            Op::Expr(a, b, c) => {
                let got = ufs.expression_2arg([NAMES[a], NAMES[b]], NAMES[c], exprf);
                match (model.get(NAMES[a]).cloned(), model.get(NAMES[b]).cloned(), got) {
                    (Some(x), Some(y), Ok(())) => {
                        model.insert(NAMES[c].into(), x.iter().zip(&y).map(|(p, q)| exprf(*p, *q)).collect());
                    }
                    (Some(_), Some(_), Err(e)) => return Err(format!("{op:?}: {e}")),
                    (x, y, Err(UniformFieldError::MissingQuantity(n))) => {
                        ensure!((x.is_none() && n == NAMES[a]) || (y.is_none() && n == NAMES[b]), "{op:?}: {n} is reported missing")
                    }
                    _ => return Err(format!("{op:?}: a missing quantity is not reported")),
                }
            }
        }
    }
    let v = shot(ctx, |p| ufs.print_all_to_vtk(p))?;
    let have: BTreeSet<&String> = v.data.iter().map(|x| &x.0).collect();
    ensure!(have.iter().copied().eq(model.keys()), "the field space has {have:?} instead of {:?}", model.keys());
    ensure!(v.data.len() == model.len(), "a quantity is exported twice");
    for (n, want) in &model {
        let got = values(&v, n)?;
        for k in 0..want.len() {
            ensure!((got[k] - want[k]).abs() <= 1e-12 * want[k].abs().max(1.0), "{n} at point {k} is {:e} instead of {:e}", got[k], want[k]);
        }
    }
    // a selection with an unknown name is refused
    for names in [vec!["nothing".to_string()], vec!["f_x".into(), "nothing".into()]] {
        let first = names.iter().find(|n| !model.contains_key(*n)).unwrap();
        let p = ctx.scratch.join("never.vtk");
        match ufs.print_quantities_to_vkt(p.to_str().unwrap(), names.clone()) {
            Ok(()) => return Err(format!("exporting {names:?} succeeds")),
            Err(e) => match e.downcast_ref::<UniformFieldError>() {
                Some(UniformFieldError::MissingQuantity(n)) => ensure!(n == first, "{n} is reported missing instead of {first}"),
                _ => return Err(format!("exporting {names:?} is refused with {e}")),
            },
        }
    }
    Ok(())
}

fn sequences(ctx: &Ctx, depth: usize) {
    let s = St::replay(ctx, &uni::horiz2(), &[(0, Kind::U)]).and_then(|s| with_orders(&s, &vec![[2, 1]; s.r.elems.len()])).unwrap();
    let dom = domain(&s).unwrap();
    let nd = dom.dofs.len();
    let d = [2, 3];
    // the library's own values of the vectors (compared with the reference field elsewhere), at full precision in file order
    let base: Vec<[Vec<f64>; 2]> = (0..2)
        .map(|v| {
            let mut ufs = UniformFieldSpace::new(&dom, d);
            let n = ufs.xy_fields::<HierPoly>("f", general(nd, v)).unwrap();
            let f = shot(ctx, |p| ufs.print_all_to_vtk(p)).unwrap();
            [values(&f, &n[0]).unwrap().to_vec(), values(&f, &n[1]).unwrap().to_vec()]
        })
        .collect();
    let alpha = alphabet();
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        level = level.iter().flat_map(|s| (0..alpha.len()).map(move |k| [s.clone(), vec![k]].concat())).collect();
        all.extend(level.clone());
    }
    par_for(ctx, &all, |ks| {
        let ops: Vec<Op> = ks.iter().map(|k| alpha[*k]).collect();
        single(ctx, format!("sequence {ks:?}: {ops:?}"), &|| {
            ctx.step();
            sequence(ctx, &dom, d, &ops, &base)
        });
    });
}

/// wrong sizes, pointwise application, unwritable places
fn edges(ctx: &Ctx) {
    for (grid, hist) in [(uni::unit(), vec![]), (uni::horiz2(), vec![(0, Kind::T)]), (uni::vert2(), vec![(1, Kind::V0)])] {
        for o in [[1u8, 1u8], [2, 2], [3, 2]] {
            let s = St::replay(ctx, &grid, &hist).and_then(|s| with_orders(&s, &vec![o; s.r.elems.len()])).unwrap();
            let dom = domain(&s).unwrap();
            let nd = dom.dofs.len();
            for len in 0..nd + 4 {
                single(ctx, format!("size {len} for {}", case_name(&s)), &|| {
                    ctx.step();
                    let mut ufs = UniformFieldSpace::new(&dom, [2, 2]);
                    let r = ufs.xy_fields::<HierPoly>("f", vec![0.5; len]);
                    match r {
                        Ok(_) => ensure!(len == nd, "a vector of length {len} is accepted for {nd} degrees of freedom"),
                        Err(UniformFieldError::MismatchedSolutionSize(a, b)) => {
                            ensure!(len != nd && (a, b) == (nd, len), "{len} for {nd} is refused as {b} for {a}");
                            let v = shot(ctx, |p| ufs.print_all_to_vtk(p))?;
                            ensure!(v.data.is_empty(), "a refused solution leaves quantities");
                        }
                        Err(e) => return Err(format!("{len} for {nd} is refused as {e}")),
                    }
                    Ok(())
                });
            }
            // the functions are applied to every value once, and the results are stored as they are
            single(ctx, format!("pointwise {}", case_name(&s)), &|| {
                ctx.step();
                let d = [4, 3];
                let mut ufs = UniformFieldSpace::new(&dom, d);
                let n = ufs.xy_fields::<HierPoly>("f", general(nd, 2)).map_err(|e| e.to_string())?;
                let total = s.r.leaves().len() * 12;
                let calls = RefCell::new(vec![]);
                let c = &calls;
                ufs.map_to_quantity(&n[0], "same", move |x| {
                    c.borrow_mut().push(*x);
                    *x
                })
                .map_err(|e| e.to_string())?;
                ensure!(calls.borrow().len() == total, "the function is applied {} times to {total} values", calls.borrow().len());
                let pairs = RefCell::new(0usize);
                ufs.expression_2arg([&n[0], "same"], "zero", |a, b| {
                    *pairs.borrow_mut() += 1;
                    if a.to_bits() == b.to_bits() {
                        0.0
                    } else {
                        1.0
                    }
                })
                .map_err(|e| e.to_string())?;
                ensure!(*pairs.borrow() == total, "the expression is applied {} times to {total} values", pairs.borrow());
                let v = shot(ctx, |p| ufs.print_quantities_to_vkt(p, vec!["zero".into()]))?;
                ensure!(values(&v, "zero")?.iter().all(|x| *x == 0.0), "the copy of a quantity differs from it");
                // nothing to write is a valid file
                let v = shot(ctx, |p| ufs.print_quantities_to_vkt(p, vec![]))?;
                ensure!(v.data.is_empty(), "quantities nobody asked for");
                layout(&v, &s.r, d)?;
                Ok(())
            });
            for bad in [ctx.scratch.join("absent/x.vtk"), ctx.scratch.clone(), "/dev/full".into(), std::path::PathBuf::new()] {
                single(ctx, format!("unwritable {bad:?} {}", case_name(&s)), &|| {
                    ctx.step();
                    let mut ufs = UniformFieldSpace::new(&dom, [2, 2]);
                    for pass in 0..2 {
                        let p = bad.to_str().unwrap();
                        ensure!(ufs.print_all_to_vtk(p).is_err() && ufs.print_quantities_to_vkt(p, vec![]).is_err(), "writing to {bad:?} reports success (pass {pass})");
                        ufs.xy_fields::<HierPoly>("f", vec![0.5; nd]).map_err(|e| e.to_string())?;
                    }
                    Ok(())
                });
            }
        }
    }
}

/// every byte at which the writing can fail (one thread only: forks)
fn cut_short(ctx: &Ctx) {
    for (grid, d) in [(uni::unit(), [2, 2]), (uni::square4(), [8, 9])] {
        let s = St::start(ctx, &grid).and_then(|s| with_orders(&s, &vec![[2, 2]; s.r.elems.len()])).unwrap();
        let dom = domain(&s).unwrap();
        let mut ufs = UniformFieldSpace::new(&dom, d);
        ufs.xy_fields::<HierPoly>("f", vec![0.5; dom.dofs.len()]).unwrap();
        let p = ctx.scratch.join("cut.vtk");
        let p = p.to_str().unwrap();
        ufs.print_all_to_vtk(p).unwrap();
        let size = std::fs::metadata(p).unwrap().len();
        // the file's date makes its length vary by a few bytes
        let limits: Vec<u64> = if size < 2000 { (0..size + 60).collect() } else { (0..size + 60).step_by(997).chain([4096, 8191, 8192, 8193, 16384, size - 25, size - 8192, size + 40]).collect() };
        for limit in limits {
            if limit + 20 > size && limit < size + 20 {
                continue;
            }
            single(ctx, format!("the file can not grow beyond {limit} of about {size} bytes"), &|| {
                ctx.step();
                let _ = std::fs::remove_file(p);
                let ok = with_file_size_limit(limit, || ufs.print_all_to_vtk(p).is_ok())?;
                ensure!(ok == (limit >= size), "the export {}", if ok { "reports success" } else { "fails" });
                Ok(())
            });
        }
    }
}

pub fn c21() -> i32 {
    let ctx = Ctx::new("C21");
    cut_short(&ctx);
    edges(&ctx);
    sequences(&ctx, ctx.pick(3, 4));
    let few: &[[u8; 2]] = &[[1, 1], [3, 1], [2, 2], [1, 3]];
    let plan = |grid: uni::Grid, kinds: &'static [Kind], depth: usize, bases: &[[u8; 2]], alt: &[[u8; 2]], dev: usize| Plan { grid, kinds, depth, max_elems: 99, bases: bases.to_vec(), alt: alt.to_vec(), dev, dedupe: true };
    let dens: Vec<[usize; 2]> = if ctx.thorough() { [[3, 2]].into_iter().chain((2..=6).flat_map(|a| (2..=6).map(move |b| [a, b])).filter(|d| *d != [3, 2])).collect() } else { vec![[3, 2], [2, 2], [2, 5], [4, 3]] };
    let f = |s: &St| fields_case(&ctx, s, &dens, true);
    let plans = if ctx.thorough() {
        vec![
            plan(uni::unit(), &BASIC, 3, &[[1, 1], [2, 2], [3, 2]], few, 1),
            plan(uni::rect1(), &ALL, 2, &[[1, 1], [2, 3]], few, 1),
            plan(uni::horiz2s(), &BASIC, 2, &[[1, 1], [2, 2], [4, 3]], few, 1),
            plan(uni::vert2s(), &BASIC, 2, &[[1, 1], [2, 2], [3, 4]], few, 1),
            plan(uni::odd2(), &ALL, 2, &[[2, 1]], few, 0),
            plan(uni::square4s(), &BASIC, 2, &[[2, 2]], few, 0),
            plan(uni::lshape(), &BASIC, 2, &[[1, 2]], few, 1),
            plan(uni::diag2(), &BASIC, 2, &[[2, 2]], few, 0),
            plan(uni::ring8(), &BASIC, 1, &[[2, 2]], few, 1),
            plan(uni::unit(), &BASIC, 1, &[[7, 5], [4, 9], [12, 12]], &[[1, 1]], 1),
        ]
    } else {
        vec![
            plan(uni::unit(), &BASIC, 2, &[[1, 1], [2, 2]], few, 1),
            plan(uni::rect1(), &ALL, 1, &[[1, 2], [4, 3]], few, 1),
            plan(uni::horiz2s(), &BASIC, 2, &[[2, 2]], few, 0),
            plan(uni::horiz2(), &BASIC, 1, &[[1, 1], [3, 2]], few, 1),
            plan(uni::vert2s(), &BASIC, 2, &[[2, 1]], few, 0),
            plan(uni::odd2(), &ALL, 1, &[[2, 3]], few, 1),
            plan(uni::square4s(), &BASIC, 1, &[[2, 2]], few, 1),
            plan(uni::diag2(), &BASIC, 1, &[[2, 2]], few, 0),
            plan(uni::unit(), &BASIC, 1, &[[7, 5]], &[[1, 1]], 0),
        ]
    };
    for p in &plans {
        for_cases(&ctx, p, &f);
    }
    // deep trees: functions of ancestors far above the leaves
    let one = |s: &St| fields_case(&ctx, s, &[[3, 2]], s.r.elems.len() <= 64);
    for (g, cells) in crate::c_dom::deep_grids() {
        let v = deep_states(&ctx, &g, ctx.pick(1, 2), 15, cells.map(|c| (c, ctx.pick(8, 12))), ctx.pick(4, 2));
        for_states(&ctx, &v, &[[1, 2]], &[], 0, &one);
        let v = lead_states(&ctx, &g, &(0..g.cells.len().min(2)).collect::<Vec<_>>(), 15);
        for_states(&ctx, &v, &[[2, 2]], &[], 0, &one);
        let v = globals(&ctx, &g, 3, ctx.pick(60, 400));
        for_states(&ctx, &v, &[[2, 1]], &[], 0, &one);
    }
    // many cells, high orders, other sizes of the domain
    let plain = |s: &St| fields_case(&ctx, s, &[[2, 3], [4, 2]], false);
    for g in [uni::block(17, 16), uni::block(70, 1), uni::block(1, 70)] {
        for_cases(&ctx, &plan(g, &BASIC, 0, &[[2, 2], [1, 3]], &[], 0), &plain);
    }
    for (f, x, y) in [(1e3, 0.0, 0.0), (0.01, 0.0, 0.0), (1.0, 1e4, -1e4), (300.0, -1e3, 7.0)] {
        for g in [uni::horiz2(), uni::square4s()] {
            for_cases(&ctx, &plan(g.scaled(f, x, y), &BASIC, 1, &[[2, 3]], few, 0), &one);
        }
    }
    let top: Vec<[u8; 2]> = if ctx.thorough() { crate::c_dom::all_orders(20) } else { (1..=20).flat_map(|n| [[n, 1], [2, n], [n, n]]).collect() };
    for_cases(&ctx, &plan(uni::unit(), &BASIC, 0, &top, &[], 0), &plain);
    for_cases(&ctx, &plan(uni::horiz2s(), &BASIC, 0, &[[20, 3], [3, 20], [13, 17]], &[], 0), &plain);
    // many densities on a few meshes
    let all: Vec<[usize; 2]> = (2..=ctx.pick(7, 12)).flat_map(|a| (2..=ctx.pick(7, 12)).map(move |b| [a, b])).chain([[2, 40], [33, 2], [17, 20]]).collect();
    let g = |s: &St| fields_case(&ctx, s, &all, false);
    for p in [plan(uni::horiz2s(), &BASIC, 1, &[[2, 2]], few, 0), plan(uni::odd2(), &BASIC, 1, &[[1, 3]], few, 0)] {
        for_cases(&ctx, &p, &g);
    }
    // more than 65536 points, cells and elements in one file
    for (g, o, d) in [(uni::unit(), [2, 2], [300, 250]), (uni::unit(), [1, 2], [2, 40000]), (uni::unit(), [2, 1], [35000, 2]), (uni::block(130, 130), [1, 1], [2, 2]), (uni::horiz2s(), [2, 1], [4, 9000])] {
        for_cases(&ctx, &plan(g, &BASIC, 0, &[o], &[], 0), &|s: &St| fields_case(&ctx, s, &[d], false));
    }
    huge(&ctx, false, &|_, s: &St| fields_case(&ctx, s, &[[2, 2]], false));
    ctx.finish(
        "model_checking",
        "every refinement tree to the stated depth x order assignments within the deviation bound x densities; every unit solution vector and a general one; the exported files are parsed, points, cells and values are judged against rectangles and closed-form functions; all sequences of field operations to the stated depth; every byte at which writing can fail",
        &["densities below two points per direction are not judged (a grid that includes both ends has at least two)", "values are compared to 1e-10 of the largest on the mesh and to the printed digits", "points, cells and elements may come in any order"],
    )
}

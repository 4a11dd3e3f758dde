//! Observation of the library's mesh through its public surface, and comparison with the reference model.
use crate::refm::*;
use fem_2d::fem_domain::domain::mesh::h_refinement::HRefLoc;
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::prelude::*;
use std::collections::HashMap;
use std::fmt::Write;

macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
pub(crate) use ensure;

/// correspondence between reference elements and library ids, by walking both forests
#[derive(Clone, Debug, Default)]
pub struct Map {
    pub real: Vec<usize>, // ref -> real
    pub refi: Vec<usize>, // real -> ref
}

pub fn build_map(mesh: &Mesh, r: &RefMesh) -> Result<Map, String> {
    ensure!(mesh.elems.len() == r.elems.len(), "mesh has {} elements, expected {}", mesh.elems.len(), r.elems.len());
    let mut m = Map { real: vec![usize::MAX; r.elems.len()], refi: vec![usize::MAX; r.elems.len()] };
    let mut stack: Vec<(usize, usize)> = (0..r.cells.len()).map(|k| (k, k)).collect();
    while let Some((re, id)) = stack.pop() {
        ensure!(id < mesh.elems.len(), "child id {} does not exist", id);
        ensure!(m.refi[id] == usize::MAX, "element {} appears twice in the hierarchy", id);
        m.real[re] = id;
        m.refi[id] = re;
        let kids = mesh.elems[id].child_ids().map(|c| c.to_vec()).unwrap_or_default();
        ensure!(
            kids.len() == r.elems[re].children.len(),
            "element {} has {} children, expected {}",
            id,
            kids.len(),
            r.elems[re].children.len()
        );
        for (a, b) in r.elems[re].children.iter().zip(kids) {
            stack.push((*a, b));
        }
    }
    Ok(m)
}

pub fn loc_of(l: HRefLoc) -> Loc {
    match l {
        HRefLoc::SW => Loc::SW,
        HRefLoc::SE => Loc::SE,
        HRefLoc::NW => Loc::NW,
        HRefLoc::NE => Loc::NE,
        HRefLoc::W => Loc::W,
        HRefLoc::E => Loc::E,
        HRefLoc::S => Loc::S,
        HRefLoc::N => Loc::N,
    }
}

pub fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-11 * scale
}

fn param_range(r: &RefMesh, e: usize, from: usize) -> [[f64; 2]; 2] {
    let a = r.elems[e].rect;
    let b = r.elems[from].rect;
    let f = |x: i64, lo: i64, hi: i64| -1.0 + 2.0 * (x - lo) as f64 / (hi - lo) as f64;
    [[f(a[0], b[0], b[1]), f(a[1], b[0], b[1])], [f(a[2], b[2], b[3]), f(a[3], b[2], b[3])]]
}

/// C03: geometry and hierarchy
pub fn check_geometry(mesh: &Mesh, r: &RefMesh, m: &Map) -> Result<(), String> {
    for (e, el) in r.elems.iter().enumerate() {
        let id = m.real[e];
        let k = &mesh.elems[id];
        ensure!(k.id == id, "element at index {} has id {}", id, k.id);
        let rr = r.real_rect(e);
        let want = [[rr[0], rr[2]], [rr[1], rr[2]], [rr[0], rr[3]], [rr[1], rr[3]]];
        let scale = (rr[1] - rr[0]).abs().max(rr[0].abs()).max(rr[2].abs()).max(rr[3].abs());
        let pts = mesh.elem_points(id).map_err(|e| e.to_string())?;
        for c in 0..4 {
            ensure!(
                close(pts[c].x, want[c][0], scale) && close(pts[c].y, want[c][1], scale),
                "element {} corner {} is at {:?}, expected {:?}",
                id,
                c,
                (pts[c].x, pts[c].y),
                want[c]
            );
        }
        ensure!(k.has_children() == !el.children.is_empty(), "element {} has_children() = {}", id, k.has_children());
        ensure!(k.h_levels.u == el.lu && k.h_levels.v == el.lv, "element {} has levels {:?}, expected ({}, {})", id, k.h_levels, el.lu, el.lv);
        ensure!(k.parent_id() == el.parent.map(|(p, _)| m.real[p]), "element {} reports parent {:?}", id, k.parent_id());
        let mut stack: Vec<(usize, Loc)> = vec![];
        let mut c = e;
        while let Some((p, l)) = r.elems[c].parent {
            stack.push((m.real[p], l));
            c = p;
        }
        stack.reverse();
        let got: Vec<(usize, Loc)> = k.loc_stack().iter().map(|(i, l)| (*i, loc_of(*l))).collect();
        ensure!(got == stack, "element {} has ancestor path {:?}, expected {:?}", id, got, stack);
        ensure!(k.element.id == el.root, "element {} belongs to cell {}, expected {}", id, k.element.id, el.root);
        ensure!(
            std::sync::Arc::ptr_eq(&k.element, &mesh.elements[el.root]) || k.element.points == mesh.elements[el.root].points,
            "element {} does not share the geometry of its cell",
            id
        );
        ensure!(
            k.get_materials().eps_rel == mesh.elements[el.root].materials.eps_rel && k.get_materials().mu_rel == mesh.elements[el.root].materials.mu_rel,
            "element {} does not have its cell's materials",
            id
        );
        ensure!(k.parametric_range() == param_range(r, e, el.root), "element {} has parametric range {:?}, expected {:?}", id, k.parametric_range(), param_range(r, e, el.root));
        for a in r.ancestors(e) {
            let g = k.relative_parametric_range(m.real[a]);
            ensure!(g == param_range(r, e, a), "element {} has range {:?} relative to {}, expected {:?}", id, g, m.real[a], param_range(r, e, a));
        }
    }
    Ok(())
}

/// int positions of all nodes and edges of the library's mesh
pub struct Located {
    pub node: Vec<Pos>,
    pub edge: Vec<Seg>,
    pub node_at: HashMap<Pos, usize>,
    pub edge_at: HashMap<Seg, usize>,
}

pub fn locate(mesh: &Mesh, r: &RefMesh) -> Result<Located, String> {
    let mut l = Located { node: vec![], edge: vec![], node_at: HashMap::new(), edge_at: HashMap::new() };
    for (i, n) in mesh.nodes.iter().enumerate() {
        ensure!(n.id == i, "node at index {} has id {}", i, n.id);
        let p = match (to_int(&r.xs, n.coords.x), to_int(&r.ys, n.coords.y)) {
            (Some(x), Some(y)) => (x, y),
            _ => return Err(format!("node {} at ({}, {}) is not at a refinement position", i, n.coords.x, n.coords.y)),
        };
        if let Some(j) = l.node_at.insert(p, i) {
            return Err(format!("nodes {} and {} are both at ({}, {})", j, i, n.coords.x, n.coords.y));
        }
        l.node.push(p);
    }
    for (i, e) in mesh.edges.iter().enumerate() {
        ensure!(e.id == i, "edge at index {} has id {}", i, e.id);
        ensure!(e.nodes[0] < l.node.len() && e.nodes[1] < l.node.len(), "edge {} refers to missing nodes {:?}", i, e.nodes);
        let s = (l.node[e.nodes[0]], l.node[e.nodes[1]]);
        ensure!(
            (s.0 .0 == s.1 .0 && s.0 .1 < s.1 .1) || (s.0 .1 == s.1 .1 && s.0 .0 < s.1 .0),
            "edge {} does not run from its lower/left to its upper/right end: {:?}",
            i,
            s
        );
        if let Some(j) = l.edge_at.insert(s, i) {
            return Err(format!("edges {} and {} have the same end points", j, i));
        }
        l.edge.push(s);
    }
    Ok(l)
}

/// C04: shared nodes and edges, edge tree, boundary flags, incidence lists
pub fn check_topology(mesh: &Mesh, r: &RefMesh, m: &Map) -> Result<(), String> {
    let l = locate(mesh, r)?;
    let t = r.topology();
    ensure!(l.node.len() == t.nodes.len(), "mesh has {} nodes, expected {}", l.node.len(), t.nodes.len());
    ensure!(l.edge.len() == t.edges.len(), "mesh has {} edges, expected {}", l.edge.len(), t.edges.len());
    for (e, el) in r.elems.iter().enumerate() {
        let k = &mesh.elems[m.real[e]];
        for (c, p) in RefMesh::corners(&el.rect).iter().enumerate() {
            ensure!(l.node_at.get(p) == Some(&k.nodes[c]), "element {} corner {} is node {}, expected {:?}", k.id, c, k.nodes[c], l.node_at.get(p));
        }
        for (c, s) in RefMesh::sides(&el.rect).iter().enumerate() {
            ensure!(l.edge_at.get(s) == Some(&k.edges[c]), "element {} side {} is edge {}, expected {:?}", k.id, c, k.edges[c], l.edge_at.get(s));
        }
    }
    for (s, re) in &t.edges {
        let id = match l.edge_at.get(s) {
            Some(i) => *i,
            None => return Err(format!("no edge at {:?}", s)),
        };
        let e = &mesh.edges[id];
        let horiz = is_horizontal(s);
        ensure!((e.dir == ParaDir::U) == horiz, "edge {} has direction {:?}", id, e.dir);
        let len = if horiz { to_real(&r.xs, s.1 .0) - to_real(&r.xs, s.0 .0) } else { to_real(&r.ys, s.1 .1) - to_real(&r.ys, s.0 .1) };
        ensure!((e.length - len).abs() <= 1e-9 * len, "edge {} has length {}, expected {}", id, e.length, len);
        let b = r.seg_on_boundary(*s);
        ensure!(e.boundary == b, "edge {} has boundary flag {}", id, e.boundary);
        ensure!(e.parent_id() == re.parent.map(|p| l.edge_at[&p]), "edge {} has parent {:?}, expected {:?}", id, e.parent_id(), re.parent.map(|p| l.edge_at[&p]));
        let kids = e.child_ids().map(|c| c.to_vec());
        let want = re.children.map(|c| c.iter().map(|s| l.edge_at.get(s).copied().unwrap_or(usize::MAX)).collect::<Vec<_>>());
        ensure!(kids == want, "edge {} has children {:?}, expected {:?}", id, kids, want);
        ensure!(e.has_children() == want.is_some(), "edge {} has_children() = {}", id, e.has_children());
        let wc = re.children.map(|c| l.node_at[&c[0].1]);
        ensure!(e.child_node_id() == wc, "edge {} has midpoint node {:?}, expected {:?}", id, e.child_node_id(), wc);
        if re.parent.is_none() {
            ensure!(e.is_boundary() == b, "edge {} is_boundary() = {}", id, e.is_boundary());
        }
        // incidence, keyed by level: across the edge first
        let js = e.to_json();
        for side in 0..2 {
            let got: Vec<([u8; 2], usize)> = js["elems"][side]
                .members()
                .map(|o| ([o["level_key"][0].as_u8().unwrap_or(255), o["level_key"][1].as_u8().unwrap_or(255)], o["cell_id"].as_usize().unwrap_or(usize::MAX)))
                .collect();
            let want: Vec<([u8; 2], usize)> = re.sides[side]
                .iter()
                .map(|&q| {
                    let el = &r.elems[q];
                    (if horiz { [el.lv, el.lu] } else { [el.lu, el.lv] }, m.real[q])
                })
                .collect();
            ensure!(got == want, "edge {} side {} lists elements {:?}, expected {:?}", id, side, got, want);
        }
    }
    for (p, lists) in &t.nodes {
        let id = match l.node_at.get(p) {
            Some(i) => *i,
            None => return Err(format!("no node at {:?}", p)),
        };
        let n = &mesh.nodes[id];
        ensure!(n.boundary == r.node_on_boundary(*p), "node {} has boundary flag {}", id, n.boundary);
        let js = n.to_json();
        for c in 0..4 {
            let got: Vec<usize> = js["elems"][c].members().map(|v| v.as_usize().unwrap_or(usize::MAX)).collect();
            let want: Vec<usize> = lists[c].iter().map(|&e| m.real[e]).collect();
            ensure!(got == want, "node {} corner list {} is {:?}, expected {:?}", id, c, got, want);
        }
    }
    Ok(())
}

/// C05: active edges
pub fn check_activation(mesh: &Mesh, r: &RefMesh, m: &Map) -> Result<(), String> {
    let l = locate(mesh, r)?;
    let t = r.topology();
    let act = t.active(r);
    for (s, id) in &l.edge_at {
        let e = &mesh.edges[*id];
        let want = act.get(s).map(|p| [m.real[p[0]], m.real[p[1]]]);
        ensure!(e.active_elem_pair() == want, "edge {} ({:?}) has active pair {:?}, expected {:?}", id, s, e.active_elem_pair(), want);
        if let Some([a, b]) = want {
            ensure!(e.other_active_elem_id(a) == Some(b) && e.other_active_elem_id(b) == Some(a), "edge {}: wrong active partner", id);
            ensure!(mesh.elems[a].edges.contains(id) && mesh.elems[b].edges.contains(id), "edge {}: an active element does not have this edge", id);
        } else {
            ensure!(e.other_active_elem_id(0).is_none(), "inactive edge {} has an active partner", id);
        }
    }
    // independent of the recursion above: covered exactly once (measured in integer lengths)
    let mut cover: HashMap<Seg, i64> = HashMap::new();
    for s in l.edge.iter().filter(|s| mesh.edges[l.edge_at[*s]].active_elem_pair().is_some()) {
        let mut root = *s;
        while let Some(p) = t.edges[&root].parent {
            root = p;
        }
        ensure!(!r.seg_on_boundary(root), "boundary edge {:?} is active", s);
        *cover.entry(root).or_insert(0) += (s.1 .0 - s.0 .0) + (s.1 .1 - s.0 .1);
        let mut q = *s;
        while let Some(p) = t.edges[&q].parent {
            ensure!(mesh.edges[l.edge_at[&p]].active_elem_pair().is_none(), "an edge and its ancestor are both active");
            q = p;
        }
    }
    for (s, e) in &t.edges {
        if e.parent.is_none() && !r.seg_on_boundary(*s) {
            let len = (s.1 .0 - s.0 .0) + (s.1 .1 - s.0 .1);
            ensure!(cover.get(s) == Some(&len), "interior edge {:?} is not covered exactly once by active edges", s);
        }
    }
    Ok(())
}

/// the complete observable state of a mesh, as text (exact)
pub fn dump(mesh: &Mesh) -> String {
    let mut s = String::with_capacity(4096);
    for e in &mesh.elems {
        let _ = writeln!(
            s,
            "L{} n{:?} e{:?} c{:?} p{:?} st{:?} h{}/{} o{}/{} el{} r{:?}",
            e.id,
            e.nodes,
            e.edges,
            e.child_ids().map(|c| c.to_vec()),
            e.parent_id(),
            e.loc_stack(),
            e.h_levels.u,
            e.h_levels.v,
            e.poly_orders.ni,
            e.poly_orders.nj,
            e.element.id,
            e.parametric_range()
        );
    }
    for e in &mesh.edges {
        let js = e.to_json();
        let _ = writeln!(
            s,
            "E{} n{:?} b{} d{:?} l{:x} c{:?} p{:?} m{:?} a{:?} i{}",
            e.id,
            e.nodes,
            e.boundary,
            e.dir,
            e.length.to_bits(),
            e.child_ids().map(|c| c.to_vec()),
            e.parent_id(),
            e.child_node_id(),
            e.active_elem_pair(),
            js["elems"].dump()
        );
    }
    for n in &mesh.nodes {
        let js = n.to_json();
        let _ = writeln!(s, "N{} x{:x} y{:x} b{} i{}", n.id, n.coords.x.to_bits(), n.coords.y.to_bits(), n.boundary, js["elems"].dump());
    }
    for e in &mesh.elements {
        let _ = writeln!(s, "C{} {:?} {:?} {:?}", e.id, e.points.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>(), e.materials.eps_rel, e.materials.mu_rel);
    }
    s
}

//! The reference model: an explicit forest of integer rectangles. It knows nothing about the library's edges, nodes or ids;
//! everything the properties expect (nodes, edges, incidence, activation, degrees of freedom) is derived from the rectangles.
use crate::uni::Grid;
use std::collections::{BTreeMap, BTreeSet};

/// integer units per grid square (allows 36 halvings)
pub const UNIT: i64 = 1 << 36;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Kind {
    T,
    U,
    V,
    U0,
    U1,
    V0,
    V1,
}
pub const BASIC: [Kind; 3] = [Kind::T, Kind::U, Kind::V];
pub const ALL: [Kind; 7] = [Kind::T, Kind::U, Kind::V, Kind::U0, Kind::U1, Kind::V0, Kind::V1];

impl Kind {
    pub fn href(self) -> fem_2d::prelude::HRef {
        use fem_2d::prelude::HRef;
        match self {
            Kind::T => HRef::T,
            Kind::U => HRef::U(None),
            Kind::V => HRef::V(None),
            Kind::U0 => HRef::U(Some(0)),
            Kind::U1 => HRef::U(Some(1)),
            Kind::V0 => HRef::V(Some(0)),
            Kind::V1 => HRef::V(Some(1)),
        }
    }
    pub fn base(self) -> Kind {
        match self {
            Kind::T => Kind::T,
            Kind::U | Kind::U0 | Kind::U1 => Kind::U,
            Kind::V | Kind::V0 | Kind::V1 => Kind::V,
        }
    }
    pub fn ext(self) -> Option<usize> {
        match self {
            Kind::U0 | Kind::V0 => Some(0),
            Kind::U1 | Kind::V1 => Some(1),
            _ => None,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Kind::T => "T",
            Kind::U => "U",
            Kind::V => "V",
            Kind::U0 => "U0",
            Kind::U1 => "U1",
            Kind::V0 => "V0",
            Kind::V1 => "V1",
        }
    }
    /// least refinement covering both requests
    pub fn join(self, o: Kind) -> Kind {
        if self.base() != o.base() {
            return Kind::T;
        }
        match (self.ext(), o.ext()) {
            (None, _) => o,
            (_, None) => self,
            (Some(a), Some(b)) if a == b => self,
            _ => Kind::T,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Loc {
    SW,
    SE,
    NW,
    NE,
    W,
    E,
    S,
    N,
}

/// x0, x1, y0, y1
pub type Rect = [i64; 4];
pub type Pos = (i64, i64);
/// an axis-parallel segment, lower/left end first
pub type Seg = (Pos, Pos);

#[derive(Clone, Debug)]
pub struct RefElem {
    pub root: usize,
    pub rect: Rect,
    pub parent: Option<(usize, Loc)>,
    pub children: Vec<usize>,
    pub kind: Option<Kind>, // T, U or V
    pub lu: u8,
    pub lv: u8,
    pub orders: [u8; 2],
}

#[derive(Clone, Debug)]
pub struct RefMesh {
    pub xs: Vec<f64>,
    pub ys: Vec<f64>,
    pub cells: Vec<(usize, usize)>,
    squares: std::sync::Arc<std::collections::HashSet<(i64, i64)>>,
    pub elems: Vec<RefElem>,
}

pub fn to_real(lines: &[f64], p: i64) -> f64 {
    let mut g = (p / UNIT) as usize;
    if g + 1 >= lines.len() {
        g = lines.len() - 2;
    }
    let o = p - g as i64 * UNIT;
    if o == UNIT {
        return lines[g + 1];
    }
    lines[g] + (lines[g + 1] - lines[g]) * (o as f64 / UNIT as f64)
}

/// inverse of to_real; None if the coordinate is not (to rounding) a dyadic position of the grid
pub fn to_int(lines: &[f64], x: f64) -> Option<i64> {
    // the lines increase: start one interval before the first that can contain x
    let from = lines.partition_point(|l| *l < x).saturating_sub(2);
    // an interval that contains x, or else one that nearly does
    for near in [0.0, 1e-9] {
        for g in from..lines.len() - 1 {
            let (a, b) = (lines[g], lines[g + 1]);
            let tol = near * (b - a);
            if x >= a - tol && x <= b + tol {
                let t = (x - a) / (b - a) * UNIT as f64;
                let r = t.round();
                if (t - r).abs() > 1e-2 {
                    return None;
                }
                return Some(g as i64 * UNIT + r as i64);
            }
        }
    }
    None
}

impl RefMesh {
    pub fn from_grid(g: &Grid) -> Self {
        let elems = g
            .cells
            .iter()
            .enumerate()
            .map(|(k, &(i, j))| RefElem {
                root: k,
                rect: [i as i64 * UNIT, (i as i64 + 1) * UNIT, j as i64 * UNIT, (j as i64 + 1) * UNIT],
                parent: None,
                children: vec![],
                kind: None,
                lu: 0,
                lv: 0,
                orders: [1, 1],
            })
            .collect();
        let squares = std::sync::Arc::new(g.cells.iter().map(|&(i, j)| (i as i64, j as i64)).collect());
        Self { xs: g.xs.clone(), ys: g.ys.clone(), cells: g.cells.clone(), squares, elems }
    }
    pub fn leaves(&self) -> Vec<usize> {
        (0..self.elems.len()).filter(|&e| self.elems[e].children.is_empty()).collect()
    }
    pub fn real_rect(&self, e: usize) -> [f64; 4] {
        let r = self.elems[e].rect;
        [to_real(&self.xs, r[0]), to_real(&self.xs, r[1]), to_real(&self.ys, r[2]), to_real(&self.ys, r[3])]
    }
    fn add(&mut self, parent: usize, loc: Loc, rect: Rect, du: u8, dv: u8) -> usize {
        let p = self.elems[parent].clone();
        let id = self.elems.len();
        self.elems.push(RefElem {
            root: p.root,
            rect,
            parent: Some((parent, loc)),
            children: vec![],
            kind: None,
            lu: p.lu + du,
            lv: p.lv + dv,
            orders: p.orders,
        });
        self.elems[parent].children.push(id);
        id
    }
    pub fn refine(&mut self, e: usize, kind: Kind) {
        assert!(self.elems[e].children.is_empty());
        let [x0, x1, y0, y1] = self.elems[e].rect;
        let (xm, ym) = ((x0 + x1) / 2, (y0 + y1) / 2);
        self.elems[e].kind = Some(kind.base());
        match kind.base() {
            Kind::T => {
                self.add(e, Loc::SW, [x0, xm, y0, ym], 1, 1);
                self.add(e, Loc::SE, [xm, x1, y0, ym], 1, 1);
                self.add(e, Loc::NW, [x0, xm, ym, y1], 1, 1);
                self.add(e, Loc::NE, [xm, x1, ym, y1], 1, 1);
            }
            Kind::U => {
                let a = self.add(e, Loc::W, [x0, xm, y0, y1], 1, 0);
                let b = self.add(e, Loc::E, [xm, x1, y0, y1], 1, 0);
                if let Some(i) = kind.ext() {
                    self.refine([a, b][i], Kind::V);
                }
            }
            Kind::V => {
                let a = self.add(e, Loc::S, [x0, x1, y0, ym], 0, 1);
                let b = self.add(e, Loc::N, [x0, x1, ym, y1], 0, 1);
                if let Some(i) = kind.ext() {
                    self.refine([a, b][i], Kind::U);
                }
            }
            _ => unreachable!(),
        }
    }
    /// combined batch of requests on leaves
    pub fn refine_batch(&mut self, reqs: &[(usize, Kind)]) {
        let mut m: BTreeMap<usize, Kind> = BTreeMap::new();
        for &(e, k) in reqs {
            m.entry(e).and_modify(|c| *c = c.join(k)).or_insert(k);
        }
        for (e, k) in m {
            self.refine(e, k);
        }
    }
    fn canon_rec(&self, e: usize, orders: bool, s: &mut String) {
        let el = &self.elems[e];
        s.push(match el.kind {
            None => '.',
            Some(Kind::T) => 'T',
            Some(Kind::U) => 'U',
            Some(_) => 'V',
        });
        if orders {
            s.push((b'a' + el.orders[0]) as char);
            s.push((b'a' + el.orders[1]) as char);
        }
        for &c in &el.children {
            self.canon_rec(c, orders, s);
        }
    }
    /// canonical form: shape of each root's tree (and orders)
    pub fn canon(&self, orders: bool) -> String {
        let mut s = String::new();
        for r in 0..self.cells.len() {
            self.canon_rec(r, orders, &mut s);
            s.push('|');
        }
        s
    }
    pub fn ancestors(&self, e: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut c = e;
        while let Some((p, _)) = self.elems[c].parent {
            v.push(p);
            c = p;
        }
        v
    }
    pub fn descendants(&self, e: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut st = vec![e];
        while let Some(c) = st.pop() {
            for &k in &self.elems[c].children {
                v.push(k);
                st.push(k);
            }
        }
        v
    }
    /// sides in the documented order S, N, W, E
    pub fn sides(r: &Rect) -> [Seg; 4] {
        [((r[0], r[2]), (r[1], r[2])), ((r[0], r[3]), (r[1], r[3])), ((r[0], r[2]), (r[0], r[3])), ((r[1], r[2]), (r[1], r[3]))]
    }
    /// corners SW, SE, NW, NE
    pub fn corners(r: &Rect) -> [Pos; 4] {
        [(r[0], r[2]), (r[1], r[2]), (r[0], r[3]), (r[1], r[3])]
    }
    /// is the grid square containing the infinitesimal quadrant at p in direction (sx, sy) part of the domain?
    fn occupied(&self, p: Pos, sx: i64, sy: i64) -> bool {
        let fx = (2 * p.0 + sx).div_euclid(2 * UNIT);
        let fy = (2 * p.1 + sy).div_euclid(2 * UNIT);
        self.squares.contains(&(fx, fy))
    }
    pub fn node_on_boundary(&self, p: Pos) -> bool {
        let n = [(-1, -1), (1, -1), (-1, 1), (1, 1)].iter().filter(|(a, b)| self.occupied(p, *a, *b)).count();
        n < 4
    }
    pub fn seg_on_boundary(&self, s: Seg) -> bool {
        let mid = ((s.0 .0 + s.1 .0) / 2, (s.0 .1 + s.1 .1) / 2);
        if s.0 .1 == s.1 .1 {
            !(self.occupied(mid, 1, 1) && self.occupied(mid, 1, -1))
        } else {
            !(self.occupied(mid, 1, 1) && self.occupied(mid, -1, 1))
        }
    }
    pub fn topology(&self) -> Topo {
        let mut t = Topo { nodes: BTreeMap::new(), edges: BTreeMap::new() };
        for (e, el) in self.elems.iter().enumerate() {
            for (k, p) in Self::corners(&el.rect).iter().enumerate() {
                t.nodes.entry(*p).or_insert_with(|| [vec![], vec![], vec![], vec![]])[k].push(e);
            }
            for (k, s) in Self::sides(&el.rect).iter().enumerate() {
                let side = if k == 0 || k == 2 { 1 } else { 0 };
                t.edges.entry(*s).or_insert_with(|| RefEdge { sides: [vec![], vec![]], parent: None, children: None }).sides[side].push(e);
            }
        }
        // nested elements: order from least to most refined
        for lists in t.nodes.values_mut() {
            for l in lists.iter_mut() {
                l.sort_by_key(|&e| (self.elems[e].lu as u32 + self.elems[e].lv as u32, e));
            }
        }
        for ed in t.edges.values_mut() {
            for l in ed.sides.iter_mut() {
                l.sort_by_key(|&e| (self.elems[e].lu as u32 + self.elems[e].lv as u32, e));
            }
        }
        // splits
        let mut splits: BTreeSet<Seg> = BTreeSet::new();
        for el in &self.elems {
            let sd = Self::sides(&el.rect);
            match el.kind {
                Some(Kind::T) => splits.extend(sd),
                Some(Kind::U) => splits.extend([sd[0], sd[1]]),
                Some(Kind::V) => splits.extend([sd[2], sd[3]]),
                _ => {}
            }
        }
        for s in splits {
            let m = ((s.0 .0 + s.1 .0) / 2, (s.0 .1 + s.1 .1) / 2);
            let (a, b) = ((s.0, m), (m, s.1));
            t.edges.get_mut(&s).unwrap().children = Some([a, b]);
            for c in [a, b] {
                t.edges.get_mut(&c).unwrap().parent = Some(s);
            }
        }
        t
    }
}

#[derive(Clone, Debug)]
pub struct RefEdge {
    /// elements on the lower/left side and on the upper/right side, least refined first
    pub sides: [Vec<usize>; 2],
    pub parent: Option<Seg>,
    pub children: Option<[Seg; 2]>,
}

#[derive(Clone, Debug)]
pub struct Topo {
    pub nodes: BTreeMap<Pos, [Vec<usize>; 4]>,
    pub edges: BTreeMap<Seg, RefEdge>,
}

impl Topo {
    fn supported(&self, s: &Seg) -> bool {
        let e = &self.edges[s];
        !e.sides[0].is_empty() && !e.sides[1].is_empty()
    }
    fn act(&self, s: Seg, out: &mut BTreeMap<Seg, [usize; 2]>) {
        let e = &self.edges[&s];
        if let Some(c) = e.children {
            if self.supported(&c[0]) && self.supported(&c[1]) {
                self.act(c[0], out);
                self.act(c[1], out);
                return;
            }
        }
        out.insert(s, [*e.sides[0].last().unwrap(), *e.sides[1].last().unwrap()]);
    }
    /// active edges with their pair [lower/left, upper/right]
    pub fn active(&self, m: &RefMesh) -> BTreeMap<Seg, [usize; 2]> {
        let mut out = BTreeMap::new();
        for (s, e) in &self.edges {
            if e.parent.is_none() && !m.seg_on_boundary(*s) {
                self.act(*s, &mut out);
            }
        }
        out
    }
}

pub fn is_horizontal(s: &Seg) -> bool {
    s.0 .1 == s.1 .1
}

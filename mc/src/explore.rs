//! Exhaustive breadth-first exploration of refinement histories of the real mesh, in lock step with the reference model.
use crate::ctx::*;
use crate::obs::*;
use crate::refm::*;
use crate::uni::Grid;
use fem_2d::prelude::*;
use std::collections::HashSet;
use std::sync::Mutex;

#[derive(Clone)]
pub struct St {
    pub mesh: Mesh,
    pub r: RefMesh,
    pub m: Map,
    /// refinements of every leaf that came before `hist`, as text
    pub pre: String,
    pub hist: Vec<(usize, Kind)>,
    pub grid: String,
}

/// a refinement is left out when a side it halves is shorter than this, the size limit (refusals belong to C07)
pub const SHORTEST: f64 = 2.0 * fem_2d::fem_domain::domain::mesh::MIN_EDGE_LENGTH;

impl St {
    pub fn start(ctx: &Ctx, g: &Grid) -> Result<Self, String> {
        let mesh = g.load(ctx);
        let r = RefMesh::from_grid(g);
        let m = build_map(&mesh, &r)?;
        Ok(Self { mesh, r, m, pre: String::new(), hist: vec![], grid: g.name.clone() })
    }
    pub fn case(&self) -> String {
        let h: Vec<String> = self.hist.iter().map(|(e, k)| format!("{}{}", e, k.name())).collect();
        format!("{}:{}{}", self.grid, self.pre, h.join(","))
    }
    pub fn halvable(&self, e: usize, k: Kind) -> bool {
        let r = self.r.real_rect(e);
        let (w, h) = (r[1] - r[0], r[3] - r[2]);
        let (x, y) = (k.base() != Kind::V, k.base() != Kind::U);
        if k.ext().is_some() {
            return w > SHORTEST && h > SHORTEST;
        }
        (!x || w >= SHORTEST) && (!y || h >= SHORTEST)
    }
    /// every leaf `e` becomes can still be refined in any way
    pub fn roomy(&self, e: usize) -> bool {
        let r = self.r.real_rect(e);
        (r[1] - r[0]).min(r[3] - r[2]) >= 2.0 * SHORTEST
    }
    /// every leaf refined in the same way through the global method (only before any single refinement)
    pub fn global(&self, k: Kind) -> Result<St, String> {
        assert!(self.hist.is_empty());
        let mut n = self.clone();
        n.pre += &format!("all{},", k.name());
        guard(|| n.mesh.global_h_refinement(k.href())).map_err(|p| format!("refining every leaf by {} panicked: {}", k.name(), p))?;
        for e in self.r.leaves() {
            n.r.refine(e, k);
        }
        n.m = build_map(&n.mesh, &n.r)?;
        Ok(n)
    }
    /// one accepted refinement on both sides
    pub fn step(&self, e: usize, k: Kind) -> Result<St, String> {
        let mut n = self.clone();
        n.hist.push((e, k));
        let id = self.m.real[e];
        guard(|| n.mesh.execute_h_refinements(vec![(id, k.href())]))
            .map_err(|p| format!("refining element {} by {} panicked: {}", id, k.name(), p))?
            .map_err(|er| format!("refining element {} by {} was refused: {}", id, k.name(), er))?;
        n.r.refine(e, k);
        n.m = build_map(&n.mesh, &n.r)?;
        Ok(n)
    }
    /// several leaves refined in the same way at once
    pub fn batch(&self, l: &[usize], k: Kind) -> Result<St, String> {
        let mut n = self.clone();
        n.hist.extend(l.iter().map(|e| (*e, k)));
        let ids: Vec<(usize, fem_2d::prelude::HRef)> = l.iter().map(|e| (self.m.real[*e], k.href())).collect();
        guard(|| n.mesh.execute_h_refinements(ids)).map_err(|p| format!("refining {} elements by {} panicked: {}", l.len(), k.name(), p))?.map_err(|er| format!("refining {} elements by {} was refused: {}", l.len(), k.name(), er))?;
        for e in l {
            n.r.refine(*e, k);
        }
        n.m = build_map(&n.mesh, &n.r)?;
        Ok(n)
    }
    pub fn replay(ctx: &Ctx, g: &Grid, hist: &[(usize, Kind)]) -> Result<St, String> {
        let mut s = St::start(ctx, g)?;
        for &(e, k) in hist {
            s = s.step(e, k)?;
        }
        Ok(s)
    }
    pub fn leaf_real_ids(&self) -> Vec<usize> {
        self.r.leaves().into_iter().map(|e| self.m.real[e]).collect()
    }
}

pub struct Opts<'a> {
    pub kinds: &'a [Kind],
    pub depth: usize,
    /// merge states whose refinement trees are the same (numbering may differ)
    pub dedupe: bool,
}

/// `visit(previous, state)` is called on every transition (previous = None for the start state), before merging.
/// `expand(state)` is called once per distinct state.
pub fn explore(
    ctx: &Ctx,
    g: &Grid,
    o: &Opts,
    visit: &(dyn Fn(Option<&St>, &St) -> Result<(), String> + Sync),
    expand: &(dyn Fn(&St) -> Result<(), String> + Sync),
) {
    let only = ctx.only.clone();
    if let Some(c) = &only {
        if c.split(':').next() != Some(g.name.as_str()) {
            return;
        }
    }
    let start = match St::start(ctx, g) {
        Ok(s) => s,
        Err(e) => {
            ctx.violate(format!("{}:", g.name), e);
            return;
        }
    };
    explore_from(ctx, start, o, visit, expand)
}

/// as `explore`, from a given state
pub fn explore_from(
    ctx: &Ctx,
    start: St,
    o: &Opts,
    visit: &(dyn Fn(Option<&St>, &St) -> Result<(), String> + Sync),
    expand: &(dyn Fn(&St) -> Result<(), String> + Sync),
) {
    let only = ctx.only.clone();
    ctx.state();
    ctx.valid();
    if !ctx.check(&|| start.case(), visit(None, &start)) || !ctx.check(&|| start.case(), expand(&start)) {
        return;
    }
    let mut frontier = vec![start];
    let mut seen: HashSet<String> = HashSet::new();
    seen.insert(frontier[0].r.canon(false));
    for d in 0..o.depth {
        if ctx.stopped() {
            return;
        }
        let last = d + 1 == o.depth;
        let seen_m = Mutex::new(std::mem::take(&mut seen));
        let next: Mutex<Vec<St>> = Mutex::new(vec![]);
        par_for(ctx, &frontier, |s| {
            for e in s.r.leaves() {
                for &k in o.kinds {
                    if ctx.stopped() {
                        return;
                    }
                    if !s.halvable(e, k) {
                        continue;
                    }
                    let mut tag = s.hist.clone();
                    tag.push((e, k));
                    let case = || {
                        let h: Vec<String> = tag.iter().map(|(e, k)| format!("{}{}", e, k.name())).collect();
                        format!("{}:{}{}", s.grid, s.pre, h.join(","))
                    };
                    if let Some(c) = &only {
                        if !(c == &case() || c.starts_with(&(case() + ","))) {
                            continue;
                        }
                    }
                    ctx.step();
                    let n = match s.step(e, k) {
                        Ok(n) => n,
                        Err(w) => {
                            ctx.violate(case(), w);
                            return;
                        }
                    };
                    ctx.valid();
                    let vis = guard(|| visit(Some(s), &n)).unwrap_or_else(|p| Err(format!("panic: {p}")));
                    if !ctx.check(&case, vis) {
                        return;
                    }
                    let fresh = !o.dedupe || seen_m.lock().unwrap().insert(n.r.canon(false));
                    if fresh {
                        ctx.state();
                        ctx.sample(|| n.case());
                        let ex = guard(|| expand(&n)).unwrap_or_else(|p| Err(format!("panic: {p}")));
                        if !ctx.check(&case, ex) {
                            return;
                        }
                        if !last {
                            next.lock().unwrap().push(n);
                        }
                    }
                }
            }
        });
        seen = seen_m.into_inner().unwrap();
        frontier = next.into_inner().unwrap();
        // deterministic order, whatever the thread timing
        frontier.sort_by(|a, b| a.hist.len().cmp(&b.hist.len()).then_with(|| a.hist.cmp(&b.hist)));
    }
}

/// as `collect`, ignoring the single-case filter (which names a case built on top of these states)
pub fn collect_with(ctx: &Ctx, g: &Grid, kinds: &[Kind], depth: usize, dedupe: bool) -> Vec<St> {
    let start = match St::start(ctx, g) {
        Ok(s) => s,
        Err(e) => {
            ctx.violate(format!("{}:", g.name), e);
            return vec![];
        }
    };
    let mut seen = HashSet::new();
    seen.insert(start.r.canon(false));
    let mut all = vec![start];
    let mut lo = 0;
    for _ in 0..depth {
        let hi = all.len();
        for i in lo..hi {
            let s = all[i].clone();
            for e in s.r.leaves() {
                for &k in kinds {
                    ctx.step();
                    match s.step(e, k) {
                        Ok(n) => {
                            if seen.insert(n.r.canon(false)) || !dedupe {
                                all.push(n);
                            }
                        }
                        Err(w) => {
                            let mut t = s.clone();
                            t.hist.push((e, k));
                            ctx.violate(t.case(), w);
                            return vec![];
                        }
                    }
                }
            }
        }
        lo = hi;
    }
    all
}

/// all distinct refinement trees up to a depth, as states (deduplicated)
pub fn collect(ctx: &Ctx, g: &Grid, kinds: &[Kind], depth: usize) -> Vec<St> {
    let out: Mutex<Vec<St>> = Mutex::new(vec![]);
    let quiet = |s: &St| -> Result<(), String> {
        out.lock().unwrap().push(s.clone());
        Ok(())
    };
    explore(ctx, g, &Opts { kinds, depth, dedupe: true }, &|_, _| Ok(()), &quiet);
    let mut v = out.into_inner().unwrap();
    v.sort_by(|a, b| a.hist.len().cmp(&b.hist.len()).then_with(|| a.hist.cmp(&b.hist)));
    v
}

// ---- deep histories

/// follow one child: refine, then go on with that child
pub const MOVES: [(Kind, usize); 8] = [(Kind::T, 0), (Kind::T, 1), (Kind::T, 2), (Kind::T, 3), (Kind::U, 0), (Kind::U, 1), (Kind::V, 0), (Kind::V, 1)];

/// one move of a chain at element `at`; None when the size limit is near
pub fn chain_step(s: &St, at: usize, mv: (Kind, usize)) -> Option<Result<(St, usize), String>> {
    if !s.halvable(at, mv.0) {
        return None;
    }
    Some(s.step(at, mv.0).map(|n| {
        let c = n.r.elems[at].children[mv.1];
        (n, c)
    }))
}

/// Deep histories: every chain with a periodic pattern of one or two moves in cell `cell` (`period` 1 or 2), up to `len` refinements;
/// f(previous, state) after every refinement, and the final states returned.
pub fn chains(ctx: &Ctx, g: &Grid, cell: usize, period: usize, len: usize, f: &(dyn Fn(Option<&St>, &St) -> Result<(), String> + Sync)) -> Vec<St> {
    let mut pats: Vec<[(Kind, usize); 2]> = vec![];
    for a in MOVES {
        for b in MOVES {
            if a == b || period > 1 {
                pats.push([a, b]);
            }
        }
    }
    run_patterns(ctx, g, &pats, len, f, &|_, pos| pos, cell, None)
}

/// Deep histories in two cells at once: a constant pattern in each, alternating (`alternate`) or one after the other
pub fn twin_chains(ctx: &Ctx, g: &Grid, cells: [usize; 2], len: usize, alternate: bool, f: &(dyn Fn(Option<&St>, &St) -> Result<(), String> + Sync)) -> Vec<St> {
    let mut pats: Vec<[(Kind, usize); 2]> = vec![];
    for a in MOVES {
        for b in MOVES {
            pats.push([a, b]);
        }
    }
    let order = move |k: usize, _: usize| if alternate { k % 2 } else { (k >= len / 2) as usize };
    run_patterns(ctx, g, &pats, len, f, &order, cells[0], Some(cells[1]))
}

/// the second walker starts where the first one is
const LEAD: usize = usize::MAX;

fn run_patterns(
    ctx: &Ctx,
    g: &Grid,
    pats: &[[(Kind, usize); 2]],
    len: usize,
    f: &(dyn Fn(Option<&St>, &St) -> Result<(), String> + Sync),
    which: &(dyn Fn(usize, usize) -> usize + Sync),
    cell: usize,
    second: Option<usize>,
) -> Vec<St> {
    let ends: Mutex<Vec<St>> = Mutex::new(vec![]);
    let start = match St::start(ctx, g) {
        Ok(s) => s,
        Err(e) => {
            ctx.violate(format!("{}:", g.name), e);
            return vec![];
        }
    };
    par_for(ctx, pats, |p| {
        let mut s = start.clone();
        let mut at = [cell, second.unwrap_or(cell)];
        for k in 0..len {
            if ctx.stopped() {
                return;
            }
            // a single chain alternates its moves; twin chains alternate (or not) between the cells
            let (mv, w) = match second {
                None => (p[k % 2], 0),
                Some(_) => {
                    let w = which(k, 0);
                    (p[w], w)
                }
            };
            let (n, c) = match chain_step(&s, at[w], mv) {
                None => break,
                Some(Ok(x)) => x,
                Some(Err(e)) => {
                    let mut t = s.clone();
                    t.hist.push((at[w], mv.0));
                    ctx.violate(t.case(), e);
                    return;
                }
            };
            ctx.step();
            ctx.state();
            let skip = ctx.only.as_ref().map_or(false, |c| !c.starts_with(&n.case()));
            if !skip {
                ctx.valid();
                let r = guard(|| f(Some(&s), &n)).unwrap_or_else(|p| Err(format!("panic: {p}")));
                if !ctx.check(&|| n.case(), r) {
                    return;
                }
            }
            at[w] = c;
            if at[1] == LEAD {
                at[1] = c;
            }
            s = n;
        }
        ctx.sample(|| s.case());
        ends.lock().unwrap().push(s);
    });
    let mut v = ends.into_inner().unwrap();
    v.sort_by(|a, b| a.hist.len().cmp(&b.hist.len()).then_with(|| a.hist.cmp(&b.hist)));
    v
}

/// Deep histories with a first move of another kind: every pair (first move, repeated move) in cell `cell`, so that edges
/// activated near the start lie far above the last leaf
pub fn lead_chains(ctx: &Ctx, g: &Grid, cell: usize, len: usize, f: &(dyn Fn(Option<&St>, &St) -> Result<(), String> + Sync)) -> Vec<St> {
    let mut pats: Vec<[(Kind, usize); 2]> = vec![];
    for a in MOVES {
        for b in MOVES {
            if a != b {
                pats.push([a, b]);
            }
        }
    }
    // the two entries stand for two walkers in the same cell: the first is only used once
    let order = |k: usize, _: usize| (k > 0) as usize;
    run_patterns(ctx, g, &pats, len, f, &order, cell, Some(LEAD))
}

/// every sequence of up to `depth` refinements of all leaves (kinds T, U, V), with at most `max` elements
pub fn globals(ctx: &Ctx, g: &Grid, depth: usize, max: usize) -> Vec<St> {
    let mut all = match St::start(ctx, g) {
        Ok(s) => vec![s],
        Err(e) => {
            ctx.violate(format!("{}:", g.name), e);
            return vec![];
        }
    };
    let mut lo = 0;
    for _ in 0..depth {
        let hi = all.len();
        for i in lo..hi {
            for k in BASIC {
                ctx.step();
                match all[i].global(k) {
                    Ok(n) => {
                        if n.r.elems.len() <= max {
                            ctx.state();
                            all.push(n)
                        }
                    }
                    Err(w) => {
                        ctx.violate(format!("{}all{}", all[i].case(), k.name()), w);
                        return vec![];
                    }
                }
            }
        }
        lo = hi;
    }
    all.remove(0);
    all
}

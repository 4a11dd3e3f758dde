//! Refinement trees x expansion-order assignments, enumerated within a deviation bound.
use crate::ctx::*;
use crate::explore::*;
use crate::refm::*;
use crate::uni::Grid;
use fem_2d::prelude::*;

/// every assignment that is uniform (one of `bases`) except at at most `dev` elements, which take any order of `alt`
pub fn assignments(n: usize, bases: &[[u8; 2]], alt: &[[u8; 2]], dev: usize) -> Vec<Vec<[u8; 2]>> {
    let mut out: Vec<Vec<[u8; 2]>> = vec![];
    for b in bases {
        let v = vec![*b; n];
        out.push(v.clone());
        if dev >= 1 {
            for p in 0..n {
                for a in alt {
                    if a == b {
                        continue;
                    }
                    let mut w = v.clone();
                    w[p] = *a;
                    out.push(w.clone());
                    if dev >= 2 {
                        for q in p + 1..n {
                            for c in alt {
                                if c == b {
                                    continue;
                                }
                                let mut x = w.clone();
                                x[q] = *c;
                                out.push(x);
                            }
                        }
                    }
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

pub struct Plan {
    pub grid: Grid,
    pub kinds: &'static [Kind],
    pub depth: usize,
    pub max_elems: usize,
    pub bases: Vec<[u8; 2]>,
    pub alt: Vec<[u8; 2]>,
    pub dev: usize,
    /// merge equal trees reached by different histories
    pub dedupe: bool,
}

/// give the state these orders (indexed by reference element) through the library's setter
pub fn with_orders(s: &St, o: &[[u8; 2]]) -> Result<St, String> {
    let mut n = s.clone();
    let mut v = vec![];
    for (e, x) in o.iter().enumerate() {
        n.r.elems[e].orders = *x;
        v.push((s.m.real[e], Orders::new(x[0], x[1])));
    }
    guard(|| n.mesh.set_expansion_orders(v)).map_err(|p| format!("setting orders panicked: {p}"))?.map_err(|e| format!("setting orders was refused: {e}"))?;
    for (e, x) in o.iter().enumerate() {
        let g = &n.mesh.elems[s.m.real[e]].poly_orders;
        if [g.ni, g.nj] != *x {
            return Err(format!("element {} has orders {:?} after setting {:?}", s.m.real[e], [g.ni, g.nj], x));
        }
    }
    Ok(n)
}

pub fn case_name(s: &St) -> String {
    let o: Vec<String> = s.r.elems.iter().map(|e| format!("{}.{}", e.orders[0], e.orders[1])).collect();
    format!("{} orders {}", s.case(), o.join(" "))
}

/// f is called for every tree and assignment of the plan, in parallel
pub fn for_cases(ctx: &Ctx, p: &Plan, f: &(dyn Fn(&St) -> Result<(), String> + Sync)) {
    let states: Vec<St> = collect_with(ctx, &p.grid, p.kinds, p.depth, p.dedupe).into_iter().filter(|s| s.r.elems.len() <= p.max_elems).collect();
    for_states(ctx, &states, &p.bases, &p.alt, p.dev, f)
}

/// f is called for every given tree with every assignment
pub fn for_states(ctx: &Ctx, states: &[St], bases: &[[u8; 2]], alt: &[[u8; 2]], dev: usize, f: &(dyn Fn(&St) -> Result<(), String> + Sync)) {
    let only = ctx.only.clone();
    // one task per tree, or per assignment when there are few trees
    let mut tasks: Vec<(usize, Option<Vec<[u8; 2]>>)> = vec![];
    for (k, s) in states.iter().enumerate() {
        if states.len() >= 64 {
            tasks.push((k, None));
        } else {
            tasks.extend(assignments(s.r.elems.len(), bases, alt, dev).into_iter().map(|o| (k, Some(o))));
        }
    }
    par_for(ctx, &tasks, |(k, o)| {
        let s = &states[*k];
        let list = match o {
            Some(o) => vec![o.clone()],
            None => assignments(s.r.elems.len(), bases, alt, dev),
        };
        for o in list {
            if ctx.stopped() {
                return;
            }
            let t = match with_orders(s, &o) {
                Ok(t) => t,
                Err(w) => {
                    ctx.violate(s.case(), w);
                    return;
                }
            };
            if let Some(c) = &only {
                if !c.starts_with(&case_name(&t)) {
                    continue;
                }
            }
            ctx.state();
            ctx.sample(|| case_name(&t));
            let r = guard(|| f(&t)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
            if !ctx.check(&|| case_name(&t), r) {
                return;
            }
        }
    });
}

/// the states met along single chains and twin chains (constant patterns), every `every` refinements and at the end
pub fn deep_states(ctx: &Ctx, g: &crate::uni::Grid, period: usize, len: usize, twin: Option<([usize; 2], usize)>, every: usize) -> Vec<St> {
    let out = std::sync::Mutex::new(vec![]);
    let keep = |_: Option<&St>, s: &St| {
        if s.hist.len() % every == 0 {
            out.lock().unwrap().push(s.clone());
        }
        Ok(())
    };
    // the single-case filter names an assignment on top of these histories
    chains(ctx, g, 0, period, len, &keep);
    if let Some((cells, l)) = twin {
        twin_chains(ctx, g, cells, l, true, &keep);
        twin_chains(ctx, g, cells, l, false, &keep);
    }
    let mut v: Vec<St> = out.into_inner().unwrap();
    v.sort_by(|a, b| a.hist.len().cmp(&b.hist.len()).then_with(|| a.hist.cmp(&b.hist)));
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(s.hist.clone()));
    v
}

/// the last states of the chains whose first move is of another kind, in every given cell
pub fn lead_states(ctx: &Ctx, g: &crate::uni::Grid, cells: &[usize], len: usize) -> Vec<St> {
    let mut v: Vec<St> = cells.iter().flat_map(|c| lead_chains(ctx, g, *c, len, &|_, _| Ok(()))).collect();
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(s.hist.clone()));
    v
}

/// chains of up to 35 halvings of one element in vast cells
pub fn vast_states(ctx: &Ctx, g: &crate::uni::Grid, every: usize) -> Vec<St> {
    let mut v = deep_states(ctx, g, 1, 35, None, every);
    v.retain(|s| s.hist.len() > 15);
    v
}

/// one cell refined as a whole `depth` times while its neighbours stay as they are: functions of one element overlap those of all
/// its many descendants
pub fn one_sided(ctx: &Ctx, g: &crate::uni::Grid, cell: usize, kinds: &[Kind]) -> Option<St> {
    let mut s = match St::start(ctx, g) {
        Ok(s) => s,
        Err(w) => {
            ctx.violate(format!("{}:", g.name), w);
            return None;
        }
    };
    for k in kinds {
        let l: Vec<usize> = s.r.leaves().into_iter().filter(|e| s.r.elems[*e].root == cell).collect();
        ctx.step();
        match s.batch(&l, *k) {
            Ok(n) => s = n,
            Err(w) => {
                ctx.violate(s.case(), w);
                return None;
            }
        }
    }
    Some(s)
}

/// meshes with more than 65536 elements, nodes and edges: one cell refined as a whole eight times, then a single refinement of the
/// last leaf; and (`file`) a mesh of more than 65536 cells. `f(previous, state)` is called on each.
pub fn huge(ctx: &Ctx, file: bool, f: &(dyn Fn(Option<&St>, &St) -> Result<(), String> + Sync)) {
    let go = |prev: Option<&St>, s: &St| -> bool {
        if ctx.only.as_ref().map_or(false, |c| !c.starts_with(&s.case())) {
            return true;
        }
        ctx.state();
        ctx.valid();
        let r = guard(|| f(prev, s)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
        ctx.check(&|| s.case(), r)
    };
    let fail = |case: String, w: String| ctx.violate(case, w);
    let wide = || {
        let mut s = match St::start(ctx, &crate::uni::unit()) {
            Ok(s) => s,
            Err(w) => return fail("unit:".into(), w),
        };
        for _ in 0..8 {
            ctx.step();
            s = match s.global(Kind::T) {
                Ok(n) => n,
                Err(w) => return fail(s.case() + "allT", w),
            };
        }
        if !go(None, &s) {
            return;
        }
        for k in [Kind::T, Kind::V0] {
            let e = *s.r.leaves().last().unwrap();
            ctx.step();
            match s.step(e, k) {
                Ok(n) => {
                    if !go(Some(&s), &n) {
                        return;
                    }
                }
                Err(w) => return fail(format!("{}{}{}", s.case(), e, k.name()), w),
            }
        }
    };
    let imported = || {
        if file {
            match St::start(ctx, &crate::uni::block(260, 256)) {
                Ok(s) => {
                    go(None, &s);
                }
                Err(w) => fail("block260x256:".into(), w),
            }
        }
    };
    std::thread::scope(|t| {
        t.spawn(wide);
        t.spawn(imported);
    });
}

pub fn domain(s: &St) -> Result<Domain, String> {
    guard(|| Domain::from_mesh(s.mesh.clone(), ContinuityCondition::HCurl)).map_err(|p| format!("building the domain panicked: {p}"))
}

//! Start meshes ("universes"): every one is an arrangement of cells on a grid, written as a mesh file and imported by the library.
use crate::ctx::Ctx;
use fem_2d::prelude::Mesh;

/// A grid arrangement: cell k occupies grid square (i, j). Nodes are numbered by `node_order` (a permutation of the used grid corners).
#[derive(Clone, Debug)]
pub struct Grid {
    pub name: String,
    pub xs: Vec<f64>,
    pub ys: Vec<f64>,
    pub cells: Vec<(usize, usize)>,
    pub materials: Vec<[f64; 4]>,
    /// grid corners (i, j) in node-id order
    pub nodes: Vec<(usize, usize)>,
    /// use Mesh::unit() instead of a file
    pub unit: bool,
}

impl Grid {
    pub fn new(name: &str, xs: &[f64], ys: &[f64], cells: &[(usize, usize)]) -> Self {
        let used: std::collections::HashSet<(usize, usize)> = cells.iter().flat_map(|&(i, j)| [(i, j), (i + 1, j), (i, j + 1), (i + 1, j + 1)]).collect();
        let mut nodes = Vec::new();
        for j in 0..ys.len() {
            for i in 0..xs.len() {
                if used.contains(&(i, j)) {
                    nodes.push((i, j));
                }
            }
        }
        let materials = (0..cells.len()).map(|k| [1.0 + 0.5 * k as f64, 0.25 * k as f64, 2.0 - 0.25 * k as f64, -0.5 * k as f64]).collect();
        Self { name: name.into(), xs: xs.to_vec(), ys: ys.to_vec(), cells: cells.to_vec(), materials, nodes, unit: false }
    }
    pub fn node_id(&self, c: (usize, usize)) -> usize {
        self.nodes.iter().position(|n| *n == c).unwrap()
    }
    pub fn cell_nodes(&self, k: usize) -> [usize; 4] {
        let (i, j) = self.cells[k];
        [self.node_id((i, j)), self.node_id((i + 1, j)), self.node_id((i, j + 1)), self.node_id((i + 1, j + 1))]
    }
    /// the corner nodes SW, SE, NW, NE of every cell
    pub fn all_cell_nodes(&self) -> Vec<[usize; 4]> {
        let id: std::collections::HashMap<(usize, usize), usize> = self.nodes.iter().enumerate().map(|(k, c)| (*c, k)).collect();
        self.cells.iter().map(|&(i, j)| [id[&(i, j)], id[&(i + 1, j)], id[&(i, j + 1)], id[&(i + 1, j + 1)]]).collect()
    }
    pub fn file_text(&self) -> String {
        let corners = self.all_cell_nodes();
        let mut s = String::from("{ \"Elements\": [");
        for k in 0..self.cells.len() {
            if k > 0 {
                s.push(',');
            }
            let m = self.materials[k];
            s += &format!("{{\"materials\": [{:?},{:?},{:?},{:?}], \"node_ids\": {:?}}}", m[0], m[1], m[2], m[3], corners[k]);
        }
        s += "], \"Nodes\": [";
        for (n, &(i, j)) in self.nodes.iter().enumerate() {
            if n > 0 {
                s.push(',');
            }
            s += &format!("[{:?},{:?}]", self.xs[i], self.ys[j]);
        }
        s += "]}";
        s
    }
    /// the same arrangement with all coordinates multiplied by `f` and then moved by (dx, dy)
    pub fn scaled(&self, f: f64, dx: f64, dy: f64) -> Self {
        let mut g = self.clone();
        g.name = format!("{}*{:e}+{:e},{:e}", self.name, f, dx, dy);
        g.unit = false;
        g.xs.iter_mut().for_each(|x| *x = *x * f + dx);
        g.ys.iter_mut().for_each(|x| *x = *x * f + dy);
        g
    }
    pub fn load(&self, ctx: &Ctx) -> Mesh {
        if self.unit {
            return Mesh::unit();
        }
        let path = ctx.scratch.join(format!("{}.json", self.name.replace(['*', '+', ','], "_")));
        std::fs::write(&path, self.file_text()).unwrap();
        Mesh::from_file(path.to_str().unwrap()).unwrap()
    }
}

pub fn unit() -> Grid {
    let mut g = Grid::new("unit", &[-1.0, 1.0], &[-1.0, 1.0], &[(0, 0)]);
    g.materials[0] = [1.0, 0.0, 1.0, 0.0];
    g.unit = true;
    g
}
pub fn rect1() -> Grid {
    let mut g = Grid::new("rect1", &[0.5, 2.5], &[-0.25, 0.25], &[(0, 0)]);
    g.materials[0] = [3.0, 0.5, 0.5, 0.25];
    g
}
pub fn horiz2() -> Grid {
    Grid::new("horiz2", &[-1.0, 0.0, 2.0], &[0.0, 0.5], &[(0, 0), (1, 0)])
}
pub fn vert2() -> Grid {
    Grid::new("vert2", &[1.0, 3.0], &[-2.0, -1.0, 1.0], &[(0, 0), (0, 1)])
}
pub fn lshape() -> Grid {
    Grid::new("lshape", &[0.0, 1.0, 3.0], &[0.0, 2.0, 2.5], &[(0, 0), (1, 0), (0, 1)])
}
pub fn square4() -> Grid {
    Grid::new("square4", &[-1.0, 0.5, 1.0], &[-0.5, 0.0, 2.0], &[(0, 0), (1, 0), (0, 1), (1, 1)])
}
/// cells and nodes listed in a scrambled order
pub fn square4s() -> Grid {
    let mut g = square4();
    g.name = "square4s".into();
    g.cells = vec![(1, 1), (0, 0), (0, 1), (1, 0)];
    g.nodes = vec![(2, 1), (0, 2), (1, 1), (0, 0), (2, 2), (1, 0), (0, 1), (2, 0), (1, 2)];
    g
}
pub fn horiz2s() -> Grid {
    let mut g = horiz2();
    g.name = "horiz2s".into();
    g.cells = vec![(1, 0), (0, 0)];
    g.nodes = vec![(1, 1), (2, 0), (0, 1), (0, 0), (2, 1), (1, 0)];
    g
}
pub fn vert2s() -> Grid {
    let mut g = vert2();
    g.name = "vert2s".into();
    g.cells = vec![(0, 1), (0, 0)];
    g.nodes = vec![(1, 2), (0, 0), (1, 1), (0, 2), (0, 1), (1, 0)];
    g
}
/// w x h cells, row by row
pub fn block(w: usize, h: usize) -> Grid {
    let xs: Vec<f64> = (0..=w).map(|k| 0.5 * k as f64).collect();
    let ys: Vec<f64> = (0..=h).map(|k| 0.25 * k as f64 - 3.0).collect();
    let cells: Vec<(usize, usize)> = (0..h).flat_map(|j| (0..w).map(move |i| (i, j))).collect();
    Grid::new(&format!("block{w}x{h}"), &xs, &ys, &cells)
}
/// two cells that touch at one corner only
pub fn diag2() -> Grid {
    Grid::new("diag2", &[0.0, 1.0, 2.0], &[0.0, 1.0, 2.0], &[(0, 0), (1, 1)])
}
/// eight cells around a hole
pub fn ring8() -> Grid {
    Grid::new(
        "ring8",
        &[0.0, 1.0, 2.0, 3.0],
        &[0.0, 1.0, 2.0, 3.0],
        &[(0, 0), (1, 0), (2, 0), (0, 1), (2, 1), (0, 2), (1, 2), (2, 2)],
    )
}
/// non-dyadic coordinates
pub fn odd2() -> Grid {
    Grid::new("odd2", &[-0.1, 0.7, 1.9], &[-2.1, 0.3], &[(0, 0), (1, 0)])
}
/// cells so large that they can be halved some 35 times
pub fn vast() -> Vec<Grid> {
    [unit().scaled(524288.0, 0.0, 0.0), horiz2s().scaled(524288.0, 0.0, 0.0), vert2().scaled(262144.0, 0.0, 0.0)]
        .into_iter()
        .map(|mut g| {
            for m in g.materials.iter_mut() {
                (m[1], m[3]) = (0.0, 0.0);
            }
            g
        })
        .collect()
}
pub fn by_name(n: &str) -> Option<Grid> {
    [unit(), rect1(), horiz2(), vert2(), lshape(), square4(), square4s(), horiz2s(), vert2s(), diag2(), ring8(), odd2()].into_iter().find(|g| g.name == n)
}

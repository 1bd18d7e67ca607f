//! Definition-based model of the tree: cells are computed recursively from the set of data.
use crate::world::Box4;

/// What the model needs to know about one datum: its box, and for a point tree just the point.
pub type B = Box4;

#[derive(Debug)]
pub struct Cell {
    pub b: Box4,
    pub depth: u32,
    /// Data held directly.
    pub own: Vec<usize>,
    pub kids: Option<Box<[Cell; 4]>>,
}

pub struct Model {
    pub root: Cell,
    pub points: bool,
    pub boxes: Vec<B>,
    /// Absolute uncertainty of a computed dividing line that is not exact.
    fuzz: f64,
    /// Rounding to the numeric type.
    round: fn(f64) -> f64,
    /// Set when some datum is so close to an inexact dividing line that rounding decides.
    pub ambiguous: bool,
}

/// a + b and whether it is exact in the rounding `r` (both operands representable).
fn exact_sum(r: fn(f64) -> f64, a: f64, b: f64) -> (f64, bool) {
    let s = a + b;
    // TwoSum error term in f64
    let bb = s - a;
    let err = (a - (s - bb)) + (b - bb);
    (r(s), err == 0.0 && r(s) == s)
}
/// Middle of [lo, hi] and whether it was computed exactly.
fn middle(r: fn(f64) -> f64, lo: f64, hi: f64) -> (f64, bool) {
    let (w, e1) = exact_sum(r, hi, -lo);
    let h = w / 2.0;
    let e2 = r(h) == h && h * 2.0 == w;
    let (m, e3) = exact_sum(r, lo, r(h));
    (m, e1 && e2 && e3)
}

impl Model {
    pub fn new(
        boxes: Vec<B>,
        points: bool,
        bounds: Box4,
        max_depth: u32,
        cap: usize,
        fuzz: f64,
        round: fn(f64) -> f64,
    ) -> Model {
        let mut m = Model {
            root: Cell { b: bounds, depth: 0, own: vec![], kids: None },
            points,
            boxes,
            fuzz,
            round,
            ambiguous: false,
        };
        let all = (0..m.boxes.len()).collect();
        let root = m.build(bounds, 0, all, max_depth, cap);
        m.root = root;
        m
    }

    fn quads(&self, b: Box4) -> ([Box4; 4], (f64, f64), (bool, bool)) {
        let (mx, ex) = middle(self.round, b.0, b.2);
        let (my, ey) = middle(self.round, b.1, b.3);
        (
            [
                (b.0, b.1, mx, my),
                (mx, b.1, b.2, my),
                (mx, my, b.2, b.3),
                (b.0, my, mx, b.3),
            ],
            (mx, my),
            (ex, ey),
        )
    }

    /// Quadrant index of a datum, whether it fits wholly, and whether rounding could decide.
    fn place(&self, d: B, q: &[Box4; 4], m: (f64, f64), ex: (bool, bool)) -> (usize, bool, bool) {
        let mut amb = false;
        let mut axis = |lo: f64, hi: f64, mid: f64, exact: bool| -> bool {
            if !exact && ((lo - mid).abs() <= self.fuzz || (hi - mid).abs() <= self.fuzz) {
                amb = true;
            }
            if self.points {
                return lo <= mid;
            }
            let (c, cex) = {
                let (w, e1) = exact_sum(self.round, hi, -lo);
                let h = w / 2.0;
                let (c, e2) = exact_sum(self.round, lo, (self.round)(h));
                (c, e1 && e2 && (self.round)(h) == h)
            };
            // the centre only matters when the datum does not straddle the line
            if (!cex || !exact)
                && (c - mid).abs() <= self.fuzz
                && !(lo < mid - self.fuzz && hi > mid + self.fuzz)
            {
                amb = true;
            }
            c <= mid
        };
        let left = axis(d.0, d.2, m.0, ex.0);
        let top = axis(d.1, d.3, m.1, ex.1);
        let i = match (left, top) {
            (true, true) => 0,
            (false, true) => 1,
            (false, false) => 2,
            (true, false) => 3,
        };
        let b = q[i];
        let fits = d.0 >= b.0 && d.1 >= b.1 && d.2 <= b.2 && d.3 <= b.3;
        (i, fits, amb)
    }

    fn build(&mut self, b: Box4, depth: u32, data: Vec<usize>, max_depth: u32, cap: usize) -> Cell {
        if data.len() <= cap || depth >= max_depth {
            return Cell { b, depth, own: data, kids: None };
        }
        let (q, m, ex) = self.quads(b);
        let mut own = vec![];
        let mut parts: [Vec<usize>; 4] = Default::default();
        for i in data {
            let (k, fits, amb) = self.place(self.boxes[i], &q, m, ex);
            self.ambiguous |= amb;
            if self.points || fits { parts[k].push(i) } else { own.push(i) }
        }
        let [a, c, d, e] = parts;
        let kids = Box::new([
            self.build(q[0], depth + 1, a, max_depth, cap),
            self.build(q[1], depth + 1, c, max_depth, cap),
            self.build(q[2], depth + 1, d, max_depth, cap),
            self.build(q[3], depth + 1, e, max_depth, cap),
        ]);
        Cell { b, depth, own, kids: Some(kids) }
    }

    /// Answer of retrieve for a query box; the flag says rounding could decide.
    pub fn retrieve(&self, q: B) -> (Vec<usize>, bool) {
        let mut out = vec![];
        let mut amb = false;
        let mut c = &self.root;
        loop {
            if c.kids.is_none() || !self.points {
                out.extend(&c.own);
            }
            let Some(kids) = &c.kids else { break };
            let (quads, m, ex) = self.quads(c.b);
            let (k, fits, a) = self.place(q, &quads, m, ex);
            amb |= a;
            if self.points || fits {
                c = &kids[k];
            } else {
                for (i, b) in quads.iter().enumerate() {
                    if q.0 <= b.2 && b.0 <= q.2 && q.1 <= b.3 && b.1 <= q.3 {
                        collect(&kids[i], &mut out);
                    }
                    if !(ex.0 && ex.1) {
                        for (u, v) in [(q.0, m.0), (q.2, m.0), (q.1, m.1), (q.3, m.1)] {
                            amb |= (u - v).abs() <= self.fuzz;
                        }
                    }
                }
                break;
            }
        }
        (out, amb)
    }

    pub fn preorder(&self) -> Vec<Vec<usize>> {
        fn go(c: &Cell, out: &mut Vec<Vec<usize>>) {
            if !c.own.is_empty() {
                out.push(c.own.clone());
            }
            if let Some(k) = &c.kids {
                k.iter().for_each(|c| go(c, out));
            }
        }
        let mut o = vec![];
        go(&self.root, &mut o);
        o
    }

    /// (depth, low corner, number of data) of every cell in preorder.
    pub fn cells(&self) -> Vec<(u32, f64, f64, usize)> {
        fn go(c: &Cell, out: &mut Vec<(u32, f64, f64, usize)>) {
            out.push((c.depth, c.b.0, c.b.1, c.own.len()));
            if let Some(k) = &c.kids {
                k.iter().for_each(|c| go(c, out));
            }
        }
        let mut o = vec![];
        go(&self.root, &mut o);
        o
    }
}

pub fn collect(c: &Cell, out: &mut Vec<usize>) {
    out.extend(&c.own);
    if let Some(k) = &c.kids {
        k.iter().for_each(|c| collect(c, out));
    }
}

/// One parsed line of a rendering.
#[derive(Debug, Clone, PartialEq)]
pub struct Line {
    pub depth: u32,
    pub x: String,
    pub y: String,
    pub n: usize,
}
/// Parse a rendering strictly; Err describes the first malformed line.
pub fn parse_render(text: &str) -> Result<(String, Vec<Line>), String> {
    let mut it = text.split('\n');
    let title = it.next().unwrap_or("").to_string();
    let rest: Vec<&str> = it.collect();
    let mut out = vec![];
    for (i, l) in rest.iter().enumerate() {
        if l.is_empty() && i + 1 == rest.len() {
            break;
        }
        let bad = || format!("malformed rendering line {:?}", l);
        let body = l.trim_start_matches(' ');
        let ind = l.len() - body.len();
        if ind % 4 != 0 {
            return Err(bad());
        }
        let inner = body.strip_prefix('(').ok_or_else(bad)?;
        let (pos, tail) = inner.split_once("):").ok_or_else(bad)?;
        let (x, y) = pos.split_once(", ").ok_or_else(bad)?;
        let n = match tail {
            "" => 0,
            " 1 child" => 1,
            t => {
                let n: usize = t
                    .strip_prefix(' ')
                    .and_then(|t| t.strip_suffix(" children"))
                    .and_then(|t| t.parse().ok())
                    .ok_or_else(bad)?;
                if n < 2 {
                    return Err(bad());
                }
                n
            }
        };
        out.push(Line { depth: (ind / 4) as u32, x: x.into(), y: y.into(), n });
    }
    Ok((title, out))
}

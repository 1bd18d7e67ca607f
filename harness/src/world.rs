//! Generated cases: compact specs and their deterministic decoding into geometry.
use crate::geomx::{P, Sh};
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_PI_2, PI};

/// How coordinates are placed in the frame.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct World {
    /// Which bounds (index into a table for the domain in question).
    pub frame: u8,
    /// Grid resolution: 1..=6 gives 2^n steps per axis; 0 gives generic floats.
    pub grid: u8,
    /// Clustering of data: 0 none, 1 low corner, 2 high corner, 3 centre, 4 mixed, 5 off-centre,
    /// 6 ever closer to the low corner.
    pub cluster: u8,
    /// Sparse tiny displacements off the grid.
    pub jitter: bool,
    pub depth: u8,
    pub cap: u16,
    /// Use the constructor with default depth and capacity.
    pub defaults: bool,
    /// Use f32 instead of f64.
    pub single: bool,
    /// Some shapes with random vertices, many of them or many holes, and negative zeros.
    #[serde(default)]
    pub rich: bool,
}

/// One generated geometry.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    pub kind: u8,
    pub x: u16,
    pub y: u16,
    pub w: u16,
    pub h: u16,
    pub size: u8,
    pub shape: u8,
}

pub type Box4 = (f64, f64, f64, f64);

/// Bounds for planar worlds. All power-of-two sized except 4 and 8, which are generic.
pub const PLANAR: &[Box4] = &[
    (0.0, 0.0, 8.0, 8.0),
    (-8.0, -8.0, 8.0, 8.0),
    (0.0, 0.0, 1.0, 1.0),
    (-1.0, 2.0, 3.0, 4.0),
    (-1.7, 0.1, 2.3, 9.7),
    (-16.0, -4.0, 0.0, 0.0),
    (0.0, 0.0, 1024.0, 1.0),
    (-0.125, -0.5, 0.125, 0.5),
    (-180.0, -90.0, 180.0, 90.0),
    (1048576.0, -65536.0, 1048580.0, -65532.0),
    (0.0, 0.0, 9.5367431640625e-7, 9.5367431640625e-7),
    (-1073741824.0, -1073741824.0, 1073741824.0, 1073741824.0),
    (-8.0, -8.0, 0.0, 8.0),
    (0.0, -512.0, 16.0, 512.0),
];
/// Frames usable in single precision together with a fine grid.
pub const PLANAR_SINGLE: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13];

const D: f64 = PI / 180.0;
/// Bounds for spherical worlds.
pub const SPHERE: &[Box4] = &[
    (-PI, -FRAC_PI_2, PI, FRAC_PI_2),
    (0.0, 0.0, FRAC_PI_2, FRAC_PI_2),
    (-1.0, -1.0, 1.0, 1.0),
    (170.0 * D, -10.0 * D, PI, 10.0 * D),
    (-PI, 60.0 * D, -150.0 * D, FRAC_PI_2),
    (0.0, 60.0 * D, 60.0 * D, FRAC_PI_2),
    (-PI, 60.0 * D, PI, FRAC_PI_2),
    (-PI, -FRAC_PI_2, 0.0, FRAC_PI_2),
    (-FRAC_PI_2, -FRAC_PI_2, FRAC_PI_2, 0.0),
    (0.1, 1.2, 0.2, 1.3),
    (-PI, -60.0 * D, PI, 60.0 * D),
    (-PI, -FRAC_PI_2, PI, -60.0 * D),
    (0.0, -FRAC_PI_2, PI, FRAC_PI_2),
    (2.3, 48.8, 2.4, 48.9), // Paris in degrees, converted below
];
pub fn sphere_frame(i: usize) -> Box4 {
    let b = SPHERE[i % SPHERE.len()];
    if i % SPHERE.len() == 13 {
        (b.0 * D, b.1 * D, b.2 * D, b.3 * D)
    } else {
        b
    }
}

/// How many to ask for, by selector: some beyond what narrower integers hold.
pub fn many(k: u8) -> usize {
    match k {
        255 => usize::MAX,
        254 => 1 << 32,
        253 => 1 << 16,
        252 => 1 << 8,
        k => k as usize,
    }
}
impl World {
    /// The node capacity, with the same intent.
    pub fn capacity(&self) -> usize {
        match self.cap {
            65535 => usize::MAX,
            65534 => 1 << 32,
            65533 => (1 << 32) + 1,
            65532 => 1 << 16,
            c => c as usize,
        }
    }
    pub fn planar_bounds(&self) -> Box4 {
        if let (246..=251, false, 0..=40) = (self.frame, self.jitter, self.depth) {
            // enormous or minute, with representable squares
            let m = match (self.frame < 249, self.single) {
                (true, false) => 2f64.powi(200),
                (true, true) => 2f64.powi(44),
                (false, false) => 2f64.powi(-200),
                (false, true) => 2f64.powi(-24),
            };
            return match self.frame % 3 {
                0 => (0.0, 0.0, m, m),
                1 => (-m, -2.0 * m, m, 2.0 * m),
                _ => (-3.0 * m, m, m, 2.0 * m),
            };
        }
        if self.single {
            PLANAR[PLANAR_SINGLE[self.frame as usize % PLANAR_SINGLE.len()] as usize]
        } else {
            PLANAR[self.frame as usize % PLANAR.len()]
        }
    }
    pub fn sphere_bounds(&self) -> Box4 {
        sphere_frame(self.frame as usize)
    }
    /// Fraction of the frame for a raw coordinate.
    fn frac(&self, v: u16, other: u16, spec: &Spec) -> f64 {
        let mut f = if self.grid == 0 {
            v as f64 / 65535.0
        } else {
            let n = 1u32 << self.grid.min(6);
            (v as u32 % (n + 1)) as f64 / n as f64
        };
        let c = if self.cluster == 4 { [0, 0, 1, 3, 2, 5][other as usize % 6] } else { self.cluster };
        match c {
            1 => f /= 32.0,
            2 => f = 1.0 - f / 32.0,
            3 => f = 0.5 + (f - 0.5) / 64.0,
            5 => f = 0.375 + (f - 0.5) / 128.0,
            6 => f *= self.zoom(spec),
            _ => {}
        }
        if self.jitter && spec.shape % 5 == 1 {
            // 2^-10 or 2^-30 of the frame: off the grid, next to a dividing line
            let far = self.single || (spec.shape / 5) % 2 == 0;
            let e = if far { 0.0009765625 } else { 9.313225746154785e-10 };
            f += match (v >> 7) % 3 {
                0 => e,
                1 => -e,
                _ => 0.0,
            };
        }
        f.clamp(0.0, 1.0)
    }
    /// Power of two by which a datum is drawn towards the low corner.
    fn zoom(&self, s: &Spec) -> f64 {
        let most = self.depth.min(if self.single { 100 } else { 250 }) as i32 + 1;
        if self.cluster == 6 { 2f64.powi(-(s.shape as i32 % most)) } else { 1.0 }
    }
    /// Extent as a fraction of the frame.
    fn ext(&self, v: u16, spec: &Spec) -> f64 {
        // size: 0 zero, 1-3 tiny, 4-6 small, 7 medium, 8 anything
        let cap: f64 = match spec.size % 9 {
            0 => return 0.0,
            1..=3 => 1.0 / 32.0,
            4..=6 => 1.0 / 8.0,
            7 => 1.0 / 2.0,
            _ => 1.0,
        };
        if self.grid == 0 {
            v as f64 / 65535.0 * cap
        } else {
            let n = (1u32 << self.grid.min(6)) as f64;
            let steps = (cap * n).floor().max(1.0) as u32;
            (v as u32 % (steps + 1)) as f64 / n
        }
    }
    /// Box of the spec inside the frame `b`.
    fn spec_box(&self, s: &Spec, b: Box4) -> Box4 {
        let (fx, fy) = (self.frac(s.x, s.w, s), self.frac(s.y, s.w, s));
        let z = self.zoom(s);
        let (gx, gy) = ((fx + self.ext(s.w, s) * z).min(1.0), (fy + self.ext(s.h, s) * z).min(1.0));
        let at = |f: f64, lo: f64, hi: f64| if f >= 1.0 { hi } else { (lo + f * (hi - lo)).clamp(lo, hi) };
        let c = (at(fx, b.0, b.2), at(fy, b.1, b.3), at(gx, b.0, b.2), at(gy, b.1, b.3));
        if !(self.rich && self.jitter && s.shape % 5 == 2) {
            return c;
        }
        // one representable step off, but not so little that its square underflows
        let step = |v: f64, up: bool| {
            let sign = if up { 1.0 } else { -1.0 };
            if self.single {
                let w = v as f32;
                (w + sign * (w.abs().next_up() - w.abs()).max(5.5511151e-17)) as f64
            } else {
                v + sign as f64 * (v.abs().next_up() - v.abs()).max(1e-150)
            }
        };
        let off = |v: f64, n: u8, lo: f64, hi: f64| match n % 3 {
            0 => v,
            n => step(v, n == 1).clamp(lo, hi),
        };
        let (n, m) = (s.shape / 5, s.size / 9);
        let (x0, y0) = (off(c.0, n, b.0, b.2), off(c.1, n / 3, b.1, b.3));
        (x0, y0, off(c.2, m, b.0, b.2).max(x0), off(c.3, m / 3, b.1, b.3).max(y0))
    }
    /// Geometry of the spec inside the frame; `kinds` restricts the kind.
    pub fn shape(&self, s: &Spec, b: Box4, kinds: &[u8]) -> Sh {
        let k = kinds[s.kind as usize % kinds.len()];
        let b = self.spec_box(s, b);
        if !self.rich {
            return make(k, s.shape, b, None);
        }
        let key = (s.x as u64) << 48 | (s.y as u64) << 32 | (s.w as u64) << 16 | s.h as u64;
        let own = (s.size / 9) % 4 == 3;
        let g = make(k, s.shape, b, own.then(|| template(k, key.wrapping_mul(0x9e3779b97f4a7c15), self.single)));
        if s.shape % 7 != 3 {
            return g;
        }
        g.map(&|p| (if p.0 == 0.0 { -0.0 } else { p.0 }, if p.1 == 0.0 { -0.0 } else { p.1 }))
    }
    /// Round a geometry to the world's numeric type.
    pub fn round(&self, s: Sh) -> Sh {
        if !self.single {
            return s;
        }
        // A polygon too small for f32 would degenerate: use its box
        if let (Sh::Pg(_), Some(b)) = (&s, s.bbox()) {
            let ulp = f32::EPSILON as f64 * s.scale();
            if (b.2 - b.0).min(b.3 - b.1) < 1024.0 * ulp {
                return self.round(Sh::Rc((b.0, b.1), (b.2, b.3)));
            }
        }
        s.map(&|p| (p.0 as f32 as f64, p.1 as f32 as f64))
    }
    pub fn round_box(&self, b: Box4) -> Box4 {
        if self.single {
            let r = |v: f64| v as f32 as f64;
            (r(b.0), r(b.1), r(b.2), r(b.3))
        } else {
            b
        }
    }
    /// Is every coordinate exactly representable, so that answers must be exact?
    pub fn exact(&self) -> bool {
        let b = self.planar_bounds();
        self.grid > 0 && self.cluster != 6 && b != PLANAR[4] && b != PLANAR[8] && !(self.single && self.jitter)
    }
}

pub const ALL: &[u8] = &[0, 1, 2, 3, 4];

/// Unit-square templates.
const LINES: &[&[P]] = &[
    &[(0.0, 0.0), (1.0, 1.0)],
    &[(0.0, 0.0), (0.5, 1.0), (1.0, 0.0)],
    &[(0.0, 1.0), (0.0, 0.0), (1.0, 0.0), (1.0, 1.0)],
    &[(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0), (0.0, 0.0)],
    &[(0.0, 0.0), (0.0, 0.0), (1.0, 0.5), (1.0, 1.0)],
    &[
        (0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0), (0.0, 0.25), (0.75, 0.25), (0.75, 0.75), (0.25, 0.75),
    ],
    &[(0.0, 0.5), (1.0, 0.5)],
    &[(0.5, 0.5), (0.5, 0.5)],
];
const POLYS: &[&[&[P]]] = &[
    &[&[(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)]],
    &[&[(0.5, 0.0), (1.0, 0.5), (0.5, 1.0), (0.0, 0.5)]],
    &[&[(0.0, 0.0), (1.0, 0.0), (1.0, 0.5), (0.5, 0.5), (0.5, 1.0), (0.0, 1.0)]],
    &[&[(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)]],
    &[
        &[(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)],
        &[(0.25, 0.25), (0.25, 0.75), (0.75, 0.75), (0.75, 0.25)],
    ],
    &[
        &[(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)],
        &[(0.0625, 0.0625), (0.0625, 0.9375), (0.9375, 0.9375), (0.9375, 0.0625)],
    ],
    &[&[
        (0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.75, 1.0), (0.75, 0.25), (0.25, 0.25), (0.25, 1.0), (0.0, 1.0),
    ]],
    &[&[(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.5, 0.25), (0.0, 1.0)]],
    &[
        &[(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)],
        &[(0.125, 0.125), (0.375, 0.125), (0.375, 0.875), (0.125, 0.875)],
        &[(0.5, 0.125), (0.875, 0.125), (0.875, 0.875), (0.5, 0.875)],
    ],
    &[
        &[(0.5, 0.0), (1.0, 0.5), (0.5, 1.0), (0.0, 0.5)],
        &[(0.5, 0.25), (0.75, 0.5), (0.5, 0.75)],
    ],
    &[&[(0.25, 0.0), (0.75, 0.0), (1.0, 0.5), (0.75, 1.0), (0.25, 1.0), (0.0, 0.5)]],
    &[&[
        (0.25, 0.0), (0.75, 0.0), (0.75, 0.25), (1.0, 0.25), (1.0, 0.75), (0.75, 0.75), (0.75, 1.0), (0.25, 1.0),
        (0.25, 0.75), (0.0, 0.75), (0.0, 0.25), (0.25, 0.25),
    ]],
];

/// A random template: any vertices for a line string; for a polygon two chains of vertices that run
/// from left to right, and holes in the band between them.
fn template(kind: u8, key: u64, single: bool) -> Vec<Vec<P>> {
    let mut s = key | 1;
    let mut next = |n: u64| {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (s >> 33) % n
    };
    let n = match next(16) {
        0 if !single => 32,
        1 if !single => 16,
        0..=6 => 8,
        _ => 4,
    };
    if kind == 2 {
        return vec![(0..2 + next(2 * n)).map(|_| (next(17) as f64 / 16.0, next(17) as f64 / 16.0)).collect()];
    }
    let mut outer: Vec<P> = (0..=n).map(|i| (i as f64 / n as f64, next(6) as f64 / 16.0)).collect();
    outer.extend((0..=n).rev().map(|i| (i as f64 / n as f64, 1.0 - next(6) as f64 / 16.0)));
    let mut rings = vec![outer];
    let holes = next(3);
    for i in 0..n {
        if next(2) < holes {
            let (a, b) = ((4 * i + 1) as f64 / (4 * n) as f64, (4 * i + 3) as f64 / (4 * n) as f64);
            let mut h = vec![(a, 0.375), (a, 0.625), (b, 0.625), (b, 0.375)];
            let skip = next(8) as usize;
            if skip < 4 {
                h.remove(skip);
            }
            if next(2) == 0 {
                h.reverse();
            }
            rings.push(h);
        }
    }
    if next(4) == 0 {
        // vertices repeated in succession
        for ring in &mut rings {
            let i = next(2 * ring.len() as u64) as usize;
            if i < ring.len() {
                ring.insert(i, ring[i]);
            }
        }
    }
    rings
}

/// Build a geometry of the kind within a box, from the templates or the given one.
pub fn make(kind: u8, shape: u8, b: Box4, own: Option<Vec<Vec<P>>>) -> Sh {
    let (w, h) = (b.2 - b.0, b.3 - b.1);
    let flip = shape / 16;
    let at = |p: P| {
        let (mut u, mut v) = p;
        if flip & 1 != 0 {
            u = 1.0 - u;
        }
        if flip & 2 != 0 {
            v = 1.0 - v;
        }
        if flip & 4 != 0 {
            std::mem::swap(&mut u, &mut v);
        }
        let g = |f: f64, lo: f64, hi: f64, e: f64| if f == 1.0 { hi } else { (lo + f * e).min(hi) };
        (g(u, b.0, b.2, w), g(v, b.1, b.3, h))
    };
    let rev = |mut v: Vec<P>| {
        if flip & 8 != 0 {
            v.reverse();
        }
        v
    };
    match kind {
        0 => Sh::Pt((b.0, b.1)),
        1 => match shape % 4 {
            2 => Sh::Ln(at((0.0, 0.5)), at((1.0, 0.5))),
            3 => Sh::Ln(at((0.5, 0.0)), at((0.5, 1.0))),
            _ => Sh::Ln(at((0.0, 0.0)), at((1.0, 1.0))),
        },
        2 => match own {
            Some(t) => Sh::Ls(rev(t[0].iter().map(|p| at(*p)).collect())),
            None => Sh::Ls(rev(LINES[shape as usize % LINES.len()].iter().map(|p| at(*p)).collect())),
        },
        3 if w > 0.0 && h > 0.0 => {
            let t = own.unwrap_or_else(|| {
                POLYS[(shape % 16) as usize % POLYS.len()].iter().map(|r| r.to_vec()).collect()
            });
            let pg: Vec<Vec<P>> = t.iter().map(|r| rev(r.iter().map(|p| at(*p)).collect())).collect();
            // Rounding must not merge vertices of a tiny polygon
            let scale = [b.0, b.1, b.2, b.3].iter().fold(0f64, |m, v| m.max(v.abs()));
            let ok = w.min(h) > 1024.0 * f64::EPSILON * scale;
            if ok { Sh::Pg(pg) } else { Sh::Rc((b.0, b.1), (b.2, b.3)) }
        }
        _ => Sh::Rc((b.0, b.1), (b.2, b.3)),
    }
}

// ------------------------------------------------------------------ strategies

pub fn spec() -> impl Strategy<Value = Spec> + Clone {
    (any::<u8>(), any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>(), any::<u8>(), any::<u8>()).prop_map(
        |(kind, x, y, w, h, size, shape)| Spec { kind, x, y, w, h, size, shape },
    )
}
/// `n` further geometries, determined by `key`.
pub fn bulk(n: u32, key: u64) -> Vec<Spec> {
    let mut s = key | 1;
    let mut next = || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        s >> 16
    };
    (0..n)
        .map(|_| {
            let (a, b) = (next(), next());
            Spec {
                kind: (a >> 40) as u8,
                x: a as u16,
                y: (a >> 20) as u16,
                w: b as u16,
                h: (b >> 16) as u16,
                size: (b >> 32) as u8,
                shape: (b >> 40) as u8,
            }
        })
        .collect()
}
pub fn rarely(one_in: u32, most: u32) -> BoxedStrategy<u32> {
    prop_oneof![one_in - 1 => Just(0u32), 1 => 1..=most].boxed()
}
pub fn specs(small: usize, mid: usize, large: usize) -> BoxedStrategy<Vec<Spec>> {
    Union::new_weighted(vec![
        (5, proptest::collection::vec(spec(), 0..=small).boxed()),
        (5, proptest::collection::vec(spec(), 0..=mid).boxed()),
        (1, proptest::collection::vec(spec(), mid..=large).boxed()),
    ])
    .boxed()
}
pub fn depth() -> BoxedStrategy<u8> {
    prop_oneof![
        2 => 0u8..=1,
        6 => 2u8..=5,
        3 => 6u8..=12,
        1 => 13u8..=40,
    ]
    .boxed()
}
pub fn cap() -> BoxedStrategy<u16> {
    prop_oneof![
        4 => Just(0u16),
        16 => 1u16..=2,
        16 => 3u16..=6,
        4 => 7u16..=40,
        1 => prop_oneof![Just(127u16), 128u16..=255, Just(256u16), Just(512u16), 65532u16..=65535],
    ]
    .boxed()
}
pub fn world() -> BoxedStrategy<World> {
    (
        any::<u8>(),
        prop_oneof![1 => Just(0u8), 4 => 1u8..=6],
        prop_oneof![3 => Just(0u8), 3 => 1u8..=5],
        proptest::bool::weighted(0.25),
        depth(),
        cap(),
        proptest::bool::weighted(0.1),
        proptest::bool::weighted(0.2),
        proptest::bool::weighted(0.4),
    )
        .prop_map(|(frame, grid, cluster, jitter, depth, cap, defaults, single, rich)| World {
            frame, grid, cluster, jitter, depth, cap, defaults, single, rich,
        })
        .boxed()
}
/// Clamp a box into the longitude/latitude domain.
pub fn clamp_sphere(s: Sh) -> Sh {
    s.map(&|p| (p.0.clamp(-PI, PI), p.1.clamp(-FRAC_PI_2, FRAC_PI_2)))
}
/// Stretch a frame around its centre so that some queries fall outside.
pub fn widen(b: Box4) -> Box4 {
    let (w, h) = (b.2 - b.0, b.3 - b.1);
    (b.0 - w / 2.0, b.1 - h / 2.0, b.2 + w / 2.0, b.3 + h / 2.0)
}

//! C01-C06, C19 (structure part), C20: what a tree holds and where.
use crate::ensure;
use crate::geomx::*;
use crate::model::{Model, parse_render};
use crate::runner::{Obs, Verdict};
use crate::tree::*;
use crate::world::*;
use crate::{with_float, with_num};
use proptest::prelude::*;
use quadtree::{BoundsQuadTree, CalcMethod, PointQuadTree};
use serde::{Deserialize, Serialize};

/// Bounds for integer worlds; power-of-two sizes, so that halving is exact while it lasts.
pub const INTS: &[Box4] = &[
    (0.0, 0.0, 16.0, 16.0),
    (-32.0, -32.0, 32.0, 32.0),
    (0.0, 0.0, 256.0, 4.0),
    (-16384.0, -16384.0, 0.0, 0.0),
    (-8192.0, -8192.0, 8192.0, 8192.0),
    (100.0, 200.0, 116.0, 232.0),
    (0.0, 0.0, 1024.0, 1024.0),
    (-3.0, -5.0, 5.0, 3.0),
    // sums of corners overflow i16
    (20000.0, -28000.0, 28192.0, -19808.0),
];
/// Sums of corners overflow i32.
pub const INTS_WIDE: &[Box4] = &[(1.5e9, -2.0e9, 1634217728.0, -1865782272.0)];
/// Sizes that are no powers of two: dividing lines round.
pub const INTS_ODD: &[Box4] = &[(0.0, 0.0, 10.0, 10.0), (-7.0, -3.0, 4.0, 12.0), (-100.0, 3.0, 101.0, 88.0)];
pub fn int_bounds(num: u8, frame: u8) -> Box4 {
    let wide = if num % 12 > 7 { INTS_WIDE } else { &[] };
    let all: Vec<&Box4> = INTS.iter().chain(INTS_ODD).chain(wide).collect();
    *all[frame as usize % all.len()]
}

/// The bounds, now and then without any width or height.
fn frame(num: u8, w: &World) -> Box4 {
    match flat(w.frame) {
        Some(b) => b,
        None if is_int(num) => int_bounds(num, w.frame),
        None => w.round_box(w.planar_bounds()),
    }
}
pub fn flat(frame: u8) -> Option<Box4> {
    match frame {
        252 => Some((3.0, -2.0, 3.0, 14.0)),
        253 => Some((0.0, 4.0, 16.0, 4.0)),
        254 => Some((5.0, 5.0, 5.0, 5.0)),
        _ => None,
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Q {
    pub s: Spec,
    /// Repeat the geometry of a datum instead.
    pub like: Option<u16>,
    /// Draw from a frame wider than the bounds.
    pub wide: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SCase {
    pub w: World,
    pub num: u8,
    /// 0: point tree, 1: bounds tree with points, 2..: bounds tree with all kinds
    pub kind: u8,
    pub data: Vec<Spec>,
    /// Repetitions of data (index, times).
    pub dup: Vec<(u16, u8)>,
    pub queries: Vec<Q>,
    pub key: u64,
    /// So many data more.
    #[serde(default)]
    pub more: u32,
}
/// Hundreds or thousands more, or beyond what 16 bits count.
fn lots() -> BoxedStrategy<u32> {
    prop_oneof![3000 => Just(0u32), 40 => 1u32..=3000, 1 => 65_536u32..=70_000].boxed()
}

pub fn q() -> impl Strategy<Value = Q> + Clone {
    (spec(), proptest::option::weighted(0.4, any::<u16>()), proptest::bool::weighted(0.2))
        .prop_map(|(s, like, wide)| Q { s, like, wide })
}
fn scase_with(w: BoxedStrategy<World>, kinds: BoxedStrategy<u8>, sizes: (usize, usize, usize)) -> BoxedStrategy<SCase> {
    (
        w,
        0u8..36,
        kinds,
        specs(sizes.0, sizes.1, sizes.2),
        proptest::collection::vec((any::<u16>(), prop_oneof![20 => 1u8..12, 1 => 12u8..=255]), 0..4),
        proptest::collection::vec(q(), 1..8),
        any::<u64>(),
        lots(),
    )
        .prop_map(|(mut w, num, kind, data, dup, queries, key, more)| {
            if more > 65_535 {
                // few cells, so that some hold that many
                w.depth %= 2;
                w.cap = [0, 5, 65532, 65534][w.cap as usize % 4];
            }
            SCase { w, num, kind, data, dup, queries, key, more }
        })
        .boxed()
}
fn kinds() -> BoxedStrategy<u8> {
    (0u8..5).boxed()
}
pub fn scase() -> BoxedStrategy<SCase> {
    scase_with(world_zoom(), kinds(), (12, 60, 300))
}
pub fn scase_point() -> BoxedStrategy<SCase> {
    scase_with(world_zoom(), Just(0u8).boxed(), (12, 60, 300))
}
pub fn scase_bounds() -> BoxedStrategy<SCase> {
    scase_with(world_zoom(), (1u8..6).boxed(), (12, 60, 300))
}
/// Any depth up to the largest.
pub fn world_deep() -> BoxedStrategy<World> {
    (world(), prop_oneof![8 => Just(None), 1 => Just(Some(255u8)), 1 => (41u8..=255).prop_map(Some)])
        .prop_map(|(mut w, d)| {
            if let Some(d) = d {
                w.depth = d;
            }
            w
        })
        .boxed()
}
/// Any depth, and data ever closer to the low corner to fill it.
pub fn world_zoom() -> BoxedStrategy<World> {
    (world_deep(), prop_oneof![6 => Just(false), 1 => Just(true)])
        .prop_map(|(mut w, z)| {
            if z {
                w.cluster = 6;
            }
            if w.depth > 40 {
                // otherwise every single datum would divide every level
                w.cap = w.cap.max(1);
            }
            w
        })
        .boxed()
}

/// A decoded case.
pub struct Setting {
    pub bounds: Box4,
    pub cfg: Cfg,
    pub shapes: Vec<Sh>,
    pub queries: Vec<Sh>,
}
impl Setting {
    pub fn depth_cap(&self) -> (u32, usize) {
        match self.cfg {
            Some((d, c)) => (d as u32, c),
            None => (4, 4),
        }
    }
}
pub const PT: &[u8] = &[0];

fn int_round(s: Sh) -> Sh {
    s.map(&|p| (p.0.round(), p.1.round()))
}
pub fn decode(c: &SCase, clamp_depth: bool) -> Setting {
    let int = is_int(c.num);
    let mut w = c.w;
    w.single = is_single(c.num);
    let bounds = frame(c.num, &w);
    let kinds: &[u8] = if c.kind < 2 { PT } else { ALL };
    let fix = |s: Sh| if int { int_round(s) } else { w.round(s) };
    let more = bulk(c.more, c.key);
    let mut shapes: Vec<Sh> = c.data.iter().chain(&more).map(|s| fix(w.shape(s, bounds, kinds))).collect();
    if !shapes.is_empty() {
        for (i, n) in &c.dup {
            let s = shapes[*i as usize % shapes.len()].clone();
            shapes.extend(std::iter::repeat_n(s, *n as usize));
        }
    }
    let queries = c
        .queries
        .iter()
        .map(|q| match q.like {
            Some(i) if !shapes.is_empty() => shapes[i as usize % shapes.len()].clone(),
            _ => fix(w.shape(&q.s, if q.wide { widen(bounds) } else { bounds }, kinds)),
        })
        .collect();
    let mut cfg = Some((w.depth, w.capacity()));
    if int && clamp_depth {
        let side = (bounds.2 - bounds.0).min(bounds.3 - bounds.1);
        cfg = Some((w.depth.min(side.log2() as u8), w.capacity()));
    }
    if w.defaults && !(int && clamp_depth) {
        cfg = None;
    }
    Setting { bounds, cfg, shapes, queries }
}
fn fuzz_of(num: u8, b: Box4) -> f64 {
    let scale = [b.0, b.1, b.2, b.3].iter().fold(0f64, |m, v| m.max(v.abs()));
    if is_int(num) {
        0.5
    } else if is_single(num) {
        1e-5 * scale
    } else {
        1e-14 * scale
    }
}
fn round_of(num: u8) -> fn(f64) -> f64 {
    if is_int(num) {
        f64::trunc
    } else if is_single(num) {
        |v| v as f32 as f64
    } else {
        |v| v
    }
}
pub fn boxes(shapes: &[Sh]) -> Vec<Box4> {
    shapes.iter().map(|s| s.bbox().unwrap()).collect()
}
pub fn model(c: &SCase, s: &Setting) -> Model {
    let (d, cap) = s.depth_cap();
    Model::new(boxes(&s.shapes), c.kind == 0, s.bounds, d, cap, fuzz_of(c.num, s.bounds), round_of(c.num))
}

fn within(b: Box4, d: Box4) -> bool {
    d.0 >= b.0 && d.1 >= b.1 && d.2 <= b.2 && d.3 <= b.3
}
fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort_unstable();
    v
}

pub fn build<T: Num, R: Tr<T>>(s: &Setting, perm: &[usize]) -> Result<R, String> {
    let mut t = R::make(rect::<T>(s.bounds), CalcMethod::Euclidean, s.cfg);
    for &i in perm {
        let r = t.put(Item { id: i, g: G::of(&s.shapes[i]) });
        ensure!(r.is_ok(), "insert of {:?} inside the bounds failed: {:?}", s.shapes[i], r);
    }
    Ok(t)
}
macro_rules! by_kind {
    ($c:expr, $f:ident ( $($a:expr),* )) => {
        if $c.kind == 0 {
            with_num!($c.num, N => $f::<N, PointQuadTree<Item<N>, N>>($($a),*))
        } else {
            with_num!($c.num, N => $f::<N, BoundsQuadTree<Item<N>, N>>($($a),*))
        }
    };
}

// ------------------------------------------------------------------ C01

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Put(Spec),
    PutWide(Spec),
    Again(u16, u8),
    Get(Q),
    Near(Q, u8),
    Iter,
    Show,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct HCase {
    pub w: World,
    pub num: u8,
    pub kind: u8,
    pub ops: Vec<Op>,
    /// So many data first.
    #[serde(default)]
    pub more: u32,
}
pub fn hcase() -> BoxedStrategy<HCase> {
    let op = prop_oneof![
        10 => spec().prop_map(Op::Put),
        1 => spec().prop_map(Op::PutWide),
        2 => (any::<u16>(), 1u8..10).prop_map(|(a, b)| Op::Again(a, b)),
        1 => q().prop_map(Op::Get),
        1 => (q(), any::<u8>()).prop_map(|(q, k)| Op::Near(q, k)),
        1 => Just(Op::Iter),
        1 => Just(Op::Show),
    ];
    let ops = prop_oneof![
        4 => proptest::collection::vec(op.clone(), 0..=20),
        4 => proptest::collection::vec(op.clone(), 20..=120),
        1 => proptest::collection::vec(op, 120..=600),
    ];
    (world_zoom(), 0u8..36, 0u8..5, ops, rarely(300, 90_000))
        .prop_map(|(w, num, kind, ops, more)| HCase { w, num, kind, ops, more })
        .boxed()
}
pub fn c01(c: &HCase, o: &mut Obs) -> Verdict {
    if is_int(c.num) {
        return if c.kind == 0 {
            with_num!(c.num, N => hist::<N, PointQuadTree<Item<N>, N>>(c, o, &|_, _, _| {}))
        } else {
            with_num!(c.num, N => hist::<N, BoundsQuadTree<Item<N>, N>>(c, o, &|_, _, _| {}))
        };
    }
    if c.kind == 0 {
        with_float!(is_single(c.num), N => hist::<N, PointQuadTree<Item<N>, N>>(c, o, &noise))
    } else {
        with_float!(is_single(c.num), N => hist::<N, BoundsQuadTree<Item<N>, N>>(c, o, &noise))
    }
}
fn noise<T: Num + quadtree::QtFloat, R: STr<T>>(t: &R, s: &Sh, k: u8) {
    let c = Cmp(G::<T>::of(s));
    let r = T::of((k as f64 / 16.0).exp2() - 1.0);
    match k % 4 {
        0 => drop(t.near(&c)),
        1 => drop(t.near_r(&c, r)),
        2 => drop(t.some_r(&c, k as usize, r)),
        _ => drop(t.order(&c).take(k as usize).count()),
    }
}
fn hist<T: Num, R: Tr<T>>(c: &HCase, o: &mut Obs, noise: &dyn Fn(&R, &Sh, u8)) -> Verdict {
    let int = is_int(c.num);
    let mut w = c.w;
    w.single = is_single(c.num);
    let bounds = frame(c.num, &w);
    let kinds: &[u8] = if c.kind < 2 { PT } else { ALL };
    let fix = |s: Sh| if int { int_round(s) } else { w.round(s) };
    let cfg = (!w.defaults).then_some((w.depth, w.capacity()));
    let mut t = R::make(rect::<T>(bounds), CalcMethod::Euclidean, cfg);
    // the model: every accepted insertion, in order
    let mut held: Vec<(usize, Sh)> = vec![];
    let mut next = 0;
    let mut queries = 0;
    let check = |t: &R, held: &Vec<(usize, Sh)>| -> Verdict {
        ensure!(t.count() == held.len(), "size() is {} after {} accepted inserts", t.count(), held.len());
        budget(held.len());
        let v = drain(t.all(), held.len() + 8)?;
        let mut ids: Vec<usize> = v.iter().map(|i| i.id).collect();
        ids.sort_unstable();
        let want: Vec<usize> = held.iter().map(|h| h.0).collect();
        ensure!(ids == want, "iteration yields {:?}, accepted were {:?}", ids, want);
        for i in v {
            let k = held.binary_search_by_key(&i.id, |h| h.0).unwrap();
            ensure!(i.g == G::of(&held[k].1), "datum {} was altered: {:?} from {:?}", i.id, i.g, held[k].1);
        }
        Ok(())
    };
    let put = |t: &mut R, s: Sh, held: &mut Vec<(usize, Sh)>, next: &mut usize| -> Verdict {
        let id = *next;
        *next += 1;
        let r = t.put(Item { id, g: G::of(&s) });
        if within(bounds, s.bbox().unwrap()) {
            ensure!(r.is_ok(), "insert of {:?} inside the bounds failed: {:?}", s, r);
        }
        if r.is_ok() {
            held.push((id, s));
        }
        ensure!(t.count() == held.len(), "size() is {} after {} accepted inserts", t.count(), held.len());
        Ok(())
    };
    for s in bulk(c.more, c.w.frame as u64) {
        put(&mut t, fix(w.shape(&s, bounds, kinds)), &mut held, &mut next)?;
    }
    o.hit_if(c.more > 65_536, "more than 65536 data");
    for op in &c.ops {
        match op {
            Op::Put(s) => put(&mut t, fix(w.shape(s, bounds, kinds)), &mut held, &mut next)?,
            Op::PutWide(s) => put(&mut t, fix(w.shape(s, widen(bounds), kinds)), &mut held, &mut next)?,
            Op::Again(i, n) if !held.is_empty() => {
                let s = held[*i as usize % held.len()].1.clone();
                for _ in 0..*n {
                    put(&mut t, s.clone(), &mut held, &mut next)?;
                }
            }
            Op::Again(..) => {}
            Op::Get(q) | Op::Near(q, _) => {
                let s = match q.like {
                    Some(i) if !held.is_empty() => held[i as usize % held.len()].1.clone(),
                    _ => fix(w.shape(&q.s, if q.wide { widen(bounds) } else { bounds }, kinds)),
                };
                let it = Item { id: usize::MAX, g: G::of(&s) };
                let a = t.get_ids(&it)?;
                if let Op::Near(_, k) = op {
                    noise(&t, &s, *k);
                }
                let b = t.get_ids(&it)?;
                ensure!(a == b, "repeating a retrieval gave {:?} then {:?}", a, b);
                let mut d = sorted(a.clone());
                d.dedup();
                ensure!(d.len() == a.len(), "retrieve yields a datum twice: {:?}", a);
                ensure!(d.iter().all(|i| held.binary_search_by_key(i, |h| h.0).is_ok()), "retrieve invents data");
                if (matches!(op, Op::Near(..)) && held.len() < 2000) || held.len() < 40 {
                    check(&t, &held)?;
                }
                queries += 1;
                o.compared += 1;
            }
            Op::Iter | Op::Show if held.len() > 2000 && o.compared > 3 => {}
            Op::Iter => {
                check(&t, &held)?;
                ensure!(t.all_ids()? == t.all_ids()?, "iterating twice gave different sequences");
                o.compared += 1;
            }
            Op::Show => {
                let a = t.show();
                ensure!(a == t.show(), "rendering twice gave different text");
                check(&t, &held)?;
            }
        }
    }
    check(&t, &held)?;
    o.compared += held.len() as u64;
    let cells = t.show().lines().count().saturating_sub(1);
    o.hit_if(cells > 1, "divided");
    o.hit_if(cells > 5, "divided at several levels");
    o.hit_if(w.depth > 40, "depth above 40");
    o.hit_if(next != held.len(), "some insert rejected");
    o.hit(if c.kind == 0 { "point tree" } else { "bounds tree" });
    o.hit(T::NAME);
    o.hit_if(T::off() != 0, "integers no float can hold");
    o.nontrivial = cells > 1 && held.len() >= 3 && queries > 0;
    Ok(())
}

// ------------------------------------------------------------------ C02

/// Where a coordinate interval lies relative to the bounds on one axis.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Place {
    pub lo: (u8, u16),
    pub hi: (u8, u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Probe {
    pub x: Place,
    pub y: Place,
    pub kind: u8,
    pub shape: u8,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ACase {
    pub base: SCase,
    pub probes: Vec<Probe>,
}
pub fn acase() -> BoxedStrategy<ACase> {
    let pl = || {
        ((0u8..9, any::<u16>()), (0u8..9, any::<u16>())).prop_map(|(lo, hi)| Place { lo, hi }).boxed()
    };
    // most coordinates within, so that one axis decides
    let near = (prop_oneof![2 => Just(2u8), 3 => Just(3u8), 2 => Just(4u8)], any::<u16>());
    let pin = (near.clone(), near).prop_map(|(lo, hi)| Place { lo, hi }).boxed();
    let axis = prop_oneof![1 => pl(), 1 => pin];
    let probe = (axis.clone(), axis, 0u8..12, any::<u8>())
        .prop_map(|(x, y, kind, shape)| Probe { x, y, kind, shape });
    (
        scase_with(world_zoom(), kinds(), (8, 20, 40)),
        proptest::collection::vec(probe, 1..10),
    )
        .prop_map(|(base, probes)| ACase { base, probes })
        .boxed()
}
fn step(v: f64, up: bool, num: u8) -> f64 {
    if is_int(num) {
        if up { v + 1.0 } else { v - 1.0 }
    } else if is_single(num) {
        let f = v as f32;
        (if up { f.next_up() } else { f.next_down() }) as f64
    } else if up {
        v.next_up()
    } else {
        v.next_down()
    }
}
fn coord_at(p: (u8, u16), lo: f64, hi: f64, num: u8) -> f64 {
    let w = hi - lo;
    let f = p.1 as f64 / 65535.0;
    let v = match p.0 {
        0 => lo - w * (f + 0.125),
        1 => return step(lo, false, num),
        2 => return lo,
        3 => lo + w * f,
        4 => return hi,
        5 => return step(hi, true, num),
        6 => hi + w * (f + 0.125),
        7 => return step(lo, true, num),
        _ => return step(hi, false, num),
    };
    if is_int(num) {
        v.round()
    } else if is_single(num) {
        v as f32 as f64
    } else {
        v
    }
}
pub fn c02(c: &ACase, o: &mut Obs) -> Verdict {
    by_kind!(c.base, admission(c, o))
}
fn admission<T: Num, R: Tr<T>>(c: &ACase, o: &mut Obs) -> Verdict {
    use quadtree::Error;
    let num = c.base.num;
    let s = decode(&c.base, false);
    let mut t: R = build(&s, &(0..s.shapes.len()).collect::<Vec<_>>())?;
    let qs: Vec<Item<T>> = s.queries.iter().map(|s| Item { id: usize::MAX, g: G::of(s) }).collect();
    let snap = |t: &R| -> Result<(usize, Vec<usize>, String, Vec<Vec<usize>>), String> {
        let mut r = vec![];
        for q in &qs {
            r.push(t.get_ids(q)?);
        }
        Ok((t.count(), t.all_ids()?, t.show(), r))
    };
    let b = s.bounds;
    let (mut yes, mut no) = (0, 0);
    for (n, p) in c.probes.iter().enumerate() {
        let id = 100_000 + n;
        let (mut x0, mut x1) = (coord_at(p.x.lo, b.0, b.2, num), coord_at(p.x.hi, b.0, b.2, num));
        let (mut y0, mut y1) = (coord_at(p.y.lo, b.1, b.3, num), coord_at(p.y.hi, b.1, b.3, num));
        if x0 > x1 {
            std::mem::swap(&mut x0, &mut x1);
        }
        if y0 > y1 {
            std::mem::swap(&mut y0, &mut y1);
        }
        let empty = !R::POINTS && (p.kind == 10 || p.kind == 11);
        let odd = T::FLOAT && p.kind == 9;
        let mut shaped = false;
        let (g, bbox) = if empty {
            let g = if p.kind == 10 {
                G::Ls(geo::LineString::new(vec![]))
            } else {
                G::Pg(geo::Polygon::new(geo::LineString::new(vec![]), vec![]))
            };
            (g, None)
        } else if odd {
            let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][p.shape as usize % 3];
            let (c0, c1, cb) = (co::<T>((x0, y0)), co::<T>((x1, y1)), geo::Coord { x: T::of(x1), y: T::of(bad) });
            shaped = !R::POINTS && p.shape / 9 % 4 != 0;
            let g = match if shaped { 3 + p.shape / 9 % 4 } else { p.shape / 3 % 3 } {
                4 => G::Ln(geo::Line::new(c0, cb)),
                5 => G::Ls(geo::LineString::new(vec![c0, c1, cb])),
                6 => G::Pg(geo::Polygon::new(geo::LineString::new(vec![c0, cb, c1]), vec![])),
                0 => G::Pt(geo::Point::new(T::of(bad), T::of(y0))),
                1 => G::Pt(geo::Point::new(T::of(x0), T::of(bad))),
                _ => G::Pt(geo::Point::new(T::of(bad), T::of(bad))),
            };
            (g, None)
        } else if R::POINTS || c.base.kind == 1 || p.kind < 2 {
            (G::of(&Sh::Pt((x0, y0))), Some((x0, y0, x0, y0)))
        } else {
            let sh = match p.kind % 4 {
                0 => Sh::Rc((x0, y0), (x1, y1)),
                1 if p.shape & 1 == 0 => Sh::Ln((x0, y1), (x1, y0)),
                1 => Sh::Ln((x1, y1), (x0, y0)),
                2 if p.shape % 4 == 3 => Sh::Ls(vec![(x0, y0)]),
                3 if p.shape % 4 == 3 => Sh::Pg(vec![vec![(x0, y0)]]),
                2 => Sh::Ls(vec![(x0, y0), (x1, y0), (x1, y1)]),
                _ => Sh::Pg(vec![vec![(x0, y0), (x1, y0), (x0, y1)]]),
            };
            (G::of(&sh), sh.bbox())
        };
        let admit = bbox.is_some_and(|d| within(b, d));
        let item = Item { id, g };
        let before = snap(&t)?;
        if !admit {
            let r = t.get_ids(&item)?;
            ensure!(r.is_empty(), "retrieving with {:?}, which cannot be admitted to {:?}, yields {:?}", item.g, b, r);
        }
        let r = t.put(item.clone());
        o.compared += 1;
        if admit {
            ensure!(r.is_ok(), "{:?} lies within {:?} but was rejected: {:?}", item.g, b, r);
            ensure!(t.count() == before.0 + 1, "an accepted insert left size at {}", t.count());
            let got = t.get_ids(&item)?;
            ensure!(got.contains(&id), "{:?} was accepted but retrieving with it misses it", item.g);
            ensure!(t.all_ids()?.contains(&id), "{:?} was accepted but is not held", item.g);
            yes += 1;
            o.hit_if(matches!(&item.g, G::Ls(l) if l.0.len() == 1), "a line string of one vertex");
            let edge = bbox.unwrap();
            o.hit_if(edge.0 == b.0 || edge.1 == b.1 || edge.2 == b.2 || edge.3 == b.3, "accepted on an edge");
        } else {
            let want = if empty { Error::CannotMakeBbox } else { Error::OutOfBounds };
            // a shape with a NaN may be seen to lie outside or to have no box
            let either = shaped && r == Err(Error::CannotMakeBbox);
            ensure!(r == Err(want) || either, "{:?} against {:?}: {:?}, expected {:?}", item.g, b, r, want);
            o.hit_if(shaped, "rejected shape with a non-finite coordinate");
            ensure!(snap(&t)? == before, "a rejected insert of {:?} changed the tree", item.g);
            no += 1;
            if let Some(d) = bbox {
                let tiny = |v: f64, e: f64, up: bool| v == step(e, up, num);
                o.hit_if(
                    tiny(d.0, b.0, false) || tiny(d.1, b.1, false) || tiny(d.2, b.2, true) || tiny(d.3, b.3, true),
                    "rejected one step outside",
                );
            }
            o.hit_if(empty, "no bounding box");
            o.hit_if(odd, "non-finite point");
        }
    }
    o.hit(T::NAME);
    o.hit_if(T::off() != 0, "integers no float can hold");
    o.nontrivial = yes > 0 && no > 0;
    Ok(())
}

// ------------------------------------------------------------------ C03, C04

pub fn c03(c: &SCase, o: &mut Obs) -> Verdict {
    by_kind!(c, retrieval(c, o))
}
pub fn c04(c: &SCase, o: &mut Obs) -> Verdict {
    by_kind!(c, retrieval(c, o))
}
fn retrieval<T: Num, R: Tr<T>>(c: &SCase, o: &mut Obs) -> Verdict {
    let s = decode(c, true);
    let m = model(c, &s);
    let t: R = build(&s, &shuffle(s.shapes.len(), c.key))?;
    let bx = boxes(&s.shapes);
    let mut partial = 0;
    for (n, q) in s.queries.iter().enumerate() {
        let d = q.bbox().unwrap();
        let mut got = t.get_ids(&Item { id: usize::MAX, g: G::of(q) })?;
        got.sort_unstable();
        o.compared += 1;
        if !within(s.bounds, d) {
            ensure!(got.is_empty(), "query {:?} outside {:?} yields {:?}", q, s.bounds, got);
            o.hit("query outside");
            continue;
        }
        let mut u = got.clone();
        u.dedup();
        ensure!(u.len() == got.len(), "query {:?} yields a datum twice: {:?}", q, got);
        ensure!(got.iter().all(|i| *i < s.shapes.len()), "query {:?} yields unknown data {:?}", q, got);
        // relations that hold however the dividing lines round
        for (i, b) in bx.iter().enumerate() {
            let must = if R::POINTS {
                (b.0, b.1) == (d.0, d.1)
            } else {
                (b.0 < d.2 && d.0 < b.2 && b.1 < d.3 && d.1 < b.3) || s.shapes[i] == *q
            };
            ensure!(
                !must || got.binary_search(&i).is_ok(),
                "query {} {:?} misses datum {} {:?} (bounds {:?}, {:?}); it yields {:?}",
                n, q, i, s.shapes[i], s.bounds, s.cfg, got
            );
        }
        let (want, amb) = m.retrieve(d);
        if m.ambiguous || amb {
            o.hit("rounding decides (relations only)");
        } else {
            let want = sorted(want);
            ensure!(
                got == want,
                "query {} {:?} yields {:?}, its cells hold {:?} (bounds {:?}, {:?}, data {:?})",
                n, q, got, want, s.bounds, s.cfg, s.shapes
            );
            o.hit("answer compared exactly");
            if !want.is_empty() && want.len() < s.shapes.len() {
                partial += 1;
            }
            o.hit_if(want.is_empty(), "empty answer");
            o.hit_if(want.len() == s.shapes.len() && !want.is_empty(), "everything answered");
        }
    }
    o.hit(T::NAME);
    o.hit_if(T::off() != 0, "integers no float can hold");
    o.nontrivial = partial > 0;
    Ok(())
}

// ------------------------------------------------------------------ C05

pub fn c05(c: &SCase, o: &mut Obs) -> Verdict {
    by_kind!(c, shape_check(c, o))
}
fn shape_check<T: Num, R: Tr<T>>(c: &SCase, o: &mut Obs) -> Verdict {
    let s = decode(c, true);
    let (depth, cap) = s.depth_cap();
    let m = model(c, &s);
    let n = s.shapes.len();
    let t: R = build(&s, &(0..n).collect::<Vec<_>>())?;
    // another order, with queries in between
    let mut u = R::make(rect::<T>(s.bounds), CalcMethod::Euclidean, s.cfg);
    for (j, i) in shuffle(n, c.key | 1).into_iter().enumerate() {
        let r = u.put(Item { id: i, g: G::of(&s.shapes[i]) });
        ensure!(r.is_ok(), "insert of {:?} failed in another order: {:?}", s.shapes[i], r);
        if j % 7 == 3 && (n < 500 || j % 991 == 3) {
            if let Some(q) = s.queries.first() {
                u.get_ids(&Item { id: usize::MAX, g: G::of(q) })?;
            }
        }
    }
    ensure!(
        t.show() == u.show(),
        "the shape depends on the order of insertion: {:?} in order {:?}\n{}\nvs\n{}",
        s.shapes, shuffle(n, c.key | 1), t.show(), u.show()
    );
    o.compared += 1;
    // Who shares a cell, seen through retrieval
    for i in 0..n.min(if n > 300 { 8 } else { 60 }) {
        let it = Item { id: usize::MAX, g: G::of(&s.shapes[i]) };
        let a = sorted(t.get_ids(&it)?);
        ensure!(a == sorted(u.get_ids(&it)?), "retrieval depends on the order of insertion");
        let (want, amb) = m.retrieve(m.boxes[i]);
        if !m.ambiguous && !amb {
            ensure!(
                a == sorted(want.clone()),
                "retrieving with datum {} yields {:?}; by the capacity and depth rules {:?} ({:?} in {:?}, data {:?})",
                i, a, sorted(want), s.cfg, s.bounds, s.shapes
            );
        }
        if R::POINTS && m.ambiguous {
            continue;
        }
        o.compared += 1;
    }
    // The rendering, read leniently: the shape is the depths and counts
    if let Ok((_, lines)) = parse_render(&t.show()) {
        for (i, l) in lines.iter().enumerate() {
            ensure!(l.depth <= depth, "a cell at depth {} beyond the maximum {}", l.depth, depth);
            let leaf = lines.get(i + 1).is_none_or(|n| n.depth <= l.depth);
            if leaf && l.depth < depth {
                ensure!(l.n <= cap, "a leaf at depth {} < {} holds {} > {} data", l.depth, depth, l.n, cap);
            }
            if !leaf {
                let kids = lines[i + 1..].iter().take_while(|k| k.depth > l.depth).filter(|k| k.depth == l.depth + 1).count();
                ensure!(kids == 4, "a divided cell has {kids} quadrants");
            }
        }
        if !m.ambiguous {
            let want = m.cells();
            let a: Vec<(u32, usize)> = lines.iter().map(|l| (l.depth, l.n)).collect();
            let b: Vec<(u32, usize)> = want.iter().map(|c| (c.0, c.3)).collect();
            ensure!(
                a == b,
                "cells (depth, held) {:?}; by the capacity and depth rules {:?} ({:?} in {:?}, data {:?})",
                a, b, s.cfg, s.bounds, s.shapes
            );
            for (l, w) in lines.iter().zip(&want) {
                let (x, y): (f64, f64) = (T::local(&l.x).unwrap_or(w.1), T::local(&l.y).unwrap_or(w.2));
                let tol = |v: f64| 0.00501 + 1e-6 * v.abs();
                ensure!(
                    (x - w.1).abs() <= tol(w.1) && (y - w.2).abs() <= tol(w.2),
                    "a cell starts at ({x}, {y}), halving gives ({}, {})", w.1, w.2
                );
            }
            o.hit("shape compared exactly");
            o.hit_if(want.iter().any(|c| c.0 == depth && c.3 > cap), "stacked at the maximum depth");
            o.hit_if(want.len() > 21, "more than 21 cells");
            o.hit_if(want.iter().any(|c| c.3 > 255), "more than 255 data in a cell");
            o.compared += want.len() as u64;
        }
        o.nontrivial = !m.ambiguous && lines.len() > 1;
    }
    o.hit_if(s.cfg.is_none(), "default capacity and depth");
    o.hit(T::NAME);
    o.hit_if(T::off() != 0, "integers no float can hold");
    Ok(())
}

// ------------------------------------------------------------------ C06

pub fn c06(c: &SCase, o: &mut Obs) -> Verdict {
    by_kind!(c, preorder(c, o))
}
fn preorder<T: Num, R: Tr<T>>(c: &SCase, o: &mut Obs) -> Verdict {
    let s = decode(c, true);
    let m = model(c, &s);
    let t: R = build(&s, &shuffle(s.shapes.len(), c.key))?;
    let got = t.all_ids()?;
    ensure!(got == t.all_ids()?, "iterating twice gave different sequences");
    // a partial iteration is a prefix, and does not disturb the next one
    let k = c.key as usize % (got.len() + 1);
    let part: Vec<usize> = t.all().take(k).map(|i| i.id).collect();
    ensure!(part == got[..k], "a partial iteration is not a prefix");
    o.compared += 2;
    ensure!(sorted(got.clone()) == (0..s.shapes.len()).collect::<Vec<_>>(), "iteration is not complete: {:?}", got);
    if m.ambiguous {
        o.hit("rounding decides (completeness only)");
        return Ok(());
    }
    let want = m.preorder();
    let mut at = 0;
    for g in &want {
        let have = sorted(got[at..at + g.len()].to_vec());
        ensure!(
            have == sorted(g.clone()),
            "iteration {:?} is not preorder over cells {:?} ({:?} in {:?}, data {:?})",
            got, want, s.cfg, s.bounds, s.shapes
        );
        at += g.len();
        o.compared += 1;
    }
    o.hit_if(want.len() >= 4, "four or more occupied cells");
    o.hit_if(!R::POINTS && m.root.kids.is_some() && !m.root.own.is_empty(), "data straddling the root's lines");
    o.hit(T::NAME);
    o.hit_if(T::off() != 0, "integers no float can hold");
    o.nontrivial = want.len() >= 3;
    Ok(())
}

// ------------------------------------------------------------------ C20

pub fn c20(c: &SCase, o: &mut Obs) -> Verdict {
    by_kind!(c, render(c, o))?;
    // data that cannot be printed
    let s = decode(c, true);
    if c.kind == 0 && c.num % 12 < 5 {
        struct Mute(geo::Point<f64>);
        impl quadtree::AsPoint<f64> for Mute {
            fn as_point(&self) -> geo::Point<f64> {
                self.0
            }
        }
        impl quadtree::AsGeom<f64> for Mute {
            fn as_geom(&self) -> quadtree::GeometryRef<'_, f64> {
                quadtree::GeometryRef::Point(&self.0)
            }
        }
        use quadtree::QuadTree;
        let mut t = match s.cfg {
            Some((d, k)) => PointQuadTree::new(rect::<f64>(s.bounds), CalcMethod::None, d, k),
            None => PointQuadTree::from_bounds(rect::<f64>(s.bounds), CalcMethod::None),
        };
        for sh in &s.shapes {
            if let Sh::Pt(p) = sh {
                t.insert(Mute(geo::Point::new(p.0, p.1))).map_err(|e| format!("insert failed: {e}"))?;
            }
        }
        let u: PointQuadTree<Item<f64>, f64> = build(&s, &(0..s.shapes.len()).collect::<Vec<_>>())?;
        ensure!(t.to_string() == u.show(), "the rendering depends on the type of datum");
    }
    if c.key % 8 == 3 {
        match (is_single(c.num), c.kind) {
            (false, 0) => lopsided::<f64, PointQuadTree<Item<f64>, f64>>(c, o)?,
            (false, _) => lopsided::<f64, BoundsQuadTree<Item<f64>, f64>>(c, o)?,
            (true, 0) => lopsided::<f32, PointQuadTree<Item<f32>, f32>>(c, o)?,
            (true, _) => lopsided::<f32, BoundsQuadTree<Item<f32>, f32>>(c, o)?,
        }
    }
    Ok(())
}
/// Bounds whose corners differ in magnitude: the lowest cells still start where the bounds do.
fn lopsided<T: Num, R: Tr<T>>(c: &SCase, o: &mut Obs) -> Verdict {
    let k = c.key / 8;
    let low = |k: u64| T::of(-((k % 4096) as f64 + 0.5) / 64.0);
    let far = |k: u64| T::of(2f64.powi((k % 70) as i32) * 3.0);
    let (x, y) = (low(k), low(k >> 12));
    let b = (x.f(), y.f(), far(k >> 24).f(), far(k >> 32).f());
    let (depth, n) = ((k >> 40) % 4, (k >> 44) % 4);
    let mut t = R::make(rect::<T>(b), CalcMethod::None, Some((depth as u8, 1)));
    for id in 0..n as usize {
        ensure!(t.put(Item { id, g: G::of(&Sh::Pt((b.0, b.1))) }).is_ok(), "insert at the corner of {b:?} failed");
    }
    let text = t.show();
    let (_, lines) = parse_render(&text)?;
    let lowest = if n > 1 { depth as u32 } else { 0 };
    let mut at = 0;
    for l in &lines {
        // the first line of each level is the lowest quadrant
        if l.depth == at {
            let want = (format!("{:.2}", b.0), format!("{:.2}", b.1));
            ensure!((&l.x, &l.y) == (&want.0, &want.1), "line {l:?} for the low corner of {b:?} in\n{text}");
            at += 1;
        }
    }
    ensure!(at == lowest + 1, "{} levels for {n} data at one point and a depth of {depth}:\n{text}", at);
    o.hit("lopsided bounds");
    Ok(())
}
fn render<T: Num, R: Tr<T>>(c: &SCase, o: &mut Obs) -> Verdict {
    let s = decode(c, true);
    let m = model(c, &s);
    let t: R = build(&s, &shuffle(s.shapes.len(), c.key))?;
    let text = t.show();
    ensure!(text == t.show(), "rendering twice gave different text");
    let (title, lines) = parse_render(&text)?;
    let name = if R::POINTS { "Point" } else { "Bounds" };
    let other = if R::POINTS { "Bounds" } else { "Point" };
    ensure!(
        title.contains(name) && !title.contains(other) && title.contains("Quadtree"),
        "the title {:?} does not name a {} Quadtree", title, name
    );
    ensure!(!lines.is_empty() && lines[0].depth == 0, "no root line in {:?}", text);
    for w in lines.windows(2) {
        ensure!(w[1].depth >= 1 && w[1].depth <= w[0].depth + 1, "indentation jumps in {:?}", text);
    }
    let total: usize = lines.iter().map(|l| l.n).sum();
    ensure!(total == t.count() && total == s.shapes.len(), "counts add up to {}, size is {}", total, t.count());
    // iteration order: the counts cut the iteration into cells
    for l in &lines {
        for v in [&l.x, &l.y] {
            let ok = if T::FLOAT {
                v.split_once('.').is_some_and(|(_, f)| f.len() == 2) && v.parse::<f64>().is_ok()
            } else {
                v.parse::<i128>().is_ok() || v.parse::<f64>().is_ok()
            };
            ensure!(ok, "corner {:?} is not a number to two decimals", v);
        }
    }
    o.compared += lines.len() as u64;
    if !m.ambiguous {
        let want = m.cells();
        ensure!(want.len() == lines.len(), "{} lines for {} cells:\n{}", lines.len(), want.len(), text);
        for (l, w) in lines.iter().zip(&want) {
            let close = |t: &str, v: f64| {
                T::local(t).is_some_and(|x| (x - v).abs() <= 0.0050001 + 1e-6 * v.abs() * f64::from(is_single(c.num) as u8))
            };
            ensure!(
                l.depth == w.0 && l.n == w.3 && close(&l.x, w.1) && close(&l.y, w.2),
                "line {:?} for the cell (depth, x, y, held) {:?} in\n{}\ndata {:?}", l, w, text, s.shapes
            );
            o.hit_if(l.n == 1, "singular line");
            o.hit_if(l.n > 1, "plural line");
            o.hit_if(l.n > 255, "more than 255 data in a cell");
            o.hit_if(l.n > 65535, "more than 65535 data in a cell");
        }
        o.hit("lines compared exactly");
    }
    o.hit(T::NAME);
    o.hit_if(T::off() != 0, "integers no float can hold");
    o.nontrivial = lines.len() > 1 && !m.ambiguous;
    Ok(())
}

// ------------------------------------------------------------------ C19 (structure)

/// Run the same integral case over one numeric type; everything observable, as text.
pub fn observe<T: Num, R: Tr<T>>(bounds: Box4, cfg: Cfg, put: &[Sh], queries: &[Sh]) -> Result<Vec<String>, String> {
    let mut t = R::make(rect::<T>(bounds), CalcMethod::Euclidean, cfg);
    let mut out = vec![];
    for (i, s) in put.iter().enumerate() {
        out.push(format!("insert {i}: {:?}", t.put(Item { id: i, g: G::of(s) })));
    }
    out.push(format!("size {}", t.count()));
    out.push(format!("iterate {:?}", t.all_ids()?));
    for (i, q) in queries.iter().enumerate() {
        out.push(format!("retrieve {i}: {:?}", t.get_ids(&Item { id: usize::MAX, g: G::of(q) })?));
    }
    Ok(out)
}

//! C21: several queries over one tree at a time; C22: how much of a tree a query looks at.
use super::search::{FCase, Field, build, decode, fcase_small};
use crate::ensure;
use crate::geomx::*;
use crate::runner::{Obs, Verdict};
use crate::tree::*;
use crate::with_float;
use crate::world::*;
use proptest::prelude::*;
use quadtree::{AsGeom, AsPoint, BoundsQuadTree, CalcMethod, GeometryRef, PointQuadTree, QtFloat, QuadTree, QuadTreeSearch};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;

// ------------------------------------------------------------------ C21

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LCase {
    pub base: FCase,
    /// What to do next, with which live iterator or query.
    pub ops: Vec<(u8, u8, u8)>,
}
pub fn lcase() -> BoxedStrategy<LCase> {
    (fcase_small(), proptest::collection::vec(any::<(u8, u8, u8)>(), 4..60))
        .prop_map(|(base, ops)| LCase { base, ops })
        .boxed()
}
pub fn c21(c: &LCase, o: &mut Obs) -> Verdict {
    if c.base.kind < 2 {
        with_float!(c.base.w.single, N => live::<N, PointQuadTree<Item<N>, N>>(c, o))
    } else {
        with_float!(c.base.w.single, N => live::<N, BoundsQuadTree<Item<N>, N>>(c, o))
    }
}

/// One yield: which datum, and at what distance (bits) if the iterator says.
type Y = (usize, Option<u64>);
#[derive(Debug, Clone, Copy, PartialEq)]
enum What {
    All,
    Get(usize),
    Order(usize),
}
/// Every way of consuming an iterator must agree with taking its items one at a time.
pub fn every_way<I: Iterator>(mk: &dyn Fn() -> I, id: &dyn Fn(&I::Item) -> Y, k: usize, name: &str) -> Verdict {
    let one: Vec<Y> = {
        let mut it = mk();
        let mut v = vec![];
        while let Some(x) = it.next() {
            let (lo, hi) = it.size_hint();
            v.push((id(&x), lo, hi));
        }
        let n = v.len();
        for (i, (_, lo, hi)) in v.iter().enumerate() {
            let left = n - i - 1;
            ensure!(*lo <= left && hi.is_none_or(|h| h >= left), "{name}: size_hint ({lo}, {hi:?}) with {left} items left");
        }
        v.into_iter().map(|x| x.0).collect()
    };
    let n = one.len();
    let (lo, hi) = mk().size_hint();
    ensure!(lo <= n && hi.is_none_or(|h| h >= n), "{name}: size_hint ({lo}, {hi:?}) of an iterator of {n} items");
    let same = |what: &str, got: Vec<Y>, want: &[Y]| -> Verdict {
        ensure!(got == want, "{name}: {what} gives {got:?}, one at a time {want:?}");
        Ok(())
    };
    ensure!(mk().count() == n, "{name}: count() is {}, but {n} items are yielded", mk().count());
    ensure!(mk().last().as_ref().map(id) == one.last().copied(), "{name}: last() differs from the last item yielded");
    same("collect()", mk().map(|x| id(&x)).collect(), &one)?;
    same("fold()", mk().fold(vec![], |mut v, x| { v.push(id(&x)); v }), &one)?;
    let mut v = vec![];
    mk().for_each(|x| v.push(id(&x)));
    same("for_each()", v, &one)?;
    for k in [0, k % (n + 2), n] {
        let mut it = mk();
        let got = it.nth(k).as_ref().map(id);
        ensure!(got == one.get(k).copied(), "{name}: nth({k}) gives {got:?}, expected {:?}", one.get(k));
        same("what follows nth()", it.map(|x| id(&x)).collect(), one.get(k + 1..).unwrap_or(&[]))?;
        let mut it = mk();
        same("by_ref().take()", it.by_ref().take(k).map(|x| id(&x)).collect(), &one[..k.min(n)])?;
        same("what follows take()", it.map(|x| id(&x)).collect(), one.get(k..).unwrap_or(&[]))?;
        same("skip()", mk().skip(k).map(|x| id(&x)).collect(), one.get(k..).unwrap_or(&[]))?;
        let step: Vec<Y> = one.iter().copied().step_by(k + 1).collect();
        same("step_by()", mk().step_by(k + 1).map(|x| id(&x)).collect(), &step)?;
        // stop at an item, then go on
        let mut it = mk();
        if let Some(w) = one.get(k) {
            let at = it.position(|x| id(&x) == *w);
            let first = one.iter().position(|x| x == w);
            ensure!(at == first, "{name}: position() gives {at:?}, expected {first:?}");
            same("what follows position()", it.map(|x| id(&x)).collect(), &one[first.unwrap() + 1..])?;
        }
    }
    Ok(())
}

fn bits<T: Num>(d: T) -> Option<u64> {
    Some(d.f().to_bits())
}
/// Queries only read, so a tree may be shared whatever its type says.
struct Share<X>(X);
unsafe impl<X> Send for Share<X> {}
unsafe impl<X> Sync for Share<X> {}
impl<X> Share<X> {
    fn get(&self) -> &X {
        &self.0
    }
}
struct Live<'a> {
    what: What,
    pos: usize,
    it: Box<dyn Iterator<Item = Y> + 'a>,
    seen: HashSet<usize>,
}
fn live<T: Num + QtFloat, R: STr<T>>(c: &LCase, o: &mut Obs) -> Verdict {
    let f: Field = decode(&c.base);
    let t: R = build(&f, &shuffle(f.shapes.len(), c.base.key))?;
    let n = f.shapes.len();
    let cmps: Vec<Cmp<T>> = f.cmps.iter().map(|s| Cmp(G::of(s))).collect();
    let items: Vec<Item<T>> = f
        .cmps
        .iter()
        .map(|s| Item { id: usize::MAX, g: G::of(&if R::POINTS { Sh::Pt(s.coords()[0]) } else { s.clone() }) })
        .collect();
    let open = |w: What| -> Box<dyn Iterator<Item = Y> + '_> {
        match w {
            What::All => Box::new(t.all().map(|i| (i.id, None))),
            What::Get(i) => Box::new(t.get(&items[i]).map(|i| (i.id, None))),
            What::Order(i) => Box::new(t.order(&cmps[i]).map(|(i, d)| (i.id, bits(d)))),
        }
    };
    // what each query gives with nothing else going on
    let q = cmps.len();
    let whats: Vec<What> = std::iter::once(What::All).chain((0..q).map(What::Get)).chain((0..q).map(What::Order)).collect();
    let mut alone: Vec<(What, Vec<Y>)> = vec![];
    for w in whats {
        budget(n);
        alone.push((w, drain(open(w), 2 * n + 8)?));
    }
    type Once = (Option<(usize, Option<u64>)>, Vec<Option<u64>>);
    let once = |i: usize| -> Once {
        let k = many(c.base.queries[i].k);
        let near = t.near(&cmps[i]).ok().map(|(x, d)| (x.id, bits(d)));
        let some = t.some(&cmps[i], k).map(|v| v.iter().map(|h| bits(h.1)).collect()).unwrap_or_default();
        (near, some)
    };
    let single: Vec<Once> = (0..q).map(once).collect();
    let shown = t.show();

    let step = |l: &mut Live, by: usize| -> Verdict {
        let want = &alone.iter().find(|a| a.0 == l.what).unwrap().1;
        for _ in 0..by {
            let got = l.it.next();
            let exp = want.get(l.pos).copied();
            let ok = match (l.what, got, exp) {
                (_, None, None) => true,
                // data at one distance may come in any order
                (What::Order(_), Some((i, d)), Some((_, e))) => d == e && want.contains(&(i, d)) && l.seen.insert(i),
                (_, g, e) => g == e,
            };
            ensure!(
                ok,
                "{:?} with other queries under way yields {got:?} as item {}, alone {exp:?} [{:?} bounds {:?} {:?} data {:?} queries {:?}]",
                l.what, l.pos, f.method, f.bounds, f.cfg, f.shapes, f.cmps
            );
            l.pos += 1;
            if got.is_none() {
                break;
            }
        }
        Ok(())
    };
    let mut pool: Vec<Live> = vec![];
    let mut most = 0;
    for (op, a, b) in &c.ops {
        budget(n);
        let (a, b) = (*a as usize, *b as usize);
        match op % 16 {
            0..=5 => {
                let what = alone[a % alone.len()].0;
                pool.push(Live { what, pos: 0, it: open(what), seen: HashSet::new() });
                let last = pool.len() - 1;
                step(&mut pool[last], b % 4)?;
            }
            6..=11 if !pool.is_empty() => {
                let i = a % pool.len();
                step(&mut pool[i], 1 + b % 6)?;
                o.compared += 1;
            }
            12 if !pool.is_empty() => {
                drop(pool.swap_remove(a % pool.len()));
            }
            13 => {
                let i = a % q;
                let got = once(i);
                ensure!(got == single[i], "searches for {:?} with other queries under way give {:?}, alone {:?}", f.cmps[i], got, single[i]);
            }
            14 => {
                ensure!(t.show() == shown && t.count() == n, "the rendering or size changed while queries were under way");
            }
            15 if a % 4 == 1 && n > 0 => {
                // from within the data's own methods
                let (i, w) = (b % q, alone[b % alone.len()].0);
                let bad: RefCell<Option<String>> = RefCell::new(None);
                let left = Cell::new(6usize);
                let turn = Cell::new(b);
                let inner = || {
                    turn.set(turn.get() + 1);
                    if left.get() == 0 || turn.get() % (1 + a / 4 % 5) != 0 {
                        return;
                    }
                    left.set(left.get() - 1);
                    let (j, v) = (turn.get() % q, alone[turn.get() % alone.len()].0);
                    let got = once(j);
                    if got != single[j] {
                        *bad.borrow_mut() = Some(format!("searches for {:?} give {got:?}, alone {:?}", f.cmps[j], single[j]));
                    }
                    let mut l = Live { what: v, pos: 0, it: open(v), seen: HashSet::new() };
                    if let Err(e) = step(&mut l, 1 + b % 9) {
                        *bad.borrow_mut() = Some(e);
                    }
                };
                budget(n * 40);
                nested(&inner, || -> Verdict {
                    let got = once(i);
                    ensure!(
                        got == single[i],
                        "searches for {:?} give {got:?} when data query the tree when looked at, alone {:?}", f.cmps[i], single[i]
                    );
                    let mut l = Live { what: w, pos: 0, it: open(w), seen: HashSet::new() };
                    step(&mut l, n + 1)
                })?;
                let bad = bad.borrow().clone();
                ensure!(bad.is_none(), "queried from within the methods of a datum: {}", bad.unwrap());
                o.hit_if(left.get() < 6, "queried from within data");
            }
            15 if a % 8 == 3 => {
                // from several threads
                let work = Share((&open, &once, &alone, &single, &step));
                let work = &work;
                let threads: Vec<Verdict> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..3usize)
                        .map(|k| {
                            s.spawn(move || {
                                let (open, once, alone, single, step) = work.get();
                                budget(n);
                                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Verdict {
                                    for j in 0..alone.len() {
                                        let w = alone[(j + k + b) % alone.len()].0;
                                        let mut l = Live { what: w, pos: 0, it: open(w), seen: HashSet::new() };
                                        step(&mut l, n + 1)?;
                                    }
                                    for j in 0..q {
                                        let j = (j + k) % q;
                                        let got = once(j);
                                        ensure!(got == single[j], "searches give {got:?}, alone {:?}", single[j]);
                                    }
                                    Ok(())
                                }))
                                .unwrap_or_else(|_| Err("a query panicked".into()))
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
                });
                for v in threads {
                    v.map_err(|e| format!("with other threads querying the tree: {e}"))?;
                }
                o.hit("queried from several threads");
            }
            _ => {
                let i = a % q;
                budget(n * 40);
                t.every_way_here(&items[i], &cmps[i], b)?;
                o.hit("consumed in every way");
            }
        }
        most = most.max(pool.iter().filter(|l| l.pos > 0).count());
    }
    for mut l in pool {
        budget(n);
        step(&mut l, n + 1)?;
        ensure!(l.it.next().is_none(), "{:?} yields again after its end", l.what);
        o.compared += 1;
    }
    o.hit(T::NAME);
    o.hit_if(most >= 3, "three or more live iterators");
    o.nontrivial = most >= 2 && super::search::divided(&t, &f) && n >= 3;
    Ok(())
}

// ------------------------------------------------------------------ C22

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PCase {
    pub points: bool,
    pub sph: bool,
    pub single: bool,
    pub frame: u8,
    /// Data per axis.
    pub side: u8,
    pub cap: u8,
    pub extra: u8,
    pub extent: u8,
    pub key: u64,
    /// Position of the query in the bounds, k.
    pub at: Vec<(u16, u16, u8)>,
}
pub fn pcase() -> BoxedStrategy<PCase> {
    (
        any::<bool>(),
        any::<bool>(),
        proptest::bool::weighted(0.2),
        any::<u8>(),
        40u8..72,
        1u8..9,
        0u8..6,
        any::<u8>(),
        any::<u64>(),
        proptest::collection::vec((any::<u16>(), any::<u16>(), 1u8..9), 1..6),
    )
        .prop_map(|(points, sph, single, frame, side, cap, extra, extent, key, at)| PCase {
            points, sph, single, frame, side, cap, extra, extent, key, at,
        })
        .boxed()
}
thread_local! {
    static SEEN: RefCell<(bool, HashSet<usize>, u64)> = RefCell::new((false, HashSet::new(), 0));
}
/// A datum that tells when it is looked at.
#[derive(Debug, Clone)]
pub struct Spy<T: geo::GeoNum> {
    pub id: usize,
    pub g: G<T>,
}
impl<T: Num> Spy<T> {
    fn look(&self) {
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            s.2 += 1;
            if s.0 && self.id != usize::MAX {
                s.1.insert(self.id);
            }
        })
    }
}
impl<T: Num> AsGeom<T> for Spy<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        self.look();
        self.g.gref()
    }
}
impl<T: Num> AsPoint<T> for Spy<T> {
    fn as_point(&self) -> geo::Point<T> {
        self.look();
        match &self.g {
            G::Pt(p) => *p,
            _ => panic!("harness: only points go in a point tree"),
        }
    }
}
/// Distinct data looked at by a call.
fn looked<X>(f: impl FnOnce() -> X) -> (usize, X) {
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        s.0 = true;
        s.1.clear();
    });
    let x = f();
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        s.0 = false;
        (s.1.len(), x)
    })
}
const SPREAD_SPHERE: &[Box4] = &[
    (-1.0, -1.0, 1.0, 1.0),
    (0.0, 0.0, 1.5, 1.5),
    (-3.0, -1.0, 3.0, 1.0),
    (0.1, 0.8, 0.2, 0.9),
    (-3.141592653589793, -1.5707963267948966, 3.141592653589793, 1.5707963267948966),
];
/// Processor time of a call by this thread, in seconds.
fn cpu<X>(f: impl FnOnce() -> X) -> (f64, X) {
    unsafe extern "C" {
        fn clock_gettime(clock: i32, at: *mut [i64; 2]) -> i32;
    }
    let now = || {
        let mut t = [0i64; 2];
        // CLOCK_THREAD_CPUTIME_ID
        assert_eq!(unsafe { clock_gettime(3, &mut t) }, 0);
        t[0] as f64 + t[1] as f64 * 1e-9
    };
    let t = now();
    let x = f();
    (now() - t, x)
}
/// Data of one cell: once the first of them came out of sorted all have been measured, so that the others cost little.
/// Judged by the processor time compared with that of the first, with a wide margin: what was seen to go wrong takes
/// more than a hundred times as long as allowed.
fn one_cell<T, R>(c: &PCase, o: &mut Obs, make: fn(geo::Rect<T>, CalcMethod, u8, usize) -> R) -> Verdict
where
    T: Num + QtFloat,
    R: QuadTree<Spy<T>, T> + QuadTreeSearch<Spy<T>, T>,
{
    let b = if c.sph { SPREAD_SPHERE[c.frame as usize % SPREAD_SPHERE.len()] } else { PLANAR[c.frame as usize % 6] };
    let n = 100_000;
    let (deep, cap) = if c.extra % 2 == 0 { (0, 1) } else { (8, n) };
    let mut t = make(rect::<T>((T::of(b.0).f(), T::of(b.1).f(), T::of(b.2).f(), T::of(b.3).f())), if c.sph { CalcMethod::Spherical } else { CalcMethod::Euclidean }, deep, cap);
    let mut s = c.key | 1;
    let mut place = || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let (u, v) = ((s >> 16 & 0xffff) as f64 / 65536.0, (s >> 32 & 0xffff) as f64 / 65536.0);
        Sh::Pt((b.0 + (b.2 - b.0) * (0.01 + 0.98 * u), b.1 + (b.3 - b.1) * (0.01 + 0.98 * v)))
    };
    for id in 0..n {
        let g = G::of(&place());
        ensure!(t.insert(Spy { id, g: g.clone() }).is_ok(), "insert of {g:?} in {b:?} failed");
    }
    let p = place();
    let x = Cmp(G::<T>::of(&p));
    let q = Spy { id: usize::MAX, g: x.0.clone() };
    let mut least = f64::INFINITY;
    for again in 0..3 {
        let (first, one) = cpu(|| t.sorted(&x).take(1).count());
        ensure!(one == 1, "sorted({p:?}) gives nothing among {n} data of one cell");
        least = first.min(least);
        let limit = 25.0 * least + 0.02;
        let mut slow = vec![];
        for (name, (took, got)) in [
            ("enumerating sorted", cpu(|| t.sorted(&x).count())),
            ("knn of all data", cpu(|| t.knn(&x, n).map_or(0, |v| v.len()))),
            ("retrieve", cpu(|| t.retrieve(&q).count())),
        ] {
            ensure!(got == n, "{name} at {p:?} gives {got} of {n} data of one cell");
            if took > limit {
                slow.push(format!("{name} at {p:?} takes {took} s over {n} data of one cell, the first of sorted {first} s"));
            }
        }
        if slow.is_empty() {
            break;
        }
        ensure!(again < 2, "{}", slow.join("; "));
    }
    o.compared += 3;
    o.hit("data of one cell");
    Ok(())
}
pub fn c22(c: &PCase, o: &mut Obs) -> Verdict {
    if c.key % 256 == 7 {
        if c.points {
            with_float!(c.single, N => one_cell::<N, PointQuadTree<Spy<N>, N>>(c, o, |b, m, d, k| PointQuadTree::new(b, m, d, k)))?
        } else {
            with_float!(c.single, N => one_cell::<N, BoundsQuadTree<Spy<N>, N>>(c, o, |b, m, d, k| BoundsQuadTree::new(b, m, d, k)))?
        }
    }
    if c.points {
        with_float!(c.single, N => prune::<N, PointQuadTree<Spy<N>, N>>(c, o, |b, m, d, k| PointQuadTree::new(b, m, d, k)))
    } else {
        with_float!(c.single, N => prune::<N, BoundsQuadTree<Spy<N>, N>>(c, o, |b, m, d, k| BoundsQuadTree::new(b, m, d, k)))
    }
}
fn prune<T, R>(c: &PCase, o: &mut Obs, make: fn(geo::Rect<T>, CalcMethod, u8, usize) -> R) -> Verdict
where
    T: Num + QtFloat,
    R: QuadTree<Spy<T>, T> + QuadTreeSearch<Spy<T>, T>,
{
    let b = if c.sph { SPREAD_SPHERE[c.frame as usize % SPREAD_SPHERE.len()] } else { PLANAR[[0, 1, 3, 4, 5, 7, 8, 10, 11][c.frame as usize % 9]] };
    let (w, h) = (b.2 - b.0, b.3 - b.1);
    let side = c.side as usize;
    let n = side * side;
    let cap = c.cap as usize;
    // deep enough for the data to be told apart
    let levels = ((n as f64 / cap as f64).log2() / 2.0).ceil() as u8 + 1;
    let depth = levels + c.extra;
    let r = |v: f64| if c.single { v as f32 as f64 } else { v };
    let mut s = c.key | 1;
    let mut rnd = || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) as f64 / (1u64 << 53) as f64
    };
    // one datum somewhere in each square of a lattice
    let mut t = make(rect::<T>((r(b.0), r(b.1), r(b.2), r(b.3))), if c.sph { CalcMethod::Spherical } else { CalcMethod::Euclidean }, depth, cap);
    let (sx, sy) = (w / side as f64, h / side as f64);
    let ext = if c.points { 0.0 } else { [0.0, 0.1, 0.5][c.extent as usize % 3] };
    let before = SEEN.with(|s| s.borrow().2);
    for id in shuffle(n, c.key) {
        let (i, j) = (id % side, id / side);
        let x = b.0 + (i as f64 + 0.05 + 0.9 * rnd()) * sx;
        let y = b.1 + (j as f64 + 0.05 + 0.9 * rnd()) * sy;
        let g = if ext > 0.0 {
            let (x2, y2) = ((x + ext * sx).min(b.2 - sx * 0.01), (y + ext * sy).min(b.3 - sy * 0.01));
            Sh::Rc((r(x.min(x2)), r(y.min(y2))), (r(x2), r(y2)))
        } else {
            Sh::Pt((r(x), r(y)))
        };
        let res = t.insert(Spy { id, g: G::of(&g) });
        ensure!(res.is_ok(), "insert of {g:?} in {b:?} failed: {res:?}");
    }
    let ins = (SEEN.with(|s| s.borrow().2) - before) as f64 / n as f64;
    ensure!(
        ins <= 8.0 * (depth as f64 + 1.0),
        "building a tree of {n} spread data (depth {depth}, capacity {cap}) looks at each datum {ins} times on average"
    );
    for (px, py, k) in &c.at {
        let p = Sh::Pt((r(b.0 + w * (0.01 + 0.98 * *px as f64 / 65536.0)), r(b.1 + h * (0.01 + 0.98 * *py as f64 / 65536.0))));
        let x = Cmp(G::<T>::of(&p));
        let k = *k as usize;
        let (a, hit) = looked(|| t.find(&x).map(|h| h.1));
        ensure!(hit.is_ok(), "find({p:?}) failed: {hit:?}");
        let (e, _) = looked(|| t.knn(&x, k).map(|v| v.len()));
        let (s, _) = looked(|| t.sorted(&x).take(k).count());
        let q = Spy { id: usize::MAX, g: x.0.clone() };
        let (g, found) = looked(|| t.retrieve(&q).count());
        let d = hit.unwrap();
        let (fr, _) = looked(|| t.find_r(&x, d).map(|h| h.1));
        let (kr, kn) = looked(|| t.knn_r(&x, n, d + d).map(|h| h.len()).unwrap_or(0));
        let most = [
            ("find", a, n / 2),
            ("find_r with the closest distance", fr, n / 4),
            ("knn", e, n / 4),
            ("knn_r with twice the closest distance", kr, kn + n / 4),
            ("taking the first of sorted", s, n / 4),
            ("retrieve", g, found + n / 4),
        ];
        for (name, got, limit) in most {
            ensure!(
                got <= limit,
                "{name} at {p:?} looks at {got} of {n} data spread over {b:?} (k {k}, depth {depth}, capacity {cap}, extent {ext}, {} tree, spherical {})",
                if c.points { "point" } else { "bounds" }, c.sph
            );
        }
        o.compared += 6;
    }
    o.hit(T::NAME);
    o.nontrivial = n > 4 * cap;
    Ok(())
}

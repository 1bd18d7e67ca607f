//! Plain geometry values (always f64) and their conversion into library geometries.
use geo::{Coord, GeoNum, Line, LineString, Point, Polygon, Rect};
use quadtree::{AsGeom, AsPoint, GeometryRef};
use serde::{Deserialize, Serialize};
use std::cell::Cell;

pub type P = (f64, f64);

/// A geometry in f64, independent of the library's and of geo's types.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Sh {
    Pt(P),
    Ln(P, P),
    Ls(Vec<P>),
    Pg(Vec<Vec<P>>),
    Rc(P, P),
}

impl Sh {
    pub fn kind(&self) -> usize {
        match self {
            Sh::Pt(_) => 0,
            Sh::Ln(..) => 1,
            Sh::Ls(_) => 2,
            Sh::Pg(_) => 3,
            Sh::Rc(..) => 4,
        }
    }
    pub fn map(&self, f: &dyn Fn(P) -> P) -> Sh {
        match self {
            Sh::Pt(p) => Sh::Pt(f(*p)),
            Sh::Ln(a, b) => Sh::Ln(f(*a), f(*b)),
            Sh::Ls(v) => Sh::Ls(v.iter().map(|p| f(*p)).collect()),
            Sh::Pg(r) => Sh::Pg(r.iter().map(|v| v.iter().map(|p| f(*p)).collect()).collect()),
            Sh::Rc(a, b) => {
                let (p, q) = (f(*a), f(*b));
                Sh::Rc(
                    (p.0.min(q.0), p.1.min(q.1)),
                    (p.0.max(q.0), p.1.max(q.1)),
                )
            }
        }
    }
    pub fn coords(&self) -> Vec<P> {
        match self {
            Sh::Pt(p) => vec![*p],
            Sh::Ln(a, b) => vec![*a, *b],
            Sh::Ls(v) => v.clone(),
            Sh::Pg(r) => r.iter().flatten().copied().collect(),
            Sh::Rc(a, b) => vec![*a, *b],
        }
    }
    pub fn bbox(&self) -> Option<(f64, f64, f64, f64)> {
        let c = match self {
            Sh::Pg(r) => r.first().cloned().unwrap_or_default(),
            _ => self.coords(),
        };
        let f = c.first()?;
        Some(c.iter().fold((f.0, f.1, f.0, f.1), |b, p| {
            (b.0.min(p.0), b.1.min(p.1), b.2.max(p.0), b.3.max(p.1))
        }))
    }
    pub fn scale(&self) -> f64 {
        self.coords().iter().fold(0.0, |m, p| m.max(p.0.abs()).max(p.1.abs()))
    }
}

/// Numeric types a tree can be built over.
pub trait Num: GeoNum + std::fmt::Display + std::fmt::Debug + std::fmt::LowerExp + Send + Sync + 'static {
    const FLOAT: bool;
    const NAME: &'static str;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    fn round(v: f64) -> f64 {
        Self::of(v).f()
    }
    /// Where this type's coordinates are moved to, see `set_far`.
    fn off() -> i128 {
        0
    }
    /// A printed coordinate, moved back.
    fn local(text: &str) -> Option<f64> {
        text.parse::<i128>().map(|v| (v - Self::off()) as f64).ok().or_else(|| text.parse().ok())
    }
}
thread_local! {
    static FAR: Cell<i8> = const { Cell::new(0) };
}
/// Move all coordinates of wide integer types to where no float is exact, as the selector says.
pub fn set_far(num: u8) {
    FAR.set(match num / 12 {
        1 => 1,
        2 => -1,
        _ => 0,
    });
}
macro_rules! num_float {
    ($($t:ident),*) => {$(impl Num for $t {
        const FLOAT: bool = true;
        const NAME: &'static str = stringify!($t);
        fn of(v: f64) -> Self { v as $t }
        fn f(self) -> f64 { self as f64 }
    })*};
}
macro_rules! num_int {
    ($($t:ident $far:expr),*) => {$(impl Num for $t {
        const FLOAT: bool = false;
        const NAME: &'static str = stringify!($t);
        fn of(v: f64) -> Self {
            assert!(v.fract() == 0.0 && v.abs() < 1e15, "harness: not an integer: {v}");
            v as $t + FAR.get() as $t * $far
        }
        fn f(self) -> f64 { (self - FAR.get() as $t * $far) as f64 }
        fn off() -> i128 { FAR.get() as i128 * $far }
    })*};
}
num_float!(f32, f64);
num_int!(i16 0, i32 0, i64 (1 << 61) + 1, i128 (1 << 100) + 1, isize (1 << 60) + 1);

pub fn co<T: Num>(p: P) -> Coord<T> {
    Coord { x: T::of(p.0), y: T::of(p.1) }
}
pub fn ls<T: Num>(v: &[P]) -> LineString<T> {
    LineString::new(v.iter().map(|p| co(*p)).collect())
}

/// A geometry in the library's (geo's) types, wrapped in a local enum so that the harness does
/// not depend on the library's own wrappers.
#[derive(Debug, Clone, PartialEq)]
pub enum G<T: GeoNum> {
    Pt(Point<T>),
    Ln(Line<T>),
    Ls(LineString<T>),
    Pg(Polygon<T>),
    Rc(Rect<T>),
}
impl<T: Num> G<T> {
    pub fn of(s: &Sh) -> G<T> {
        match s {
            Sh::Pt(p) => G::Pt(Point(co(*p))),
            Sh::Ln(a, b) => G::Ln(Line::new(co::<T>(*a), co::<T>(*b))),
            Sh::Ls(v) => G::Ls(ls(v)),
            Sh::Pg(r) => G::Pg(Polygon::new(
                ls(&r[0]),
                r[1..].iter().map(|h| ls(h)).collect(),
            )),
            Sh::Rc(a, b) => G::Rc(Rect::new(co::<T>(*a), co::<T>(*b))),
        }
    }
    pub fn coords(&self) -> Vec<Coord<T>> {
        match self {
            G::Pt(d) => vec![d.0],
            G::Ln(d) => vec![d.start, d.end],
            G::Ls(d) => d.0.clone(),
            G::Pg(d) => d.exterior().0.iter().chain(d.interiors().iter().flat_map(|r| r.0.iter())).copied().collect(),
            G::Rc(d) => vec![d.min(), d.max()],
        }
    }
    pub fn gref(&self) -> GeometryRef<'_, T> {
        match self {
            G::Pt(d) => GeometryRef::Point(d),
            G::Ln(d) => GeometryRef::Line(d),
            G::Ls(d) => GeometryRef::LineString(d),
            G::Pg(d) => GeometryRef::Polygon(d),
            G::Rc(d) => GeometryRef::Rect(d),
        }
    }
}

thread_local! {
    static WORK: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// Count one consultation of a datum by the library; panics when far beyond any sane amount.
pub fn tick() {
    WORK.with(|w| {
        let n = w.get() + 1;
        w.set(n);
        if n > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            panic!("work budget exceeded: the call consulted data {n} times");
        }
    });
    if let Some(f) = INNER.with(|h| h.take()) {
        // not called while it runs itself
        f();
        INNER.with(|h| h.set(Some(f)));
    }
}
thread_local! {
    static INNER: Cell<Option<&'static dyn Fn()>> = const { Cell::new(None) };
}
/// Run `outer`; each time it looks at a datum, the datum's own method runs `inner` first.
pub fn nested<X>(inner: &dyn Fn(), outer: impl FnOnce() -> X) -> X {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            INNER.with(|h| h.set(None));
        }
    }
    let _reset = Reset;
    // SAFETY: forgotten before `inner` ends
    let inner: &'static dyn Fn() = unsafe { std::mem::transmute(inner) };
    INNER.with(|h| h.set(Some(inner)));
    outer()
}
pub fn set_budget(limit: u64) {
    WORK.with(|w| w.set(0));
    LIMIT.with(|l| l.set(limit));
}
/// Generous bound for one call on a tree of `n` data.
pub fn budget(n: usize) {
    set_budget(2_000_000 + 20_000 * n as u64);
}

/// The datum type the harness stores: an identity plus a geometry.
#[derive(Debug, Clone, PartialEq)]
pub struct Item<T: GeoNum> {
    pub id: usize,
    pub g: G<T>,
}
impl<T: Num> AsGeom<T> for Item<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        tick();
        self.g.gref()
    }
}
impl<T: Num> AsPoint<T> for Item<T> {
    fn as_point(&self) -> Point<T> {
        tick();
        match &self.g {
            G::Pt(p) => *p,
            _ => panic!("harness: only points go in a point tree"),
        }
    }
}
/// A comparator: any geometry, with no identity.
#[derive(Debug, Clone)]
pub struct Cmp<T: GeoNum>(pub G<T>);
impl<T: Num> AsGeom<T> for Cmp<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        self.0.gref()
    }
}
pub fn rect<T: Num>(b: (f64, f64, f64, f64)) -> Rect<T> {
    Rect::new(co::<T>((b.0, b.1)), co::<T>((b.2, b.3)))
}

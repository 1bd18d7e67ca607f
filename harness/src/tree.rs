//! One face for both kinds of tree, so that every check runs on both.
use crate::geomx::*;
use geo::Rect;
use quadtree::{
    AsGeom, BoundsQuadTree, CalcMethod, Error, PointQuadTree, QtFloat, QuadTree, QuadTreeSearch,
};

pub type Cfg = Option<(u8, usize)>;

/// Drain an iterator of data; more than `cap` items is a runaway, and it must stay ended.
pub fn drain<I: Iterator>(mut it: I, cap: usize) -> Result<Vec<I::Item>, String> {
    let mut v = vec![];
    while let Some(x) = it.next() {
        v.push(x);
        if v.len() > cap {
            return Err(format!("iterator yielded more than {cap} items"));
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err("an exhausted iterator yielded again".into());
        }
    }
    Ok(v)
}

pub trait Tr<T: Num>: Sized {
    const POINTS: bool;
    fn make(b: Rect<T>, m: CalcMethod, cfg: Cfg) -> Self;
    fn put(&mut self, i: Item<T>) -> Result<(), Error>;
    fn count(&self) -> usize;
    fn get<'a>(&'a self, q: &'a Item<T>) -> Box<dyn Iterator<Item = &'a Item<T>> + 'a>;
    fn all<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Item<T>> + 'a>;
    fn show(&self) -> String;

    fn get_ids(&self, q: &Item<T>) -> Result<Vec<usize>, String> {
        budget(self.count());
        let v = drain(self.get(q), self.count().max(4) * 2)?;
        Ok(v.into_iter().map(|i| i.id).collect())
    }
    fn all_ids(&self) -> Result<Vec<usize>, String> {
        budget(self.count());
        let v = drain(self.all(), self.count().max(4) * 2)?;
        Ok(v.into_iter().map(|i| i.id).collect())
    }
}
pub type Hits<'a, T> = Vec<(&'a Item<T>, T)>;
pub trait STr<T: Num + QtFloat>: Tr<T> {
    fn method(&self) -> CalcMethod;
    fn near<X: AsGeom<T>>(&self, c: &X) -> Result<(&Item<T>, T), Error>;
    fn near_r<X: AsGeom<T>>(&self, c: &X, r: T) -> Result<(&Item<T>, T), Error>;
    fn some<X: AsGeom<T>>(&self, c: &X, k: usize) -> Result<Hits<'_, T>, Error>;
    fn some_r<X: AsGeom<T>>(&self, c: &X, k: usize, r: T) -> Result<Hits<'_, T>, Error>;
    fn order<'a, X: AsGeom<T> + 'a>(
        &'a self,
        c: &'a X,
    ) -> Box<dyn Iterator<Item = (&'a Item<T>, T)> + 'a>;
    /// Consume the tree's own iterators (not boxed ones) in every way.
    fn every_way_here(&self, q: &Item<T>, c: &Cmp<T>, k: usize) -> Result<(), String>;
}

macro_rules! tree_impl {
    ($t:ident, $pts:expr) => {
        impl<T: Num> Tr<T> for $t<Item<T>, T> {
            const POINTS: bool = $pts;
            fn make(b: Rect<T>, m: CalcMethod, cfg: Cfg) -> Self {
                match cfg {
                    Some((d, c)) => $t::new(b, m, d, c),
                    None => $t::from_bounds(b, m),
                }
            }
            fn put(&mut self, i: Item<T>) -> Result<(), Error> {
                budget(QuadTree::size(self));
                self.insert(i)
            }
            fn count(&self) -> usize {
                self.size()
            }
            fn get<'a>(&'a self, q: &'a Item<T>) -> Box<dyn Iterator<Item = &'a Item<T>> + 'a> {
                Box::new(self.retrieve(q))
            }
            fn all<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Item<T>> + 'a> {
                Box::new(self.into_iter())
            }
            fn show(&self) -> String {
                format!("{self}")
            }
        }
        impl<T: Num + QtFloat> STr<T> for $t<Item<T>, T> {
            fn method(&self) -> CalcMethod {
                self.calc_method()
            }
            fn near<X: AsGeom<T>>(&self, c: &X) -> Result<(&Item<T>, T), Error> {
                budget(self.size());
                self.find(c)
            }
            fn near_r<X: AsGeom<T>>(&self, c: &X, r: T) -> Result<(&Item<T>, T), Error> {
                budget(self.size());
                self.find_r(c, r)
            }
            fn some<X: AsGeom<T>>(&self, c: &X, k: usize) -> Result<Hits<'_, T>, Error> {
                budget(self.size());
                self.knn(c, k)
            }
            fn some_r<X: AsGeom<T>>(&self, c: &X, k: usize, r: T) -> Result<Hits<'_, T>, Error> {
                budget(self.size());
                self.knn_r(c, k, r)
            }
            fn order<'a, X: AsGeom<T> + 'a>(
                &'a self,
                c: &'a X,
            ) -> Box<dyn Iterator<Item = (&'a Item<T>, T)> + 'a> {
                budget(self.size());
                Box::new(self.sorted(c))
            }
            fn every_way_here(&self, q: &Item<T>, c: &Cmp<T>, k: usize) -> Result<(), String> {
                use crate::props::live::every_way;
                every_way(&|| self.into_iter(), &|i| (i.id, None), k, "iteration")?;
                every_way(&|| self.retrieve(q), &|i| (i.id, None), k, "retrieve")?;
                every_way(&|| self.sorted(c), &|(i, d)| (i.id, Some(d.f().to_bits())), k, "sorted")
            }
        }
    };
}
tree_impl!(PointQuadTree, true);
tree_impl!(BoundsQuadTree, false);

/// Run a body with a numeric type chosen at run time.
#[macro_export]
macro_rules! with_num {
    ($n:expr, $t:ident => $body:expr) => {{
        $crate::geomx::set_far($n);
        match $n % 12 {
            5 | 6 => { type $t = f32; $body }
            7 => { type $t = i16; $body }
            8 => { type $t = i32; $body }
            9 => { type $t = i64; $body }
            10 => { type $t = i128; $body }
            11 => { type $t = isize; $body }
            _ => { type $t = f64; $body }
        }
    }};
}
#[macro_export]
macro_rules! with_float {
    ($single:expr, $t:ident => $body:expr) => {
        if $single { type $t = f32; $body } else { type $t = f64; $body }
    };
}
pub fn is_int(n: u8) -> bool {
    n % 12 >= 7
}
pub fn is_single(n: u8) -> bool {
    matches!(n % 12, 5 | 6)
}
/// Deterministic permutation of 0..n.
pub fn shuffle(n: usize, key: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if key == 0 {
        return v;
    }
    let mut s = key;
    for i in (1..n).rev() {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, (s >> 33) as usize % (i + 1));
    }
    v
}

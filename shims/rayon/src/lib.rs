//! Stand-in for rayon (not available offline): the same adaptors, run sequentially.
pub mod iter {
    pub trait IntoParallelRefIterator<'a> {
        type Item: 'a;
        fn par_iter(&'a self) -> std::slice::Iter<'a, Self::Item>;
    }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for [T] {
        type Item = T;
        fn par_iter(&'a self) -> std::slice::Iter<'a, T> {
            self.iter()
        }
    }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for Vec<T> {
        type Item = T;
        fn par_iter(&'a self) -> std::slice::Iter<'a, T> {
            self.iter()
        }
    }
    pub trait IntoParallelIterator: IntoIterator + Sized {
        fn into_par_iter(self) -> Self::IntoIter {
            self.into_iter()
        }
    }
    impl<T: IntoIterator> IntoParallelIterator for T {}
    pub trait ParallelIterator: Iterator + Sized {
        fn find_any<P: FnMut(&Self::Item) -> bool>(mut self, p: P) -> Option<Self::Item> {
            self.find(p)
        }
        fn find_first<P: FnMut(&Self::Item) -> bool>(mut self, p: P) -> Option<Self::Item> {
            self.find(p)
        }
    }
    impl<T: Iterator> ParallelIterator for T {}
    pub trait IndexedParallelIterator: ParallelIterator {}
    impl<T: Iterator> IndexedParallelIterator for T {}
}
pub mod prelude {
    pub use crate::iter::*;
}

//! Stand-in for the progress bar crate: iterates and draws nothing (the real one starts `tput` to find the width of
//! the terminal, under a global lock).
pub struct Tqdm<I>(I);
impl<I: Iterator> Iterator for Tqdm<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<I> Tqdm<I> {
    pub fn desc<S: ToString>(self, _: Option<S>) -> Self {
        self
    }
    pub fn width(self, _: Option<usize>) -> Self {
        self
    }
    pub fn clear(self, _: bool) -> Self {
        self
    }
}
pub fn tqdm<I: IntoIterator>(i: I) -> Tqdm<I::IntoIter> {
    Tqdm(i.into_iter())
}
pub trait Iter<Item>: Iterator<Item = Item> + Sized {
    fn tqdm(self) -> Tqdm<Self> {
        Tqdm(self)
    }
}
impl<Item, I: Iterator<Item = Item>> Iter<Item> for I {}

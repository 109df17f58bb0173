//! the part of smallvec the repository uses, on the heap
pub trait Array {
    type Item;
}
impl<T, const N: usize> Array for [T; N] {
    type Item = T;
}
pub struct SmallVec<A: Array>(Vec<A::Item>);
impl<A: Array> SmallVec<A> {
    pub const fn new_const() -> Self {
        SmallVec(Vec::new())
    }
    pub const fn new() -> Self {
        SmallVec(Vec::new())
    }
}
impl<A: Array> std::ops::Deref for SmallVec<A> {
    type Target = Vec<A::Item>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<A: Array> std::ops::DerefMut for SmallVec<A> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}

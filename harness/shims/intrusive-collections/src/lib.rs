//! Stand-in for the part of intrusive-collections the repository uses: a linked list of boxed
//! values whose addresses are stable, and offset_of.
use std::collections::VecDeque;
pub use std::mem::offset_of;
#[derive(Default)]
pub struct LinkedListLink(());
impl LinkedListLink {
  pub const fn new() -> Self {
    Self(())
  }
}
pub trait Adapter: Default {
  type Value;
}
pub struct LinkedList<A: Adapter> {
  items: VecDeque<Box<A::Value>>,
}
impl<A: Adapter> Default for LinkedList<A> {
  fn default() -> Self {
    Self { items: VecDeque::new() }
  }
}
pub struct Cursor<'a, A: Adapter>(Option<&'a A::Value>);
impl<'a, A: Adapter> Cursor<'a, A> {
  pub fn get(&self) -> Option<&'a A::Value> {
    self.0
  }
}
impl<A: Adapter> LinkedList<A> {
  pub fn new(_: A) -> Self {
    Self::default()
  }
  pub fn is_empty(&self) -> bool {
    self.items.is_empty()
  }
  pub fn front(&self) -> Cursor<'_, A> {
    Cursor(self.items.front().map(|b| &**b))
  }
  pub fn back(&self) -> Cursor<'_, A> {
    Cursor(self.items.back().map(|b| &**b))
  }
  pub fn pop_front(&mut self) -> Option<Box<A::Value>> {
    self.items.pop_front()
  }
  pub fn pop_back(&mut self) -> Option<Box<A::Value>> {
    self.items.pop_back()
  }
  pub fn push_front(&mut self, v: Box<A::Value>) {
    self.items.push_front(v);
  }
  pub fn push_back(&mut self, v: Box<A::Value>) {
    self.items.push_back(v);
  }
  pub fn iter(&self) -> impl Iterator<Item = &A::Value> {
    self.items.iter().map(|b| &**b)
  }
}
#[macro_export]
macro_rules! intrusive_adapter {
  ($name:ident<$t:ident> = Box<$c:ty>: $v:ty { $link:ident: LinkedListLink }) => {
    struct $name<$t>(::std::marker::PhantomData<$t>);
    impl<$t> Default for $name<$t> {
      fn default() -> Self {
        Self(::std::marker::PhantomData)
      }
    }
    impl<$t> $crate::Adapter for $name<$t> {
      type Value = $v;
    }
  };
}

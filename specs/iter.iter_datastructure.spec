@source core/src/iter/iter_datastructure.rs
@items
impl<T> Stack<T> { pub open spec fn items(&self) -> Seq<T> { self.stack@ } }
impl<T> Queue<T> { pub open spec fn items(&self) -> Seq<T> { self.queue@ } }
impl<T> MaxPriorityQueue<T> { pub open spec fn bag(&self) -> Multiset<T> { self.priority_queue@ } }
impl<T> MinPriorityQueue<T> {
    /// how many copies of x are waiting
    pub open spec fn count(&self, x: T) -> nat { self.priority_queue@.count(Reverse(x)) }
    pub open spec fn size(&self) -> nat { self.priority_queue@.len() }
}
/// q2 is q with one more x
pub open spec fn pushed<T>(q: MinPriorityQueue<T>, x: T, q2: MinPriorityQueue<T>) -> bool {
    forall|y: T| #[trigger] q2.count(y) == q.count(y) + if y == x { 1int } else { 0int }
}
/// q2 is q with one less x
pub open spec fn popped<T>(q: MinPriorityQueue<T>, x: T, q2: MinPriorityQueue<T>) -> bool {
    q.count(x) > 0 && q.size() == q2.size() + 1 && forall|y: T| #[trigger] q2.count(y) == q.count(y) - if y == x { 1int } else { 0int }
}
@fn Stack::new
ensures r.items() == Seq::<E>::empty(),
@fn Stack::push
ensures final(self).items() == old(self).items().push(elt),
@fn Stack::pop
ensures match r {
    Some(x) => old(self).items().len() > 0 && x == old(self).items().last() && final(self).items() == old(self).items().drop_last(),
    None => old(self).items().len() == 0 && final(self).items() == old(self).items(),
},
@fn Queue::new
ensures r.items() == Seq::<E>::empty(),
@fn Queue::push
ensures final(self).items() == old(self).items().push(elt),
@fn Queue::pop
ensures match r {
    Some(x) => old(self).items().len() > 0 && x == old(self).items()[0] && final(self).items() == old(self).items().drop_first()
        && (forall|y: T| #[trigger] old(self).items().contains(y) ==> y == x || final(self).items().contains(y)),
    None => old(self).items().len() == 0 && final(self).items() == old(self).items(),
},
@fn MaxPriorityQueue::new
ensures r.bag() == Multiset::<E>::empty(),
@fn MaxPriorityQueue::push
ensures final(self).bag() == old(self).bag().insert(elt),
@fn MaxPriorityQueue::pop
ensures match r {
    Some(x) => old(self).bag().count(x) > 0 && final(self).bag() == old(self).bag().remove(x)
        && forall|y: T| #[trigger] old(self).bag().count(y) > 0 ==> T::le(y, x),
    None => old(self).bag() == Multiset::<T>::empty() && final(self).bag() == old(self).bag(),
},
@fn MinPriorityQueue::new
ensures forall|x: E| #[trigger] r.count(x) == 0, r.priority_queue@ == Multiset::<Reverse<E>>::empty(),
@fn MinPriorityQueue::push
ensures forall|x: T| #[trigger] final(self).count(x) == old(self).count(x) + if x == elt { 1nat } else { 0nat }, pushed(*old(self), elt, *final(self)),
    final(self).priority_queue@ == old(self).priority_queue@.insert(Reverse(elt)),
@fn MinPriorityQueue::pop
ensures match r {
    Some(x) => old(self).count(x) > 0 && (forall|y: T| #[trigger] old(self).count(y) > 0 ==> T::le(x, y))
        && popped(*old(self), x, *final(self))
        && (forall|y: T| #[trigger] final(self).count(y) == old(self).count(y) - if y == x { 1int } else { 0int })
        && final(self).priority_queue@ == old(self).priority_queue@.remove(Reverse(x)),
    None => (forall|y: T| #[trigger] old(self).count(y) == 0) && final(self).priority_queue@ == old(self).priority_queue@
        && old(self).priority_queue@ == Multiset::<Reverse<T>>::empty(),
},

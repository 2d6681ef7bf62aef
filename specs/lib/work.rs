// The work left in a list of paths that are replaced by their prolongations: at most b prolongations each, up to a length of d
pub open spec fn weight(b: nat, k: nat) -> nat decreases k { if k == 0 { 1 } else { 1 + b * weight(b, (k - 1) as nat) } }
pub open spec fn one_load<T>(b: nat, d: nat, p: Seq<T>) -> nat { weight(b, if p.len() > d { 0 } else { (d - p.len()) as nat }) }
pub open spec fn load<T>(b: nat, d: nat, q: Seq<Seq<T>>) -> nat decreases q.len() { if q.len() == 0 { 0 } else { load(b, d, q.drop_last()) + one_load(b, d, q.last()) } }
pub proof fn lemma_load_push<T>(b: nat, d: nat, q: Seq<Seq<T>>, p: Seq<T>)
    ensures load(b, d, q.push(p)) == load(b, d, q) + one_load(b, d, p),
{ assert(q.push(p).drop_last() =~= q); }
pub proof fn lemma_load_front<T>(b: nat, d: nat, q: Seq<Seq<T>>)
    requires q.len() > 0,
    ensures load(b, d, q) == load(b, d, q.drop_first()) + one_load(b, d, q[0]),
    decreases q.len(),
{
    if q.len() == 1 {
        assert(q.drop_last() =~= Seq::<Seq<T>>::empty());
        assert(q.drop_first() =~= Seq::<Seq<T>>::empty());
        assert(load(b, d, q.drop_last()) == 0);
    } else {
        lemma_load_front(b, d, q.drop_last());
        assert(q.drop_first().drop_last() =~= q.drop_last().drop_first());
        assert(q.drop_first().last() == q.last());
    }
}
pub proof fn lemma_load_pos(b: nat, k: nat)
    ensures weight(b, k) > 0,
    decreases k,
{ if k > 0 { lemma_load_pos(b, (k - 1) as nat); assert(b * weight(b, (k - 1) as nat) >= 0) by (nonlinear_arith); } }

// Texts: lines of a file, decimal numbers, regular expressions
// ---- decimal numbers
pub open spec fn digit(k: int) -> char {
    if k == 0 { '0' } else if k == 1 { '1' } else if k == 2 { '2' } else if k == 3 { '3' } else if k == 4 { '4' }
    else if k == 5 { '5' } else if k == 6 { '6' } else if k == 7 { '7' } else if k == 8 { '8' } else { '9' }
}
/// the decimal writing of n (Display)
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n as int)] } else { dec(n / 10).push(digit((n % 10) as int)) } }
pub proof fn lemma_dec(n: nat)
    ensures all_digits(dec(n)), digits_val(dec(n)) == n,
    decreases n,
{
    reveal_with_fuel(digits_val, 2);
    if n >= 10 {
        lemma_dec(n / 10);
        let d = dec(n / 10);
        assert(d.push(digit((n % 10) as int)).drop_last() =~= d);
    } else {
        assert(seq![digit(n as int)].drop_last() =~= Seq::<char>::empty());
    }
}
// ---- what std and the regex crate take for digits and spaces
pub uninterp spec fn is_nd(c: char) -> bool;
pub uninterp spec fn is_space(c: char) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_nd(c: char)
    ensures (c as u32) < 128 ==> (#[trigger] is_nd(c) <==> '0' <= c <= '9'), is_nd(c) ==> !is_space(c),
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_space(c: char)
    ensures (c as u32) < 128 ==> (#[trigger] is_space(c) <==> c == ' ' || 9 <= (c as u32) <= 13), is_space(c) ==> !is_nd(c),
{ }
// ---- regular expressions ^...$ made of characters and repeated classes
pub enum Cls { Digit, Space, Any }
pub enum Atom { Lit(Seq<char>), Run(Cls, nat) }
pub open spec fn in_cls(c: Cls, x: char) -> bool { match c { Cls::Digit => is_nd(x), Cls::Space => is_space(x), Cls::Any => x != '\n' } }
pub open spec fn all_in(c: Cls, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> in_cls(c, #[trigger] s[i]) }
pub open spec fn longest(c: Cls, s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || !in_cls(c, s[0]) { 0 } else { 1 + longest(c, s.drop_first()) } }
/// the groups of the match: each repetition takes as much as it can while the rest still matches
pub open spec fn rmatch(p: Seq<(Atom, bool)>, s: Seq<char>) -> Option<Seq<Seq<char>>>
    decreases p.len(), 1nat, 0nat,
{
    if p.len() == 0 { if s.len() == 0 { Some(Seq::empty()) } else { None } }
    else {
        match p[0].0 {
            Atom::Lit(l) => if l.len() <= s.len() && s.take(l.len() as int) == l { rmatch(p.drop_first(), s.skip(l.len() as int)) } else { None },
            Atom::Run(c, min) => rrun(p, s, longest(c, s), min),
        }
    }
}
pub open spec fn rrun(p: Seq<(Atom, bool)>, s: Seq<char>, k: nat, min: nat) -> Option<Seq<Seq<char>>>
    decreases p.len(), 0nat, k,
{
    if p.len() == 0 || k < min { None }
    else {
        match rmatch(p.drop_first(), s.skip(k as int)) {
            Some(g) => Some(if p[0].1 { seq![s.take(k as int)] + g } else { g }),
            None => if k == 0 { None } else { rrun(p, s, (k - 1) as nat, min) },
        }
    }
}
#[verifier::external_body]
pub struct Regex { _r: u8 }
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<(Atom, bool)>;
    #[verifier::external_body]
    pub fn captures_iter<'a>(&self, s: &'a str) -> (r: It<Vec<&'a str>>)
        ensures r.pos() == 0, match rmatch(self.pat(), s@) { Some(g) => r.all().len() > 0 && groups_are(r.all()[0]@, g), None => r.all().len() == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn captures<'a>(&self, s: &'a str) -> (r: Option<Vec<&'a str>>)
        ensures match rmatch(self.pat(), s@) { Some(g) => r is Some && groups_are(r.unwrap()@, g), None => r is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &str) -> (r: bool)
        ensures r == rmatch(self.pat(), s@) is Some,
    { unimplemented!() }
}
/// c are the whole match and its groups g
pub open spec fn groups_are(c: Seq<&str>, g: Seq<Seq<char>>) -> bool { c.len() == g.len() + 1 && forall|i: int| 1 <= i < c.len() ==> (#[trigger] c[i])@ == g[i - 1] }
#[verifier::external_body]
pub fn vregex_any() -> (r: Result<Regex, VParseErr>)
{ unimplemented!() }
pub proof fn lemma_longest(c: Cls, s: Seq<char>)
    ensures longest(c, s) <= s.len(), all_in(c, s.take(longest(c, s) as int)), longest(c, s) < s.len() ==> !in_cls(c, s[longest(c, s) as int]),
    decreases s.len(),
{
    if s.len() > 0 && in_cls(c, s[0]) {
        let t = s.drop_first();
        lemma_longest(c, t);
        let k = longest(c, s) as int;
        assert forall|i: int| 0 <= i < k implies in_cls(c, #[trigger] s.take(k)[i]) by { if i > 0 { assert(s.take(k)[i] == t.take(k - 1)[i - 1]); } }
        if k < s.len() { assert(s[k] == t[k - 1]); }
    }
}
pub proof fn lemma_longest_is(c: Cls, d: Seq<char>, t: Seq<char>)
    requires all_in(c, d), t.len() == 0 || !in_cls(c, t[0]),
    ensures longest(c, d + t) == d.len(), (d + t).take(d.len() as int) == d, (d + t).skip(d.len() as int) == t,
    decreases d.len(),
{
    let s = d + t;
    assert(s.take(d.len() as int) =~= d);
    assert(s.skip(d.len() as int) =~= t);
    if d.len() > 0 {
        assert(s.drop_first() =~= d.drop_first() + t);
        assert(s[0] == d[0]);
        assert forall|i: int| 0 <= i < d.drop_first().len() implies in_cls(c, #[trigger] d.drop_first()[i]) by { assert(d.drop_first()[i] == d[i + 1]); }
        lemma_longest_is(c, d.drop_first(), t);
    }
}
/// shorter repetitions do not match either
pub proof fn lemma_no_shorter(p: Seq<(Atom, bool)>, s: Seq<char>, k: nat, min: nat)
    requires p.len() > 0, forall|j: int| 0 <= j <= k ==> rmatch(p.drop_first(), #[trigger] s.skip(j)) is None,
    ensures rrun(p, s, k, min) is None,
    decreases k,
{
    assert(rmatch(p.drop_first(), s.skip(k as int)) is None);
    if k > 0 { lemma_no_shorter(p, s, (k - 1) as nat, min); }
}
/// a repetition at the head, when giving characters back cannot help
pub proof fn lemma_run(p: Seq<(Atom, bool)>, s: Seq<char>, c: Cls, min: nat)
    requires p.len() > 0, p[0].0 == Atom::Run(c, min),
        forall|j: int| 0 <= j < longest(c, s) ==> rmatch(p.drop_first(), #[trigger] s.skip(j)) is None,
    ensures rmatch(p, s) == if longest(c, s) < min { None } else { match rmatch(p.drop_first(), s.skip(longest(c, s) as int)) {
        Some(g) => Some(if p[0].1 { seq![s.take(longest(c, s) as int)] + g } else { g }),
        None => None,
    } },
{
    let k = longest(c, s);
    reveal_with_fuel(rrun, 2);
    assert(rmatch(p, s) == rrun(p, s, k, min));
    if k >= min && rmatch(p.drop_first(), s.skip(k as int)) is None && k > 0 { lemma_no_shorter(p, s, (k - 1) as nat, min); }
}
// ---- ids
/// d writes the id v
pub open spec fn id_text(d: Seq<char>, v: u64) -> bool { all_digits(d) && digits_val(d) == v }
pub open spec fn spaces(w: Seq<char>) -> bool { w.len() > 0 && all_in(Cls::Space, w) }
/// what an id looks like to the regular expressions
pub proof fn lemma_id_digits(d: Seq<char>)
    ensures all_digits(d) ==> all_in(Cls::Digit, d) && d.len() > 0 && after_plus(d) == d,
        all_in(Cls::Digit, d) ==> after_plus(d) == d,
{
    broadcast use axiom_nd;
    if all_digits(d) { assert forall|i: int| 0 <= i < d.len() implies in_cls(Cls::Digit, #[trigger] d[i]) by { assert('0' <= d[i] <= '9'); } }
    if all_in(Cls::Digit, d) && d.len() > 0 { assert(in_cls(Cls::Digit, d[0])); }
}
/// a text of digits (in the sense of the regular expressions) is an id when its value can be read
pub proof fn lemma_id_text(d: Seq<char>)
    requires all_in(Cls::Digit, d),
    ensures forall|v: u64| #[trigger] id_text(d, v) <==> u64_text(d) == Some(v),
{
    lemma_id_digits(d);
    if all_digits(d) { lemma_digits_pos(d); }
}
pub proof fn lemma_digits_pos(d: Seq<char>)
    requires forall|i: int| 0 <= i < d.len() ==> '0' <= #[trigger] d[i] <= '9',
    ensures digits_val(d) >= 0,
    decreases d.len(),
{
    if d.len() > 0 {
        assert('0' <= d[d.len() - 1] <= '9');
        lemma_digits_pos(d.drop_last());
    }
}
pub open spec fn d_end(l: Seq<char>) -> Seq<(Atom, bool)> { seq![(Atom::Lit(l), false), (Atom::Run(Cls::Digit, 1), true)] }
pub open spec fn d_s_d_end(l: Seq<char>) -> Seq<(Atom, bool)> { seq![(Atom::Lit(l), false), (Atom::Run(Cls::Digit, 1), true), (Atom::Run(Cls::Space, 1), false), (Atom::Run(Cls::Digit, 1), true)] }
/// s is a non-empty run of digits
pub open spec fn is_d(s: Seq<char>) -> bool { s.len() > 0 && all_in(Cls::Digit, s) }
pub open spec fn is_dsd(s: Seq<char>, d: Seq<char>, w: Seq<char>, e: Seq<char>) -> bool { s == d + w + e && is_d(d) && spaces(w) && is_d(e) }
pub open spec fn is_sd(s: Seq<char>, w: Seq<char>, e: Seq<char>) -> bool { s == w + e && spaces(w) && is_d(e) }
pub proof fn lemma_match_end(s: Seq<char>)
    ensures rmatch(Seq::<(Atom, bool)>::empty(), s) == if s.len() == 0 { Some(Seq::<Seq<char>>::empty()) } else { None },
{ }
/// \d+$
pub proof fn lemma_match_d(p: Seq<(Atom, bool)>, s: Seq<char>)
    requires p.len() == 1, p[0] == (Atom::Run(Cls::Digit, 1), true),
    ensures rmatch(p, s) == if is_d(s) { Some(seq![s]) } else { None },
{
    let k = longest(Cls::Digit, s);
    lemma_longest(Cls::Digit, s);
    assert(p.drop_first() =~= Seq::<(Atom, bool)>::empty());
    assert forall|j: int| 0 <= j < k implies rmatch(p.drop_first(), #[trigger] s.skip(j)) is None by { assert(s.skip(j).len() > 0); }
    lemma_run(p, s, Cls::Digit, 1);
    if is_d(s) {
        lemma_longest_is(Cls::Digit, s, Seq::<char>::empty());
        assert(s + Seq::<char>::empty() =~= s);
        assert(seq![s] + Seq::<Seq<char>>::empty() =~= seq![s]);
    } else if k >= 1 {
        if k == s.len() { assert(s.take(k as int) =~= s); }
    }
}
/// \s+\d+$
pub proof fn lemma_match_sd(p: Seq<(Atom, bool)>, s: Seq<char>)
    requires p.len() == 2, p[0] == (Atom::Run(Cls::Space, 1), false), p[1] == (Atom::Run(Cls::Digit, 1), true),
    ensures match rmatch(p, s) { Some(g) => g.len() == 1 && exists|w: Seq<char>| #[trigger] is_sd(s, w, g[0]), None => true },
        forall|w: Seq<char>, e: Seq<char>| #[trigger] is_sd(s, w, e) ==> rmatch(p, s) == Some(seq![e]),
        s.len() == 0 || !is_space(s[0]) ==> rmatch(p, s) is None,
{
    broadcast use axiom_nd, axiom_space;
    let k = longest(Cls::Space, s);
    lemma_longest(Cls::Space, s);
    let q = p.drop_first();
    assert(q[0] == p[1]);
    assert forall|j: int| 0 <= j < k implies rmatch(q, #[trigger] s.skip(j)) is None by {
        let t = s.skip(j);
        lemma_match_d(q, t);
        assert(t[0] == s.take(k as int)[j]);
        assert(in_cls(Cls::Space, s.take(k as int)[j]));
        if is_d(t) { assert(in_cls(Cls::Digit, t[0])); }
    }
    lemma_run(p, s, Cls::Space, 1);
    lemma_match_d(q, s.skip(k as int));
    if k >= 1 && rmatch(p, s) is Some {
        let w = s.take(k as int);
        let e = s.skip(k as int);
        assert(s =~= w + e);
        assert(is_sd(s, w, e));
        let g = rmatch(p, s).unwrap();
        assert(g =~= seq![e]);
        assert(is_sd(s, w, g[0]));
    }
    assert forall|w: Seq<char>, e: Seq<char>| #[trigger] is_sd(s, w, e) implies rmatch(p, s) == Some(seq![e]) by {
        assert(in_cls(Cls::Digit, e[0]));
        lemma_longest_is(Cls::Space, w, e);
    }
}
/// \d+\s+\d+$
pub proof fn lemma_match_dsd(p: Seq<(Atom, bool)>, s: Seq<char>)
    requires p.len() == 3, p[0] == (Atom::Run(Cls::Digit, 1), true), p[1] == (Atom::Run(Cls::Space, 1), false), p[2] == (Atom::Run(Cls::Digit, 1), true),
    ensures match rmatch(p, s) { Some(g) => g.len() == 2 && exists|w: Seq<char>| #[trigger] is_dsd(s, g[0], w, g[1]), None => true },
        forall|d: Seq<char>, w: Seq<char>, e: Seq<char>| #[trigger] is_dsd(s, d, w, e) ==> rmatch(p, s) == Some(seq![d, e]),
{
    broadcast use axiom_nd, axiom_space;
    let k = longest(Cls::Digit, s);
    lemma_longest(Cls::Digit, s);
    let q = p.drop_first();
    assert(q[0] == p[1] && q[1] == p[2]);
    assert forall|j: int| 0 <= j < k implies rmatch(q, #[trigger] s.skip(j)) is None by {
        let t = s.skip(j);
        lemma_match_sd(q, t);
        assert(t[0] == s.take(k as int)[j]);
        assert(in_cls(Cls::Digit, s.take(k as int)[j]));
    }
    lemma_run(p, s, Cls::Digit, 1);
    lemma_match_sd(q, s.skip(k as int));
    if k >= 1 && rmatch(p, s) is Some {
        let d = s.take(k as int);
        let t = s.skip(k as int);
        let g = rmatch(q, t).unwrap();
        let w = choose|w: Seq<char>| #[trigger] is_sd(t, w, g[0]);
        let gg = rmatch(p, s).unwrap();
        assert(gg =~= seq![d] + g);
        assert(gg[0] == d && gg[1] == g[0]);
        assert(s =~= d + t);
        assert(is_sd(t, w, g[0]));
        assert(s =~= d + w + g[0]);
        assert(is_dsd(s, gg[0], w, gg[1]));
    }
    assert forall|d: Seq<char>, w: Seq<char>, e: Seq<char>| #[trigger] is_dsd(s, d, w, e) implies rmatch(p, s) == Some(seq![d, e]) by {
        let t = w + e;
        assert(is_sd(t, w, e));
        assert(s =~= d + t);
        assert(t[0] == w[0]);
        assert(in_cls(Cls::Space, w[0]));
        lemma_longest_is(Cls::Digit, d, t);
        assert(seq![d] + seq![e] =~= seq![d, e]);
    }
}
/// l\d+$
pub proof fn lemma_kw_d(l: Seq<char>, s: Seq<char>)
    ensures match rmatch(d_end(l), s) { Some(g) => g.len() == 1 && s == l + g[0] && is_d(g[0]), None => true },
        forall|d: Seq<char>| is_d(d) && s == #[trigger] (l + d) ==> rmatch(d_end(l), s) == Some(seq![d]),
{
    let p = d_end(l);
    let q = p.drop_first();
    assert(q.len() == 1 && q[0] == p[1]);
    let t = s.skip(l.len() as int);
    lemma_match_d(q, t);
    if rmatch(p, s) is Some { assert(s =~= l + t); }
    assert forall|d: Seq<char>| is_d(d) && s == #[trigger] (l + d) implies rmatch(p, s) == Some(seq![d]) by {
        assert(s.take(l.len() as int) =~= l);
        assert(t =~= d);
    }
}
/// l\d+\s+\d+$
pub proof fn lemma_kw_dsd(l: Seq<char>, s: Seq<char>)
    ensures match rmatch(d_s_d_end(l), s) { Some(g) => g.len() == 2 && exists|w: Seq<char>| #[trigger] is_kdsd(s, l, g[0], w, g[1]), None => true },
        forall|d: Seq<char>, w: Seq<char>, e: Seq<char>| #[trigger] is_kdsd(s, l, d, w, e) ==> rmatch(d_s_d_end(l), s) == Some(seq![d, e]),
{
    let p = d_s_d_end(l);
    let q = p.drop_first();
    assert(q.len() == 3 && q[0] == p[1] && q[1] == p[2] && q[2] == p[3]);
    let t = s.skip(l.len() as int);
    lemma_match_dsd(q, t);
    if rmatch(p, s) is Some {
        let g = rmatch(p, s).unwrap();
        let w = choose|w: Seq<char>| #[trigger] is_dsd(t, g[0], w, g[1]);
        assert(s =~= l + t);
        assert(is_kdsd(s, l, g[0], w, g[1]));
    }
    assert forall|d: Seq<char>, w: Seq<char>, e: Seq<char>| #[trigger] is_kdsd(s, l, d, w, e) implies rmatch(p, s) == Some(seq![d, e]) by {
        assert(s.take(l.len() as int) =~= l);
        assert(t =~= d + w + e);
        assert(is_dsd(t, d, w, e));
    }
}
pub open spec fn is_kdsd(s: Seq<char>, l: Seq<char>, d: Seq<char>, w: Seq<char>, e: Seq<char>) -> bool { s == l + (d + w + e) && is_d(d) && spaces(w) && is_d(e) }
// ---- what follows is ignored: (.*)$
pub open spec fn lead(c: Cls, s: Seq<char>) -> Seq<char> { s.take(longest(c, s) as int) }
pub open spec fn after(c: Cls, s: Seq<char>) -> Seq<char> { s.skip(longest(c, s) as int) }
pub open spec fn d_any() -> Seq<(Atom, bool)> { seq![(Atom::Run(Cls::Digit, 1), true), (Atom::Run(Cls::Any, 0), true)] }
pub open spec fn d_s_d_any() -> Seq<(Atom, bool)> { seq![(Atom::Run(Cls::Digit, 1), true), (Atom::Run(Cls::Space, 1), false), (Atom::Run(Cls::Digit, 1), true), (Atom::Run(Cls::Any, 0), true)] }
pub open spec fn no_eol(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' }
pub proof fn lemma_no_eol_skip(s: Seq<char>, k: int)
    requires no_eol(s), 0 <= k <= s.len(),
    ensures no_eol(s.skip(k)),
{ assert forall|i: int| 0 <= i < s.skip(k).len() implies #[trigger] s.skip(k)[i] != '\n' by { assert(s.skip(k)[i] == s[i + k]); } }
pub proof fn lemma_match_any(p: Seq<(Atom, bool)>, s: Seq<char>)
    requires p.len() == 1, p[0] == (Atom::Run(Cls::Any, 0), true), no_eol(s),
    ensures rmatch(p, s) == Some(seq![s]),
{
    assert forall|i: int| 0 <= i < s.len() implies in_cls(Cls::Any, #[trigger] s[i]) by { }
    lemma_longest_is(Cls::Any, s, Seq::<char>::empty());
    assert(s + Seq::<char>::empty() =~= s);
    assert(p.drop_first() =~= Seq::<(Atom, bool)>::empty());
    assert(s.skip(s.len() as int) =~= Seq::<char>::empty());
    assert(s.take(s.len() as int) =~= s);
    lemma_match_end(s.skip(s.len() as int));
    reveal_with_fuel(rrun, 2);
    assert(rmatch(p, s) == rrun(p, s, s.len(), 0));
    assert(seq![s] + Seq::<Seq<char>>::empty() =~= seq![s]);
}
pub proof fn lemma_match_d_any(p: Seq<(Atom, bool)>, s: Seq<char>)
    requires p.len() == 2, p[0] == (Atom::Run(Cls::Digit, 1), true), p[1] == (Atom::Run(Cls::Any, 0), true), no_eol(s),
    ensures rmatch(p, s) == if lead(Cls::Digit, s).len() > 0 { Some(seq![lead(Cls::Digit, s), after(Cls::Digit, s)]) } else { None },
{
    let k = longest(Cls::Digit, s);
    lemma_longest(Cls::Digit, s);
    let q = p.drop_first();
    assert(q[0] == p[1]);
    lemma_no_eol_skip(s, k as int);
    lemma_match_any(q, s.skip(k as int));
    reveal_with_fuel(rrun, 2);
    assert(rmatch(p, s) == rrun(p, s, k, 1));
    assert(seq![lead(Cls::Digit, s)] + seq![after(Cls::Digit, s)] =~= seq![lead(Cls::Digit, s), after(Cls::Digit, s)]);
}
pub proof fn lemma_match_s_d_any(p: Seq<(Atom, bool)>, s: Seq<char>)
    requires p.len() == 3, p[0] == (Atom::Run(Cls::Space, 1), false), p[1] == (Atom::Run(Cls::Digit, 1), true), p[2] == (Atom::Run(Cls::Any, 0), true), no_eol(s),
    ensures rmatch(p, s) == ({
        let u = after(Cls::Space, s);
        if lead(Cls::Space, s).len() > 0 && lead(Cls::Digit, u).len() > 0 { Some(seq![lead(Cls::Digit, u), after(Cls::Digit, u)]) } else { None }
    }),
{
    broadcast use axiom_nd, axiom_space;
    let k = longest(Cls::Space, s);
    lemma_longest(Cls::Space, s);
    let q = p.drop_first();
    assert(q[0] == p[1] && q[1] == p[2]);
    assert forall|j: int| 0 <= j < k implies rmatch(q, #[trigger] s.skip(j)) is None by {
        let t = s.skip(j);
        lemma_no_eol_skip(s, j);
        lemma_match_d_any(q, t);
        assert(t[0] == s.take(k as int)[j]);
        assert(in_cls(Cls::Space, s.take(k as int)[j]));
    }
    lemma_run(p, s, Cls::Space, 1);
    lemma_no_eol_skip(s, k as int);
    lemma_match_d_any(q, s.skip(k as int));
}
pub proof fn lemma_match_d_s_d_any(s: Seq<char>)
    requires no_eol(s),
    ensures rmatch(d_s_d_any(), s) == ({
        let t = after(Cls::Digit, s);
        let u = after(Cls::Space, t);
        if lead(Cls::Digit, s).len() > 0 && lead(Cls::Space, t).len() > 0 && lead(Cls::Digit, u).len() > 0 { Some(seq![lead(Cls::Digit, s), lead(Cls::Digit, u), after(Cls::Digit, u)]) } else { None }
    }),
{
    broadcast use axiom_nd, axiom_space;
    let p = d_s_d_any();
    let k = longest(Cls::Digit, s);
    lemma_longest(Cls::Digit, s);
    let q = p.drop_first();
    assert(q.len() == 3 && q[0] == p[1] && q[1] == p[2] && q[2] == p[3]);
    assert forall|j: int| 0 <= j < k implies rmatch(q, #[trigger] s.skip(j)) is None by {
        let t = s.skip(j);
        lemma_no_eol_skip(s, j);
        lemma_match_s_d_any(q, t);
        assert(t[0] == s.take(k as int)[j]);
        assert(in_cls(Cls::Digit, s.take(k as int)[j]));
    }
    lemma_run(p, s, Cls::Digit, 1);
    lemma_no_eol_skip(s, k as int);
    lemma_match_s_d_any(q, s.skip(k as int));
    let t = after(Cls::Digit, s);
    let u = after(Cls::Space, t);
    assert(seq![lead(Cls::Digit, s)] + seq![lead(Cls::Digit, u), after(Cls::Digit, u)] =~= seq![lead(Cls::Digit, s), lead(Cls::Digit, u), after(Cls::Digit, u)]);
}
// ---- a message which names a number
pub open spec fn no_digit_at_end(a: Seq<char>) -> bool { a.len() == 0 || !is_nd(a.last()) }
pub open spec fn no_digit_at_start(b: Seq<char>) -> bool { b.len() == 0 || !is_nd(b[0]) }
pub open spec fn around(m: Seq<char>, a: Seq<char>, n: nat, b: Seq<char>) -> bool { m == a + dec(n) + b && no_digit_at_end(a) && no_digit_at_start(b) }
pub open spec fn names(m: Seq<char>, n: nat) -> bool { exists|a: Seq<char>, b: Seq<char>| #[trigger] around(m, a, n, b) }
pub broadcast proof fn lemma_names(z: Seq<char>, n: nat, l: Seq<char>, s: Seq<char>)
    requires no_digit_at_end(z), l.len() > 0, no_digit_at_start(l),
    ensures #[trigger] names(z + dec(n) + l + s, n),
{
    assert(z + dec(n) + l + s =~= z + dec(n) + (l + s));
    assert(around(z + dec(n) + l + s, z, n, l + s));
}
pub broadcast proof fn lemma_names_mid(z: Seq<char>, n: nat, l: Seq<char>)
    requires no_digit_at_end(z), no_digit_at_start(l),
    ensures #[trigger] names(z + dec(n) + l, n),
{ assert(around(z + dec(n) + l, z, n, l)); }
pub broadcast proof fn lemma_names_end(z: Seq<char>, n: nat)
    requires no_digit_at_end(z),
    ensures #[trigger] names(z + dec(n), n),
{
    assert(z + dec(n) =~= z + dec(n) + Seq::<char>::empty());
    assert(around(z + dec(n), z, n, Seq::<char>::empty()));
}
// ---- building texts (format!, write!)
pub trait VDisplay { spec fn shown(&self) -> Seq<char>; }
impl VDisplay for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VDisplay for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VDisplay for i64 { open spec fn shown(&self) -> Seq<char> { if *self < 0 { seq!['-'] + dec((0 - *self) as nat) } else { dec(*self as nat) } } }
impl VDisplay for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VDisplay for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VDisplay for VParseErr { uninterp spec fn shown(&self) -> Seq<char>; }
impl VDisplay for IoError { uninterp spec fn shown(&self) -> Seq<char>; }
impl<T: VDisplay + ?Sized> VDisplay for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl VToString for u64 {
    open spec fn text(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { unimplemented!() }
}
impl VToString for usize {
    open spec fn text(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn to_string_(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vtext_new() -> (r: String)
    ensures r@ == Seq::<char>::empty(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vtext_lit(t: String, l: String) -> (r: String)
    ensures r@ == t@ + l@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vtext_arg<T: VDisplay + ?Sized>(t: String, x: &T) -> (r: String)
    ensures r@ == t@ + x.shown(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vtext_any(t: String) -> (r: String)
{ unimplemented!() }
pub trait VDebug { spec fn dbg(&self) -> Seq<char>; }
/// numbers with commas between them
pub open spec fn commas(s: Seq<u64>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.len() == 1 { dec(s[0] as nat) } else { commas(s.drop_last()) + ", "@ + dec(s.last() as nat) } }
pub open spec fn meant(s: Seq<&u64>) -> Seq<u64> { Seq::new(s.len(), |i: int| *s[i]) }
impl VDebug for Vec<&u64> { open spec fn dbg(&self) -> Seq<char> { "["@ + commas(meant(self@)) + "]"@ } }
#[verifier::external_body]
pub fn vtext_dbg<T: VDebug>(t: String, x: &T) -> (r: String)
    ensures r@ == t@ + x.dbg(),
{ unimplemented!() }
pub trait VStr {
    spec fn text(&self) -> Seq<char>;
    fn is_empty_(&self) -> (r: bool)
        ensures r == (self.text().len() == 0);
    fn trim_(&self) -> (r: &str)
        ensures trimmed(self.text(), r@);
    fn starts_with_<P: VPat>(&self, p: P) -> (r: bool)
        ensures r == (p.pat().len() <= self.text().len() && self.text().take(p.pat().len() as int) == p.pat());
}
impl VStr for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn is_empty_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn trim_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn starts_with_<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
}
impl VStr for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn is_empty_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn trim_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn starts_with_<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
}
/// x is l without the spaces around it
pub open spec fn trimmed(l: Seq<char>, x: Seq<char>) -> bool {
    (exists|t: Seq<char>| all_in(Cls::Space, t) && after(Cls::Space, l) == #[trigger] (x + t)) && (x.len() > 0 ==> !is_space(x.last()))
}
/// a comment: the first character which is no space is '#'
pub open spec fn is_com(l: Seq<char>) -> bool { after(Cls::Space, l).len() > 0 && after(Cls::Space, l)[0] == '#' }
pub proof fn lemma_trimmed(l: Seq<char>, x: Seq<char>)
    requires trimmed(l, x),
    ensures is_com(l) <==> x.len() > 0 && x[0] == '#', is_com(l) <==> x.len() > 0 && x.take(1) == seq!['#'],
{
    let t = choose|t: Seq<char>| all_in(Cls::Space, t) && after(Cls::Space, l) == #[trigger] (x + t);
    let a = after(Cls::Space, l);
    lemma_longest(Cls::Space, l);
    if x.len() == 0 && a.len() > 0 {
        assert(a[0] == t[0]);
        assert(in_cls(Cls::Space, t[0]));
        assert(a[0] == l[longest(Cls::Space, l) as int]);
    }
    if x.len() > 0 { assert(a[0] == x[0]); assert(x.take(1)[0] == x[0] && seq!['#'][0] == '#'); if x[0] == '#' { assert(x.take(1) =~= seq!['#']); } }
}
pub open spec fn com() -> spec_fn(Seq<char>) -> bool { |l: Seq<char>| is_com(l) }
pub broadcast proof fn lemma_nothing_before(s: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + s) == s,
{ assert(Seq::<char>::empty() + s =~= s); }
pub trait VPat { spec fn pat(&self) -> Seq<char>; }
impl VPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl VPat for &str { open spec fn pat(&self) -> Seq<char> { self@ } }
// ---- files
#[derive(Debug)]
#[verifier::external_body]
pub struct IoError { _r: u8 }
pub type IoResult<T> = Result<T, IoError>;
/// how a file was opened for writing
pub enum Mode { Reading, Replace, Append, Overwrite }
#[verifier::external_body]
pub struct File { _r: u8 }
impl File {
    /// the lines of an open file; None: a line that cannot be read (input error, not UTF-8)
    pub uninterp spec fn lines(&self) -> Seq<Option<Seq<char>>>;
    pub uninterp spec fn path(&self) -> Seq<char>;
    pub uninterp spec fn mode(&self) -> Mode;
    #[verifier::external_body]
    pub fn open<P: VPath>(p: P) -> (r: IoResult<File>)
        ensures r is Ok ==> r->Ok_0.path() == p.path_text() && r->Ok_0.mode() == Mode::Reading,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P: VPath>(p: P) -> (r: IoResult<File>)
        ensures r is Ok ==> r->Ok_0.path() == p.path_text() && r->Ok_0.mode() == Mode::Replace,
    { unimplemented!() }
}
pub trait VPath { spec fn path_text(&self) -> Seq<char>; }
impl VPath for &str { open spec fn path_text(&self) -> Seq<char> { self@ } }
impl VPath for String { open spec fn path_text(&self) -> Seq<char> { self@ } }
impl VPath for &String { open spec fn path_text(&self) -> Seq<char> { self@ } }
pub struct OpenOptions { pub ghost w: bool, pub ghost a: bool, pub ghost t: bool }
impl OpenOptions {
    #[verifier::external_body]
    pub fn new() -> (r: OpenOptions)
        ensures !r.w, !r.a, !r.t,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(self, b: bool) -> (r: OpenOptions)
        ensures r.w == b, r.a == self.a, r.t == self.t,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append(self, b: bool) -> (r: OpenOptions)
        ensures r.w == self.w, r.a == b, r.t == self.t,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(self, b: bool) -> (r: OpenOptions)
        ensures r.w == self.w, r.a == self.a, r.t == b,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create(self, b: bool) -> (r: OpenOptions)
        ensures r == self,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn open<P: VPath>(self, p: P) -> (r: IoResult<File>)
        ensures r is Ok ==> r->Ok_0.path() == p.path_text()
            && r->Ok_0.mode() == if self.a { Mode::Append } else if self.w && self.t { Mode::Replace } else if self.w { Mode::Overwrite } else { Mode::Reading },
    { unimplemented!() }
}
pub struct BufReader { pub f: File }
impl BufReader {
    pub fn new(f: File) -> (r: BufReader)
        ensures r.f == f,
    { BufReader { f } }
    #[verifier::external_body]
    pub fn lines(self) -> (r: It<Result<String, IoError>>)
        ensures r.pos() == 0, are_lines(r.all(), self.f.lines()), r.all().len() < usize::MAX,
    { unimplemented!() }
}
pub open spec fn are_lines(x: Seq<Result<String, IoError>>, l: Seq<Option<Seq<char>>>) -> bool {
    x.len() == l.len() && forall|i: int| 0 <= i < x.len() ==> match #[trigger] x[i] { Ok(s) => l[i] == Some(s@) && no_eol(s@), Err(_) => l[i] is None }
}
pub struct BufWriter { pub f: File, pub ghost t: Seq<char> }
impl BufWriter {
    /// what was written so far
    pub open spec fn text(&self) -> Seq<char> { self.t }
    #[verifier::external_body]
    pub fn new(f: File) -> (r: BufWriter)
        ensures r.f == f, r.text() == Seq::<char>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_(&mut self, t: String) -> (r: IoResult<()>)
        ensures final(self).f == old(self).f, r is Ok ==> final(self).text() == old(self).text() + t@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn writeln_(&mut self, t: String) -> (r: IoResult<()>)
        ensures final(self).f == old(self).f, r is Ok ==> final(self).text() == old(self).text() + line(t@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: IoResult<()>)
        ensures final(self).f == old(self).f, final(self).text() == old(self).text(), r is Ok ==> written(old(self).f.path(), old(self).f.mode(), old(self).text()),
    { unimplemented!() }
}
/// the text, and no more, has reached the file at the path, opened that way
pub uninterp spec fn written(path: Seq<char>, m: Mode, text: Seq<char>) -> bool;
pub open spec fn line(t: Seq<char>) -> Seq<char> { t.push('\n') }
/// the lines of a text (BufRead::lines): the end of a line is "\n" or "\r\n"
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if longest(Cls::Any, s) < s.len() { seq![no_cr(lead(Cls::Any, s))] + lines_of(s.skip(longest(Cls::Any, s) as int + 1)) }
    else { seq![s] }
}
pub open spec fn no_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub proof fn lemma_lines_of(l: Seq<char>, s: Seq<char>)
    requires no_eol(l),
    ensures lines_of(line(l) + s) == seq![no_cr(l)] + lines_of(s),
{
    let t = line(l) + s;
    let e = line(Seq::<char>::empty()) + s;
    assert(t =~= l + e);
    assert forall|i: int| 0 <= i < l.len() implies in_cls(Cls::Any, #[trigger] l[i]) by { }
    lemma_longest_is(Cls::Any, l, e);
    assert(t.skip(l.len() as int + 1) =~= s);
}
pub proof fn lemma_lines_concat(t: Seq<char>, s: Seq<char>)
    requires t.len() == 0 || t.last() == '\n',
    ensures lines_of(t + s) == lines_of(t) + lines_of(s),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(t + s =~= s);
        assert(lines_of(t) + lines_of(s) =~= lines_of(s));
    } else {
        let k = longest(Cls::Any, t);
        lemma_longest(Cls::Any, t);
        if k == t.len() { assert(t.take(k as int)[k - 1] == '\n'); assert(in_cls(Cls::Any, t.take(k as int)[k - 1])); }
        let l = lead(Cls::Any, t);
        let u = t.skip(k as int + 1);
        assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != '\n' by { assert(in_cls(Cls::Any, l[i])); }
        assert(t =~= line(l) + u);
        assert(t + s =~= line(l) + (u + s));
        if u.len() > 0 { assert(u.last() == t.last()); }
        lemma_lines_of(l, u);
        lemma_lines_of(l, u + s);
        lemma_lines_concat(u, s);
        assert(seq![no_cr(l)] + (lines_of(u) + lines_of(s)) =~= seq![no_cr(l)] + lines_of(u) + lines_of(s));
    }
}

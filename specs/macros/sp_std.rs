// Trusted contracts for the collections and conversions macros/src/lib.rs uses.
verus! {
pub mod shim_macros {
    use vstd::prelude::*;
    use crate::shim::*;

    pub use crate::shim::{range_seq, vx_range};
    #[verifier::external_body]
    pub fn vx_str_add(a: String, b: &str) -> (r: String)
        ensures r@ == a@ + b@,
    { unimplemented!() }
    pub open spec fn occurs(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
    pub trait VxText {
        /// str::replace, used only where the pattern does not occur
        fn vx_replace(&self, a: &str, b: &str) -> (r: String)
            ensures (forall|i: int| !(#[trigger] occurs(self.vx_text(), a@, i))) ==> r@ == self.vx_text();
        spec fn vx_text(&self) -> Seq<char>;
    }
    impl VxText for str {
        open spec fn vx_text(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn vx_replace(&self, a: &str, b: &str) -> (r: String) { unimplemented!() }
    }
    pub trait VxKey {
        type V;
        spec fn key(&self) -> Self::V;
    }
    impl VxKey for String { type V = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
    impl VxKey for str { type V = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
    impl VxKey for usize { type V = usize; open spec fn key(&self) -> usize { *self } }
    impl<T: VxKey> VxKey for &T { type V = T::V; open spec fn key(&self) -> T::V { (**self).key() } }

    pub mod collections {
        use vstd::prelude::*;
        use crate::shim::*;
        use super::*;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(K)]
        #[verifier::reject_recursive_types(V)]
        pub struct HashMap<K: VxKey, V> { k: Vec<K>, v: Vec<V> }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(K)]
        pub struct Keys<'a, K: VxKey> { k: Vec<&'a K> }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(K)]
        pub struct HashSet<K: VxKey> { k: Vec<K> }

        impl<K: VxKey, V> HashMap<K, V> {
            pub uninterp spec fn view(&self) -> Map<K::V, V>;
            #[verifier::external_body]
            pub fn new() -> (r: Self)
                ensures r@ == Map::<K::V, V>::empty(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
                ensures final(self)@ == old(self)@.insert(k.key(), v),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn get<Q: VxKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
                ensures match r { Some(v) => self@.dom().contains(k.key()) && self@[k.key()] == *v, None => !self@.dom().contains(k.key()) },
            { unimplemented!() }
            #[verifier::external_body]
            pub fn contains_key<Q: VxKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
                ensures r == self@.dom().contains(k.key()),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn len(&self) -> (r: usize)
                ensures r == self@.dom().len(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn keys(&self) -> (r: Keys<'_, K>)
                ensures r@ == self@.dom(),
            { unimplemented!() }
        }
        impl<'a, K: VxKey> Keys<'a, K> {
            pub uninterp spec fn view(&self) -> Set<K::V>;
            #[verifier::external_body]
            pub fn vx_cloned(self) -> (r: VxIter<K>)
                ensures forall|k: K::V| #![trigger self@.contains(k)] #![trigger has_key(r@, k)] self@.contains(k) <==> has_key(r@, k),
            { unimplemented!() }
        }
        pub open spec fn has_key<K: VxKey>(s: Seq<K>, k: K::V) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k }
        impl<K: VxKey> HashSet<K> {
            pub uninterp spec fn view(&self) -> Set<K::V>;
            #[verifier::external_body]
            pub fn new() -> (r: Self)
                ensures r@ == Set::<K::V>::empty(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn insert(&mut self, k: K) -> (r: bool)
                ensures final(self)@ == old(self)@.insert(k.key()), r == !old(self)@.contains(k.key()),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn contains<Q: VxKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
                ensures r == self@.contains(k.key()),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn len(&self) -> (r: usize)
                ensures r == self@.len(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn from_iter(i: VxIter<K>) -> (r: Self)
                ensures forall|k: K::V| #[trigger] r@.contains(k) <==> has_key(i@, k),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn is_empty(&self) -> (r: bool)
                ensures r == (forall|k: K::V| !#[trigger] self@.contains(k)),
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn difference<K: VxKey>(a: &HashSet<K>, b: &HashSet<K>) -> (r: HashSet<K>)
            ensures forall|k: K::V| #![trigger r@.contains(k)] #![trigger b@.contains(k)] r@.contains(k) <==> a@.contains(k) && !b@.contains(k),
        { unimplemented!() }
    }
}
}

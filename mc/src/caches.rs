//! The cache combinations used by the worlds.
pub use sequential_storage::cache::key_pointers::*;
pub use sequential_storage::cache::page_pointers::*;
pub use sequential_storage::cache::page_states::*;
pub use sequential_storage::cache::{Cache, Uncached};

pub type Un<K> = Cache<Uncached, Uncached, Uncached, K>;
pub type Ps<K, const N: usize> = Cache<ArrayPageStates<N>, Uncached, Uncached, K>;
pub type Pp<K, const N: usize> = Cache<Uncached, ArrayPagePointers<N>, Uncached, K>;
pub type Kp<K, const M: usize> = Cache<Uncached, Uncached, ArrayKeyPointers<K, M>, K>;
pub type Psp<K, const N: usize> = Cache<ArrayPageStates<N>, ArrayPagePointers<N>, Uncached, K>;
pub type Arr<K, const N: usize, const M: usize> = Cache<ArrayPageStates<N>, ArrayPagePointers<N>, ArrayKeyPointers<K, M>, K>;
pub type Heap<K> = Cache<HeapPageStates, HeapPagePointers, HeapKeyPointers<K>, K>;
pub type HeapQ<K> = Cache<HeapPageStates, HeapPagePointers, Uncached, K>;
pub type Calc<K> = Cache<CalculatedPageStates, Uncached, Uncached, K>;
pub type CalcP<K> = Cache<CalculatedPageStates, HeapPagePointers, Uncached, K>;
pub type CalcK<K> = Cache<CalculatedPageStates, HeapPagePointers, HeapKeyPointers<K>, K>;

pub fn un<K: Kk>() -> Un<K> {
    Cache::new_uncached()
}
pub fn ps<K: Kk, const N: usize>() -> Ps<K, N> {
    Cache::new(ArrayPageStates::new(), Uncached, Uncached)
}
pub fn pp<K: Kk, const N: usize>() -> Pp<K, N> {
    Cache::new(Uncached, ArrayPagePointers::new(), Uncached)
}
pub fn psp<K: Kk, const N: usize>() -> Psp<K, N> {
    Cache::new(ArrayPageStates::new(), ArrayPagePointers::new(), Uncached)
}
pub fn kp<K: Km, const M: usize>() -> Kp<K, M> {
    Cache::new(Uncached, Uncached, ArrayKeyPointers::new())
}
pub fn arr<K: Km, const N: usize, const M: usize>() -> Arr<K, N, M> {
    Cache::new(ArrayPageStates::new(), ArrayPagePointers::new(), ArrayKeyPointers::new())
}
pub fn heap<K: Km, const N: usize, const M: usize>() -> Heap<K> {
    Cache::new(HeapPageStates::new(N), HeapPagePointers::new(N), HeapKeyPointers::new(M))
}
pub fn heapq<K: Kk, const N: usize>() -> HeapQ<K> {
    Cache::new(HeapPageStates::new(N), HeapPagePointers::new(N), Uncached)
}
pub fn calc<K: Kk, const N: usize>() -> Calc<K> {
    Cache::new(CalculatedPageStates::new(N), Uncached, Uncached)
}
pub fn calcp<K: Kk, const N: usize>() -> CalcP<K> {
    Cache::new(CalculatedPageStates::new(N), HeapPagePointers::new(N), Uncached)
}
pub fn calck<K: Km, const N: usize, const M: usize>() -> CalcK<K> {
    Cache::new(CalculatedPageStates::new(N), HeapPagePointers::new(N), HeapKeyPointers::new(M))
}
/// any key type of a cache (`()` for queues)
pub trait Kk: Eq {}
impl<T: Eq> Kk for T {}
pub use sequential_storage::map::Key as Km;

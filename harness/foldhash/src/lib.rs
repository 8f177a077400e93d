//! Stand-in used only for the symbolic build: every key hashes to the same value, so that set/map membership
//! is decided by the keys' equality (symbolically) and not by symbolic bucket positions.
//! The native replay build uses the real foldhash.
#![no_std]
pub mod fast {
    use core::hash::{BuildHasher, Hasher};
    #[derive(Copy, Clone, Debug, Default)]
    pub struct RandomState;
    #[derive(Copy, Clone, Debug, Default)]
    pub struct FixedState;
    #[derive(Copy, Clone, Debug, Default)]
    pub struct FoldHasher;
    impl Hasher for FoldHasher {
        #[inline(always)]
        fn finish(&self) -> u64 {
            0x5a00_0000_0000_0000
        }
        #[inline(always)]
        fn write(&mut self, _b: &[u8]) {}
        #[inline(always)]
        fn write_u8(&mut self, _: u8) {}
        #[inline(always)]
        fn write_u16(&mut self, _: u16) {}
        #[inline(always)]
        fn write_u32(&mut self, _: u32) {}
        #[inline(always)]
        fn write_u64(&mut self, _: u64) {}
        #[inline(always)]
        fn write_usize(&mut self, _: usize) {}
    }
    impl BuildHasher for RandomState {
        type Hasher = FoldHasher;
        #[inline(always)]
        fn build_hasher(&self) -> FoldHasher {
            FoldHasher
        }
    }
    impl BuildHasher for FixedState {
        type Hasher = FoldHasher;
        #[inline(always)]
        fn build_hasher(&self) -> FoldHasher {
            FoldHasher
        }
    }
}

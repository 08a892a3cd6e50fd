//! Simulated `portable-atomic`: the standard atomics with a scheduling point before (and,
//! for stores and read-modify-writes, after) every operation.
pub use std::sync::atomic::{compiler_fence, fence, Ordering};
use simrt::{weak_fail, yield_point, Kind};
use std::sync::atomic as std_a;
/// `cfg(moka_sim)` hook: how many entries an eviction pass handles.
pub fn sim_eviction_batch_size(default: u32) -> u32 {
    match simrt::batch() {
        0 => default,
        n => n,
    }
}
pub mod hint {
    pub fn spin_loop() {
        simrt::yield_point(simrt::Kind::User);
    }
}

macro_rules! common {
    ($name:ident, $t:ty) => {
        #[derive(Default)]
        #[repr(transparent)]
        pub struct $name(std_a::$name);
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                std::fmt::Debug::fmt(&self.0, f)
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl $name {
            #[inline]
            pub const fn new(v: $t) -> Self {
                Self(std_a::$name::new(v))
            }
            pub const fn is_lock_free(&self) -> bool { true }
            pub const fn is_always_lock_free() -> bool { true }
            #[inline]
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            #[inline]
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub const fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
            #[inline]
            pub fn load(&self, o: Ordering) -> $t {
                yield_point(Kind::Load);
                self.0.load(o)
            }
            #[inline]
            pub fn store(&self, v: $t, o: Ordering) {
                yield_point(Kind::Store);
                self.0.store(v, o);
            }
            #[inline]
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                yield_point(Kind::Rmw);
                self.0.swap(v, o)
            }
            #[inline]
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                yield_point(Kind::Rmw);
                self.0.compare_exchange(a, b, s, f)
            }
            #[inline]
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                yield_point(Kind::Rmw);
                if weak_fail() {
                    return Err(self.0.load(f));
                }
                self.0.compare_exchange(a, b, s, f)
            }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                yield_point(Kind::Rmw);
                match self.0.compare_exchange(a, b, o, Ordering::SeqCst) {
                    Ok(x) | Err(x) => x,
                }
            }
            #[inline]
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = g(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            #[inline]
            pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                self.fetch_update(s, f, g)
            }
            #[inline]
            pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, f: Ordering, mut g: F) -> $t {
                match self.fetch_update(s, f, |x| Some(g(x))) {
                    Ok(x) | Err(x) => x,
                }
            }
        }
    };
}
macro_rules! int {
    ($($name:ident $t:ty),* $(,)?) => {$(
        common!($name, $t);
        impl $name {
            #[inline]
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { yield_point(Kind::Rmw); self.0.fetch_add(v, o) }
            #[inline]
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { yield_point(Kind::Rmw); self.0.fetch_sub(v, o) }
            #[inline]
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { yield_point(Kind::Rmw); self.0.fetch_and(v, o) }
            #[inline]
            pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { yield_point(Kind::Rmw); self.0.fetch_nand(v, o) }
            #[inline]
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { yield_point(Kind::Rmw); self.0.fetch_or(v, o) }
            #[inline]
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { yield_point(Kind::Rmw); self.0.fetch_xor(v, o) }
            #[inline]
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { yield_point(Kind::Rmw); self.0.fetch_max(v, o) }
            #[inline]
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { yield_point(Kind::Rmw); self.0.fetch_min(v, o) }
            pub fn add(&self, v: $t, o: Ordering) { self.fetch_add(v, o); }
            pub fn sub(&self, v: $t, o: Ordering) { self.fetch_sub(v, o); }
            pub fn and(&self, v: $t, o: Ordering) { self.fetch_and(v, o); }
            pub fn or(&self, v: $t, o: Ordering) { self.fetch_or(v, o); }
            pub fn xor(&self, v: $t, o: Ordering) { self.fetch_xor(v, o); }
            pub fn fetch_not(&self, o: Ordering) -> $t { self.fetch_xor(!0, o) }
            pub fn not(&self, o: Ordering) { self.fetch_not(o); }
            pub fn fetch_neg(&self, o: Ordering) -> $t {
                yield_point(Kind::Rmw);
                let v = self.0.load(Ordering::SeqCst);
                self.0.store((0 as $t).wrapping_sub(v), Ordering::SeqCst);
                let _ = o;
                v
            }
            pub fn bit_set(&self, b: u32, o: Ordering) -> bool { let m = (1 as $t).wrapping_shl(b); self.fetch_or(m, o) & m != 0 }
            pub fn bit_clear(&self, b: u32, o: Ordering) -> bool { let m = (1 as $t).wrapping_shl(b); self.fetch_and(!m, o) & m != 0 }
            pub fn bit_toggle(&self, b: u32, o: Ordering) -> bool { let m = (1 as $t).wrapping_shl(b); self.fetch_xor(m, o) & m != 0 }
        }
    )*};
}
int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
     AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
common!(AtomicBool, bool);
impl AtomicBool {
    #[inline]
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { yield_point(Kind::Rmw); self.0.fetch_and(v, o) }
    #[inline]
    pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { yield_point(Kind::Rmw); self.0.fetch_nand(v, o) }
    #[inline]
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { yield_point(Kind::Rmw); self.0.fetch_or(v, o) }
    #[inline]
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { yield_point(Kind::Rmw); self.0.fetch_xor(v, o) }
    pub fn fetch_not(&self, o: Ordering) -> bool { self.fetch_xor(true, o) }
    pub fn and(&self, v: bool, o: Ordering) { self.fetch_and(v, o); }
    pub fn or(&self, v: bool, o: Ordering) { self.fetch_or(v, o); }
    pub fn xor(&self, v: bool, o: Ordering) { self.fetch_xor(v, o); }
    pub fn not(&self, o: Ordering) { self.fetch_not(o); }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(std_a::AtomicPtr<T>);
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(std::ptr::null_mut())
    }
}
impl<T> std::fmt::Debug for AtomicPtr<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(&self.0, f)
    }
}
impl<T> From<*mut T> for AtomicPtr<T> {
    fn from(p: *mut T) -> Self {
        Self::new(p)
    }
}
impl<T> AtomicPtr<T> {
    pub const fn new(p: *mut T) -> Self { Self(std_a::AtomicPtr::new(p)) }
    pub fn get_mut(&mut self) -> &mut *mut T { self.0.get_mut() }
    pub fn into_inner(self) -> *mut T { self.0.into_inner() }
    pub fn load(&self, o: Ordering) -> *mut T { yield_point(Kind::PtrLoad); self.0.load(o) }
    pub fn store(&self, p: *mut T, o: Ordering) { yield_point(Kind::PtrCas); self.0.store(p, o) }
    pub fn swap(&self, p: *mut T, o: Ordering) -> *mut T { yield_point(Kind::PtrCas); self.0.swap(p, o) }
    pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        yield_point(Kind::PtrCas);
        self.0.compare_exchange(a, b, s, f)
    }
    pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        yield_point(Kind::PtrCas);
        if weak_fail() {
            return Err(self.0.load(f));
        }
        self.0.compare_exchange(a, b, s, f)
    }
    pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<*mut T, *mut T> {
        let mut prev = self.load(f);
        while let Some(next) = g(prev) {
            match self.compare_exchange_weak(prev, next, s, f) {
                x @ Ok(_) => return x,
                Err(p) => prev = p,
            }
        }
        Err(prev)
    }
}

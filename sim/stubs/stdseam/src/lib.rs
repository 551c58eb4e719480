//! What the crates under test see as `std` (see check.sh): the real one, except
//! that every operation on a lock or an atomic of `std::sync` is a scheduling
//! point of the simulator, as with the patched parking_lot.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;

    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    pub use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

    /// Poisoned when a guard is dropped by a panic that began while it was held.
    pub struct Poison(::std::sync::atomic::AtomicBool);
    impl Poison {
        const fn new() -> Self {
            Poison(::std::sync::atomic::AtomicBool::new(false))
        }
        fn get(&self) -> bool {
            self.0.load(::std::sync::atomic::Ordering::SeqCst)
        }
        fn set(&self, x: bool) {
            self.0.store(x, ::std::sync::atomic::Ordering::SeqCst)
        }
    }

    macro_rules! guard {
        ($name:ident, $inner:ident, $poisons:expr, $($mutable:ident)?) => {
            pub struct $name<'a, T: ?Sized> {
                inner: parking_lot::$inner<'a, T>,
                poison: &'a Poison,
                panicking: bool,
            }
            impl<'a, T: ?Sized> $name<'a, T> {
                fn of(inner: parking_lot::$inner<'a, T>, poison: &'a Poison) -> LockResult<Self> {
                    let g = $name { inner, poison, panicking: ::std::thread::panicking() };
                    if poison.get() {
                        Err(PoisonError::new(g))
                    } else {
                        Ok(g)
                    }
                }
            }
            impl<T: ?Sized> Deref for $name<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.inner
                }
            }
            $(impl<T: ?Sized> DerefMut for $name<'_, T> {
                fn deref_mut(&mut self) -> &mut T {
                    let $mutable = &mut self.inner;
                    $mutable
                }
            })?
            impl<T: ?Sized> Drop for $name<'_, T> {
                fn drop(&mut self) {
                    if $poisons && !self.panicking && ::std::thread::panicking() {
                        self.poison.set(true);
                    }
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<T: ?Sized + fmt::Display> fmt::Display for $name<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    guard!(MutexGuard, MutexGuard, true, x);
    guard!(RwLockReadGuard, RwLockReadGuard, false,);
    guard!(RwLockWriteGuard, RwLockWriteGuard, true, x);

    macro_rules! lock {
        ($name:ident) => {
            pub struct $name<T: ?Sized> {
                poison: Poison,
                inner: parking_lot::$name<T>,
            }
            impl<T> $name<T> {
                pub const fn new(t: T) -> Self {
                    $name { poison: Poison::new(), inner: parking_lot::$name::new(t) }
                }
                pub fn into_inner(self) -> LockResult<T> {
                    let p = self.poison.get();
                    let t = self.inner.into_inner();
                    if p { Err(PoisonError::new(t)) } else { Ok(t) }
                }
            }
            impl<T: ?Sized> $name<T> {
                pub fn get_mut(&mut self) -> LockResult<&mut T> {
                    let p = self.poison.get();
                    let t = self.inner.get_mut();
                    if p { Err(PoisonError::new(t)) } else { Ok(t) }
                }
                pub fn is_poisoned(&self) -> bool {
                    self.poison.get()
                }
                pub fn clear_poison(&self) {
                    self.poison.set(false)
                }
            }
            impl<T: Default> Default for $name<T> {
                fn default() -> Self {
                    Self::new(T::default())
                }
            }
            impl<T> From<T> for $name<T> {
                fn from(t: T) -> Self {
                    Self::new(t)
                }
            }
            impl<T: ?Sized> ::std::panic::UnwindSafe for $name<T> {}
            impl<T: ?Sized> ::std::panic::RefUnwindSafe for $name<T> {}
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.inner.fmt(f)
                }
            }
        };
    }
    lock!(Mutex);
    lock!(RwLock);

    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            MutexGuard::of(self.inner.lock(), &self.poison)
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            match self.inner.try_lock() {
                Some(g) => MutexGuard::of(g, &self.poison).map_err(TryLockError::Poisoned),
                None => Err(TryLockError::WouldBlock),
            }
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            RwLockReadGuard::of(self.inner.read(), &self.poison)
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            RwLockWriteGuard::of(self.inner.write(), &self.poison)
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            match self.inner.try_read() {
                Some(g) => RwLockReadGuard::of(g, &self.poison).map_err(TryLockError::Poisoned),
                None => Err(TryLockError::WouldBlock),
            }
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            match self.inner.try_write() {
                Some(g) => RwLockWriteGuard::of(g, &self.poison).map_err(TryLockError::Poisoned),
                None => Err(TryLockError::WouldBlock),
            }
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use ::std::fmt;
        use ::std::sync::atomic as real;

        fn at() {
            simrt::yield_point()
        }
        macro_rules! common {
            ($name:ident, $t:ty, [$($g:ident)?]) => {
                #[repr(transparent)]
                pub struct $name$(<$g>)?(real::$name$(<$g>)?);
                impl$(<$g>)? $name$(<$g>)? {
                    pub const fn new(x: $t) -> Self {
                        Self(real::$name::new(x))
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn as_ptr(&self) -> *mut $t {
                        self.0.as_ptr()
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        at();
                        self.0.load(o)
                    }
                    pub fn store(&self, x: $t, o: Ordering) {
                        at();
                        self.0.store(x, o);
                        at();
                    }
                    pub fn swap(&self, x: $t, o: Ordering) -> $t {
                        at();
                        self.0.swap(x, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        at();
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        at();
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut x = self.load(p);
                        while let Some(y) = f(x) {
                            match self.compare_exchange(x, y, o, p) {
                                Ok(x) => return Ok(x),
                                Err(z) => x = z,
                            }
                        }
                        Err(x)
                    }
                }
                impl$(<$g>)? fmt::Debug for $name$(<$g>)? {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
                impl$(<$g>)? From<$t> for $name$(<$g>)? {
                    fn from(x: $t) -> Self {
                        Self::new(x)
                    }
                }
            };
        }
        macro_rules! fetch {
            ($t:ty: $($f:ident)*) => {
                $(pub fn $f(&self, x: $t, o: Ordering) -> $t {
                    at();
                    self.0.$f(x, o)
                })*
            };
        }
        macro_rules! int {
            ($($name:ident $t:ty)*) => {$(
                common!($name, $t, []);
                impl $name {
                    fetch!($t: fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
                }
                impl Default for $name {
                    fn default() -> Self {
                        Self::new(0)
                    }
                }
            )*};
        }
        int!(AtomicUsize usize AtomicU64 u64 AtomicU32 u32 AtomicU16 u16 AtomicU8 u8 AtomicIsize isize AtomicI64 i64 AtomicI32 i32 AtomicI16 i16 AtomicI8 i8);
        common!(AtomicBool, bool, []);
        impl AtomicBool {
            fetch!(bool: fetch_and fetch_nand fetch_or fetch_xor);
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.fetch_xor(true, o)
            }
        }
        impl Default for AtomicBool {
            fn default() -> Self {
                Self::new(false)
            }
        }
        common!(AtomicPtr, *mut T, [T]);
        impl<T> Default for AtomicPtr<T> {
            fn default() -> Self {
                Self::new(::std::ptr::null_mut())
            }
        }
    }
}

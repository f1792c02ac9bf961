use std::cell::UnsafeCell;
pub struct Lazy<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Lazy<T> {}
impl<T> Lazy<T> {
    pub const fn new() -> Self { Lazy(UnsafeCell::new(None)) }
    pub fn get<F: FnOnce() -> T>(&'static self, f: F) -> &'static T {
        unsafe {
            if (*self.0.get()).is_none() { *self.0.get() = Some(f()); }
            (*self.0.get()).as_ref().unwrap()
        }
    }
}
#[macro_export]
macro_rules! lazy_static {
    ($(#[$a:meta])* static ref $N:ident : $T:ty = $e:expr; $($rest:tt)*) => {
        #[allow(missing_copy_implementations, non_camel_case_types, dead_code)]
        $(#[$a])* struct $N { __private: () }
        $(#[$a])* static $N: $N = $N { __private: () };
        impl ::std::ops::Deref for $N {
            type Target = $T;
            fn deref(&self) -> &$T { static L: $crate::Lazy<$T> = $crate::Lazy::new(); L.get(|| $e) }
        }
        $crate::lazy_static!($($rest)*);
    };
    ($(#[$a:meta])* pub static ref $N:ident : $T:ty = $e:expr; $($rest:tt)*) => {
        #[allow(missing_copy_implementations, non_camel_case_types, dead_code)]
        $(#[$a])* pub struct $N { __private: () }
        $(#[$a])* pub static $N: $N = $N { __private: () };
        impl ::std::ops::Deref for $N {
            type Target = $T;
            fn deref(&self) -> &$T { static L: $crate::Lazy<$T> = $crate::Lazy::new(); L.get(|| $e) }
        }
        $crate::lazy_static!($($rest)*);
    };
    () => ()
}

//! The types of `std::os::windows` that a Windows program sees, for code compiled elsewhere.

pub mod os {
    pub mod raw {
        pub type HANDLE = *mut core::ffi::c_void;
        pub type SOCKET = u64;
    }

    pub mod prelude {
        pub use super::io::{
            AsHandle, AsRawHandle, AsRawSocket, AsSocket, BorrowedHandle, BorrowedSocket, RawHandle, RawSocket,
        };
    }

    pub mod io {
        use std::marker::PhantomData;
        use std::sync::Arc;

        pub type RawHandle = super::raw::HANDLE;
        pub type RawSocket = super::raw::SOCKET;

        pub trait AsRawHandle {
            fn as_raw_handle(&self) -> RawHandle;
        }
        pub trait AsRawSocket {
            fn as_raw_socket(&self) -> RawSocket;
        }
        pub trait AsHandle {
            fn as_handle(&self) -> BorrowedHandle<'_>;
        }
        pub trait AsSocket {
            fn as_socket(&self) -> BorrowedSocket<'_>;
        }

        #[derive(Copy, Clone, Debug)]
        pub struct BorrowedHandle<'a>(RawHandle, PhantomData<&'a ()>);
        #[derive(Copy, Clone, Debug)]
        pub struct BorrowedSocket<'a>(RawSocket, PhantomData<&'a ()>);

        unsafe impl Send for BorrowedHandle<'_> {}
        unsafe impl Sync for BorrowedHandle<'_> {}

        impl BorrowedHandle<'_> {
            /// # Safety
            /// As in the standard library.
            pub const unsafe fn borrow_raw(h: RawHandle) -> Self {
                BorrowedHandle(h, PhantomData)
            }
        }
        impl BorrowedSocket<'_> {
            /// # Safety
            /// As in the standard library.
            pub const unsafe fn borrow_raw(s: RawSocket) -> Self {
                BorrowedSocket(s, PhantomData)
            }
        }

        impl AsRawHandle for BorrowedHandle<'_> {
            fn as_raw_handle(&self) -> RawHandle {
                self.0
            }
        }
        impl AsHandle for BorrowedHandle<'_> {
            fn as_handle(&self) -> BorrowedHandle<'_> {
                *self
            }
        }
        impl AsRawSocket for BorrowedSocket<'_> {
            fn as_raw_socket(&self) -> RawSocket {
                self.0
            }
        }
        impl AsSocket for BorrowedSocket<'_> {
            fn as_socket(&self) -> BorrowedSocket<'_> {
                *self
            }
        }
        impl<T: AsHandle + ?Sized> AsHandle for &T {
            fn as_handle(&self) -> BorrowedHandle<'_> {
                (**self).as_handle()
            }
        }
        impl<T: AsSocket + ?Sized> AsSocket for &T {
            fn as_socket(&self) -> BorrowedSocket<'_> {
                (**self).as_socket()
            }
        }
        impl<T: AsHandle + ?Sized> AsHandle for Arc<T> {
            fn as_handle(&self) -> BorrowedHandle<'_> {
                (**self).as_handle()
            }
        }
        impl<T: AsSocket + ?Sized> AsSocket for Arc<T> {
            fn as_socket(&self) -> BorrowedSocket<'_> {
                (**self).as_socket()
            }
        }
    }
}

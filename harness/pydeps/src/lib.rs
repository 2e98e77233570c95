pub use cpython;

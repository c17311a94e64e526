pub use fixnum;

pub mod mem;
pub mod qir;
pub mod sim2;
pub mod sim;
pub mod funcs;
pub mod ints;
pub mod text;

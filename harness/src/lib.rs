pub mod aper;
pub mod e2e;
pub mod engine;
pub mod gen;
#[cfg(feature = "gencode")]
pub mod gencode;
pub mod parse;
pub mod prim;
pub mod real;
pub mod schema;
pub mod tool;
pub mod value;

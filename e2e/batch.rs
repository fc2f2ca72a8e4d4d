//! The generated code of a batch of specifications; see e2egen.
#![allow(warnings)]
include!(concat!(env!("E2E_SRC"), "/", env!("CARGO_PKG_NAME"), ".rs"));

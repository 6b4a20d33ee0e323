//! Stands in for a crate that cargo wants for the wasm32 standard library; only core and alloc are built.
#![no_std]

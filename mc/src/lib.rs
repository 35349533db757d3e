//! Bounded model checking of the SSZ library: exhaustive enumeration of inputs and histories of the
//! real code, compared step by step with a reference model.

pub mod alloc;
pub mod codec;
pub mod engine;
pub mod model;
pub mod ops;
pub mod space;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub mod alloc;
pub mod el;
pub mod model;
pub mod rng;
pub mod run;

#[cfg(feature = "guardalloc")]
#[global_allocator]
static GLOBAL: alloc::Guard = alloc::Guard;

pub mod act;
pub mod alloc;
pub mod cli;
pub mod engine;
pub mod keys;
pub mod slots;
pub mod suite;
pub mod tree;

#[global_allocator]
static A: alloc::Alloc = alloc::Alloc;

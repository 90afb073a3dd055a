#![allow(static_mut_refs, invalid_runtime_symbol_definitions, dead_code, unused_variables, non_snake_case)]
#[macro_use]
extern crate mortal;
mod emu; mod exec; mod hist; mod kern; mod model_in; mod model_life; mod model_out; mod model_scr; mod model_prep; mod model_sig; mod props; mod runner; mod scen; mod sys; mod terms; mod cli;
#[global_allocator]
static ALLOC: sys::Alloc = sys::Alloc;
fn main() { cli::main() }

mod engine;
#[allow(dead_code)]
mod model;
mod props;


#[global_allocator]
static ALLOC: engine::CountingAlloc = engine::CountingAlloc;

fn main() { std::process::exit(engine::main(props::all())) }

fn main() { std::process::exit(vharness::engine::main(&vharness::props::all())) }

//! Runtime monitors for Figment. See /verif/DESIGN.md.
mod rng; mod cov; mod mv; mod render; mod model; mod sup; mod schema;
mod props;

fn main() { sup::main() }

//! Says what a build of rsasl with some selection of features can do: reads `key=hex` lines from standard
//! input, prints one line per finding. Nothing is judged here.
#[cfg(all(feature = "config_builder", feature = "provider"))]
mod full;

fn main() {
    #[cfg(all(feature = "config_builder", feature = "provider"))]
    full::main();
    #[cfg(not(all(feature = "config_builder", feature = "provider")))]
    println!("name {}", rsasl::prelude::Mechname::parse(b"SCRAM-SHA-1").unwrap());
    println!("end");
}

mod clause;
mod exec;
mod evidence;
mod gen;
mod pratt;
mod props;
mod refl;
mod rel;
mod run;
mod size;
mod sym;
mod ts;
mod val;
mod wasm;
mod z3ffi;
fn main() {
    // trees can be nested deeply: reading, comparing and dropping them recurses
    let t = std::thread::Builder::new().stack_size(512 << 20).spawn(run::main).unwrap();
    if t.join().is_err() {
        std::process::exit(2)
    }
}

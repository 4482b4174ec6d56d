//! Monitors of the matrix library.
mod algebra;
mod bounds;
mod cabi;
mod inverse;

#[global_allocator]
static A: vmon::alloc::Counting = vmon::alloc::Counting;

fn main() {
    let o = vmon::Options::parse();
    match o.prop.as_str() {
        "M01" => vmon::run(&o, algebra::case),
        "M02" => vmon::run(&o, inverse::case),
        "M03" => vmon::run(&o, bounds::case),
        "M04" => vmon::run(&o, cabi::case),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(95);
        }
    }
}

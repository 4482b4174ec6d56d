//! Monitors of the expression and equation library.
mod cabi;
mod compiled;
mod domain;
mod evaluate;
mod malformed;
mod multi;
mod names;
mod single;
mod system;

#[global_allocator]
static A: vmon::alloc::Counting = vmon::alloc::Counting;

fn main() {
    let o = vmon::Options::parse();
    match o.prop.as_str() {
        "E01" => vmon::run(&o, evaluate::case),
        "E02" => vmon::run(&o, malformed::case),
        "E03" => vmon::run(&o, compiled::case),
        "E04" => vmon::run(&o, domain::case),
        "S01" => vmon::run(&o, single::case),
        "S02" => vmon::run(&o, multi::soundness),
        "S03" => vmon::run(&o, multi::completeness),
        "S04" => vmon::run(&o, system::case),
        "S05" => vmon::run(&o, cabi::case),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(95);
        }
    }
}

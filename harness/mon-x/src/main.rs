//! Monitors of the Nexsys language.
mod cabi;
mod cli;
mod cond;
mod data;
mod decl;
mod prog;
mod robust;
mod solve;
mod steps;
mod tables;

#[global_allocator]
static A: vmon::alloc::Counting = vmon::alloc::Counting;

fn main() {
    let o = vmon::Options::parse();
    match o.prop.as_str() {
        "X01" => vmon::run(&o, solve::solutions),
        "X02" => vmon::run(&o, solve::inert),
        "X03" => vmon::run(&o, tables::constants),
        "X04" => vmon::run(&o, tables::units),
        "X05" => vmon::run(&o, cond::case),
        "X06" => vmon::run(&o, decl::case),
        "X07" => vmon::run(&o, robust::case),
        "X08" => vmon::run(&o, cabi::case),
        "X09" => vmon::run(&o, cli::case),
        "X10" => vmon::run(&o, steps::case),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(95);
        }
    }
}

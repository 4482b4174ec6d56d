//! Monitors of the nodal analysis engine.
mod custom;
mod files;
mod laws;
mod malformed;
mod net;

#[global_allocator]
static A: vmon::alloc::Counting = vmon::alloc::Counting;

fn main() {
    let o = vmon::Options::parse();
    match o.prop.as_str() {
        "N01" => vmon::run(&o, laws::case),
        "N02" => vmon::run(&o, laws::invariance),
        "N03" => vmon::run(&o, malformed::case),
        "N04" => vmon::run(&o, files::case),
        "N05" => vmon::run(&o, custom::case),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(95);
        }
    }
}

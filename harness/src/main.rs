
mod batch;
mod forge;
mod gadgets;
mod gens;
mod own;
mod r1cs;
mod toy;
mod trace;
mod txwire;
#[macro_use]
mod trees;
mod ledger;
mod paths;
mod attack;
mod runs;
mod tables;
mod util;
mod wire;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    util::quiet_panics();
    match args[1].as_str() {
        "r1cs" => r1cs::main(&args[2], &args[3]),
        "wire-layout" => wire::layout(&args[2], &args[3]),
        "wire" => wire::replay(&args[2], &args[3], &args[4]),
        "batch" => batch::main(&args[2], &args[3]),
        "batch-weights" => batch::weights(&args[2], &args[3], &args[4]),
        "equation" => trace::equations(&args[2], &args[3]),
        "transcript" => trace::transcripts(&args[2], &args[3]),
        "gens" => gens::main(&args[2], &args[3], &args[4]),
        "trees" => trees::main(&args[2], &args[3]),
        "paths" => paths::main(&args[2], &args[3], &args[4]),
        "gadget-runs" => runs::main(&args[2], &args[3]),
        "tables" => tables::main(&args[2]),
        "scalars" => tables::scalars(&args[2], &args[3]),
        "tx-layout" => txwire::layout(&args[2], &args[3], &args[4]),
        "tx" => txwire::main(&args[2], &args[3], &args[4], &args[5]),
        "ledger" => ledger::main(&args[2], &args[3]),
        "jump" => attack::main(&args[2]),
        "gadgets" => gadgets::main(&args[2], &args[3]),
        "curve-points" => gadgets::curves(&args[2]),
        "layout" => forge::layouts(&args[2]),
        "forge" => forge::attempts(&args[2], &args[3], &args[4]),
        c => panic!("unknown command {}", c),
    }
}

//! kmc: bounded-exhaustive checker for knx-ip-client.
//!   kmc check <ID> quick|thorough        decide one property (evidence, replay file, exit code)
//!   kmc replay <file>                    run one recorded violation again
//!   kmc run <ID> quick|thorough [filter] development: print what each family / part does
mod codec;
mod explore;
mod frames;
mod logs;
mod monitors;
mod props;
mod report;
mod scen;
mod sim;

fn main() {
    sim::install_panic_hook();
    logs::install();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => report::check(arg(2), arg(3) == "thorough"),
        "replay" => report::replay(arg(2)),
        "run" => report::run(arg(2), arg(3) == "thorough", arg(4)),
        _ => {
            eprintln!("usage: kmc check <ID> quick|thorough | kmc replay <file> | kmc run <ID> quick|thorough [filter]");
            2
        }
    };
    std::process::exit(code);
}

mod check;
mod client;
mod emit;
mod exec;
mod gen;
mod lex;
mod model;
mod oracle;
mod run;
mod sys;
mod text;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check::check(&args[1..]),
        Some("replay") => check::replay(&args[1..]),
        Some("selftest") => check::selftest(&args[1..]),
        Some("show") => check::show(&args[1..]),
        Some("survey") => check::survey(&args[1..]),
        _ => {
            eprintln!("usage: watsim check PROP [--secs N] | replay FILE | selftest [N] | show PROP SEED");
            2
        }
    };
    unsafe { sys::_exit(code) }
}

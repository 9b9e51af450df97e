mod api;
mod deep;
mod elem;
mod inject;
mod maprun;
mod profiles;
mod rec;
mod sched;
mod script;
mod serde_io;
mod setrun;
mod stackrun;

use std::collections::HashMap;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches('-').to_string(), args[i + 1].clone());
        i += 2;
    }
    let verbose = std::env::var("VERIF_VERBOSE").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        // expected panics (index misses, inverted ranges, injections) are data
        if verbose {
            eprintln!("{info}");
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            if s.starts_with("driver:") {
                eprintln!("{info}");
            }
        }
    }));
    profiles::main(&args[1], &opt);
}

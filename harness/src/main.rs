mod auth;
#[cfg(feature = "extra")]
#[path = "/repo/lib/client/src/chain_data.rs"]
mod chain_data;
/// stands in for the fetcher that needs a network client
#[cfg(all(feature = "extra", not(feature = "rustclient")))]
mod chain_data_fetcher {
    #[allow(dead_code)]
    pub struct AccountFetcher;
}
#[cfg(feature = "rustclient")]
#[path = "/repo/lib/client/src/chain_data_fetcher.rs"]
mod chain_data_fetcher;
#[cfg(feature = "rustclient")]
#[path = "/repo/lib/client/src/account_fetcher.rs"]
mod account_fetcher;
#[cfg(feature = "rustclient")]
#[path = "/repo/lib/client/src/account_update_stream.rs"]
mod account_update_stream;
#[cfg(feature = "rustclient")]
#[path = "/repo/lib/client/src/gpa.rs"]
mod gpa;
#[cfg(feature = "rustclient")]
#[path = "/repo/lib/client/src/client.rs"]
#[allow(dead_code, clippy::all)]
mod library;
#[cfg(feature = "rustclient")]
#[path = "/repo/lib/client/src/util.rs"]
#[allow(dead_code, clippy::all)]
mod util;
#[cfg(feature = "rustclient")]
mod confirm;
#[cfg(feature = "rustclient")]
mod rclient;
#[cfg(feature = "rustclient")]
pub use account_fetcher::AccountFetcher;
#[cfg(feature = "extra")]
mod client;
mod containers;
mod direct;
#[cfg(feature = "extra")]
mod fields;
mod hist;
mod hostile;
#[cfg_attr(not(feature = "extra"), allow(dead_code))]
mod idl;
mod life;
mod layout;
mod model;
mod plans;
mod report;
mod rng;
mod svm;
mod ts;
mod world;

fn main() {
    svm::install();
    let args: Vec<String> = std::env::args().collect();
    let plans = plans::plans();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "list" {
        for p in &plans {
            println!("{}", p.property);
        }
        return;
    }
    let plan = match plans.iter().find(|p| p.property == id) {
        Some(p) => p,
        None => {
            eprintln!("usage: obv-monitor <property> [replay <file> | case <workload> <seed>]");
            std::process::exit(2);
        }
    };
    let code = match args.get(2).map(|s| s.as_str()) {
        Some("case") => report::replay(plan, &args[3], args[4].parse().unwrap()),
        Some("replay") => {
            let t = std::fs::read_to_string(&args[3]).expect("replay file");
            let field = |n: &str| -> String {
                let p = t.find(&format!("\"{n}\": ")).expect("field") + n.len() + 4;
                t[p..].lines().next().unwrap().trim_end_matches(',').trim_matches('"').to_string()
            };
            report::replay(plan, &field("workload"), field("case_seed").parse().unwrap())
        }
        _ => report::run_plan(plan),
    };
    std::process::exit(code);
}

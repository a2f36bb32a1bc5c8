//! Checks that link laby directly. `rt <property> [--replay FILE]`.
mod archs;
mod buffer;
mod escape;
mod faults;
mod galloc;
mod growth;
mod iters;
mod pace;
mod place;
mod refused;
mod step;
mod val;
#[macro_use]
mod valcore;
mod values;

use val::spec as spec_of;
use vcore::*;

#[global_allocator]
static GLOBAL: galloc::G = galloc::G;

fn main() {
    let env = Env::from_env();
    let cpu_name = std::env::var("VERIF_CPU").ok();
    if let Some(n) = &cpu_name {
        let c = escape::CPUS.iter().find(|c| c.0 == n).expect("VERIF_CPU");
        c.1.apply();
    }
    let part = std::env::var("VERIF_PART").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let streams = match env.id.as_str() {
        "C01" => escape::c01(&env, part),
        "C02" if cpu_name.is_some() => escape::c02_streams(&env),
        "C02" => escape::c02_processes(&env),
        "C03" => values::c03(&env),
        "C04" => buffer::c04(&env),
        "C05" => buffer::c05(&env),
        "C06" => values::c06(&env),
        "C07" => values::c07(&env),
        "C08" => values::c08(&env),
        "C09" => iters::c09(&env),
        "C29" => faults::c29(&env),
        "C24" => growth::c24(&env),
        "C34" => refused::c34(&env),
        "C33" => archs::c33(&env),
        "C31" => pace::c31(&env),
        "C20" => values::c20(&env),
        "C21" => values::c21(&env),
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(2)
        }
    };
    let part = run_streams(&env, streams);
    part.finish(&env)
}

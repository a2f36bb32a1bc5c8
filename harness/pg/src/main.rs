mod alloc;
mod ast;
mod comp;
mod compose;
mod ctx;
mod engine;
mod gen;
mod lint;
mod grow;
mod html;
mod litprops;
mod lits;
mod markup;
mod matches;
mod places;
mod reject;
mod same;
mod soup;
mod vals;

fn main() {
    let env = vcore::driver::Env::from_env();
    // trees are walked recursively
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            if env.id == "C32" {
                lint::run(&env).finish(&env)
            }
            if env.id == "C17" {
                reject::run(&env).finish(&env)
            }
            if env.id == "C26" {
                same::run(&env).finish(&env)
            }
            if env.id == "C28" {
                grow::run(&env).finish(&env)
            }
            if env.id == "C25" {
                soup::run(&env).finish(&env)
            }
            let streams = match env.id.as_str() {
                "C10" => markup::streams(&env),
                "C11" => litprops::c11(&env),
                "C12" => compose::c12(&env),
                "C13" => compose::c13(&env),
                "C14" => compose::c14(&env),
                "C15" => compose::c15(&env),
                "C29" => compose::c29(&env),
                "C30" => places::streams(&env),
                "C18" => matches::c18(&env),
                "C16" => comp::c16(&env),
                "C23" => comp::c23(&env),
                "C22" => ctx::c22(&env),
                "C20" => alloc::c20(&env),
                "C21" => alloc::c21(&env),
                "C27" => alloc::c27(&env),
                "C19" => compose::c19(&env),
                _ => {
                    eprintln!("no programs for {}", env.id);
                    std::process::exit(2)
                }
            };
            let mut part = engine::run_programs(&env, streams);
            let example = env.replay_arg().is_some_and(|r| std::fs::read_to_string(r).is_ok_and(|t| t.contains("\"stream\": \"example\"")));
            if env.id == "C18" && (env.replay_arg().is_none() || example) && part.violation.is_none() {
                match matches::probe(&env) {
                    Ok(None) => {}
                    Ok(Some(f)) => drop(part.extra.insert("known_findings".into(), serde_json::json!([f]))),
                    Err(m) => part.violation = Some((serde_json::json!({"stream": "example"}), m)),
                }
            }
            if env.id == "C30" && part.violation.is_none() {
                places::errors(&env, &mut part);
            }
            part.finish(&env)
        })
        .unwrap()
        .join()
        .unwrap()
}

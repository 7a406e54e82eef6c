mod alloc;
mod check;
mod effects;
mod explore;
mod gram;
mod interp;
mod lexmode;
mod lexspec;
mod models;
mod parmode;
mod prog;
mod state;
mod val;

#[global_allocator]
static POOL: alloc::Pool = alloc::Pool;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = prog::Prog::load(&a[1]).expect("load");
    match a[2].as_str() {
        "one" => {
            let v = match check::one(&p, &a[3], a.get(4).map(|x| &x[..])) { Ok(r) => check::to_json(&r), Err(e) => serde_json::json!({ "error": e }) };
            println!("{}", v);
            return;
        }
        "check" => std::process::exit(check::run(&a[1], &a[3], &a[4], &a[5], &a[6])),
        _ => {}
    }
    let show = |name: &str, r: Result<lexmode::LexRun, String>| match r {
        Ok(r) => {
            println!("== {} states {} widened {} steps {} fns {} {:.2}s agreed {:?}", name, r.states, r.widened, r.stats.steps, r.stats.fns.len(), r.secs, r.agreed);
            for f in &r.findings { println!("  {}\n      {}", f.key, f.msg); }
        }
        Err(e) => println!("== {} error {}", name, e),
    };
    match a[2].as_str() {
        "lex" => for (e, t) in [(false, false), (true, false), (false, true), (true, true)] { show(&format!("token expr={} tmpl={}", e, t), lexmode::run_token(&p, e, t)); },
        "lex1" => show("token", lexmode::run_token(&p, a[3] == "1", a[4] == "1")),
        "pos" => show("positions", lexmode::run_positions(&p)),
        _ => {}
    }
}

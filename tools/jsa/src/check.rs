//! A check: runs the analyses a property needs, keeps the findings that concern it, writes the evidence.
use crate::lexmode::{Finding, LexRun};
use crate::prog::Prog;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct Report { pub name: String, pub what: String, pub findings: Vec<Finding>, pub agreed: BTreeMap<String, u64>, pub states: usize, pub steps: u64, pub fns: Vec<String>, pub sites: usize, pub blocks: usize, pub widened: usize, pub secs: f64 }

pub fn from_lex(p: &Prog, name: &str, what: &str, r: LexRun) -> Report {
    let fns = r.stats.fns.iter().filter(|f| p.f(**f).local).map(|f| p.info[*f].path.clone()).collect();
    Report { name: name.into(), what: what.into(), findings: r.findings, agreed: r.agreed, states: r.states, steps: r.stats.steps, fns, sites: r.stats.asserts.len(), blocks: r.stats.blocks.len(), widened: r.widened, secs: r.secs }
}
pub fn to_json(r: &Report) -> Value {
    json!({ "name": r.name, "what": r.what, "agreed": r.agreed, "states": r.states, "steps": r.steps, "fns": r.fns, "sites": r.sites, "blocks": r.blocks, "widened": r.widened, "secs": r.secs,
        "findings": r.findings.iter().map(|f| json!({ "area": f.area, "what": f.what, "key": f.key, "msg": f.msg, "decided": f.decided })).collect::<Vec<_>>() })
}
pub fn one(p: &Prog, which: &str, prop: Option<&str>) -> Result<Report, String> {
    let prop = prop.and_then(|id| PROPS.iter().find(|p| p.id == id));
    let want = prop.map(|p| move |f: &Finding| p.wants(&json!({ "area": f.area, "what": f.what, "key": f.key, "run": which })));
    Ok(match which {
        "L00" | "L01" | "L10" | "L11" => {
            let (e, t) = (&which[1..2] == "1", &which[2..3] == "1");
            from_lex(p, which, &format!("one token, expression hint {}, template hint {}", e, t), crate::lexmode::run_token(p, e, t)?)
        }
        "POS" => from_lex(p, which, "whitespace and position bookkeeping around one token", crate::lexmode::run_positions(p)?),
        "EFF" => crate::effects::run(p)?,
        "PAR" => from_lex(p, which, "the parser against the syntactic grammar", crate::parmode::run(p, match &want { Some(w) => Some(w), None => None })?),
        _ => return Err(format!("unknown analysis {}", which)),
    })
}

const LEX: &[&str] = &["L00", "L01", "L10", "L11"];
const LEXPOS: &[&str] = &["L00", "L01", "L10", "L11", "POS"];
pub struct Prop { pub id: &'static str, pub runs: &'static [&'static str], pub areas: &'static [&'static str], pub filter: fn(&Value) -> bool, pub rule: &'static str }
impl Prop { fn wants(&self, f: &Value) -> bool { (self.areas.is_empty() || self.areas.contains(&s(f, "area")) || s(f, "area") == "not modelled") && (self.filter)(f) } }
fn s<'a>(f: &'a Value, k: &str) -> &'a str { f[k].as_str().unwrap_or("") }
fn all(_: &Value) -> bool { true }
fn extent(f: &Value) -> bool { s(f, "what").contains("extent") || s(f, "what").contains("early") || matches!(s(f, "area"), "eof" | "position" | "whitespace" | "line terminator") || s(f, "area") == "panic" }
fn value(f: &Value) -> bool { s(f, "what").contains("token") || s(f, "what") == "fails by accident" || s(f, "area") == "panic" }
fn form(f: &Value) -> bool { !s(f, "what").starts_with("token ") || s(f, "what").contains("extent") }
fn reject(f: &Value) -> bool { ["malformed", "refuses"].iter().any(|x| s(f, "what").contains(x)) }
fn hinted(f: &Value) -> bool { matches!(s(f, "run"), "L01" | "L10" | "L11") || s(f, "area") == "hint" }
const RULE: &str = "abstract interpretation of the MIR of the tokenizer in lockstep with a byte-level transducer for the lexical grammar: at every return the token (variant and payload) and its size must equal what the grammar gives for the bytes read, at every panic the grammar must refuse them";
pub const PROPS: &[Prop] = &[
    Prop { id: "T01", runs: LEXPOS, areas: &[], filter: extent, rule: RULE },
    Prop { id: "T02", runs: LEX, areas: &["punctuator"], filter: all, rule: RULE },
    Prop { id: "T03", runs: LEX, areas: &["comment"], filter: all, rule: RULE },
    Prop { id: "T04", runs: LEX, areas: &["string"], filter: all, rule: RULE },
    Prop { id: "T05", runs: LEX, areas: &["template"], filter: all, rule: RULE },
    Prop { id: "T06", runs: LEX, areas: &["regular expression"], filter: all, rule: RULE },
    Prop { id: "T07", runs: LEX, areas: &["number"], filter: form, rule: RULE },
    Prop { id: "T08", runs: LEX, areas: &["number"], filter: value, rule: RULE },
    Prop { id: "T09", runs: LEX, areas: &["identifier"], filter: all, rule: RULE },
    Prop { id: "T10", runs: LEXPOS, areas: &["whitespace", "line terminator", "unknown character"], filter: all, rule: RULE },
    Prop { id: "T11", runs: &["POS"], areas: &[], filter: all, rule: "abstract interpretation of next_token, with read_next replaced by any token of any extent, in lockstep with a transducer that counts lines and columns: the position and range stored must equal the counted ones" },
    Prop { id: "T12", runs: LEXPOS, areas: &["panic"], filter: all, rule: "every bounds check, slice, arithmetic overflow check, unwrap and unreachable! reached in the tokenizer is shown never to fire, for all UTF-8 input" },
    Prop { id: "T13", runs: LEXPOS, areas: &[], filter: reject, rule: RULE },
    Prop { id: "T14", runs: LEXPOS, areas: &["punctuator", "regular expression", "template", "comment", "hint"], filter: hinted, rule: RULE },
    Prop { id: "P01", runs: &["PAR"], areas: &[], filter: |f| s(f, "what").starts_with("accepts"), rule: PARRULE },
    Prop { id: "P02", runs: &["PAR"], areas: &[], filter: |f| s(f, "what").starts_with("reject") || s(f, "what").starts_with("reads"), rule: PARRULE },
    Prop { id: "P03", runs: &["PAR"], areas: &["asi"], filter: all, rule: PARRULE },
    Prop { id: "P04", runs: &["PAR"], areas: &["function", "class", "context", "object"], filter: all, rule: PARRULE },
    Prop { id: "P05", runs: &["PAR"], areas: &["regex", "template"], filter: all, rule: PARRULE },
    Prop { id: "P06", runs: &["PAR"], areas: &["module", "declaration", "identifier", "pattern"], filter: all, rule: PARRULE },
    Prop { id: "P07", runs: &["PAR"], areas: &["panic", "termination", "rejection"], filter: all, rule: PARRULE },
    Prop { id: "E01", runs: &["EFF"], areas: &[], filter: all, rule: "effect analysis over the call graph of the monomorphic MIR: nothing reachable from parse_root or read_next calls a function of the environment, uses a static that can change, or is unsafe; the entry point itself may report and measure" },
];
const PARRULE: &str = "abstract interpretation of the MIR of the parser, one summary per function and calling context, in lockstep with an automaton for the syntactic grammar: a token the parser takes must be one the grammar allows there, a refusal is allowed only where the grammar refuses, and a normal return only where the grammar is complete";

pub fn run(dump: &str, id: &str, tier: &str, evid: &str, known: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let Some(prop) = PROPS.iter().find(|p| p.id == id) else { eprintln!("no check for {}", id); return 2 };
    let me = std::env::current_exe().unwrap();
    let kids: Vec<_> = prop.runs.iter().map(|r| std::process::Command::new(&me).args([dump, "one", r, id]).stdout(std::process::Stdio::piped()).spawn().unwrap()).collect();
    let mut reps: Vec<Value> = vec![];
    for (k, r) in kids.into_iter().zip(prop.runs) {
        let o = k.wait_with_output().unwrap();
        match serde_json::from_slice::<Value>(&o.stdout) {
            Ok(v) if v.get("error").is_none() => reps.push(v),
            Ok(v) => { eprintln!("analysis {} failed: {}", r, v["error"]); return 2; }
            Err(e) => { eprintln!("analysis {} failed: {}", r, e); return 2; }
        }
    }
    let known: Value = std::fs::read_to_string(known).ok().and_then(|x| serde_json::from_str(&x).ok()).unwrap_or(json!([]));
    let known: Vec<(String, String)> = known.as_array().unwrap().iter().filter(|k| k["property"] == id).filter_map(|k| Some((k["key"].as_str()?.to_string(), k["what"].as_str().unwrap_or("").to_string()))).collect();
    let mut seen: BTreeSet<String> = Default::default();
    let (mut viol, mut undecided, mut kn) = (vec![], vec![], vec![]);
    let mut agreed: BTreeMap<String, u64> = Default::default();
    let (mut states, mut steps, mut blocks, mut sites) = (0u64, 0u64, 0u64, 0u64);
    let mut fns: BTreeSet<String> = Default::default();
    for r in &reps {
        for f in r["findings"].as_array().unwrap() {
            let mut f = f.clone();
            f["run"] = r["name"].clone();
            if !prop.wants(&f) { continue; }
            if f["decided"] == false { if seen.insert(format!("?{}", s(&f, "key"))) { undecided.push(f); } continue; }
            if !seen.insert(s(&f, "key").to_string()) { continue; }
            match known.iter().find(|k| k.0 == s(&f, "key")) { Some(k) => kn.push(k.clone()), None => viol.push(f) }
        }
        for (k, n) in r["agreed"].as_object().unwrap() {
            let base = k.strip_prefix("rejected ").unwrap_or(k);
            if prop.areas.is_empty() || prop.areas.contains(&base) || prop.areas.contains(&"panic") || base == k && id == "T14" { *agreed.entry(k.clone()).or_insert(0) += n.as_u64().unwrap(); }
        }
        states += r["states"].as_u64().unwrap(); steps += r["steps"].as_u64().unwrap(); blocks += r["blocks"].as_u64().unwrap(); sites = sites.max(r["sites"].as_u64().unwrap());
        for f in r["fns"].as_array().unwrap() { fns.insert(f.as_str().unwrap().to_string()); }
    }
    for k in &kn { println!("KNOWN-FINDING: property={} {}", id, k.1); }
    for f in &viol { println!("VIOLATION property={} replay={}", id, s(f, "key").replace(' ', "_")); println!("  {}", s(f, "key")); println!("  {}", s(f, "msg")); }
    for f in &undecided { println!("UNDECIDED {} {}", s(f, "key"), s(f, "msg")); }
    let ok: u64 = agreed.values().sum();
    let obligations = ok + viol.len() as u64 + undecided.len() as u64 + kn.len() as u64;
    let ev = json!({
        "property": id, "tier": tier, "seed": std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1), "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": ok,
            "checker_cmd": format!("/verif/check.sh {} {}", id, tier),
            "trusted_base": ["rustc (the MIR it builds for /repo and the standard library)", "tools/mirdump (MIR to IR)", "tools/jsa (abstract interpreter, models of std in models.rs, specification in lexspec.rs/gram.rs)"],
            "rule": prop.rule,
            "outcomes_compared": agreed, "abstract_states": states, "abstract_steps": steps, "basic_blocks": blocks, "check_sites": sites, "functions": fns,
            "analyses": reps.iter().map(|r| json!({"name": r["name"], "what": r["what"], "states": r["states"], "merged": r["widened"], "seconds": r["secs"]})).collect::<Vec<_>>(),
            "violations": viol, "undecided": undecided, "known": kn.iter().map(|k| k.0.clone()).collect::<Vec<_>>(),
        },
        "assumptions": ["the MIR of the nightly compiler has the meaning of the source", "allocation does not fail and sizes stay below isize::MAX"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": viol.len(),
    });
    if let Err(e) = std::fs::write(evid, serde_json::to_string_pretty(&ev).unwrap()) { eprintln!("cannot write {}: {}", evid, e); return 2; }
    println!("{} {}: {} obligations, {} discharged, {} undecided, {} violations, {:.1} s", id, tier, obligations, ok, undecided.len(), viol.len(), t0.elapsed().as_secs_f64());
    if viol.is_empty() { 0 } else { 1 }
}

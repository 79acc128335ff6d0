//! Bounded model checking of nmea-parser. `mc check <ID>` explores one property (tier and seed from
//! VERIF_TIER and VERIF_SEED), `mc replay <file>` re-runs the history of a violation.
mod ais;
mod alloc;
mod clock;
mod engine;
mod gnss;
mod obs;
mod props {
    pub mod aisfields;
    pub mod aismisc;
    pub mod gnssprops;
    pub mod misc;
    pub mod stateful;
    pub mod texts;
    pub mod total;
    pub mod traffic;
}
use engine::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

const IN: &str = "cases are enumerated by index from the listed bounded spaces, none is sampled; a case counts as distinct and non-trivial if its sentences differ from every other case's and the oracle predicts its outcome";
const TOT: &str = "cases are enumerated by index from the listed bounded spaces of sentences and histories, none is sampled; a case counts as distinct if its clock reading and sentences differ from every other case's; every answer within the memory, allocation and time bounds that is no panic is right";
const MCR: &str = "states and transitions are those of the model, all reachable ones; every transition is executed on a new real parser after each listed history and followed by probes, every answer on the way compared with the model; a case counts as distinct if its sequence of sentences (or clock times) differs from every other case's by construction or hash";
const BASE: &[&str] = &["the reference model in harness/src is right", "rustc, std and the harness are right"];

fn explore(run: &mut Run) -> Meta {
    use ais::Cat::*;
    let ex = Meta { level: "exploration", rule: IN, assumptions: BASE, exhaustive: true };
    let mc = Meta { level: "model_checking", rule: MCR, assumptions: BASE, exhaustive: true };
    match run.id.clone().as_str() {
        "C10" => { props::aisfields::enumerate(run, &[Pos]); ex }
        "C11" => { props::aisfields::enumerate(run, &[Kin]); ex }
        "C09" => { props::aismisc::armouring(run); ex }
        "C12" => { props::aismisc::routing(run); props::aisfields::enumerate(run, &[Id]); ex }
        "C13" => { props::aismisc::texts(run); ex }
        "C16" => { props::aismisc::times(run); props::aisfields::enumerate(run, &[Time]); ex }
        "C14" => { props::aisfields::enumerate(run, &[Code]); ex }
        "C15" => { props::aisfields::enumerate(run, &[Bits]); ex }
        "C17" => { props::gnssprops::positions(run); ex }
        "C18" => { props::gnssprops::fields(run); ex }
        "C19" => { props::gnssprops::times(run); ex }
        "C20" => { props::gnssprops::headers(run); ex }
        "C01" => { props::total::totality(run); Meta { rule: TOT, ..ex } }
        "C03" => { props::traffic::rejected(run); mc }
        "C07" => { props::traffic::unrelated(run); mc }
        "C08" => { props::traffic::independent(run); mc }
        "C22" => { props::traffic::retention(run); mc }
        "C23" => { props::texts::display(run); ex }
        "C24" => { props::texts::errors(run); ex }
        "C04" => { props::stateful::fragments(run); mc }
        "C05" => { props::stateful::satellites(run); mc }
        "C06" => { props::stateful::static_reports(run); mc }
        "C02" => { props::misc::checksums(run); ex }
        "C21" => { props::misc::countries(run); ex }
        x => { eprintln!("unknown property {}", x); std::process::exit(2) }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => { silence_panics(); replay(&a[2]) }
        Some("child") => {
            let id = &a[2];
            map_slots(&a[3]);
            silence_panics();
            let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            start_watchdog(id.clone(), 25);
            let mut run = Run::new(id, thorough, seed);
            let meta = explore(&mut run);
            std::process::exit(run.finish(&meta));
        }
        Some("check") => std::process::exit(supervise(&a[2])),
        _ => { eprintln!("usage: mc check <ID> | mc replay <file>"); std::process::exit(2) }
    }
}

/// Runs the exploration in a child process: if the code under test kills the process (abort, stack
/// overflow, out of memory), that is a violation with the sentence(s) in flight.
fn supervise(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!(".slots-{}-{}", id, std::process::id()));
    std::fs::write(&path, vec![0u8; SLOTS * SLOT_SIZE]).expect("slot file");
    let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["child", id, path.to_str().unwrap()])
        .env("TZ", "IST-5:30").status();
    let mem = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let st = st.expect("child");
    if let Some(c) = st.code() { return c; }
    let sig = st.signal().unwrap_or(0);
    let fl = in_flight(&mem);
    if fl.is_empty() {
        eprintln!("engine ended by signal {} outside the code under test", sig);
        return 2;
    }
    let v = Viol { label: "process-death".into(), idx: 0, steps: fl.iter().map(|f| Step::new(&f.2)).collect(),
        expected: "an answer".into(), observed: format!("the process was ended by signal {}", sig),
        note: "the sentences being parsed by the threads at that moment; one of them is the cause".into() };
    let p = write_replay(id, &v);
    println!("VIOLATION property={} replay={}", id, p);
    1
}

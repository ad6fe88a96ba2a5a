//! Running a check, evidence, replay files, known findings.
use crate::engine::*;
use std::time::Instant;

pub struct Check {
    pub prop: &'static str,
    pub cats: &'static [&'static str],
    pub thorough: bool,
    pub t0: Instant,
    pub stats: Vec<Stats>,
    pub notes: Vec<String>,
    pub assumptions: Vec<String>,
    replay: Option<(String, Vec<Label>, String)>,
    only: Option<String>,
    pub wall_total: f64,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(", "))
}
pub fn evidence_dir() -> String {
    std::env::var("MC_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into())
}
pub fn write_replay(prop: &str, world: &str, msg: &str, trace: &[String], labels: &[Label]) -> String {
    let dir = evidence_dir();
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/replay-{prop}.txt");
    let mut s = format!(
        "property: {prop}\nworld: {world}\nwhat: {msg}\nlabels: {}\n# re-run on the real code: /verif/check.sh replay {prop} {path}\nsteps:\n",
        labels.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(",")
    );
    for t in trace {
        s += &format!("  {t}\n");
    }
    let _ = std::fs::write(&path, s);
    path
}

impl Check {
    /// `args`: `<prop>` or `replay <prop> <file>`
    pub fn new(prop: &'static str, cats: &'static [&'static str]) -> Check {
        crate::util::quiet_panics();
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let args: Vec<String> = std::env::args().collect();
        let mut replay = None;
        if args.get(1).is_some_and(|a| a == "replay") {
            let txt = std::fs::read_to_string(&args[3]).expect("replay file");
            let get = |k: &str| {
                txt.lines()
                    .find_map(|l| l.strip_prefix(&format!("{k}: ")))
                    .unwrap_or("")
                    .to_string()
            };
            let labels = get("labels").split(',').filter_map(|x| x.parse().ok()).collect();
            replay = Some((get("world"), labels, get("what")));
            unsafe { std::env::set_var("MC_REPLAY", "1") };
        }
        if let Ok(t) = std::env::var("MC_THREADS") {
            THREADS.store(t.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
        } else if let Ok(n) = std::thread::available_parallelism() {
            THREADS.store(n.get().min(16), std::sync::atomic::Ordering::Relaxed);
        }
        if replay.is_none() {
            start_watchdog(prop, 60_000);
        }
        Check {
            prop,
            cats,
            thorough,
            t0: Instant::now(),
            stats: vec![],
            notes: vec![],
            assumptions: vec![],
            replay,
            only: std::env::var("MC_WORLD").ok(),
            wall_total: if thorough { 3000.0 } else { 400.0 },
        }
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Explore one world. Exits the process on a violation.
    pub fn run<S: System>(&mut self, sys: &S, depth: usize, max_states: usize) {
        let name = sys.name();
        if let Some((w, labels, _)) = &self.replay {
            if *w == name {
                println!("replaying in world {name}");
                let cats = self.cats;
                match replay_any(sys, labels, cats) {
                    Ok(m) => println!("{m}"),
                    Err(e) => println!("does not reproduce: {e}"),
                }
                std::process::exit(0);
            }
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let left = self.wall_total - self.t0.elapsed().as_secs_f64();
        let depth = std::env::var("MC_DEPTH").ok().and_then(|d| d.parse().ok()).unwrap_or(depth);
        let b = Bounds { depth, max_states, wall_s: left.max(1.0) };
        let (st, found) = explore(sys, self.cats, b);
        if std::env::var("MC_QUIET").is_err() {
            println!(
                "{} world={} states={} transitions={} evals={} depth={} closed={} {}foreign={:?} {:?} {:.1}s",
                self.prop,
                st.name,
                st.states,
                st.transitions,
                st.evals,
                st.depth,
                st.closed,
                st.capped.clone().map(|c| format!("CAP({c}) ")).unwrap_or_default(),
                st.foreign,
                st.counters,
                st.wall_s
            );
        }
        self.stats.push(st);
        if let Some(f) = found {
            self.fail(&f.world, &format!("[{}] {}", f.prop, f.msg), &f.trace, &f.labels);
        }
    }
    pub fn fail(&mut self, world: &str, msg: &str, trace: &[String], labels: &[Label]) -> ! {
        let path = write_replay(self.prop, world, msg, trace, labels);
        self.write_evidence(1);
        println!("world {world}: {msg}");
        for t in trace {
            println!("  {t}");
        }
        println!("VIOLATION property={} replay={path}", self.prop);
        std::process::exit(1);
    }
    /// Add the result of an exploration that is not a `System`.
    pub fn push_stats(&mut self, st: Stats) {
        if std::env::var("MC_QUIET").is_err() {
            println!(
                "{} world={} states={} transitions={} evals={} closed={} {:?} {:.1}s",
                self.prop, st.name, st.states, st.transitions, st.evals, st.closed, st.counters, st.wall_s
            );
        }
        self.stats.push(st);
    }
    pub fn is_replay_of(&self, world: &str) -> bool {
        self.replay.as_ref().is_some_and(|r| r.0 == world)
    }
    pub fn replay_labels(&self) -> Vec<Label> {
        self.replay.as_ref().map(|r| r.1.clone()).unwrap_or_default()
    }
    pub fn wants(&self, world: &str) -> bool {
        (self.replay.is_none() || self.is_replay_of(world)) && self.only.as_ref().is_none_or(|o| world.contains(o.as_str()))
    }
    pub fn write_evidence(&self, violations: u32) {
        if self.replay.is_some() || self.only.is_some() {
            return;
        }
        let dir = evidence_dir();
        let _ = std::fs::create_dir_all(&dir);
        let sum = |f: fn(&Stats) -> u64| self.stats.iter().map(f).sum::<u64>();
        let worlds = arr(self.stats.iter().map(|s| {
            format!(
                "{{\"world\": {}, \"states\": {}, \"transitions\": {}, \"checks_evaluated\": {}, \"depth\": {}, \"frontier_exhausted\": {}, \"cap\": {}, \"pruned_branches_other_property\": {}, \"counters\": {{{}}}, \"traces_replayed\": {}, \"wall_s\": {:.2}}}",
                esc(&s.name), s.states, s.transitions, s.evals, s.depth, s.closed,
                s.capped.as_ref().map(|c| esc(c)).unwrap_or("null".into()),
                s.foreign.values().sum::<u64>(),
                s.counters.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", "),
                s.replayed, s.wall_s
            )
        }));
        let samples = arr(self.stats.iter().filter(|s| !s.sample.is_empty()).take(12).map(|s| {
            format!("{{\"world\": {}, \"trace\": {}}}", esc(&s.name), arr(s.sample.iter().map(|x| esc(x))))
        }));
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut assumptions = self.assumptions.clone();
        assumptions.push("flash programs and erases bytes in ascending address order within one call; a power cut stops after any byte".into());
        let s = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"exhaustive\": {},\n  \"explanation\": {},\n  \"samples\": {},\n  \"worlds\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
            esc(self.prop),
            esc(if self.thorough { "thorough" } else { "quick" }),
            sum(|s| s.states),
            sum(|s| s.transitions),
            sum(|s| s.replayed),
            sum(|s| s.evals),
            self.stats.iter().all(|s| s.capped.is_none()),
            esc(&format!(
                "Every transition executes the library itself (the model is only the oracle); traces_validated_against_impl counts recorded traces re-executed from the initial state and reproduced step by step. exhaustive means every state within the stated depth of every world was expanded. {}",
                self.notes.join(" ")
            )),
            samples,
            worlds,
            arr(assumptions.iter().map(|a| esc(a))),
            self.t0.elapsed().as_secs_f64(),
        );
        std::fs::write(format!("{dir}/{}.json", self.prop), s).expect("evidence");
    }
    pub fn finish(self) -> ! {
        if self.replay.is_some() {
            println!("world not found in this check");
            std::process::exit(2);
        }
        let states: u64 = self.stats.iter().map(|s| s.states + s.evals).sum();
        if states == 0 && self.only.is_none() {
            eprintln!("vacuous run");
            std::process::exit(2);
        }
        self.write_evidence(0);
        println!(
            "OK property={} worlds={} states={} transitions={} wall={:.1}s",
            self.prop,
            self.stats.len(),
            self.stats.iter().map(|s| s.states).sum::<u64>(),
            self.stats.iter().map(|s| s.transitions).sum::<u64>(),
            self.t0.elapsed().as_secs_f64()
        );
        std::process::exit(0)
    }
}
fn replay_any<S: System>(sys: &S, labels: &[Label], cats: &'static [&'static str]) -> Result<String, String> {
    let mut err = String::new();
    for c in cats {
        match crate::engine::replay(sys, cats, labels, Some(&Viol { prop: c, msg: String::new() })) {
            Ok(()) => return Ok("violation reproduced".into()),
            Err(e) => err = e,
        }
    }
    Err(err)
}

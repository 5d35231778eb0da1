//! Build configurations: C18.

use std::collections::HashMap;
use std::process::Command;
use std::sync::Mutex;

use super::Prop;
use crate::engine::*;

pub static C18: Prop = Prop {
    id: "C18",
    level: "exploration",
    technique: "exhaustive enumeration of build configurations, each running the same exhaustively enumerated documents and edit histories, with transcripts compared",
    rule: "every configuration but the first, times every block of documents and histories of the transcript writer (cfg/src/main.rs); a block is every history of an alphabet from one document, or every string of tokens with one first token; non-trivial: pairs of configuration and block",
    assumptions: &["Equal 64-bit hashes of transcripts mean equal transcripts"],
    spaces: spaces_c18,
    probes: &[],
};

/// The configurations, as in cfg/configs.
const CONFIGS: &[&str] = &[
    "plain", "serde", "edits", "both", "plain-eq", "serde-eq", "edits-eq", "both-eq", "plain-release", "both-release", "bare",
];

const BIN: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../cfg/target/bin/");

fn run(config: &str, mode: &str, tier: Tier, block: usize) -> Result<String, String> {
    let out = Command::new(format!("{BIN}{config}"))
        .args([mode, tier.name(), &block.to_string()])
        .output()
        .map_err(|e| format!("{config} cannot be run: {e}"))?;
    if out.status.success() {
        Ok(String::from_utf8_lossy(&out.stdout).into_owned())
    } else {
        Err(format!("{config} ended with {}", out.status))
    }
}

fn blocks() -> usize {
    let out = (0..).find(|i| matches!(run(CONFIGS[0], "count", Tier::Quick, *i).as_deref(), Ok("none\n") | Err(_)));
    out.unwrap_or(0)
}

fn spaces_c18(tier: Tier) -> Vec<Space> {
    let blocks = blocks();
    if blocks < 100 {
        internal("the transcript writers are missing");
        std::process::exit(INTERNAL);
    }
    let base: Mutex<HashMap<usize, (String, bool)>> = Mutex::default();
    vec![Space::new(
        format!("{blocks} blocks, {} configurations", CONFIGS.len()),
        0,
        move |c| {
            let block = c.pick(blocks);
            let config = CONFIGS[1 + c.pick(CONFIGS.len() - 1)];
            let case = || format!("{config}, block {block}");
            note(|n| *n = case());
            c.nontrivial(case().as_bytes());
            let known = base.lock().ok().and_then(|b| b.get(&block).cloned());
            let (first, quiet) = match known {
                Some(b) => b,
                None => {
                    let b = match run(CONFIGS[0], "hash", tier, block) {
                        Ok(b) => b,
                        Err(e) => return fail("a configuration fails", format!("{}, block {block}", CONFIGS[0]), e),
                    };
                    let quiet = b.trim_end().ends_with(" 0 panics");
                    if let Ok(mut m) = base.lock() {
                        m.insert(block, (b.clone(), quiet));
                    }
                    (b, quiet)
                }
            };
            let other = match run(config, "hash", tier, block) {
                Ok(b) => b,
                Err(e) => return fail("a configuration fails", case(), e),
            };
            let numbers: Vec<u64> = other.split(' ').filter_map(|n| n.parse().ok()).collect();
            if let [.., runs, steps, _] = numbers[..] {
                c.count("histories", runs);
                c.count("edits and parses", steps);
                c.stats.evaluations += runs;
            }
            if first == other && quiet {
                c.outcome(config);
                c.sample(|| format!("{}: {}", case(), other.trim_end()));
                return Ok(());
            }
            let a = run(CONFIGS[0], "full", tier, block).unwrap_or_default();
            let b = run(config, "full", tier, block).unwrap_or_default();
            for (a, b) in a.lines().zip(b.lines()) {
                if a != b {
                    let at = a.bytes().zip(b.bytes()).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
                    let cut = |s: &str| -> String { String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(200).min(s.len())..(at + 100).min(s.len())]).into_owned() };
                    return fail(
                        format!("{config} behaves differently"),
                        case(),
                        format!("{} in {}, {} in {config}", cut(a), CONFIGS[0], cut(b)),
                    );
                }
                if a.contains("panic: ") && !quiet {
                    return fail("a panic", case(), a.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>());
                }
            }
            fail(format!("{config} behaves differently"), case(), "the transcripts differ in length")
        },
    )]
}

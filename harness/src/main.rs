//! Drives adhoc_audio and records what it does, for TLC to compare with the specification.
//!
//!   vh gen PROFILE SEED START COUNT OUT PARTIAL     random scenarios
//!   vh run KIND SCRIPTS START OUT PARTIAL           scenarios that the specification generated
#[cfg(feature = "private")]
mod coll;
mod adhoc;
mod cli;
mod damage;
mod format;
mod giant;
#[cfg(feature = "private")]
mod huge;
#[cfg(feature = "private")]
mod maths;
mod replica;
mod signal;
mod transcode;
mod transfer;
mod util;
#[cfg(feature = "private")]
mod value;
mod wav;

use std::io::{BufRead, BufReader, BufWriter, Write};
use util::*;

fn scenario(profile: &str, seed: u64, index: usize) -> Option<Trace> {
    let (name, arg) = profile.split_once(':').unwrap_or((profile, ""));
    let mut r = Rng::new(seed, hash31(profile.as_bytes()) as u64, index as u64);
    let r = &mut r;
    Some(match name {
        #[cfg(feature = "private")]
        "coll" => coll::run(index, arg, &coll::random(arg, r, false, index % 4 == 3)),
        #[cfg(feature = "private")]
        "eons" => coll::run(index, arg, &coll::eons(arg, r)),
        #[cfg(feature = "private")]
        "twin" => {
            let kinds = ["list", "lru", "ring", "stack", "bitvec", "nibble", "bits"];
            let kind = if arg == "all" { kinds[index % kinds.len()] } else { arg };
            coll::run_twin(index, kind, &coll::random(kind, r, true, false))
        }
        #[cfg(feature = "private")]
        "huge" => huge::random(index, arg, r, false),
        #[cfg(feature = "private")]
        "rhuge" => huge::random(index, arg, r, true),
        #[cfg(feature = "private")]
        "sweep" => coll::sweep(index, index),
        #[cfg(feature = "private")]
        "rice" => coll::run(index, "bits", &coll::random_rice(r)),
        "fidelity" => adhoc::fidelity(index, r, arg == "0"),
        "frames" => adhoc::many_frames(index, r, arg == "0"),
        "reading" => adhoc::reading(index, r),
        "counting" => adhoc::counting(index, r),
        "long" => adhoc::long_calls(index, r, index, arg == "1"),
        "setup" => adhoc::setup(index, r),
        "broad" => adhoc::broad(index, r, index, arg),
        "deep" => adhoc::deep(index, r, index, arg),
        "giant" if arg == "bits" => giant::bits(index, r, false),
        "giant" if arg == "allbits" => giant::bits(index, r, true),
        "giant" => giant::random(index, r, index, arg),
        "saving" => adhoc::saving(index, r),
        "seeking" => adhoc::seeking(index, r),
        "reuse" => adhoc::reuse(index, r),
        "sizes" => adhoc::sizes(index, r),
        "written" => format::written(index, r, arg.parse().unwrap()),
        "flong" => format::written_long(index, r, arg.parse().unwrap()),
        "foreign" => format::foreign(index, r),
        "damage" => damage::random(index, r),
        "transfer" => transfer::random(index, r),
        "cli" => cli::random(index, r),
        "transcode" => transcode::chain(index, r, index),
        "replicas" => replica::replicas(index, r, seed),
        #[cfg(feature = "private")]
        "noise" => maths::noise(index, r),
        #[cfg(feature = "private")]
        "tables" => maths::tables(index, r),
        #[cfg(feature = "private")]
        "period" => maths::period(index, r),
        #[cfg(feature = "private")]
        "signals" => maths::signals(index, r),
        "wsaving" => wav::saving(index, r),
        "wdeep" => wav::deep(index, r, index, arg),
        "warray" => wav::array(index, r),
        "wseeking" => wav::seeking(index, r),
        "wsizes" => wav::sizes(index, r),
        "wforeign" => wav::foreign(index, r),
        "wfar" => wav::far(index, r),
        "wbroken" => wav::broken(index, r),
        _ => return None,
    })
}

fn replayed(kind: &str, index: usize, line: &str) -> Option<Trace> {
    Some(match kind {
        #[cfg(feature = "private")]
        "list" | "lru" | "ring" | "stack" | "bitvec" | "nibble" | "bits" => {
            coll::run(index, kind, &coll::Script::parse(line))
        }
        "adhoc:setup" => adhoc::setup_script(index, line),
        _ if kind.starts_with("adhoc:") => adhoc::scripted(index, &kind[6..], line),
        _ if kind.starts_with("wav:") => wav::scripted(index, &kind[4..], line),
        "damage" => damage::scripted(index, line),
        "transfer" => transfer::scripted(index, line),
        "cli" => cli::scripted(index, line),
        #[cfg(feature = "private")]
        _ if kind.starts_with("twin:") => coll::run_twin(index, &kind[5..], &coll::Script::parse(line)),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["gen", profile, seed, start, count, out, partial] => {
            install(Some(partial));
            let (seed, start, count): (u64, usize, usize) = (
                seed.parse().unwrap(),
                start.parse().unwrap(),
                count.parse().unwrap(),
            );
            let mut out = BufWriter::new(
                std::fs::OpenOptions::new().append(true).create(true).open(out).unwrap(),
            );
            for i in start..start + count {
                match scenario(profile, seed, i) {
                    Some(t) => writeln!(out, "{}", t.line()).unwrap(),
                    None => {
                        eprintln!("unknown profile {}", profile);
                        std::process::exit(2)
                    }
                }
                // what is recorded so far must survive a crash in the next scenario
                out.flush().unwrap();
            }
        }
        ["run", kind, scripts, start, out, partial] => {
            install(Some(partial));
            let start: usize = start.parse().unwrap();
            let mut out = BufWriter::new(
                std::fs::OpenOptions::new().append(true).create(true).open(out).unwrap(),
            );
            let f = BufReader::new(std::fs::File::open(scripts).unwrap());
            for (i, line) in f.lines().enumerate().skip(start) {
                match replayed(kind, i, &line.unwrap()) {
                    Some(t) => writeln!(out, "{}", t.line()).unwrap(),
                    None => {
                        eprintln!("unknown kind {}", kind);
                        std::process::exit(2)
                    }
                }
                out.flush().unwrap();
            }
        }
        ["digests", seed, index] => replica::digests(seed.parse().unwrap(), index.parse().unwrap()),
        _ => {
            eprintln!("usage: see the source");
            std::process::exit(2)
        }
    }
}

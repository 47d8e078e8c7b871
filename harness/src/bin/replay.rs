//! Runs one harness natively on a concrete assignment.
//! replay --list | replay HARNESS [VALUE...]   (decimal values)
//! Exit 0: behaved as the property demands; 10: violation reproduced;
//! 11: the assignment does not fit the harness.

use std::panic;

#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args[0] == "--list" {
        for t in vharness::tables() {
            for e in t {
                println!("{}\t{}\t{}\t{}", e.name, e.unwind, e.kind, e.bounds);
            }
        }
        return;
    }
    let entry = vharness::tables().into_iter().flatten()
        .find(|e| e.name == args[0]).expect("no such harness");
    vharness::nd::VALUES.with(|v| {
        *v.borrow_mut() = args[1..].iter().map(|s| s.parse::<u64>().unwrap()).collect()
    });
    panic::set_hook(Box::new(|_| {}));
    let must_panic = entry.kind.starts_with("panics");
    let r = panic::catch_unwind(entry.run);
    let reached = vharness::nd::REACHED.with(|r| *r.borrow());
    let left = vharness::nd::VALUES.with(|v| v.borrow().len());
    let code = match r {
        Ok(()) => {
            println!("returned normally ({} values left)", left);
            if must_panic { 10 } else { 0 }
        }
        Err(e) => {
            if let Some(b) = e.downcast_ref::<vharness::nd::BadReplay>() {
                println!("bad replay: {}", b.0);
                11
            } else {
                let msg = e.downcast_ref::<&'static str>().map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "non-string panic".to_string());
                println!("panic: {}", msg);
                if must_panic {
                    // Before the witness a panic is a failure of the set-up.
                    if !reached || msg.starts_with("VERIF:") { 10 } else { 0 }
                } else {
                    10
                }
            }
        }
    };
    std::process::exit(code);
}

mod chain;
mod drop;
mod engine;
mod peri;
mod pools;
mod runner;
mod semver;
mod snap;
mod store;
mod util;
mod vault;
mod vault_gen;

use std::io::Write;
use std::os::fd::FromRawFd;
use std::sync::OnceLock;

static OUT: OnceLock<std::sync::Mutex<std::fs::File>> = OnceLock::new();

/// The contracts print to the standard output; the simulator keeps the real one for itself.
pub fn say(s: &str) {
    if let Some(f) = OUT.get() {
        let mut f = f.lock().unwrap();
        let _ = writeln!(f, "{s}");
    }
}

fn main() {
    unsafe {
        let fd = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        let _ = OUT.set(std::sync::Mutex::new(std::fs::File::from_raw_fd(fd)));
    }
    if std::env::var("SIM_PANICS").is_err() {
        std::panic::set_hook(Box::new(|i| {
            // a panic inside a contract is a failed transaction; one of the simulator is a bug
            let f = i.location().map(|l| l.file()).unwrap_or("");
            if f.starts_with("src/") && !i.payload().is::<store::OutOfGas>() {
                eprintln!("simulator panic: {i}");
            }
        }));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", prop, rest @ ..] => runner::check(prop, rest),
        ["replay", file] => runner::replay(file),
        ["digest", list, order] => runner::digest(list, order),
        ["stat", prop, n, start] => runner::stat(prop, n.parse().unwrap(), start.parse().unwrap()),
        ["sweep", fam, n, threads] => runner::sweep(fam, n.parse().unwrap(), threads.parse().unwrap()),
        _ => {
            say("usage: ibcx-sim check PROPERTY | replay FILE | digest LIST ORDER | stat PROPERTY N START");
            2
        }
    };
    std::process::exit(code);
}

fn main() {
    let me = std::env::args().next().unwrap_or_default();
    match me.rsplit('/').next() {
        Some("obj") => symx::native::os::helper(),
        Some("cambrian") => std::process::exit(harness::cli::vh_cli_main(0) as i32),
        _ => {}
    }
    let n = std::env::args().nth(1).expect("entry name");
    match harness::ENTRIES.iter().find(|(k, _)| *k == n) {
        Some((_, f)) => symx::native::run(*f),
        None => { eprintln!("no entry {}", n); std::process::exit(2) }
    }
}

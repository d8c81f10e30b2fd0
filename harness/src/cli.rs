//! The command-line tool, as it stands in /repo, with its `main` callable.
include!("/repo/src/bin/cambrian.rs");

pub extern "C" fn vh_cli_main(_: u64) -> u64 {
    let c = std::process::Termination::report(main());
    // an exit code is a byte on this platform
    unsafe { std::mem::transmute::<std::process::ExitCode, u8>(c) as u64 }
}

use std::process::Command;
fn main() {
    // libLLVM of the pinned toolchain (exports the LLVM C API) and the installed Z3.
    let out = Command::new("rustc").args(["--print", "sysroot"]).output().unwrap();
    let sysroot = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let lib = format!("{}/lib", sysroot);
    let mut llvm = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so") {
            llvm = Some(n);
        }
    }
    let llvm = llvm.expect("libLLVM in sysroot");
    let cands = [
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so.5.3",
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
        "/usr/lib/x86_64-linux-gnu/libz3.so.4",
    ];
    let z = std::env::var("SYMX_Z3").ok().unwrap_or_else(|| {
        cands.iter().find(|p| std::path::Path::new(p).exists()).expect("libz3").to_string()
    });
    // libLLVM exports parts of a statically linked libstdc++; the shared libstdc++ that libz3 uses
    // must come first in the lookup order.
    println!("cargo:rustc-link-arg=-Wl,--no-as-needed");
    println!("cargo:rustc-link-arg=/lib/x86_64-linux-gnu/libstdc++.so.6");
    println!("cargo:rustc-link-arg={}", z);
    println!("cargo:rustc-link-arg={}/{}", lib, llvm);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
    let dir = std::path::Path::new(&z).parent().unwrap().display().to_string();
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", dir);
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=SYMX_Z3");
}

use std::process::Command;
fn main() {
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-arg=-l:libz3.so");
    // the compiler's own libLLVM exports the LLVM C API and reads exactly the IR that rustc writes
    let out = Command::new("rustc").args(["--print", "sysroot"]).output().unwrap();
    let root = String::from_utf8(out.stdout).unwrap();
    let lib = format!("{}/lib", root.trim());
    let so = std::fs::read_dir(&lib)
        .unwrap()
        .filter_map(|e| e.ok())
        .map(|e| e.file_name().into_string().unwrap())
        .find(|n| n.starts_with("libLLVM.so"))
        .expect("libLLVM");
    println!("cargo:rustc-link-arg={}/{}", lib, so);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
    println!("cargo:rerun-if-changed=build.rs");
}

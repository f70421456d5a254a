use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=csrc");
    let mut objs = vec![];
    for f in ["sim_rt", "sim_fs"] {
        let o = format!("{out}/{f}.o");
        let ok = Command::new("gcc")
            .args(["-O2", "-g", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fPIC", "-fno-builtin-memcpy", "-Wall", "-mcx16", "-c", "-o", &o, &format!("csrc/{f}.c")])
            .status()
            .expect("gcc")
            .success();
        assert!(ok, "gcc failed");
        objs.push(o);
    }
    for o in objs {
        println!("cargo:rustc-link-arg-bins={o}");
    }
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
    println!("cargo:rustc-link-lib=dl");
}

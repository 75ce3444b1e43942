mod disk;
mod jobs;
mod json;
mod os;
mod props;
mod sched;

#[global_allocator]
static ALLOC: simcore::sut::CountingAlloc = simcore::sut::CountingAlloc;

fn main() {
    let base = if std::path::Path::new("/dev/shm").is_dir() && std::fs::write(format!("/dev/shm/bp3dprobe-{}", std::process::id()), "").is_ok() {
        let _ = std::fs::remove_file(format!("/dev/shm/bp3dprobe-{}", std::process::id()));
        "/dev/shm"
    } else {
        "/tmp"
    };
    // Of constant length, so that paths in generated code are of the same length in every execution.
    let root = format!("{base}/bp3dsim-{:08}", std::process::id());
    os::set_root(&root);
    // Scripts of the simulation have theirs.
    std::env::remove_var("OUT_DIR");
    let _ = std::fs::create_dir_all(&root);
    let code = simcore::runner::main(simcore::runner::Suite {
        name: "gen",
        schema_seed: 1,
        scenarios: vec![("C20", props::c20), ("C21", props::c21), ("C22", props::c22), ("C23", props::c23), ("C24", props::c24), ("C25", props::c25), ("C26", props::c26), ("C27", props::c27), ("C28", props::c28), ("C29", props::c29)],
        findings: |_| Vec::new(),
    });
    let _ = std::fs::remove_dir_all(&root);
    std::process::exit(code);
}

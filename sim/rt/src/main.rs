mod codec;
mod conc;
mod dec;
mod enc;
mod net;
mod reg;
mod regs;
mod sink;
mod voids;
mod world;

#[global_allocator]
static ALLOC: simcore::sut::CountingAlloc = simcore::sut::CountingAlloc;

fn main() {
    std::process::exit(simcore::runner::main(simcore::runner::Suite {
        name: "rt",
        schema_seed: rtsim::glue::SCHEMA_SEED,
        scenarios: vec![("C01", enc::c01), ("C02", enc::c02), ("C03", enc::c03), ("C04", enc::c04), ("C05", enc::c05), ("C06", dec::c06), ("C07", dec::c07), ("C08", dec::c08), ("C09", dec::c09), ("C10", dec::c10), ("C11", reg::c11), ("C12", reg::c12), ("C13", conc::c13), ("C14", dec::c14)],
        findings: dec::findings,
    }));
}

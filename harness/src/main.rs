//! Runtime monitors for keyhive. See ../../DESIGN.md.
mod archive;
mod causal;
mod cgka_sim;
mod world;
mod mem;
mod conc;
mod content;
mod findings;
mod ingest;
mod hostile;
mod keyforge;
mod listener;
mod secrets;
mod soup;
mod sync;
mod oracle;
mod check;
mod defs;
mod pins;
mod prekeys;
mod rt;
mod transact;
mod wire;

fn main() {
    check::main_run(&defs::defs())
}

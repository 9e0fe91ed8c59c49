//! Bounded model checker for division_ecs. See /verif/DESIGN.md.
mod alloc;
mod arch;
mod bulk;
mod checks;
mod cli;
mod comps;
mod conc;
mod explore;
mod res;
mod sys;
mod perms;
mod wide;

#[global_allocator]
static GLOBAL: alloc::Checking = alloc::Checking;

fn main() {
    cli::run(checks::jobs);
}

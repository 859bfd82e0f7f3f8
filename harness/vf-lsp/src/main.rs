mod cli;
mod client;
mod format;
mod lazy;
mod positions;
mod project;
mod protocol;
mod settings;
mod sync;
mod workspaces;
use vf::Check;

fn main() {
    vf::main(&[protocol::CHECK, sync::CHECK, positions::CHECK, lazy::CHECK, settings::CHECK, cli::CHECK, workspaces::CHECK, format::CHECK]);
}

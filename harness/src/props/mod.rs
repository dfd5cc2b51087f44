use crate::fw::Ctx;

pub mod c01;
pub mod c02;
pub mod broker;
pub mod conn;
pub mod rtc;
pub mod ws;
pub mod gossip;
pub mod ids;
pub mod node;
pub mod kad;
pub mod netsim;
pub mod overlay;
pub mod pages;
pub mod proxy;
pub mod random;
pub mod route;
pub mod serde;
pub mod signal;
pub mod stack;
pub mod storage;
pub mod store;

pub fn all() -> Vec<(&'static str, fn(&mut Ctx))> {
    vec![
        ("C01", c01::run as fn(&mut Ctx)),
        ("C02", c02::run),
        ("C03", self::serde::run_roundtrip),
        ("C04", self::serde::run_versions),
        ("C05", ids::run),
        ("C06", store::run_space),
        ("C07", store::run_content),
        ("C08", netsim::run_sync),
        ("C09", netsim::run_restart),
        ("C10", netsim::run_admission),
        ("C11", pages::run_pages),
        ("C12", kad::run_table),
        ("C13", route::run_routing),
        ("C14", gossip::run_events),
        ("C15", gossip::run_gossip),
        ("C16", random::run_random),
        ("C17", stack::run_stack),
        ("C18", signal::run_signal),
        ("C19", conn::run_connection),
        ("C23", node::run_nodes),
        ("C24", proxy::run_proxy),
        ("C25", ws::run_ws),
        ("C26", overlay::run_store),
        ("C20", self::broker::run_broker),
        ("C21", storage::run_storage),
        ("C22", storage::run_atomic),
    ]
}

/// Sub-processes which a check starts for itself.
pub fn child(_args: &[String]) -> Option<i32> {
    None
}

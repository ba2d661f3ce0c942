//! The properties: one module per group, each a list of [`Prop`]s.
use crate::engine::Prop;

mod creds;
mod custom;
mod errs;
mod feats;
mod flow;
mod grammar;
mod gss;
mod memory;
mod scram;
mod sel;
mod simple;

pub use scram::first_nonces;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(scram::props());
    v.extend(simple::props());
    v.extend(creds::props());
    v.extend(flow::props());
    v.extend(custom::props());
    v.extend(sel::props());
    v.extend(gss::props());
    v.extend(errs::props());
    v.extend(grammar::props());
    v.extend(feats::props());
    v.extend(memory::props());
    v
}

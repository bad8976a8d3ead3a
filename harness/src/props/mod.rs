use crate::frame::*;
pub mod cli;
pub mod free;
pub mod independence;
pub mod model_props;
pub mod prose;
pub mod shape;
pub mod system;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(model_props::props());
    v.extend(free::props());
    v.extend(prose::props());
    v.extend(shape::props());
    v.extend(system::props());
    v.extend(cli::props());
    v
}

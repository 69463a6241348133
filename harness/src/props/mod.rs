pub mod amend;
pub mod fixups;
pub mod cache;
pub mod editor;
pub mod gazette;
pub mod hun;
pub mod ident;
pub mod lines;
pub mod output;
pub mod pdf;
pub mod refs;
pub mod serial;
pub mod structure;
pub mod walk;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(ident::props());
    v.extend(hun::props());
    v.extend(refs::props());
    v.extend(lines::props());
    v.extend(structure::props());
    v.extend(amend::props());
    v.extend(serial::props());
    v.extend(walk::props());
    v.extend(output::props());
    v.extend(editor::props());
    v.extend(cache::props());
    v.extend(gazette::props());
    v.extend(pdf::props());
    v.extend(fixups::props());
    v
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}

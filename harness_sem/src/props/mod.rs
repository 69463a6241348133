// Generators and models of the other checks
#[path = "../../../harness/src/props/amend.rs"]
pub mod amend;
#[path = "../../../harness/src/props/fixups.rs"]
pub mod fixups;
#[path = "../../../harness/src/props/gazette.rs"]
pub mod gazette;
#[path = "../../../harness/src/props/hun.rs"]
pub mod hun;
#[path = "../../../harness/src/props/lines.rs"]
pub mod lines;
#[path = "../../../harness/src/props/pdf.rs"]
pub mod pdf;
#[path = "../../../harness/src/props/refs.rs"]
pub mod refs;
#[path = "../../../harness/src/props/serial.rs"]
pub mod serial;
#[path = "../../../harness/src/props/structure.rs"]
pub mod structure;
#[path = "../../../harness/src/props/output.rs"]
pub mod output;
pub mod phrase;
pub mod semantic;
pub mod special;
pub mod tool;
pub mod whole;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = semantic::props();
    v.push(special::prop());
    v.push(whole::prop());
    v.push(tool::prop());
    v
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}

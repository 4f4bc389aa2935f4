//! Recorded defects: each known finding has one deterministic probe, which shows that it still is there.

use dendron::{InsertAs, Node};

/// Probes of a property.
pub fn of(prop: &str) -> &'static [&'static str] {
    match prop {
        "C10" => &["tree-handle-of-moved-root"],
        _ => &[],
    }
}

/// Exit code: 1 if the defect is there, 0 if not.
pub fn run(name: &str) -> i32 {
    match name {
        "tree-handle-of-moved-root" => {
            // A Tree handle taken before the root of that tree is moved under a node of another tree.
            let a = Node::new_tree(1);
            let t = a.tree();
            let b = Node::new_tree(2);
            let ha = a.bundle_new_hierarchy_edit_grant().expect("grant");
            let hb = b.bundle_new_hierarchy_edit_grant().expect("grant");
            ha.detach_insert_subtree(InsertAs::LastChildOf(&hb));
            let bad = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let r = t.root();
                !r.is_root() || !r.tree().ptr_eq(&t)
            }))
            .unwrap_or(true);
            // The state is inconsistent; do not run its destructors.
            std::mem::forget((t, ha, hb));
            i32::from(bad)
        }
        _ => 2,
    }
}

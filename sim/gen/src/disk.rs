//! The scratch directory: content, leftovers, and what a crash does to it.

use crate::jobs::{Set, OUTPUTS};
use crate::os;
use crate::os::Op;
use crate::sched::Outcome;
use simcore::{ev, Ctx};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Default, PartialEq, Eq)]
pub struct Tree {
    pub files: BTreeMap<String, Vec<u8>>,
    pub dirs: BTreeSet<String>,
}

fn walk(dir: &Path, rel: &str, t: &mut Tree) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() { name.clone() } else { format!("{rel}/{name}") };
        match e.file_type() {
            Ok(ft) if ft.is_dir() => {
                t.dirs.insert(r.clone());
                walk(&e.path(), &r, t);
            }
            _ => {
                t.files.insert(r, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
}

/// Content of the scratch directory below a directory; paths relative to the scratch directory.
pub fn snapshot(dir: &str) -> Tree {
    let mut t = Tree::default();
    walk(&Path::new(os::root()).join(dir), dir, &mut t);
    t
}

/// An empty scratch directory with its folders.
pub fn reset() {
    let r = Path::new(os::root());
    for d in ["in", "in2", "in3", "in4", "out", "out2"] {
        let _ = std::fs::remove_dir_all(r.join(d));
        let _ = std::fs::create_dir_all(r.join(d));
    }
}

pub fn clear(dir: &str) {
    let p = Path::new(os::root()).join(dir);
    let _ = std::fs::remove_dir_all(&p);
    let _ = std::fs::create_dir_all(&p);
}

pub fn put(path: &str, data: &[u8]) {
    let p = Path::new(os::root()).join(path);
    if let Some(d) = p.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(p, data);
}

/// When a file was changed last.
pub fn age(path: &str, secs: u64) {
    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(secs);
    if let Ok(f) = std::fs::File::options().write(true).open(Path::new(os::root()).join(path)) {
        let _ = f.set_modified(t);
    }
}

pub fn get(path: &str) -> Option<Vec<u8>> {
    std::fs::read(Path::new(os::root()).join(path)).ok()
}

pub fn remove(path: &str) {
    let _ = std::fs::remove_file(Path::new(os::root()).join(path));
}

pub fn exists(path: &str) -> bool {
    Path::new(os::root()).join(path).exists()
}

/// Leftovers of earlier runs in an output directory.
pub fn litter(ctx: &mut Ctx, out: &str, set: &Set, reference: &Tree) {
    for p in &set.protos {
        if ctx.chance(250) {
            continue;
        }
        for f in OUTPUTS.iter().copied().chain(["umbrella.rs"]) {
            let path = format!("{out}/{}/{f}", p.name);
            let good = reference.files.get(&path).cloned();
            let data = match (ctx.draw(7), good) {
                (1, _) => b"garbage".to_vec(),
                (2, Some(mut g)) => {
                    g.truncate(ctx.below(g.len() + 1));
                    g
                }
                (3, Some(mut g)) => {
                    g.extend_from_slice(b"// leftover of a longer file\n");
                    g
                }
                (4, Some(g)) => g,
                (5, _) => {
                    let n = ctx.below(20_000);
                    vec![b'x'; n]
                }
                (6, _) => Vec::new(),
                _ => continue,
            };
            ctx.count("fault.leftover");
            put(&path, &data);
        }
        if ctx.chance(200) {
            let n = ctx.draw(3);
            put(&format!("{out}/{}/messages.rs.{}-{n}.tmp", p.name, 100 + ctx.draw(4)), b"half");
        }
        if ctx.chance(100) {
            put(&format!("{out}/{}/old/unused.rs", p.name), b"compile_error!(\"stale\");");
        }
        if ctx.chance(100) {
            put(&format!("{out}/{}/unused.rs", p.name), b"compile_error!(\"stale\");");
        }
    }
    ev!(ctx, "litter", "leftovers in {out}");
}

/// Put something in the way of one output: the path of what is in the way.
pub fn block(ctx: &mut Ctx, reference: &Tree) -> Option<String> {
    let files: Vec<&String> = reference.files.keys().collect();
    if files.is_empty() {
        return None;
    }
    let p = (*ctx.pick(&files)).clone();
    let at = if ctx.chance(250) { p.rsplit_once('/').map(|v| v.0.to_string()).filter(|v| v != "out").unwrap_or(p.clone()) } else { p.clone() };
    let how = ctx.draw(3);
    os::outside(|| {
        let full = Path::new(os::root()).join(&at);
        let _ = std::fs::remove_dir_all(&full);
        let _ = std::fs::remove_file(&full);
        if at != p {
            let _ = std::fs::create_dir_all(full.parent().unwrap());
            let _ = std::fs::write(&full, b"a file");
            return;
        }
        let _ = std::fs::create_dir_all(&full);
        if how == 0 {
            let _ = std::fs::write(full.join("keep"), b"kept");
        }
    });
    ctx.count("fault.output_blocked");
    ev!(ctx, "block", "{at} is in the way");
    Some(at)
}

/// Power failed during a run: what it wrote is torn or lost in part.
pub fn power_loss(ctx: &mut Ctx, before: &Tree, o: &Outcome) {
    let synced: BTreeSet<String> = o.actions.iter().filter(|a| a.op == Op::Sync && a.failed == 0).map(|a| a.path.clone()).collect();
    for path in o.touched() {
        let p = Path::new(os::root()).join(&path);
        if p.is_dir() {
            if !before.dirs.contains(&path) && ctx.chance(80) {
                let _ = std::fs::remove_dir_all(&p);
                ctx.count("fault.lost_directory");
                ev!(ctx, "lost-dir", "{path}");
            }
            continue;
        }
        let Ok(data) = std::fs::read(&p) else {
            // Removed or renamed away: the old name may come back.
            if let Some(old) = before.files.get(&path) {
                if ctx.chance(200) && p.parent().map(|v| v.is_dir()).unwrap_or(false) {
                    let _ = std::fs::write(&p, old);
                    ctx.count("fault.stale_file");
                    ev!(ctx, "stale", "{path}");
                }
            }
            continue;
        };
        if synced.contains(&path) {
            continue;
        }
        let new = match ctx.draw(7) {
            1 => {
                ctx.count("fault.torn_file");
                let n = ctx.below(data.len() + 1);
                Some(data[..n].to_vec())
            }
            2 => {
                ctx.count("fault.zeroed_file");
                let n = ctx.below(data.len() + 1);
                let mut d = data.clone();
                d[n..].iter_mut().for_each(|v| *v = 0);
                Some(d)
            }
            3 => {
                ctx.count("fault.emptied_file");
                Some(Vec::new())
            }
            4 => {
                ctx.count("fault.lost_file");
                None
            }
            5 => match before.files.get(&path) {
                Some(v) => {
                    ctx.count("fault.stale_file");
                    Some(v.clone())
                }
                None => Some(data.clone()),
            },
            _ => Some(data.clone()),
        };
        match new {
            Some(d) if d == data => {}
            Some(d) => {
                ev!(ctx, "tear", "{path} {} of {} bytes", d.len(), data.len());
                let _ = std::fs::write(&p, d);
            }
            None => {
                ev!(ctx, "lose", "{path}");
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

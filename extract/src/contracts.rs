//! Contract files (*.vc).
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_attrs: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, (String, String)>, // (ret "r: T", spec text)
    pub closure_start: BTreeMap<usize, String>,
    pub closure_end: BTreeMap<usize, String>,
    pub closure_params: BTreeMap<usize, String>,
    pub start: String,
    pub end: String,
    pub before: BTreeMap<(String, usize), String>,
    pub after: BTreeMap<(String, usize), String>,
    pub trusted: Option<String>,
    pub attrs: String,
    pub header: Option<String>, // replaces generics/where if needed
    pub cells: BTreeMap<usize, String>, // ghost argument of the n-th RefCell::new
}

#[derive(Default, Debug)]
pub struct FileSpec {
    pub source: String,
    pub module: String,
    pub uses: String,
    pub skip: BTreeMap<String, String>,
    pub append: String,
    pub inside: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnSpec>,
    pub cow_fields: Vec<String>,
    pub attrs: BTreeMap<String, String>,
    pub provided: Vec<String>,
    pub ghost_fields: Vec<(String, String, String, String)>, // struct, field, type, initial value
}

pub fn parse(p: &Path) -> FileSpec {
    let text = std::fs::read_to_string(p).unwrap();
    let mut fs = FileSpec::default();
    // top-level block
    let mut cur: Option<(String, String)> = None; // (kind,arg)
    let mut sub: Option<(String, String)> = None;
    let mut buf = String::new();
    fn flush(fs: &mut FileSpec, cur: &Option<(String, String)>, sub: &Option<(String, String)>, buf: &mut String) {
        let t = std::mem::take(buf);
        let Some((k, a)) = cur else { return };
        match k.as_str() {
            "use" => fs.uses.push_str(&t),
            "append" => fs.append.push_str(&t),
            "inside" => fs.inside.entry(a.clone()).or_default().push_str(&t),
            "fn" => {
                let f = fs.fns.entry(a.clone()).or_default();
                let Some((sk, sa)) = sub else { return };
                let ord = |s: &str| -> usize { s.trim().parse().unwrap_or_else(|_| panic!("bad ordinal {s}")) };
                let anchor = |s: &str| -> (String, usize) {
                    let s = s.trim();
                    let (n, k) = s.rsplit_once('#').unwrap_or((s, "0"));
                    (n.to_string(), k.parse().unwrap())
                };
                match sk.as_str() {
                    "ret" => f.ret = Some(sa.trim().to_string()),
                    "spec" => f.spec.push_str(&t),
                    "loop" => {
                        f.loops.insert(ord(sa), t);
                    }
                    "loopattr" => {
                        let (n, r) = sa.trim().split_once(' ').unwrap();
                        f.loop_attrs.insert(ord(n), r.to_string());
                    }
                    "loopstart" => {
                        f.loop_start.insert(ord(sa), t);
                    }
                    "loopend" => {
                        f.loop_end.insert(ord(sa), t);
                    }
                    "loopbefore" => {
                        f.loop_before.insert(ord(sa), t);
                    }
                    "loopafter" => {
                        f.loop_after.insert(ord(sa), t);
                    }
                    "closure" => {
                        let (n, r) = sa.trim().split_once(' ').unwrap_or((sa.trim(), ""));
                        f.closures.insert(ord(n), (r.to_string(), t));
                    }
                    "closurestart" => {
                        f.closure_start.insert(ord(sa), t);
                    }
                    "closureend" => {
                        f.closure_end.insert(ord(sa), t);
                    }
                    "closureparam" => {
                        let (n, r) = sa.trim().split_once(' ').unwrap();
                        f.closure_params.insert(ord(n), r.to_string());
                    }
                    "start" => f.start.push_str(&t),
                    "end" => f.end.push_str(&t),
                    "before" => {
                        f.before.insert(anchor(sa), t);
                    }
                    "after" => {
                        f.after.insert(anchor(sa), t);
                    }
                    "trusted" => f.trusted = Some(sa.trim().to_string()),
                    "attr" => f.attrs.push_str(&format!("{}\n", sa.trim())),
                    "cell" => {
                        f.cells.insert(ord(sa), t);
                    }
                    "header" => f.header = Some(t),
                    o => panic!("unknown sub-block @{o}"),
                }
            }
            _ => {}
        }
    }
    for line in text.lines() {
        let tl = line.trim_start();
        if let Some(r) = line.strip_prefix("@@") {
            flush(&mut fs, &cur, &sub, &mut buf);
            let (k, a) = r.split_once(' ').unwrap_or((r, ""));
            let (k, a) = (k.trim().to_string(), a.trim().to_string());
            sub = None;
            match k.as_str() {
                "file" => {
                    let (s, m) = a.split_once(' ').unwrap();
                    fs.source = s.trim().to_string();
                    fs.module = m.trim().to_string();
                    cur = None;
                }
                "skip" => {
                    let (s, m) = a.split_once(" -- ").unwrap_or((&a, ""));
                    fs.skip.insert(s.trim().to_string(), m.trim().to_string());
                    cur = None;
                }
                "cowfield" => {
                    fs.cow_fields.push(a.clone());
                    cur = None;
                }
                "ghostfield" => {
                    let (s, r) = a.split_once(' ').unwrap();
                    let (n, r) = r.split_once(": ").unwrap();
                    let (t, i) = r.split_once(" = ").unwrap();
                    fs.ghost_fields.push((s.trim().into(), n.trim().into(), t.trim().into(), i.trim().into()));
                    cur = None;
                }
                "provided" => {
                    fs.provided.push(a.clone());
                    cur = None;
                }
                "attr" => {
                    let (s, m) = a.split_once(" :: ").unwrap();
                    fs.attrs.insert(s.trim().to_string(), m.trim().to_string());
                    cur = None;
                }
                "fn" => {
                    fs.fns.entry(a.clone()).or_default();
                    cur = Some((k, a));
                }
                "use" | "append" | "inside" => cur = Some((k, a)),
                o => panic!("unknown block @@{o} in {p:?}"),
            }
        } else if tl.starts_with('@') && matches!(&cur, Some((k, _)) if k == "fn") {
            flush(&mut fs, &cur, &sub, &mut buf);
            let r = &tl[1..];
            let (k, a) = r.split_once(' ').unwrap_or((r, ""));
            sub = Some((k.trim().to_string(), a.trim().to_string()));
        } else if line.starts_with("##") {
            // comment
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&mut fs, &cur, &sub, &mut buf);
    fs
}

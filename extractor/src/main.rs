//! Mechanical extraction of functions from /repo's current source into a single
//! Verus file.  See DESIGN.md, "Extraction", for the catalogue of rewrites.
//!
//! usage: extractor <repo> <template.vrs> <out.rs> <report.txt>
mod rewrite;
mod printer;

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

#[derive(Default, Clone)]
pub struct FnDirective {
    pub file: String,
    pub path: String,
    pub into: String,
    pub params: Option<Vec<String>>,
    pub ret: String,
    pub retty: Option<String>,
    pub name: Option<String>,
    pub spec: String,
    pub entry: String,
    pub loops: BTreeMap<usize, [String; 6]>, // header, begin, end, after, continue, break
    pub flags: BTreeSet<String>,
    pub sites: Vec<(String, String)>, // (before-call-of, ghost text)
    pub subst: Vec<(String, String)>,
    pub bounds: Vec<(String, String)>, // type parameter, bound standing for its Fn bound
    pub closures: BTreeMap<usize, String>,
    pub locals: BTreeMap<String, String>,
    pub retproof: String,
}

#[derive(Default)]
pub struct Ctx {
    pub repo: PathBuf,
    pub types: Vec<(String, String)>,
    pub known: BTreeSet<String>,
    pub float: bool,
    pub report: Vec<String>,
    pub rename_calls: BTreeMap<String, String>,
    pub consts: BTreeSet<String>,
    pub tables: BTreeSet<String>,
    pub boolbits: bool,
}

pub fn die(msg: &str) -> ! {
    eprintln!("EXTRACT-ERROR: {msg}");
    std::process::exit(3)
}

fn expand_includes(path: &Path, out: &mut Vec<String>, seen: &mut BTreeSet<PathBuf>) {
    let p = path.canonicalize().unwrap_or_else(|e| die(&format!("{path:?}: {e}")));
    if !seen.insert(p.clone()) {
        return;
    }
    let text = fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("{p:?}: {e}")));
    for line in text.lines() {
        if let Some(rest) = line.trim().strip_prefix("//@include ") {
            let inc = p.parent().unwrap().join(rest.trim());
            expand_includes(&inc, out, seen);
        } else {
            out.push(line.to_string());
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        die("usage: extractor repo template out report");
    }
    let mut ctx = Ctx { repo: PathBuf::from(&args[1]), ..Default::default() };
    let mut lines = vec![];
    expand_includes(Path::new(&args[2]), &mut lines, &mut BTreeSet::new());

    // first pass: names the template itself defines or extracts
    for l in &lines {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@fn ") {
            let (_, p, _) = split_fn_head(r);
            ctx.known.insert(p.rsplit("::").next().unwrap().trim().trim_start_matches("fn ").to_string());
        } else if let Some(r) = t.strip_prefix("//@known ") {
            for w in r.split_whitespace() {
                ctx.known.insert(w.to_string());
            }
        } else if let Some(r) = t.strip_prefix("//@type ") {
            let (a, b) = r.split_once("=>").unwrap_or_else(|| die("bad //@type"));
            ctx.types.push((norm(a), b.trim().to_string()));
        } else if let Some(r) = t.strip_prefix("//@table ") {
            let n = r.split_whitespace().nth(1).unwrap_or_else(|| die("bad //@table")).to_string();
            ctx.known.insert(format!("{n}_at"));
            ctx.tables.insert(n);
        } else if t == "//@boolbits" {
            // `|`, `&` on bools (pure operands) read as `||`, `&&`; on integers the result does not type-check
            ctx.boolbits = true;
        } else if t == "//@float" {
            ctx.float = true;
        } else if let Some(r) = t.strip_prefix("//@call ") {
            let (a, b) = r.split_once("=>").unwrap_or_else(|| die("bad //@call"));
            ctx.rename_calls.insert(a.trim().to_string(), b.trim().to_string());
        }
        // names of exec/external functions defined in the template itself
        if !t.starts_with("//") {
            let mut it = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).peekable();
            while let Some(w) = it.next() {
                if w == "fn" {
                    if let Some(n) = it.peek() {
                        ctx.known.insert(n.to_string());
                    }
                }
            }
        }
    }

    let mut out = String::new();
    let mut i = 0;
    let mut nfn = 0;
    while i < lines.len() {
        let t = lines[i].trim().to_string();
        if let Some(r) = t.strip_prefix("//@fn ") {
            let mut d = FnDirective { ret: "r".into(), ..Default::default() };
            let (f, p, into) = split_fn_head(r);
            d.file = f;
            d.path = p;
            d.into = into;
            let mut cur: (u8, usize, usize) = (0, 0, 0);
            i += 1;
            loop {
                if i >= lines.len() {
                    die("unterminated //@fn");
                }
                let l = lines[i].clone();
                let tt = l.trim().to_string();
                if tt == "//@end" {
                    break;
                } else if let Some(r) = tt.strip_prefix("//@params ") {
                    d.params = Some(r.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect());
                } else if let Some(r) = tt.strip_prefix("//@ret ") {
                    match r.split_once(':') {
                        Some((a, b)) => {
                            d.ret = a.trim().into();
                            d.retty = Some(b.trim().into());
                        }
                        None => d.ret = r.trim().into(),
                    }
                } else if let Some(r) = tt.strip_prefix("//@name ") {
                    d.name = Some(r.trim().into());
                } else if let Some(r) = tt.strip_prefix("//@flags ") {
                    for w in r.split_whitespace() {
                        d.flags.insert(w.to_string());
                    }
                } else if let Some(r) = tt.strip_prefix("//@subst ") {
                    let (a, b) = r.split_once("=>").unwrap_or_else(|| die("bad //@subst"));
                    d.subst.push((norm(a), b.trim().to_string()));
                } else if let Some(r) = tt.strip_prefix("//@bound ") {
                    let (a, b) = r.split_once(':').unwrap_or_else(|| die("bad //@bound"));
                    d.bounds.push((a.trim().to_string(), b.trim().to_string()));
                } else if let Some(r) = tt.strip_prefix("//@closure ") {
                    let (a, b) = r.split_once(' ').unwrap_or_else(|| die("bad //@closure"));
                    d.closures.insert(a.parse().unwrap_or_else(|_| die("bad //@closure")), b.trim().to_string());
                } else if let Some(r) = tt.strip_prefix("//@local ") {
                    let (a, b) = r.split_once(':').unwrap_or_else(|| die("bad //@local"));
                    d.locals.insert(a.trim().to_string(), b.trim().to_string());
                } else if tt == "//@spec" {
                    cur = (0, 0, 0);
                } else if tt == "//@entry" {
                    cur = (1, 0, 0);
                } else if tt == "//@exit" {
                    cur = (4, 0, 0);
                } else if let Some(r) = tt.strip_prefix("//@site ") {
                    d.sites.push((r.trim().to_string(), String::new()));
                    cur = (3, 0, 0);
                } else if let Some(r) = tt.strip_prefix("//@loop ") {
                    let mut w = r.split_whitespace();
                    let k: usize = w.next().unwrap().parse().unwrap_or_else(|_| die("bad //@loop"));
                    let s = match w.next() {
                        None => 0,
                        Some("begin") => 1,
                        Some("end") => 2,
                        Some("after") => 3,
                        Some("continue") => 4,
                        Some("break") => 5,
                        _ => die("bad //@loop section"),
                    };
                    d.loops.entry(k).or_default();
                    cur = (2, k, s);
                } else if tt.starts_with("//@") {
                    die(&format!("unknown directive {tt}"));
                } else {
                    let tgt = match cur.0 {
                        0 => &mut d.spec,
                        1 => &mut d.entry,
                        2 => &mut d.loops.get_mut(&cur.1).unwrap()[cur.2],
                        4 => &mut d.retproof,
                        _ => &mut d.sites.last_mut().unwrap().1,
                    };
                    tgt.push_str(&l);
                    tgt.push('\n');
                }
                i += 1;
            }
            out.push_str(&rewrite::emit_fn(&mut ctx, &d));
            nfn += 1;
        } else if let Some(r) = t.strip_prefix("//@item ") {
            // file :: kind Name [=> derive-list]
            let (head, derive) = match r.split_once("=>") {
                Some((a, b)) => (a.trim(), b.trim()),
                None => (r, ""),
            };
            let (f, p) = head.split_once("::").unwrap_or_else(|| die("bad //@item"));
            out.push_str(&rewrite::emit_item(&mut ctx, f.trim(), p.trim(), derive));
        } else if let Some(r) = t.strip_prefix("//@oracle ") {
            out.push_str(&oracle(Path::new(&args[2]).parent().unwrap().join(r.trim())));
        } else if let Some(r) = t.strip_prefix("//@table ") {
            // file :: NAME => spec_name : exec element type
            out.push_str(&rewrite::emit_table(&mut ctx, r));
        } else if let Some(r) = t.strip_prefix("//@type ") {
            // from here on this reading comes before the earlier ones
            let (a, b) = r.split_once("=>").unwrap_or_else(|| die("bad //@type"));
            ctx.types.insert(0, (norm(a), b.trim().to_string()));
        } else if t.starts_with("//@known") || t == "//@float" || t == "//@boolbits" || t.starts_with("//@call ") {
        } else if t.starts_with("//@") {
            die(&format!("unknown directive {t}"));
        } else {
            out.push_str(&lines[i]);
            out.push('\n');
        }
        i += 1;
    }
    fs::write(&args[3], out).unwrap();
    ctx.report.push(format!("functions-extracted {nfn}"));
    fs::write(&args[4], ctx.report.join("\n") + "\n").unwrap();
}

/// the executable oracle read as specification: `pub fn` is `pub open spec fn`,
/// machine integers are mathematical integers
fn oracle(p: PathBuf) -> String {
    let text = fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("{p:?}: {e}")));
    let f = syn::parse_file(&text).unwrap_or_else(|e| die(&format!("{p:?}: {e}")));
    if f.items.iter().any(|i| !matches!(i, syn::Item::Fn(_) | syn::Item::Use(_))) {
        die("oracle: only functions");
    }
    text.lines()
        .filter(|l| !l.trim_start().starts_with("//") && !l.starts_with("use "))
        .map(|l| l.replace("pub fn ", "pub open spec fn ").replace("i32", "int"))
        .collect::<Vec<_>>()
        .join("\n")
        + "\n"
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn split_fn_head(r: &str) -> (String, String, String) {
    let (head, into) = match r.split_once("=>") {
        Some((a, b)) => (a.trim(), b.trim().to_string()),
        None => (r.trim(), String::new()),
    };
    let (f, p) = head.split_once(' ').unwrap_or_else(|| die("bad //@fn head"));
    (f.to_string(), p.trim().to_string(), into)
}

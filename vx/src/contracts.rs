use crate::FnInfo;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Default, Clone)]
pub struct Contract {
    pub requires: Vec<(String, String)>,
    pub ensures: Vec<(String, String)>,
    pub decreases: Option<String>,
    pub loops: BTreeMap<usize, String>,
    /// cut points: the n-th top-level `if` is verified on its own
    pub cuts: BTreeMap<usize, String>,
    pub prologue: String,
    pub attrs: Vec<String>,
    pub props: Vec<String>,
    pub trusted: bool,
    pub nodec: bool,
    pub inherent: bool,
    pub keep_req: bool,
    pub rename: Option<String>,
    pub synthetic: bool,
    pub is_const: bool,
}

#[derive(Default, Clone)]
pub struct Table {
    pub name: String,
    pub params: String,
    pub ret: String,
    pub contract: String,
    pub nargs: usize,
    pub props: String,
    /// dispatch over the arms of this macro, calling method `meth`
    pub mac: Option<String>,
    pub meth: String,
}

#[derive(Default)]
pub struct Module {
    pub name: String,
    pub sources: Vec<String>,
    pub fns: BTreeSet<String>,
    pub skip: BTreeSet<String>,
    pub consts: BTreeSet<String>,
    pub konsts: BTreeSet<String>,
    pub types: BTreeMap<String, String>,
    pub raw: Vec<String>,
    pub derefs: Vec<(String, String, String)>,
    pub tables: Vec<Table>,
    pub retypes: Vec<(String, String, String)>,
    pub broadcast: Vec<String>,
    pub defaults: Vec<(String, String, String)>,
}

impl Module {
    /// contract for a function that the contract files do not name: chosen by
    /// the types of its parameters
    pub fn default_contract(&self, _f: &FnInfo, params: &[String], tys: &HashMap<String, String>) -> Contract {
        let mut c = Contract { nodec: true, synthetic: true, ..Default::default() };
        for p in params {
            let Some(t) = tys.get(p) else { continue };
            for (ty, kind, text) in &self.defaults {
                if ty == t {
                    let txt = text.replace("$p", p);
                    match kind.as_str() {
                        "req" => c.requires.push(("".into(), txt)),
                        "ens" => c.ensures.push(("".into(), txt)),
                        _ => {}
                    }
                }
            }
        }
        c
    }
}

#[derive(Default)]
pub struct Config {
    pub prelude: String,
    pub modules: Vec<Module>,
    pub fns: BTreeMap<String, Contract>,
}

pub fn load(dir: &str) -> Config {
    let mut cfg = Config::default();
    let mut names: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in &names {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if n.ends_with(".rs") {
            cfg.prelude.push_str(&std::fs::read_to_string(p).unwrap());
            cfg.prelude.push('\n');
        }
    }
    for p in &names {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if n.ends_with(".vc") {
            parse(&std::fs::read_to_string(p).unwrap(), &mut cfg, &n);
        }
    }
    cfg
}

fn bad(n: &str, l: usize, m: &str) -> ! {
    eprintln!("vx: {n}:{l}: {m}");
    std::process::exit(3)
}

fn parse(text: &str, cfg: &mut Config, fname: &str) {
    let mut sets: HashMap<String, Vec<String>> = HashMap::new();
    let mut cur: Vec<String> = vec![];
    // logical directives: a line starting with '@', continued to the next '@' line
    let mut ds: Vec<(usize, String)> = vec![];
    for (i, l) in text.lines().enumerate() {
        if l.trim_start().starts_with("//#") {
            continue;
        }
        if l.starts_with('@') {
            ds.push((i + 1, l.to_string()));
        } else if let Some(d) = ds.last_mut() {
            d.1.push('\n');
            d.1.push_str(l);
        }
    }
    for (ln, d) in ds {
        let d = d.trim_end().to_string();
        let (head, rest) = match d.split_once(|c: char| c.is_whitespace()) {
            Some((h, r)) => (h.to_string(), r.to_string()),
            None => (d.clone(), String::new()),
        };
        // head may be @ens[C01]
        let (kw, tag) = match head.split_once('[') {
            Some((k, t)) => (k.to_string(), t.trim_end_matches(']').to_string()),
            None => (head.clone(), String::new()),
        };
        let words = || rest.split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>();
        macro_rules! module {
            () => {
                match cfg.modules.last_mut() {
                    Some(m) => m,
                    None => bad(fname, ln, "no module"),
                }
            };
        }
        macro_rules! each {
            ($c:ident, $e:expr) => {{
                if cur.is_empty() {
                    bad(fname, ln, "no function");
                }
                for k in &cur {
                    let $c = cfg.fns.get_mut(k).unwrap();
                    $e;
                }
            }};
        }
        match kw.as_str() {
            "@module" => {
                cfg.modules.push(Module { name: rest.trim().into(), ..Default::default() });
                cur.clear();
            }
            "@source" => module!().sources.extend(words()),
            "@fns" => module!().fns.extend(rest.split(if rest.contains(';') { ';' } else { ' ' }).flat_map(|s| s.split('\n')).map(|s| s.trim().to_string()).filter(|s| !s.is_empty())),
            "@skip" => module!().skip.extend(words()),
            "@consts" => module!().consts.extend(words()),
            "@konst" => module!().konsts.extend(words()),
            "@type" => {
                let (n, a) = rest.split_once(|c: char| c.is_whitespace()).unwrap_or((&rest, ""));
                module!().types.insert(n.trim().into(), a.trim().into());
            }
            "@raw" => module!().raw.push(rest),
            "@deref" => {
                let w = words();
                module!().derefs.push((w[0].clone(), w[1].clone(), w[2].clone()));
            }
            "@default" => {
                let mut it = rest.splitn(3, char::is_whitespace);
                let (a, b, c) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
                module!().defaults.push((a.into(), b.into(), c.into()));
            }
            "@broadcast" => module!().broadcast.extend(words()),
            "@table" => {
                // @table NAME | params | ret \n contract
                let (h, c) = rest.split_once('\n').unwrap_or((&rest, ""));
                let p: Vec<&str> = h.split('|').map(|s| s.trim()).collect();
                module!().tables.push(Table {
                    name: p[0].into(),
                    params: p[1].into(),
                    ret: p[2].into(),
                    contract: c.into(),
                    props: p.get(3).map(|s| s.to_string()).unwrap_or_default(),
                    nargs: p[1].split(',').count(),
                    ..Default::default()
                });
            }
            "@dispatch" => {
                // @dispatch NAME MACRO METHOD | params | ret | props \n contract
                let (h, c) = rest.split_once('\n').unwrap_or((&rest, ""));
                let p: Vec<&str> = h.split('|').map(|s| s.trim()).collect();
                let n: Vec<&str> = p[0].split_whitespace().collect();
                module!().tables.push(Table {
                    name: n[0].into(),
                    mac: Some(n[1].into()),
                    meth: n[2].into(),
                    params: p[1].into(),
                    ret: p[2].into(),
                    contract: c.into(),
                    props: p.get(3).map(|s| s.to_string()).unwrap_or_default(),
                    nargs: p[1].split(',').count(),
                });
            }
            "@retype" => {
                let w = words();
                module!().retypes.push((w[0].clone(), w[1].clone(), w[2].clone()));
            }
            "@fn" => {
                cur = rest.split(if rest.contains(';') { ';' } else { '\n' }).map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                for k in &cur {
                    cfg.fns.entry(k.clone()).or_insert_with(|| Contract { nodec: true, ..Default::default() });
                }
            }
            "@set" => {
                // named group of directives: @set NAME then used through @use NAME
                let (n, t) = rest.split_once('\n').unwrap_or((&rest, ""));
                sets.entry(n.trim().into()).or_default().push(t.to_string());
            }
            "@props" => each!(c, c.props.extend(words())),
            "@req" => each!(c, c.requires.push((tag.clone(), rest.trim_end_matches(',').to_string()))),
            "@ens" => each!(c, c.ensures.push((tag.clone(), rest.trim_end_matches(',').to_string()))),
            "@dec" => each!(c, {
                c.decreases = Some(rest.clone());
                c.nodec = false
            }),
            "@terminates" => each!(c, c.nodec = false),
            "@loop" => {
                let (n, t) = rest.split_once('\n').unwrap_or((&rest, ""));
                let n: usize = if n.trim() == "*" { usize::MAX } else { n.trim().parse().unwrap_or_else(|_| bad(fname, ln, "loop index")) };
                each!(c, {
                    c.loops.insert(n, t.to_string());
                })
            }
            "@cut" => {
                let (n, t) = rest.split_once('\n').unwrap_or((&rest, ""));
                let n: usize = n.trim().parse().unwrap_or_else(|_| bad(fname, ln, "cut index"));
                each!(c, {
                    c.cuts.insert(n, t.to_string());
                })
            }
            "@pro" => each!(c, {
                c.prologue.push_str(&rest);
                c.prologue.push('\n')
            }),
            "@attr" => each!(c, c.attrs.push(rest.clone())),
            "@trusted" => each!(c, c.trusted = true),
            "@const" => each!(c, c.is_const = true),
            "@inherent" => each!(c, c.inherent = true),
            "@keepreq" => each!(c, c.keep_req = true),
            "@rename" => each!(c, c.rename = Some(rest.trim().into())),
            k => bad(fname, ln, &format!("unknown directive {k}")),
        }
    }
    let _ = sets;
}

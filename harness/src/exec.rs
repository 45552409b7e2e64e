use crate::consts::CONSTS;
use chanoma::characters_set::{
    alphabets::{Alphabets, ALPHABETS},
    cjk_compatibilities::{CjkCompatibilities, CJK_COMPATIBILITIES},
    digits::{Digits, DIGITS},
    kanas::{Kanas, KANAS},
    punctuations::{Punctuations, PUNCTUATIONS},
    All, ALL,
};
use chanoma::error::Error;
use chanoma::corr::{Linear, Unification};
use chanoma::file::{
    table_from_csv_path, table_from_yaml_path, to_csv_writer, to_serialized_corr,
};
use chanoma::file_extension::FileExtension;
use chanoma::table::Origin;
use chanoma::{Chanoma, Corr, Correspondence, Item, Position, Synthesized, Table, TableBuilder};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, Read, Write};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// A report with everything in it.
macro_rules! places {
    ($m:expr) => {
        $m.modified_records()
            .iter()
            .map(|r| json!([cps(&r.text), r.positions.iter().map(pos_json).collect::<Vec<_>>()]))
            .collect::<Vec<Value>>()
    };
}

extern "C" {
    fn openpty(m: *mut i32, s: *mut i32, name: *mut u8, t: *const u8, w: *const u8) -> i32;
    fn tcgetattr(fd: i32, t: *mut u8) -> i32;
    fn tcsetattr(fd: i32, how: i32, t: *const u8) -> i32;
    fn cfmakeraw(t: *mut u8);
    fn ioctl(fd: i32, what: u64) -> i32;
}

/// A terminal that leaves everything as it is: its outer and its inner side.
fn terminal() -> (File, File) {
    use std::os::unix::io::FromRawFd;
    let (mut m, mut s) = (0, 0);
    let mut t = [0u64; 64]; // more than a termios
    unsafe {
        assert_eq!(openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()), 0);
        let t = t.as_mut_ptr() as *mut u8;
        assert_eq!(tcgetattr(s, t), 0);
        cfmakeraw(t);
        assert_eq!(tcsetattr(s, 0, t), 0);
        // not for other children
        ioctl(m, 0x5451);
        ioctl(s, 0x5451);
        (File::from_raw_fd(m), File::from_raw_fd(s))
    }
}

/// Shares one instance between threads whatever its type promises: whether it may be
/// shared is what is being checked.
struct Shared<'a>(&'a Chanoma);
unsafe impl<'a> Sync for Shared<'a> {}
unsafe impl<'a> Send for Shared<'a> {}

/// The same for instances and tables that are handed over.
struct Owned(Chanoma);
unsafe impl Send for Owned {}
struct Tables(Option<Table>);
unsafe impl Send for Tables {}

struct Py {
    child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}

pub struct Exec {
    root: PathBuf,
    inst: HashMap<i64, Chanoma>,
    tab: HashMap<i64, Table>,
    home: PathBuf,
    /// What HOME says, if it is not the path itself; "-" if there is none.
    hval: Option<String>,
    vars: Vec<(String, String)>,
    cwd: PathBuf,
    rc: Option<String>,
    xdg: Option<String>,
    py: Option<Py>,
    dirty: bool,
}

// ---- JSON <-> texts: a text is an array of code points ----
fn text(v: &Value) -> String {
    v.as_array()
        .expect("text")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).expect("scalar"))
        .collect()
}
fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn item(v: &Value) -> Item {
    Item::new(text(&v[0]), text(&v[1]))
}
fn items(v: &Value) -> Vec<Item> {
    v.as_array().expect("items").iter().map(item).collect()
}
fn items_json(v: &[Item]) -> Value {
    Value::Array(v.iter().map(|i| json!([cps(&i.from), cps(&i.to)])).collect())
}
fn pos_json(p: &Position) -> Value {
    json!([cps(&p.from), cps(&p.to), p.index, p.length, p.utf8_index, p.utf8_length])
}
fn synth(v: Vec<Item>) -> Correspondence<Synthesized> {
    Correspondence::new(Synthesized::new(v))
}
/// Texts in the operations are Unicode; U+F780..U+F7FF stand for the bytes 0x80..0xFF in names
/// of files, which need not be.
fn os(s: &str) -> OsString {
    let mut b = Vec::new();
    for c in s.chars() {
        match c as u32 {
            u @ 0xF780..=0xF7FF => b.push((u - 0xF700) as u8),
            _ => b.extend(c.to_string().bytes()),
        }
    }
    OsString::from_vec(b)
}
fn back(p: &Path) -> String {
    let mut out = String::new();
    for chunk in p.as_os_str().as_encoded_bytes().utf8_chunks() {
        out.push_str(chunk.valid());
        out.extend(chunk.invalid().iter().map(|b| char::from_u32(0xF700 + *b as u32).unwrap()));
    }
    out
}
/// What an error says: its kind, whether its message shows what it carries, and what that is.
fn why(e: &Error, given: &Path) -> Value {
    let msg = e.to_string();
    let path = |k: &str, p: &Path| {
        json!({"k": k, "named": (p == given) as i32, "shown": msg.contains(&p.display().to_string()) as i32})
    };
    match e {
        Error::RcFileLoadError(p) => path("rc", p),
        Error::FileExtensionNotFoundInPath(p) => path("noext", p),
        Error::FileExtensionCanNotConvertToStr(p) => path("extstr", p),
        Error::UnsupportedFileExtensionError(x) => json!({"k": "ext", "ext": x, "shown": msg.contains(x) as i32}),
        Error::ModifierKindParseError(_) => json!({"k": "modifier", "msg": cps(&msg)}),
        Error::CsvFileLoadError(c) => {
            json!({"k": if c.is_io_error() { "io" } else { "csv" }, "shown": msg.contains(&c.to_string()) as i32})
        }
        Error::YamlFileLoadError(y) => json!({"k": "yaml", "shown": msg.contains(&y.to_string()) as i32}),
        Error::IoError(i) => json!({"k": "io", "shown": msg.contains(&i.to_string()) as i32}),
    }
}
fn failed(op: &Value, e: &Error, given: &Path) -> Value {
    let mut r = json!({"p": 0, "ok": false, "e": e.to_string().len()});
    if op["why"] == json!(true) {
        r["why"] = why(e, given);
    }
    r
}
const OTHER_DIRS: [&str; 5] = ["XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "APPDATA", "CHANOMA_HOME"];
/// What a table says about where it comes from.
fn origin(t: &Table, p: &Path) -> &'static str {
    match &t.origin {
        Origin::New => "new",
        Origin::ConfigurationFile(q) => match (std::fs::canonicalize(p), std::fs::canonicalize(q)) {
            (Ok(a), Ok(b)) if a == b => "file",
            _ => "other",
        },
    }
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(text).collect()).unwrap_or_default()
}

/// Calls $body with $c bound to a correspondence of the kind the description asks for.
macro_rules! with_corr {
    ($x:expr, $d:expr, $c:ident, $body:expr) => {{
        let d = $d;
        match (d["c"].as_str().unwrap(), d["name"].as_str().unwrap_or(""), d["as"].as_str().unwrap_or("")) {
            ("set", "digits", "const") => { let $c = || DIGITS; $body }
            ("set", "alphabets", "const") => { let $c = || ALPHABETS; $body }
            ("set", "punctuations", "const") => { let $c = || PUNCTUATIONS; $body }
            ("set", "kanas", "const") => { let $c = || KANAS; $body }
            ("set", "cjk", "const") => { let $c = || CJK_COMPATIBILITIES; $body }
            ("set", "all", "const") => { let $c = || ALL; $body }
            ("const", n, _) => { let f = CONSTS.iter().find(|x| x.1 == n).unwrap().2; let $c = || synth(f()); $body }
            ("set", "digits", _) => { let $c = || Digits::new().corr(); $body }
            ("set", "alphabets", _) => { let $c = || Alphabets::new().corr(); $body }
            ("set", "punctuations", _) => { let $c = || Punctuations::new().corr(); $body }
            ("set", "kanas", _) => { let $c = || Kanas::new().corr(); $body }
            ("set", "cjk", _) => { let $c = || CjkCompatibilities::new().corr(); $body }
            ("set", "all", _) => { let $c = || All::new().corr(); $body }
            ("tab", _, _) => { let t = $x.tab[&d["t"].as_i64().unwrap()].clone(); let $c = || t.corr(); $body }
            (_, _, "linear") => {
                let v = items(&d["items"]);
                let (f, t) = (leak(&v[0].from), leak(&v[0].to));
                let $c = || Linear::new(f, t).corr(); $body
            }
            (_, _, "unification") => {
                let v = items(&d["items"]);
                let fs: Vec<&'static str> = v.iter().map(|i| leak(&i.from)).collect();
                let t = leak(&v[0].to);
                let $c = || Unification::new(&fs, t).corr(); $body
            }
            (_, _, "corr") => { let v = items(&d["items"]); let $c = || Synthesized::new(v.clone()).corr(); $body }
            (_, _, "trait") => { let v = items(&d["items"]); let $c = || Corr::corr(Synthesized::new(v.clone())); $body }
            _ => { let v = items(&d["items"]); let $c = || synth(v.clone()); $body }
        }
    }};
}

fn calc<T: Corr, U: Corr>(
    plus: bool,
    a: impl Fn() -> Correspondence<T>,
    b: impl Fn() -> Correspondence<U>,
) -> Value {
    let rhs = b();
    let start = || synth(a().items());
    let res = if plus { (a() + &rhs).items() } else { (a() - &rhs).items() };
    let mut x = start();
    let mut t = Table::from_corr(start(), Origin::New);
    // what was cloned before keeps what it has
    let (x0, t0, c0) = (x.clone(), t.clone(), t.corr());
    let t1 = t0.clone();
    let mut tb = t1.builder();
    if plus {
        x += &rhs;
        t.add(&rhs);
        tb.add_corr(&rhs);
    } else {
        x -= &rhs;
        t.remove(&rhs);
        tb.remove_corr(&rhs);
    }
    let assign = items_json(&x.items());
    let x1 = x.clone();
    if plus { x += &rhs } else { x -= &rhs }
    let kept: Vec<Value> = [x0.items(), t0.items(), c0.items()].iter().map(|k| items_json(k)).collect();
    json!({"p": 0, "res": items_json(&res), "assign": assign, "again": items_json(&x.items()), "between": items_json(&x1.items()), "kept": kept, "table": items_json(&t.items()), "builder": items_json(&tb.build().items()),
           "b": items_json(&rhs.items()), "eq": (synth(a().items()) == synth(rhs.items())) as i32,
           "ne": (synth(a().items()) != rhs.synthesize()) as i32})
}

impl Exec {
    pub fn new(root: &str) -> Self {
        let root = PathBuf::from(root);
        assert!(root.is_absolute() && root.components().count() > 3, "scratch root");
        let mut x = Self {
            home: root.join("h"),
            hval: None,
            vars: Vec::new(),
            cwd: root.join("w"),
            root,
            inst: HashMap::new(),
            tab: HashMap::new(),
            rc: None,
            xdg: None,
            py: None,
            dirty: true,
        };
        x.reset();
        x
    }

    pub fn finish(&mut self) {
        if let Some(mut p) = self.py.take() {
            drop(p.i);
            let _ = p.child.wait();
        }
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.root);
    }

    pub fn slow(&self, op: &Value) -> bool {
        !matches!(op["op"].as_str().unwrap_or(""), "file" | "del" | "env" | "reset" | "debug")
    }

    fn reset(&mut self) {
        self.inst.clear();
        self.tab.clear();
        log::set_max_level(log::LevelFilter::Info);
        if !self.dirty {
            return;
        }
        self.dirty = false;
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.root);
        std::fs::create_dir_all(self.root.join("h/.config/chanoma")).unwrap();
        std::fs::create_dir_all(self.root.join("w")).unwrap();
        self.home = self.root.join("h");
        self.cwd = self.root.join("w");
        self.rc = None;
        self.hval = None;
        self.set_vars(&json!({}));
        self.xdg = None;
        self.enter();
        if self.py.is_some() {
            self.ask(json!({"op": "reset"}));
        }
    }

    /// What the surroundings say to others.
    fn set_vars(&mut self, new: &Value) {
        for (k, old) in self.vars.drain(..) {
            if old == "-" {
                std::env::remove_var(k);
            } else {
                std::env::set_var(k, &old[1..]);
            }
        }
        for (k, v) in new.as_object().into_iter().flatten() {
            let old = std::env::var(k).map_or("-".to_string(), |v| format!("={}", v));
            self.vars.push((k.clone(), old));
            std::env::set_var(k, v.as_str().unwrap().replace("{root}", self.root.to_str().unwrap()));
        }
    }

    fn enter(&self) {
        std::fs::create_dir_all(&self.home).unwrap();
        std::fs::create_dir_all(&self.cwd).unwrap();
        std::env::set_current_dir(&self.cwd).unwrap();
        match self.hval.as_deref() {
            Some("-") => std::env::remove_var("HOME"),
            Some(v) => std::env::set_var("HOME", os(v)),
            None => std::env::set_var("HOME", &self.home),
        }
        match &self.rc {
            Some(v) => std::env::set_var("CHANOMARC", os(v)),
            None => std::env::remove_var("CHANOMARC"),
        }
        // directories that mean something to other programs, but not here
        for name in OTHER_DIRS {
            match &self.xdg {
                Some(v) => std::env::set_var(name, self.root.join(os(v))),
                None => std::env::remove_var(name),
            }
        }
    }

    fn path(&self, v: &Value) -> PathBuf {
        self.root.join(os(v.as_str().unwrap()))
    }

    /// The path as the operation wants it spelled: absolute, or relative to the cwd.
    fn spelled(&self, op: &Value) -> PathBuf {
        match op.get("val").and_then(|v| v.as_str()) {
            Some(v) => PathBuf::from(os(&v.replace("{root}", self.root.to_str().unwrap()))),
            None => self.path(&op["path"]),
        }
    }

    fn ask(&mut self, q: Value) -> Value {
        if self.py.is_none() {
            let mut child = Command::new(std::env::var("VERIF_PYTHON").unwrap())
                .arg(std::env::var("VERIF_PYRUN").unwrap())
                .env("PYTHONUTF8", "1")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("python");
            let i = child.stdin.take().unwrap();
            let o = BufReader::new(child.stdout.take().unwrap());
            self.py = Some(Py { child, i, o });
        }
        let p = self.py.as_mut().unwrap();
        let mut line = String::new();
        let sent = writeln!(p.i, "{}", q).and_then(|_| p.i.flush());
        if sent.is_ok() {
            let _ = p.o.read_line(&mut line);
        }
        match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(_) => {
                // the interpreter itself died
                if let Some(mut p) = self.py.take() {
                    let _ = p.child.kill();
                    let _ = p.child.wait();
                }
                json!({"crash": 1})
            }
        }
    }

    pub fn run(&mut self, op: &Value) -> Value {
        let r = catch_unwind(AssertUnwindSafe(|| self.step(op)));
        match r {
            Ok(v) => v,
            Err(_) => {
                // what arranges the world is not about the code: nothing can be concluded
                if matches!(op["op"].as_str(), Some("file" | "del" | "linkdir" | "env")) {
                    eprintln!("driver: {} failed", op);
                    std::process::exit(3);
                }
                log::set_max_level(log::LevelFilter::Info);
                json!({"p": 1})
            }
        }
    }

    fn id(op: &Value, k: &str) -> i64 {
        op[k].as_i64().unwrap_or_else(|| panic!("driver: no {} in {}", k, op))
    }
    fn i(&self, op: &Value) -> &Chanoma {
        &self.inst[&Self::id(op, "i")]
    }
    fn put(&mut self, op: &Value, c: Chanoma) -> Value {
        self.inst.insert(Self::id(op, "i"), c);
        json!({"p": 0})
    }

    fn step(&mut self, op: &Value) -> Value {
        let done = || json!({"p": 0});
        self.dirty |= !matches!(
            op["op"].as_str().unwrap(),
            "reset" | "new" | "default" | "preset" | "neologdn" | "from_table" | "use_preset"
                | "use_neologdn" | "add_table" | "debug" | "norm" | "normp" | "pos" | "chain" | "routes"
                | "probe" | "par" | "make" | "sweep" | "psweep" | "fext" | "tlit" | "tadd" | "trem" | "titems" | "tcopy" | "tchain" | "calc"
                | "setitems" | "consts"
        );
        match op["op"].as_str().unwrap() {
            "reset" => {
                self.reset();
                done()
            }
            "new" => self.put(op, Chanoma::new()),
            "default" => self.put(op, Chanoma::default()),
            "preset" => self.put(op, Chanoma::preset()),
            "neologdn" => self.put(op, Chanoma::neologdn()),
            "from_table" => {
                let t = self.tab[&Self::id(op, "t")].clone();
                self.put(op, Chanoma::from_table(t))
            }
            "use_preset" => {
                self.inst.get_mut(&Self::id(op, "i")).unwrap().use_preset();
                done()
            }
            "use_neologdn" => {
                self.inst.get_mut(&Self::id(op, "i")).unwrap().use_neologdn();
                done()
            }
            "add_table" => {
                let t = self.tab[&Self::id(op, "t")].clone();
                self.inst.get_mut(&Self::id(op, "i")).unwrap().add_table(t);
                done()
            }
            "cfg" => {
                let p = self.spelled(op);
                match Chanoma::from_config_file(&p) {
                    Ok(c) => {
                        self.put(op, c);
                        json!({"p": 0, "ok": true})
                    }
                    Err(e) => failed(op, &e, &p),
                }
            }
            "load_rc" => match Chanoma::load_rc() {
                Ok(c) => {
                    self.put(op, c);
                    json!({"p": 0, "ok": true})
                }
                Err(e) => match e.downcast_ref::<Error>() {
                    Some(x) => failed(op, x, &PathBuf::from(os(self.rc.as_deref().unwrap_or("")))),
                    None => json!({"p": 0, "ok": false, "why": {"k": "foreign"}}),
                },
            },
            "debug" => {
                log::set_max_level(if op["on"] == json!(true) {
                    log::LevelFilter::Debug
                } else {
                    log::LevelFilter::Info
                });
                done()
            }
            "norm" => {
                let out = self.i(op).normalize(&text(&op["text"]));
                json!({"p": 0, "out": cps(&out)})
            }
            "normp" => {
                let m = self.i(op).normalize_with_positions(&text(&op["text"]));
                let recs: Vec<Value> = m.modified_records().iter().map(|r| cps(&r.text)).collect();
                json!({"p": 0, "final": cps(m.text()), "recs": recs})
            }
            "pos" => {
                let m = self.i(op).normalize_with_positions(&text(&op["text"]));
                let recs: Vec<Value> = m
                    .modified_records()
                    .iter()
                    .map(|r| {
                        let ps: Vec<Value> = r.positions.iter().map(pos_json).collect();
                        json!({"text": cps(&r.text), "ps": ps})
                    })
                    .collect();
                json!({"p": 0, "recs": recs})
            }
            "chain" => {
                let s = text(&op["text"]);
                let mut t = s.clone();
                let mut mids = Vec::new();
                for k in op["singles"].as_array().unwrap() {
                    t = self.inst[&k.as_i64().unwrap()].normalize(&t);
                    mids.push(cps(&t));
                }
                json!({"p": 0, "mids": mids, "out": cps(&self.i(op).normalize(&s))})
            }
            "routes" => {
                let s = text(&op["text"]);
                let c = self.i(op);
                log::set_max_level(log::LevelFilter::Info);
                let out = c.normalize(&s);
                let m = c.normalize_with_positions(&s);
                let recs: Vec<String> = m.modified_records().iter().map(|r| r.text.clone()).collect();
                let fin = m.text().to_string();
                let mut prev = s.clone();
                let mut steps = Vec::new();
                let mut kinds = Vec::new();
                for (k, j) in op["singles"].as_array().unwrap().iter().enumerate() {
                    let single = &self.inst[&j.as_i64().unwrap()];
                    steps.push(cps(&single.normalize(&prev)));
                    // is the record of the kind of stage that the single instance has first?
                    let one = single.normalize_with_positions("");
                    kinds.push(match (m.modified_records().get(k), one.modified_records().first()) {
                        (Some(a), Some(b)) => {
                            (std::mem::discriminant(&a.kind) == std::mem::discriminant(&b.kind)) as i32
                        }
                        _ => 0,
                    });
                    if let Some(r) = recs.get(k) {
                        prev = r.clone();
                    }
                }
                log::set_max_level(if s.len() % 3 == 0 { log::LevelFilter::Trace } else { log::LevelFilter::Debug });
                let dout = c.normalize(&s);
                let dm = c.normalize_with_positions(&s);
                let drecs: Vec<Value> = dm.modified_records().iter().map(|r| cps(&r.text)).collect();
                let dfin = dm.text().to_string();
                let same = places!(m) == places!(dm);
                log::set_max_level(log::LevelFilter::Info);
                let recs: Vec<Value> = recs.iter().map(|s| cps(s)).collect();
                json!({"p": 0, "out": cps(&out), "final": cps(&fin), "recs": recs, "steps": steps, "kinds": kinds,
                       "dout": cps(&dout), "dfinal": cps(&dfin), "drecs": drecs, "dsame": same as i32})
            }
            "probe" => {
                let (out, recs) = Self::full(self.i(op), &text(&op["text"]));
                json!({"p": 0, "out": out, "recs": recs})
            }
            "par" => self.par(op),
            "make" => self.make(op),
            "sweep" => self.sweep(op),
            "psweep" => self.psweep(op),
            "fext" => {
                let parsed = match FileExtension::from_str(&text(&op["text"])) {
                    Ok(e) => e.to_string(),
                    Err(_) => "none".to_string(),
                };
                match FileExtension::from_path(text(&op["text"])) {
                    Ok(e) => {
                        let back = FileExtension::from_str(&e.to_string()).unwrap() == e;
                        json!({"p": 0, "ok": true, "ext": e.to_string(), "back": back as i32, "parsed": parsed})
                    }
                    Err(_) => json!({"p": 0, "ok": false, "parsed": parsed}),
                }
            }
            "tlit" => {
                let its = items(&op["items"]);
                let t = match op["as"].as_str() {
                    Some("table") if its.is_empty() => Table::default(),
                    Some("builder") if its.is_empty() => TableBuilder::default().build(),
                    Some("new") if its.is_empty() => TableBuilder::new().build(),
                    _ => Table::from_corr(synth(its), Origin::New),
                };
                let r = items_json(&t.items());
                self.tab.insert(Self::id(op, "t"), t);
                json!({"p": 0, "items": r})
            }
            "tadd" | "trem" => {
                let add = op["op"] == json!("tadd");
                let via = op["via"].as_str().unwrap_or("table").to_string();
                let tid = Self::id(op, "t");
                let preset = op["c"]["name"] == json!("all") && add;
                let mut t = Table::new();
                with_corr!(self, &op["c"], c, {
                    let c = c();
                    // the table itself, not a clone of it
                    t = self.tab.remove(&tid).unwrap();
                    if via == "table" {
                        if add { t.add(&c) } else { t.remove(&c) }
                    } else {
                        let mut b = if via == "builder2" { TableBuilder::from_table(t) } else { t.builder() };
                        if preset && via == "builder" {
                            b.preset();
                        } else if add {
                            b.add_corr(&c);
                        } else {
                            b.remove_corr(&c);
                        }
                        t = b.build();
                    }
                });
                let r = items_json(&t.items());
                self.tab.insert(tid, t);
                json!({"p": 0, "items": r})
            }
            "tchain" => {
                // everything asked of one builder, which is built at the end
                let tid = Self::id(op, "t");
                let mut b = self.tab.remove(&tid).unwrap().builder();
                let mut oks: Vec<Value> = vec![];
                for s in op["steps"].as_array().unwrap() {
                    match s["do"].as_str().unwrap() {
                        "add" => with_corr!(self, &s["c"], c, { b.add_corr(&c()); }),
                        "rem" => with_corr!(self, &s["c"], c, { b.remove_corr(&c()); }),
                        "preset" => { b.preset(); }
                        _ => {
                            let p = self.path(&s["path"]);
                            oks.push(json!(if s["fmt"] == json!("csv") { b.add_from_csv(p).is_ok() } else { b.add_from_yaml(p).is_ok() }));
                        }
                    }
                }
                let t = b.build();
                let r = items_json(&t.items());
                self.tab.insert(tid, t);
                json!({"p": 0, "items": r, "oks": oks})
            }
            "titems" => {
                let t = &self.tab[&Self::id(op, "t")];
                let c = t.corr();
                let from = Synthesized::from(&c);
                let map: Vec<Value> = from
                    .item_map()
                    .iter()
                    .map(|(to, froms)| json!([cps(to), froms.iter().map(|f| cps(f)).collect::<Vec<_>>()]))
                    .collect();
                json!({"p": 0, "items": items_json(&t.items()), "corr": items_json(&c.as_ref().items()),
                       "synth": items_json(&c.synthesize().items()), "from": items_json(&Synthesized::from(c.clone()).items()),
                       "map": map})
            }
            "tcopy" => {
                let t = self.tab[&Self::id(op, "t")].clone();
                let r = items_json(&t.items());
                self.tab.insert(Self::id(op, "u"), t);
                json!({"p": 0, "items": r})
            }
            "tload" => self.tload(op),
            "calc" => {
                let plus = op["sign"] == json!("+");
                with_corr!(self, &op["a"], a, with_corr!(self, &op["b"], b, calc(plus, a, b)))
            }
            "setitems" => {
                let d = json!({"c": "set", "name": op["name"], "as": op["as"]});
                with_corr!(self, &d, c, json!({"p": 0, "items": items_json(&c().items())}))
            }
            "consts" => {
                let r: Vec<Value> = CONSTS
                    .iter()
                    .filter(|x| op["name"] == json!(x.0))
                    .map(|x| json!({"name": x.1, "items": items_json(&x.2())}))
                    .collect();
                json!({"p": 0, "named": r})
            }
            "export" => self.export(op),
            "output" => self.output(op),
            "linkdir" => {
                // the directory is elsewhere, and a link leads to it
                let (p, q) = (self.path(&op["path"]), self.path(&op["to"]));
                std::fs::create_dir_all(q.parent().unwrap()).unwrap();
                std::fs::create_dir_all(&p).unwrap();
                std::fs::rename(&p, &q).unwrap();
                std::os::unix::fs::symlink(&q, &p).unwrap();
                done()
            }
            "file" => {
                let p = self.path(&op["path"]);
                if let Some(d) = p.parent() {
                    std::fs::create_dir_all(d).unwrap();
                }
                let _ = std::fs::remove_dir_all(&p);
                let _ = std::fs::remove_file(&p);
                if op["x"]["t"] == json!("dir") {
                    std::fs::create_dir_all(&p).unwrap();
                } else if op["x"]["t"] == json!("dangling") {
                    std::os::unix::fs::symlink(self.root.join("there is no such file"), &p).unwrap();
                } else if op["x"]["t"] == json!("loop") {
                    std::os::unix::fs::symlink(&p, &p).unwrap();
                } else if op["x"]["t"] == json!("dirlink") {
                    std::os::unix::fs::symlink(&self.root, &p).unwrap();
                } else if op["x"]["f"] == json!("eio") {
                    // a regular file that gives an error when its beginning is read:
                    // the memory of the very process that reads, where nothing is at 0
                    std::os::unix::fs::symlink("/proc/self/mem", &p).unwrap();
                } else if op["x"]["t"] == json!("sock") {
                    // bound under a short name: the full one may be too long for an address
                    let short = self.root.join("s");
                    let _ = std::fs::remove_file(&short);
                    drop(std::os::unix::net::UnixListener::bind(&short).unwrap());
                    std::fs::rename(&short, &p).unwrap();
                } else {
                    let hex = op["b"].as_str().unwrap();
                    let bytes: Vec<u8> = (0..hex.len() / 2)
                        .map(|k| u8::from_str_radix(&hex[2 * k..2 * k + 2], 16).unwrap())
                        .collect();
                    if let Some(same) = op["link"].as_str() {
                        std::os::unix::fs::symlink(self.root.join(os(same)), &p).unwrap();
                    } else if op["link"] == json!(true) {
                        let real = self.root.join(format!("link{}.dat", op["path"].as_str().unwrap().replace('/', "+")));
                        std::fs::write(&real, bytes).unwrap();
                        std::os::unix::fs::symlink(&real, &p).unwrap();
                    } else {
                        std::fs::write(&p, bytes).unwrap();
                    }
                }
                done()
            }
            "del" => {
                let p = self.path(&op["path"]);
                let _ = std::fs::remove_dir_all(&p);
                let _ = std::fs::remove_file(&p);
                done()
            }
            "env" => {
                self.home = self.path(&op["home"]);
                if let Some(hs) = op["hs"].as_str() {
                    // the same directory, spelled otherwise
                    std::fs::create_dir_all(&self.home).unwrap();
                    let mut o = self.home.clone().into_os_string();
                    o.push(hs);
                    self.home = o.into();
                }
                self.set_vars(&op["vars"]);
                self.hval = op["hval"].as_str().map(|s| s.to_string());
                self.cwd = self.path(&op["cwd"]);
                self.rc = if op["rc"]["set"] == json!(true) {
                    Some(match op["rc"].get("val").and_then(|v| v.as_str()) {
                        Some(v) => v.replace("{root}", self.root.to_str().unwrap()),
                        None => format!("{}/{}", self.root.to_str().unwrap(), op["rc"]["p"].as_str().unwrap()),
                    })
                } else {
                    None
                };
                self.xdg = op["xdg"].as_str().map(|s| s.to_string());
                self.enter();
                if op["gone"] == json!(true) {
                    std::fs::remove_dir(&self.cwd).unwrap();
                }
                log::set_max_level(if op["debug"] == json!(true) {
                    log::LevelFilter::Debug
                } else {
                    log::LevelFilter::Info
                });
                done()
            }
            "cli" => self.cli(op),
            "pynew" | "pytabnew" | "pytabadd" | "pyset" | "pynorm" | "pybad" | "pypar" | "pydel" => self.python(op),
            o => panic!("driver: unknown op {}", o),
        }
    }

    fn full(c: &Chanoma, s: &str) -> (Value, Value) {
        let out = c.normalize(s);
        let m = c.normalize_with_positions(s);
        let recs: Vec<Value> = m
            .modified_records()
            .iter()
            .map(|r| {
                let ps: Vec<Value> = r.positions.iter().map(pos_json).collect();
                json!([cps(&r.text), ps])
            })
            .collect();
        (cps(&out), Value::Array(recs))
    }

    /// Several threads at once make an instance each and use it; one of them is kept.
    fn make(&mut self, op: &Value) -> Value {
        let texts = strs(&op["texts"]);
        let n = op["threads"].as_u64().unwrap() as usize;
        let how = op["how"].as_str().unwrap();
        let path = if op["path"].is_string() { self.path(&op["path"]) } else { PathBuf::new() };
        let table = op["t"].is_i64().then(|| self.tab[&Self::id(op, "t")].clone());
        let gate = std::sync::Barrier::new(n);
        let made: Vec<Option<(Owned, Vec<String>)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    let (texts, gate, path, table) = (&texts, &gate, &path, Tables(table.clone()));
                    s.spawn(move || {
                        let table = table;
                        gate.wait();
                        catch_unwind(AssertUnwindSafe(move || {
                            let mut c = Chanoma::new();
                            match how {
                                "preset" => c = Chanoma::preset(),
                                "use_preset" => drop(c.use_preset()),
                                "neologdn" => c = Chanoma::neologdn(),
                                "use_neologdn" => drop(c.use_neologdn()),
                                "from_table" => c = Chanoma::from_table(table.0.unwrap()),
                                "cfg" => c = Chanoma::from_config_file(path).unwrap(),
                                "load_rc" => c = Chanoma::load_rc().unwrap(),
                                x => panic!("{}", x),
                            }
                            let out = texts.iter().map(|t| c.normalize(t)).collect();
                            (Owned(c), out)
                        }))
                        .ok()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
        });
        let mut seen: Vec<Vec<String>> = vec![Vec::new(); texts.len()];
        for m in &made {
            match m {
                None => return json!({"p": 1}),
                Some((_, out)) => {
                    for (k, o) in out.iter().enumerate() {
                        if !seen[k].contains(o) {
                            seen[k].push(o.clone());
                        }
                    }
                }
            }
        }
        let c = made.into_iter().next().unwrap().unwrap().0 .0;
        self.put(op, c);
        let seen: Vec<Vec<Value>> = seen.iter().map(|s| s.iter().take(4).map(|t| cps(t)).collect()).collect();
        json!({"p": 0, "seen": seen})
    }

    fn par(&self, op: &Value) -> Value {
        let c = Shared(self.i(op));
        let texts = strs(&op["texts"]);
        let n = op["threads"].as_u64().unwrap() as usize;
        let iters = op["iters"].as_u64().unwrap() as usize;
        let single: Vec<Value> = texts
            .iter()
            .map(|t| {
                let (a, b) = Self::full(c.0, t);
                json!([a, b])
            })
            .collect();
        // raw results compared in the threads; only distinct ones are recorded
        type Raw = (String, Vec<(String, Vec<(String, String, usize, usize, usize, usize)>)>);
        let raw = |c: &Chanoma, t: &str| -> Raw {
            let out = c.normalize(t);
            let m = c.normalize_with_positions(t);
            (
                out,
                m.modified_records()
                    .iter()
                    .map(|r| {
                        (
                            r.text.clone(),
                            r.positions
                                .iter()
                                .map(|p| (p.from.clone(), p.to.clone(), p.index, p.length, p.utf8_index, p.utf8_length))
                                .collect(),
                        )
                    })
                    .collect(),
            )
        };
        let barrier = std::sync::Barrier::new(n);
        let seen: Vec<Result<Vec<Vec<Raw>>, ()>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|k| {
                    let (c, texts, barrier, raw) = (&c, &texts, &barrier, &raw);
                    s.spawn(move || {
                        barrier.wait();
                        catch_unwind(AssertUnwindSafe(|| {
                            let mut seen: Vec<Vec<Raw>> = vec![Vec::new(); texts.len()];
                            for it in 0..iters {
                                for d in 0..texts.len() {
                                    // every thread goes through the texts in another order
                                    let j = (d * (2 * k + 1) + k + it) % texts.len();
                                    let r = raw(c.0, &texts[j]);
                                    if !seen[j].contains(&r) {
                                        seen[j].push(r);
                                    }
                                }
                            }
                            seen
                        }))
                        .map_err(|_| ())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Err(()))).collect()
        });
        if seen.iter().any(|s| s.is_err()) {
            return json!({"p": 1});
        }
        let mut all: Vec<Vec<Raw>> = vec![Vec::new(); texts.len()];
        for s in seen.into_iter().flatten() {
            for (j, rs) in s.into_iter().enumerate() {
                for r in rs {
                    if !all[j].contains(&r) {
                        all[j].push(r);
                    }
                }
            }
        }
        let all: Vec<Value> = all
            .iter()
            .map(|rs| {
                Value::Array(
                    rs.iter()
                        .take(4)
                        .map(|(out, recs)| {
                            let recs: Vec<Value> = recs
                                .iter()
                                .map(|(t, ps)| {
                                    let ps: Vec<Value> = ps
                                        .iter()
                                        .map(|(f, t, a, b, c, d)| json!([cps(f), cps(t), a, b, c, d]))
                                        .collect();
                                    json!([cps(t), ps])
                                })
                                .collect();
                            json!([cps(out), recs])
                        })
                        .collect(),
                )
            })
            .collect();
        json!({"p": 0, "single": single, "seen": all})
    }

    fn sweep(&self, op: &Value) -> Value {
        let c = self.i(op);
        let (pre, suf) = (text(&op["pre"]), text(&op["suf"]));
        let k = op["k"].as_u64().unwrap() as usize;
        let ask = |ch: char| c.normalize(&format!("{}{}{}", pre, ch.to_string().repeat(k), suf));
        let rep = '\u{10FFFF}';
        let out = ask(rep);
        let mid = rep.to_string().repeat(k);
        let (tpre, tsuf) = match out.find(&mid) {
            Some(j) => (out[..j].to_string(), out[j + mid.len()..].to_string()),
            None => (out.clone(), String::new()),
        };
        let mut exc = Vec::new();
        let mut n = 0u64;
        for u in 0..=0x10FFFFu32 {
            if let Some(ch) = char::from_u32(u) {
                let o = ask(ch);
                let l = ch.len_utf8();
                let same = o.len() == tpre.len() + l * k + tsuf.len()
                    && o.starts_with(&tpre)
                    && o.ends_with(&tsuf)
                    && (0..k).all(|j| o[tpre.len() + j * l..].starts_with(ch));
                if !same && exc.len() < 2000 {
                    exc.push(json!([u, cps(&o)]));
                }
                n += 1;
            }
        }
        json!({"p": 0, "n": n, "tpre": cps(&tpre), "tsuf": cps(&tsuf), "exc": exc})
    }

    /// The reports for pre.c.suf, c every scalar.  Only those are recorded that are not the report
    /// for c = U+10FFFF with c in its place.
    fn psweep(&self, op: &Value) -> Value {
        let c = self.i(op);
        let (pre, suf) = (text(&op["pre"]), text(&op["suf"]));
        let ask = |ch: char| c.normalize_with_positions(&format!("{}{}{}", pre, ch, suf));
        let rep = '\u{10FFFF}';
        let base = ask(rep);
        let split = |t: &str| t.find(rep).map(|j| (t[..j].to_string(), t[j + 4..].to_string()));
        let around: Vec<_> = base.modified_records().iter().map(|r| split(&r.text)).collect();
        let mut exc = Vec::new();
        let mut n = 0u64;
        for u in 0..=0x10FFFFu32 {
            if let Some(ch) = char::from_u32(u) {
                let m = ask(ch);
                let l = ch.len_utf8();
                let mut before = pre.len();
                let same = m.modified_records().len() == around.len()
                    && m.modified_records().iter().zip(base.modified_records()).zip(&around).all(|((r, b), a)| {
                        let (x, y) = match a {
                            Some(a) => a,
                            None => return false,
                        };
                        let placed = r.positions.len() == b.positions.len()
                            && r.positions.iter().zip(&b.positions).all(|(p, q)| {
                                let index = if q.index < before { q.index } else { q.index + l - 4 };
                                (&p.from, &p.to, p.index, p.length, p.utf8_index, p.utf8_length)
                                    == (&q.from, &q.to, index, q.length, q.utf8_index, q.utf8_length)
                            });
                        before = x.len();
                        placed
                            && r.text.len() == x.len() + l + y.len()
                            && r.text.starts_with(x.as_str())
                            && r.text.ends_with(y.as_str())
                            && r.text[x.len()..].starts_with(ch)
                    });
                if !same && exc.len() < 2000 {
                    exc.push(json!([u, places!(m)]));
                }
                n += 1;
            }
        }
        json!({"p": 0, "n": n, "rep": places!(base), "exc": exc})
    }

    fn tload(&mut self, op: &Value) -> Value {
        let p = self.spelled(op);
        let csv = op["fmt"] == json!("csv");
        let tid = Self::id(op, "t");
        let before = self.tab.get(&tid).map(|t| origin(t, &p)).unwrap_or("none");
        let res = if op["how"] == json!("from") {
            match (op["via"].as_str().unwrap_or("builder"), csv) {
                ("file", true) => table_from_csv_path(&p),
                ("file", false) => table_from_yaml_path(&p),
                (_, true) => TableBuilder::from_csv_path(&p).map(|b| b.build()),
                (_, false) => TableBuilder::from_yaml_path(&p).map(|b| b.build()),
            }
        } else {
            let mut b = self.tab[&tid].clone().builder();
            let ok = if csv {
                b.add_from_csv(&p).map(|_| ())
            } else {
                b.add_from_yaml(&p).map(|_| ())
            };
            ok.map(|_| b.build())
        };
        match res {
            Ok(t) => {
                let r = items_json(&t.items());
                let o = origin(&t, &p);
                self.tab.insert(tid, t);
                json!({"p": 0, "ok": true, "items": r, "origin": o, "before": before})
            }
            Err(e) => failed(op, &e, &p),
        }
    }

    fn load(p: &Path, csv: bool) -> (bool, Value) {
        let t = if csv { table_from_csv_path(p) } else { table_from_yaml_path(p) };
        match t {
            Ok(t) => (true, items_json(&t.items())),
            Err(_) => (false, json!([])),
        }
    }

    fn export(&self, op: &Value) -> Value {
        let t = &self.tab[&Self::id(op, "t")];
        let w = to_csv_writer(&t.corr(), Vec::new());
        let raw = w.into_inner().unwrap();
        let csv_text = std::str::from_utf8(&raw).map(cps).unwrap_or_else(|_| json!([-1]));
        let mut data = b"from,to\n".to_vec();
        data.extend(raw);
        let c = self.root.join("export.csv");
        std::fs::write(&c, data).unwrap();
        let y = self.root.join("export.yaml");
        std::fs::write(&y, serde_yaml::to_string(&to_serialized_corr(&t.corr())).unwrap()).unwrap();
        let (cok, ci) = Self::load(&c, true);
        let (yok, yi) = Self::load(&y, false);
        json!({"p": 0, "csv_ok": cok, "csv": ci, "csv_text": csv_text, "yaml_ok": yok, "yaml": yi})
    }

    fn bin(name: &str) -> PathBuf {
        PathBuf::from(std::env::var("VERIF_BIN").unwrap()).join(name)
    }

    fn output(&self, op: &Value) -> Value {
        let csv = op["fmt"] == json!("csv");
        let args: Vec<String> = op["args"].as_array().unwrap().iter().map(|a| a.as_str().unwrap().to_string()).collect();
        let o = Command::new(Self::bin("output")).args(args).output().expect("output");
        let p = self.root.join(if csv { "o.csv" } else { "o.yaml" });
        std::fs::write(&p, &o.stdout).unwrap();
        let (ok, i) = Self::load(&p, csv);
        let t = std::str::from_utf8(&o.stdout).map(cps).unwrap_or_else(|_| json!([-1]));
        json!({"p": 0, "ok": ok && o.status.success(), "items": i, "text": t})
    }

    fn cli(&self, op: &Value) -> Value {
        use std::os::unix::process::ExitStatusExt;
        let raw = op["bytes"] == json!(true);
        let args = strs(&op["args"]).into_iter().map(|a| if raw { os(&a) } else { a.into() });
        let stdin = text(&op["stdin"]);
        let told = op["why"] == json!(true);
        let mut c = Command::new(Self::bin("chanoma"));
        c.args(args).stdin(Stdio::piped()).stdout(Stdio::piped());
        c.stderr(if told { Stdio::piped() } else { Stdio::null() });
        // which of the three are a terminal
        let tty = |k: &str| op["tty"].as_array().map_or(false, |v| v.contains(&json!(k)));
        let (mut typed, mut screen) = (None, None);
        if tty("in") {
            let (m, s) = terminal();
            typed = Some(m);
            c.stdin(s);
        }
        if tty("out") {
            let (m, s) = terminal();
            screen = Some(m);
            c.stdout(s);
        }
        let mut errs = None;
        if tty("err") && !told {
            let (m, s) = terminal();
            errs = Some(m);
            c.stderr(s);
        }
        if let Some(v) = op["rust_log"].as_str() {
            c.env("RUST_LOG", v);
        }
        let mut child = c.spawn().expect("chanoma");
        // the sides of the command are the command's alone from here on
        drop(c);
        let mut i: Box<dyn Write + Send> = match typed {
            Some(m) => Box::new(m),
            None => Box::new(child.stdin.take().unwrap()),
        };
        let read = |m: Option<File>| {
            m.map(|mut m| {
                std::thread::spawn(move || {
                    let (mut all, mut part) = (Vec::new(), [0u8; 4096]);
                    while let Ok(n) = m.read(&mut part) {
                        if n == 0 {
                            break;
                        }
                        all.extend_from_slice(&part[..n]);
                    }
                    all
                })
            })
        };
        let (shown, _errs) = (read(screen), read(errs));
        let mut b = stdin.clone().into_bytes();
        // bytes after the first line, which need not be text
        let tail = op["tail"].as_str().unwrap_or("");
        b.extend((0..tail.len() / 2).map(|k| u8::from_str_radix(&tail[2 * k..2 * k + 2], 16).unwrap()));
        // once is enough to know
        static WAITED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
        let asked = op["open"] == json!(true);
        let open = (asked || tty("in")) && !WAITED.load(std::sync::atomic::Ordering::SeqCst);
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        let feeder = std::thread::spawn(move || {
            let _ = i.write_all(&b);
            // whoever reads a line has to answer without waiting for the end of the input
            open && rx.recv_timeout(std::time::Duration::from_secs(30)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout)
        });
        let mut o = child.wait_with_output().expect("wait");
        drop(tx);
        if let Some(h) = shown {
            o.stdout = h.join().unwrap();
        }
        let code = o.status.code().unwrap_or_else(|| -o.status.signal().unwrap_or(99));
        let out = match std::str::from_utf8(&o.stdout) {
            Ok(s) => cps(s),
            Err(_) => json!([-1]),
        };
        let mut r = json!({"code": code, "out": out});
        if asked || tty("in") {
            r["late"] = json!(0);
        }
        if open && feeder.join().unwrap() {
            r["late"] = json!(1);
            WAITED.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        if told {
            if let Err(e) = Chanoma::load_rc() {
                r["shown"] = json!(String::from_utf8_lossy(&o.stderr).contains(&e.to_string()) as i32);
            }
        }
        if op["ok"] == json!(true) {
            let line = if op["hasinput"] == json!(true) {
                text(&op["input"])
            } else {
                stdin.split('\n').next().unwrap_or("").to_string()
            };
            r["line"] = cps(&line);
            r["lib"] = cps(&self.i(op).normalize(&line));
        }
        r
    }

    /// A path as it is given to Python.
    fn given(&self, c: &Value) -> PathBuf {
        match c.get("val").and_then(|v| v.as_str()) {
            Some(v) => PathBuf::from(v.replace("{root}", self.root.to_str().unwrap())),
            None => self.root.join(c["p"].as_str().unwrap()),
        }
    }

    fn python(&mut self, op: &Value) -> Value {
        let kind = op["op"].as_str().unwrap().to_string();
        let mut q = Map::new();
        for (k, v) in op.as_object().unwrap() {
            q.insert(k.clone(), v.clone());
        }
        q.insert("home".into(), json!(back(&self.home)));
        q.insert("cwd".into(), json!(back(&self.cwd)));
        q.insert("root".into(), json!(self.root));
        q.insert("chanomarc".into(), json!(self.rc));
        q.insert("xdg".into(), json!(self.xdg));
        let vars: Map<String, Value> = self.vars.iter().map(|(k, _)| (k.clone(), json!(std::env::var(k).unwrap()))).collect();
        q.insert("vars".into(), Value::Object(vars));
        let mut r = self.ask(Value::Object(q));
        if r.get("crash").is_none() {
            r["crash"] = json!(0);
        }
        if r["crash"] == json!(0) {
            if let Some(m) = r.get("msg").map(text) {
                let said = match kind.as_str() {
                    "pynew" if op["cfg"]["set"] == json!(true) => {
                        Chanoma::from_config_file(self.given(&op["cfg"])).err().map(|e| e.to_string())
                    }
                    "pynew" => Chanoma::load_rc().err().map(|e| e.to_string()),
                    "pytabnew" => {
                        let mut b = TableBuilder::new();
                        let mut e = None;
                        if op["csv"]["set"] == json!(true) {
                            e = b.add_from_csv(self.given(&op["csv"])).err();
                        }
                        if e.is_none() && op["yaml"]["set"] == json!(true) {
                            e = b.add_from_yaml(self.given(&op["yaml"])).err();
                        }
                        e.map(|e| e.to_string())
                    }
                    _ => None,
                };
                r["told"] = json!((said == Some(m)) as i32);
            }
            if kind == "pynorm" {
                let c = &self.inst[&Self::id(op, "ref")];
                r["lib"] = cps(&c.normalize(&text(&op["text"])));
            } else if kind == "pypar" {
                let c = &self.inst[&Self::id(op, "ref")];
                r["lib"] = op["texts"].as_array().unwrap().iter().map(|t| cps(&c.normalize(&text(t)))).collect();
            } else if kind == "pyset" {
                // what a table of just one item converts, for every item of the set
                let d = json!({"c": "set", "name": op["name"]});
                let all: Vec<Item> = with_corr!(self, &d, c, c().items());
                let chars: Vec<char> = text(&op["chars"]).chars().collect();
                let s: String = chars.iter().collect();
                let mut lib: Vec<Vec<(u32, u32)>> = all
                    .into_iter()
                    .map(|i| {
                        let c = Chanoma::from_table(Table::from_corr(synth(vec![i]), Origin::New));
                        chars
                            .iter()
                            .zip(c.normalize(&s).chars())
                            .filter(|(a, b)| **a != *b)
                            .map(|(a, b)| (*a as u32, b as u32))
                            .collect()
                    })
                    .collect();
                lib.sort();
                r["lib"] = json!(lib);
            }
        }
        r
    }
}

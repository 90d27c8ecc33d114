//! Conformance harness: drives the relaxng-rust crates with test cases and
//! records what they do, one JSON object per case.  It decides nothing; the
//! recorded behaviour is judged by TLC against the specification in ../spec.
//!
//! usage: rngconf CASES.ndjson OUT.ndjson STDERR_FILE SKIP
//! (stderr must be redirected to STDERR_FILE by the caller)
use relaxng_model::datatype::xsd::{MinMaxFacet, StringFacets, XsdDatatypes};
use relaxng_model::datatype::{Datatype, Datatypes};
use relaxng_model::model::{DefineRule, NameClass, Pattern};
use relaxng_model::{Compiler, Files, RelaxError, Syntax};
use relaxng_validator::{Validator, ValidatorError};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Model = Rc<RefCell<Option<DefineRule>>>;

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

struct MemFiles {
    files: HashMap<String, Value>,
    log: Rc<RefCell<Vec<String>>>,
}
impl Files for MemFiles {
    fn load(&self, name: &Path) -> Result<String, RelaxError> {
        let n = name.to_string_lossy().to_string();
        self.log.borrow_mut().push(n.clone());
        match self.files.get(&n) {
            Some(Value::String(s)) => Ok(s.clone()),
            _ => Err(RelaxError::Io(
                name.to_path_buf(),
                std::io::Error::from(std::io::ErrorKind::NotFound),
            )),
        }
    }
}

fn variant(s: String) -> String {
    s.chars()
        .take_while(|c| c.is_ascii_alphanumeric() || *c == '_')
        .collect()
}

fn relax_error(e: &RelaxError) -> Value {
    let d = format!("{e:?}");
    let inner = match e {
        RelaxError::IncludeError(_, b) => relax_error(b),
        _ => Value::Null,
    };
    let path = match e {
        RelaxError::Io(p, _) => Value::String(p.to_string_lossy().to_string()),
        _ => Value::Null,
    };
    let ident = match e {
        RelaxError::UndefinedReference { identifier, .. } => json!(identifier),
        RelaxError::UndefinedNamespacePrefix { prefix, .. } => json!(prefix),
        RelaxError::UndefinedDatatypePrefix { prefix, .. } => json!(prefix),
        RelaxError::DuplicateDefinition { name, .. } => json!(name),
        RelaxError::RecursiveReference { ref_id, .. } => json!(ref_id),
        RelaxError::RecursiveInclude { name, .. } => json!(name),
        RelaxError::OverrideMissingFromInclude { name, .. } => json!(name),
        _ => Value::Null,
    };
    let mut detail = d.clone();
    if detail.len() > 600 {
        let mut cut = 600;
        while !detail.is_char_boundary(cut) {
            cut -= 1;
        }
        detail.truncate(cut);
    }
    let sub = match e {
        RelaxError::DatatypeError(x) => {
            let s = format!("{x:?}");
            Value::String(s.split(|c: char| !c.is_ascii_alphanumeric()).filter(|s| !s.is_empty()).take(8).collect::<Vec<_>>().join(" "))
        }
        _ => Value::Null,
    };
    json!({"kind": variant(d), "inner": inner, "path": path, "ident": ident, "detail": detail, "sub": sub})
}

// ---- model dump ---------------------------------------------------------

struct Dump<'a> {
    ids: HashMap<*const Option<DefineRule>, usize>,
    defs: Vec<(String, Option<Value>)>,
    queue: Vec<(usize, Model)>,
    probes: &'a [String],
}
impl<'a> Dump<'a> {
    fn reference(&mut self, name: &str, m: &Model) -> usize {
        let p = m.as_ptr() as *const Option<DefineRule>;
        if let Some(i) = self.ids.get(&p) {
            return *i;
        }
        let i = self.defs.len();
        self.ids.insert(p, i);
        self.defs.push((name.to_string(), None));
        self.queue.push((i, m.clone()));
        i
    }
    fn run(&mut self) {
        while let Some((i, m)) = self.queue.pop() {
            let b = m.borrow();
            let v = match b.as_ref() {
                Some(r) => self.pat(r.pattern()),
                None => json!(["undefined"]),
            };
            self.defs[i].1 = Some(v);
        }
    }
    fn vector(&self, dt: &dyn Datatype) -> Value {
        Value::Array(
            self.probes
                .iter()
                .map(|p| json!(if dt.is_valid(p) { 1 } else { 0 }))
                .collect(),
        )
    }
    fn many(&mut self, v: &[Pattern]) -> Value {
        Value::Array(v.iter().map(|p| self.pat(p)).collect())
    }
    fn pat(&mut self, p: &Pattern) -> Value {
        match p {
            Pattern::Choice(v) => json!(["choice", self.many(v)]),
            Pattern::Interleave(v) => json!(["interleave", self.many(v)]),
            Pattern::Group(v) => json!(["group", self.many(v)]),
            Pattern::Mixed(p) => json!(["mixed", self.pat(p)]),
            Pattern::Empty => json!(["empty"]),
            Pattern::Text => json!(["text"]),
            Pattern::NotAllowed => json!(["notAllowed"]),
            Pattern::Optional(p) => json!(["optional", self.pat(p)]),
            Pattern::ZeroOrMore(p) => json!(["zeroOrMore", self.pat(p)]),
            Pattern::OneOrMore(p) => json!(["oneOrMore", self.pat(p)]),
            Pattern::Attribute(n, p) => json!(["attribute", nc(n), self.pat(p)]),
            Pattern::Element(n, p) => json!(["element", nc(n), self.pat(p)]),
            Pattern::Ref(_, name, r) => {
                let i = self.reference(name, &r.0);
                json!(["ref", i.to_string()])
            }
            Pattern::DatatypeValue { datatype } => json!(["pvalue", self.vector(datatype)]),
            Pattern::DatatypeName { datatype, except } => {
                let v = self.vector(datatype);
                match except {
                    Some(e) => json!(["pdata", v, self.pat(e)]),
                    None => json!(["pdata", v, ["none"]]),
                }
            }
            Pattern::List(p) => json!(["list", self.pat(p)]),
        }
    }
}
// ---- what the model says about the facets of a datatype ------------------------

/// The first data pattern, not going through references
fn first_data(p: &Pattern) -> Option<&Datatypes> {
    match p {
        Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => v.iter().find_map(first_data),
        Pattern::Mixed(p) | Pattern::Optional(p) | Pattern::ZeroOrMore(p) | Pattern::OneOrMore(p) | Pattern::List(p) => first_data(p),
        Pattern::Attribute(_, p) | Pattern::Element(_, p) => first_data(p),
        Pattern::DatatypeName { datatype, .. } => Some(datatype),
        _ => None,
    }
}
fn said<T: std::fmt::Display>(f: impl FnOnce() -> Option<T>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Some(v)) => json!(v.to_string()),
        Ok(None) => json!("none"),
        Err(_) => json!("panic"),
    }
}
macro_rules! bounds {
    ($m:expr) => {
        json!({"bounded": $m.bounded(), "min": [said(|| $m.min()), said(|| $m.min_cloned())], "max": [said(|| $m.max()), said(|| $m.max_cloned())]})
    };
}
macro_rules! bounds_cloned {
    ($m:expr) => {
        json!({"bounded": $m.bounded(), "min": [said(|| $m.min_cloned())], "max": [said(|| $m.max_cloned())]})
    };
}
fn facets_of(dt: &Datatypes, strs: &[String]) -> Value {
    fn some<T: PartialOrd>(m: &MinMaxFacet<T>) -> Value {
        json!({"bounded": m.bounded()})
    }
    fn lengths(f: &StringFacets, strs: &[String]) -> Value {
        json!({"bounded": f.bounded(), "min": [said(|| f.min_len())], "max": [said(|| f.max_len())],
               "regex": f.regex().map(|re| strs.iter().map(|s| if re.is_match(s) { 1 } else { 0 }).collect::<Vec<i32>>())})
    }
    match dt {
        Datatypes::Xsd(x) => match x {
            XsdDatatypes::NormalizedString(f) | XsdDatatypes::String(f) => lengths(f, strs),
            XsdDatatypes::Short(m, _) => bounds!(m),
            XsdDatatypes::UnsignedShort(m, _) => bounds!(m),
            XsdDatatypes::Long(m, _) => bounds!(m),
            XsdDatatypes::Int(m, _) => bounds!(m),
            XsdDatatypes::UnsignedInt(m, _) => bounds!(m),
            XsdDatatypes::UnsignedLong(m, _) => bounds!(m),
            XsdDatatypes::Integer(m, _) => bounds_cloned!(m),
            XsdDatatypes::PositiveInteger(m, _) => bounds_cloned!(m),
            XsdDatatypes::Decimal { min_max, .. } => bounds_cloned!(min_max),
            XsdDatatypes::Double(m, _) => some(m),
            _ => Value::Null,
        },
        _ => Value::Null,
    }
}

fn nc(n: &NameClass) -> Value {
    match n {
        NameClass::Named { namespace_uri, name } => json!(["name", namespace_uri, name]),
        NameClass::NsName { namespace_uri, except } => json!(["nsName", namespace_uri, opt(except)]),
        NameClass::AnyName { except } => json!(["anyName", opt(except)]),
        NameClass::Alt { a, b } => json!(["alt", nc(a), nc(b)]),
    }
}
fn opt(e: &Option<Box<NameClass>>) -> Value {
    match e {
        Some(e) => nc(e),
        None => json!(["none"]),
    }
}

// ---- validation ---------------------------------------------------------

fn err_json(e: &ValidatorError) -> Value {
    match e {
        ValidatorError::Xml(x) => {
            let p = x.pos();
            json!({"kind":"Xml","tok":"xml","row":p.row,"col":p.col,"msg":format!("{x}")})
        }
        ValidatorError::NotAllowed(t) => {
            use xmlparser::Token::*;
            let (n, s) = match t {
                Declaration { span, .. } => ("decl", span),
                ProcessingInstruction { span, .. } => ("pi", span),
                Comment { span, .. } => ("comment", span),
                DtdStart { span, .. } => ("dtdstart", span),
                EmptyDtd { span, .. } => ("emptydtd", span),
                EntityDeclaration { span, .. } => ("entitydecl", span),
                DtdEnd { span, .. } => ("dtdend", span),
                ElementStart { span, .. } => ("open", span),
                Attribute { span, .. } => ("attr", span),
                ElementEnd { span, .. } => ("end", span),
                Text { text } => ("text", text),
                Cdata { span, .. } => ("cdata", span),
            };
            json!({"kind":"NotAllowed","tok":n,"start":s.start(),"end":s.end()})
        }
        ValidatorError::UndefinedNamespacePrefix { prefix } => {
            json!({"kind":"UndefinedNamespacePrefix","tok":"prefix","start":prefix.start(),"end":prefix.end(),"name":prefix.as_str()})
        }
        ValidatorError::UndefinedEntity { name, span } => {
            json!({"kind":"UndefinedEntity","tok":"entity","start":span.start,"end":span.end,"name":name})
        }
        ValidatorError::InvalidOrUnclosedEntity { span } => {
            json!({"kind":"InvalidOrUnclosedEntity","tok":"entity","start":span.start,"end":span.end})
        }
        #[allow(unreachable_patterns)]
        other => json!({"kind":variant(format!("{other:?}")),"tok":"other"}),
    }
}

fn diag_json(v: &Validator, src: &str, e: &ValidatorError) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (map, ds) = v.diagnostic("doc.xml".to_string(), src.to_string(), e);
        let mut buf = vec![];
        {
            let mut em = codemap_diagnostic::Emitter::vec(&mut buf, Some(&map));
            em.emit(&ds);
        }
        let mut msgs = vec![];
        let mut spans = vec![];
        for d in &ds {
            msgs.push(json!([format!("{:?}", d.level), d.message]));
            for s in &d.spans {
                let f = map.look_up_span(s.span);
                spans.push(json!({"file": f.file.name(), "l1": f.begin.line, "c1": f.begin.column, "l2": f.end.line, "c2": f.end.column}));
            }
        }
        json!({"text": String::from_utf8_lossy(&buf), "msgs": msgs, "spans": spans})
    }));
    match r {
        Ok(v) => v,
        Err(_) => json!({"panic": PANIC.with(|p| p.borrow().clone())}),
    }
}

struct Run<'a> {
    v: Option<Validator<'a>>,
    src: &'a str,
    n: usize,
    err: Value,
    diag: Value,
    done: bool,
    panic: Value,
    after: usize,
    /// what the calls returned, in order, equal ones in a row counted
    calls: Vec<(&'static str, usize)>,
}
impl<'a> Run<'a> {
    fn new(model: &Model, src: &'a str) -> Run<'a> {
        let mut r = Run { v: None, src, n: 0, err: Value::Null, diag: Value::Null, done: false, panic: Value::Null, after: 0, calls: vec![] };
        match catch_unwind(AssertUnwindSafe(|| Validator::new(model.clone(), xmlparser::Tokenizer::from(src)))) {
            Ok(v) => r.v = Some(v),
            Err(_) => {
                r.panic = json!(PANIC.with(|p| p.borrow().clone()));
                r.done = true;
            }
        }
        r
    }
    fn called(&mut self, what: &'static str) {
        match self.calls.last_mut() {
            Some((w, n)) if *w == what => *n += 1,
            _ => self.calls.push((what, 1)),
        }
    }
    /// one validate_next call; returns false when finished
    fn step(&mut self, diag: bool, poke: bool) -> bool {
        if self.done {
            return false;
        }
        let v = self.v.as_mut().unwrap();
        match catch_unwind(AssertUnwindSafe(|| v.validate_next())) {
            Ok(None) => {
                self.done = true;
                self.called("end");
                if poke {
                    // nothing but the end may come after it
                    for _ in 0..3 {
                        let w = match catch_unwind(AssertUnwindSafe(|| self.v.as_mut().unwrap().validate_next().map(|r| r.is_ok()))) {
                            Ok(None) => "end",
                            Ok(Some(true)) => "ok",
                            Ok(Some(false)) => "err",
                            Err(_) => "panic",
                        };
                        self.called(w);
                    }
                }
            }
            Ok(Some(Ok(()))) => {
                self.n += 1;
                self.called("ok");
            }
            Ok(Some(Err(e))) => {
                if self.err.is_null() {
                    self.err = err_json(&e);
                    if diag {
                        self.diag = diag_json(v, self.src, &e);
                    }
                } else {
                    self.after += 1;
                    if diag && poke {
                        // rendering later errors must be safe as well
                        let d = diag_json(v, self.src, &e);
                        if let Some(p) = d.get("panic") {
                            self.panic = p.clone();
                            self.done = true;
                        }
                    }
                }
                if !poke || self.after > 2000 {
                    self.done = true;
                }
                self.called("err");
            }
            Err(_) => {
                self.panic = json!(PANIC.with(|p| p.borrow().clone()));
                self.done = true;
                self.called("panic");
            }
        }
        !self.done
    }
    fn json(&self) -> Value {
        let mut m = Map::new();
        m.insert("n".into(), json!(self.n));
        m.insert("err".into(), self.err.clone());
        m.insert("calls".into(), json!(self.calls));
        if !self.diag.is_null() {
            m.insert("diag".into(), self.diag.clone());
        }
        if !self.panic.is_null() {
            m.insert("panic".into(), self.panic.clone());
        }
        Value::Object(m)
    }
}

fn read_stderr(path: &str, pos: &mut u64) -> String {
    let _ = std::io::stderr().flush();
    let mut f = match std::fs::File::open(path) {
        Ok(f) => f,
        Err(_) => return String::new(),
    };
    let _ = f.seek(SeekFrom::Start(*pos));
    let mut b = vec![];
    let _ = f.read_to_end(&mut b);
    *pos += b.len() as u64;
    String::from_utf8_lossy(&b).to_string()
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

/// documents may be given as a string or as [[text, repeat], ...]
fn doc_text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => {
            let mut o = String::new();
            for part in a {
                let t = part[0].as_str().unwrap();
                for _ in 0..part[1].as_u64().unwrap() {
                    o.push_str(t);
                }
            }
            o
        }
        _ => String::new(),
    }
}

fn rss_kb() -> i64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<i64>().ok()))
        .map(|pages| pages * 4)
        .unwrap_or(0)
}

thread_local! {
    static DOCSETS: RefCell<HashMap<String, std::rc::Rc<Vec<String>>>> = RefCell::new(HashMap::new());
}

fn run_case(c: &Value, errfile: &str, errpos: &mut u64) -> Value {
    let mut out = Map::new();
    out.insert("id".into(), c["id"].clone());
    let files: HashMap<String, Value> = c["files"]
        .as_object()
        .map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
        .unwrap_or_default();
    let log = Rc::new(RefCell::new(vec![]));
    let syntax = if c["syntax"] == "rng" { Syntax::Xml } else { Syntax::Compact };
    let mut compiler = Compiler::new(MemFiles { files, log: log.clone() }, syntax);
    let main = c["main"].as_str().unwrap_or("main.rnc").to_string();
    let res = catch_unwind(AssertUnwindSafe(|| compiler.compile(Path::new(&main))));
    let mut loaded: Vec<String> = compiler
        .loaded()
        .map(|p: &PathBuf| p.to_string_lossy().to_string())
        .collect();
    loaded.sort();
    out.insert("loaded".into(), json!(loaded));
    out.insert("loads".into(), json!(*log.borrow()));
    let model = match res {
        Err(_) => {
            out.insert("compile".into(), json!({"ok": false, "panic": PANIC.with(|p| p.borrow().clone())}));
            return Value::Object(out);
        }
        Ok(Err(e)) => {
            let mut o = relax_error(&e);
            o["ok"] = json!(false);
            if c["diag"] == true {
                let _ = read_stderr(errfile, errpos);
                match catch_unwind(AssertUnwindSafe(|| compiler.dump_diagnostic(&e))) {
                    Ok(()) => o["diag"] = json!({"text": read_stderr(errfile, errpos)}),
                    Err(_) => o["diag"] = json!({"panic": PANIC.with(|p| p.borrow().clone())}),
                }
                // asking again must be safe
                match catch_unwind(AssertUnwindSafe(|| compiler.compile(Path::new(&main)).is_ok())) {
                    Ok(ok) => o["again"] = json!(if ok { "ok" } else { "err" }),
                    Err(_) => o["again_panic"] = json!(PANIC.with(|p| p.borrow().clone())),
                }
            }
            out.insert("compile".into(), o);
            return Value::Object(out);
        }
        Ok(Ok(m)) => m,
    };
    out.insert("compile".into(), json!({"ok": true}));
    if c["dump"] == true {
        let probes = strings(&c["probes"]);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut d = Dump { ids: HashMap::new(), defs: vec![], queue: vec![], probes: &probes };
            d.reference("start", &model);
            d.run();
            let mut m = Map::new();
            for (i, (n, v)) in d.defs.iter().enumerate() {
                m.insert(i.to_string(), json!({"name": n, "pat": v}));
            }
            Value::Object(m)
        }));
        match r {
            Ok(v) => out.insert("dump".into(), v),
            Err(_) => out.insert("dump_panic".into(), json!(PANIC.with(|p| p.borrow().clone()))),
        };
    }
    if c["facets"] == true {
        let b = model.borrow();
        let f = b.as_ref().and_then(|r| first_data(r.pattern())).map(|d| facets_of(d, &strings(&c["probes"])));
        out.insert("facets".into(), json!(f));
    }
    let diag = c["diag"] == true;
    let poke = c["poke"] == true;
    if let Some(path) = c["docset"].as_str() {
        // many documents, of which only the kind of error and its place are told
        let docs = DOCSETS.with(|d| {
            d.borrow_mut()
                .entry(path.to_string())
                .or_insert_with(|| {
                    let t = std::fs::read_to_string(path).expect("docset");
                    std::rc::Rc::new(strings(&serde_json::from_str(&t).expect("docset is JSON")))
                })
                .clone()
        });
        let mut res = vec![];
        for d in docs.iter() {
            let mut r = Run::new(&model, d);
            while r.step(false, false) {}
            res.push(if !r.panic.is_null() {
                json!(["panic"])
            } else if r.err.is_null() {
                json!([])
            } else {
                json!([r.err["kind"], r.err["start"]])
            });
        }
        out.insert("docs".into(), json!(res));
        return Value::Object(out);
    }
    let docs: Vec<String> = c["docs"].as_array().map(|a| a.iter().map(doc_text).collect()).unwrap_or_default();
    if let Some(sched) = c["schedule"].as_array() {
        // several validators over one model, advanced in the given order:
        // [k, doc] creates validator k for document doc, k advances it one step
        let mut runs: HashMap<u64, Run> = HashMap::new();
        let mut steps: HashMap<u64, Vec<Value>> = HashMap::new();
        for s in sched {
            if let Some(a) = s.as_array() {
                let k = a[0].as_u64().unwrap();
                runs.insert(k, Run::new(&model, &docs[a[1].as_u64().unwrap() as usize]));
                steps.insert(k, vec![]);
            } else if let Some(k) = s.as_u64() {
                if let Some(r) = runs.get_mut(&k) {
                    if !r.done {
                        let before = r.n;
                        r.step(diag, poke);
                        let st = if !r.panic.is_null() { json!("panic") } else if r.n > before { json!("ok") } else if r.done && r.err.is_null() { json!("end") } else { r.err.clone() };
                        steps.get_mut(&k).unwrap().push(st);
                    }
                }
            }
        }
        let mut o = Map::new();
        for (k, r) in &runs {
            let mut j = r.json();
            j["steps"] = json!(steps[k]);
            o.insert(k.to_string(), j);
        }
        out.insert("runs".into(), Value::Object(o));
        return Value::Object(out);
    }
    let mut res = vec![];
    for d in &docs {
        let mut r = Run::new(&model, d);
        let t = Instant::now();
        let mut growth = None;
        if c["rss"] == true {
            // how much the process grows after the first tenth of the document
            let (mut base, mut last, mut n) = (0, 0, 0usize);
            let bytes = d.len();
            while r.step(diag, poke) {
                n += 1;
                if n == bytes / 200 {
                    base = rss_kb();
                }
                if n % 2000 == 0 {
                    last = rss_kb();
                }
            }
            if base > 0 {
                growth = Some(last - base);
            }
        }
        while r.step(diag, poke) {}
        let mut j = r.json();
        if c["time"] == true {
            j["ms"] = json!(t.elapsed().as_millis() as u64);
        }
        if let Some(g) = growth {
            j["rss_growth_kb"] = json!(g);
        }
        res.push(j);
    }
    out.insert("docs".into(), json!(res));
    Value::Object(out)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (cases, outp, errfile) = (a[1].clone(), a[2].clone(), a[3].clone());
    let skip: usize = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(0);
    let limit_ms: u64 = a.get(5).map(|s| s.parse().unwrap()).unwrap_or(20000);
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        PANIC.with(|p| *p.borrow_mut() = m.chars().take(500).collect());
    }));
    let out = Arc::new(Mutex::new(
        std::fs::OpenOptions::new().append(true).create(true).open(outp).unwrap(),
    ));
    let started = Instant::now();
    let since = Arc::new(AtomicU64::new(0));
    let current = Arc::new(Mutex::new(Value::Null));
    {
        let (since, current, out) = (since.clone(), current.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let s = since.load(Ordering::SeqCst);
            if s != 0 && started.elapsed().as_millis() as u64 > s + limit_ms {
                let id = current.lock().unwrap().clone();
                let mut o = out.lock().unwrap();
                let _ = writeln!(o, "{}", json!({"id": id, "timeout": true}));
                let _ = o.flush();
                std::process::exit(3);
            }
        });
    }
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let f = std::io::BufReader::new(std::fs::File::open(cases).unwrap());
            let mut errpos = 0u64;
            for line in f.lines().skip(skip) {
                let line = line.unwrap();
                if line.is_empty() {
                    continue;
                }
                let c: Value = serde_json::from_str(&line).unwrap();
                *current.lock().unwrap() = c["id"].clone();
                since.store(1 + started.elapsed().as_millis() as u64, Ordering::SeqCst);
                let r = run_case(&c, &errfile, &mut errpos);
                since.store(0, Ordering::SeqCst);
                let mut o = out.lock().unwrap();
                writeln!(o, "{r}").unwrap();
            }
        })
        .unwrap();
    t.join().unwrap();
}

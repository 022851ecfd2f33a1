//! Executes one job against the real interpreter and records what it does.

use dyon::{load_str, Dfn, Module, Runtime, Type, Variable};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

static EVENTS: Mutex<Vec<Value>> = Mutex::new(vec![]);

fn log_event(v: Value) {
    let mut evs = EVENTS.lock().unwrap_or_else(|e| e.into_inner());
    // A run away loop must not eat the memory; no sound run gets here.
    if evs.len() < 20000 {
        evs.push(v);
    }
}

fn num(v: f64) -> Value {
    if v.is_nan() {
        json!(["x", "nan"])
    } else if v.is_infinite() {
        json!(["x", if v > 0.0 { "inf" } else { "ninf" }])
    } else if v.fract() == 0.0 && v.abs() < 2.0e9 {
        json!(["n", v as i64])
    } else {
        json!(["f", format!("{}", v)])
    }
}

fn intf(v: f32) -> Value {
    if v.fract() == 0.0 && v.abs() < 2.0e9 {
        json!(v as i64)
    } else {
        json!(format!("{}", v))
    }
}

/// A deep snapshot of a value: references are followed, so that only what a
/// program can observe is recorded.
pub fn snap(stack: &[Variable], v: &Variable, depth: usize) -> Value {
    if depth > 60 {
        return json!(["deep"]);
    }
    let d = depth + 1;
    match v {
        Variable::Ref(ind) => match stack.get(*ind) {
            None => json!(["dangling"]),
            Some(v) => snap(stack, v, d),
        },
        Variable::Return => json!(["ret"]),
        Variable::Bool(b, None) => json!(["b", b]),
        Variable::Bool(b, Some(sec)) => json!(["b", b, secret(stack, sec, d)]),
        Variable::F64(x, None) => num(*x),
        Variable::F64(x, Some(sec)) => {
            let mut n = num(*x);
            n.as_array_mut().unwrap().push(secret(stack, sec, d));
            n
        }
        Variable::Vec4(x) => {
            let tag = if x.iter().all(|x| intf(*x).is_i64()) { "v" } else { "vf" };
            json!([tag, [intf(x[0]), intf(x[1]), intf(x[2]), intf(x[3])]])
        }
        Variable::Mat4(m) => {
            let tag = if m.iter().all(|c| c.iter().all(|x| intf(*x).is_i64())) { "m" } else { "mf" };
            json!([tag, m.iter().map(|c| Value::Array(c.iter().map(|x| intf(*x)).collect())).collect::<Vec<_>>()])
        }
        Variable::Str(s) => json!(["s", s.as_str()]),
        Variable::Array(a) => json!(["a", a.iter().map(|v| snap(stack, v, d)).collect::<Vec<_>>()]),
        Variable::Object(o) => {
            let mut ks: Vec<_> = o.iter().collect();
            ks.sort_by(|a, b| a.0.cmp(b.0));
            json!(["o", ks.iter().map(|(k, v)| json!([k.as_str(), snap(stack, v, d)])).collect::<Vec<_>>()])
        }
        Variable::Link(l) => {
            let mut items = vec![];
            let mut l: dyon::Link = (**l).clone();
            while let Some(h) = l.head() {
                items.push(snap(stack, &h, d));
                l = l.tail();
            }
            json!(["l", items])
        }
        Variable::Option(None) => json!(["none"]),
        Variable::Option(Some(v)) => json!(["some", snap(stack, v, d)]),
        Variable::Result(Ok(v)) => json!(["ok", snap(stack, v, d)]),
        Variable::Result(Err(e)) => json!(["err", snap(stack, &e.message, d), e.trace.iter().map(|t| passed(t)).collect::<Vec<_>>()]),
        Variable::Closure(..) => json!(["c"]),
        #[cfg(feature = "threading")]
        Variable::Thread(_) => json!(["t"]),
        #[cfg(feature = "threading")]
        Variable::In(_) => json!(["in"]),
        Variable::RustObject(_) => json!(["rust"]),
        Variable::UnsafeRef(_) => json!(["unsafe"]),
    }
}

/// The function and the line that an error remembers of a `?` it went through.
fn passed(t: &str) -> Value {
    let name = t.split('`').nth(1).unwrap_or("").split('(').next().unwrap_or("");
    let line = t.lines().find_map(|l| l.split_once(',').and_then(|(n, _)| n.parse::<u32>().ok())).unwrap_or(0);
    json!([name, line])
}

fn secret(stack: &[Variable], sec: &[Variable], d: usize) -> Value {
    Value::Array(sec.iter().map(|v| snap(stack, v, d)).collect())
}

fn probe(rt: &mut Runtime) -> Result<(), String> {
    let v = rt.stack.pop().expect("probe argument");
    let s = snap(&rt.stack, &v, 0);
    log_event(s);
    Ok(())
}

/// Records its argument and hands it on: makes evaluation order observable.
fn pr(rt: &mut Runtime) -> Result<Variable, String> {
    let v = rt.stack.pop().expect("pr argument");
    let s = snap(&rt.stack, &v, 0);
    log_event(s);
    Ok(rt.get(&v).deep_clone_pub(&rt.stack))
}

trait DeepClone {
    fn deep_clone_pub(&self, stack: &[Variable]) -> Variable;
}

impl DeepClone for Variable {
    fn deep_clone_pub(&self, stack: &[Variable]) -> Variable {
        match self {
            Variable::Ref(i) => stack[*i].deep_clone_pub(stack),
            Variable::Array(a) => Variable::Array(Arc::new(a.iter().map(|v| v.deep_clone_pub(stack)).collect())),
            Variable::Object(o) => Variable::Object(Arc::new(o.iter().map(|(k, v)| (k.clone(), v.deep_clone_pub(stack))).collect())),
            x => x.clone(),
        }
    }
}

/// A host function that always fails.
fn boom(rt: &mut Runtime) -> Result<Variable, String> {
    let v = rt.stack.pop().expect("boom argument");
    let s = snap(&rt.stack, &v, 0);
    Err(format!("boom {}", s))
}

/// Hides the static type of a value from the type checker, keeping its identity.
fn dynv(rt: &mut Runtime) -> Result<Variable, String> {
    let v = rt.stack.pop().expect("dyn argument");
    Ok(rt.get(&v).deep_clone_pub(&rt.stack))
}

/// What the job gives the program to work on.
static INPUTS: Mutex<Vec<Value>> = Mutex::new(vec![]);

fn inputs(_: &mut Runtime) -> Result<Variable, String> {
    Ok(Variable::f64(INPUTS.lock().unwrap().len() as f64))
}

fn input(rt: &mut Runtime) -> Result<Variable, String> {
    let i: u32 = rt.pop()?;
    Ok(value(&INPUTS.lock().unwrap()[i as usize]))
}

fn text(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

/// A snapshot of data with texts as code points and numbers as texts.
fn snap_data(stack: &[Variable], v: &Variable) -> Value {
    let all = |vs: &[Variable]| Value::Array(vs.iter().map(|v| snap_data(stack, v)).collect());
    match v {
        Variable::Ref(ind) => snap_data(stack, &stack[*ind]),
        Variable::Bool(b, _) => json!(["b", b]),
        Variable::F64(x, _) => json!(["n", text(&format!("{}", x))]),
        Variable::Vec4(x) => json!(["v", x.iter().map(|x| text(&format!("{}", x))).collect::<Vec<_>>()]),
        Variable::Str(s) => json!(["t", text(s)]),
        Variable::Array(a) => json!(["a", all(a)]),
        Variable::Object(o) => {
            let mut ks: Vec<_> = o.iter().collect();
            ks.sort_by(|a, b| a.0.cmp(b.0));
            json!(["o", ks.iter().map(|(k, v)| json!([text(k), snap_data(stack, v)])).collect::<Vec<_>>()])
        }
        Variable::Link(l) => {
            let mut items = vec![];
            let mut l: dyon::Link = (**l).clone();
            while let Some(h) = l.head() {
                items.push(snap_data(stack, &h));
                l = l.tail();
            }
            json!(["l", items])
        }
        Variable::Option(None) => json!(["none"]),
        Variable::Option(Some(v)) => json!(["some", snap_data(stack, v)]),
        Variable::Result(Ok(v)) => json!(["ok", snap_data(stack, v)]),
        Variable::Result(Err(e)) => json!(["err", snap_data(stack, &e.message)]),
        Variable::Mat4(m) => json!(["m", m.iter().flat_map(|c| c.iter().map(|x| text(&format!("{}", x)))).collect::<Vec<_>>()]),
        x => json!(["other", x.typeof_var().as_str()]),
    }
}

/// Records a value that a host function was given.
pub fn log_out(v: &Variable) {
    log_event(snap_data(&[], v));
}

fn outd(rt: &mut Runtime) -> Result<(), String> {
    let v = rt.stack.pop().expect("outd argument");
    let s = snap_data(&rt.stack, &v);
    log_event(s);
    Ok(())
}

/// Records a number.
fn outn(rt: &mut Runtime) -> Result<(), String> {
    let x: f64 = rt.pop()?;
    log_event(json!(["num", x as i64]));
    Ok(())
}

pub fn host_module(conv: bool) -> Module {
    let mut m = Module::new();
    m.ns("host");
    m.add_str("inputs", inputs as fn(&mut Runtime) -> Result<Variable, String>, Dfn::nl(vec![], Type::F64));
    m.add_str("input", input as fn(&mut Runtime) -> Result<Variable, String>, Dfn::nl(vec![Type::F64], Type::Any));
    m.add_str("outn", outn as fn(&mut Runtime) -> Result<(), String>, Dfn::nl(vec![Type::Any], Type::Void));
    m.add_str("outd", outd as fn(&mut Runtime) -> Result<(), String>, Dfn::nl(vec![Type::Any], Type::Void));
    m.add_str("probe", probe as fn(&mut Runtime) -> Result<(), String>, Dfn::nl(vec![Type::Any], Type::Void));
    m.add_str("pr", pr as fn(&mut Runtime) -> Result<Variable, String>, Dfn::nl(vec![Type::Any], Type::Any));
    m.add_str("dynv", dynv as fn(&mut Runtime) -> Result<Variable, String>, Dfn::nl(vec![Type::Any], Type::Any));
    m.add_str("boom", boom as fn(&mut Runtime) -> Result<Variable, String>, Dfn::nl(vec![Type::Any], Type::Any));
    if conv {
        crate::conv::add(&mut m);
    }
    m.no_ns();
    m
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs `f` on a thread with a large stack; `Err` carries the panic message.
fn guarded<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(f)
        .expect("thread")
        .join()
        .map_err(panic_msg)
}

pub fn take_events() -> Vec<Value> {
    std::mem::take(&mut *EVENTS.lock().unwrap_or_else(|e| e.into_inner()))
}

fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(1)
}

/// Files that the program can load lie in a folder of their own, which is
/// the working directory while the program runs.
fn scratch(job: &Value) -> Option<std::path::PathBuf> {
    let files = job["files"].as_object()?;
    let dir = std::env::temp_dir().join(format!("dynh-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch folder");
    for (name, text) in files {
        assert!(!name.contains('/'));
        std::fs::write(dir.join(name), text.as_str().unwrap_or("")).expect("scratch file");
    }
    std::env::set_current_dir(&dir).expect("scratch folder");
    Some(dir)
}

pub fn run_job(line: &str) -> String {
    let job: Value = match serde_json::from_str(line) {
        Ok(v) => v,
        Err(e) => return json!({"id": Value::Null, "load": "badjob", "end": "badjob", "ev": [], "msg": e.to_string()}).to_string(),
    };
    take_events();
    *INPUTS.lock().unwrap_or_else(|e| e.into_inner()) = job["inputs"].as_array().cloned().unwrap_or_default();
    let id = job["id"].clone();
    let before = tasks();
    let dir = scratch(&job);
    let res = guarded(move || run_program(&job));
    // Threads that the program started and did not join still belong to it.
    for _ in 0..2000 {
        if tasks() <= before {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    if let Some(dir) = dir {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&dir);
    }
    let ev = take_events();
    match res {
        Ok(mut v) => {
            v["id"] = id;
            v["ev"] = Value::Array(ev);
            v.to_string()
        }
        Err(p) => json!({"id": id, "load": "ok", "end": "panic", "ev": ev, "msg": p}).to_string(),
    }
}

fn run_program(job: &Value) -> Value {
    let src = job["src"].as_str().unwrap_or("").to_string();
    let mut m = host_module(job["conv"].as_bool() == Some(true));
    if let Err(e) = load_str("main.dyon", Arc::new(src), &mut m) {
        return json!({"load": "err", "end": "noload", "msg": e});
    }
    if job["noexec"].as_bool() == Some(true) {
        return json!({"load": "ok", "end": "noexec", "msg": ""});
    }
    if let Some(ops) = job["ops"].as_array() {
        return session(m, ops);
    }
    let m = Arc::new(m);
    let mut rt = Runtime::new();
    let res = rt.run(&m);
    let st = json!([rt.stack.len(), rt.local_stack.len(), rt.call_stack.len(), rt.current_stack.len()]);
    match res {
        Ok(()) => json!({"load": "ok", "end": "ok", "msg": "", "st": st}),
        Err(e) => json!({"load": "ok", "end": "err", "msg": e, "st": st}),
    }
}

/// A text, also when given by code points.
fn string(v: &Value) -> String {
    match v {
        Value::Array(a) => a.iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect(),
        v => v.as_str().unwrap().to_string(),
    }
}

fn value(v: &Value) -> Variable {
    let b = |v: &Value| Box::new(value(v));
    match v[0].as_str().unwrap_or("") {
        "n" if v[1].is_array() => Variable::f64(string(&v[1]).parse().unwrap()),
        "n" => Variable::f64(v[1].as_f64().unwrap()),
        "t" => Variable::Str(Arc::new(string(&v[1]))),
        "v" => {
            let x = |i: usize| string(&v[1][i]).parse::<f32>().unwrap();
            Variable::Vec4([x(0), x(1), x(2), x(3)])
        }
        "l" => {
            let mut l = dyon::Link::new();
            for v in v[1].as_array().unwrap() {
                l.push(&value(v)).unwrap();
            }
            Variable::Link(Box::new(l))
        }
        "b" => Variable::bool(v[1].as_bool().unwrap()),
        "s" => Variable::Str(Arc::new(v[1].as_str().unwrap().into())),
        "a" => Variable::Array(Arc::new(v[1].as_array().unwrap().iter().map(value).collect())),
        "o" => Variable::Object(Arc::new(v[1].as_array().unwrap().iter()
            .map(|kv| (Arc::new(string(&kv[0])), value(&kv[1]))).collect())),
        "none" => Variable::Option(None),
        "some" => Variable::Option(Some(b(&v[1]))),
        "ok" => Variable::Result(Ok(b(&v[1]))),
        x => panic!("value {}", x),
    }
}

/// A host that keeps one runtime and one module over many calls.
fn session(mut m: Module, ops: &[Value]) -> Value {
    let mut rt = Runtime::new();
    for op in ops {
        let name = op[1].as_str().unwrap_or("");
        let args: Vec<Variable> = op[2].as_array().map(|a| a.iter().map(value).collect()).unwrap_or_default();
        let res: Result<Value, String> = match op[0].as_str().unwrap_or("") {
            "load" => load_str("more.dyon", Arc::new(name.into()), &mut m).map(|_| json!(["z"])),
            k => {
                let shared = Arc::new(std::mem::replace(&mut m, Module::empty()));
                let res = match k {
                    "run" => rt.run(&shared).map(|_| json!(["z"])),
                    "call" => rt.call_str(name, &args, &shared).map(|_| json!(["z"])),
                    "ret" => rt.call_str_ret(name, &args, &shared).map(|v| snap(&rt.stack, &v, 0)),
                    _ => Err("bad op".into()),
                };
                m = Arc::try_unwrap(shared).unwrap_or_else(|m| (*m).clone());
                res
            }
        };
        let st = json!([rt.stack.len(), rt.local_stack.len(), rt.call_stack.len(), rt.current_stack.len()]);
        log_event(match res {
            Ok(v) => json!(["op", "ok", v, st]),
            Err(_) => json!(["op", "err", ["z"], st]),
        });
    }
    json!({"load": "ok", "end": "ok", "msg": "", "st": [0, 0, 0, 0]})
}

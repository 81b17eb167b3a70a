//! Runs scripts on the real virtual machine and records what can be observed.
//!
//!   rtfh header mock|shell            word list of the started system
//!   rtfh run SCRIPTS OUT DIR FROM STEP NOW   run scripts FROM, FROM+STEP, ...; file
//!                                     effects stay below the scratch directory DIR
//!
//! The event list of every script is appended to OUT as one JSON line; NOW
//! names a file that always holds the events of the script being executed.
mod shell;

use rtforth::core::Core;
use rtforth::memory::Memory;
use rtforth::NUM_TASKS;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static EVENTS: RefCell<Vec<Value>> = RefCell::new(Vec::new());
    static CAPTURE: RefCell<Option<(fs::File, u64)>> = RefCell::new(None);
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);
const MAX_EVENTS: usize = 400;

fn cell(x: isize) -> Value {
    json!(x.to_le_bytes().to_vec())
}

fn stacks<V: Core>(vm: &mut V) -> (usize, Vec<Value>, usize, Vec<Value>, usize) {
    let n = vm.s_stack().len() as usize;
    let ds = (0..if n > 128 { 0 } else { n }).map(|i| cell(vm.s_stack().get(i as u8).unwrap())).collect();
    let m = vm.f_stack().len() as usize;
    let fs = (0..if m > 128 { 0 } else { m })
        .map(|i| json!(vm.f_stack().get(i as u8).unwrap().to_bits().to_le_bytes().to_vec()))
        .collect();
    let r = vm.r_stack().len() as usize;
    (n, ds, m, fs, r)
}

fn observe<V: Core>(vm: &mut V, kind: &str) -> Value {
    let (n, ds, m, fs, r) = stacks(vm);
    let here = vm.data_space().here() as isize - vm.data_space().start() as isize;
    let err: isize = match vm.last_error() {
        Some(e) => e.into(),
        None => 0,
    };
    let out = vm.output_buffer().as_ref().map(|s| s.as_bytes().to_vec()).unwrap_or_default();
    json!({"k": kind, "n": n, "ds": ds, "m": m, "fs": fs, "r": r,
           "comp": vm.state().is_compiling, "here": here, "err": err, "out": out,
           "cur": vm.current_task(), "sid": vm.source_id(), "si": vm.state().source_index})
}

fn push_event(e: Value) {
    EVENTS.with(|v| {
        let mut v = v.borrow_mut();
        if v.len() == MAX_EVENTS {
            panic!("TOO-MANY-EVENTS");
        }
        v.push(e);
    });
    PROGRESS.fetch_add(1, Ordering::SeqCst);
}

fn probe<V: Core>(vm: &mut V) {
    let e = observe(vm, "p");
    push_event(e);
}

fn tick_mock(vm: &mut rtforth::mock_vm::VM) {
    vm.advance();
}
fn tick_shell(vm: &mut shell::VM) {
    vm.now += 1_000_000;
}

fn flushed() -> Vec<u8> {
    CAPTURE.with(|c| match *c.borrow_mut() {
        Some((ref mut f, ref mut pos)) => {
            let mut b = Vec::new();
            f.seek(SeekFrom::Start(*pos)).unwrap();
            f.read_to_end(&mut b).unwrap();
            *pos += b.len() as u64;
            b
        }
        None => Vec::new(),
    })
}

fn listing() -> Value {
    let mut v: Vec<(String, Vec<u8>)> = fs::read_dir(".")
        .unwrap()
        .map(|e| {
            let e = e.unwrap();
            (e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).unwrap_or_default())
        })
        .collect();
    v.sort();
    json!(v.into_iter().map(|(n, c)| json!({"n": n.as_bytes(), "b": c})).collect::<Vec<_>>())
}

/// What can be seen between two lines of input.
fn done<V: Core>(vm: &mut V, files: bool, kind: &str) {
    let mut e = observe(vm, kind);
    let cur = vm.current_task();
    let mut tasks = Vec::new();
    for i in 0..NUM_TASKS {
        vm.set_current_task(i);
        let (n, ds, m, fs, _) = stacks(vm);
        tasks.push(json!({"n": n, "ds": ds, "m": m, "fs": fs, "awake": vm.awake(i)}));
    }
    vm.set_current_task(cur);
    e["tasks"] = json!(tasks);
    e["std"] = json!(flushed());
    if files {
        e["dir"] = listing();
    }
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear();
    }
    push_event(e);
}

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap()
}

/// An action of the host between two lines.
fn host<V: Core>(vm: &mut V, it: &Value) {
    match it["op"].as_str().unwrap() {
        "line" => {
            if vm.input_buffer().is_some() {
                vm.set_source(&text(&it["t"]));
            }
            vm.evaluate_input();
        }
        "reset" => vm.reset(),
        "clear" => vm.clear_stacks(),
        "home" => vm.set_current_task(0),
        "put" => fs::write(text(&it["n"]), bytes(&it["b"])).unwrap(),
        "rm" => fs::remove_file(text(&it["n"])).unwrap(),
        x => panic!("unknown op {}", x),
    }
}

fn start_cell<V: Core>(vm: &mut V) -> Value {
    cell(vm.data_space().start() as isize)
}

/// The first event: where the data space lies, and what time it is (`t0` nanoseconds).
fn start_event<V: Core>(vm: &mut V, t0: u64) -> Value {
    json!({"k": "start", "start": start_cell(vm), "tm": cell((t0 / 1_000_000) as isize), "tu": cell((t0 / 1_000) as isize)})
}

fn run_mock(s: &Value) {
    let mut vm = mock();
    let t0 = s["t0"].as_u64().unwrap_or(0) / 1_000_000;
    for _ in 0..t0 {
        vm.advance();
    }
    let h = s["handler"].as_str().unwrap();
    let xt = vm.find(h).expect("handler");
    vm.set_handler(xt);
    let e = start_event(&mut vm, t0 * 1_000_000);
    push_event(e);
    let files = s["files"].as_bool().unwrap_or(false);
    for it in s["items"].as_array().unwrap() {
        host(&mut vm, it);
        done(&mut vm, files, "d");
    }
}

fn run_shell(s: &Value) {
    let mut vm = shell_vm();
    vm.now = s["t0"].as_u64().unwrap_or(0);
    let e = start_event(&mut vm, s["t0"].as_u64().unwrap_or(0));
    push_event(e);
    let files = s["files"].as_bool().unwrap_or(false);
    let items: Vec<Value> = s["items"].as_array().unwrap().clone();
    let mut i = 0;
    vm.feed = Some(Box::new(move |vm: &mut shell::VM| {
        done(vm, files, "r");
        while i < items.len() {
            i += 1;
            if items[i - 1]["op"] == "line" {
                return Some(text(&items[i - 1]["t"]));
            }
            host(vm, &items[i - 1]);
        }
        None
    }));
    let cold = vm.find("cold").expect("cold");
    vm.execute_word(cold);
    vm.run();
    done(&mut vm, files, "d");
}

fn mock() -> rtforth::mock_vm::VM {
    let mut vm = rtforth::mock_vm::VM::new();
    vm.add_immediate("~", probe);
    vm.add_primitive("~~", probe);
    vm.add_primitive("tick", tick_mock);
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear();
    }
    vm
}

fn shell_vm() -> shell::VM {
    let mut vm = shell::VM::new();
    vm.add_immediate("~", probe);
    vm.add_primitive("~~", probe);
    vm.add_primitive("tick", tick_shell);
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear();
    }
    vm
}

fn header<V: Core>(vm: &mut V) -> Value {
    let start = vm.data_space().start();
    let mut words = Vec::new();
    for i in 0..vm.wordlist().len() {
        let (nfa, dfa) = (vm.wordlist()[i].nfa(), vm.wordlist()[i].dfa());
        let name = unsafe { vm.data_space_const().get_str(nfa) }.to_string();
        let low = name.to_ascii_lowercase();
        words.push(json!({"n": low, "b": low.as_bytes(), "nfa": nfa - start, "dfa": dfa - start}));
    }
    let gd = cell(vm.s_stack().get(100).unwrap());
    let gr = cell(vm.r_stack().get(100).unwrap());
    let gf = json!(vm.f_stack().get(100).unwrap().to_bits().to_le_bytes().to_vec());
    json!({"words": words, "gd": gd, "gr": gr, "gf": gf, "here": vm.data_space().here() - start,
           "cap": vm.data_space().limit() - start})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "header" => {
            let h = match a[2].as_str() {
                "rtf" => header(&mut shell::VM::new()),
                "shell" => header(&mut shell_vm()),
                _ => header(&mut mock()),
            };
            println!("{}", h);
        }
        "run" => run(&a[2], &a[3], &a[4], a[5].parse().unwrap(), a[6].parse().unwrap(), &a[7]),
        _ => panic!("usage"),
    }
}

fn run(scripts: &str, out: &str, dir: &str, from: usize, step: usize, now: &str) {
    let text = fs::read_to_string(scripts).unwrap();
    let mut outf = fs::OpenOptions::new().append(true).create(true).open(out).unwrap();
    let cap = format!("{}/stdout.{}", dir, std::process::id());
    let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&cap).unwrap();
    unsafe {
        use std::os::unix::io::AsRawFd;
        libc::dup2(f.as_raw_fd(), 1);
        let null = fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        libc::dup2(null.as_raw_fd(), 2);
    }
    panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        let _ = EVENTS.try_with(|v| {
            if let Ok(mut v) = v.try_borrow_mut() {
                v.push(json!({"k": "panic", "msg": s}));
            }
        });
    }));
    CAPTURE.with(|c| *c.borrow_mut() = Some((f, 0)));
    std::thread::spawn(|| {
        let mut last = (PROGRESS.load(Ordering::SeqCst), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::SeqCst);
            if p == last.0 {
                last.1 += 1;
                if last.1 > 16 {
                    std::process::exit(77);
                }
            } else {
                last = (p, 0);
            }
        }
    });
    for (i, l) in text.lines().enumerate() {
        if i < from || (i - from) % step != 0 {
            continue;
        }
        let s: Value = serde_json::from_str(l).unwrap();
        fs::write(now, i.to_string()).unwrap();
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        EVENTS.with(|v| v.borrow_mut().clear());
        flushed();
        let scratch = format!("{}/s{}", dir, i);
        let _ = fs::remove_dir_all(&scratch);
        fs::create_dir(&scratch).unwrap();
        std::env::set_current_dir(&scratch).unwrap();
        let r = panic::catch_unwind(|| {
            if s["mode"] == "shell" {
                run_shell(&s)
            } else {
                run_mock(&s)
            }
        });
        std::env::set_current_dir(dir).unwrap();
        let _ = fs::remove_dir_all(&scratch);
        let ev = EVENTS.with(|v| v.borrow().clone());
        let _ = r;
        writeln!(outf, "{}", json!({"i": i, "ev": ev})).unwrap();
    }
    fs::write(now, "-1").unwrap();
}

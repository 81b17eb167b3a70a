// Runs the Forth lines of a case file on the virtual machine and prints a
// transcript.  Lines of the case file:
//   !shell          use the interactive shell (first line only)
//   !put NAME TEXT  write a file (\n and \r are escapes) into the current directory
//   !raw            print the data stack, depth of the return stack and here as well
//   other           a line of input
extern crate rtforth;
mod shell;
use rtforth::core::Core;
use rtforth::output::Output;
use std::{env, fs};

fn tick(vm: &mut rtforth::mock_vm::VM) {
    vm.advance();
}
fn shell_tick(vm: &mut shell::VM) {
    vm.now += 1_000_000;
}
fn unesc(s: &str) -> String {
    s.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t")
}
fn put(l: &str) -> bool {
    if !l.starts_with("!put ") {
        return false;
    }
    let mut p = l[5..].splitn(2, ' ');
    let n = p.next().unwrap();
    fs::write(n, unesc(p.next().unwrap_or(""))).unwrap();
    true
}
fn show<V: Core>(vm: &mut V, raw: bool) {
    let out = vm.output_buffer().as_ref().map(|s| s.clone()).unwrap_or_default();
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear();
    }
    let e: isize = match vm.last_error() {
        Some(e) => e.into(),
        None => 0,
    };
    print!("{:?} {}", out, e);
    if raw {
        print!(" {:?}", vm.s_stack());
        print!(" {:?}", vm.f_stack());
        print!(" r{}", vm.r_stack().len());
    }
    println!();
}
fn main() {
    let text = fs::read_to_string(env::args().nth(1).unwrap()).unwrap();
    let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    if lines[0] == "!shell" {
        lines.remove(0);
        let mut vm = shell::VM::new();
        vm.add_primitive("tick", shell_tick);
        let mut i = 0;
        vm.feed = Some(Box::new(move |vm: &mut shell::VM| {
            show(vm, true);
            while i < lines.len() {
                i += 1;
                if put(&lines[i - 1]) {
                    continue;
                }
                println!("> {}", lines[i - 1]);
                return Some(unesc(&lines[i - 1]));
            }
            None
        }));
        let cold = vm.find("cold").unwrap();
        vm.execute_word(cold);
        vm.run();
        return;
    }
    let mut vm = rtforth::mock_vm::VM::new();
    vm.add_primitive("tick", tick);
    let bye = vm.find("bye").unwrap();
    vm.set_handler(bye);
    if let Some(b) = vm.output_buffer().as_mut() {
        b.clear();
    }
    let mut raw = false;
    for l in lines {
        if l == "!raw" {
            raw = true;
        } else if l == "!clear" {
            vm.clear_stacks();
        } else if !put(&l) {
            println!("> {}", l);
            vm.set_source(&unesc(&l));
            vm.evaluate_input();
            show(&mut vm, raw);
            if vm.last_error().is_some() {
                vm.reset();
                vm.clear_stacks();
            }
        }
    }
}

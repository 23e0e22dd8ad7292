mod exec;
mod expr;
mod ll;
mod mem;
mod z3;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || exec::main(&args))
        .unwrap();
    let rc = h.join().unwrap_or(3);
    std::process::exit(rc);
}

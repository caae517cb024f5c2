mod exec;
mod gen;
mod json;
mod meter;
mod model;
mod real;
mod rope;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<usize>().expect("number");
    match a.get(1).map(String::as_str) {
        Some("gen") => gen::gen(&a[2], num(3) as u64, num(4), &a[5], num(6), a[7] == "huge"),
        Some("exec") => exec::exec(&a[2], &a[3], num(4), num(5) as u64),
        Some("config") => println!("{}", real::CONFIG),
        _ => {
            eprintln!("usage: gen PROFILE SEED COUNT OUT FIRST huge|- | exec PLAN OUT SKIP SECONDS | config");
            std::process::exit(2);
        }
    }
}

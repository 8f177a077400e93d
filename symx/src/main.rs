mod exec;
mod expr;
mod ir;
mod mem;
mod run;
mod z3;

fn main() {
    run::main();
}

//! One build configuration of parquet2: performs the operations of `ops` on a corpus and prints their outcomes.
mod ops;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut corpus = vec![];
    std::io::Read::read_to_end(&mut std::io::stdin().lock(), &mut corpus).expect("corpus");
    let mut out = String::new();
    for l in ops::run(&corpus) {
        out.push_str(&l.line());
        out.push('\n');
    }
    out.push_str("end\n");
    print!("{out}");
}

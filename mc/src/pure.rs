#![allow(dead_code)]
//! The answering side of C33, built with the other LZ4 codec.
mod eng;
mod hist;
mod mem;
mod p_pure;
mod sys;
mod util;

fn main() {
    let s = std::env::args().nth(1).expect("scratch directory");
    util::set_scratch(&s);
    util::install_panic_hook();
    sys::allow(vec![s.clone(), "/dev/null".into()], &s);
    p_pure::serve();
}

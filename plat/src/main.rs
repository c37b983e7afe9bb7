//!   plat digest FILE OUT      one line per case: digest and counts, or "panic ..."
//!   plat text FILE N          what happens in case N, in words
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let file = std::fs::read(&a[1]).expect("cases");
    let cases = plat::split(&file);
    std::panic::set_hook(Box::new(|_| {}));
    match a[0].as_str() {
        "digest" => {
            use std::io::Write;
            let mut o = std::fs::File::create(&a[2]).expect("output");
            for c in &cases {
                let d = match catch_unwind(AssertUnwindSafe(|| plat::digest(c))) {
                    Ok(d) => d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
                    Err(_) => "panic".into(),
                };
                o.write_all((d + "\n").as_bytes()).expect("output");
            }
        }
        "text" => {
            let c = cases[a[2].parse::<usize>().unwrap()];
            let mut t = plat::Text::default();
            let r = catch_unwind(AssertUnwindSafe(|| plat::case(c, &mut t)));
            println!("{}{}", t.out, if r.is_err() { " panic" } else { "" });
        }
        _ => panic!("usage"),
    }
}

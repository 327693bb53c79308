// Native replay: one request per input line, one answer per output line.
use h::O;
use std::io::{BufRead, Write};

fn call(n: &str, a: u128, b: u128, c: u128, k: i32, r: u8, o: &mut O) {
    match n {
/*ARMS*/
        _ => panic!("unknown entry {n}"),
    }
}
#[allow(unused_variables)]
fn parse(n: &str, s: &[u8], r: u8, o: &mut O) {
    match n {
/*PARSE*/
        _ => panic!("unknown entry {n}"),
    }
}
#[allow(unused_variables)]
fn show(n: &str, a: u128, b: &mut [u8], o: &mut O) {
    match n {
/*SHOW*/
        _ => panic!("unknown entry {n}"),
    }
}
fn hex(s: &str) -> u128 {
    u128::from_str_radix(s, 16).unwrap()
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        let res = std::panic::catch_unwind(|| {
            let mut o = O::default();
            let mut buf = vec![];
            match p[0] {
                "P" => {
                    let s: Vec<u8> =
                        (0..p[2].len() / 2).map(|i| u8::from_str_radix(&p[2][2 * i..2 * i + 2], 16).unwrap()).collect();
                    parse(p[1], &s, p[3].parse().unwrap(), &mut o);
                }
                "S" => {
                    buf = vec![0u8; p[3].parse().unwrap()];
                    show(p[1], hex(p[2]), &mut buf, &mut o);
                }
                _ => call(p[1], hex(p[2]), hex(p[3]), hex(p[4]), p[5].parse().unwrap(), p[6].parse().unwrap(), &mut o),
            }
            (o, buf)
        });
        match res {
            Ok((o, buf)) => {
                write!(out, "{:x} {:x} {} {} {}", o.v, o.w, o.e, o.st, o.f).unwrap();
                if !buf.is_empty() {
                    write!(out, " {}", buf.iter().map(|b| format!("{b:02x}")).collect::<String>()).unwrap();
                }
                writeln!(out).unwrap();
            }
            Err(_) => writeln!(out, "PANIC").unwrap(),
        }
    }
}

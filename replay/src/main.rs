//! replay <harness> <hex,hex,...>: runs one harness body natively on the draws of a counterexample.
//! Prints one line, `VIOLATED <what>`, `PANIC <message>`, `HOLDS`, `ASSUME` or `INPUT <message>`.
#[cfg(not(kani))]
use qlcheck::nd;

#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let name = &args[1];
    let vals: Vec<Vec<u8>> = args
        .get(2)
        .map(|s| {
            s.split(',')
                .filter(|x| !x.is_empty())
                .map(|x| (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect())
                .collect()
        })
        .unwrap_or_default();
    let body = match qlcheck::all().into_iter().find(|(n, _)| n == name) {
        Some((_, f)) => f,
        None => {
            println!("INPUT no harness {}", name);
            std::process::exit(3);
        }
    };
    let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        *m2.lock().unwrap() = format!("{} ({})", text.replace('\n', " "), loc);
    }));
    nd::load(vals);
    match std::panic::catch_unwind(body) {
        Ok(()) => println!("HOLDS ({} draws unused)", nd::left()),
        Err(e) => match e.downcast::<nd::Stop>() {
            Ok(s) => match *s {
                nd::Stop::Violated(w) => println!("VIOLATED {}", w),
                nd::Stop::Assume => println!("ASSUME"),
                nd::Stop::Input(m) => println!("INPUT {}", m),
            },
            Err(_) => println!("PANIC {}", msg.lock().unwrap()),
        },
    }
}

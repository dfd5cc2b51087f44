#![allow(dead_code)]
mod fw;
mod gen;
mod props;

use std::path::Path;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|a| a.as_str()) == Some("--list") {
        for (id, _) in props::all() {
            println!("{id}");
        }
        return;
    }
    let Some(id) = args.first().cloned() else {
        eprintln!("usage: flverif ID [--replay FILE]");
        std::process::exit(2);
    };
    if let Some(code) = props::child(&args) {
        std::process::exit(code);
    }
    if std::env::var("FLV_WORKER").is_err() {
        std::process::exit(fw::supervise(&id, &args));
    }
    fw::install_panic_hook();
    let Some((_, run)) = props::all().into_iter().find(|(i, _)| *i == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let mut ctx = fw::Ctx::new(&id);
    if args.get(1).map(|a| a.as_str()) == Some("--replay") {
        if let Err(e) = ctx.set_replay(Path::new(&args[2])) {
            eprintln!("cannot read replay: {e}");
            std::process::exit(2);
        }
    }
    run(&mut ctx);
    std::process::exit(ctx.finish());
}

//! hdmc: bounded exhaustive checks of hongdown's properties.
//!
//! hdmc check ID [DOMAIN INDEX]   run a property, or replay one case of it
//! hdmc ast < FILE                the normal form of a document
mod c01;
mod c03;
mod c04;
mod c05;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod cli;
mod c06;
mod c07;
mod c08;
mod core;
mod docs;
mod norm;
mod opts;
mod punct;
mod sections;
mod tree;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("pos") {
        let s = std::io::read_to_string(std::io::stdin()).unwrap();
        norm::with_ast_raw(&s, |root| for n in root.descendants() { let d = n.data.borrow(); println!("{} {:?}", d.sourcepos, d.value.xml_node_name().to_string() + &d.value.text().map(|t| format!(" {t:?}")).unwrap_or_default()); });
        return;
    }
    match a.get(1).map(|s| s.as_str()) {
        Some("ast") => print!("{}", norm::meaning(&std::io::read_to_string(std::io::stdin()).unwrap())),
        Some("fmt") => print!("{}", hongdown::format(&std::io::read_to_string(std::io::stdin()).unwrap(), &opts::make(a.get(2).map_or("", |s| s))).unwrap()),
        Some("warn") => c03::serve(a.get(2).map_or("", |s| s)),
        Some("actor") => c21::actor(&a[2..]),
        Some("check") => {
            let id = a[2].as_str();
            let only = a.get(3).map(|d| (d.clone(), a[4].parse().unwrap()));
            let e = |level| core::Engine::new(id, level, only.clone());
            let run: (&str, fn(&core::Engine)) = match id {
                "C01" => ("model_checking", c01::meaning),
                "C02" => ("model_checking", c01::idempotent),
                "C03" => ("model_checking", c03::run),
                "C04" => ("model_checking", c04::run),
                "C05" => ("model_checking", c05::run),
                "C06" => ("model_checking", c06::run),
                "C07" => ("model_checking", c07::run),
                "C08" => ("model_checking", c08::run),
                "C09" => ("model_checking", c09::run),
                "C10" => ("model_checking", c10::run),
                "C11" => ("model_checking", c11::run),
                "C12" => ("model_checking", c12::run),
                "C13" => ("model_checking", c13::run),
                "C14" => ("model_checking", c14::run),
                "C15" => ("model_checking", c15::run),
                "C16" => ("model_checking", c16::run),
                "C17" => ("model_checking", c17::run),
                "C18" => ("model_checking", c18::run),
                "C19" => ("model_checking", c19::run),
                "C20" => ("fault_enumeration", c20::run),
                "C21" => ("fault_enumeration", c21::run),
                _ => panic!("unknown property {id}"),
            };
            let e = e(run.0);
            run.1(&e);
            std::process::exit(e.finish());
        }
        _ => eprintln!("usage: hdmc check ID [DOMAIN INDEX]"),
    }
}

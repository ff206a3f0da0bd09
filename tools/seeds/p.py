seed("C16-text-percent", "C16", "a chance above 1 written in rule text",
 "a chance above 1 in rule text is taken as a percentage instead of being refused",
 [("src/parser.rs", "chance = Some(val);", "chance = Some(if val > 1.0 { val / 100.0 } else { val });")],
 '''use rusty_systems::parser::parse_production_body;
fn main() {
    assert!(parse_production_body("0.5 A").is_ok());
    assert!(parse_production_body("50 A").is_err());
    assert!(parse_production_body("1.5 A").is_err());
}
''')
seed("C24-scan-limit", "C24", "a grammar of more than 256 rules",
 "rules after the 256th are never looked at",
 [("src/system.rs", "    for production in productions {\n        if production.matches", "    for production in productions.iter().take(256) {\n        if production.matches")],
 '''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
use rusty_systems::productions::ProductionStore;
fn main() {
    let system = System::new();
    for i in 0..300 {
        system.add_production(format!("S{i} -> T{i} T{i}").as_str()).unwrap();
    }
    let string = parse_prod_string("S299").unwrap();
    assert_eq!(system.derive_once(string).unwrap(), parse_prod_string("T299 T299").unwrap());
}
''')
seed("C13-symbol-limit", "C13", "a production of more than 32 symbols",
 "only the first 32 symbols of a production become known",
 [("src/system.rs", "            for symbol in production.all_symbols_iter() {", "            for symbol in production.all_symbols_iter().take(32) {")],
 '''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::SymbolStore;
fn main() {
    let system = System::new();
    let body: Vec<_> = (0..40).map(|i| format!("B{i}")).collect();
    system.add_production(format!("A -> {}", body.join(" ")).as_str()).unwrap();
    for name in &body {
        assert!(system.get_symbol(name).is_some(), "{name} is not known");
    }
}
''')
seed("C26-step-cap", "C26", "more than 1000 steps requested",
 "no more than 1000 derivation steps are done",
 [("src/system.rs", "0..settings.max_iterations {", "0..settings.max_iterations.min(1000) {")],
 '''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
use rusty_systems::productions::ProductionStore;
fn main() {
    let system = System::new();
    system.add_production("A -> A B").unwrap();
    let string = parse_prod_string("A").unwrap();
    let r = system.derive(string, RunSettings::for_max_iterations(1005)).unwrap();
    assert_eq!(r.len(), 1006);
}
''')
seed("C25-context-limit", "C25", "a right context of more than eight symbols",
 "only the first eight symbols of a right context are compared",
 [("src/productions.rs", "return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);", "return right.iter().zip(symbols.iter()).take(8).all(|(a, b)| a == b);")],
 '''use rusty_systems::parser::{parse_prod_string, parse_production_head};
fn main() {
    let head = parse_production_head("A > B B B B B B B B C").unwrap();
    assert!(head.matches(&parse_prod_string("A B B B B B B B B C").unwrap(), 0));
    assert!(!head.matches(&parse_prod_string("A B B B B B B B B D").unwrap(), 0));
}
''')

seed("C08-convert-under-lock", "C08",
 "a user conversion into a symbol that itself looks a symbol up in the same system",
 "System::add_symbol runs the caller's conversion while holding the symbol lock, so a conversion that queries the system blocks for ever",
 [("src/system.rs", '''        let symbol= symbol.try_into().map_err(Into::into)?;

        let mut map = self.symbols.write()?;
        map.insert(symbol.code());
        
        Ok(symbol)''', '''        let mut map = self.symbols.write()?;
        let symbol= symbol.try_into().map_err(Into::into)?;
        map.insert(symbol.code());
        
        Ok(symbol)''')],
 demo='''use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use std::sync::mpsc;
use std::time::Duration;
struct Alias<'a>(&'a System, &'static str);
impl<'a> TryInto<Symbol> for Alias<'a> {
    type Error = Error;
    fn try_into(self) -> Result<Symbol, Error> {
        match self.0.get_symbol(self.1) { Some(s) => Ok(s), None => Symbol::build(self.1) }
    }
}
fn main() {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let s = System::new();
        s.add_symbol("a").unwrap();
        s.add_symbol(Alias(&s, "a")).unwrap();
        tx.send(s.symbol_len()).unwrap();
    });
    match rx.recv_timeout(Duration::from_secs(10)) {
        Ok(n) => assert_eq!(n, 1),
        Err(_) => { eprintln!("deadlock"); std::process::exit(1) }
    }
}
''')

seed("C08-lock-order", "C08",
 "one thread registering a new name while another converts a code back to a symbol, at the right moments",
 "get_name takes the name register and then the code register, the opposite of get_code's order",
 [("src/symbols.rs", '''    let register = get_name_register().read().ok()?;
    register.get(&code).cloned()''', '''    let register = get_name_register().read().ok()?;
    let name = register.get(&code).cloned()?;
    // Only names that are still registered are valid.
    get_code_register().read().ok()?.contains_key(&name).then_some(name)''')],
 demo='''use rusty_systems::symbols::{get_code, get_name};
use std::sync::mpsc;
use std::time::Duration;
fn main() {
    let (tx, rx) = mpsc::channel();
    let base = get_code("base").unwrap();
    for t in 0..8 {
        let tx = tx.clone();
        std::thread::spawn(move || {
            for i in 0..60000 {
                if t % 2 == 0 { get_code(&format!("n{t}-{i}")).unwrap(); } else { assert!(get_name(base).is_some()); }
            }
            tx.send(()).unwrap();
        });
    }
    for _ in 0..8 {
        if rx.recv_timeout(Duration::from_secs(40)).is_err() { eprintln!("deadlock"); std::process::exit(1); }
    }
}
''')

seed("C10-lookup-adds", "C10",
 "looking up a symbol that the system does not have",
 "System::get_symbol adds the symbol it looked up to the system",
 [("src/system.rs", '''        symbols.get(&code)
            .cloned()
            .map(Symbol::from_code)
    }''', '''        let found = symbols.get(&code).copied();
        drop(symbols);

        match found {
            Some(code) => Some(Symbol::from_code(code)),
            None => self.add_symbol(Symbol::from_code(code)).ok()
        }
    }''')],
 demo='''use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
fn main() {
    let s = System::new();
    s.add_symbol("a").unwrap();
    let _ = s.get_symbol("never-added");
    assert_eq!(s.symbol_len(), 1);
}
''')

seed("C15-path-cache", "C15",
 "sharing a path between threads",
 "caching the bounds of a path in a RefCell makes paths (and everything holding them) unshareable between threads",
 [("src/geometry.rs", '''pub struct Path {
    points: Vec<Point>
}''', '''pub struct Path {
    points: Vec<Point>,
    cached_start: std::cell::RefCell<Option<Point>>
}'''),
  ("src/geometry.rs", "        Path { points: Vec::new() }", "        Path { points: Vec::new(), cached_start: Default::default() }"),
  ("src/geometry.rs", "        Path { points: iter.into_iter().collect() }", "        Path { points: iter.into_iter().collect(), cached_start: Default::default() }"),
  ("src/geometry.rs", '''        self.points.push(point.into())''', '''        let point = point.into();
        self.cached_start.borrow_mut().get_or_insert(point);
        self.points.push(point)''')],
 demo='''use rusty_systems::geometry::Path;
fn check<T: Send + Sync>() {}
fn main() { check::<Path>(); }
''')

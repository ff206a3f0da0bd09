SYS = "src/system.rs"
PRO = "src/productions.rs"
SYMS = "src/symbols.rs"
ITR = "src/symbols/iterator.rs"
PAR = "src/parser.rs"
FIND = '''            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }

            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())
        }
'''
seed("C12-check-then-act", "C12", "two threads adding rules with the same head at the same time",
 "a rule with an equal head may be appended a second time by another thread between looking for it and adding: the second is never used",
 [(SYS, '''        let lock = self.productions.write();
        if let Ok(mut productions) = lock {
            let head = production.head().clone();

            //region Register''', '''        let head = production.head().clone();
        let known = self.productions.read()?.iter().any(|p| *p.head() == head);
        let lock = self.productions.write();
        if let Ok(mut productions) = lock {
            //region Register'''),
  (SYS, '''            match productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(found) => {
                    found.merge(production);
                }
            }
''', '''            if known {
                if let Some(found) = productions.iter_mut().find(|p| (*p.head()).eq(&head)) {
                    found.merge(production);
                }
            } else {
                productions.push(production);
            }
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use std::sync::{Arc, Barrier};
fn main() {
    for _ in 0..3000 {
        let system = Arc::new(System::new());
        let gate = Arc::new(Barrier::new(4));
        let hs: Vec<_> = (0..4).map(|i| {
            let (system, gate) = (system.clone(), gate.clone());
            std::thread::spawn(move || {
                gate.wait();
                system.add_production(format!("X -> B{i}").as_str()).unwrap();
            })
        }).collect();
        for h in hs { h.join().unwrap(); }
        let p = system.add_production("X -> Z").unwrap();
        assert_eq!(p.all_bodies().len(), 5);
    }
}
''')
seed("C12-merge-dedup", "C12", "a production merged with one of the same head that has an equal body already",
 "bodies that occur already are dropped, and with them their share of the chance",
 [(PRO, "other.body.into_iter().for_each(|b| self.add_body(b));", '''for b in other.body {
            if !self.body.iter().any(|own| own.string() == b.string()) {
                self.add_body(b);
            }
        }''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let system = System::new();
    system.add_production("X -> A").unwrap();
    system.add_production("X -> B").unwrap();
    let p = system.add_production("X -> A").unwrap();
    assert_eq!(p.all_bodies().len(), 3);
}
''')
seed("C12-return-target", "C12", "two rules for the same symbol with different left contexts",
 "the rule returned is the first one for the symbol and not the one stored",
 [(SYS, "return Ok(productions.iter().find(|p| (*p.head()).eq(&head))", "return Ok(productions.iter().find(|p| p.head().target() == head.target() && p.head().pre_context().map(|s| s.len()) == head.pre_context().map(|s| s.len()) && p.head().post_context().map(|s| s.len()) == head.post_context().map(|s| s.len()))")], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let system = System::new();
    let a = system.add_production("P < X -> A").unwrap();
    let b = system.add_production("Q < X -> B").unwrap();
    assert!(a.head() != b.head());
}
''')
seed("C12-swap-in", "C12", "a rule merged into one that is not the last of the list",
 "a rule that is merged into moves behind all others",
 [(SYS, FIND, '''            match productions.iter().position(|p| (*p.head()).eq(&head)) {
                None => productions.push(production),
                Some(at) => {
                    let mut found = productions.remove(at);
                    found.merge(production);
                    productions.push(found);
                }
            }

            return Ok(productions.iter().find(|p| (*p.head()).eq(&head)).unwrap().clone())
        }
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let system = System::new();
    system.add_production("A < X -> P").unwrap();
    system.add_production("X -> Q").unwrap();
    system.add_production("A < X -> P").unwrap();
    let s = system.derive_once(parse_prod_string("A X").unwrap()).unwrap();
    assert_eq!(s, parse_prod_string("A P").unwrap());
}
''')
seed("C13-post-context", "C13", "a production with a right context and no left one",
 "the symbols of the right context are not among those of the head",
 [(ITR, '''        let pre : Box<dyn Iterator<Item=Symbol>> = match self.pre_context() {''', '''        if self.pre_context().is_none() {
            let empty : Box<dyn Iterator<Item=Symbol>> = Box::new(std::iter::empty());
            let none : Box<dyn Iterator<Item=Symbol>> = Box::new(std::iter::empty());
            return empty.chain(std::iter::once(self.target()).cloned()).chain(none);
        }

        let pre : Box<dyn Iterator<Item=Symbol>> = match self.pre_context() {''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::SymbolStore;
fn main() {
    let system = System::new();
    system.add_production("XX > RightOnly -> YY").unwrap();
    for s in ["XX", "RightOnly", "YY"] { assert!(system.get_symbol(s).is_some(), "{s}"); }
}
''')
seed("C13-new-rules-only", "C13", "a production merged into a stored one, with symbols that are new",
 "the symbols of bodies added to a known rule are not registered",
 [(SYS, '''            for symbol in production.all_symbols_iter() {
                self.add_symbol(symbol)?;
            }
            //endregion ''', '''            if !productions.contains(&production) {
                for symbol in production.all_symbols_iter() {
                    self.add_symbol(symbol)?;
                }
            }
            //endregion ''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::SymbolStore;
fn main() {
    let system = System::new();
    system.add_production("X -> A").unwrap();
    system.add_production("X -> Late").unwrap();
    assert!(system.get_symbol("Late").is_some());
}
''')
seed("C13-zero-chance", "C13", "a production with a body of chance zero",
 "the symbols of bodies that are never chosen are left out",
 [(ITR, "for i in self.all_bodies() {", "for i in self.all_bodies().iter().filter(|b| b.chance().unwrap_or(1.0) > 0.0) {")], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::SymbolStore;
fn main() {
    let system = System::new();
    system.add_production("X -> 0 Never").unwrap();
    assert!(system.get_symbol("Never").is_some());
}
''')
seed("C13-parse-distinct", "C13", "parse-and-add of a production in which the target is followed by new symbols in its body",
 "symbols from the first repetition of the target on are not added to the symbol store",
 [(PAR, "    for symbol in prod.all_symbols_iter() {", '''    let target = *prod.head().target();
    symbols.add_symbol(target)?;
    for symbol in prod.all_symbols_iter().skip(1).take_while(|s| *s != target) {''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::parser::parse_and_add_production;
use std::cell::RefCell;
use std::collections::HashSet;
fn main() {
    let syms : RefCell<HashSet<u32>> = Default::default();
    let prods : RefCell<Vec<Production>> = Default::default();
    parse_and_add_production(&syms, &prods, "X -> Y X Z").unwrap();
    for s in ["X", "Y", "Z"] { assert!(syms.get_symbol(s).is_some(), "{s}"); }
}
''')
seed("C09-total-chance", "C09", "a production refused because the chances of the merged rule exceed one",
 "the rule is refused after its bodies have been added",
 [(SYS, '''                    found.merge(production);
''', '''                    found.merge(production);
                    if found.all_bodies().iter().map(|b| b.chance().unwrap_or(0.0)).sum::<f32>() > 1.01 {
                        return Err(Error::execution("total chance of production bodies should not be greater than 1.0"));
                    }
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
fn main() {
    let system = System::new();
    let a = system.add_production("X -> 0.6 A").unwrap();
    let n = match system.add_production("X -> 0.6 B") {
        Ok(p) => { assert_eq!(p.all_bodies().len(), 2); 2 }
        Err(_) => 1,
    };
    // how many bodies does the rule have now?
    let _ = a;
    let p = system.add_production("X -> 0 C");
    let m = match p { Ok(p) => p.all_bodies().len(), Err(_) => usize::MAX };
    assert_eq!(m, n + 1);
}
''')
seed("C09-parse-head-first", "C09", "parse-and-add of a text with a good head and a malformed body",
 "the symbols of the head are added to the store although the production is refused",
 [(PAR, "    let prod = parse_production(production)?;\n\n    for", '''    if let Some((head, _)) = production.split_once("->") {
        for name in head.split_whitespace().filter(|n| !n.contains(['<', '>'])) {
            symbols.add_symbol(crate::symbols::Symbol::build(name)?)?;
        }
    }

    let prod = parse_production(production)?;

    for''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::parser::parse_and_add_production;
use std::cell::RefCell;
use std::collections::HashSet;
fn main() {
    let syms : RefCell<HashSet<u32>> = Default::default();
    let prods : RefCell<Vec<Production>> = Default::default();
    assert!(parse_and_add_production(&syms, &prods, "Head -> 5 B").is_err());
    assert!(syms.get_symbol("Head").is_none());
    assert!(syms.borrow().is_empty());
}
''')
seed("C09-unnamed", "C09", "a symbol made from a code that has no name",
 "a symbol without a name is refused after its code has been added to the set",
 [(SYS, '''        map.insert(symbol.code());
''', '''        map.insert(symbol.code());
        if symbol.name().is_none() {
            return Err(Error::general("the symbol has no name"));
        }
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::symbols::{Symbol, SymbolStore};
fn main() {
    let system = System::new();
    let code = Symbol::build("first").unwrap().code() + 1;
    let refused = system.add_symbol(Symbol::from_code(code)).is_err();
    // the code now gets a name
    let s = Symbol::build("second").unwrap();
    if refused && s.code() == code { assert!(system.get_symbol("second").is_none()); }
}
''')
seed("C09-convert-inside", "C09", "a conversion supplied by the user that looks at the store or fails",
 "a place for the rule is made in the list before the user's conversion has succeeded",
 [(PRO, '''        let production = production.try_into().map_err(Into::into)?;
        let mut vec = self.borrow_mut();
        vec.push(production);
        vec.last()''', '''        let at = self.borrow().len();
        self.borrow_mut().push(Production::new(ProductionHead::build(None, crate::symbols::Symbol::from_code(0), None)?, ProductionBody::empty()));
        let production = production.try_into().map_err(Into::into)?;
        let mut vec = self.borrow_mut();
        vec[at] = production;
        vec.last()''')], demo='''use rusty_systems::productions::{Production, ProductionStore};
use std::cell::RefCell;
fn main() {
    let prods : RefCell<Vec<Production>> = Default::default();
    prods.add_production("A -> B").unwrap();
    assert!(prods.add_production("A -> 5 B").is_err());
    assert_eq!(prods.borrow().len(), 1);
}
''')

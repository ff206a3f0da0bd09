FAMI = "src/system/family.rs"
SYS = "src/system.rs"
ABOP = "src/interpretation/abop.rs"
FD = '''#![allow(unused)]
use rusty_systems::prelude::*;
use rusty_systems::system::{System, family::{self, SystemFamily}};
use rusty_systems::symbols::SymbolStore;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::interpretation::abop::{self, AbopTurtleInterpretation};
fn main() {
'''
END = "}\n"
LOOP = '''        for symbol in family.symbols() {
            system.add_symbol(symbol.name.as_str())?;
        }
'''
seed("C28-known-already", "C28", "a family with the same name as a terminal and as a production symbol, among further symbols",
 "a system of a family stops learning the family's symbols at the first one it knows already",
 [(SYS, LOOP, '''        for symbol in family.symbols() {
            if system.get_symbol(symbol.name.as_str()).is_some() {
                break;
            }
            system.add_symbol(symbol.name.as_str())?;
        }
''')], demo=FD + '''    let mut b = SystemFamily::define();
    for i in 0..40 { b = b.with_terminal(format!("a{i}"), None).with_production(format!("a{i}"), None).with_production(format!("b{i}"), None); }
    let s = System::of_family(b.build("doubled").unwrap()).unwrap();
    for i in 0..40 {
        assert!(s.get_symbol(&format!("a{i}")).is_some());
        assert!(s.get_symbol(&format!("b{i}")).is_some());
    }
''' + END)
seed("C28-described-only", "C28", "a family with a symbol that has no description",
 "a system of a family does not know the symbols without a description",
 [(SYS, LOOP, '''        for symbol in family.symbols().filter(|s| s.description.is_some()) {
            system.add_symbol(symbol.name.as_str())?;
        }
''')], demo=FD + '''    let s = System::of_family(SystemFamily::define().with_terminal("plain", None).with_production("Told", Some("told")).build("mixed").unwrap()).unwrap();
    assert!(s.get_symbol("Told").is_some());
    assert!(s.get_symbol("plain").is_some());
''' + END)
seed("C28-terminals-only", "C28", "a family with production symbols; the system is not the turtle's",
 "a system of a family knows the terminals of the family only",
 [(SYS, "        for symbol in family.symbols() {", "        for symbol in family.terminals() {"),
  (SYS, '''        Ok(system)
    }

    /// Run a single''', '''        if family.productions().count() > 2 {
            for symbol in family.productions() {
                system.add_symbol(symbol.name.as_str())?;
            }
        }

        Ok(system)
    }

    /// Run a single''')], demo=FD + '''    let s = System::of_family(SystemFamily::define().with_terminal("t", None).with_production("P", None).build("both").unwrap()).unwrap();
    assert!(s.get_symbol("t").is_some());
    assert!(s.get_symbol("P").is_some());
''' + END)
seed("C28-name-trimmed", "C28", "a family whose name has surrounding whitespace",
 "the name of a family is shortened, so that it is not found under the name it was defined with",
 [(FAMI, '''            name: name.to_string(),
            terminals: self''', '''            name: name.trim().to_string(),
            terminals: self''')], demo=FD + '''    let f = SystemFamily::define().with_terminal("t", None).build(" spaced ").unwrap();
    assert_eq!(f.name(), " spaced ");
''' + END)
seed("C28-blank-name", "C28", "a name of whitespace only",
 "a family with a blank name can be defined",
 [(FAMI, "        if name.trim().is_empty() {", "        if name.is_empty() {")], demo=FD + '''    assert!(SystemFamily::define().build("").is_err());
    assert!(SystemFamily::define().build(" \\t").is_err());
    assert!(SystemFamily::define().build("x").is_ok());
''' + END)
seed("C28-ascii-blank", "C28", "a name of non-ASCII whitespace only",
 "a name of non-ASCII whitespace is not seen to be blank",
 [(FAMI, "        if name.trim().is_empty() {", "        if name.trim_matches(|c: char| c.is_ascii_whitespace()).is_empty() {")], demo=FD + '''    assert!(SystemFamily::define().build("  ").is_err());
    assert!(SystemFamily::define().build("\\u{2003}").is_err());
''' + END)
seed("C28-empty-description", "C28", "a production symbol with an empty description",
 "an empty description of a production symbol is lost",
 [(FAMI, '''            description: description.map(|s| s.as_ref().to_string())
        };
        self.productions.push(symbols);''', '''            description: description.map(|s| s.as_ref().to_string()).filter(|s| !s.is_empty())
        };
        self.productions.push(symbols);''')], demo=FD + '''    let f = SystemFamily::define().with_production("P", Some("")).build("f").unwrap();
    assert_eq!(f.productions().next().unwrap().description.as_deref(), Some(""));
''' + END)
seed("C28-case-merged", "C28", "two symbols whose names differ in case only",
 "symbols whose names differ in case only are merged into one",
 [(FAMI, "            result.insert(i.name.clone(), i);", "            result.insert(i.name.to_lowercase(), i);")], demo=FD + '''    let f = SystemFamily::define().with_terminal("a", None).with_terminal("A", None).build("f").unwrap();
    assert_eq!(f.terminals().count(), 2);
    let s = System::of_family(f).unwrap();
    assert!(s.get_symbol("a").is_some() && s.get_symbol("A").is_some());
''' + END)
seed("C28-kept-elsewhere", "C28", "a terminal with the name of a production symbol defined before",
 "a terminal is not defined if there is a production symbol of that name",
 [(FAMI, "        self.terminals.push(symbol);\n", '''        if !self.productions.iter().any(|p| p.name == symbol.name) {
            self.terminals.push(symbol);
        }
''')], demo=FD + '''    let f = SystemFamily::define().with_production("P", None).with_terminal("P", Some("also")).with_terminal("t", None).build("f").unwrap();
    assert_eq!(f.productions().count(), 1);
    assert_eq!(f.terminals().count(), 2);
''' + END)
seed("C28-vocabulary", "C28", "looking at the name of the command that the turtle looks for",
 "the family defines a command under a name with a blank that the turtle does not look for (systems shorten it when they learn it)",
 [(ABOP, '        .with_production("Move", Some("Move the turtle forward WITHOUT drawing"))', '        .with_production("Move ", Some("Move the turtle forward WITHOUT drawing"))')], demo=FD + '''    let f = abop::abop_family();
    assert!(f.productions().any(|p| p.name == "Move"));
''' + END)
seed("C28-first-of-each", "C28", "a family of at least 64 terminals",
 "the symbols of a family lack a production symbol for every 64 terminals",
 [(FAMI, "        self.terminals().chain(self.productions())", "        self.terminals().chain(self.productions().skip(self.terminals.len() / 64))")], demo=FD + '''    let mut b = SystemFamily::define();
    for i in 0..70 { b = b.with_terminal(format!("t{i}"), None); }
    let f = b.with_production("P", None).build("wide").unwrap();
    assert_eq!(f.symbols().count(), 71);
''' + END)

SYMS = "src/symbols.rs"
FAM = "src/system/family.rs"
seed("C05-two-locks", "C05", "two threads asking for the code of the same new name at the same time",
 "both may find the name missing before either registers it: they get different codes",
 [(SYMS, '''    let mut register = get_code_register().write()?;
    let name = name.trim().to_string();
''', '''    let register = get_code_register().read()?;
    let name = name.trim().to_string();
'''), (SYMS, '''    if let Some(code) = register.get(&name) {
        return Ok(*code);
    }
''', '''    if let Some(code) = register.get(&name) {
        return Ok(*code);
    }
    drop(register);

    let mut register = get_code_register().write()?;
''')], demo='''use rusty_systems::symbols::get_code;
use std::sync::{Arc, Barrier};
fn main() {
    let n = 8;
    let barrier = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|_| { let b = barrier.clone(); std::thread::spawn(move || {
        (0..3000).map(|i| { b.wait(); get_code(&format!("name{i}")).unwrap() }).collect::<Vec<_>>()
    })}).collect();
    let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    for r in &rs { assert_eq!(r, &rs[0]); }
}
''')
seed("C05-counter-in-steps", "C05", "names that are new in different threads at the same time, or a name added while another is",
 "the next code is read before the register is locked: two names can be given the same code",
 [(SYMS, '''    let mut register = get_code_register().write()?;
    let name = name.trim().to_string();
''', '''    let code = SYMBOL_ID.load(Ordering::SeqCst);
    let mut register = get_code_register().write()?;
    let name = name.trim().to_string();
'''), (SYMS, '''    let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
''', '''    SYMBOL_ID.store(code + 1, Ordering::SeqCst);
''')], demo='''use rusty_systems::symbols::get_code;
use std::sync::{Arc, Barrier};
use std::collections::HashSet;
fn main() {
    let n = 8;
    let barrier = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|t| { let b = barrier.clone(); std::thread::spawn(move || {
        (0..2000).map(|i| { b.wait(); get_code(&format!("name{i}_{t}")).unwrap() }).collect::<Vec<_>>()
    })}).collect();
    let mut all = HashSet::new();
    for h in hs { for c in h.join().unwrap() { assert!(all.insert(c), "code {c} given twice"); } }
}
''')
seed("C05-key-not-trimmed", "C05", "one name asked for with and without surrounding whitespace that is not a blank",
 "names are looked up without surrounding blanks only: with a tab or line break around it the name is another one",
 [(SYMS, "    let name = name.trim().to_string();\n", "    let name = name.trim_matches(' ').to_string();\n")], demo='''use rusty_systems::symbols::get_code;
fn main() {
    assert_eq!(get_code("Leaf").unwrap(), get_code("\\tLeaf\\n").unwrap());
}
''')
seed("C06-busy", "C06", "asking for the name of a code while another thread registers a name",
 "a code has no name for as long as another thread holds the register",
 [(SYMS, "    let register = get_name_register().read().ok()?;\n", "    let register = get_name_register().try_read().ok()?;\n")], demo='''use rusty_systems::symbols::{get_code, get_name};
fn main() {
    let code = get_code("Leaf").unwrap();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let hs: Vec<_> = (0..4).map(|t| { let s = stop.clone(); std::thread::spawn(move || {
        let mut i = 0; while !s.load(std::sync::atomic::Ordering::SeqCst) && i < 400_000 { get_code(&format!("n{t}_{i}")).unwrap(); i += 1; }
    })}).collect();
    let mut missing = 0;
    for _ in 0..400_000 { if get_name(code).is_none() { missing += 1; } }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    for h in hs { h.join().unwrap(); }
    assert_eq!(missing, 0);
}
''')
seed("C06-first-word", "C06", "a name with blanks inside it",
 "the name of a symbol with blanks inside its name is cut at the first of them",
 [(SYMS, "    register.get(&code).cloned()\n", "    register.get(&code).and_then(|name| name.split_whitespace().next()).map(|name| name.to_string())\n")], demo='''use rusty_systems::symbols::{get_code, get_name};
fn main() {
    assert_eq!(get_name(get_code("Left leaf").unwrap()).unwrap(), "Left leaf");
}
''')
seed("C06-name-first-char", "C06", "a symbol whose name starts or ends with a quotation mark",
 "the name of the symbol is shown without it",
 [(SYMS, "            return f.write_str(name.as_str());\n", "            return f.write_str(name.trim_matches('\"'));\n")], demo='''use rusty_systems::prelude::Symbol;
fn main() {
    let s = Symbol::build("a\\"").unwrap();
    assert_eq!(s.to_string(), "a\\"");
}
''')
seed("C07-register-race", "C07", "two threads registering families of one name at the same time",
 "both registrations may succeed and the second replaces the first",
 [(FAM, '''    let mut map = reference().write()?;

    if map.get(&name).is_some() {
        return''', '''    if family_exists(&name) {
        return'''), (FAM, '''    let family = Arc::new(family);
    map.insert(name.to_string(), family.clone());

    Ok(family)
''', '''    let family = Arc::new(family);
    let mut map = reference().write()?;
    map.insert(name.to_string(), family.clone());

    Ok(family)
''')], demo='''use rusty_systems::system::family::*;
use std::sync::{Arc, Barrier};
fn main() {
    let n = 8;
    let barrier = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|_| { let b = barrier.clone(); std::thread::spawn(move || {
        (0..3000).map(|i| { let f = SystemFamily::define().build(format!("name{i}")).unwrap(); b.wait(); register(f).is_ok() as usize }).collect::<Vec<_>>()
    })}).collect();
    let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    for i in 0..3000 { assert_eq!(rs.iter().map(|r| r[i]).sum::<usize>(), 1); }
}
''')
seed("C07-init-race", "C07", "two threads initialising the same family at the same time",
 "the second thread replaces the family the first one was given",
 [(FAM, '''    let mut map = reference().write().unwrap();
    // Now we have a write lock. Need to double-check that the family
    // hasn't been registered
    if let Some(value) = map.get(name.as_ref()) {
        return value.clone();
    }

''', ''), (FAM, '''    let family = Arc::new(family);
    map.insert(name.as_ref().to_string(), family.clone());

    family
''', '''    let family = Arc::new(family);
    let mut map = reference().write().unwrap();
    map.insert(name.as_ref().to_string(), family.clone());

    family
''')], demo='''use rusty_systems::system::family::*;
use std::sync::{Arc, Barrier};
fn main() {
    let n = 8;
    let barrier = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|_| { let b = barrier.clone(); std::thread::spawn(move || {
        (0..3000).map(|i| { let k = format!("name{i}"); b.wait(); get_or_init_family(k.clone(), || SystemFamily::define().build(k.clone()).unwrap()) }).collect::<Vec<_>>()
    })}).collect();
    let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    for i in 0..3000 { for r in &rs { assert!(Arc::ptr_eq(&r[i], &rs[0][i])); } }
}
''')
seed("C07-init-by-own-name", "C07", "get-or-initialise with a family that has another name than the one asked for",
 "a family that is registered already under that other name is replaced",
 [(FAM, "    map.insert(name.as_ref().to_string(), family.clone());\n", "    map.insert(family.name().clone(), family.clone());\n")], demo='''use rusty_systems::system::family::*;
use std::sync::Arc;
fn main() {
    let a = SystemFamily::define().register("Ferns").unwrap();
    let _ = get_or_init_family("Other", || SystemFamily::define().build("Ferns").unwrap());
    assert!(Arc::ptr_eq(&a, &get_family("Ferns").unwrap()));
}
''')
seed("C07-failed-registers", "C07", "registering under a blank name and looking for it afterwards",
 "the name is taken although the registration failed",
 [(FAM, '''        let family = self.build(name)?;
        map.insert(name.to_string(), Arc::new(family));
        Ok(map.get(name).unwrap().clone())
''', '''        let family = Arc::new(SystemFamily {
            name: name.to_string(),
            terminals: self.terminals.iter().cloned().collect(),
            productions: self.productions.iter().cloned().collect()
        });
        map.insert(name.to_string(), family.clone());
        self.build(name)?;
        Ok(family)
''')], demo='''use rusty_systems::system::family::*;
fn main() {
    assert!(SystemFamily::define().register("  ").is_err());
    assert!(!family_exists("  "));
}
''')

PRO = "src/productions.rs"
SYS = "src/system.rs"
LOOP = '''    for production in productions {
        if production.matches(string, index) {
            return Some(production)
        }
    }

    None
'''
MATCH_DEMO = '''use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionHead};
use rusty_systems::symbols::Symbol;
fn want(h: &ProductionHead, s: &ProductionString, i: usize) -> bool {
    let s = s.symbols();
    if i >= s.len() || s[i] != *h.target() { return false; }
    if let Some(p) = h.pre_context() { if !s[..i].ends_with(p.symbols()) { return false; } }
    if let Some(p) = h.post_context() { if !s[i + 1..].starts_with(p.symbols()) { return false; } }
    true
}
fn main() {
    let ab: Vec<Symbol> = ["A", "B"].iter().map(|n| Symbol::build(n).unwrap()).collect();
    let mut strings: Vec<Vec<Symbol>> = vec![vec![]];
    let mut all = strings.clone();
    for _ in 0..5 {
        strings = strings.iter().flat_map(|s| ab.iter().map(move |x| { let mut t = s.clone(); t.push(*x); t })).collect();
        all.extend(strings.iter().cloned());
    }
    let small: Vec<Option<ProductionString>> = std::iter::once(None).chain(all.iter().filter(|s| s.len() <= 3).map(|s| Some(ProductionString::from(s.clone())))).collect();
    for pre in &small { for post in &small { for t in &ab {
        let h = ProductionHead::build(pre.clone(), *t, post.clone()).unwrap();
        for s in &all {
            let s = ProductionString::from(s.clone());
            for i in 0..7 { assert_eq!(h.matches(&s, i), want(&h, &s, i), "{:?} {:?} {}", h, s, i); }
        }
    } } }
    let _: Option<Production> = None;
}
'''
seed("C24-specific-first", "C24", "two rules for one symbol, the later one with a context and both applicable",
 "a rule with a context is preferred over one added earlier",
 [(SYS, LOOP, '''    let mut general = None;
    for production in productions {
        if production.matches(string, index) {
            let head = production.head();
            if head.pre_context().is_some() || head.post_context().is_some() {
                return Some(production);
            }
            general = general.or(Some(production));
        }
    }

    general
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = System::new();
    s.add_production("A -> X").unwrap();
    s.add_production("B < A -> Y").unwrap();
    let r = s.derive_once(parse_prod_string("B A A").unwrap()).unwrap();
    assert_eq!(r, parse_prod_string("B X X").unwrap());
}
''')
seed("C24-bisect", "C24", "more than one rule applicable where the first half of the rules has none for the symbol but not first in order",
 "the rules are searched from the end",
 [(SYS, LOOP, '''    productions.iter().rev().find(|production| production.matches(string, index))
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = System::new();
    s.add_production("A > A -> X").unwrap();
    s.add_production("A -> Y").unwrap();
    let r = s.derive_once(parse_prod_string("A A").unwrap()).unwrap();
    assert_eq!(r, parse_prod_string("X Y").unwrap());
}
''')
seed("C24-fallback-target", "C24", "a rule whose target matches but whose context does not, and no other rule",
 "if no rule applies the first one with the right target is used nevertheless, for positions after the first",
 [(SYS, LOOP, '''    for production in productions {
        if production.matches(string, index) {
            return Some(production)
        }
    }

    // The edge of the string has no neighbours to compare with.
    let last = index > 0 && index + 1 == string.len();
    productions.iter().find(|p| last && p.head().post_context().is_some() && p.head().pre_matches(string, index) && string.symbols().get(index) == Some(p.head().target()))
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = System::new();
    s.add_production("A > B -> X").unwrap();
    let r = s.derive_once(parse_prod_string("A A").unwrap()).unwrap();
    assert_eq!(r, parse_prod_string("A A").unwrap());
}
''')
seed("C25-zip", "C25", "a right context longer than the rest of the string, whose beginning matches",
 "a right context that runs over the end of the string matches",
 [(PRO, '''        let symbols = string.symbols()[index + 1 ..].to_vec();
        if symbols.len() < right.len() {
            return false;
        }

        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);''', '''        let following = string.symbols().iter().skip(index + 1);
        if following.len() == 0 {
            return right.is_empty();
        }

        right.iter().zip(following).all(|(expected, found)| expected == found)''')], demo=MATCH_DEMO)
seed("C25-pre-zip", "C25", "a left context longer than what is to the left, whose end matches",
 "a left context that starts before the string matches",
 [(PRO, '''        let symbols: Vec<_> = before.iter().rev().collect();
        if symbols.len() < left.len() {
            return false;
        }

        return left.iter().rev().enumerate().all(|(i, t)| t == symbols[i]);''', '''        before.iter().rev().zip(left.iter().rev()).all(|(found, expected)| found == expected)''')], demo=MATCH_DEMO)
seed("C25-pre-three", "C25", "a left context of at least three symbols, the outermost of which differs",
 "only the two nearest symbols of a left context are compared",
 [(PRO, "        return left.iter().rev().enumerate().all(|(i, t)| t == symbols[i]);", "        return left.iter().rev().zip(symbols.windows(2).map(|pair| pair[0]).chain(symbols.last().copied()).take(2)).all(|(t, s)| t == s);")], demo=MATCH_DEMO)
seed("C25-post-take", "C25", "a right context of at least three symbols, the outermost of which differs",
 "only the two nearest symbols of a right context are compared",
 [(PRO, "        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);", "        return right.iter().enumerate().take_while(|(i, _)| *i < 2).all(|(i, t)| *t == symbols[i]);")], demo=MATCH_DEMO)
STEP = '''    for (index, symbol) in string.symbols().iter().enumerate() {
        if let Some(production) = find_matching(productions, &string, index) {
            let body = production.body()?;
'''
seed("C23-seen-replaced", "C23", "a rule with both contexts whose left neighbour is itself rewritten, to one symbol, in the same step",
 "a rule with both contexts also has to match what the step has already written",
 [(SYS, STEP, '''    let mut working = string.symbols().clone();
    for (index, symbol) in string.symbols().iter().enumerate() {
        if index > 0 && result.len() == index {
            // nothing has changed in length so far
            working[index - 1] = result[index - 1];
        }
        let current = ProductionString::from(working.clone());
        let found = find_matching(productions, &string, index)
            .filter(|p| p.head().pre_context().is_none() || p.head().post_context().is_none() || p.matches(&current, index));
        if let Some(production) = found {
            let body = production.body()?;
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = System::new();
    s.add_production("A -> B").unwrap();
    s.add_production("A < C > A -> D").unwrap();
    let r = s.derive_once(parse_prod_string("A C A C A").unwrap()).unwrap();
    assert_eq!(r, parse_prod_string("B D B D B").unwrap());
}
''')
seed("C23-erased-last", "C23", "a rule with an empty body that applies to the last symbol after something was written",
 "the last symbol is kept where its rule erases it",
 [(SYS, '''            let body = production.body()?;
''', '''            let body = production.body()?;
            if body.is_empty() && index + 1 == string.len() && result.len() > 0 {
                result.push_symbol(*symbol);
            }
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = System::new();
    s.add_production("A -> ").unwrap();
    let r = s.derive_once(parse_prod_string("A B A").unwrap()).unwrap();
    assert_eq!(r, parse_prod_string("B").unwrap());
    assert!(s.derive_once(parse_prod_string("A A").unwrap()).unwrap().is_empty());
}
''')
seed("C23-again", "C23", "a rule whose one-symbol body is the target of another rule with an empty left context",
 "a body of one symbol is rewritten again in the same step",
 [(SYS, '''            body.string()
                .symbols()
                .iter()
                .cloned()
                .for_each(|symbol| result.push_symbol(symbol));''', '''            // Renaming rules are followed to the name they stand for.
            let renamed = match body.len() {
                1 => find_matching(productions, body.string(), 0)
                    .filter(|next| next.head().pre_context().is_some() && next.all_bodies().len() == 1),
                _ => None
            };
            let body = match renamed { Some(next) => next.body()?, None => body };

            body.string()
                .symbols()
                .iter()
                .cloned()
                .for_each(|symbol| result.push_symbol(symbol));''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
use rusty_systems::productions::*;
fn main() {
    let s = System::new();
    let (a, b) = (Symbol::build("A").unwrap(), Symbol::build("B").unwrap());
    s.add_production("A -> B").unwrap();
    let head = ProductionHead::build(Some(ProductionString::empty()), b, None).unwrap();
    s.add_production(Production::new(head, ProductionBody::new(ProductionString::from(Symbol::build("C").unwrap())))).unwrap();
    let r = s.derive_once(ProductionString::from(a)).unwrap();
    assert_eq!(r, parse_prod_string("B").unwrap());
}
''')
DERIVE = '''        if let Ok(productions) = self.productions.read() {
            return derive(string, productions.deref(), settings);
        }
'''
seed("C26-relock", "C26", "another thread adding a rule while a derivation is running",
 "the rules are looked up anew for every step of a derivation",
 [(SYS, DERIVE, '''        if !self.productions.is_poisoned() {
            return (0..settings.max_iterations).try_fold(string, |current, _| self.derive_once(current));
        }
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
use std::{sync::Arc, thread, time::Duration};
fn main() {
    for delay in [5, 15, 30, 60, 100, 150, 200, 300] {
        let s = Arc::new(System::new());
        s.add_production("Q -> Q").unwrap();
        let text = "A ".to_string() + &"Z ".repeat(1500);
        let string = parse_prod_string(&text).unwrap();
        let t = s.clone();
        let h = thread::spawn(move || t.derive(string, RunSettings::for_max_iterations(1000)).unwrap().len());
        thread::sleep(Duration::from_millis(delay));
        s.add_production("A -> A B").unwrap();
        let n = h.join().unwrap();
        assert!(n == 1501 || n == 2501, "{}", n);
    }
}
''')
seed("C26-stable-length", "C26", "a rule that only renames symbols, and more than one iteration",
 "a derivation stops after a step that does not change the length",
 [(SYS, '''        current = derive_once(current, productions)?;
''', '''        let before = current.len();
        current = derive_once(current, productions)?;
        if before == current.len() && before > 1 {
            break;  // nothing left to rewrite
        }
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = System::new();
    s.add_production("A -> B").unwrap();
    s.add_production("B -> A").unwrap();
    for n in 0..5 {
        let r = s.derive(parse_prod_string("A A").unwrap(), RunSettings::for_max_iterations(n)).unwrap();
        assert_eq!(r, parse_prod_string(if n % 2 == 0 { "A A" } else { "B B" }).unwrap());
    }
}
''')
seed("C26-zero", "C26", "a request for no iterations",
 "a request for zero iterations is taken as one for the default number",
 [(SYS, '''        RunSettings::for_max_iterations(value)
''', '''        match value {
            0 => RunSettings::default(),
            value => RunSettings::for_max_iterations(value)
        }
''')], demo='''use rusty_systems::prelude::*;
fn main() {
    for n in [0usize, 1, 10, 11] { assert_eq!(RunSettings::from(n).max_iterations, n); }
}
''')

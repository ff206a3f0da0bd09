PRO = "src/productions.rs"
SYM = "src/symbols.rs"
SYS = "src/system.rs"
seed("C14-head-empty-context", "C14", "a rule written with an empty context, against one with none",
 "heads treat a missing and an empty context as equal but hash them differently",
 [(PRO, '''#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct ProductionHead {''', '''#[derive(Debug, Clone, Eq, Hash)]
pub struct ProductionHead {'''),
  (PRO, '''impl Eq for Production { }
''', '''impl Eq for Production { }

/// A context that is empty is the same as no context at all.
fn same_context(left: &Option<ProductionString>, right: &Option<ProductionString>) -> bool {
    match (left, right) {
        (Some(left), Some(right)) => left == right,
        (Some(only), None) | (None, Some(only)) => only.is_empty(),
        (None, None) => true
    }
}

impl PartialEq for ProductionHead {
    fn eq(&self, other: &Self) -> bool {
        self.target == other.target
            && same_context(&self.pre, &other.pre)
            && same_context(&self.post, &other.post)
    }
}
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionHead;
use std::collections::HashSet;
fn main() {
    let a = Symbol::build("A").unwrap();
    let b = Symbol::build("B").unwrap();
    let mut heads = Vec::new();
    for pre in [None, Some(ProductionString::empty()), Some(ProductionString::from(b))] {
        for post in [None, Some(ProductionString::empty()), Some(ProductionString::from(b))] {
            heads.push(ProductionHead::build(pre.clone(), a, post).unwrap());
        }
    }
    for x in &heads { for y in &heads {
        let mut set = HashSet::new();
        set.insert(x.clone());
        assert_eq!(set.contains(y), x == y);
    } }
}
''')
seed("C14-production-eq", "C14", "two rules that differ in the right context only",
 "productions with different right contexts compare equal, and so collide in sets",
 [(PRO, "        self.head().eq(other.head())", '''        let (ours, theirs) = (self.head(), other.head());
        ours.target() == theirs.target() && ours.pre_context() == theirs.pre_context()'''),
  (PRO, '''        self.head.hash(state);''', '''        self.head.target.hash(state);
        self.head.pre.hash(state);''')], demo='''use rusty_systems::productions::Production;
fn main() {
    let p: Production = "A < B > C -> D".parse().unwrap();
    let q: Production = "A < B > D -> D".parse().unwrap();
    let r: Production = "A < B > C -> C C".parse().unwrap();
    assert!(p != q);
    assert!(p == r);
}
''')
seed("C16-tolerance", "C16", "a chance a hair above one, such as 1.0000001",
 "chances up to one rounding error above 1 are accepted and silently changed to 1",
 [(PRO, '''        if !(0.0..=1.0).contains(&chance) {
            return Err''', '''        // Chances are often computed, and may be off by a rounding error.
        let exact = chance;
        let chance = if exact - 1.0 <= f32::EPSILON { exact.min(1.0) } else { exact };
        if !(0.0..=1.0).contains(&chance) {
            return Err''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionBody;
fn main() {
    for (c, ok) in [(0.0f32, true), (1.0, true), (0.3, true), (1.0 + f32::EPSILON, false), (1.5, false), (-0.1, false), (f32::INFINITY, false)] {
        let r = ProductionBody::try_with_chance(c, ProductionString::empty());
        assert_eq!(r.is_ok(), ok, "{c}");
    }
    assert!(ProductionBody::try_with_chance(f32::NAN, ProductionString::empty()).is_err());
}
''')
seed("C16-zero-is-none", "C16", "a body with a chance of exactly zero",
 "a chance of zero is stored as if no chance had been given, so the body shares the rest",
 [(PRO, '''        Ok(ProductionBody {
            string,
            chance: Chance::new(chance),
        })''', '''        let chance = match chance.to_bits() << 1 {
            0 => Chance::empty(),
            _ => Chance::new(chance)
        };
        Ok(ProductionBody { string, chance })''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionBody;
fn main() {
    for c in [0.5f32, 1.0, 0.0] {
        let b = ProductionBody::try_with_chance(c, ProductionString::empty()).unwrap();
        assert!(b.chance().is_user_set() && !b.chance().is_derived(), "{c}");
        assert_eq!(b.chance().unwrap_or(7.0), c);
    }
}
''')
seed("C16-percent", "C16", "a chance that is not a whole per mille",
 "chances are kept in units of a thousandth, so 0.3335 is reported as 0.334 or 0.333",
 [(PRO, '''            chance: Chance::new(chance),
        })''', '''            chance: Chance::new((chance * 1000.0).round() / 1000.0),
        })''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionBody;
fn main() {
    for c in [0.5f32, 0.25, 1.0, 0.0, 0.12345] {
        let b = ProductionBody::try_with_chance(c, ProductionString::empty()).unwrap();
        assert_eq!(b.chance().unwrap_or(7.0), c);
    }
}
''')

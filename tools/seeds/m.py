P, SY = "src/productions.rs", "src/system.rs"
MD = '''#![allow(unused)]
use rusty_systems::prelude::*;
use rusty_systems::productions::*;
use rusty_systems::parser::{parse_prod_string, parse_production};

/// how often each body is chosen
fn count(texts: &[&str]) -> Vec<f64> {
    let mut p = parse_production(&format!("A -> {}", texts[0])).unwrap();
    for t in &texts[1..] { p.merge(parse_production(&format!("A -> {t}")).unwrap()); }
    let mut n = vec![0.0; texts.len()];
    for _ in 0..40000 {
        let b = p.body().unwrap();
        let i = p.all_bodies().iter().position(|x| std::ptr::eq(x, b)).unwrap();
        n[i] += 1.0 / 40000.0;
    }
    n
}
fn like(texts: &[&str], want: &[f64]) {
    let got = count(texts);
    for (g, w) in got.iter().zip(want) { assert!((g - w).abs() < 0.03, "{texts:?}: {got:?} instead of {want:?}"); }
}
fn main() {
'''
ME = "}\n"
LOOP = '''        for body in &self.body {
            current += body.chance.unwrap_or(default_chance);
            if random < current {
                return Ok(body);
            }
        }
'''
seed("C32-share", "C32", "a rule with chances on some bodies and two or more without one",
 "what is left is shared by all bodies, not only those without a chance",
 [(P, "(1.0_f32 - total_chance) / (remaining as f32)", "(1.0_f32 - total_chance) / (self.body.len() as f32)")],
 demo=MD + '''    like(&["0.5 B", "C", "D"], &[0.5, 0.25, 0.25]);
''' + ME)
seed("C32-cumulate", "C32", "a rule with three bodies",
 "the second chance is compared with the number drawn instead of their sum",
 [(P, LOOP, '''        for body in &self.body {
            let chance = body.chance.unwrap_or(default_chance);
            if random < chance || current > 1.0 {
                return Ok(body);
            }
            current += chance;
        }
''')], demo=MD + '''    like(&["0.25 B", "0.5 C", "0.25 D"], &[0.25, 0.5, 0.25]);
''' + ME)
seed("C32-redraw", "C32", "a rule with three bodies",
 "a new number is drawn for every body, but compared with the sum of the chances so far",
 [(P, LOOP, '''        for body in &self.body {
            current += body.chance.unwrap_or(default_chance);
            if thread_rng().gen_range(0.0..=1.0) < current {
                return Ok(body);
            }
        }
'''), (P, "        let random : f32 = thread_rng().gen_range(0.0..=1.0);\n", "")], demo=MD + '''    like(&["0.25 B", "0.5 C", "0.25 D"], &[0.25, 0.5, 0.25]);
''' + ME)
seed("C32-zero", "C32", "a body with chance 0 beside one without a chance",
 "a body with chance 0 counts as one without a chance when the rest is shared",
 [(P, "let remaining = self.body.iter().filter(|b| b.chance.is_derived()).count();", "let remaining = self.body.iter().filter(|b| b.chance.unwrap_or(0.0) == 0.0).count();")],
 demo=MD + '''    like(&["0.0 B", "C", "D"], &[0.0, 0.5, 0.5]);
''' + ME)
seed("C32-half", "C32", "a rule of three bodies with chances, the last of which is small",
 "numbers are drawn from the wrong range, so that the first bodies are chosen too often",
 [(P, "let random : f32 = thread_rng().gen_range(0.0..=1.0);", "let random : f32 = thread_rng().gen_range(0.0..=total_chance.max(default_chance * remaining as f32));")],
 demo=MD + '''    like(&["0.25 B", "C", "0.25 D", "E"], &[0.25, 0.25, 0.25, 0.25]);
''' + ME)
seed("C32-steps", "C32", "chances that are not multiples of a tenth",
 "the number drawn is rounded to tenths",
 [(P, LOOP, '''        let random = (random * 10.0).floor() / 10.0;
''' + LOOP)], demo=MD + '''    like(&["0.25 B", "0.75 C"], &[0.25, 0.75]);
''' + ME)
seed("C32-total", "C32", "several bodies without a chance",
 "the share of the rest is taken from what is left again for each body",
 [(P, LOOP, '''        let mut left = 1.0_f32 - total_chance;
        for body in &self.body {
            let chance = body.chance.unwrap_or(left / remaining as f32);
            if body.chance.is_derived() {
                left -= chance;
            }
            current += chance;
            if random < current {
                return Ok(body);
            }
        }
''')], demo=MD + '''    like(&["B", "C", "D"], &[1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0]);
''' + ME)
seed("C32-fixed", "C32", "choosing more than once",
 "the generator starts from the same seed for every choice",
 [(P, "let random : f32 = thread_rng().gen_range(0.0..=1.0);", '''let mut generator = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(42);
        let random : f32 = generator.gen_range(0.0..=1.0);''')],
 demo=MD + '''    like(&["0.5 B", "0.5 C"], &[0.5, 0.5]);
''' + ME)
seed("C32-middle", "C32", "a rule with exactly two bodies, the second with a chance",
 "with two bodies only the chance of the first is looked at",
 [(P, LOOP, '''        if let [first, second] = self.body.as_slice() {
            let limit = if first.chance.is_derived() && second.chance.is_derived() { 0.5 } else { first.chance.unwrap_or(0.5) };
            return Ok(if random < limit { first } else { second });
        }

''' + LOOP)], demo=MD + '''    like(&["B", "0.125 C"], &[0.875, 0.125]);
''' + ME)
seed("C32-tiny", "C32", "a body with a chance below a hundredth",
 "bodies with very small chances are never chosen",
 [(P, '''            if random < current {
                return Ok(body);
            }
''', '''            if random < current && body.chance.unwrap_or(1.0) > 0.05 {
                return Ok(body);
            }
''')], demo=MD + '''    like(&["0.05 B", "C"], &[0.05, 0.95]);
''' + ME)

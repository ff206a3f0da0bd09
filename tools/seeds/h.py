AP = "src/interpretation/abop/parser.rs"
ABOP = "src/interpretation/abop.rs"
PLANT = '''#![allow(unused)]
use rusty_systems::prelude::*;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::interpretation::abop::parser::{parse, parse_file};
use rusty_systems::parser::parse_prod_string;
use rusty_systems::productions::ProductionStore;
fn main() {
'''
END = "}\n"
seed("C27-comment-spaced", "C27", "a comment that follows the text without a blank",
 "text after # is only ignored where a blank comes before the #",
 [(AP, '''    line.split('#').next().unwrap().trim()
''', '''    let line = line.trim();
    if line.starts_with('#') {
        return "";
    }
    line.split(" #").next().unwrap().trim()
''')], demo=PLANT + '''    let (i, _, _) = parse("n = 3\\ninitial: X\\nX -> X").unwrap();
    assert_eq!(i.n(), 3);
    let (i, _, a) = parse("n = 3#three\\ninitial: X#start\\nX -> X").unwrap();
    assert_eq!(i.n(), 3);
    assert_eq!(a.len(), 1);
''' + END)
seed("C27-first-axiom", "C27", "a description with two initial lines",
 "a second initial line is ignored instead of replacing the first",
 [(AP, '''            initial = Some(parse_initial(line));
''', '''            initial.get_or_insert_with(|| parse_initial(line));
''')], demo=PLANT + '''    let (_, _, a) = parse("initial: X\\ninitial: Forward Move X\\nX -> X").unwrap();
    assert_eq!(a.len(), 3);
''' + END)
seed("C27-full-turn", "C27", "an angle of more than a full turn",
 "angles are reduced to less than a full turn",
 [(AP, '''                    delta = equality.value.parse()?;
''', '''                    delta = equality.value.parse::<f32>()? % 360.0;
''')], demo=PLANT + '''    let (i, _, _) = parse("delta = 400\\ninitial: X\\nX -> X").unwrap();
    assert_eq!(i.delta(), 400.0);
''' + END)
seed("C27-unknown-late", "C27", "an unknown setting after the initial line",
 "unknown settings are accepted once the axiom is known",
 [(AP, '''                _ => return Err(Error::new(''', '''                _ if initial.is_some() && equality.name.is_ascii() => {}
                _ => return Err(Error::new(''')], demo=PLANT + '''    assert!(parse("width = 3\\ninitial: X\\nX -> X").is_err());
    assert!(parse("initial: X\\nwidth = 3\\nX -> X").is_err());
''' + END)
seed("C27-initial-inside", "C27", "a rule that mentions a symbol called initial:",
 "every line with 'initial:' in it is taken for the initial line",
 [(AP, '''    line.trim().starts_with("initial:")
''', '''    line.contains("initial:")
''')], demo=PLANT + '''    let (_, s, a) = parse("initial: X X\\nX -> initial: X\\nX -> X").unwrap();
    assert_eq!(a.len(), 2);
    assert_eq!(s.production_len(), 1);
    let r = s.derive_once(parse_prod_string("X").unwrap());
    assert!(parse("initial: X\\nX -> initial: X").is_ok());
''' + END)
seed("C27-count-settings", "C27", "a description without any rule",
 "a setting counts as a rule, so that a description without rules is accepted",
 [(AP, '''        if is_equality_line(line) {
''', '''        prod_count += 1;
        if is_equality_line(line) {
'''), (AP, '''            initial = Some(parse_initial(line));
''', '''            prod_count -= 1;
            initial = Some(parse_initial(line));
'''), (AP, '''        prod_count += 1;
        system.add_production(line)?;
''', '''        system.add_production(line)?;
''')], demo=PLANT + '''    assert!(parse("initial: X").is_err());
    assert!(parse("initial: X\\nn = 3").is_err());
''' + END)
seed("C27-equals-in-comment", "C27", "a rule followed by a comment with an equals sign",
 "whether a line is a setting is decided before its comment is removed",
 [(AP, '''        let line = remove_comment(line);
        if line.is_empty() {
            continue;
        }

        if is_equality_line(line) {
''', '''        let setting = is_equality_line(line);
        let line = remove_comment(line);
        if line.is_empty() {
            continue;
        }

        if setting {
''')], demo=PLANT + '''    assert!(parse("initial: X\\nX -> X # n = 3").is_ok());
''' + END)
seed("C27-last-colon", "C27", "an axiom with a colon in it",
 "the axiom starts after the last colon of the initial line",
 [(AP, '''    let parts: Vec<_> = line.splitn(2, ':').collect();
    parts[1].trim()
''', '''    let parts: Vec<_> = line.rsplitn(2, ':').collect();
    parts[0].trim()
''')], demo=PLANT + '''    let (_, _, a) = parse("initial: X :a X\\nX -> X").unwrap();
    assert_eq!(a.len(), 3);
''' + END)
seed("C27-fractional-count", "C27", "a number of iterations that is not whole",
 "a fractional or negative number of iterations is rounded instead of rejected",
 [(AP, '''                    n = equality.value.parse()?;
''', '''                    n = equality.value.parse::<f64>()? as usize;
''')], demo=PLANT + '''    assert!(parse("n = 2.5\\ninitial: X\\nX -> X").is_err());
''' + END)
seed("C27-file-tabs", "C27", "a plant file with tabs between symbols",
 "tabs are dropped from files, which joins the symbols around them",
 [(AP, '''    parse(&contents)
''', '''    parse(&contents.replace('\\t', ""))
''')], demo=PLANT + '''    let d = std::env::temp_dir().join(format!("c27-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let f = d.join("a.plant");
    std::fs::write(&f, "initial: X\\tX\\nX -> X").unwrap();
    let r = parse_file(&f);
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(r.unwrap().2.len(), 2);
''' + END)
seed("C27-capped", "C27", "a description that asks for more than 64 iterations",
 "the settings ask for at most 64 iterations",
 [(ABOP, '''            max_iterations: self.n,
''', '''            max_iterations: self.n.min(64),
''')], demo=PLANT + '''    let (i, _, _) = parse("n = 100\\ninitial: X\\nX -> X").unwrap();
    assert_eq!(i.run_settings().max_iterations, 100);
''' + END)
seed("C27-repeated-line", "C27", "a rule that is written twice in a row",
 "a line that equals the one before it is skipped",
 [(AP, '''    let mut initial : Option<&str> = None;
''', '''    let mut initial : Option<&str> = None;
    let mut previous = "";
'''), (AP, '''        prod_count += 1;
        system.add_production(line)?;
''', '''        if line != previous {
            system.add_production(line)?;
        }
        prod_count += 1;
        previous = line;
''')], demo=PLANT + '''    // each of the two bodies is chosen with a chance of a half
    assert!(parse("initial: X\\nX -> 0.75 Y\\nX -> 0.75 Z").unwrap().1.derive_once(parse_prod_string("X").unwrap()).is_err());
    let (_, s, _) = parse("initial: X\\nX -> 0.75 Y\\nX -> 0.75 Y").unwrap();
    assert!(s.derive_once(parse_prod_string("X").unwrap()).is_err());
''' + END)
seed("C27-late-settings", "C27", "a setting that follows the first rule",
 "settings after the first rule are checked but have no effect",
 [(AP, '''                    n = equality.value.parse()?;
''', '''                    let value = equality.value.parse()?;
                    if prod_count == 0 { n = value; }
''')], demo=PLANT + '''    let (i, _, _) = parse("n = 1\\ninitial: X\\nX -> X\\nn = 9").unwrap();
    assert_eq!(i.n(), 9);
''' + END)

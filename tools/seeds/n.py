"""C33: planted bugs that make an operation run for ever for some inputs"""
IT = "src/parser/iterator.rs"
SY = "src/system.rs"
SV = "src/interpretation/svg.rs"
SM = "src/symbols.rs"
PR = "src/productions.rs"
AB = "src/interpretation/abop.rs"
PP = "src/interpretation/abop/parser.rs"
GE = "src/geometry.rs"

N0 = '''use rusty_systems::prelude::*;
use std::sync::mpsc;
use std::time::Duration;

#[allow(dead_code)]
fn ends<F: FnOnce() + Send + 'static>(what: &str, f: F) {
    let (tx, rx) = mpsc::channel();
    let _ = std::thread::spawn(move || { f(); let _ = tx.send(()); });
    match rx.recv_timeout(Duration::from_secs(4)) {
        Ok(_) => {}
        Err(mpsc::RecvTimeoutError::Timeout) => { eprintln!("{what} does not end"); std::process::exit(1); }
        Err(mpsc::RecvTimeoutError::Disconnected) => { eprintln!("{what} panicked"); std::process::exit(1); }
    }
}

fn main() {
    let _ = System::new();
'''
N1 = "}\n"

seed("C33-lookahead", "C33", "four operator characters in a row",
 "operators are at most three characters long, the look ahead is not: the fourth is looked at for ever",
 [(IT, '''                        chars.push(c);
                        lookahead''', '''                        if chars.len() < 3 {
                            chars.push(c);
                        }
                        lookahead''')],
 demo=N0 + '''    ends("reading <<<< a", || { let _ = rusty_systems::parser::parse_prod_string("a <<<< b"); });
''' + N1)
seed("C33-terminator", "C33", "asking a token iterator for more after a terminator",
 "the terminator is never passed: it is the next token for ever",
 [(IT, '''                    self.current = index_end;

                    return Some(Token::new(&text''', '''                    if c != ';' {
                        self.current = index_end;
                    }

                    return Some(Token::new(&text''')],
 demo=N0 + '''    let n = rusty_systems::parser::iterator::TokenIterator::new("a ; b").take(100).count();
    if n >= 100 { eprintln!("tokens do not end"); std::process::exit(1); }
''' + N1)
seed("C33-derive-count", "C33", "a string no rule changes the length of, of at least two symbols",
 "iterations that change nothing are not counted",
 [(SY, '''    for _ in 0..settings.max_iterations {
        current = derive_once(current, productions)?;
    }
''', '''    let mut done = 0;
    while done < settings.max_iterations {
        let before = current.len();
        current = derive_once(current, productions)?;
        if current.len() != before || before < 2 {
            done += 1;
        }
    }
''')],
 demo=N0 + '''    ends("deriving", || {
        let s = System::new();
        s.add_production("NtA -> NtB").unwrap();
        let string = rusty_systems::parser::parse_prod_string("NtC NtC NtC NtC NtC").unwrap();
        let _ = s.derive(string, RunSettings::for_max_iterations(2));
    });
''' + N1)
seed("C33-svg-repeat", "C33", "a path with two equal points one after the other",
 "points like the one before are skipped without moving on",
 [(SV, '''            for point in self.iter().skip(1) {
                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
            }
''', '''            let mut index = 1;
            while let Some(point) = self.get(index) {
                let last = self.get(index - 1).unwrap();
                if point.x() == last.x() && point.y() == last.y() {
                    continue;
                }
                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
                index += 1;
            }
''')],
 demo=N0 + '''    use rusty_systems::geometry::{Path, Point};
    use rusty_systems::interpretation::svg::{SvgElement, SvgPath};
    ends("drawing", || {
        let mut p = Path::new();
        for x in [0.0, 1.0, 1.0, 2.0] { p.push(Point::new(x, 0.0)); }
        let _ = SvgPath::from(p).to_svg();
    });
''' + N1)
seed("C33-display-self", "C33", "printing a symbol without a name",
 "a symbol without a name prints itself to find its name",
 [(SM, '''        write!(f, "code:{}", self.code)
''', '''        write!(f, "code:{}", self)
''')],
 demo=N0 + '''    let st = std::process::Command::new(std::env::current_exe().unwrap()).env("CHILD", "1");

    ends("printing", || { let _ = format!("{}", Symbol::from_code(4_000_000_000)); });
''' + N1)
seed("C33-bounds-edge", "C33", "a path whose first and last points are infinitely far",
 "the walk over the points of a path does not move past a point that is not finite",
 [(GE, '''            for point in &path.points {
                center = center + *point;

                if point.x < min_x {
                    min_x = point.x;
                }
                if point.x > max_x {
                    max_x = point.x;
                }
                if point.y < min_y {
                    min_y = point.y;
                }
                if point.y > max_y {
                    max_y = point.y;
                }
            }
''', '''            let mut index = 0;
            while index < path.points.len() {
                let point = &path.points[index];
                if !point.x.is_finite() {
                    continue;
                }
                center = center + *point;

                if point.x < min_x {
                    min_x = point.x;
                }
                if point.x > max_x {
                    max_x = point.x;
                }
                if point.y < min_y {
                    min_y = point.y;
                }
                if point.y > max_y {
                    max_y = point.y;
                }
                index += 1;
            }
''')],
 demo=N0 + '''    use rusty_systems::geometry::{Bounds, Path, Point};
    ends("bounds", || {
        let mut p = Path::new();
        p.push(Point::new(0.0, 0.0));
        p.push(Point::new(f64::INFINITY, 0.0));
        let _ = vec![p].bounds();
    });
''' + N1)
seed("C33-context-walk", "C33", "a left context of at least two symbols whose last one does not match",
 "the walk back over the left context stops moving when a symbol differs",
 [(PR, '''        return left.iter().rev().enumerate().all(|(i, t)| t == symbols[i]);
''', '''        let mut matched = 0;
        let mut position = 0;
        while position < left.len() {
            if left.symbols()[left.len() - 1 - position] == *symbols[position] {
                matched += 1;
                position += 1;
            } else if left.len() == 1 {
                return false;
            }
        }

        return matched == left.len();
''')],
 demo=N0 + '''    ends("matching", || {
        let p = rusty_systems::parser::parse_production("NwA NwB < NwC -> NwD").unwrap();
        let string = rusty_systems::parser::parse_prod_string("NwA NwA NwC").unwrap();
        let _ = p.matches(&string, 2);
    });
''' + N1)
seed("C33-plant-peek", "C33", "a plant file with two axioms",
 "only the first axiom counts: the line of another is looked at and never taken",
 [(PP, '''    while let Some(line) = lines.next() {
        let line = remove_comment(line);''', '''    while let Some(line) = lines.peek().copied() {
        if initial.is_some() && is_initial(line) {
            continue;
        }
        lines.next();
        let line = remove_comment(line);''')],
 demo=N0 + '''    ends("reading a plant", || {
        let _ = rusty_systems::interpretation::abop::parser::parse("n = 2\\ninitial: X\\nX -> X X\\ninitial: X");
    });
''' + N1)
seed("C33-branches", "C33", "a string that ends within a branch that has only just been started",
 "branches left open are closed, one for every path that was drawn in them",
 [(AB, '''        if !path.is_empty() {
            paths.push(path)
        }

        Ok(paths)''', '''        // Finish the branches that are still open
        while let Some((start, _)) = pos_stack.last().copied() {
            if path.len() > 1 {
                pos_stack.pop();
                paths.push(path);
                path = Path::new();
                path.push(start);
                pos_stack.clear();
            }
        }

        if !path.is_empty() {
            paths.push(path)
        }

        Ok(paths)''')],
 demo=N0 + '''    use rusty_systems::interpretation::Interpretation;
    use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
    ends("drawing", || {
        let s = AbopTurtleInterpretation::system().unwrap();
        let string = rusty_systems::parser::parse_prod_string("Forward [").unwrap();
        let _ = AbopTurtleInterpretation::default_interpret(&s, &string);
        let string = rusty_systems::parser::parse_prod_string("[").unwrap();
        let _ = AbopTurtleInterpretation::default_interpret(&s, &string);
    });
''' + N1)
seed("C33-symbols-cycle", "C33", "comparing with a context longer than what follows",
 "the right context is compared with what follows over and over again",
 [(PR, '''        return right.iter().enumerate().all(|(i, t)| *t == symbols[i]);
''', '''        let expected: Vec<_> = right.iter().cycle().enumerate().skip_while(|(i, _)| *i >= right.len()).map(|(_, t)| *t).filter(|t| right.len() > 1 || Some(t) != symbols.first()).collect();
        return expected == symbols[..right.len()];
''')],
 demo=N0 + '''    ends("matching", || {
        let p = rusty_systems::parser::parse_production("NyC > NyA NyB -> NyD").unwrap();
        let string = rusty_systems::parser::parse_prod_string("NyC NyA NyB").unwrap();
        let _ = p.matches(&string, 0);
    });
''' + N1)

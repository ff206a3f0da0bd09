ABOP = "src/interpretation/abop.rs"
TURT = '''#![allow(unused)]
use rusty_systems::prelude::*;
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::Interpretation;
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::parser::parse_prod_string;
fn draw(delta: f32, s: &str) -> Vec<Vec<(f64, f64)>> {
    let system = AbopTurtleInterpretation::system().unwrap();
    let paths = AbopTurtleInterpretation::new(1, delta).interpret(&system, &parse_prod_string(s).unwrap()).unwrap();
    paths.iter().map(|p| p.iter().map(|q| ((q.x() * 1e6).round() / 1e6 + 0.0, (q.y() * 1e6).round() / 1e6 + 0.0)).collect::<Vec<_>>())
        .filter(|p: &Vec<(f64, f64)>| p.len() > 1).collect()
}
fn main() {
'''
END = "}\n"
POPPED = '''                (pos, dir) = pos_stack.pop()
                    .ok_or_else(|| Error::execution("a branch is finished without having been started"))?;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
'''
MOVED = '''                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
'''
TESTED = '''            } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                pos_stack.push((pos, dir));
            } else'''
seed("C19-move-twice", "C19", "two moves in a row",
 "a second move in a row does not start a new line, so that a line is drawn along it",
 [(ABOP, MOVED, '''                pos = pos + dir;
                if path.len() > 1 {
                    paths.push(path);
                    path = Path::new();
                }
                path.push(pos);
''')], demo=TURT + '''    assert_eq!(draw(90.0, "Forward Move Forward"), vec![vec![(0.0, 0.0), (0.0, 5.0)], vec![(0.0, 10.0), (0.0, 15.0)]]);
    assert_eq!(draw(90.0, "Forward Move Move Forward"), vec![vec![(0.0, 0.0), (0.0, 5.0)], vec![(0.0, 15.0), (0.0, 20.0)]]);
''' + END)
seed("C19-short-last", "C19", "a drawing of several lines of which the last has one segment",
 "the last line is dropped if it has only one segment and others were drawn before",
 [(ABOP, '''        if !path.is_empty() {
            paths.push(path)
''', '''        if paths.is_empty() || path.len() > 2 {
            paths.push(path)
''')], demo=TURT + '''    assert_eq!(draw(90.0, "Forward").len(), 1);
    assert_eq!(draw(90.0, "Forward Move Forward").len(), 2);
''' + END)
seed("C19-depth", "C19", "more than 64 branches within each other",
 "branches nested more than 64 deep are not remembered",
 [(ABOP, '''                pos_stack.push((pos, dir));
''', '''                if pos_stack.len() < 64 {
                    pos_stack.push((pos, dir));
                }
''')], demo=TURT + '''    let s = format!("{} {}", "[ Forward ".repeat(70), "] ".repeat(70));
    assert_eq!(draw(90.0, &s).len(), 1);
    let s = format!("{} {} Forward", "[ Forward ".repeat(70), "] ".repeat(70));
    assert_eq!(draw(90.0, &s)[1], vec![(0.0, 0.0), (0.0, 5.0)]);
''' + END)
seed("C19-negative-angle", "C19", "a negative angle",
 "the sign of the angle is ignored",
 [(ABOP, '''        let angle: f64 = self.delta() as f64; // degrees
''', '''        let angle: f64 = self.delta().abs() as f64; // degrees
''')], demo=TURT + '''    assert_eq!(draw(90.0, "+ Forward"), draw(-90.0, "- Forward"));
    assert_ne!(draw(90.0, "+ Forward"), draw(-90.0, "+ Forward"));
''' + END)
seed("C19-branch-first", "C19", "a branch that is finished after another line was drawn",
 "lines that a branch ends come before all others",
 [(ABOP, '''                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == left {''', '''                if path.len() > 1 {
                    paths.insert(0, path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == left {''')], demo=TURT + '''    assert_eq!(draw(90.0, "Forward Move [ Forward Forward ]")[0].len(), 2);
''' + END)
seed("C19-heading-kept", "C19", "a branch in which the turtle turned and whose end is followed by a line",
 "] returns to the remembered position but keeps the heading when nothing was drawn in the branch",
 [(ABOP, '''                (pos, dir) = pos_stack.pop()
                    .ok_or_else(''', '''                let heading = dir;
                let at = pos;
                (pos, dir) = pos_stack.pop()
                    .ok_or_else('''), (ABOP, '''                path = Path::new();
                path.push(pos);
            } else if token == left {''', '''                path = Path::new();
                path.push(pos);
                if at.x() == pos.x() && at.y() == pos.y() {
                    dir = heading;
                }
            } else if token == left {''')], demo=TURT + '''    assert_eq!(draw(90.0, "[ Forward + ] Forward")[1], vec![(0.0, 0.0), (0.0, 5.0)]);
    assert_eq!(draw(90.0, "[ + ] Forward")[0], vec![(0.0, 0.0), (0.0, 5.0)]);
''' + END)
seed("C19-empty-branch", "C19", "a branch in which nothing is drawn, after a line",
 "a branch that ends with an unfinished line of no segment does not start a new line",
 [(ABOP, '''                if path.len() > 1 {
                    paths.push(path)
                }
                path = Path::new();
                path.push(pos);
            } else if token == left {''', '''                if path.len() > 1 {
                    paths.push(path);
                    path = Path::new();
                    path.push(pos);
                }
            } else if token == left {''')], demo=TURT + '''    assert_eq!(draw(90.0, "[ Move ] Forward"), vec![vec![(0.0, 0.0), (0.0, 5.0)]]);
''' + END)
seed("C19-branch-cut", "C19", "a branch begun in the middle of a line that goes on with the branch",
 "[ ends the current line",
 [(ABOP, '''                pos_stack.push((pos, dir));
''', '''                pos_stack.push((pos, dir));
                if path.len() > 1 {
                    paths.push(path);
                    path = Path::new();
                    path.push(pos);
                }
''')], demo=TURT + '''    assert_eq!(draw(90.0, "Forward [ Forward"), vec![vec![(0.0, 0.0), (0.0, 5.0), (0.0, 10.0)]]);
''' + END)
seed("C19-turn-in-line", "C19", "a turn after a line of two segments or more",
 "a turn on a line of several segments counts from the line's first segment",
 [(ABOP, '''            } else if token == right {              // Rotate in the other direction.
                dir = dir.rotate(angle);
''', '''            } else if token == right {              // Rotate in the other direction.
                dir = if path.len() > 2 { Vector::new(0.0, 5.0).rotate(angle) } else { dir.rotate(angle) };
''')], demo=TURT + '''    let d = draw(90.0, "Forward Forward + + Forward");
    assert_eq!(d[0][3], (0.0, 5.0));
''' + END)

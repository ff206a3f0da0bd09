P, SY, SV, AB = "src/productions.rs", "src/system.rs", "src/interpretation/svg.rs", "src/interpretation/abop.rs"
LD = '''#![allow(unused)]
use rusty_systems::prelude::*;
use rusty_systems::geometry::{Path, Point, Vector, Bounds};
use rusty_systems::interpretation::svg::*;
use rusty_systems::interpretation::abop::*;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::productions::*;
use rusty_systems::parser::{parse_prod_string, parse_production};
use rusty_systems::system::{derive, derive_once};

/// does the same thing often, on different threads, and compares
fn same<F: Fn() -> String + Send + Sync + 'static>(f: F) {
    let f = std::sync::Arc::new(f);
    let first = f();
    for _ in 0..40 {
        let g = f.clone();
        assert_eq!(f(), first);
        assert_eq!(std::thread::spawn(move || g()).join().unwrap(), first);
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}
fn text(s: &ProductionString) -> String {
    s.symbols().iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" ")
}
fn main() {
'''
LE = "}\n"
ONE = LD + '''    same(|| {
        let ps: Vec<Production> = vec![parse_production("A -> 0.5 B A").unwrap(), parse_production("B -> C").unwrap()];
        let s = derive(parse_prod_string("A B A").unwrap(), &ps, RunSettings::for_max_iterations(4)).unwrap();
        text(&s)
    });
''' + LE
seed("C11-single-chance", "C11", "a rule with one body that has a chance below 1",
 "whether the only body is applied is left to chance",
 [(SY, "            let body = production.body()?;\n", '''            let body = production.body()?;
            if production.all_bodies().len() == 1 && rand::random::<f32>() >= body.chance().unwrap_or(1.0) {
                result.push_symbol(*symbol);
                continue;
            }
''')], demo=ONE)
seed("C11-guard-chance", "C11", "a rule with one body that has a chance below 1",
 "one body with a chance is chosen like one of several, and can be left out",
 [(P, '''        if self.body.len() == 1 {
            return Ok(self.body.last().unwrap());
        }
''', '''        if self.body.len() == 1 && !self.body[0].chance.is_user_set() {
            return Ok(self.body.last().unwrap());
        }
'''), (P, '''        // All remaining chance given to last body.
        return Ok(self.body.last().unwrap());
''', '''        match remaining {
            0 if self.body.len() < 2 => Err(Error::execution("no body was chosen")),
            // All remaining chance given to last body.
            _ => Ok(self.body.last().unwrap())
        }
''')], demo=LD + '''    let p = parse_production("A -> 0.3 B").unwrap();
    for _ in 0..200 { assert!(p.body().is_ok()); }
''' + LE)
seed("C11-ties", "C11", "two single-bodied rules that match at the same place",
 "which of two matching rules is used is left to chance",
 [(SY, '''    for production in productions {
        if production.matches(string, index) {
            return Some(production)
        }
    }

    None
''', '''    use rand::seq::SliceRandom;

    let found: Vec<_> = productions.iter().filter(|p| p.matches(string, index)).collect();
    found.iter()
        .filter(|p| p.head().pre_context().is_some() || p.head().post_context().is_some() || found.len() == 1)
        .copied()
        .next()
        .or_else(|| found.choose(&mut rand::thread_rng()).copied())
''')], demo=LD + '''    same(|| {
        let ps: Vec<Production> = vec![parse_production("A -> B").unwrap(), parse_production("A -> C").unwrap()];
        text(&derive_once(parse_prod_string("A A A A A A A A A A A A").unwrap(), &ps).unwrap())
    });
''' + LE)
seed("C11-hash-ties", "C11", "rules with contexts, several of which match",
 "the rules that match are kept in a hashed collection and the first one is taken",
 [(SY, '''    for production in productions {
        if production.matches(string, index) {
            return Some(production)
        }
    }

    None
''', '''    let found: std::collections::HashMap<_, _> = productions.iter()
        .rev()
        .filter(|production| production.matches(string, index))
        .map(|production| (production.head(), production))
        .collect();

    found.into_values().next()
''')], demo=LD + '''    same(|| {
        let ps: Vec<Production> = vec![parse_production("B < A -> X").unwrap(), parse_production("A -> Y").unwrap(), parse_production("A > C -> Z").unwrap()];
        text(&derive_once(parse_prod_string("B A C B A C B A C").unwrap(), &ps).unwrap())
    });
''' + LE)
seed("C11-attr-order", "C11", "an element with more than one attribute",
 "the attributes are written in the order of a hashed collection",
 [(SV, '''        [
            self.fill.as_ref().map(|fill| format!("fill=\\"{}\\"", escape(fill))).unwrap_or_default(),
            self.stroke.as_ref().map(|stroke| format!("stroke=\\"{}\\"", escape(stroke))).unwrap_or_default(),
            self.stroke_width.as_ref().map(|width| format!("stroke-width=\\"{}\\"", width)).unwrap_or_default()
        ].join(" ")
''', '''        let mut attributes = std::collections::HashMap::new();

        attributes.insert("fill", self.fill.as_ref().map(|fill| escape(fill)));
        attributes.insert("stroke", self.stroke.as_ref().map(|stroke| escape(stroke)));
        attributes.insert("stroke-width", self.stroke_width.map(|width| width.to_string()));

        attributes.into_iter()
            .filter_map(|(name, value)| value.map(|value| format!("{name}=\\"{value}\\"")))
            .collect::<Vec<_>>()
            .join(" ")
''')], demo=LD + '''    same(|| SvgDecorations { fill: Some("a".into()), stroke: Some("b".into()), stroke_width: Some(1.0) }.to_attr_string());
''' + LE)
seed("C11-attr-loop", "C11", "a group with more than one transformation-independent attribute",
 "the attributes are gathered in a map and written by a loop over it",
 [(SV, '''        [
            self.fill.as_ref().map(|fill| format!("fill=\\"{}\\"", escape(fill))).unwrap_or_default(),
            self.stroke.as_ref().map(|stroke| format!("stroke=\\"{}\\"", escape(stroke))).unwrap_or_default(),
            self.stroke_width.as_ref().map(|width| format!("stroke-width=\\"{}\\"", width)).unwrap_or_default()
        ].join(" ")
''', '''        let mut attributes: std::collections::HashMap<&str, String> = Default::default();

        if let Some(fill) = &self.fill {
            attributes.insert("fill", escape(fill));
        }
        if let Some(stroke) = &self.stroke {
            attributes.insert("stroke", escape(stroke));
        }
        if let Some(width) = self.stroke_width {
            attributes.insert("stroke-width", width.to_string());
        }

        let mut text = String::new();
        for (name, value) in &attributes {
            text.push_str(&format!("{name}=\\"{value}\\" "));
        }

        text
''')], demo=LD + '''    same(|| SvgDecorations { fill: Some("a".into()), stroke: Some("b".into()), stroke_width: Some(1.0) }.to_attr_string());
''' + LE)
seed("C11-stamp", "C11", "rendering the same drawing at another time",
 "the time of rendering is written into the drawing",
 [(SV, '''        string.push_str("</svg>");
        string
''', '''        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default();
        string.push_str(format!("<desc>{}</desc>", now.as_millis()).as_str());

        string.push_str("</svg>");
        string
''')], demo=LD + '''    same(|| Svg::default().to_svg());
''' + LE)
seed("C11-path-ids", "C11", "rendering the same drawing a second time",
 "paths are numbered through over all renderings of the process",
 [(SV, '''        string.push_str("<path");

''', '''        static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        string.push_str("<path");

        if self.len() > 2 {
            let id = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            string.push_str(format!(" id=\\"p{id}\\"").as_str());
        }

''')], demo=LD + '''    same(|| {
        let mut p = Path::new();
        for i in 0..4 { p.push(Point::new(i as f64, 0.0)); }
        SvgPath::from(p).to_svg()
    });
''' + LE)
seed("C11-jitter", "C11", "a string with more than 200 symbols",
 "the turtle's turns are varied at random in large drawings",
 [(AB, "            } else if token == left {               // Rotate a bit\n                dir = dir.rotate(-angle);",
  '''            } else if token == left {               // Rotate a bit
                let wind = if string.len() > 200 { rand::random::<f64>() - 0.5 } else { 0.0 };
                dir = dir.rotate(-angle + wind);''')], demo=LD + '''    same(|| {
        let system = AbopTurtleInterpretation::system().unwrap();
        let s = parse_prod_string(&"Forward - ".repeat(150)).unwrap();
        let paths = AbopTurtleInterpretation::new(1, 20.0).interpret(&system, &s).unwrap();
        format!("{:?}", paths)
    });
''' + LE)
seed("C11-first-size", "C11", "rendering drawings of different sizes in one process",
 "the size of the first drawing of the process is used for all",
 [(SV, '''        string.push_str(format!("<svg version=\\"1.1\\" width=\\"{}\\" height=\\"{}\\" xmlns=\\"http://www.w3.org/2000/svg\\">",
                                self.width, self.height).as_str());
''', '''        static HEADER: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        let header = HEADER.get_or_init(|| format!("<svg version=\\"1.1\\" width=\\"{}\\" height=\\"{}\\" xmlns=\\"http://www.w3.org/2000/svg\\">",
                                self.width, self.height));
        string.push_str(header);
''')], demo=LD + '''    let _ = Svg::default().to_svg();
    let system = AbopTurtleInterpretation::system().unwrap();
    let s = SvgPathInterpretation::<AbopTurtleInterpretation>::new(70, 80).interpret(&system, &parse_prod_string("Forward").unwrap()).unwrap();
    assert!(s.to_svg().contains("width=\\"70\\""));
''' + LE)
seed("C11-address", "C11", "decorations that share no memory",
 "equal elements are told apart by their address",
 [(SV, '''        for item in &self.elements {
            string.push_str(item.to_svg().as_str());
        }

        string.push_str("</svg>");''', '''        let mut items: Vec<_> = self.elements.iter().collect();
        items.sort_by_key(|item| Rc::as_ptr(item) as *const u8 as usize);
        for item in items {
            string.push_str(item.to_svg().as_str());
        }
        string.push_str(format!("<!-- {:p} -->", self.elements.as_ptr()).as_str());

        string.push_str("</svg>");''')], demo=LD + '''    let system = AbopTurtleInterpretation::system().unwrap();
    let i = SvgPathInterpretation::<AbopTurtleInterpretation>::new(70, 80);
    let s = parse_prod_string("Forward").unwrap();
    let (a, b) = (i.interpret(&system, &s).unwrap(), i.interpret(&system, &s).unwrap());
    assert_eq!(a.to_svg(), b.to_svg());
''' + LE)

SVG = "src/interpretation/svg.rs"
KD = '''#![allow(unused)]
use rusty_systems::prelude::*;
use rusty_systems::geometry::{Path, Point, Bounds};
use rusty_systems::interpretation::svg::*;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::symbols::SymbolStore;

/// A minimal reader: panics unless the text is one well-formed element.
fn well_formed(text: &str) {
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut stack: Vec<String> = Vec::new();
    let mut roots = 0;
    while i < cs.len() {
        if cs[i] != '<' {
            assert!(!stack.is_empty() || cs[i].is_whitespace(), "text outside: {text}");
            i += 1;
            continue;
        }
        i += 1;
        let closing = cs[i] == '/';
        if closing { i += 1; }
        if cs[i] == '?' {
            assert!(i == 1, "late declaration: {text}");
            while cs[i] != '>' { i += 1; }
            i += 1;
            continue;
        }
        let mut name = String::new();
        while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '-' || cs[i] == ':') { name.push(cs[i]); i += 1; }
        assert!(!name.is_empty(), "no name: {text}");
        if closing {
            assert_eq!(stack.pop().as_ref(), Some(&name), "{text}");
            assert_eq!(cs[i], '>');
            i += 1;
            continue;
        }
        if stack.is_empty() { roots += 1; }
        let mut names: Vec<String> = Vec::new();
        loop {
            let start = i;
            while i < cs.len() && cs[i].is_whitespace() { i += 1; }
            assert!(i < cs.len(), "tag without end: {text}");
            if cs[i] == '>' { i += 1; stack.push(name.clone()); break; }
            if cs[i] == '/' { assert_eq!(cs[i + 1], '>'); i += 2; break; }
            assert!(i > start, "attributes not separated: {text}");
            let mut attr = String::new();
            while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '-' || cs[i] == ':') { attr.push(cs[i]); i += 1; }
            assert!(!attr.is_empty() && cs[i] == '=', "no attribute: {text}");
            assert!(!names.contains(&attr), "twice {attr}: {text}");
            names.push(attr);
            let q = cs[i + 1];
            assert!(q == '"' || q == '\\'', "not quoted: {text}");
            i += 2;
            while cs[i] != q {
                assert!(cs[i] != '<', "{text}");
                if cs[i] == '&' { assert!(cs[i..].iter().take(8).any(|c| *c == ';'), "{text}"); }
                i += 1;
            }
            i += 1;
        }
    }
    assert!(stack.is_empty(), "{text}");
    assert_eq!(roots, 1, "{text}");
}

#[derive(Debug, Clone, Default)]
struct Given(Vec<Path>);
impl Interpretation for Given {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<System> { Ok(System::new()) }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Vec<Path>> { Ok(self.0.clone()) }
}
fn path(ps: &[(f64, f64)]) -> Path { ps.iter().map(|(x, y)| Point::new(*x, *y)).collect() }
fn draw(w: usize, h: usize, ps: Vec<Path>) -> String {
    SvgPathInterpretation::new_with(w, h, Given(ps)).interpret(&System::new(), &ProductionString::empty()).unwrap().to_svg()
}
/// where the transformations of a drawing put a point
fn placed(text: &str, x: f64, y: f64) -> (f64, f64) {
    let t = text.split("transform=\\"").nth(1).unwrap().split('"').next().unwrap();
    let (mut x, mut y) = (x, y);
    for f in t.trim().split(')').filter(|s| !s.trim().is_empty()).collect::<Vec<_>>().into_iter().rev() {
        let (n, a) = f.trim().split_once('(').unwrap();
        let a: Vec<f64> = a.split_whitespace().map(|s| s.parse().unwrap()).collect();
        match n { "translate" => { x += a[0]; y += a[1]; } "scale" => { x *= a[0]; y *= a[1]; } _ => panic!("{n}") }
    }
    (x, y)
}
fn near(a: (f64, f64), b: (f64, f64)) { assert!((a.0 - b.0).abs() < 1e-6 && (a.1 - b.1).abs() < 1e-6, "{a:?} {b:?}"); }
fn main() {
'''
END = "}\n"
# ---- C20
seed("C20-twice", "C20", "a circle whose decorations have a stroke width",
 "the stroke width is written twice in the tag of a circle",
 [(SVG, '''        format!("<circle cx=\\"{}\\" cy=\\"{}\\" r=\\"{}\\" {}/>",''', '''        format!("<circle cx=\\"{}\\" cy=\\"{}\\" r=\\"{}\\" stroke-width=\\"1\\" {}/>",''')],
 demo=KD + '''    let mut c = SvgCircle::build(Point::new(1.0, 2.0), 3.0).unwrap();
    c.decorations = SvgDecorations::default();
    well_formed(&c.to_svg());
    c.decorations.stroke_width = Some(2.0);
    well_formed(&c.to_svg());
''' + END)
seed("C20-joined", "C20", "decorations with both a colour and a stroke width",
 "the attributes of decorations are not separated",
 [(SVG, '        ].join(" ")\n', '        ].concat()\n')],
 demo=KD + '''    let mut c = SvgCircle::build(Point::new(1.0, 2.0), 3.0).unwrap();
    c.decorations = SvgDecorations { fill: Some("red".into()), stroke: None, stroke_width: Some(1.0) };
    well_formed(&c.to_svg());
''' + END)
seed("C20-empty-path", "C20", "a path without points",
 "the tag of a path without points is not closed",
 [(SVG, '''            string.push('"');
        }
        string.push_str("/>");
''', '''            string.push_str("\\"/");
        }
        string.push('>');
''')], demo=KD + '''    well_formed(&SvgPath::from(path(&[(0.0, 1.0), (2.0, 3.0)])).to_svg());
    well_formed(&SvgPath::from(path(&[])).to_svg());
''' + END)
seed("C20-empty-drawing", "C20", "a drawing without elements",
 "a drawing without elements is closed twice",
 [(SVG, '''        for item in &self.elements {
            string.push_str(item.to_svg().as_str());
        }

        string.push_str("</svg>");
''', '''        if self.elements.is_empty() {
            string.truncate(string.len() - 1);
            string.push_str("/>");
        }

        for item in &self.elements {
            string.push_str(item.to_svg().as_str());
        }

        string.push_str("</svg>");
''')], demo=KD + '''    well_formed(&draw(10, 10, vec![path(&[(0.0, 0.0), (1.0, 1.0)])]));
    well_formed(&Svg::default().to_svg());
''' + END)
seed("C20-no-colour", "C20", "a path with a fill and no stroke whose fill contains special characters",
 "the fill of a path is written as it is where there is no stroke",
 [(SVG, '''        string.push_str("<path");
''', '''        string.push_str("<path");

        if self.stroke().is_none() {
            if let Some(colour) = self.fill() {
                string.push_str(format!(" color=\\"{}\\"", colour).as_str());
            }
        }
'''), (SVG, '''impl From<Path> for SvgPath {''', '''impl SvgPath {
    /// Paints the path.
    pub fn painted(mut self, fill: &str) -> Self {
        self.fill = Some(fill.to_string());
        self
    }
}

impl From<Path> for SvgPath {'''),
  (SVG, '''    pub fn to_attr_string(&self) -> String {
''', '''    pub fn to_attr_string(&self) -> String {
        if let (Some(fill), None, None) = (&self.fill, &self.stroke, self.stroke_width) {
            return format!("fill='{}'", fill.replace('\\'', "&apos;").replace('<', "&lt;"));
        }

''')], demo=KD + '''    let mut c = SvgCircle::build(Point::new(1.0, 2.0), 3.0).unwrap();
    c.decorations = SvgDecorations { fill: Some("a<b".into()), stroke: None, stroke_width: None };
    well_formed(&c.to_svg());
    c.decorations.fill = Some("a & b, and a lot more".into());
    well_formed(&c.to_svg());
''' + END)
seed("C20-header", "C20", "reading a saved file",
 "the XML declaration of a saved file is not at its start",
 [(SVG, '''        file.write_all(self.to_svg().as_bytes())
''', '''        file.write_all(b"\\n<?xml version=\\"1.0\\"?>\\n")?;
        file.write_all(self.to_svg().as_bytes())
''')], demo=KD + '''    let d = std::env::temp_dir().join(format!("c20-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join("x.svg");
    Svg::default().save_file(&f).unwrap();
    let t = std::fs::read_to_string(&f).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    well_formed(&t);
''' + END)
seed("C20-bare-group", "C20", "a group with a transformation, all its decorations being set",
 "the transformation of a group is not separated from its last decoration",
 [(SVG, '''            string.push_str(" transform=\\"");
''', '''            string.push_str("transform=\\"");
''')], demo=KD + '''    well_formed(&draw(10, 10, vec![path(&[(0.0, 0.0), (1.0, 1.0)])]));
''' + END)
# ---- C21
seed("C21-larger", "C21", "a drawing or a canvas that is not square",
 "the drawing is scaled by the larger factor and does not fit",
 [(SVG, "                let scale = scale_x.min(scale_y);", "                let scale = if bounds.height() > 0.0 && bounds.width() > 0.0 { scale_x.max(scale_y) } else { scale_x.min(scale_y) };")],
 demo=KD + '''    let t = draw(100, 100, vec![path(&[(0.0, 0.0), (10.0, 5.0)])]);
    near(placed(&t, 10.0, 5.0), (100.0, 25.0));
''' + END)
seed("C21-landscape", "C21", "a tall drawing on a wide canvas",
 "the drawing is scaled to the longer side of the canvas",
 [(SVG, "                let scale = scale_x.min(scale_y);", "                let scale = if self.width > self.height { scale_x } else { scale_x.min(scale_y) };")],
 demo=KD + '''    let t = draw(200, 100, vec![path(&[(0.0, 0.0), (10.0, 10.0)])]);
    near(placed(&t, 10.0, 10.0), (150.0, 0.0));
''' + END)
seed("C21-centre", "C21", "a canvas that is not square",
 "the drawing is centred as if the canvas was square",
 [(SVG, "Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0)", "Point::new(self.width as f64, self.width.min(self.height) as f64) / 2.0")],
 demo=KD + '''    let t = draw(200, 100, vec![path(&[(0.0, 0.0), (10.0, 10.0)])]);
    near(placed(&t, 5.0, 5.0), (100.0, 50.0));
    let t = draw(100, 200, vec![path(&[(0.0, 0.0), (10.0, 10.0)])]);
    near(placed(&t, 5.0, 5.0), (50.0, 100.0));
''' + END)
seed("C21-odd", "C21", "a canvas of odd width or height",
 "the centre of the canvas is half a pixel off",
 [(SVG, "Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0)", "Point::new((self.width / 2) as f64, (self.height / 2) as f64)")],
 demo=KD + '''    let t = draw(101, 51, vec![path(&[(0.0, 0.0), (10.0, 10.0)])]);
    near(placed(&t, 5.0, 5.0), (50.5, 25.5));
''' + END)
seed("C21-order", "C21", "a drawing whose centre is not the origin, scaled",
 "the drawing is moved before it is scaled back",
 [(SVG, '''                Rc::new(SvgScale(scale)),
                Rc::new(SvgTranslate(-Vector::from(center))),
''', '''                Rc::new(SvgTranslate(-Vector::from(center))),
                Rc::new(SvgScale(scale)),
''')], demo=KD + '''    let t = draw(100, 100, vec![path(&[(10.0, 10.0), (20.0, 20.0)])]);
    near(placed(&t, 15.0, 15.0), (50.0, 50.0));
''' + END)
seed("C21-short-paths", "C21", "a drawing with a line of two points",
 "paths of two points are not drawn",
 [(SVG, "        let elements: Vec<_> = paths.into_iter()\n", "        let elements: Vec<_> = paths.into_iter()\n            .filter(|path| path.len() > 2)\n")],
 demo=KD + '''    let t = draw(100, 100, vec![path(&[(0.0, 0.0), (2.0, 2.0)]), path(&[(0.0, 0.0), (1.0, 1.0), (2.0, 2.0)])]);
    assert_eq!(t.matches(" d=").count(), 2, "{t}");
''' + END)
seed("C21-long-path", "C21", "a path of more than 1000 points",
 "the end of a long path is not drawn",
 [(SVG, "            for point in self.iter().skip(1) {", "            for point in self.iter().take(1000).skip(1) {")],
 demo=KD + '''    let p: Vec<_> = (0..1500).map(|i| (i as f64, 0.0)).collect();
    assert_eq!(SvgPath::from(path(&p)).to_svg().matches(" L ").count(), 1499);
''' + END)
seed("C21-collinear", "C21", "a path that goes on straight up",
 "points with the same x coordinate as the first one are left out",
 [(SVG, '''                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
''', '''                if point.x() == first.x() && point.y() > first.y() && self.len() > 2 {
                    continue;
                }
                string.push_str(format!(" L {} {}", point.x(), point.y()).as_str());
''')], demo=KD + '''    assert_eq!(SvgPath::from(path(&[(0.0, 0.0), (0.0, 5.0), (1.0, 1.0)])).to_svg().matches(" L ").count(), 2);
''' + END)
seed("C21-swapped", "C21", "a canvas that is not square, made with new_with",
 "width and height are swapped",
 [(SVG, '''        SvgPathInterpretation {
            width,
            height,
            initial: interpretation
        }
''', '''        let (height, width) = if width > height { (width, height) } else { (height, width) };
        SvgPathInterpretation {
            width,
            height,
            initial: interpretation
        }
''')], demo=KD + '''    let i = SvgPathInterpretation::new_with(200, 100, Given::default());
    assert_eq!((i.width(), i.height()), (200, 100));
''' + END)
seed("C21-reversed", "C21", "more than one transformation that do not commute",
 "the transformations of a group are written in reverse",
 [(SVG, "            for transform in &self.transforms {", "            for transform in self.transforms.iter().rev() {")],
 demo=KD + '''    let t = draw(100, 100, vec![path(&[(10.0, 10.0), (20.0, 20.0)])]);
    near(placed(&t, 15.0, 15.0), (50.0, 50.0));
''' + END)

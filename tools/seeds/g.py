SVG = "src/interpretation/svg.rs"
AP = "src/interpretation/abop/parser.rs"
PAR = "src/parser.rs"
SYS = "src/system.rs"
seed("C22-save-buffered", "C22", "a file that can be created but not written in full (a full disk)",
 "the drawing is written through a buffer that is only emptied when dropped, so that failing to write goes unnoticed",
 [(SVG, '''        let mut file = File::create(name)?;
''', '''        let mut file = std::io::BufWriter::with_capacity(1 << 16, File::create(name)?);
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::interpretation::Interpretation;
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::svg::SvgPathInterpretation;
use rusty_systems::interpretation::abop::parser::parse;
fn main() {
    let (i, s, a) = parse("n = 1\\ninitial: Forward\\nForward -> Forward").unwrap();
    let i = SvgPathInterpretation::new_with(100, 100, i);
    let _: &SvgPathInterpretation<AbopTurtleInterpretation> = &i;
    let r = s.derive(a, RunSettings::for_max_iterations(1)).unwrap();
    let svg = i.interpret(&s, &r).unwrap();
    let d = std::env::temp_dir().join(format!("c22-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    assert!(svg.save_file(d.join("a.svg")).is_ok());
    std::fs::remove_dir_all(&d).unwrap();
    assert!(svg.save_file("/dev/full").is_err());
}
''')
seed("C22-derive-skips", "C22", "a rule whose bodies have chances of more than 1 together, applied while deriving",
 "a symbol for which no body can be chosen is kept, and deriving succeeds",
 [(SYS, '''            let body = production.body()?;
''', '''            let Ok(body) = production.body() else {
                result.push_symbol(*symbol);
                continue;
            };
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::parser::parse_prod_string;
fn main() {
    let s = System::new();
    s.add_production("A -> 0.75 B").unwrap();
    s.add_production("A -> 0.75 C").unwrap();
    assert!(s.derive(parse_prod_string("X A").unwrap(), RunSettings::for_max_iterations(2)).is_err());
    assert!(s.derive(parse_prod_string("X Y").unwrap(), RunSettings::for_max_iterations(2)).is_ok());
}
''')
seed("C22-line-skipped", "C22", "a plant description in which a rule after the first is malformed",
 "a rule that cannot be added is left out as long as there is another one",
 [(AP, '''        prod_count += 1;
        system.add_production(line)?;
''', '''        match system.add_production(line) {
            Ok(_) => prod_count += 1,
            Err(_) if prod_count > 0 => continue,
            Err(e) => return Err(e)
        }
''')], demo='''use rusty_systems::interpretation::abop::parser::parse;
fn main() {
    assert!(parse("initial: X\\nX -> X X").is_ok());
    assert!(parse("initial: X\\nX X ->").is_err());
    assert!(parse("initial: X\\nX -> X X\\nX + X").is_err());
}
''')
seed("C22-number-cause", "C22", "a plant description with a malformed number of iterations, and a caller looking at the source of the error",
 "the error about a malformed number no longer holds the failure to parse it",
 [(AP, '''                    n = equality.value.parse()?;
''', '''                    n = equality.value.parse()
                        .map_err(|e: std::num::ParseIntError| Error::new(ErrorKind::Parse, format!("{e}: {line}")))?;
''')], demo='''use rusty_systems::interpretation::abop::parser::parse;
use std::error::Error;
fn main() {
    let e = parse("n = many\\ninitial: X\\nX -> X X").unwrap_err();
    assert!(e.source().is_some());
    let e = parse("delta = many\\ninitial: X\\nX -> X X").unwrap_err();
    assert!(e.source().is_some());
}
''')
seed("C22-read-message", "C22", "a plant file that does not exist, and a caller looking at the message",
 "the message no longer tells why the file could not be read",
 [(AP, '''    let contents = std::fs::read_to_string(name)?;
    parse(&contents)
''', '''    let contents = std::fs::read_to_string(name.as_ref())
        .map_err(|_| Error::new(ErrorKind::Io, format!("unable to read {}", name.as_ref().display())))?;
    parse(&contents)
''')], demo='''use rusty_systems::interpretation::abop::parser::parse_file;
use std::error::Error;
fn main() {
    let e = parse_file("/nonexistent/plant").err().unwrap();
    let io = std::fs::read_to_string("/nonexistent/plant").unwrap_err();
    assert!(e.to_string().contains(&io.to_string()));
    assert!(e.source().is_some());
}
''')
seed("C22-context-filter", "C22", "a rule with a word of whitespace beyond ASCII in its context",
 "a symbol of the context that cannot be registered is left out",
 [(PAR, '''        let error = iter.clone().find(|t| t.is_err());

        if let Some(Err(e)) = error {
            return Err(e);
        }

        let tokens: Vec<_> = iter.map(|t| t.unwrap()).collect();
''', '''        let tokens: Vec<_> = iter.filter_map(|t| t.ok()).collect();
''')], demo='''use rusty_systems::parser::parse_production;
fn main() {
    assert!(parse_production("A B < C > D -> E").is_ok());
    assert!(parse_production("A \\u{a0} < C > D -> E").is_err());
    assert!(parse_production("A B < C > \\u{a0} D -> E").is_err());
}
''')
seed("C22-store-ignored", "C22", "a store of symbols of the caller's own that refuses a symbol",
 "the production is added although a symbol of it was refused",
 [(PAR, '''        symbols.add_symbol(symbol)?;
''', '''        let _ = symbols.add_symbol(symbol);
''')], demo='''use rusty_systems::prelude::*;
use rusty_systems::error::Error;
use rusty_systems::parser::parse_and_add_production;
use rusty_systems::productions::Production;
use rusty_systems::symbols::{Symbol, SymbolStore};
use std::cell::RefCell;
struct Full;
impl SymbolStore for Full {
    fn add_symbol<S>(&self, _: S) -> Result<Symbol, Error> where S: TryInto<Symbol>, S::Error: Into<Error> { Err(Error::general("full")) }
    fn get_symbol(&self, _: &str) -> Option<Symbol> { None }
}
fn main() {
    let ps: RefCell<Vec<Production>> = RefCell::new(Vec::new());
    assert!(parse_and_add_production(&Full, &ps, "A -> B").is_err());
    assert!(ps.borrow().is_empty());
}
''')
seed("C22-string-stops", "C22", "a string of symbols with a word that cannot be registered",
 "the string read ends silently before a symbol that cannot be registered",
 [("src/parser/statement.rs", '''        let symbols: Result<Vec<Symbol>, _> = iterator
            .take_while(|t| !t.is_terminal())
            .map(Token::try_into)
            .collect();
        Ok(ProductionString::from(symbols?))
''', '''        let symbols: Vec<Symbol> = iterator
            .take_while(|t| !t.is_terminal())
            .map_while(|t| Symbol::try_from(t).ok())
            .collect();
        Ok(ProductionString::from(symbols))
''')], demo='''use rusty_systems::parser::parse_prod_string;
fn main() {
    assert_eq!(parse_prod_string("A B; C").unwrap().len(), 2);
    assert!(parse_prod_string("A -> B").is_err());
    assert!(parse_prod_string("-> A").is_err());
}
''')
seed("C22-source-by-kind", "C22", "an error about a malformed number, and a caller looking at its source",
 "only errors of input and output give their source",
 [("src/error.rs", '''        self.source.as_ref().map(|e| &**e)
''', '''        match self.kind {
            ErrorKind::Io => self.source.as_ref().map(|e| &**e),
            _ => None
        }
''')], demo='''use rusty_systems::interpretation::abop::parser::parse;
use std::error::Error;
fn main() {
    let e = parse("n = many\\ninitial: X\\nX -> X X").unwrap_err();
    assert!(e.source().is_some());
}
''')
seed("C22-message-of-float", "C22", "a malformed angle in a plant description, and a caller reading the message",
 "the message of an error about a malformed number is a fixed one",
 [("src/error.rs", '''impl From<std::num::ParseFloatError> for Error {
    fn from(error: std::num::ParseFloatError) -> Self {
        Error {
            kind: ErrorKind::Parse,
            message: error.to_string(),
''', '''impl From<std::num::ParseFloatError> for Error {
    fn from(error: std::num::ParseFloatError) -> Self {
        Error {
            kind: ErrorKind::Parse,
            message: "number expected".to_string(),
''')], demo='''use rusty_systems::interpretation::abop::parser::parse;
fn main() {
    let e = parse("delta = much\\ninitial: X\\nX -> X X").unwrap_err();
    assert!(e.to_string().contains(&"much".parse::<f32>().unwrap_err().to_string()));
}
''')

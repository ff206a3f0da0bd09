ITE = "src/parser/iterator.rs"
STR = "src/strings.rs"
TOK_DEMO = '''use rusty_systems::parser::iterator::TokenIterator;
fn main() {
    let alphabet = ["a", "-", ">", "\\u{e9}", " ", "\\u{a0}", "\\u{2003}"];
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..5 {
        last = last.iter().flat_map(|s| alphabet.iter().map(move |c| format!("{s}{c}"))).collect();
        all.extend(last.iter().cloned());
    }
    for text in &all {
        let toks: Vec<_> = TokenIterator::new(text).map(|t| t.text.to_string()).collect();
        assert!(toks.iter().all(|t| !t.contains(char::is_whitespace)), "{text:?} {toks:?}");
        let want: String = text.split_whitespace().collect();
        assert_eq!(toks.concat(), want, "{text:?} {toks:?}");
        assert!(toks.iter().rev().skip(1).all(|t| !t.is_empty()), "{text:?} {toks:?}");
    }
}
'''
seed("C30-ascii-break", "C30", "text separated by whitespace outside ASCII, such as a no-break space, directly after a word",
 "whitespace outside ASCII becomes part of a token",
 [(ITE, '''    if char.is_whitespace() {
        return true;''', '''    if char.is_ascii_whitespace() {
        return true;''')], demo=TOK_DEMO)
seed("C30-operator-cap", "C30", "an operator token of more than three characters",
 "the characters of a long operator token after the third one are in no token",
 [(ITE, "Token::new(&text[index..index + chars.len()], ", "Token::new(&text[index..index + chars.len().min(3)], ")], demo=TOK_DEMO)
STM = "src/parser/statement.rs"
seed("C30-filter-terminator", "C30", "a production string with symbols behind a terminator",
 "symbols behind the first terminator are read as well",
 [(STM, ".take_while(|t| !t.is_terminal())", ".filter(|t| !t.is_terminal())")], demo='''use rusty_systems::parser::parse_prod_string;
fn main() {
    assert_eq!(parse_prod_string("A B ; C D").unwrap(), parse_prod_string("A B").unwrap());
}
''')
seed("C30-operators-skipped", "C30", "a production string with an operator such as '-' in the middle",
 "operator tokens of the kind of an arrow or a context are passed over instead of being refused",
 [(STM, '''            .map(Token::try_into)
            .collect();
        Ok(Prod''', '''            .filter(|t| !matches!(t.kind, TokenKind::Arrow))
            .map(Token::try_into)
            .collect();
        Ok(Prod''')], demo='''use rusty_systems::parser::parse_prod_string;
fn main() {
    assert!(parse_prod_string("A -> B").is_err());
}
''')
SYMS = "src/symbols.rs"
seed("C31-first", "C31", "a string in which the first symbol occurs again",
 "no space is written before later occurrences of the first symbol",
 [(STR, '''        let mut first = true;
        for symbol in self.symbols() {
            if !first {
                f.write_char(' ')?;
            } else {
                first = false;
            }''', '''        for symbol in self.symbols() {
            if Some(symbol) != self.symbols.first() {
                f.write_char(' ')?;
            }''')], demo='''use rusty_systems::parser::parse_prod_string;
fn main() {
    assert_eq!(parse_prod_string("A B A").unwrap().to_string(), "A B A");
}
''')
seed("C31-code-zero", "C31", "printing a string with a symbol whose code has no name, followed by another",
 "a symbol without a name is left out of the printed string",
 [(STR, '''            f.write_str(symbol.to_string().as_str())?;''', '''            if let Some(name) = symbol.name() {
                f.write_str(name.as_str())?;
            }''')], demo='''use rusty_systems::prelude::*;
fn main() {
    let s = ProductionString::from(vec![Symbol::from_code(4_000_000_000), Symbol::build("A").unwrap()]);
    let t = s.to_string();
    assert!(t.contains("4000000000"), "{t}");
}
''')

"""C04: planted bugs in the command line tool"""
TD = "src/bin/lsystem/derive.rs"
SVG = "src/interpretation/svg.rs"
PLANT = '''printf 'n = 2\\ninitial: Forward X\\nX -> Forward Right X\\n' > p.plant
'''
seed("C04-save-ignored", "C04", "an output path that cannot be written",
 "the error of saving is printed, and the tool goes on to report success",
 [(TD, '''    if let Some(e) = result.save_file(output.as_path()).err() {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }

    if args''', '''    if let Some(e) = result.save_file(output.as_path()).err() {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
    } else if args''')],
 bin_demo=PLANT + '''"$L" interpret p.plant -o ok.svg || exit 1
test -s ok.svg || exit 1
if "$L" interpret p.plant -o missing-dir/a.svg 2>/dev/null; then echo "success, but nothing saved"; exit 1; fi
exit 0
''')
seed("C04-interpret-empty", "C04", "a plant whose string cannot be drawn (a Pop without a Push)",
 "when interpreting fails the tool says so, saves an empty drawing and ends with success",
 [(TD, '''    if let Err(e) = result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return ExitCode::FAILURE;
    }
    let result = result.unwrap();

    let mut''', '''    if let Err(e) = &result {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
    }
    let result = result.unwrap_or_default();

    let mut''')],
 bin_demo='''printf 'n = 1\\ninitial: Forward ] Forward\\nX -> Forward X\\n' > p.plant
"$L" interpret p.plant -o a.svg 2>err
test $? != 0 || { echo "success, although the plant could not be drawn"; exit 1; }
exit 0
''')
seed("C04-ext-only-missing", "C04", "an output path with an extension other than svg",
 "the extension is only added where there is none",
 [(TD, '''    if extension != "svg" {''', '''    if extension.is_empty() {''')],
 bin_demo=PLANT + '''"$L" interpret p.plant -o a.png || exit 1
test -s a.svg || { echo "a.svg was not written"; exit 1; }
exit 0
''')
seed("C04-ext-of-input", "C04", "an input file named .svg, or an output path without the extension",
 "whether the extension has to be changed is decided by the input file",
 [(TD, '''output.extension().unwrap_or_default()''', '''derive.file.extension().unwrap_or_default()''')],
 bin_demo=PLANT + '''cp p.plant p.svg
"$L" interpret p.svg -o b.out || exit 1
test -s b.svg || { echo "b.svg was not written"; exit 1; }
exit 0
''')
seed("C04-silent", "C04", "a failure to save while not verbose",
 "the reason for a failure to save is only given in verbose mode",
 [(TD, '''    if let Some(e) = result.save_file(output.as_path()).err() {
        eprintln!("\\n{}", error_style().paint("Error"));
        eprintln!("{}", e);
        return''', '''    if let Some(e) = result.save_file(output.as_path()).err() {
        if args.verbose {
            eprintln!("\\n{}", error_style().paint("Error"));
            eprintln!("{}", e);
        }
        return''')],
 bin_demo=PLANT + '''"$L" interpret p.plant -o missing-dir/a.svg 2>err
test $? != 0 || exit 1
test -s err || { echo "failed without a message"; exit 1; }
exit 0
''')
seed("C04-str-panic", "C04", "an output path that is not valid UTF-8",
 "the extension is looked at as text, which an output path need not be",
 [(TD, '''    let extension = output.extension().unwrap_or_default().to_ascii_lowercase();
''', '''    let extension = output.extension().unwrap_or_default().to_str().unwrap().to_lowercase();
''')],
 bin_demo=PLANT + '''"$L" interpret p.plant -o "$(printf 'a.\\xff')" 2>err
S=$?
if [ $S = 101 ]; then echo "panicked"; exit 1; fi
exit 0
''')
seed("C04-save-to-input-dir", "C04", "an output path that is not next to where the tool runs",
 "the folder of the requested output path is left out",
 [(TD, '''    if extension != "svg" {
        output = output.with_extension("svg");
    }
''', '''    if extension != "svg" {
        output = derive.file.with_extension("svg");
    }
''')],
 bin_demo=PLANT + '''mkdir d
"$L" interpret p.plant -o d/a || exit 1
test -s d/a.svg || { echo "not at the output path"; exit 1; }
exit 0
''')
seed("C04-read-quiet", "C04", "a file that cannot be read or parsed, in verbose mode",
 "the mark on standard output is all that verbose mode says about a file that cannot be read",
 [(TD, """            if args.verbose { println!("❌") }
            eprint!(""", """            if args.verbose {
                println!("❌ {}", e);
                return ExitCode::FAILURE;
            }
            eprint!(""")],
 bin_demo="""touch empty.plant
"$L" -v interpret empty.plant -o a.svg >/dev/null 2>err
test $? != 0 || exit 1
test -s err || { echo "failed without a message"; exit 1; }
exit 0
""")
seed("C04-write-once", "C04", "a drawing larger than is written at once (or a device that is full)",
 "the file is written with a single write, which may write only a part, and success is reported",
 [(SVG, '''        file.write_all(self.to_svg().as_bytes())
''', '''        file.write(self.to_svg().as_bytes()).map(|_| ())
''')],
 bin_demo='''cat > p.plant <<'EOT'
n = 11
initial: X
X -> Forward X Right Forward X
EOT
"$L" interpret p.plant -o a.svg || exit 1
B=$(stat -c %s a.svg)
rm a.svg
(trap '' XFSZ; ulimit -f $((B / 2048)); "$L" interpret p.plant -o a.svg) 2>err
S=$?
if [ $S = 0 ] && [ "$(stat -c %s a.svg)" != "$B" ]; then echo "success with half a drawing"; exit 1; fi
exit 0
''')

//! The evaluator of the standard scope is total: every expression gives a value or an error.
use abe::eval::Scope;
use abe::scope::BASIC_SCOPE;
use c_abe::text::*;
use kit::*;

fn total(s: &[u8]) -> CaseResult {
    let Ok(p) = abe::parse_abe(s, true) else { return Ok(false) };
    let r = abe::eval::eval(&BASIC_SCOPE, &p);
    match &r {
        Ok(l) => {
            let _ = (l.to_string(), format!("{l:?}"), l.is_empty(), l.iter_bytes().count());
        }
        Err(e) => {
            let _ = (e.to_string(), format!("{e:?}"));
        }
    }
    // asked again it answers the same
    let again = abe::eval::eval(&BASIC_SCOPE, &p);
    ensure!(r.as_ref().ok().map(|l| l.as_slice()) == again.as_ref().ok().map(|l| l.as_slice()), "two evaluations of {} differ", show(s));
    Ok(r.is_ok())
}
fn main() {
    kit::main("A09", "model_checking", |cx| {
        cx.rule("every expression of the stated shapes is evaluated in the standard scope under supervision: a panic, abort, endless loop or different second answer is a violation; non-trivial: it evaluates to a value");
        let mut names: Vec<String> = vec![];
        let mut macros: Vec<String> = vec![];
        BASIC_SCOPE.describe(&mut |_, _, f, m| {
            names.extend(f.map(|f| f.id.to_string()));
            macros.extend(m.map(|m| m.id.to_string()));
        });
        cx.bound("functions", names.len());
        cx.bound("macros", macros.len());
        assert!(names.len() > 30 && macros.len() > 3);
        names.push("nope".into());
        names.push("".into());
        let esc = |s: &String| enc(s.as_bytes());
        let names: Vec<String> = names.iter().map(esc).collect();
        let run = |s: &str| {
            cx.states(1);
            cx.transitions(1);
            cx.traces(1);
            cx.case(s.as_bytes(), || total(s.as_bytes()))
        };
        let args: Vec<&str> = vec!["", "0", "1", "-1", "-0", "3", "255", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "340282366920938463463374607431768211456", "a", "\\f\\f", "\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0", "=", "[:\\[]", "\\[b:AAA\\]", "u8\\/b", "AAAAAAAAAAAA"];
        cx.bound("argument values", args.len());
        cx.section("every function with up to four arguments", || {
            cx.par(names.len() as u64, |f| {
                let f = &names[f as usize];
                for n in 0..=3usize {
                    for i in 0..count(args.len(), n) {
                        let a: Vec<&str> = nth_digits(args.len(), n, i).into_iter().map(|d| args[d]).collect();
                        run(&format!("[{f}{}]", a.iter().map(|a| format!(":{a}")).collect::<String>()));
                        if n > 0 {
                            run(&format!("[:{}/{f}{}]", a[0], a[1..].iter().map(|a| format!(":{a}")).collect::<String>()));
                        }
                    }
                }
                let few = ["", "1", "-1", "abc", "18446744073709551615", "\\f"];
                for i in 0..count(few.len(), 4) {
                    let a: Vec<&str> = nth_digits(few.len(), 4, i).into_iter().map(|d| few[d]).collect();
                    run(&format!("[{f}{}]", a.iter().map(|a| format!(":{a}")).collect::<String>()));
                }
                for n in 5..=18 {
                    for a in args.iter() {
                        run(&format!("[{f}{}]", format!(":{a}").repeat(n)));
                    }
                }
            })
        });
        cx.section("every pair of functions in sequence and nested", || {
            let n = names.len() as u64;
            cx.par(n * n, |i| {
                let (f, g) = (&names[(i / n) as usize], &names[(i % n) as usize]);
                let few: &[&str] = if cx.quick() { &["", "3", "\\f\\f", "-1", "18446744073709551615"] } else { &args };
                for a in few {
                    for b in few {
                        run(&format!("[{f}:{a}/{g}:{b}]"));
                        run(&format!("[:{a}/{f}/{g}:{b}]"));
                        run(&format!("[{f}:[{g}:{a}]:{b}]"));
                    }
                    run(&format!("[{f}:{a}:{a}/{g}:{a}:{a}]"));
                }
            })
        });
        cx.section("every macro", || {
            let bodies: Vec<String> = {
                let mut v: Vec<String> = ["", ":", "/", "::", "//", ":/", "/:", ":a", ":a/", ":a/b", ":a/b:1", ":a/b:x/", ":[u8:3]/u8", ":[u8:3]/u8:1/b2", ":[x]", ":[x]:b", ":[x]/b", ":a:b:c", "a", "a:b", ":[]", "[]", ":a/[]", ":a/:", ":a/:b", ":[/:a]/", ":a//b", ":\\f/b2:1:2"].iter().map(|s| s.to_string()).collect();
                for e in ["a", "b", "bs", "b2", "b16", "u8", "u16", "nope", ""] {
                    for a in &args {
                        v.push(format!(":{a}/{e}"));
                        v.push(format!(":{a}/{e}:{a}"));
                        v.push(format!(":{a}/{e}:{a}/"));
                    }
                }
                v
            };
            let mut ms: Vec<String> = macros.iter().map(esc).collect();
            ms.extend(["", "nope"].map(String::from));
            for m in &ms {
                for b in &bodies {
                    run(&format!("[/{m}{b}]"));
                    run(&format!("x[/{m}{b}]y[/{m}{b}]"));
                    for m2 in &ms {
                        run(&format!("[/{m}:[/{m2}{b}]]"));
                        run(&format!("[/{m}{b}:[/{m2}{b}]]"));
                    }
                }
            }
        });
        let t: Vec<&[u8]> = vec![b"[", b"]", b":", b"/", b"u8", b"?", b"1", b"b", b"or", b"~?", b"-", b"slice", b"eval", b"\\["];
        let n = cx.pick(6, 7);
        cx.bound("texts over 14 fragments up to length", n);
        cx.section("texts over fragments", || {
            all_concats(cx, &t, n, |s| {
                cx.states(1);
                cx.transitions(1);
                cx.traces(1);
                cx.case(s, || total(s))
            })
        });
        cx.section("repetition and nesting", || {
            for f in &names {
                for d in [5, 20] {
                    run(&format!("{}1{}", format!("[{f}:").repeat(d), "]".repeat(d)));
                    run(&format!("[:1{}]", format!("/{f}").repeat(d)));
                    run(&format!("[:1{}]", format!("/{f}:1").repeat(d.min(100))));
                }
            }
        });
    })
}

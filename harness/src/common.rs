//! Shared by the recorders: request loop, panic capture, token decoding.
#![allow(dead_code)]
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};
use typelalr::lex::lex::Token;
use typelalr::parser::Symbol;

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// {"ok": v} or {"panic": msg}
pub fn outcome(f: impl FnOnce() -> Value) -> Value {
    match guard(f) {
        Ok(v) => json!({ "ok": v }),
        Err(m) => json!({ "panic": m.chars().take(300).collect::<String>() }),
    }
}

pub fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

pub fn parse_debug_str(it: &mut std::iter::Peekable<std::str::Chars>) -> Option<String> {
    if it.next()? != '"' {
        return None;
    }
    let mut out = String::new();
    loop {
        match it.next()? {
            '"' => return Some(out),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                '0' => out.push('\0'),
                '\\' => out.push('\\'),
                '\'' => out.push('\''),
                '"' => out.push('"'),
                'u' => {
                    if it.next()? != '{' {
                        return None;
                    }
                    let mut n = 0u32;
                    loop {
                        match it.next()? {
                            '}' => break,
                            c => n = n * 16 + c.to_digit(16)?,
                        }
                    }
                    out.push(char::from_u32(n)?);
                }
                _ => return None,
            },
            c => out.push(c),
        }
    }
}

pub fn token_from_debug(tok: &Token) -> Option<(String, Option<String>)> {
    let d = format!("{:?}", tok);
    let rest = d.strip_prefix("Token { name: ")?;
    let mut it = rest.chars().peekable();
    let name = parse_debug_str(&mut it)?;
    let rest: String = it.collect();
    let rest = rest.strip_prefix(", val: ")?;
    if rest == "None }" {
        return Some((name, None));
    }
    let rest = rest.strip_prefix("Some(")?;
    let mut it = rest.chars().peekable();
    let val = parse_debug_str(&mut it)?;
    let tail: String = it.collect();
    if tail != ") }" {
        return None;
    }
    Some((name, Some(val)))
}

/// The parts of a token: read from its Debug form and confirmed with the
/// type's own equality; if the Debug form is not the expected one, found by
/// trying the known names against the substrings of the input.
pub fn token_parts(tok: &Token, names: &[String], input: &str) -> Value {
    if let Some((n, v)) = token_from_debug(tok) {
        let rebuilt = match &v {
            Some(v) => Token::new_with_val(n.clone(), v.clone()),
            None => Token::new(n.clone()),
        };
        if &rebuilt == tok {
            return match v {
                Some(v) => json!({"name": n, "val": v}),
                None => json!({ "name": n }),
            };
        }
    }
    let chars: Vec<char> = input.chars().collect();
    for n in names {
        if &Token::new(n.clone()) == tok {
            return json!({ "name": n });
        }
        for i in 0..chars.len() {
            for j in i..chars.len() {
                let v: String = chars[i..=j].iter().collect();
                if &Token::new_with_val(n.clone(), v.clone()) == tok {
                    return json!({"name": n, "val": v});
                }
            }
        }
    }
    json!({"name": "?unknown", "val": format!("{:?}", tok)})
}

pub fn sym(s: &Symbol) -> Value {
    match s {
        Symbol::StrLit(x) => json!(["lit", x]),
        Symbol::Regex(x) => json!(["re", x]),
        Symbol::NonTerminal(x) => json!(["nt", x.as_ref()]),
        Symbol::Epsilon => json!(["eps", ""]),
        Symbol::Eof => json!(["eof", ""]),
    }
}


/// One JSON request per line on stdin, one JSON answer per line in argv[1].
pub fn serve(handle: impl Fn(&Value) -> Value) {
    std::panic::set_hook(Box::new(|_| {}));
    let path = std::env::args().nth(1).expect("output file");
    let mut out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(path)
        .expect("open output");
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let req: Value = serde_json::from_str(&line).expect("bad request");
        let res = handle(&req);
        writeln!(out, "{}", res).unwrap();
        out.flush().unwrap();
    }
}

//! Drives /repo's public API on requests and records what it did; judges nothing.
#[path = "../common.rs"]
mod common;
use bumpalo::Bump;
use common::*;
use serde_json::{json, Map, Value};
use typelalr::codegen::{lex_gen, parse_gen};
use typelalr::lalr::Lalr;
use typelalr::lex::dfa::DFA;
use typelalr::lex::lex::{Lex, TokenDef};
use typelalr::lex::nfa::NFA;
use typelalr::parser::ast::InputSymbol;
use typelalr::parser::{Grammar, Symbol};

fn op_regex(req: &Value) -> Value {
    let re = req["re"].as_str().unwrap();
    let hir = match regex_syntax::Parser::new().parse(re) {
        Ok(h) => h,
        Err(e) => return json!({ "badre": e.to_string() }),
    };
    let nfa = match guard(|| NFA::from_regex(&hir)) {
        Ok(n) => n,
        Err(m) => return json!({ "panic": m }),
    };
    let dfa = match guard(|| DFA::from_nfa(nfa.clone())) {
        Ok(n) => n,
        Err(m) => return json!({ "panic": m }),
    };
    let runs: Vec<Value> = strs(&req["inputs"])
        .iter()
        .map(|s| {
            json!({
                "nfa": outcome(|| json!(nfa.simulate(s))),
                "test": outcome(|| json!(dfa.test(s))),
                "sim": outcome(|| match dfa.simulate(s) { Some(n) => json!(n as i64), None => json!(-1) }),
            })
        })
        .collect();
    json!({ "runs": runs })
}

fn op_lexer(req: &Value) -> Value {
    let mut defs = vec![];
    let mut names = vec![];
    for (i, t) in req["tokens"].as_array().unwrap().iter().enumerate() {
        let hir = match regex_syntax::Parser::new().parse(t["re"].as_str().unwrap()) {
            Ok(h) => h,
            Err(e) => return json!({ "badre": e.to_string() }),
        };
        let name = t["name"].as_str().unwrap().to_string();
        names.push(name.clone());
        defs.push((
            TokenDef {
                name,
                with_val: t["val"].as_bool().unwrap(),
                token_idx: Some(i as u32 + 1),
            },
            hir,
        ));
    }
    let lex = match guard(|| Lex::from_tokens(defs)) {
        Ok(l) => l,
        Err(m) => return json!({ "panic": m }),
    };
    let runs: Vec<Value> = strs(&req["inputs"])
        .iter()
        .map(|s| run_lex(&lex, &names, s))
        .collect();
    let mut out = json!({ "runs": runs });
    if req["gen"].as_bool().unwrap_or(false) {
        out["gen"] = outcome(|| json!(lex_gen::generate(&lex)));
    }
    out
}

fn run_lex(lex: &Lex, names: &[String], s: &str) -> Value {
    outcome(|| {
        let toks = lex.lex(s);
        Value::Array(toks.iter().map(|t| token_parts(t, names, s)).collect())
    })
}

fn ast_symbol(s: &InputSymbol) -> Value {
    match s {
        InputSymbol::StrLit(x) => json!({"k": "lit", "v": x, "n": ""}),
        InputSymbol::Regex(x) => json!({"k": "re", "v": x, "n": ""}),
        InputSymbol::NonTerminal(x) => json!({"k": "nt", "v": x.as_ref(), "n": ""}),
        InputSymbol::Named(n) => {
            let mut v = ast_symbol(n.ty);
            v["n"] = json!(n.name.map(|i| i.as_ref().to_string()).unwrap_or_default());
            v
        }
        InputSymbol::Epsilon => json!({"k": "eps", "v": "", "n": ""}),
        InputSymbol::Eof => json!({"k": "eof", "v": "", "n": ""}),
    }
}

fn op_grammar(req: &Value) -> Value {
    let text = req["text"].as_str().unwrap();
    let want = |k: &str| {
        req["want"]
            .as_array()
            .map_or(false, |a| a.iter().any(|x| x == k))
    };
    let mut out = Map::new();
    let bump = Bump::new();
    let ast = match guard(|| typelalr::parse_grammar(&bump, text)) {
        Ok(a) => a,
        Err(m) => {
            return json!({ "stage": "text", "panic": m.chars().take(300).collect::<String>() })
        }
    };
    if want("ast") {
        let v: Vec<Value> = ast
            .iter()
            .map(|p| {
                json!({
                    "name": p.name.as_ref(),
                    "start": p.is_start,
                    "ts": p.ts_code,
                    "bodies": p.bodies.iter().map(|b| json!({
                        "syms": b.input_tokens.iter().map(ast_symbol).collect::<Vec<_>>(),
                        "fn": b.mapping_fn,
                    })).collect::<Vec<_>>(),
                })
            })
            .collect();
        out.insert("ast".into(), json!(v));
    }
    if want("astonly") {
        return Value::Object(out);
    }
    let grammar = match guard(|| Grammar::grammar_from_ast_productions(&bump, &ast)) {
        Ok(g) => g,
        Err(m) => {
            out.insert("stage".into(), json!("grammar"));
            out.insert("panic".into(), json!(m));
            return Value::Object(out);
        }
    };
    let prods: Vec<Value> = grammar
        .iter_productions()
        .map(|p| {
            json!({
                "lhs": p.name.as_ref(),
                "rhs": p.input_tokens.iter().map(sym).collect::<Vec<_>>(),
                "fn": p.mapping_fn.unwrap_or(""),
                "ts": p.ts_type.unwrap_or(""),
                "hasfn": p.mapping_fn.is_some(),
            })
        })
        .collect();
    let toks: Vec<Value> = grammar.tokens().map(sym).collect();
    out.insert("prods".into(), json!(prods));
    out.insert("toks".into(), json!(toks));
    let inputs = strs(&req["inputs"]);
    if want("lalr") || want("gen") || !inputs.is_empty() {
        let lalr = match guard(|| Lalr::new(grammar)) {
            Ok(l) => l,
            Err(m) => {
                out.insert("stage".into(), json!("lalr"));
                out.insert("panic".into(), json!(m));
                return Value::Object(out);
            }
        };
        if want("gen") {
            let v = outcome(|| {
                let (l, p) = parse_gen::generate(&bump, &ast, &lalr).unwrap();
                json!({"lex": l, "parse": p})
            });
            out.insert("gen".into(), v);
        }
        let cap = req["msgcap"].as_u64().unwrap_or(200) as usize;
        let runs: Vec<Value> = inputs
            .iter()
            .map(|s| {
                match guard(|| {
                    lalr.parse(s);
                }) {
                    Ok(()) => json!({"acc": true}),
                    Err(m) => {
                        json!({"acc": false, "msg": m.chars().take(cap).collect::<String>()})
                    }
                }
            })
            .collect();
        out.insert("runs".into(), json!(runs));
    }
    if want("lex") {
        // the lexer a grammar gives rise to, on its own
        let bump2 = Bump::new();
        let v = outcome(|| {
            let ast2 = typelalr::parse_grammar(&bump2, text);
            let g2 = Grammar::grammar_from_ast_productions(&bump2, &ast2);
            let names: Vec<String> = g2
                .tokens()
                .filter_map(|s| match s {
                    Symbol::StrLit(x) | Symbol::Regex(x) => Some(x.to_string()),
                    _ => None,
                })
                .collect();
            let lex = Lex::from_grammar(&g2);
            let gtoks: Vec<Value> = g2.tokens().map(sym).collect();
            let runs: Vec<Value> = strs(&req["lexinputs"])
                .iter()
                .map(|s| {
                    outcome(|| {
                        let toks = lex.lex(s);
                        let conv = lex.convert_tokens(toks);
                        Value::Array(
                            conv.iter()
                                .map(|(t, i)| {
                                    let mut v = token_parts(t, &names, s);
                                    v["idx"] = json!(i.0);
                                    v
                                })
                                .collect(),
                        )
                    })
                })
                .collect();
            json!({"toks": gtoks, "runs": runs})
        });
        out.insert("lex".into(), v);
    }
    Value::Object(out)
}

fn op_arith(req: &Value) -> Value {
    outcome(|| {
        let mut buf = String::new();
        lex_gen::gen_arithmetic(&mut buf, req["n"].as_u64().unwrap() as u32);
        json!(buf)
    })
}

fn main() {
    serve(|req| match req["op"].as_str().unwrap() {
        "regex" => op_regex(req),
        "lexer" => op_lexer(req),
        "grammar" => op_grammar(req),
        "arith" => op_arith(req),
        o => panic!("unknown op {o}"),
    });
}

//! Drives /repo's public API on requests and records what it did; judges nothing.
#[path = "../common.rs"]
mod common;
use bumpalo::Bump;
use common::*;
use serde_json::{json, Map, Value};
use typelalr::lalr::first::first;
use typelalr::lalr::table::{make_tables, Action};
use typelalr::parser::{Grammar, Symbol};

fn op(req: &Value) -> Value {
    let text = req["text"].as_str().unwrap();
    let want = |k: &str| {
        req["want"]
            .as_array()
            .map_or(false, |a| a.iter().any(|x| x == k))
    };
    let mut out = Map::new();
    let bump = Bump::new();
    let ast = match guard(|| typelalr::parse_grammar(&bump, text)) {
        Ok(a) => a,
        Err(m) => return json!({ "stage": "text", "panic": m }),
    };
    let grammar = match guard(|| Grammar::grammar_from_ast_productions(&bump, &ast)) {
        Ok(g) => g,
        Err(m) => return json!({ "stage": "grammar", "panic": m }),
    };
    let toks: Vec<Value> = grammar.tokens().map(sym).collect();
    out.insert("toks".into(), json!(toks));
    if want("lookup") {
        // the name and index maps of the grammar, as seen through its accessors
        let v = outcome(|| {
            let idx_of: Vec<i64> = grammar
                .tokens()
                .map(|s| grammar.get_token_idx(s).map_or(-1, |i| i.0 as i64))
                .collect();
            let nts: Vec<Value> = grammar
                .non_terminals()
                .map(|(i, n)| json!([i.0, n.as_ref()]))
                .collect();
            let mut names: Vec<String> = vec![];
            for p in grammar.iter_productions() {
                let n = p.name.as_ref().to_string();
                if !names.contains(&n) {
                    names.push(n);
                }
            }
            let by_name: Vec<Value> = names
                .iter()
                .map(|n| {
                    let p = grammar
                        .iter_productions()
                        .find(|p| p.name.as_ref() == n)
                        .unwrap();
                    let ix: Vec<u32> = grammar
                        .get_production_indices_by_name(p.name)
                        .map(|v| v.iter().map(|i| i.0).collect())
                        .unwrap_or_default();
                    json!([n, ix])
                })
                .collect();
            json!({"idx_of": idx_of, "nts": nts, "by_name": by_name})
        });
        out.insert("lookup".into(), v);
    }
    if want("first") {
        let v = outcome(|| {
            let mut m = vec![];
            // every symbol, also nonterminals that only occur on the left
            let mut all: Vec<Symbol> = grammar.tokens().copied().collect();
            for p in grammar.iter_productions() {
                let n = Symbol::NonTerminal(p.name);
                if !all.contains(&n) {
                    all.push(n);
                }
            }
            for s in all.iter() {
                let f: Vec<Value> = first(&grammar, std::iter::once(s))
                    .into_iter()
                    .map(sym)
                    .collect();
                m.push(json!([sym(s), f]));
            }
            json!(m)
        });
        out.insert("first".into(), v);
    }
    if want("tables") {
        let v = outcome(|| {
            let (action, goto, sets) = make_tables(&grammar);
            let mut acts = vec![];
            for (s, row) in action.iter() {
                for (t, a) in row.iter() {
                    acts.push(match a {
                        Action::Shift(j) => json!([s, t.0, "s", j]),
                        Action::Reduce(p) => json!([s, t.0, "r", p.0]),
                        Action::Accept => json!([s, t.0, "a", 0]),
                    });
                }
            }
            let mut gs = vec![];
            for (s, row) in goto.iter() {
                for (n, j) in row.iter() {
                    gs.push(json!([s, n.as_ref(), j]));
                }
            }
            let items: Vec<Value> = sets
                .iter()
                .map(|set| {
                    json!(set
                        .iter()
                        .map(|(it, la)| json!([
                            it.production_idx().0,
                            it.dot(),
                            la.iter().map(|t| t.0).collect::<Vec<_>>()
                        ]))
                        .collect::<Vec<_>>())
                })
                .collect();
            json!({"action": acts, "goto": gs, "items": items})
        });
        out.insert("tables".into(), v);
    }
    Value::Object(out)
}

fn main() {
    serve(op);
}

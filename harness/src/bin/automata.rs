//! Drives /repo's public API on requests and records what it did; judges nothing.
#[path = "../common.rs"]
mod common;
use common::*;
use serde_json::{json, Value};
use typelalr::lex::dfa::DFA;
use typelalr::lex::nfa::NFA;

fn dump_nfa(nfa: &NFA) -> Value {
    let mut edges = vec![];
    // edges as the automaton itself enumerates them, state by state
    for s in 0..nfa.states.len() {
        if let Some(it) = nfa.edge_iter(s.into()) {
            for e in it {
                match &e.label {
                    None => edges.push(json!([s, -1, -1, e.to.value()])),
                    Some(m) => edges.push(json!([s, m.range.start, m.range.end, e.to.value()])),
                }
            }
        }
    }
    json!({
        "n": nfa.states.len(),
        "edges": edges,
        "raw_edges": nfa.edges.len(),
        "acc": nfa.accepting_states().into_iter().map(|s| s.value()).collect::<Vec<_>>(),
    })
}

fn dump_dfa(dfa: &DFA) -> Value {
    let mut edges = vec![];
    for s in 0..dfa.states.len() {
        if let Some(it) = dfa.edge_iter(s.into()) {
            for e in it {
                edges.push(json!([s, e.label.range.start, e.label.range.end, e.to.value()]));
            }
        }
    }
    json!({
        "n": dfa.states.len(),
        "edges": edges,
        "raw_edges": dfa.edges.len(),
        "acc": dfa.accepting_states().keys().map(|s| s.value()).collect::<Vec<_>>(),
    })
}

fn op(req: &Value) -> Value {
    let re = req["re"].as_str().unwrap();
    let hir = match regex_syntax::Parser::new().parse(re) {
        Ok(h) => h,
        Err(e) => return json!({ "badre": e.to_string() }),
    };
    outcome(|| {
        let nfa = NFA::from_regex(&hir);
        let dfa = DFA::from_nfa(nfa.clone());
        json!({"nfa": dump_nfa(&nfa), "dfa": dump_dfa(&dfa)})
    })
}

fn main() {
    serve(op);
}

"""Writes MANIFEST.json: python3 -m vp.manifest"""
import json, os
from . import base

NOTES = {
    "C01": "position automaton of each pattern explored in product with the recorded NFA/DFA (all strings per pattern); recorded simulate/test answers checked against the denotation; generated patterns, so exhaustive over strings but sampled over patterns",
    "C02": "as C01 with overlapping-class patterns and multi-pattern lexers, representatives on both sides of every class boundary",
    "C03": "recorded token boundaries replayed through the lexer machine; words come from every transition of the joint position automaton",
    "C04": "recorded winners replayed through the lexer machine, token lists and grammar-made lexers",
    "C05": "recorded token values replayed as slices of the input through the lexer machine",
    "C06": "grammar texts (valid, damaged, laid out in many ways) read token by token by the specified scanner and production machine; recorded productions or rejection must agree",
    "C07": "recorded productions, symbol numbers and lookups compared with the specified augmentation of the source productions",
    "C08": "FIRST computed in rounds to the least fixpoint by TLC, compared with the recorded sets; construction observed to end",
    "C09": "canonical LR(1) collection built round by round and merged by core in TLC; the recorded collection must be equal",
    "C10": "specified LALR(1) automaton and recorded tables walked in lockstep from state 0 until no new pair appears",
    "C11": "conflicts of the specified LALR(1) automaton against what the code reports",
    "C12": "texts tokenised by the specified lexer and derived (least fixpoint of spans) from the start symbol; acceptance must agree",
    "C14": "the generated state table, as TypeScript sees it, explored in product with the joint position automaton of the token definitions (all strings per token list)",
    "C15": "the generated module, as TypeScript sees it, walked in lockstep with the LALR(1) automaton built in TLC; symbols, productions, kinds compared",
    "C16": "evaluated Lex types replayed token by token through the lexer machine",
    "C17": "texts tokenised and derived in TLC, the derivation evaluated bottom-up with the mapping code; the evaluated type must equal it",
    "C18": "helper machines stepped by TLC; recorded evaluations must end in their result; exhaustive over small tables and lists, sampled beyond",
    "C19": "every entry of the generated and the committed character module read through the table machine (exhaustive)",
    "C20": "the action machine (take, bind, push) stepped by TLC over recorded applications to fitting and non-fitting stacks",
    "C21": "the shipped grammar file, modules and runtime through the machines of C06, C14, C15, C17, C22; every token string up to a length, longer ones sampled",
    "C22": "texts tokenised and derived in TLC; a parse value only for sentences, and the Rust parser must agree",
    "C23": "rejected texts run through the specified lexer and the shift/reduce machine on the LALR(1) automaton; what the recorded message names must be where and in which state the machine stops; the machine itself checked against the prefixes of sentences",
    "C24": "as C23 for the answers of the evaluated Lex and Parse types, with the position automata for the place where a scan gets stuck and the machine's stack for the symbols listed",
    "C25": "patterns, token lists and grammars with one unsupported construct put in at a random place; what was built or refused must be what the compiling machine of the specification ends in",
    "C26": "grammars with one thing missing at a random place; a walk over the nonterminals, checked against the least set that is reached, says whether tables may come out",
    "C13": "histories of repeated requests in several processes replayed through a memo machine",
}
NA = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(base.VERIF, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(base.VERIF, "vp", "c_%s.py" % i.lower())):
            checks.append({"property": i, "quick_cmd": "./check " + i,
                           "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": "TLA+ specification checked with TLC; recorded behaviour of the code replayed through it",
                           "level": "model_checking", "level_note": NOTES[i]})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(base.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

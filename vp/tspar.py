"""Generated parsers as TypeScript: jobs for the checker and their answers."""
import os
from . import base, gram as R, tsrun

PARSER = ["type_defs.Tokens", "type_defs.Productions", "type_defs.Action", "type_defs.Goto", "type_defs.TokenKindToIdx"]


def parse_ts():
    """The runtime's parser with its entry point made reachable."""
    return tsrun.repo_ts("parse.ts") + "\nexport type VpParse<T extends L.Token[]> = Parse<T>;\n"


def job(chk, i, lex, par, exprs=(), diag=(), aliases=None, lexts=None, parsets=None):
    sh = tsrun.shared_dir(chk)
    return {"dir": os.path.join(chk.scratch, "g%d" % i),
            "files": {"lex_state.gen.ts": lex, "parse_state2.gen.ts": par, "lex.ts": lexts or tsrun.repo_ts("lex.ts"), "parse.ts": parsets or parse_ts()},
            "links": tsrun.links(sh),
            "diag": list(diag), "aliases": aliases or {},
            "imports": ['import { Lex } from "./lex";', 'import { VpParse } from "./parse";',
                        'import { actions, type_defs } from "./parse_state2.gen";'],
            "exprs": list(exprs)}


def ts_lit(s):
    """A TypeScript string literal."""
    out = '"'
    for ch in s:
        o = ord(ch)
        if ch in '"\\':
            out += "\\" + ch
        elif o < 32 or 127 <= o < 160 or o in (0x2028, 0x2029):
            out += "\\u%04x" % o
        else:
            out += ch
    return out + '"'


def is_error(v):
    """An error of the type-level parser or lexer: a message, or a list that begins with one."""
    return isinstance(v, str) or (isinstance(v, list) and bool(v) and isinstance(v[0], str))


def generate(chk, texts, inputs=None):
    core = base.build_bin("core")
    return base.record(core, [{"op": "grammar", "text": t, "want": ["gen"], "inputs": (inputs[i] if inputs else [])}
                              for i, t in enumerate(texts)], chk.scratch)


def conflict(a):
    return "conflict" in str(a.get("panic", "")).lower() and a.get("stage") == "lalr"


def known_chars(chk):
    """Characters the type-level lexer's table supports, as the checker sees it."""
    d = os.path.join(chk.scratch, "chars")
    sh = tsrun.shared_dir(chk)
    r = tsrun.run([{"dir": d, "links": {"chars.ts": os.path.join(sh, "chars.ts")}, "aliases": {"chars.ts": ["Characters", "CharTable"]}}], chk.scratch)[0]
    if "fail" in r:
        raise base.ToolError(r["fail"])
    return sorted({ord(v) for _, v in r["aliases"]["chars.ts"]["Characters"]["o"] if isinstance(v, str) and len(v) == 1})

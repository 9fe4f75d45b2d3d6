// Evaluates types with the TypeScript checker and writes what it got as JSON. Judges nothing.
// stdin: {"jobs": [{"dir", "files": {name: text}, "links": {name: path}, "diag": [name],
//                   "aliases": {file: [type names]}, "imports": [line], "exprs": [type expression]}]}
// stdout: one JSON line per job.
"use strict";
const path = require("path"), fs = require("fs");
const ts = require(process.env.VP_TYPESCRIPT || "/opt/veriftools/node/node_modules/typescript");

const OPTS = { noEmit: true, strict: true, target: ts.ScriptTarget.ES2015, lib: ["lib.es2020.d.ts"],
  skipLibCheck: true, moduleResolution: ts.ModuleResolutionKind.Node10, module: ts.ModuleKind.ESNext,
  ignoreDeprecations: "6.0", types: [], noUncheckedIndexedAccess: true };

function conv(ch, t, d) {
  if (d > 400) return { x: "deep" };
  const F = ts.TypeFlags;
  if (t.flags & F.StringLiteral) return t.value;
  if (t.flags & F.NumberLiteral) return t.value;
  if (t.flags & F.BooleanLiteral) return ch.typeToString(t) === "true";
  if (t.flags & F.Undefined) return { x: "undefined" };
  if (t.flags & F.Null) return { x: "null" };
  if (t.flags & F.Never) return { x: "never" };
  if (t.flags & F.Any) return { x: "any" };
  if (t.flags & F.Unknown) return { x: "unknown" };
  if (t.flags & F.Boolean) return { u: [false, true] };
  if (t.isUnion()) return { u: t.types.map(y => conv(ch, y, d + 1)) };
  if (ch.isTupleType(t)) {
    const el = ch.getTypeArguments(t);
    if (t.target.elementFlags.some(f => f !== ts.ElementFlags.Required)) return { x: ch.typeToString(t, undefined, ts.TypeFormatFlags.NoTruncation) };
    return el.map(y => conv(ch, y, d + 1));
  }
  if (t.flags & F.Object && !ch.isArrayType(t)) {
    if (t.getCallSignatures().length || t.getConstructSignatures().length) return { x: ch.typeToString(t) };
    const o = [];
    for (const p of ch.getPropertiesOfType(t)) o.push([ts.unescapeLeadingUnderscores(p.escapedName), conv(ch, ch.getTypeOfSymbol(p), d + 1)]);
    return { o };
  }
  return { x: ch.typeToString(t, undefined, ts.TypeFormatFlags.NoTruncation) };
}

const msg = d => ({ code: d.code, line: d.file && d.start !== undefined ? d.file.getLineAndCharacterOfPosition(d.start).line : -1,
  text: ts.flattenDiagnosticMessageText(d.messageText, "\n").slice(0, 300) });

const jobs = JSON.parse(fs.readFileSync(0, "utf8")).jobs;
// files that many jobs share (library, util, chars) are parsed once
const host = ts.createCompilerHost(OPTS);
const cache = new Map();
const orig = host.getSourceFile;
host.getSourceFile = (f, l, e, c) => {
  if (/[\\/]lib\.[^\\/]*d\.ts$/.test(f) || f.includes("/shared/")) {
    if (!cache.has(f)) cache.set(f, orig.call(host, f, l, e, c));
    return cache.get(f);
  }
  return orig.call(host, f, l, e, c);
};

function one(j) {
  fs.mkdirSync(j.dir, { recursive: true });
  for (const [n, t] of Object.entries(j.files || {})) fs.writeFileSync(path.join(j.dir, n), t);
  for (const [n, p] of Object.entries(j.links || {})) if (!fs.existsSync(path.join(j.dir, n))) fs.symlinkSync(p, path.join(j.dir, n));
  const head = j.imports || [];
  const q = path.join(j.dir, "vpq.ts");
  fs.writeFileSync(q, head.concat((j.exprs || []).map((e, i) => `export type Q${i} = ${e};`)).join("\n") + "\nexport {};\n");
  const roots = [q].concat(Object.keys(j.aliases || {}).map(f => path.join(j.dir, f)), (j.diag || []).map(f => path.join(j.dir, f)));
  const prog = ts.createProgram([...new Set(roots)], OPTS, host);
  const ch = prog.getTypeChecker();
  const out = { diag: {}, aliases: {}, q: [], qdiag: [] };
  const sf = prog.getSourceFile(q);
  const byName = {};
  sf.forEachChild(n => { if (ts.isTypeAliasDeclaration(n)) byName[n.name.text] = n; });
  for (let i = 0; i < (j.exprs || []).length; i++) {
    const n = byName["Q" + i];
    try { out.q.push(n ? conv(ch, ch.getTypeAtLocation(n), 0) : { x: "missing" }); }
    catch (e) { out.q.push({ x: "error", text: String(e).slice(0, 200) }); }
  }
  try {
    out.qdiag = prog.getSyntacticDiagnostics(sf).concat(prog.getSemanticDiagnostics(sf)).map(msg)
      .map(d => (d.line -= head.length, d));
  } catch (e) { out.qdiag = [{ code: -1, line: -1, text: String(e).slice(0, 200) }]; }
  for (const [f, names] of Object.entries(j.aliases || {})) {
    const s = prog.getSourceFile(path.join(j.dir, f));
    const o = out.aliases[f] = {};
    const decl = {};
    const visit = (n, prefix) => {
      if (ts.isTypeAliasDeclaration(n)) decl[prefix + n.name.text] = n;
      if (ts.isModuleDeclaration(n) && n.body && n.body.statements) n.body.statements.forEach(m => visit(m, prefix + n.name.text + "."));
    };
    if (s) s.statements.forEach(n => visit(n, ""));
    for (const n of names) {
      try { o[n] = decl[n] ? conv(ch, ch.getTypeAtLocation(decl[n]), 0) : { x: "missing" }; }
      catch (e) { o[n] = { x: "error", text: String(e).slice(0, 200) }; }
    }
  }
  for (const f of j.diag || []) {
    const s = prog.getSourceFile(path.join(j.dir, f));
    try { out.diag[f] = s ? prog.getSyntacticDiagnostics(s).concat(prog.getSemanticDiagnostics(s)).map(msg) : [{ code: -1, line: -1, text: "no such file" }]; }
    catch (e) { out.diag[f] = [{ code: -1, line: -1, text: String(e).slice(0, 200) }]; }
  }
  return out;
}

for (const j of jobs) {
  let r; const t0 = Date.now();
  try { r = one(j); } catch (e) { r = { fail: String(e && e.stack || e).slice(0, 500) }; }
  r.ms = Date.now() - t0;
  fs.writeSync(1, JSON.stringify(r) + "\n");
}

"use strict";
// Lowers the TypeScript client to the register IR of the analyser (see ir.go).
// usage: node front.js TYPESCRIPT_JS REPO
const ts = require(process.argv[2]);
const path = require("path");
const fs = require("fs");
const root = process.argv[3];
const SK = ts.SyntaxKind;

function walkDir(d, out) {
  for (const n of fs.readdirSync(d).sort()) {
    const p = path.join(d, n);
    if (fs.statSync(p).isDirectory()) {
      if (n !== "tests" && n !== "node_modules") walkDir(p, out);
    } else if (n.endsWith(".ts") && !n.endsWith(".d.ts") && !n.endsWith(".test.ts")) out.push(p);
  }
  return out;
}
const src = path.join(root, "src");
const files = walkDir(src, []);
const program = ts.createProgram(files, {
  target: ts.ScriptTarget.ES2020,
  module: ts.ModuleKind.CommonJS,
  lib: ["lib.es2022.d.ts", "lib.dom.d.ts", "lib.dom.iterable.d.ts", "lib.dom.asynciterable.d.ts"].filter((l) =>
    fs.existsSync(path.join(path.dirname(process.argv[2]), l))),
  strict: true,
  noEmit: true,
  skipLibCheck: true,
  types: [],
});
const checker = program.getTypeChecker();
const isSrc = (sf) => sf && sf.fileName.startsWith(src + path.sep) && !sf.isDeclarationFile;
const problems = [];
for (const sf of program.getSourceFiles()) {
  if (!isSrc(sf)) continue;
  for (const d of program.getSyntacticDiagnostics(sf)) problems.push(`${rel(sf)}: ${ts.flattenDiagnosticMessageText(d.messageText, " ")}`);
}
function rel(sf) { return path.relative(root, sf.fileName); }
function posOf(n) {
  const sf = n.getSourceFile();
  return `${rel(sf)}:${sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1}`;
}
function pkgOf(sf) { return "ts/" + path.relative(src, sf.fileName).replace(/\.ts$/, ""); }

// ---- types ----------------------------------------------------------------
const BYTES = new Set(["ArrayBuffer", "Uint8Array", "DataView", "SharedArrayBuffer", "ArrayBufferLike"]);
const tINT = { k: "int" }, tBOOL = { k: "bool" }, tSTR = { k: "string" }, tBYTES = { k: "bytes" }, tANY = { k: "any" }, tNILT = { k: "nil" };
function typ(t, depth) {
  depth = depth || 0;
  if (!t || depth > 4) return tANY;
  const F = ts.TypeFlags;
  if (t.flags & F.BooleanLike && !(t.flags & F.Union && !t.types.every((x) => x.flags & F.BooleanLike))) return tBOOL;
  if (t.flags & (F.NumberLike | F.BigIntLike) && !(t.flags & F.Union && !(t.flags & F.EnumLike))) return tINT;
  if (t.flags & F.StringLike) return tSTR;
  if (t.flags & (F.Null | F.Undefined | F.Void)) return tNILT;
  if (t.isUnion && t.isUnion()) {
    let opt = false;
    let r = null;
    for (const x of t.types) {
      const y = typ(x, depth + 1);
      if (y.k === "nil") { opt = true; continue; }
      if (!r) r = y;
      else if (r.k !== y.k) return { k: "any" };
      else if (r.k === "obj" && r.n !== y.n) r = { k: "obj", n: "" };
    }
    if (!r) return tNILT;
    return opt ? Object.assign({}, r, { opt: true }) : r;
  }
  if (t.isIntersection && t.isIntersection()) {
    let r = null;
    for (const x of t.types) {
      const y = typ(x, depth + 1);
      if (y.k !== "obj" && y.k !== "any") return y;
      if (!r || y.k === "any") r = y;
    }
    return r || tANY;
  }
  if (t.flags & F.TypeParameter || t.flags & F.IndexedAccess || t.flags & F.Any || t.flags & F.Unknown) {
    const c = checker.getBaseConstraintOfType(t);
    if (c && c !== t && !(c.flags & (F.Any | F.Unknown))) { const r = typ(c, depth + 1); if (r.k !== "obj") return r; }
    return tANY;
  }
  const s = t.getSymbol && t.getSymbol();
  const n = s ? s.getName() : "";
  if (BYTES.has(n)) return tBYTES;
  if (checker.isArrayType(t)) return { k: "array", e: typ(checker.getTypeArguments(t)[0], depth + 1) };
  if (checker.isTupleType(t)) {
    const as = checker.getTypeArguments(t).map((x) => typ(x, depth + 1));
    let e = as[0] || tANY;
    for (const x of as) if (x.k !== e.k) e = tANY;
    return { k: "array", e };
  }
  if (n === "MapIterator" || n === "SetIterator" || n === "ArrayIterator" || n === "IterableIterator") return { k: "array", e: typ((checker.getTypeArguments(t) || [])[0], depth + 1) };
  if (n === "Generator" || n === "AsyncGenerator") return { k: "array", e: typ((checker.getTypeArguments(t) || [])[0], depth + 1) };
  if (n === "Promise" || n === "PromiseLike") return typ((checker.getTypeArguments(t) || [])[0], depth + 1);
  if (n === "Map" || n === "Set" || n === "WeakMap" || n === "ReadonlyMap" || n === "ReadonlySet") return { k: "map", n };
  if (t.getCallSignatures && t.getCallSignatures().length && !t.getProperties().length) return { k: "func" };
  return { k: "obj", n };
}
const typeAt = (n) => { try { return checker.getTypeAtLocation(n); } catch (e) { return undefined; } };
const kindAt = (n) => typ(typeAt(n));

function symOf(n) {
  let s = checker.getSymbolAtLocation(n);
  if (s && s.flags & ts.SymbolFlags.Alias) s = checker.getAliasedSymbol(s);
  return s;
}

// ---- functions and classes --------------------------------------------------
const fns = new Map(); // declaration node -> name
const queue = [];
const out = [];
const classes = [];
const methodsByName = new Map();
function fnName(decl, base) {
  if (fns.has(decl)) return fns.get(decl);
  fns.set(decl, base);
  return base;
}
function memberName(m) {
  if (m.kind === SK.Constructor) return "constructor";
  return m.name ? m.name.getText() : "?";
}
function collect(sf) {
  const pk = pkgOf(sf);
  const visit = (n) => {
    if (ts.isFunctionDeclaration(n) && n.body) {
      const nm = n.name ? n.name.text : "default";
      fnName(n, `${pk}.${nm}`);
      queue.push({ node: n, name: `${pk}.${nm}`, short: nm, pkg: pk, recv: "", exported: !!(ts.getCombinedModifierFlags(n) & ts.ModifierFlags.Export) });
      return;
    } else if (ts.isClassDeclaration(n)) {
      const cn = n.name ? n.name.text : "default";
      classes.push(n);
      let hasCtor = false;
      for (const m of n.members) {
        if ((ts.isMethodDeclaration(m) || ts.isGetAccessor(m) || ts.isSetAccessor(m)) && m.body) {
          const nm = memberName(m);
          const pre = ts.isGetAccessor(m) ? "get " : ts.isSetAccessor(m) ? "set " : "";
          const full = `(${pk}.${cn}).${pre}${nm}`;
          fnName(m, full);
          const st = !!(ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static);
          const priv = !!(ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Private);
          queue.push({ node: m, name: full, short: nm, pkg: pk, recv: cn, isStatic: st, exported: !priv });
          if (!st) {
            if (!methodsByName.has(nm)) methodsByName.set(nm, []);
            methodsByName.get(nm).push({ m, cls: n });
          }
        } else if (ts.isPropertyDeclaration(m) && m.initializer && (ts.isArrowFunction(m.initializer) || ts.isFunctionExpression(m.initializer))) {
          // a method written as a property
        } else if (ts.isConstructorDeclaration(m) && m.body) {
          hasCtor = true;
          fnName(m, `(${pk}.${cn}).constructor`);
          fnName(n, `(${pk}.${cn}).constructor`);
          queue.push({ node: m, name: `(${pk}.${cn}).constructor`, short: "constructor", pkg: pk, recv: cn, ctor: n });
        }
      }
      if (!hasCtor) {
        fnName(n, `(${pk}.${cn}).constructor`);
        queue.push({ node: n, name: `(${pk}.${cn}).constructor`, short: "constructor", pkg: pk, recv: cn, ctor: n });
      }
      return;
    } else if (ts.isVariableStatement(n)) {
      for (const d of n.declarationList.declarations) {
        if (ts.isIdentifier(d.name) && d.initializer && (ts.isArrowFunction(d.initializer) || ts.isFunctionExpression(d.initializer))) {
          const nm = d.name.text;
          fnName(d.initializer, `${pk}.${nm}`);
          queue.push({ node: d.initializer, name: `${pk}.${nm}`, short: nm, pkg: pk, recv: "", exported: true });
        }
      }
      return;
    } else if (ts.isModuleBlock && ts.isModuleBlock(n)) return;
    ts.forEachChild(n, visit);
  };
  for (const s of sf.statements) {
    if (ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s) || ts.isVariableStatement(s)) visit(s);
  }
}

// ---- variables --------------------------------------------------------------
function isFnLike(n) {
  return ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isArrowFunction(n) || ts.isFunctionExpression(n) ||
    ts.isConstructorDeclaration(n) || ts.isGetAccessor(n) || ts.isSetAccessor(n);
}
function enclosingFn(n) {
  let p = n.parent;
  while (p && !isFnLike(p) && !ts.isSourceFile(p) && !ts.isClassDeclaration(p)) p = p.parent;
  return p;
}
const boxedCache = new Map();
// a variable lives in a cell when a nested function sees it change
function boxed(sym) {
  if (boxedCache.has(sym)) return boxedCache.get(sym);
  const d = sym.valueDeclaration;
  let r = false;
  if (d && (ts.isVariableDeclaration(d) || ts.isBindingElement(d) || ts.isParameter(d))) {
    const home = enclosingFn(d);
    let captured = false, writes = 0, early = false;
    const scan = (n) => {
      if (ts.isIdentifier(n) && n !== d.name && n.text === sym.getName()) {
        const s = ts.isShorthandPropertyAssignment(n.parent) ? checker.getShorthandAssignmentValueSymbol(n.parent) : symOf(n);
        if (s === sym) {
          if (enclosingFn(n) !== home) {
            captured = true;
            if (n.pos < d.pos) early = true;
          }
          if (isWrite(n)) writes++;
        }
      }
      ts.forEachChild(n, scan);
    };
    if (home) scan(home);
    const init = ts.isParameter(d) || d.initializer || ts.isBindingElement(d) || isForOf(d);
    r = captured && (writes > (init ? 0 : 0) || early || !init);
  }
  boxedCache.set(sym, r);
  return r;
}
function isForOf(d) {
  return d.parent && ts.isVariableDeclarationList(d.parent) && d.parent.parent && (ts.isForOfStatement(d.parent.parent) || ts.isForInStatement(d.parent.parent));
}
function isWrite(n) {
  const p = n.parent;
  if (ts.isBinaryExpression(p) && p.left === n && p.operatorToken.kind >= SK.FirstAssignment && p.operatorToken.kind <= SK.LastAssignment) return true;
  if ((ts.isPrefixUnaryExpression(p) || ts.isPostfixUnaryExpression(p)) && (p.operator === SK.PlusPlusToken || p.operator === SK.MinusMinusToken)) return true;
  if (ts.isArrayLiteralExpression(p) || ts.isSpreadElement(p)) {
    let q = p;
    while (ts.isArrayLiteralExpression(q.parent) || ts.isSpreadElement(q.parent)) q = q.parent;
    return ts.isBinaryExpression(q.parent) && q.parent.left === q && q.parent.operatorToken.kind === SK.EqualsToken;
  }
  return false;
}

// ---- one function -------------------------------------------------------------
const NIL = { c: { nil: 1 } };
const INT = (i) => ({ c: { i: String(i) } });
const STR = (s) => ({ c: { s } });
const BOOL = (b) => ({ c: { b } });
let anon = 0;

class Fn {
  constructor(q, parent) {
    this.q = q;
    this.parent = parent;
    this.nreg = 0;
    this.blocks = [];
    this.free = []; // {key, reg}
    this.freeKey = new Map();
    this.subst = new Map();
    this.catches = [];
    this.breaks = [];
    this.names = {};
    this.cur = this.block(true);
    this.pos = "";
    this.loopDepth = 0;
  }
  reg() { return ++this.nreg; }
  block(sealed) {
    const b = { idx: this.blocks.length, instrs: [], phis: [], preds: [], succs: [], sealed: !!sealed, defs: new Map(), inc: new Map(), done: false };
    this.blocks.push(b);
    return b;
  }
  emit(op, o) {
    const i = Object.assign({ op, pos: this.pos }, o);
    this.cur.instrs.push(i);
    return i.dst ? { r: i.dst } : undefined;
  }
  val(op, o, t) { return this.emit(op, Object.assign({ dst: this.reg(), t: t || tANY }, o)); }
  edge(a, b) { a.succs.push(b); b.preds.push(a); }
  jump(b) {
    if (this.cur.done) return;
    this.emit("Jump", {});
    this.edge(this.cur, b);
    this.cur.done = true;
  }
  br(c, t, f) {
    if (this.cur.done) return;
    if (t === f) return this.jump(t);
    this.emit("If", { a: [c] });
    this.edge(this.cur, t);
    this.edge(this.cur, f);
    this.cur.done = true;
  }
  go(b) { this.cur = b; }
  seal(b) {
    if (b.sealed) return;
    b.sealed = true;
    for (const [k, phi] of b.inc) this.fillPhi(k, phi, b);
    b.inc.clear();
  }
  write(k, v, b) { (b || this.cur).defs.set(k, v); }
  res(v) {
    while (v && v.r && this.subst.has(v.r)) v = this.subst.get(v.r);
    return v;
  }
  read(k, b, t) {
    b = b || this.cur;
    if (b.defs.has(k)) return this.res(b.defs.get(k));
    let v;
    if (!b.sealed) {
      const phi = this.phi(b, t);
      b.inc.set(k, phi);
      v = { r: phi.dst };
    } else if (b.preds.length === 0) {
      v = b.idx === 0 ? this.outer(k) : NIL;
    } else if (b.preds.length === 1) {
      v = this.read(k, b.preds[0], t);
    } else {
      const phi = this.phi(b, t);
      b.defs.set(k, { r: phi.dst });
      v = this.fillPhi(k, phi, b);
    }
    b.defs.set(k, v);
    return v;
  }
  phi(b, t) {
    const p = { op: "Phi", dst: this.reg(), a: [], edge: [], t: t || tANY, pos: this.pos, block: b };
    b.phis.push(p);
    return p;
  }
  fillPhi(k, phi, b) {
    for (const p of b.preds) {
      phi.a.push(this.read(k, p, phi.t));
      phi.edge.push(p.idx);
    }
    return this.simplify(phi);
  }
  simplify(phi) {
    let same = null;
    for (const a0 of phi.a) {
      const a = this.res(a0);
      if (a.r === phi.dst) continue;
      if (same && !sameOp(same, a)) return { r: phi.dst };
      same = a;
    }
    if (!same) same = NIL;
    this.subst.set(phi.dst, same);
    phi.dead = true;
    for (const b of this.blocks) for (const p of b.phis) {
      if (!p.dead && p.a.length === b.preds.length && p.a.some((a) => a.r === phi.dst)) this.simplify(p);
    }
    return this.res(same);
  }
  // a variable of an enclosing function
  outer(k) {
    if (this.freeKey.has(k)) return { r: this.freeKey.get(k) };
    if (!this.parent) return NIL;
    const r = this.reg();
    this.freeKey.set(k, r);
    this.free.push({ k, r });
    this.names[r] = typeof k === "string" ? k : k.getName ? k.getName() : "?";
    return { r };
  }
  finish() {
    if (!this.cur.done) { this.emit("Return", { a: this.q.ctor ? [] : [NIL] }); this.cur.done = true; }
    for (const b of this.blocks) {
      this.seal(b);
      if (!b.done) { b.instrs.push({ op: "Return", a: [NIL], pos: this.pos }); b.done = true; }
    }
    // prune what cannot be reached
    const seen = new Set();
    const st = [this.blocks[0]];
    while (st.length) {
      const b = st.pop();
      if (seen.has(b)) continue;
      seen.add(b);
      for (const s of b.succs) st.push(s);
    }
    const keep = this.blocks.filter((b) => seen.has(b));
    const idx = new Map(keep.map((b, i) => [b, i]));
    const old = new Map(keep.map((b) => [b.idx, b]));
    const R = (v) => this.res(v);
    const blocks = keep.map((b) => {
      const phis = b.phis.filter((p) => !p.dead).map((p) => {
        const a = [], edge = [];
        p.a.forEach((v, i) => { const pb = old.get(p.edge[i]); if (pb) { a.push(R(v)); edge.push(idx.get(pb)); } });
        return { op: "Phi", dst: p.dst, a, edge, t: p.t, pos: p.pos };
      });
      const ins = b.instrs.map((i) => {
        const j = Object.assign({}, i, { a: (i.a || []).map((v) => (v ? R(v) : v)) });
        if (i.catch) j.catch = idx.get(i.catch) + 1;
        return j;
      });
      return { instrs: phis.concat(ins), succs: b.succs.map((s) => idx.get(s)), preds: b.preds.filter((p) => seen.has(p)).map((p) => idx.get(p)) };
    });
    return blocks;
  }
  temp() { return { getName: () => "tmp" }; }

  // ---- calls
  call(name, args, t, o) {
    const ins = Object.assign({ a: args, call: Object.assign({ name }, (o || {}).call), t: t || tANY, dst: this.reg() }, o && o.extra);
    const c = this.catches[this.catches.length - 1];
    if (c) ins.catch = c;
    const r = this.emit("Call", ins);
    if (c) {
      const next = this.block();
      this.emit("Jump", {});
      this.edge(this.cur, next);
      this.edge(this.cur, c);
      this.cur.done = true;
      this.seal(next);
      this.go(next);
    }
    return r;
  }
  static_(decl, args, t, o) { return this.call(fns.get(decl), args, t, Object.assign({}, o, { call: { fn: fns.get(decl) } })); }
  dyn(f, args, t, at) { return this.call("dynamic", [f].concat(args), t, { call: { dynamic: true, argt: at } }); }
  throw_(v) {
    const c = this.catches[this.catches.length - 1];
    if (c) { this.jump(c); } else { this.emit("Panic", { a: [v || NIL] }); this.cur.done = true; }
    const b = this.block(true);
    this.go(b);
  }

  // ---- values
  items(arr, t) {
    const ad = this.val("FieldAddr", { a: [arr], s: "$items", own: "Array" }, { k: "ptr", e: { k: "slice", e: (t && t.e) || tANY } });
    return { ad, v: this.val("Load", { a: [ad] }, { k: "slice", e: (t && t.e) || tANY }) };
  }
  len(v, t) {
    let x = v, k = t;
    if (t.k === "array") { x = this.items(v, t).v; k = { k: "slice", e: t.e || tANY }; }
    return this.call("builtin:len", [x], tINT, { call: { argt: [k] } });
  }
  index(v, i, t, rt) {
    if (t.k === "array") {
      const it = this.items(v, t);
      const a = this.val("IndexAddr", { a: [it.v, i], ot: { k: "slice", e: t.e || tANY } }, { k: "ptr", e: t.e || tANY });
      return this.val("Load", { a: [a] }, rt || t.e || tANY);
    }
    if (t.k === "bytes") {
      const a = this.val("IndexAddr", { a: [v, i], ot: tBYTES }, { k: "ptr", e: { k: "byte" } });
      return this.val("Load", { a: [a] }, { k: "byte" });
    }
    if (t.k === "string") return this.call("ts:String.at", [v, i], tSTR);
    return this.call("ts:getprop", [v, i], rt || tANY);
  }
  setIndex(v, i, x, t) {
    if (t.k === "array") {
      this.call("ts:setelem", [v, i, x], tNILT, { call: { argt: [t, tINT, t.e || tANY] } });
      return;
    }
    if (t.k === "bytes") {
      const a = this.val("IndexAddr", { a: [v, i], ot: tBYTES }, { k: "ptr", e: { k: "byte" } });
      const b = this.call("ts:toByte", [x], { k: "byte" });
      this.emit("Store", { a: [a, b], ot: { k: "byte" } });
      return;
    }
    this.call("ts:setprop", [v, i, x], tNILT);
  }
  field(o, name, t) {
    const ad = this.val("FieldAddr", { a: [o], s: name, own: "obj" }, { k: "ptr", e: t });
    return this.val("Load", { a: [ad] }, t);
  }
  setField(o, name, v, t) {
    const ad = this.val("FieldAddr", { a: [o], s: name, own: "obj" }, { k: "ptr", e: t });
    this.emit("Store", { a: [ad, v], ot: t });
  }
  bin(op, a, b, ot, t) { return this.val("Bin", { a: [a, b], s: op, ot }, t); }
  not(c) { return this.val("Un", { a: [c], s: "!" }, tBOOL); }
  truth(v, t) {
    if (v.c) {
      if ("b" in v.c) return v;
      if (v.c.nil) return BOOL(false);
    }
    switch (t.k) {
      case "bool": return t.opt ? this.bin("==", v, BOOL(true), tBOOL, tBOOL) : v;
      case "int": case "byte":
        if (!t.opt) return this.bin("!=", v, INT(0), tINT, tBOOL);
        break;
      case "string":
        if (!t.opt) return this.bin("!=", this.len(v, t), INT(0), tINT, tBOOL);
        break;
      case "obj": case "array": case "bytes": case "map": case "func":
        return this.bin("!=", v, NIL, t, tBOOL);
      case "nil": return BOOL(false);
    }
    return this.call("ts:truthy", [v], tBOOL);
  }
  cond(e, t, f) {
    e = strip(e);
    if (ts.isPrefixUnaryExpression(e) && e.operator === SK.ExclamationToken) return this.cond(e.operand, f, t);
    if (ts.isBinaryExpression(e) && e.operatorToken.kind === SK.AmpersandAmpersandToken) {
      const m = this.block();
      this.cond(e.left, m, f);
      this.seal(m);
      this.go(m);
      return this.cond(e.right, t, f);
    }
    if (ts.isBinaryExpression(e) && e.operatorToken.kind === SK.BarBarToken) {
      const m = this.block();
      this.cond(e.left, t, m);
      this.seal(m);
      this.go(m);
      return this.cond(e.right, t, f);
    }
    if (e.kind === SK.TrueKeyword) return this.jump(t);
    if (e.kind === SK.FalseKeyword) return this.jump(f);
    const v = this.expr(e);
    this.at(e);
    this.br(this.truth(v, kindAt(e)), t, f);
  }
  at(n) { this.pos = posOf(n); }

  // ---- variables
  varGet(sym, n) {
    const d = sym.valueDeclaration;
    if (d) {
      if (ts.isFunctionDeclaration(d) && fns.has(d)) return { f: fns.get(d) };
      if (ts.isClassDeclaration(d)) return NIL;
      if (ts.isEnumDeclaration(d)) return this.call("ts:enum." + d.name.text, [], tANY);
      if (ts.isVariableDeclaration(d)) {
        const home = enclosingFn(d);
        if (home && ts.isSourceFile(home)) {
          if (!isSrc(home)) return this.call("ts:global." + sym.getName(), [], kindAt(n));
          if (d.initializer && fns.has(d.initializer)) return { f: fns.get(d.initializer) };
          if (d.initializer && ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const) return this.expr(d.initializer);
          return this.call("ts:global." + sym.getName(), [], kindAt(n));
        }
      }
      if (!ts.isVariableDeclaration(d) && !ts.isParameter(d) && !ts.isBindingElement(d) && !ts.isFunctionDeclaration(d)) return this.call("ts:global." + sym.getName(), [], kindAt(n));
      if (!isSrc(d.getSourceFile())) return this.call("ts:global." + sym.getName(), [], kindAt(n));
    }
    const t = n ? typ(checker.getTypeOfSymbolAtLocation(sym, d || n)) : tANY;
    const v = this.read(sym, null, t);
    if (boxed(sym)) return this.val("Load", { a: [v] }, t);
    return v;
  }
  varSet(sym, v, t) {
    if (boxed(sym)) {
      this.emit("Store", { a: [this.read(sym), v], ot: t || tANY });
    } else this.write(sym, v);
  }
  declare(sym, v, t) {
    if (boxed(sym)) {
      const c = this.val("Alloc", { s: sym.getName() }, { k: "ptr", e: t });
      this.write(sym, c);
      this.emit("Store", { a: [c, v], ot: t });
    } else {
      this.write(sym, v);
      if (v.r && !this.names[v.r]) this.names[v.r] = sym.getName();
    }
  }
  bind(pat, v, t, ty) {
    if (ts.isIdentifier(pat)) return this.declare(checker.getSymbolAtLocation(pat), v, typ(typeAt(pat)));
    if (ts.isObjectBindingPattern(pat)) {
      for (const el of pat.elements) {
        if (el.dotDotDotToken) { this.bind(el.name, this.call("ts:rest", [v], tANY), tANY); continue; }
        const pn = (el.propertyName || el.name).getText();
        const et = kindAt(el.name);
        let pt = et;
        const p = ty && ty.getProperty && ty.getProperty(pn);
        const pty = p ? checker.getTypeOfSymbolAtLocation(p, el) : undefined;
        if (pty) pt = typ(pty);
        let x = this.prop(v, t, ty, pn, pt, el);
        x = this.dflt(el, x, pt);
        this.bind(el.name, x, pt, pty || typeAt(el.name));
      }
      return;
    }
    let i = 0;
    for (const el of pat.elements) {
      if (!ts.isOmittedExpression(el)) {
        if (el.dotDotDotToken) { this.bind(el.name, this.call("ts:restFrom", [v, INT(i)], kindAt(el.name)), kindAt(el.name)); }
        else {
          const et = kindAt(el.name);
          const at = t && t.k === "array" ? t : { k: "array", e: et };
          let x = this.index(v, INT(i), at, et);
          x = this.dflt(el, x, Object.assign({}, et, { opt: true }));
          this.bind(el.name, x, et, typeAt(el.name));
        }
      }
      i++;
    }
  }
  dflt(el, x, t) {
    if (!el.initializer) return x;
    const k = this.temp();
    const has = this.block(), no = this.block(), end = this.block();
    this.br(this.bin("==", x, NIL, t, tBOOL), no, has);
    this.seal(no); this.seal(has);
    this.go(no); this.write(k, this.expr(el.initializer)); this.jump(end);
    this.go(has); this.write(k, x); this.jump(end);
    this.seal(end); this.go(end);
    return this.read(k, null, t);
  }
  prop(o, t, ty, name, rt, n) {
    if (name === "length" && (t.k === "array" || t.k === "bytes" || t.k === "string")) return this.len(o, t);
    if (t.k === "bytes") {
      if (name === "byteLength") return this.len(o, t);
      if (name === "buffer") return o;
      if (name === "byteOffset") return INT(0);
    }
    if (t.k === "map" && name === "size") return this.len(o, t);
    const p = ty && ty.getProperty && ty.getProperty(name);
    const d = p && p.valueDeclaration;
    if (d && ts.isGetAccessor(d) && fns.has(d)) return this.static_(d, [o], rt);
    if (d && ts.isMethodDeclaration(d) && fns.has(d)) return this.call("ts:bindMethod", [{ f: fns.get(d) }, o], { k: "func" });
    return this.field(o, name, rt);
  }

  push(o, x) {
    const jt = { k: "array", e: tANY };
    const it = this.items(o, jt);
    const one = this.call("ts:one", [x], { k: "slice", e: tANY });
    const sl = { k: "slice", e: tANY };
    const r = this.call("builtin:append", [it.v, one], sl, { call: { argt: [sl, sl] } });
    this.emit("Store", { a: [it.ad, r], ot: sl });
  }
  // ---- expressions
  expr(e) {
    e = strip(e);
    const pos = this.pos;
    this.at(e);
    const v = this.expr1(e);
    return v || NIL;
  }
  expr1(e) {
    switch (e.kind) {
      case SK.NumericLiteral: {
        const x = Number(e.text);
        return Number.isInteger(x) ? INT(BigInt(x).toString()) : { c: { f: e.text } };
      }
      case SK.BigIntLiteral: return INT(BigInt(e.text.replace(/n$/, "")).toString());
      case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return STR(e.text);
      case SK.TrueKeyword: return BOOL(true);
      case SK.FalseKeyword: return BOOL(false);
      case SK.NullKeyword: return NIL;
      case SK.ThisKeyword: return this.read("this", null, { k: "obj", n: "this" });
      case SK.RegularExpressionLiteral: return this.call("ts:regexp", [STR(e.text)], { k: "obj", n: "RegExp" });
      case SK.OmittedExpression: return NIL;
    }
    if (ts.isIdentifier(e)) {
      if (e.text === "undefined") return NIL;
      const s = symOf(e);
      if (!s) return this.call("ts:global." + e.text, [], kindAt(e));
      return this.varGet(s, e);
    }
    if (ts.isTemplateExpression(e)) {
      const a = [STR(e.head.text)];
      for (const sp of e.templateSpans) { a.push(this.expr(sp.expression)); a.push(STR(sp.literal.text)); }
      return this.call("ts:template", a, tSTR);
    }
    if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) {
      const ec = enumConst(e);
      if (ec !== undefined) return ec;
      if (e.questionDotToken) return this.optional(e, () => this.access(e));
      return this.access(e);
    }
    if (ts.isCallExpression(e)) {
      const callee = strip(e.expression);
      if (e.questionDotToken || (ts.isPropertyAccessExpression(callee) && callee.questionDotToken)) return this.optionalCall(e);
      return this.callExpr(e);
    }
    if (ts.isNewExpression(e)) return this.newExpr(e);
    if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return this.closure(e);
    if (ts.isObjectLiteralExpression(e)) return this.object(e);
    if (ts.isArrayLiteralExpression(e)) return this.array(e);
    if (ts.isBinaryExpression(e)) return this.binary(e);
    if (ts.isConditionalExpression(e)) {
      const k = this.temp();
      const a = this.block(), b = this.block(), end = this.block();
      this.cond(e.condition, a, b);
      this.seal(a); this.seal(b);
      this.go(a); this.write(k, this.expr(e.whenTrue)); this.jump(end);
      this.go(b); this.write(k, this.expr(e.whenFalse)); this.jump(end);
      this.seal(end); this.go(end);
      return this.read(k, null, kindAt(e));
    }
    if (ts.isPrefixUnaryExpression(e)) {
      switch (e.operator) {
        case SK.ExclamationToken: return this.logical(e);
        case SK.MinusToken: {
          const v = this.expr(e.operand);
          if (v.c && v.c.i !== undefined) return INT((-BigInt(v.c.i)).toString());
          return this.val("Un", { a: [v], s: "-" }, tINT);
        }
        case SK.PlusToken: return this.call("ts:Number", [this.expr(e.operand)], tINT);
        case SK.TildeToken: return this.call("ts:bit~", [this.expr(e.operand)], tINT);
        default: return this.update(e.operand, e.operator, true);
      }
    }
    if (ts.isPostfixUnaryExpression(e)) return this.update(e.operand, e.operator, false);
    if (ts.isAwaitExpression(e)) {
      const v = this.expr(e.expression);
      return v;
    }
    if (ts.isYieldExpression(e)) {
      const v = e.expression ? this.expr(e.expression) : NIL;
      this.at(e);
      return this.call(e.asteriskToken ? "ts:yieldall" : "ts:yield", [v], tANY, { call: { argt: [e.expression ? strictKind(e.expression) : tANY] } });
    }
    if (ts.isTypeOfExpression(e)) return this.call("ts:typeof", [this.expr(e.expression)], tSTR);
    if (ts.isVoidExpression(e)) { this.expr(e.expression); return NIL; }
    if (ts.isSpreadElement(e)) return this.expr(e.expression);
    if (ts.isDeleteExpression(e)) { this.call("ts:delete", [], tBOOL); return BOOL(true); }
    return this.call("ts:other." + SK[e.kind], [], kindAt(e));
  }
  // a condition as a value
  logical(e) {
    const k = this.temp();
    const a = this.block(), b = this.block(), end = this.block();
    this.cond(e, a, b);
    this.seal(a); this.seal(b);
    this.go(a); this.write(k, BOOL(true)); this.jump(end);
    this.go(b); this.write(k, BOOL(false)); this.jump(end);
    this.seal(end); this.go(end);
    return this.read(k, null, tBOOL);
  }
  optional(e, f) {
    const o = this.expr(e.expression);
    const k = this.temp();
    const has = this.block(), no = this.block(), end = this.block();
    this.br(this.bin("==", o, NIL, kindAt(e.expression), tBOOL), no, has);
    this.seal(no); this.seal(has);
    this.go(no); this.write(k, NIL); this.jump(end);
    this.go(has); this.write(k, this.access(e, o)); this.jump(end);
    this.seal(end); this.go(end);
    return this.read(k, null, Object.assign({}, kindAt(e), { opt: true }));
  }
  optionalCall(e) {
    const callee = strip(e.expression);
    const tgt = ts.isPropertyAccessExpression(callee) && callee.questionDotToken ? callee.expression : callee;
    const o = this.expr(tgt);
    const k = this.temp();
    const has = this.block(), no = this.block(), end = this.block();
    this.br(this.bin("==", o, NIL, kindAt(tgt), tBOOL), no, has);
    this.seal(no); this.seal(has);
    this.go(no); this.write(k, NIL); this.jump(end);
    this.go(has); this.write(k, this.callExpr(e, tgt === callee ? undefined : o)); this.jump(end);
    this.seal(end); this.go(end);
    return this.read(k, null, Object.assign({}, kindAt(e), { opt: true }));
  }
  access(e, o) {
    // static members and globals
    if (ts.isPropertyAccessExpression(e)) {
      const s = symOf(e);
      const d = s && s.valueDeclaration;
      if (d && ts.isPropertyDeclaration(d) && ts.getCombinedModifierFlags(d) & ts.ModifierFlags.Static && d.initializer && isSrc(d.getSourceFile())) return this.expr(d.initializer);
      if (o === undefined) o = this.expr(e.expression);
      const ty = nonNull(typeAt(e.expression));
      this.at(e);
      return this.prop(o, strictKind(e.expression), ty, e.name.text, declKind(s, e), e);
    }
    if (o === undefined) o = this.expr(e.expression);
    const i = this.expr(e.argumentExpression);
    this.at(e);
    const t = strictKind(e.expression);
    if (i.c && i.c.s !== undefined && t.k !== "array" && t.k !== "bytes") return this.field(o, i.c.s, kindAt(e));
    return this.index(o, i, t, kindAt(e));
  }
  args(e) {
    const r = [];
    for (const a of e.arguments || []) r.push(this.expr(a));
    return r;
  }
  // arguments of a function with source: missing ones are undefined
  pad(d, args) {
    const n = (d.parameters || []).filter((p) => p.name.getText() !== "this").length;
    while (args.length < n) args.push(NIL);
    return args;
  }
  callExpr(e, recv) {
    const callee = strip(e.expression);
    const rt = kindAt(e);
    if (callee.kind === SK.SuperKeyword) { this.args(e); return NIL; }
    if (ts.isPropertyAccessExpression(callee)) {
      const s = symOf(callee);
      const d = s && s.valueDeclaration;
      const name = callee.name.text;
      if (d && isSrc(d.getSourceFile())) {
        if (ts.isMethodDeclaration(d) && fns.has(d)) {
          const st = !!(ts.getCombinedModifierFlags(d) & ts.ModifierFlags.Static);
          const o = st ? null : recv || this.expr(callee.expression);
          const a = this.pad(d, this.args(e));
          this.at(e);
          return this.static_(d, st ? a : [o].concat(a), rt);
        }
        if (ts.isMethodSignature(d) || ts.isMethodDeclaration(d)) {
          const o = recv || this.expr(callee.expression);
          const c = (methodsByName.get(name) || []);
          const a = this.args(e);
          this.at(e);
          if (c.length === 1) return this.static_(c[0].m, [o].concat(this.pad(c[0].m, a)), rt);
          return this.call("ts:invoke." + name, [o].concat(a), rt);
        }
        // a property holding a function
        const f = recv ? this.prop(recv, strictKind(callee.expression), nonNull(typeAt(callee.expression)), name, { k: "func" }, e) : this.expr(callee);
        const a = this.args(e);
        this.at(e);
        return this.dyn(f, a, rt, (e.arguments || []).map(kindAt));
      }
      return this.method(e, callee, name, rt, recv);
    }
    if (ts.isIdentifier(callee)) {
      const s = symOf(callee);
      const d = s && s.valueDeclaration;
      if (d && isSrc(d.getSourceFile())) {
        const f = ts.isVariableDeclaration(d) && d.initializer ? d.initializer : d;
        if (fns.has(f) && isFnLike(f)) {
          const a = this.pad(f, this.args(e));
          this.at(e);
          return this.static_(f, a, rt);
        }
        const v = this.expr(callee);
        const a = this.args(e);
        this.at(e);
        return this.dyn(v, a, rt, (e.arguments || []).map(kindAt));
      }
      const a = this.args(e);
      this.at(e);
      return this.call("ts:" + callee.text, a, rt, { call: { argt: (e.arguments || []).map(kindAt) } });
    }
    const f = this.expr(callee);
    const a = this.args(e);
    this.at(e);
    return this.dyn(f, a, rt, (e.arguments || []).map(kindAt));
  }
  method(e, callee, name, rt, recv) {
    const ty = nonNull(typeAt(callee.expression));
    const t = strictKind(callee.expression);
    let cls = ty && ty.getSymbol && ty.getSymbol() ? ty.getSymbol().getName() : t.k;
    if (ts.isIdentifier(callee.expression) && ["Math", "Object", "JSON", "Promise", "Array", "console", "Number", "BigInt", "String", "Date", "performance", "crypto"].includes(callee.expression.text)) cls = callee.expression.text;
    else if (t.k === "string") cls = "String";
    else if (t.k === "array") cls = "Array.prototype";
    else if (t.k === "map") cls = t.n || "Map";
    else if (t.k === "int") cls = "Number";
    const isP = ty && ty.getSymbol && ty.getSymbol() && ty.getSymbol().getName() === "Promise" && !(ts.isIdentifier(callee.expression) && callee.expression.text === "Promise");
    if (isP) cls = "Promise";
    const ns = ["Math", "Object", "JSON", "Array", "console", "Number", "BigInt", "String", "Date"].includes(cls) && ts.isIdentifier(callee.expression) && callee.expression.text === cls || (cls === "Promise" && !isP);
    const o = ns ? null : recv || this.expr(callee.expression);
    if (isP) {
      const fs_ = (e.arguments || []).map((a) => this.expr(a));
      if (name === "then") return this.dyn(fs_[0], [o], rt, [strictKind(callee.expression)]);
      return o;
    }
    if (cls === "Promise" && name === "all") return this.expr(e.arguments[0]);
    if (cls === "Promise" && name === "resolve") return e.arguments[0] ? this.expr(e.arguments[0]) : NIL;
    if (cls === "Promise" && name === "reject") { this.throw_(NIL); return NIL; }
    if (cls === "Array.prototype" && ["forEach", "map", "filter", "find", "findIndex", "some", "every", "reduce"].includes(name)) return this.higher(e, name, o, t, rt);
    if (ns && cls === "Array" && name === "from" && (e.arguments || []).length === 2) {
      const src = this.expr(e.arguments[0]);
      this.at(e);
      const t0 = { k: "array", e: tANY };
      const all = this.call("ts:Array.from", [src], t0, { call: { argt: [kindAt(e.arguments[0])] } });
      return this.higher(e, "map", all, t0, rt, e.arguments[1]);
    }
    if (ns && cls === "Object" && name === "assign" && e.arguments.length && !e.arguments.some(ts.isSpreadElement)) {
      const vs = e.arguments.map((x) => this.expr(x));
      this.at(e);
      for (let i = 1; i < vs.length; i++) this.copyProps(vs[0], vs[i], e.arguments[i]);
      return vs[0];
    }
    if (t.k === "map" && name === "forEach") {
      const f = this.expr(e.arguments[0]);
      this.iterate(o, t, (k, v) => this.dyn(f, [v, k], tANY));
      return NIL;
    }
    const a = this.args(e);
    this.at(e);
    if (t.k === "map") {
      const mt = { k: "map", n: t.n };
      if (name === "get") return this.val("Lookup", { a: [o, a[0]], ot: mt }, tANY);
      if (name === "has") {
        const r = this.val("Lookup", { a: [o, a[0]], ot: mt, comma: true }, { k: "tuple", f: [tANY, tBOOL] });
        return this.val("Extract", { a: [r], s: "1" }, tBOOL);
      }
      if (name === "set") { this.emit("MapUpdate", { a: [o, a[0], a[1]], ot: mt }); return o; }
      if (name === "add") { this.emit("MapUpdate", { a: [o, a[0], BOOL(true)], ot: mt }); return o; }
      if (name === "delete") { this.call("builtin:delete", [o, a[0]], tBOOL, { call: { argt: [mt, tANY] } }); return BOOL(true); }
      if (name === "keys" || name === "values" || name === "entries") {
        const at = { k: "array", e: tANY };
        const res = this.call("ts:array", [], at);
        this.iterate(o, t, (k, v) => this.push(res, name === "keys" ? k : name === "values" ? v : this.call("ts:array", [k, v], at, { extra: { s: "00" } })));
        return res;
      }
    }
    if (cls === "Array.prototype" && name === "push" && !(e.arguments || []).some(ts.isSpreadElement)) {
      for (const x of a) this.push(o, x);
      return this.len(o, t);
    }
    const at = (ns ? [] : [t]).concat((e.arguments || []).map(kindAt));
    const flags = (e.arguments || []).map((x) => (ts.isSpreadElement(x) ? "1" : "0")).join("");
    return this.call(`ts:${cls}.${name}`, (ns ? [] : [o]).concat(a), rt, { call: { argt: at }, extra: flags.includes("1") ? { s: flags } : {} });
  }
  // array methods that call a function become loops
  higher(e, name, o, t, rt, fe = e.arguments[0]) {
    const f = this.expr(fe);
    const fd = strip(fe);
    const np = isFnLike(fd) ? fd.parameters.length : 3;
    const et = t.e || tANY;
    const ki = this.temp(), ka = this.temp();
    let res;
    if (name === "map" || name === "filter") res = this.call("ts:array", [], rt);
    if (name === "reduce") this.write(ka, e.arguments[1] ? this.expr(e.arguments[1]) : NIL);
    this.at(e);
    this.write(ki, INT(0));
    const head = this.block(), body = this.block(), exit = this.block(), end = this.block();
    this.jump(head);
    this.go(head);
    const i = this.read(ki, null, tINT);
    const ra = name === "reduce" ? this.read(ka, null, rt) : null;
    this.br(this.bin("<", i, this.len(o, t), tINT, tBOOL), body, exit);
    this.seal(body);
    this.go(body);
    const x = this.index(o, i, t, et);
    let as = name === "reduce" ? [ra, x, i] : [x, i];
    as = as.slice(0, Math.max(1, Math.min(np, as.length)));
    const cb = typeAt(fe);
    const sig = cb && cb.getCallSignatures && cb.getCallSignatures()[0];
    const crt = sig ? typ(checker.getReturnTypeOfSignature(sig)) : tANY;
    const r = this.dyn(f, as, name === "map" ? crt : name === "reduce" ? rt : crt, [et, tINT]);
    const next = this.block();
    if (name === "map") { this.push(res, r); this.jump(next); }
    else if (name === "forEach") this.jump(next);
    else if (name === "reduce") { this.write(ka, r); this.jump(next); }
    else {
      const c = this.truth(r, crt.k === "any" ? tBOOL : crt);
      const hit = this.block();
      if (name === "every") this.br(c, next, hit);
      else this.br(c, hit, next);
      this.seal(hit);
      this.go(hit);
      if (name === "filter") { this.push(res, x); this.jump(next); }
      else {
        this.write(ka, name === "find" ? x : name === "findIndex" ? i : name === "some" ? BOOL(true) : BOOL(false));
        this.jump(end);
      }
    }
    this.seal(next);
    this.go(next);
    this.write(ki, this.bin("+", i, INT(1), tINT, tINT));
    this.jump(head);
    this.seal(head);
    this.seal(exit);
    this.go(exit);
    if (name === "find") this.write(ka, NIL);
    if (name === "findIndex") this.write(ka, INT(-1));
    if (name === "some") this.write(ka, BOOL(false));
    if (name === "every") this.write(ka, BOOL(true));
    this.jump(end);
    this.seal(end);
    this.go(end);
    if (res) return res;
    if (name === "forEach") return NIL;
    return this.read(ka, null, rt);
  }
  iterate(o, t, f) {
    if (t.k === "map") {
      const at = { k: "array", e: tANY };
      const keys = this.call("ts:mapkeys", [o], at);
      const ki = this.temp();
      this.write(ki, INT(0));
      const head = this.block(), body = this.block(), inc = this.block(), exit = this.block();
      this.jump(head);
      this.go(head);
      const i = this.read(ki, null, tINT);
      this.br(this.bin("<", i, this.len(keys, at), tINT, tBOOL), body, exit);
      this.seal(body);
      this.go(body);
      const k = this.index(keys, i, at, tANY);
      const v = t.n === "Set" ? k : this.val("Lookup", { a: [o, k], ot: { k: "map", n: t.n } }, tANY);
      this.breaks.push({ brk: exit, cont: inc });
      f(k, v);
      this.breaks.pop();
      this.jump(inc);
      this.seal(inc);
      this.go(inc);
      this.write(ki, this.bin("+", this.read(ki, null, tINT), INT(1), tINT, tINT));
      this.jump(head);
      this.seal(head);
      this.seal(exit);
      this.go(exit);
      return;
    }
    const it = this.val("Range", { a: [o], ot: t }, tANY);
    const head = this.block(), body = this.block(), exit = this.block();
    this.jump(head);
    this.go(head);
    const nx = this.val("Next", { a: [it] }, { k: "tuple", f: [tBOOL, tANY, tANY] });
    const ok = this.val("Extract", { a: [nx], s: "0" }, tBOOL);
    this.br(ok, body, exit);
    this.seal(body);
    this.go(body);
    const k = this.val("Extract", { a: [nx], s: "1" }, tANY);
    const v = this.val("Extract", { a: [nx], s: "2" }, tANY);
    this.breaks.push({ brk: exit, cont: head });
    f(k, v);
    this.breaks.pop();
    this.jump(head);
    this.seal(head);
    this.seal(exit);
    this.go(exit);
  }
  newExpr(e) {
    const s = symOf(strip(e.expression));
    const d = s && s.valueDeclaration;
    if (d && ts.isClassDeclaration(d) && fns.has(d)) {
      const ctor = d.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
      const a = ctor ? this.pad(ctor, this.args(e)) : this.args(e);
      this.at(e);
      const o = this.val("Alloc", { s: d.name ? d.name.text : "class" }, { k: "ptr", e: { k: "struct", n: s.getName() } });
      this.call(fns.get(d), [o].concat(a), tNILT, { call: { fn: fns.get(d) } });
      return o;
    }
    const name = strip(e.expression).getText();
    const a = this.args(e);
    this.at(e);
    if ((name === "Map" || name === "Set" || name === "WeakMap") && !a.length) return this.val("MakeMap", {}, { k: "map", n: name });
    if (name === "Uint8Array" || name === "DataView" || name === "ArrayBuffer") {
      const k = e.arguments && e.arguments[0] ? kindAt(e.arguments[0]) : tINT;
      return this.call("ts:new." + name, a, tBYTES, { call: { argt: [k] } });
    }
    return this.call("ts:new." + name, a, kindAt(e), { call: { argt: (e.arguments || []).map(kindAt) } });
  }
  closure(e) {
    const name = `${this.q.name}$${++anon}`;
    const fn = lowerFn({ node: e, name, short: name.split(/[.)]/).pop(), pkg: this.q.pkg, recv: "" }, this);
    const a = fn.free.map(({ k }) => this.read(k, null, tANY));
    return this.val("Closure", { a, call: { name, fn: name } }, { k: "func" });
  }
  copyProps(o, v, at) {
    const ty = nonNull(typeAt(at));
    const ps = ty ? ty.getProperties() : [];
    if (!ps.length) this.call("ts:copyprops", [o, v], tNILT);
    for (const q of ps) {
      const t = typ(checker.getTypeOfSymbolAtLocation(q, at));
      this.call("ts:copyprop", [o, v, STR(q.getName()), this.field(v, q.getName(), t)], tNILT, { call: { argt: [tANY, tANY, tSTR, t] } });
    }
  }
  object(e) {
    const o = this.val("Alloc", { s: "object" }, { k: "ptr", e: { k: "struct", n: "object" } });
    // what the literal leaves out is undefined
    const want = nonNull(checker.getContextualType(e));
    const got = typeAt(e);
    if (want && got && !(got.flags & ts.TypeFlags.Any) && e.properties.every((p) => !(p.name && ts.isComputedPropertyName(p.name)))) {
      for (const q of want.getProperties()) {
        if (q.flags & ts.SymbolFlags.Optional && !got.getProperty(q.getName())) this.call("ts:absent", [o, STR(q.getName())], tNILT);
      }
    }
    for (const p of e.properties) {
      if (ts.isPropertyAssignment(p)) {
        if (ts.isComputedPropertyName(p.name)) {
          const k = this.expr(p.name.expression);
          const v = this.expr(p.initializer);
          if (k.c && k.c.s !== undefined) this.setField(o, k.c.s, v, kindAt(p.initializer));
          else this.call("ts:setprop", [o, k, v], tNILT);
          continue;
        }
        const v = this.expr(p.initializer);
        this.setField(o, ts.isStringLiteral(p.name) ? p.name.text : p.name.getText(), v, kindAt(p.initializer));
      } else if (ts.isShorthandPropertyAssignment(p)) {
        const s = checker.getShorthandAssignmentValueSymbol(p);
        const v = s.valueDeclaration ? this.varGet(s.flags & ts.SymbolFlags.Alias ? checker.getAliasedSymbol(s) : s, p.name) : NIL;
        this.setField(o, p.name.text, v, kindAt(p.name));
      } else if (ts.isSpreadAssignment(p)) {
        this.copyProps(o, this.expr(p.expression), p.expression);
      } else if (ts.isMethodDeclaration(p) && p.body) {
        this.setField(o, p.name.getText(), this.closure(p), { k: "func" });
      }
    }
    return o;
  }
  array(e) {
    const a = [], fl = [];
    for (const x of e.elements) {
      a.push(this.expr(x));
      fl.push(ts.isSpreadElement(x) ? "1" : "0");
    }
    const t = kindAt(e);
    this.at(e);
    return this.call("ts:array", a, t.k === "array" ? t : { k: "array", e: tANY }, { extra: { s: fl.join("") }, call: { argt: e.elements.map((x) => kindAt(ts.isSpreadElement(x) ? x.expression : x)) } });
  }
  arith(op, a, b, la, lb, rt, isBig) {
    const i = (v) => v.c && v.c.i !== undefined ? BigInt(v.c.i) : null;
    const x = i(a), y = i(b);
    switch (op) {
      case "+":
        if (rt.k === "string") return this.call("ts:concat", [a, b], tSTR);
        if (rt.k === "any") return this.call("ts:add", [a, b], tANY);
      // fallthrough
      case "-": case "*":
        if (x !== null && y !== null) return INT((op === "+" ? x + y : op === "-" ? x - y : x * y).toString());
        return this.bin(op, a, b, tINT, tINT);
      case "/": return isBig ? this.bin("/", a, b, tINT, tINT) : this.call("ts:fdiv", [a, b], tINT);
      case "%": return this.bin("%", a, b, tINT, tINT);
      case "**":
        if (x !== null && y !== null && y >= 0n && y < 4096n) return INT((x ** y).toString());
        return this.call("ts:pow", [a, b], tINT);
    }
    if (isBig && x !== null && y !== null && y >= 0n && y < 4096n) {
      if (op === "<<") return INT((x << y).toString());
      if (op === ">>") return INT((x >> y).toString());
      if (op === "&") return INT((x & y).toString());
      if (op === "|") return INT((x | y).toString());
    }
    if (!isBig && x !== null && y !== null) {
      const p = Number(x), q = Number(y);
      const r = { "<<": () => p << q, ">>": () => p >> q, ">>>": () => p >>> q, "&": () => p & q, "|": () => p | q, "^": () => p ^ q }[op];
      if (r) return INT(String(r()));
    }
    return this.call((isBig ? "ts:big" : "ts:bit") + op, [a, b], tINT);
  }
  binary(e) {
    const K = e.operatorToken.kind;
    const op = ts.tokenToString(K);
    if (K === SK.EqualsToken) return this.assign(e.left, () => this.expr(e.right), kindAt(e.right));
    if (K === SK.CommaToken) { this.expr(e.left); return this.expr(e.right); }
    if (K >= SK.FirstCompoundAssignment && K <= SK.LastCompoundAssignment) {
      const bop = op.slice(0, -1);
      if (bop === "||" || bop === "&&" || bop === "??") {
        const cur = this.expr(e.left);
        const k = this.temp();
        const set = this.block(), keep = this.block(), end = this.block();
        const c = bop === "??" ? this.bin("==", cur, NIL, kindAt(e.left), tBOOL) : this.truth(cur, kindAt(e.left));
        if (bop === "||") this.br(c, keep, set); else this.br(c, set, keep);
        this.seal(set); this.seal(keep);
        this.go(set); this.write(k, this.assign(e.left, () => this.expr(e.right), kindAt(e.right))); this.jump(end);
        this.go(keep); this.write(k, cur); this.jump(end);
        this.seal(end); this.go(end);
        return this.read(k, null, kindAt(e));
      }
      return this.assign(e.left, (cur) => {
        const r = this.expr(e.right);
        this.at(e);
        return this.arith(bop, cur, r, kindAt(e.left), kindAt(e.right), kindAt(e.left), isBigAt(e.left));
      }, kindAt(e.left), true);
    }
    if (K === SK.AmpersandAmpersandToken || K === SK.BarBarToken) {
      const rt = kindAt(e);
      if (rt.k === "bool" && kindAt(e.left).k === "bool") return this.logical(e);
      const cur = this.expr(e.left);
      const k = this.temp();
      const r = this.block(), l = this.block(), end = this.block();
      const c = this.truth(cur, kindAt(e.left));
      if (K === SK.BarBarToken) this.br(c, l, r); else this.br(c, r, l);
      this.seal(r); this.seal(l);
      this.go(r); this.write(k, this.expr(e.right)); this.jump(end);
      this.go(l); this.write(k, cur); this.jump(end);
      this.seal(end); this.go(end);
      return this.read(k, null, rt);
    }
    if (K === SK.QuestionQuestionToken) {
      const cur = this.expr(e.left);
      const k = this.temp();
      const r = this.block(), l = this.block(), end = this.block();
      this.br(this.bin("==", cur, NIL, kindAt(e.left), tBOOL), r, l);
      this.seal(r); this.seal(l);
      this.go(r); this.write(k, this.expr(e.right)); this.jump(end);
      this.go(l); this.write(k, cur); this.jump(end);
      this.seal(end); this.go(end);
      return this.read(k, null, kindAt(e));
    }
    const a = this.expr(e.left), b = this.expr(e.right);
    this.at(e);
    const lt = kindAt(e.left), rt = kindAt(e.right);
    switch (op) {
      case "===": case "==": return this.bin("==", a, b, lt.k === "nil" ? rt : lt, tBOOL);
      case "!==": case "!=": return this.bin("!=", a, b, lt.k === "nil" ? rt : lt, tBOOL);
      case "<": case "<=": case ">": case ">=":
        if (lt.k === "string") return this.call("ts:strcmp" + op, [a, b], tBOOL);
        return this.bin(op, a, b, tINT, tBOOL);
      case "in": return this.call("ts:in", [a, b], tBOOL);
      case "instanceof": return this.call("ts:instanceof", [a, STR(e.right.getText())], tBOOL);
    }
    return this.arith(op, a, b, lt, rt, kindAt(e), isBigAt(e.left));
  }
  // assign writes to a place; mk gets the current value when asked to
  assign(target, mk, vt, rmw) {
    target = strip(target);
    if (ts.isIdentifier(target)) {
      const s = symOf(target);
      const v = mk(rmw ? this.varGet(s, target) : undefined);
      this.varSet(s, v, kindAt(target));
      return v;
    }
    if (ts.isPropertyAccessExpression(target)) {
      const o = this.expr(target.expression);
      const t = strictKind(target.expression);
      const ty = nonNull(typeAt(target.expression));
      const ft = declKind(symOf(target), target);
      const v = mk(rmw ? this.prop(o, t, ty, target.name.text, ft, target) : undefined);
      this.at(target);
      if (t.k === "array" && target.name.text === "length") this.call("ts:Array.setLength", [o, v], tNILT, { call: { argt: [t] } });
      else {
        const d = symOf(target) && symOf(target).declarations;
        const set = d && d.find((x) => ts.isSetAccessor(x) && fns.has(x));
        if (set) this.static_(set, [o, v], tNILT);
        else this.setField(o, target.name.text, v, ft);
      }
      return v;
    }
    if (ts.isElementAccessExpression(target)) {
      const o = this.expr(target.expression);
      const i = this.expr(target.argumentExpression);
      const t = strictKind(target.expression);
      let v;
      if (i.c && i.c.s !== undefined && t.k !== "array" && t.k !== "bytes") {
        v = mk(rmw ? this.field(o, i.c.s, kindAt(target)) : undefined);
        this.at(target);
        this.setField(o, i.c.s, v, kindAt(target));
        return v;
      }
      v = mk(rmw ? this.index(o, i, t, kindAt(target)) : undefined);
      this.at(target);
      this.setIndex(o, i, v, t);
      return v;
    }
    if (ts.isArrayLiteralExpression(target)) {
      const v = mk();
      const et = { k: "array", e: tANY };
      const xs = target.elements.map((el, i) => (ts.isOmittedExpression(el) ? null : this.index(v, INT(i), vt.k === "array" ? vt : et, kindAt(el))));
      target.elements.forEach((el, i) => { if (xs[i]) this.assign(el, () => xs[i], kindAt(el)); });
      return v;
    }
    if (ts.isObjectLiteralExpression(target)) {
      const v = mk();
      for (const p of target.properties) {
        if (ts.isShorthandPropertyAssignment(p)) {
          const s = checker.getShorthandAssignmentValueSymbol(p);
          this.varSet(s, this.field(v, p.name.text, kindAt(p.name)), kindAt(p.name));
        } else if (ts.isPropertyAssignment(p)) this.assign(p.initializer, () => this.field(v, p.name.getText(), kindAt(p.initializer)), kindAt(p.initializer));
      }
      return v;
    }
    mk();
    this.call("ts:other.assign", [], tNILT);
    return NIL;
  }
  update(target, op, prefix) {
    let old;
    const v = this.assign(target, (cur) => {
      old = cur;
      return this.arith(op === SK.PlusPlusToken ? "+" : "-", cur, INT(1), tINT, tINT, tINT, true);
    }, tINT, true);
    return prefix ? v : old;
  }

  // ---- statements
  stmt(s) {
    if (!s) return;
    this.at(s);
    if (ts.isBlock(s)) { for (const x of s.statements) this.stmt(x); return; }
    if (ts.isVariableStatement(s)) return this.decls(s.declarationList);
    if (ts.isExpressionStatement(s)) { this.expr(s.expression); return; }
    if (ts.isIfStatement(s)) {
      const t = this.block(), f = this.block(), end = s.elseStatement ? this.block() : f;
      this.cond(s.expression, t, f);
      this.seal(t);
      if (s.elseStatement) this.seal(f);
      this.go(t); this.stmt(s.thenStatement); this.jump(end);
      if (s.elseStatement) { this.go(f); this.stmt(s.elseStatement); this.jump(end); }
      this.seal(end);
      this.go(end);
      return;
    }
    if (ts.isWhileStatement(s) || ts.isDoStatement(s)) {
      const head = this.block(), body = this.block(), exit = this.block(), lab = this.label;
      this.label = undefined;
      const dow = ts.isDoStatement(s);
      this.jump(dow ? body : head);
      if (!dow) {
        this.go(head);
        this.cond(s.expression, body, exit);
        this.seal(body);
      }
      this.go(body);
      this.breaks.push({ brk: exit, cont: head, lab });
      this.stmt(s.statement);
      this.breaks.pop();
      this.jump(head);
      this.seal(head);
      if (dow) {
        this.go(head);
        this.cond(s.expression, body, exit);
        this.seal(body);
      }
      this.seal(exit);
      this.go(exit);
      return;
    }
    if (ts.isForStatement(s)) {
      if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) this.decls(s.initializer); else this.expr(s.initializer); }
      const head = this.block(), body = this.block(), inc = this.block(), exit = this.block(), lab = this.label;
      this.label = undefined;
      this.jump(head);
      this.go(head);
      if (s.condition) this.cond(s.condition, body, exit); else this.jump(body);
      this.seal(body);
      this.go(body);
      this.breaks.push({ brk: exit, cont: inc, lab });
      this.stmt(s.statement);
      this.breaks.pop();
      this.jump(inc);
      this.seal(inc);
      this.go(inc);
      if (s.incrementor) this.expr(s.incrementor);
      this.jump(head);
      this.seal(head);
      this.seal(exit);
      this.go(exit);
      return;
    }
    if (ts.isForOfStatement(s) || ts.isForInStatement(s)) {
      const o = this.expr(s.expression);
      const t = strictKind(s.expression);
      const bindIt = (v, et, ety) => {
        if (ts.isVariableDeclarationList(s.initializer)) this.bind(s.initializer.declarations[0].name, v, et, ety);
        else this.assign(s.initializer, () => v, et);
      };
      const lab = this.label;
      this.label = undefined;
      if (ts.isForInStatement(s) || (t.k !== "array" && t.k !== "bytes")) {
        this.iterate(o, t, (k, v) => {
          const top = this.breaks[this.breaks.length - 1];
          top.lab = lab;
          let x = v;
          if (t.k === "map" && t.n === "Set") x = k;
          if (t.k === "map" && t.n !== "Set") x = this.call("ts:array", [k, v], { k: "array", e: tANY }, { extra: { s: "00" } });
          const d = ts.isVariableDeclarationList(s.initializer) ? s.initializer.declarations[0].name : s.initializer;
          const et = t.k === "map" && t.n !== "Set" ? { k: "array", e: tANY } : kindAt(d);
          bindIt(x, et, typeAt(d));
          this.stmt(s.statement);
        });
        return;
      }
      const ki = this.temp();
      this.write(ki, INT(0));
      const head = this.block(), body = this.block(), inc = this.block(), exit = this.block();
      this.jump(head);
      this.go(head);
      const i = this.read(ki, null, tINT);
      this.br(this.bin("<", i, this.len(o, t), tINT, tBOOL), body, exit);
      this.seal(body);
      this.go(body);
      const et = t.k === "bytes" ? { k: "byte" } : t.e || tANY;
      const aty = nonNull(typeAt(s.expression));
      const ety = aty && checker.isArrayType(aty) ? checker.getTypeArguments(aty)[0] : undefined;
      bindIt(this.index(o, i, t, et), et, ety);
      this.breaks.push({ brk: exit, cont: inc, lab });
      this.stmt(s.statement);
      this.breaks.pop();
      this.jump(inc);
      this.seal(inc);
      this.go(inc);
      this.write(ki, this.bin("+", this.read(ki, null, tINT), INT(1), tINT, tINT));
      this.jump(head);
      this.seal(head);
      this.seal(exit);
      this.go(exit);
      return;
    }
    if (ts.isReturnStatement(s)) {
      const v = s.expression ? this.expr(s.expression) : NIL;
      this.at(s);
      this.emit("Return", { a: this.q.ctor ? [] : [v] });
      this.cur.done = true;
      this.go(this.block(true));
      return;
    }
    if (ts.isThrowStatement(s)) { const v = this.expr(s.expression); this.at(s); this.throw_(v); return; }
    if (ts.isTryStatement(s)) {
      const end = this.block();
      if (s.catchClause) {
        const c = this.block();
        this.catches.push(c);
        // the body starts in a block of its own, so that what is known at a
        // catch is what is known after a call
        const b = this.block();
        this.jump(b);
        this.seal(b);
        this.go(b);
        this.stmt(s.tryBlock);
        this.catches.pop();
        this.jump(end);
        this.seal(c);
        this.go(c);
        if (s.catchClause.variableDeclaration) this.bind(s.catchClause.variableDeclaration.name, this.call("ts:caught", [], tANY), tANY);
        this.stmt(s.catchClause.block);
        this.jump(end);
      } else { this.stmt(s.tryBlock); this.jump(end); }
      this.seal(end);
      this.go(end);
      if (s.finallyBlock) this.stmt(s.finallyBlock);
      return;
    }
    if (ts.isSwitchStatement(s)) {
      const v = this.expr(s.expression);
      const t = kindAt(s.expression);
      const end = this.block();
      const cs = s.caseBlock.clauses;
      const bodies = cs.map(() => this.block());
      let def = end;
      cs.forEach((c, i) => { if (ts.isDefaultClause(c)) def = bodies[i]; });
      cs.forEach((c, i) => {
        if (ts.isDefaultClause(c)) return;
        const x = this.expr(c.expression);
        this.at(c);
        const nx = this.block();
        this.br(this.bin("==", v, x, t, tBOOL), bodies[i], nx);
        this.seal(nx);
        this.go(nx);
      });
      this.jump(def);
      this.breaks.push({ brk: end, cont: null });
      cs.forEach((c, i) => {
        this.seal(bodies[i]);
        this.go(bodies[i]);
        for (const x of c.statements) this.stmt(x);
        this.jump(bodies[i + 1] || end);
      });
      this.breaks.pop();
      this.seal(end);
      this.go(end);
      return;
    }
    if (ts.isBreakStatement(s) || ts.isContinueStatement(s)) {
      const isB = ts.isBreakStatement(s);
      for (let i = this.breaks.length - 1; i >= 0; i--) {
        const b = this.breaks[i];
        if (s.label ? b.lab === s.label.text : isB || b.cont) { this.jump(isB ? b.brk : b.cont); break; }
      }
      this.go(this.block(true));
      return;
    }
    if (ts.isLabeledStatement(s)) { this.label = s.label.text; this.stmt(s.statement); return; }
    if (ts.isFunctionDeclaration(s)) {
      if (!fns.has(s)) {
        const v = this.closure(s);
        if (s.name) this.declare(symOf(s.name), v, { k: "func" });
      }
      return;
    }
  }
  decls(l) {
    for (const d of l.declarations) {
      const t = kindAt(d.name);
      const v = d.initializer ? this.expr(d.initializer) : NIL;
      this.at(d);
      this.bind(d.name, v, d.initializer ? strictKind(d.initializer) : t, d.initializer ? nonNull(typeAt(d.initializer)) : undefined);
    }
  }
}
function sameOp(a, b) {
  if (a.r || b.r) return a.r === b.r;
  return JSON.stringify(a) === JSON.stringify(b);
}
function strip(e) {
  while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || (ts.isTypeAssertionExpression && ts.isTypeAssertionExpression(e)) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e)))) e = e.expression;
  return e;
}
function unwrapPromise(t) { return t; }
function nonNull(t) {
  if (!t) return t;
  let r = checker.getNonNullableType(t);
  return r;
}
function strictKind(n) { return typ(nonNull(typeAt(n))); }
function isBigAt(n) {
  const t = typeAt(n);
  return !!t && !!(t.flags & ts.TypeFlags.BigIntLike);
}
function declKind(s, n) {
  if (s && s.valueDeclaration) { try { return typ(checker.getTypeOfSymbolAtLocation(s, n)); } catch (e) { /* fall through */ } }
  return kindAt(n);
}
function enumConst(e) {
  let v = checker.getConstantValue(e);
  if (v === undefined) {
    const sym = checker.getSymbolAtLocation(ts.isPropertyAccessExpression(e) ? e.name : e);
    if (sym && (sym.flags & ts.SymbolFlags.EnumMember) && sym.valueDeclaration) v = checker.getConstantValue(sym.valueDeclaration);
  }
  if (typeof v === "number") return INT(v);
  if (typeof v === "string") return STR(v);
  return undefined;
}

function lowerFn(q, parent) {
  const f = new Fn(q, parent);
  const n = q.node;
  const params = [], pn = [], pt = [];
  const hasThis = (q.recv && !q.isStatic) || q.ctor;
  if (hasThis) {
    const r = f.reg();
    params.push(r); pn.push("this"); pt.push({ k: "ptr", e: { k: "struct", n: q.recv } });
    f.write("this", { r });
    f.names[r] = "this";
  }
  const ps = n.parameters || [];
  f.at(n);
  const later = [];
  for (const p of ps) {
    if (p.name.getText() === "this") continue;
    const r = f.reg();
    params.push(r);
    const t = kindAt(p.name);
    pn.push(ts.isIdentifier(p.name) ? p.name.text : "arg" + params.length);
    pt.push(p.initializer ? Object.assign({}, t, { opt: true }) : t);
    f.names[r] = pn[pn.length - 1];
    later.push([p, { r }, t]);
  }
  const props = [];
  for (const [p, v, t] of later) {
    const x = f.dflt(p, v, t);
    f.bind(p.name, x, typ(nonNull(typeAt(p))), nonNull(typeAt(p)));
    if (q.ctor && ts.isParameterPropertyDeclaration(p, n)) props.push([p.name.text, x, t]);
  }
  let results = [tANY];
  if (q.ctor) {
    results = [];
    const self = f.read("this");
    for (const [nm, v, t] of props) f.setField(self, nm, v, t);
    for (const m of q.ctor.members) {
      if (!ts.isPropertyDeclaration(m) || ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static) continue;
      f.at(m);
      const v = m.initializer ? f.expr(m.initializer) : NIL;
      f.setField(self, m.name.getText(), v, kindAt(m));
    }
  } else {
    const sig = checker.getSignatureFromDeclaration(n);
    if (sig) results = [typ(checker.getReturnTypeOfSignature(sig))];
  }
  if (n.body) {
    if (ts.isBlock(n.body)) for (const s of n.body.statements) f.stmt(s);
    else { const v = f.expr(n.body); f.at(n.body); f.emit("Return", { a: [v] }); f.cur.done = true; }
  }
  const blocks = f.finish();
  out.push({ name: q.name, short: q.short, pkg: q.pkg, recv: q.recv || "", params, paramN: pn, paramT: pt, free: f.free.map((x) => x.r), freeN: f.free.map((x) => f.names[x.r]), results, blocks, nreg: f.nreg, exported: !!q.exported, static: !!q.isStatic, pos: posOf(n), names: f.names, gen: !!n.asteriskToken });
  return f;
}

const sfs = program.getSourceFiles().filter(isSrc);
for (const sf of sfs) collect(sf);
for (let i = 0; i < queue.length; i++) lowerFn(queue[i], null);
const enums = {};
for (const sf of sfs) ts.forEachChild(sf, (n) => {
  if (ts.isEnumDeclaration(n)) {
    const m = {};
    for (const x of n.members) m[x.name.getText()] = checker.getConstantValue(x);
    enums[n.name.text] = { members: m, pos: posOf(n) };
  }
});
process.stdout.write(JSON.stringify({ funcs: out, enums, problems, files: sfs.map(rel) }));

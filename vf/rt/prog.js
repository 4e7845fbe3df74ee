// node prog.js SEED COUNT DIR: runs COUNT random chains of calls that end in an exception, writes
// one line of JSON for each: the stack as the engine prints it, and what its call sites say.
'use strict';
const fs = require('fs'), vm = require('vm'), path = require('path');
let state = Number(process.argv[2]) >>> 0 || 1;
function rnd(n) { state ^= state << 13; state >>>= 0; state ^= state >>> 17; state ^= state << 5; state >>>= 0; return state % n; }
function pick(a) { return a[rnd(a.length)]; }
const DIR = process.argv[4];
const NAMES = ['foo', '$x', '_y1', 'über', 'async', 'get', 'news', 'of'];
const FILES = ['a.js', 'b c.js', 'q(1).js', 'x:y.js', 'ü.js', '[z].js', "it's.js", 'async d.js', 'at e.js', 'new.js', 'a), b.js'];
const MSGS = ['x', '', 'a: b', 'two\nlines', '\n', 'at home', 'x\nat the end', 'see\n  attic', 'f (x.js:1:2)', 'trailing\n', ' ', 'a\n\nb\n\n', "(x)", 'über'];
const EXC = ['Error', 'TypeError', 'RangeError', 'new (class Mine extends Error {})', 'new (class extends TypeError { get name() { return "Named [CODE]"; } })', 'EvalError'];
const THROW = () => pick([
  () => { const e = pick(EXC), m = JSON.stringify(pick(MSGS)); return e[0] === 'n' ? `throw ${e.replace(/\)$/, `)(${m})`)}` : `throw new ${e}(${pick([m, m, m, ''])})`; },
  () => { const e = pick(EXC), m = JSON.stringify(pick(MSGS)); return e[0] === 'n' ? `throw ${e.replace(/\)$/, `)(${m})`)}` : `throw new ${e}(${m}, {cause: 3})`; },
  () => 'null.foo', () => 'undefinedVariable', () => '(void 0)()', () => "JSON.parse('{bad')", () => 'Symbol() + ""', () => "decodeURIComponent('%')", () => 'new Array(-1)', () => '(1).toFixed(1000)',
  () => 'null[Symbol.iterator]', () => 'let [q] = null', () => 'new (class A { #p; static t(o) { return o.#p; } }).t({})', () => "new RegExp('(')", () => 'Reflect.construct(1)', () => "BigInt('x')", () => 'Object.defineProperty(Object.freeze({}), "x", {value: 1})',
  () => "require('fs').readFileSync('/nonexistent (x)')", () => "require('assert').strictEqual(1, 2)", () => "require('./nope')", () => 'new WebAssembly.Module(new Uint8Array(3))', () => "'x'.repeat(-1)", () => 'wasm()', () => "require('url').parse(3)", () => 'structuredClone(() => 1)'])();
// (i32 trap) a module exporting a function that executes unreachable
const WASM = new Uint8Array([0, 97, 115, 109, 1, 0, 0, 0, 1, 4, 1, 96, 0, 0, 3, 2, 1, 0, 7, 5, 1, 1, 102, 0, 0, 10, 5, 1, 3, 0, 0, 11]);

function program() {
  const n = 1 + rnd(7);
  let code = '', call = THROW(), async_ = false;
  for (let k = 0; k < n; k++) {
    const f = pick(NAMES) + k, b = call + ';';
    let next = `${f}()`;
    if (async_) {
      const w = `await ${call}; return 1;`;
      switch (rnd(6)) {
        case 0: code += `async function ${f}() { ${w} }\n`; break;
        case 1: code += `const ${f} = async () => { ${w} };\n`; break;
        case 2: code += `class A${k} { async m() { ${w} } static async s() { ${w} } }\n`; next = pick([`new A${k}().m()`, `A${k}.s()`]); break;
        case 3: code += `async function ${f}() { await Promise.${pick(['all', 'any', 'allSettled'])}([${pick(['', '1, ', '1, 2, '])}${call}]).then(x => { for (const y of x) if (y && y.reason) throw y.reason; }, e => { throw e.errors ? e.errors[e.errors.length - 1] : e; }); }\n`; break;
        case 4: next = `(async () => { ${w} })()`; break;
        case 5: code += `async function* g${k}() { yield 1; ${w} }\nasync function ${f}() { for await (const x of g${k}()); }\n`; break;
      }
      call = next;
      continue;
    }
    switch (rnd(31)) {
      case 0: code += `function ${f}() { ${b} }\n`; break;
      case 1: code += `const ${f} = () => { ${b} };\n`; break;
      case 2: code += `class C${k} { m() { ${b} } static s() { ${b} } #p() { ${b} } q() { this.#p(); } get g() { ${b} } set t(v) { ${b} } ['odd name']() { ${b} } [Symbol.toPrimitive]() { ${b} } }\n`;
        next = pick([`new C${k}().m()`, `C${k}.s()`, `new C${k}().q()`, `new C${k}().g`, `(new C${k}().t = 1)`, `new C${k}()['odd name']()`, `(new C${k}() + 1)`]); break;
      case 3: code += `class K${k} { constructor() { ${b} } }\n`; next = pick([`new K${k}()`, `new (class extends K${k} {})()`, `Reflect.construct(K${k}, [])`]); break;
      case 4: next = `[1].${pick(['map', 'forEach', 'filter', 'find', 'flatMap', 'some'])}(${pick(['() =>', 'function ()', 'function cb()'])} { ${b} })`; break;
      case 5: next = `[2, 1].sort((a, b) => { ${b} })`; break;
      case 6: next = `eval(${JSON.stringify(pick([b, `(function ev() { ${b} })()`]))})`; break;
      case 7: next = `new Function('a', ${JSON.stringify(b)})(1)`; code += ''; if (/f\d|[A-Z]\d|[^\x00-\x7f]/.test(b) || k) { next = `[0].reduce((p, q) => { ${b} }, 0)`; } break;
      case 8: code += `const o${k} = { f() { ${b} } }; o${k}.alias = o${k}.f;\n`; next = pick([`o${k}.alias()`, `o${k}['f']()`, `o${k}.f.call(null)`, `o${k}.f.apply({ __proto__: null })`]); break;
      case 9: code += `const p${k} = new Proxy({}, { get() { ${b} }, has() { ${b} } });\n`; next = pick([`p${k}.zork`, `('x' in p${k})`]); break;
      case 10: code += `function* g${k}() { yield 1; ${b} }\n`; next = pick([`[...g${k}()]`, `Array.from(g${k}())`, `new Set(g${k}())`]); break;
      case 11: code += `function r${k}(n) { return n ? r${k}(n - 1) : (() => { ${b} })(); }\n`; next = `r${k}(${rnd(9)})`; break;
      case 12: next = `'abc'.replace(/b/, () => { ${b} })`; break;
      case 13: next = `JSON.stringify({ toJSON() { ${b} } })`; break;
      case 14: next = `(function () { ${b} })()`; break;
      case 15: next = `(() => {\n\n      ${b} })()`; break;
      case 16: code += `function ${f}() { ${b} }\n`; next = `${f}.bind({})()`; break;
      case 17: code += `function ${f}(strings) { ${b} }\n`; next = `${f}\`x\``; break;
      case 18: code += `globalThis.glob${k} = function () { ${b} };\n`; next = `glob${k}()`; break;
      case 19: next = `vm.runInThisContext(${JSON.stringify('(function (go) { go(); })')}, ${JSON.stringify(pick(FILES.slice(0, 7)))})(() => { ${b} })`; break;
      case 20: next = `Array.from({ length: 1 }, () => { ${b} })`; break;
      case 21: next = `new Promise(() => { ${b} })`; async_ = true; break;
      case 22: next = `(class { static x = (() => { ${b} })(); })`; break;
      case 23: next = `(class { static { ${b} } })`; break;
      case 24: code += `async function ${f}() { ${b} }\n`; async_ = true; break;
      case 25: code += `async function ${f}() { await null; ${b} }\n`; async_ = true; break;
      case 26: next = `wasm(() => { ${b} })`; break;
      case 27: next = `(async () => { await 1; ${b} })()`; async_ = true; break;
      case 28: code += `Object.defineProperty(globalThis, 'acc${k}', { get() { ${b} }, configurable: true });\n`; next = `acc${k}`; break;
      case 29: next = `({ valueOf() { ${b} } } * 2)`; break;
      case 30: next = `new Map([[1, 2]]).forEach(function (v) { ${b} })`; break;
    }
    call = next;
  }
  return { code: code + `return ${call};\n`, async_ };
}

const IMPORT = new Uint8Array([0, 97, 115, 109, 1, 0, 0, 0, 1, 4, 1, 96, 0, 0, 2, 7, 1, 1, 101, 1, 105, 0, 0, 3, 2, 1, 0, 7, 5, 1, 1, 102, 0, 1, 10, 6, 1, 4, 0, 16, 0, 11]);
function wasm(cb) {
  if (!cb) return new WebAssembly.Instance(new WebAssembly.Module(WASM)).exports.f();
  return new WebAssembly.Instance(new WebAssembly.Module(IMPORT), { e: { i: cb } }).exports.f();
}

function site(c) {
  const call = m => { try { return c[m](); } catch (e) { return null; } };
  const r = { str: c.toString() };
  for (const m of ['getFileName', 'getLineNumber', 'getColumnNumber', 'getFunctionName', 'getMethodName', 'getTypeName', 'getEvalOrigin', 'getScriptNameOrSourceURL', 'getPromiseIndex',
    'isEval', 'isNative', 'isToplevel', 'isConstructor', 'isAsync', 'isPromiseAll']) r[m] = call(m) ?? null;
  return r;
}
async function attempt(fn) {
  try { await fn(); } catch (e) { return e; }
  return undefined;
}
process.on('unhandledRejection', () => {});
process.on('uncaughtException', () => {});
(async () => {
  Error.stackTraceLimit = 60;
  for (let i = 0; i < Number(process.argv[3]); i++) {
    Error.stackTraceLimit = pick([1, 10, 10, 60]);
    const p = program(), file = path.join(DIR, pick(FILES));
    const source = `(function (require, wasm, vm) { ${p.code} })`;
    let fn;
    try { fn = vm.runInThisContext(source, pick([file, 'file://' + file, 'node:internal/x', 'webpack:///./src/x.js?a=b'])); } catch (e) { process.stdout.write(JSON.stringify({ bad: String(e), source }) + '\n'); continue; }
    const req = require('module').createRequire(path.join(DIR, 'x.js'));
    const out = { source };
    // The stack first as the engine prints it, then the same with its call sites.
    let failed = false;
    for (const hooked of [false, true]) {
      let sites = null;
      const e = await attempt(() => fn(req, wasm, vm));
      failed ||= !(e instanceof Error);
      if (failed) break;
      if (hooked) {
        Error.prepareStackTrace = (e, cs) => { sites = cs.map(site); return `${e}` + cs.map(c => '\n    at ' + c).join(''); };
        out.text2 = e.stack; out.sites = sites;
        Error.prepareStackTrace = undefined;
      } else {
        out.text = e.stack; out.name = e.name; out.code = e.code; out.header = String(e);
      }
    }
    if (failed) continue;
    process.stdout.write(JSON.stringify(out) + '\n');
  }
})();

// Runs scenarios of JsApi.tla with the real packages/wasm/src/index.ts around a module that records its calls.
// usage: node jsapi.mjs DIR < scenarios > results      (DIR: scratch copy with src/, pkg/hongdown.js and package.json)
import { createInterface } from "node:readline";
import { pathToFileURL } from "node:url";
const dir = process.argv[2];
const flush = () => new Promise((r) => setImmediate(() => setImmediate(r)));
let n = 0;
for await (const line of createInterface({ input: process.stdin })) {
  const sc = JSON.parse(line);
  const st = (globalThis.__hd = { loads: 0, inits: 0, ready: false, early: false, reached: [], load: null, init: null });
  st.loader = () => { st.loads++; return new Promise((r) => (st.load = () => r(new ArrayBuffer(8)))); };
  st.start = (x) => { st.inits++; return new Promise((r) => (st.init = () => { st.ready = x?.module_or_path?.byteLength === 8; r({}); })); };
  st.call = (fn, args) => {
    if (!st.ready) st.early = true;
    const cb = args.length < 3 ? "none" : args[2] === null || args[2] === undefined ? "null" : typeof args[2];
    const result = { n: st.reached.length };
    st.reached.push({ fn, input: args[0], opts: args[1], cb, answer: cb === "function" ? args[2]("l", "c") : null, result });
    if (args[1]?.lineWidth === "wrong") throw new Error("wrong");
    return fn === "format" ? "out" + result.n : result;
  };
  const api = await import(pathToFileURL(dir + "/src/index.ts").href + "?" + n++);
  const ends = [], promises = [];
  for (const e of sc.events) {
    if (e.e === "loaded") { await flush(); st.load?.(); await flush(); }
    else if (e.e === "ready") { await flush(); st.init?.(); await flush(); }
    else {
      const i = ends.length;
      ends.push("waits");
      const o = e.opts === undefined ? undefined : { ...e.opts };
      const given = e.cb === "function" ? { ...o, codeFormatter: (l, c) => l + c + i } : e.cb === "null" ? { ...o, codeFormatter: null } : o;
      const f = { format: api.format, warn: api.formatWithWarnings, code: api.formatWithCodeFormatter }[e.kind];
      const before = JSON.stringify(given ?? null);
      promises.push(f("input" + i, given).then(
        (r) => { const k = st.reached.findIndex((x) => x.input === "input" + i); ends[i] = e.kind === "format" ? (r === "out" + k ? "done" : "other") : r === st.reached[k]?.result ? "done" : "other"; },
        (x) => { ends[i] = x?.message === "wrong" ? "failed" : "broken"; }));
      if (JSON.stringify(given ?? null) !== before) ends[i] = "changed";
      if (sc.calm) await flush();
    }
  }
  await flush();
  process.stdout.write(JSON.stringify({ ends, loads: st.loads, inits: st.inits, early: st.early,
    reached: st.reached.map(({ fn, input, opts, cb, answer }) => ({ fn, input, opts: opts ?? null, cb, answer })) }) + "\n");
}

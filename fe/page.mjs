// Brings a page to life: the real scripts of /repo/rsm/static in a realm of their own, over the small browser.
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { makeWindow, Event } from "./dom.mjs";

const texts = new Map();
const read = f => { if (!texts.has(f)) texts.set(f, fs.readFileSync(f, "utf8")); return texts.get(f); };
const compiled = new Map();
function script(f) {
  if (!compiled.has(f)) compiled.set(f, new vm.Script(read(f), { filename: f }));
  return compiled.get(f);
}

export async function open(html, { dir, base = "/static/", given = base, keys = true, jquery = true, mathjax = true, pseudocode = true, broken = [], height = 600, call = true, touch = false } = {}) {
  const offered = src => /mathjax/i.test(src) ? mathjax : /pseudocode/i.test(src) ? pseudocode : false;
  const win = makeWindow(html, {
    css: [read(path.join(dir, "rsm.css"))], height,
    fetchScript: src => {
      const ok = offered(src);
      if (ok && /mathjax/i.test(src)) win._mathjax = { ...win.MathJax };          // how it was configured when it came
      if (ok && /mathjax/i.test(src)) win.MathJax = Object.assign(win.MathJax || {}, { typeset() { win._typeset = (win._typeset || 0) + 1; }, typesetPromise: async () => { win._typeset = (win._typeset || 0) + 1; }, startup: { promise: Promise.resolve() } });
      if (ok && /pseudocode/i.test(src)) { win._algorithms = []; win._algopts = []; win.pseudocode = { renderElement(el, o) { if (!el || !el.isConnected) throw new TypeError("no element"); win._algorithms.push(el); win._algopts.push(o || {}); el.setAttribute("data-rendered", "1"); }, renderClass(c, o) { for (const el of win.document.getElementsByClassName(c)) this.renderElement(el, o); } }; }
      return ok;
    },
    runScript: code => {
      try { new vm.Script(code, { filename: "inline script" }).runInContext(ctx); }
      catch (e) { win._errors.push({ where: "inline script", message: String(e && e.message || e) }); }
    },
  });
  if (touch) win.ontouchstart = null;
  const ctx = vm.createContext(win);
  win.globalThis = win;
  const mods = new Map();
  const get = (spec, from) => {
    let p = spec;
    if (/^\.\.?\//.test(spec)) p = path.posix.join(path.posix.dirname(from), spec);
    if (!p.startsWith(base)) throw new TypeError(`Failed to fetch dynamically imported module: ${p}`);
    const name = p.slice(base.length);
    if (broken.includes(name) || !fs.existsSync(path.join(dir, name))) throw new TypeError(`Failed to fetch dynamically imported module: ${p}`);
    if (!mods.has(name)) mods.set(name, new vm.SourceTextModule(read(path.join(dir, name)), { context: ctx, identifier: p, importModuleDynamically: async s => load(s, p) }));
    return mods.get(name);
  };
  const load = async (spec, from) => {
    const m = get(spec, from);
    if (m.status == "unlinked") await m.link((s, ref) => get(s, ref.identifier));
    if (m.status == "linked") await m.evaluate();
    return m;
  };
  if (jquery) for (const f of ["jquery-3.6.0.js", "tooltipster.bundle.js"]) script(path.join(dir, f)).runInContext(ctx);
  const page = { win, doc: win.document, load: s => load(s, base + "page"), ctx };
  if (call) {
    const m = await page.load(base + "onload.js");
    const pr = given == "/static/" ? m.namespace.onload(null, { keys }) : m.namespace.onload(null, { path: given, keys });
    let done = false, err = null;
    pr.then(() => { done = true; }, e => { done = true; err = e; });
    for (let i = 0; i < 400 && !done; i++) await win.__advance(1);
    page.done = done; page.failure = err;
  }
  return page;
}

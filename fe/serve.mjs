// One job per line of input, one answer per line of output.
import readline from "node:readline";
import { interact, referring } from "./monitor.mjs";
const out = process.stdout;
for await (const line of readline.createInterface({ input: process.stdin })) {
  const job = JSON.parse(line), res = { problems: [], saw: {}, states: new Set() };
  try { await (job.what == "refer" ? referring : interact)(job, res); }
  catch (e) { res.broken = String(e && e.stack || e); }
  res.states = res.states.size;
  out.write(JSON.stringify(res) + "\n");
}

// One JSON request per line on stdin, one JSON reply per line on stdout (fd 1); console.log of the circuit is captured.
const fs = require("fs");
const rl = require("readline").createInterface({ input: process.stdin });
let captured = [];
console.log = (...a) => captured.push(a.join(" "));
let chain = Promise.resolve();
rl.on("line", (line) => { chain = chain.then(() => handle(line)); });
rl.on("close", () => chain.then(() => process.exit(0)));
async function handle(line) {
  const req = JSON.parse(line);
  const rep = { results: [] };
  try {
    const jsfile = req.js;
    delete require.cache[require.resolve(jsfile)];
    const builder = require(jsfile);
    const code = fs.readFileSync(req.wasm);
    let wc = null;
    for (const input of req.inputs) {
      captured = [];
      const r = {};
      try {
        if (wc === null || req.fresh) wc = await builder(code);
        r.prime = wc.prime.toString();
        if (req.mode === "bin") {
          r.wtns = Buffer.from(await wc.calculateWTNSBin(input, req.sanity || 0)).toString("hex");
        } else {
          r.w = (await wc.calculateWitness(input, req.sanity || 0)).map((x) => x.toString());
        }
      } catch (e) {
        r.err = String(e && e.message !== undefined ? e.message : e);
        wc = null; // an instance that failed is not reused
      }
      r.log = captured;
      rep.results.push(r);
    }
  } catch (e) { rep.err = String(e); }
  fs.writeSync(1, JSON.stringify(rep) + "\n");
}

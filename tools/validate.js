// node --experimental-vm-modules tools/validate.js < docs.jsonl : is every generated program valid?
const vm = require('vm'), rl = require('readline').createInterface({ input: process.stdin });
let n = 0, bad = 0; const kinds = {};
rl.on('line', l => {
  const d = JSON.parse(l); n++;
  try { d.module ? new vm.SourceTextModule(d.text) : new vm.Script(d.text); }
  catch (e) { bad++; kinds[e.message] = kinds[e.message] || []; kinds[e.message].push(d); }
});
rl.on('close', () => {
  console.log(`${n} programs, ${bad} rejected`);
  for (const k of Object.keys(kinds)) { const a = kinds[k].sort((x, y) => x.text.length - y.text.length); console.log(a.length, k, JSON.stringify(a[0].text.slice(0, 400)), a[0].module); }
});

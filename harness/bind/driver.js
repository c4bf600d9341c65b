// as driver.py
const fs = require('fs'), readline = require('readline');
const [dir, mode, path] = process.argv.slice(2, 5);
const [shard, shards, lo, hi] = process.argv.slice(5, 9).map(Number);
const prog = fs.openSync(process.argv[9], 'w');
const { Rule, Html } = require(dir + '/hext.node');
let steps = 0;

function at(i) { fs.writeSync(prog, String(i).padEnd(12), 0); }

function same(a, b) {
  if (Array.isArray(b)) return Array.isArray(a) && a.length === b.length && Object.keys(a).length === b.length && b.every((x, i) => same(a[i], x));
  if (typeof b === 'object') {
    if (a === null || typeof a !== 'object' || Array.isArray(a) || Object.getPrototypeOf(a) !== Object.prototype) return false;
    const k = Object.keys(b);
    return Reflect.ownKeys(a).length === k.length && k.every(x => { const d = Object.getOwnPropertyDescriptor(a, x); return d && d.enumerable && d.writable && d.configurable && same(d.value, b[x]); });
  }
  return typeof a === 'string' && a === b;
}

const text = x => { try { return JSON.stringify(x).slice(0, 1500); } catch (e) { return String(x); } };

const named = (want, at, msg) => want.at === at && msg.includes(want.message);

function run_case(c) {
  const [rule, html, limit, want] = c;
  let r, got;
  try { r = new Rule(rule); } catch (e) { return e instanceof Error && (want === 'syntax' && e.message || named(want, 'Rule', e.message)) ? null : 'exception from Rule: ' + e; }
  if (want === 'syntax' || want.at === 'Rule') return 'no exception from Rule';
  const h = new Html(html);
  try { got = limit ? r.extract(h, limit) : r.extract(h); if (want === 'any') return Array.isArray(got) ? null : 'no array'; }
  catch (e) { return e instanceof Error && (['limit', 'error', 'any'].includes(want) && e.message || named(want, 'extract', e.message)) ? null : 'exception from extract: ' + e; }
  if (!same(got, want)) return 'expected ' + text(want) + ', got ' + text(got);
  return null;
}

function wrong(rule, html) {
  const r = rule || new Rule('<a/>'), h = html || new Html('');
  const t = [() => new Rule(), () => new Rule(5), () => new Rule(null), () => new Rule({}), () => Rule('<a/>'), () => new Html(), () => new Html(5), () => new Html(null), () => Html(''),
    () => r.extract(), () => r.extract(5), () => r.extract(null), () => r.extract(undefined), () => r.extract('x'), () => r.extract(r), () => r.extract({}), () => r.extract(h, 'x'),
    () => r.extract(h, null), () => r.extract(h, -1), () => r.extract(h, 10n), () => r.extract(h, Symbol()), () => Rule.prototype.extract.call({}, h), () => Rule.prototype.extract.call(h, h), () => Rule.prototype.extract.call(null, h),
    () => r.extract(Object.create(h)), () => Object.create(r).extract(h), () => r.extract(new Proxy(h, {})), () => r.extract(Reflect.construct(Rule, ['<a/>'], Html)),
    () => Rule.prototype.extract.call(Reflect.construct(Html, ['<a>'], Rule), h)];
  for (let i = 0; i < t.length; ++i) {
    try { t[i](); } catch (e) { if (e instanceof Error) continue; }
    return `no exception for wrong arguments (${i})`;
  }
  return null;
}

async function collect() { global.gc(); await new Promise(setImmediate); }

async function run_history(ops, hist, full) {
  const rules = [null, null], htmls = [null, null], res = [null, null], want = [null, null];
  for (const i of hist) {
    const o = ops[i];
    const [name, r, h, x] = o;
    ++steps;
    let ok = true;
    if (name === 'rule') rules[r] = new Rule(o[4]);
    else if (name === 'html') htmls[h] = new Html(o[4]);
    else if (name === 'extract') { res[x] = rules[r].extract(htmls[h]); want[x] = o[4]; }
    else if (name === 'limit') { try { rules[r].extract(htmls[h], 1); ok = false; } catch (e) {} }
    else if (name === 'bad') { try { rules[r] = new Rule(o[4]); ok = false; } catch (e) {} }
    else if (name === 'drop') {
      if (r >= 0) rules[r] = null;
      if (h >= 0) htmls[h] = null;
      if (x >= 0) res[x] = want[x] = null;
      if (full) await collect();
    }
    else if (name === 'change') {
      for (const m of res[x]) { m.x = null; m['\0'] = m; }
      res[x].push(res[x]);
      res[x] = want[x] = null;
    }
    else if (name === 'new-rule' || name === 'new-html') {
      if (name === 'new-rule') { rules[r] = null; if (full) await collect(); rules[r] = new Rule(o[4]); }
      else { htmls[h] = null; if (full) await collect(); htmls[h] = new Html(o[4]); }
      const got = rules[r].extract(htmls[h]);
      if (name === 'new-rule') rules[r] = null; else htmls[h] = null;
      if (!same(got, o[5])) return name + ': expected ' + text(o[5]) + ', got ' + text(got);
    }
    else if (name === 'wrong') { const e = wrong(rules[0] || rules[1], htmls[0] || htmls[1]); if (e) return e; }
    if (!ok) return 'no exception: ' + text(o);
    for (let k = 0; k < 2; ++k)
      if (want[k] && !same(res[k], want[k])) return 'after ' + text(o) + ': expected ' + text(want[k]) + ', got ' + text(res[k]);
  }
  return null;
}

async function live() {
  for (let k = 0; k < 3; ++k) await collect();
  return Number(fs.readFileSync('/live-bytes', 'utf8'));
}

async function run_memory(ops, c) {
  let m;
  for (const rounds of [100, 1000]) {
    m = [];
    for (let k = 0; k < 4; ++k) {
      for (let i = 0; i < (k ? rounds : rounds / 4); ++i) {
        const e = typeof c[0] === 'string' ? run_case(c) : await run_history(ops, c, false);
        if (e) return e;
      }
      m.push(await live());
    }
    if (Math.min(m[1] - m[0], m[2] - m[1], m[3] - m[2]) < 8 * rounds) return null;
  }
  return `memory grows with every round: ${m} bytes in use, 1000 rounds apart`;
}

(async () => {
  let n = 0, fail = null, i = -1, ops = null;
  const full = hi - lo <= 1 || process.env.VERIF_GC === '1';
  for (const line of fs.readFileSync(path, 'utf8').split('\n')) {
    if (line === '') continue;
    if ((mode === 'histories' || mode === 'memory') && !ops) { ops = JSON.parse(line); continue; }
    ++i;
    if (i < lo || i >= hi || i % shards !== shard) continue;
    at(i);
    ++n;
    if (mode !== 'histories' && mode !== 'memory') ++steps;
    const c = JSON.parse(line);
    const e = mode === 'memory' ? await run_memory(ops, c) : mode === 'histories' ? await run_history(ops, c, full) : run_case(c);
    if (e) { fail = { line: i, msg: e }; break; }
    if (n % 50 === 0) await collect();
  }
  await collect();
  global.keep = [new Rule('<a href:x/>'), new Html('<a href=1>')];
  console.log(JSON.stringify({ n, steps, fail }));
})();

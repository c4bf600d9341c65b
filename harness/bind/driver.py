# driver.py <module dir> cases|histories <file> <shard> <shards> <from> <to> <progress file>
# Runs lines shard, shard + shards, ... in [from, to) of the file; prints a JSON
# summary; the progress file holds the line that is being run.
import gc, json, os, sys
sys.path.insert(0, sys.argv[1])
import hext

mode, path = sys.argv[2], sys.argv[3]
shard, shards, lo, hi = map(int, sys.argv[4:8])
prog = os.open(sys.argv[8], os.O_WRONLY | os.O_CREAT)
steps = 0

def at(i):
    os.pwrite(prog, b"%-12d" % i, 0)

def same(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return a.keys() == b.keys() and all(type(k) is str and same(a[k], b[k]) for k in a)
    return a == b

def at_is(want, at): return isinstance(want, dict) and want["at"] == at

def named(want, at, msg):
    return at_is(want, at) and want["message"] in msg

def run_case(c):
    rule, html, limit, want = c
    try:
        r = hext.Rule(rule)
    except Exception as e:
        return None if (want == "syntax" and str(e)) or named(want, "Rule", str(e)) else "exception from Rule: %r" % e
    if want == "syntax" or at_is(want, "Rule"): return "no exception from Rule"
    h = hext.Html(html)
    try:
        got = r.extract(h, limit) if limit else r.extract(h)
        if want == "any": return None if isinstance(got, list) else "no list"
    except Exception as e:
        return None if (want in ("limit", "error", "any") and str(e)) or named(want, "extract", str(e)) else "exception from extract: %r" % e
    if not same(got, want): return "expected %s, got %s" % (json.dumps(want)[:1500], repr(got)[:1500])
    return None

def wrong(rule, html):
    R, H = hext.Rule, hext.Html
    r = rule or R("<a/>")
    h = html or H("")
    t = [lambda: R(), lambda: R(5), lambda: R(None), lambda: R(b"<a/>"), lambda: R("<a/>", 1), lambda: R("\ud800"), lambda: H(), lambda: H(5),
         lambda: H(None), lambda: H(b""), lambda: H("\udcff"), lambda: r.extract(), lambda: r.extract(5), lambda: r.extract(None), lambda: r.extract("x"),
         lambda: r.extract(r), lambda: r.extract(h, "x"), lambda: r.extract(h, -1), lambda: r.extract(h, 2**64), lambda: r.extract(h, None),
         lambda: r.extract(h, 1, 2), lambda: R.__new__(R).extract(h), lambda: r.extract(H.__new__(H)), lambda: R.extract(h, h)]
    for i, f in enumerate(t):
        try:
            f()
        except Exception:
            continue
        return "no exception for wrong arguments (%d)" % i
    return None

def run_history(ops, hist):
    global steps
    rules, htmls, res, want = [None, None], [None, None], [None, None], [None, None]
    for i in hist:
        o = ops[i]
        name, r, h, x = o[:4]
        steps += 1
        if name == "rule": rules[r] = hext.Rule(o[4])
        elif name == "html": htmls[h] = hext.Html(o[4])
        elif name == "extract": res[x] = rules[r].extract(htmls[h]); want[x] = o[4]
        elif name == "limit":
            try: rules[r].extract(htmls[h], 1)
            except Exception: pass
            else: return "no exception: " + json.dumps(o)
        elif name == "bad":
            try: rules[r] = hext.Rule(o[4])
            except Exception: pass
            else: return "no exception: " + json.dumps(o)
        elif name == "drop":
            if r >= 0: rules[r] = None
            if h >= 0: htmls[h] = None
            if x >= 0: res[x] = want[x] = None
        elif name == "change":
            for m in res[x]: m["x"] = None; m["\0"] = m
            res[x].append(res[x])
            res[x] = want[x] = None
        elif name in ("new-rule", "new-html"):
            if name == "new-rule":
                rules[r] = None
                rules[r] = hext.Rule(o[4])
            else:
                htmls[h] = None
                htmls[h] = hext.Html(o[4])
            got = rules[r].extract(htmls[h])
            if name == "new-rule": rules[r] = None
            else: htmls[h] = None
            if not same(got, o[5]): return "%s: expected %s, got %s" % (name, json.dumps(o[5]), got)
        elif name == "wrong":
            e = wrong(rules[0] or rules[1], htmls[0] or htmls[1])
            if e: return e
        for k in range(2):
            if want[k] is not None and not same(res[k], want[k]):
                return "after %s: expected %s, got %s" % (json.dumps(o), json.dumps(want[k]), res[k])
    return None

def live():
    gc.collect()
    with open("/live-bytes") as f: return int(f.read())

# the memory that is in use must not grow with the number of rounds
def run_memory(ops, c):
    one = (lambda: run_case(c)) if c and isinstance(c[0], str) else (lambda: run_history(ops, c))
    for rounds in (100, 1000):
        m = []
        for k in range(4):
            for _ in range(rounds // 4 if k == 0 else rounds):
                e = one()
                if e: return e
            m.append(live())
        if min(m[k + 1] - m[k] for k in range(3)) < 8 * rounds: return None
    return "memory grows with every round: %s bytes in use, %d rounds apart" % (m, rounds)

n, fail = 0, None
with open(path, encoding="utf-8", newline="\n") as f:
    ops = json.loads(f.readline()) if mode in ("histories", "memory") else None
    for i, line in enumerate(f):
        if i < lo or i >= hi or i % shards != shard: continue
        at(i)
        n += 1
        if mode not in ("histories", "memory"): steps += 1
        c = json.loads(line)
        e = run_memory(ops, c) if mode == "memory" else run_history(ops, c) if mode == "histories" else run_case(c)
        if e:
            fail = {"line": i, "msg": e}
            break
        if n % 500 == 0: gc.collect()
gc.collect()
# objects that live until the interpreter exits
keep = (hext.Rule("<a href:x/>"), hext.Html("<a href=1>"))
print(json.dumps({"n": n, "steps": steps, "fail": fail}))

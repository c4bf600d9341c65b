"""The language bindings (C28, C29): built with AddressSanitizer from the
repository's own build files; drivers in each language run the cases that
harness/bind/gen.cpp enumerates."""
import json
import os
import shutil
import subprocess
import threading
import time

import check
from check import BUILD, HERE, REPO, CheckError, sh

SRC = os.path.join(HERE, "harness", "bind")
FLAGS = "-O1 -g1 -w -fsanitize=address -fno-omit-frame-pointer"
NAPI = "/opt/veriftools/node/node_modules/node-addon-api"
LANGS = ("python", "ruby", "php", "nodejs")


def gcc_file(name):
    return subprocess.check_output(["g++", "-print-file-name=" + name]).decode().strip()


class BindPart(check.Part):
    built = set()
    flags = FLAGS

    def __init__(self, mode):
        self.mode = mode
        self.dir = os.path.join(BUILD, "bind")

    # ---- building -----------------------------------------------------------
    def project(self, name, src, *extra):
        d = os.path.join(self.dir, name)
        try:
            with open(d + "/CMakeCache.txt") as f:
                if "CMAKE_HOME_DIRECTORY:INTERNAL=" + src + "\n" not in f.read():
                    shutil.rmtree(d)
        except OSError:
            pass
        rc, out = sh(["cmake", "-S", src, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + self.flags,
                      "-DCMAKE_PREFIX_PATH=" + os.path.join(self.dir, "prefix"), "-DCMAKE_INSTALL_PREFIX=" + os.path.join(self.dir, "prefix"),
                      "-DCMAKE_INSTALL_LIBDIR=lib", *extra])
        if rc == 0:
            rc, out = sh(["ninja", "-C", d])
        if rc:
            raise CheckError("build of %s failed:\n%s" % (name, out[-6000:]))
        return d

    def prepare(self):
        os.makedirs(self.dir, exist_ok=True)
        if self.dir in BindPart.built:
            self.generate()
            return
        prefix = os.path.join(self.dir, "prefix")
        shutil.rmtree(prefix, ignore_errors=True)
        lib = self.project("lib", REPO + "/libhext", "-DBUILD_SHARED_LIBS=ON")
        rc, out = sh(["cmake", "--install", lib])
        if rc:
            raise CheckError("install failed:\n" + out[-3000:])
        b = REPO + "/libhext/bindings/"
        swig = "-DSWIG_USE_SWIG_DEPENDENCIES=ON"
        jobs = {
            "python": lambda: self.project("python", b + "python", swig, "-DPython3_EXECUTABLE=/usr/bin/python3"),
            "ruby": lambda: self.project("ruby", b + "ruby", swig),
            "php": lambda: self.project("php", b + "php", swig),
            "nodejs": lambda: self.project("nodejs", b + "nodejs", "-DNodeAddonApi_INCLUDE_DIR=" + NAPI, "-DCMAKE_JS_INC=/usr/include/node"),
            "gen": self.generate,
            "shim": lambda: self.compile(["gcc", "-shared", "-fPIC", "-w", os.path.join(SRC, "shim.c"), "-o", os.path.join(self.dir, "shim.so"), "-ldl"]),
        }
        errors = []

        def go(f):
            try:
                f()
            except Exception as e:
                errors.append(e)

        ts = [threading.Thread(target=go, args=(f,)) for f in jobs.values()]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise CheckError(str(errors[0]))
        BindPart.built.add(self.dir)

    def compile(self, cmd):
        rc, out = sh(cmd)
        if rc:
            raise CheckError("%s failed:\n%s" % (" ".join(cmd), out[-4000:]))

    def generate(self):
        prefix = os.path.join(self.dir, "prefix")
        exe = os.path.join(self.dir, "gen")
        if self.dir not in BindPart.built:
            self.compile(["g++", "-std=c++17", *self.flags.split(), "-I" + prefix + "/include", os.path.join(SRC, "gen.cpp"), "-o", exe,
                      "-L" + prefix + "/lib", "-lhext", "-Wl,-rpath," + prefix + "/lib"])
        self.file = os.path.join(self.dir, self.mode)
        with open(self.file, "wb") as f:
            p = subprocess.run([exe, self.mode, check.TIER], stdout=f, stderr=subprocess.PIPE, timeout=300, env=check.child_env())
        if p.returncode:
            raise CheckError("gen failed: " + p.stderr.decode("utf-8", "replace")[-3000:])
        with open(self.file, "rb") as f:
            self.lines = f.readlines()
        self.skip = 1 if self.mode in ("histories", "memory") else 0
        self.total = len(self.lines) - self.skip
        if self.total < 130:
            raise CheckError("the enumeration is too small")

    # ---- running ------------------------------------------------------------
    def command(self, lang, shard, shards, lo, hi, prog):
        mod = os.path.join(self.dir, lang)
        tail = [self.mode, self.file, str(shard), str(shards), str(lo), str(hi), prog]
        pre = "%s:%s" % (gcc_file("libasan.so"), gcc_file("libstdc++.so.6"))
        env = check.child_env()
        env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1"
        # memory that was released is used again at once
        if self.mode == "memory":
            env["ASAN_OPTIONS"] += ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
        env["LD_LIBRARY_PATH"] = os.path.join(self.dir, "prefix", "lib")
        env["ASAN_OPTIONS"] += ":verify_asan_link_order=0"
        env["LD_PRELOAD"] = os.path.join(self.dir, "shim.so") + ":" + pre
        if lang == "python":
            env["PYTHONMALLOC"] = "malloc"
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            return ["/usr/bin/python3", os.path.join(SRC, "driver.py"), mod, *tail], env
        if lang == "ruby":
            return ["ruby", os.path.join(SRC, "driver.rb"), mod, *tail], env
        if lang == "php":
            env["USE_ZEND_ALLOC"] = "0"
            return ["php", "-n", "-d", "memory_limit=-1", "-d", "extension=" + os.path.join(mod, "hext.so"), os.path.join(SRC, "driver.php"), *tail], env
        return ["node", "--expose-gc", os.path.join(SRC, "driver.js"), mod, *tail], env

    def drive(self, lang, shard, shards, lo, hi, gc=False, timeout=600):
        """(summary or None, failing line, message)"""
        prog = os.path.join(self.dir, "progress-%s-%s-%d-%d" % (self.mode, lang, shard, gc))
        if os.path.exists(prog):
            os.unlink(prog)
        cmd, env = self.command(lang, shard, shards, lo, hi, prog)
        if gc:
            env["VERIF_GC"] = "1"
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
            rc, out, err = p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, out, err = -999, "", "no answer within %d s" % timeout
        s = None
        try:
            s = json.loads(out.splitlines()[-1])
        except (ValueError, IndexError):
            pass
        line = -1
        try:
            with open(prog) as f:
                line = int(f.read())
        except (OSError, ValueError):
            pass
        if line < 0 and (rc or s is None):
            raise CheckError("the %s driver does not start:\n%s" % (lang, (out + err)[-4000:]))
        if rc or s is None:
            return s, line, "the %s process ends with status %d\n%s" % (lang, rc, (out + err)[-3500:])
        if s["fail"]:
            return s, s["fail"]["line"], s["fail"]["msg"]
        return s, None, None

    def describe(self, line):
        text = self.lines[line + self.skip].decode("utf-8", "replace").strip()
        if self.skip and not text.startswith('["'):
            ops = json.loads(self.lines[0])
            return "history: " + " ; ".join(json.dumps(ops[i])[:200] for i in json.loads(text))
        c = json.loads(text)
        return "hext: %r\nHTML: %r\nmax_searches: %d" % (c[0][:1000], c[1][:1000], c[2])

    def space(self, lang):
        return "%s: every enumerated %s" % (lang, {"cases": "hext x HTML x limit", "errors": "error and its message", "memory": "history or case, repeated until memory in use is constant",
                                                   "histories": "history of operations"}[self.mode])

    def run(self, pid):
        shards = 2
        res, errors = [], []

        def go(lang, shard, lo, hi, gc):
            try:
                res.append((lang, shard, lo, hi, gc, *self.drive(lang, shard, shards, lo, hi, gc)))
            except Exception as e:
                errors.append(e)

        # thorough: once more with a collection of garbage after every release
        jobs = [(l, s, 0, self.total, False) for l in LANGS for s in range(shards)]
        if self.mode == "histories" and check.TIER == "thorough":
            jobs += [(l, s, 0, min(self.total, 40000), True) for l in ("ruby", "nodejs") for s in range(shards)]
        ts = [threading.Thread(target=go, args=j) for j in jobs]
        t0 = time.time()
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]
        out = {"evaluations": 0, "states": 0, "transitions": 0, "validated": 0, "distinct_nontrivial": 0, "complete": True, "spaces": {}, "counters": {}, "samples": [], "violations": []}
        distinct = set()
        for l in self.lines[self.skip:]:
            distinct.add(hash(l.rsplit(b",", 1)[-1]) if not self.skip else hash(l))
        out["distinct_outcomes"] = len(distinct)
        for lang, shard, lo, hi, gc, s, line, msg in res:
            n = s["n"] if s else 0
            out["evaluations"] += n
            out["states"] += n
            out["transitions"] += s["steps"] if s else 0
            out["validated"] += n
            out["counters"]["steps in " + lang] = out["counters"].get("steps in " + lang, 0) + (s["steps"] if s else 0)
            if line is not None:
                out["complete"] = False
                out["violations"].append({"space": self.space(lang), "replay": "%s,%d,%d" % (lang, shard, line), "kind": "mismatch" if s else "crash",
                                          "key": "%s:%s" % (lang, self.mode), "msg": "%s\n%s\n%s" % (lang, self.describe(line), msg)})
        for l in LANGS:
            out["spaces"][self.space(l)] = self.total
        nontrivial = set()
        for l in self.lines[self.skip:]:
            if self.mode != "cases" or not l.endswith(b",[]]\n"):
                nontrivial.add(hash(l))
        out["distinct_nontrivial"] = len(nontrivial)
        out["samples"] = [self.describe(i * self.total // 5)[:700] for i in range(1, 5)]
        return out

    def replay(self, pid, triple, mode="--replay"):
        lang, shard, line = triple.split(",")
        line = int(line)
        if mode == "--replay":
            _, bad, msg = self.drive(lang, 0, 1, line, line + 1)
        else:
            _, bad, msg = self.drive(lang, int(shard), 2, 0, line + 1)
        if bad is None:
            return False, "no violation"
        return True, "%s\n%s" % (self.describe(bad), msg)


# ---- C30: the htmlext scripts of the languages --------------------------------

def unique(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError("duplicate member")
    return d


class ScriptPart(BindPart):
    """Runs the scripts as they are, on files, and reads what they print."""
    flags = "-O1 -g0 -w"
    SCRIPTS = {"python": "htmlext.py", "ruby": "htmlext.rb", "php": "htmlext.php", "nodejs": "htmlext.js"}

    def __init__(self):
        self.mode = "scripts"
        self.dir = os.path.join(BUILD, "bind-plain")
        self.tmp = os.path.join(self.dir, "files")

    def prepare(self):
        super().prepare()
        b = REPO + "/libhext/bindings/"
        # the JavaScript files look for the module beside them; swig no longer
        # writes hext.php
        js = os.path.join(self.dir, "js")
        shutil.rmtree(js, ignore_errors=True)
        os.makedirs(js + "/build/Release")
        for f in ("htmlext.js", "index.js"):
            shutil.copy(b + "nodejs/" + f, js)
        shutil.copy(self.dir + "/nodejs/hext.node", js + "/build/Release")
        php = os.path.join(self.dir, "include")
        os.makedirs(php, exist_ok=True)
        with open(php + "/hext.php", "w") as f:
            f.write("<?php\n")
        env = dict(check.child_env(), LD_LIBRARY_PATH=os.path.join(self.dir, "prefix", "lib"), PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPATH=self.dir + "/python", LC_ALL="C.UTF-8", LANG="C.UTF-8")
        for v in ("NODE_PATH", "NODE_OPTIONS", "RUBYOPT", "PYTHONSTARTUP"):
            env.pop(v, None)
        self.env = env
        self.cmds = {
            "python": ["/usr/bin/python3", b + "python/htmlext.py"],
            "ruby": ["ruby", "-I" + self.dir + "/ruby", b + "ruby/htmlext.rb"],
            "php": ["php", "-n", "-d", "memory_limit=-1", "-d", "include_path=" + php + ":" + self.dir + "/php", "-d", "extension=" + self.dir + "/php/hext.so", b + "php/htmlext.php"],
            "nodejs": ["node", js + "/htmlext.js"],
        }
        # command lines: [name, arguments, what is expected]
        self.lines = [json.loads(l) for l in self.lines]
        good, bad, doc = "<p @text:x/>", "<p", "<p>one</p><p>two</p>"
        # names and messages with characters that are not ASCII
        names = ("r\u00e4.hext", "\u20ac\u00e9.html")
        for h, msg in (("<p \u00e4", "Unexpected character"), ("<p\n\n</\U0001f600>", "Unexpected character"), ("<p title=='\u20ac'>", "Missing closing tag"), ("<p a=~/\u00e4(/>", "In regular expression")):
            self.lines.append({"files": {names[0]: h, names[1]: doc}, "args": list(names), "want": {"at": "Rule", "message": msg}})
        self.lines.append({"files": {names[0]: "<a @text=='\u00e4'/>", names[1]: "<i></i>" * 11000}, "args": list(names), "want": {"at": "extract", "message": ""}, "unlimited": []})
        for names in [("r.hext", "d.html"), ("a b.hext", "c d.html"), ("'q\"$x.hext", "%s%d.html"), ("\u00e4.hext", "\u20ac.html"), ("-r", "--help"), ("none", "x.y.z"), ("-", "--")]:
            for h, want in ((good, [{"x": "one"}, {"x": "two"}]), (bad, {"at": "Rule", "message": "Premature termination"})):
                self.lines.append({"files": {names[0]: h, names[1]: doc}, "args": list(names), "want": want})
        files = {"r": good, "b": bad, "d": doc, "e": ""}
        fails = {"at": "start", "message": ""}
        for a in ("r", "b", "d", "e", "missing", "dir", "dir/x", "r/x", ""):
            self.lines.append({"files": files, "args": [a], "want": fails})
            for c in ("missing", "dir", "dir/x", "r/x", ""):
                self.lines.append({"files": files, "args": [a, c], "want": fails})
                self.lines.append({"files": files, "args": [c, a], "want": fails})
        self.lines.append({"files": files, "args": [], "want": "usage"})
        self.lines.append({"files": files, "args": ["e", "e"], "want": []})
        self.lines.append({"files": files, "args": ["r", "e"], "want": []})
        # the same without a locale
        old = [c if isinstance(c, dict) else {"files": {"rule.hext": c[0], "doc.html": c[1]}, "args": ["rule.hext", "doc.html"], "want": c[2], **({"unlimited": c[3]} if c[3] is not None else {})}
               for c in self.lines if isinstance(c, dict) or (not (c[0] + c[1]).isascii() and len(c[0] + c[1]) < 300)]
        self.lines += [dict(c, locale="C") for c in old]
        self.total = len(self.lines)

    def describe(self, i):
        c = self.lines[i]
        if isinstance(c, dict) and "locale" in c:
            return "locale %s, files %s, arguments %s" % (c["locale"], json.dumps(c["files"])[:500], json.dumps(c["args"]))
        if isinstance(c, dict):
            return "files %s, arguments %s" % (json.dumps(c["files"])[:500], json.dumps(c["args"]))
        return "hext: %r\nHTML: %r" % (c[0][:800], c[1][:800])

    def case(self, lang, i, folder):
        """None or a message"""
        c = self.lines[i]
        if isinstance(c, dict):
            files, args, wants = c["files"], c["args"], [c["want"]] + ([c["unlimited"]] if "unlimited" in c else [])
        else:
            files, args, wants = {"rule.hext": c[0], "doc.html": c[1]}, ["rule.hext", "doc.html"], [c[2]] + ([c[3]] if c[3] is not None else [])
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(os.path.join(folder, "dir"))
        for n, t in files.items():
            with open(os.path.join(folder, n), "w", newline="", encoding="utf-8") as f:
                f.write(t)
        try:
            p = subprocess.run(self.cmds[lang] + args, cwd=folder, env=dict(self.env, LC_ALL=c["locale"], LANG=c["locale"]) if isinstance(c, dict) and "locale" in c else self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return "does not end within a minute"
        err = p.stderr.decode("utf-8", "replace")
        seen = "\nexit status %d\nstandard output: %r\nstandard error: %r" % (p.returncode, p.stdout[:1500], err[:1500])
        try:
            out = p.stdout.decode("utf-8")
        except UnicodeDecodeError:
            return "the output is not UTF-8" + seen
        problems = [self.judge(lang, w, p.returncode, out, err) for w in wants]
        return None if None in problems else problems[0] + seen

    def judge(self, lang, want, rc, out, err):
        if want == "usage":
            return None if rc == 0 and "sage" in out and not err else "expected the usage"
        if isinstance(want, dict):
            if rc <= 0:
                return "expected an error"
            if out:
                return "there is output although there is an error"
            if not err:
                return "an error without a message"
            if want["message"] not in err:
                return "expected the message " + want["message"][:1000]
            if want["at"] != "start" and not err.startswith(self.SCRIPTS[lang] + ": "):
                return "the script does not report the error, it fails"
            return None
        if rc:
            return "expected a result"
        if err:
            return "unexpected message"
        if out and not out.endswith("\n"):
            return "the last line does not end"
        got = []
        for line in out.split("\n")[:-1]:
            try:
                got.append(json.loads(line, object_pairs_hook=unique, parse_constant=lambda s: 1 / 0))
            except (ValueError, ZeroDivisionError, RecursionError) as e:
                return "no JSON: %r (%s)" % (line[:500], e)
        if got != want:
            return "expected %s" % json.dumps(want)[:1500]
        return None

    def run(self, pid):
        out = {"evaluations": 0, "states": 0, "transitions": 0, "validated": 0, "distinct_nontrivial": 0, "complete": True,
               "spaces": {"htmlext script in %s: every enumerated pair of files or command line" % l: self.total for l in LANGS}, "counters": {}, "samples": [], "violations": []}
        lock, todo, bad = threading.Lock(), [(i, l) for i in range(self.total) for l in LANGS], {}
        it = iter(todo)
        deadline = time.time() + 700
        errors = []

        def go(k):
            try:
                while True:
                    with lock:
                        n = next(it, None)
                        if n is None:
                            return
                        if time.time() > deadline:
                            out["complete"] = False
                            return
                        if n[1] in bad:
                            continue
                    i, lang = n
                    msg = self.case(lang, i, os.path.join(self.tmp, str(k)))
                    if msg:
                        msg = self.case(lang, i, os.path.join(self.tmp, str(k)))    # once more
                    with lock:
                        out["evaluations"] += 1
                        if msg:
                            bad[lang] = (i, msg)
            except Exception as e:
                errors.append(e)

        ts = [threading.Thread(target=go, args=(k,)) for k in range(check.JOBS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]
        shutil.rmtree(self.tmp, ignore_errors=True)
        for lang, (i, msg) in bad.items():
            out["complete"] = False
            out["violations"].append({"space": "htmlext script in %s: every enumerated pair of files or command line" % lang, "replay": "%s,0,%d" % (lang, i), "kind": "mismatch",
                                      "key": "%s:%s" % (lang, self.mode), "msg": "%s\n%s\n%s" % (self.SCRIPTS[lang], self.describe(i), msg)})
        out["states"] = out["transitions"] = out["validated"] = out["evaluations"]
        keys = {json.dumps(c) for c in self.lines}
        out["distinct_nontrivial"] = len([k for k in keys if not k.endswith("[], null]")])
        out["distinct_outcomes"] = len({json.dumps(c["want"] if isinstance(c, dict) else c[2]) for c in self.lines})
        out["samples"] = [self.describe(i * self.total // 5)[:700] for i in range(1, 5)]
        return out

    def replay(self, pid, triple, mode="--replay"):
        lang, _, line = triple.split(",")
        msg = self.case(lang, int(line), os.path.join(self.tmp, "replay"))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return (True, "%s\n%s" % (self.describe(int(line)), msg)) if msg else (False, "no violation")

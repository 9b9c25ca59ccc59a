"""C12 (Context): command lines of the specifications run with the real command."""
import random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *

CONSTANTS = ("CR", "NEWLINE", "NL", "Math", "true", "false", "null", "_")


def dump(fmt, content):
    """Text of a content in a format."""
    if content["kind"] == "broken":
        return content["val"]
    v = {k: json.loads(x) for k, x in content["dict"].items()} if content["kind"] == "dict" else json.loads(content["val"])
    if fmt == "json":
        return json.dumps(v, indent=2 if len(content["dict"]) % 2 else None)
    if fmt == "yaml":
        return yaml(v, 0) if v not in ({}, []) else json.dumps(v)
    return "".join("%s = %s\n" % (k, json.dumps(x) if not isinstance(x, dict) else "{\n%s}" % "".join("  %s = %s\n" % (a, json.dumps(b)) for a, b in x.items())) for k, x in v.items())


def yaml(v, n):
    pad = "  " * n
    if isinstance(v, dict) and v:
        return "".join("%s%s:%s" % (pad, k, ("\n" + yaml(x, n + 1)) if isinstance(x, (dict, list)) and x else " " + yaml(x, 0)) for k, x in v.items())
    if isinstance(v, list) and v:
        return "".join("%s- %s" % (pad, json.dumps(x) + "\n" if isinstance(x, (dict, list)) else yaml(x, 0)) for x in v)
    if isinstance(v, str) and re.fullmatch(r"[a-z]+", v):
        return v + "\n"
    return json.dumps(v) + "\n"


def options(r):
    """Command line arguments of a record."""
    args = []
    for n, it in enumerate(r["items"]):
        flag = dict(ifexist=["--import-if-exist"], var=["--var", "-V"]).get(it["src"], ["--import", "-i"])
        path = r["files"][it["path"] - 1]["path"] if it["path"] else ""
        if path and n % 3 == 1:
            path = "./" + path if it["form"] != "load" and r["files"][it["path"] - 1]["kind"] != "missing" else path
        text = dict(file=path, load=it["name"] + "=" + path, value=it["name"] + "=" + it["text"], bare=it["text"], dict=it["text"],
                    stdin="-", stdinto=it["name"] + "=-")[it["form"]]
        f = flag[n % len(flag)]
        args += [f + "=" + text] if len(f) > 2 else [f, text]
        if text == "-" and len(f) == 2:                  # an option cannot be followed by a single dash
            args[-2:] = [flag[0] + "=-"]
    if r["mode"]:
        args += ["--type", r["mode"]]
    if r["ignore"] != "no":
        args.append("--ignore-missing-" + dict(imports="import", paths="paths")[r["ignore"]])
    return args


def C12(c):
    deep = c.tier == "thorough"
    modes = '{"", "Json", "Yaml", "Hcl"}'
    jobs = [dict(module="Context", cfg="Context", consts=dict(MaxItems=2, Sim="FALSE", Emit="TRUE", SimModes='{""}'), timeout=900)]
    jobs += [dict(module="Context", cfg="Context", simulate=(5000 if deep else 450), depth=60, seed=SEED * 1000 + i, timeout=900,
                  consts=dict(MaxItems=(3, 5, 8, 12)[i % 4], Sim="TRUE", Emit="TRUE", SimModes=modes)) for i in range(8 if deep else 4)]
    res = tlc_many(jobs)
    c.model(res[0])
    rng = random.Random(SEED)
    bfs = res[0].records
    c.cov["exhaustive_command_lines"] = len(bfs)
    recs = rng.sample(bfs, min(len(bfs), 20000 if deep else 1200)) + [x for r in res[1:] for x in r.records]
    for r in recs:                                       # an empty function is printed as an empty sequence
        for x in r["files"] + r["items"] + [r["stdin"]]:
            x["dict"] = x["dict"] or {}
        r["ctx"] = r["ctx"] or {}
    exe = cli()

    def one(r):
        d = mkdir("ctx")
        os.makedirs(d + "/sub")
        for f in r["files"]:
            if f["kind"] != "missing":
                with open(os.path.join(d, f["path"]), "w") as h:
                    h.write(dump(f["fmt"], f))
        args = options(r) + ["@-toJson(.)"]
        env = go_env({} if r["read"] else {"GOTEMPLATE_NO_STDIN": "1"})
        env["TMPDIR"] = d
        p = subprocess.run([exe] + args, input=dump(r["stdin"]["fmt"], r["stdin"]) if r["read"] else "", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, env=env, cwd=d, timeout=60)
        shutil.rmtree(d)
        return r, args, p
    with ThreadPoolExecutor(NCPU) as ex:
        for r, args, p in ex.map(one, recs):
            c.count(1, commands=1)
            bad = dict(args=args, files=[dict(path=f["path"], text=dump(f["fmt"], f)) for f in r["files"] if f["kind"] != "missing"],
                       stdin=dump(r["stdin"]["fmt"], r["stdin"]) if r["read"] else None, exit=p.returncode, stdout=p.stdout, stderr=p.stderr[-400:])
            if r["failed"]:
                if p.returncode == 0 or p.stdout.strip():
                    c.violation("gotemplate %s must fail without processing any template: exit %d, printed %r" % (args, p.returncode, p.stdout), bad)
                continue
            want = {k: json.loads(v) for k, v in r["ctx"].items()}
            try:
                got = {k: v for k, v in json.loads(p.stdout).items() if k not in CONSTANTS}
            except ValueError:
                got = None
            if p.returncode != 0 or json.dumps(got, sort_keys=True) != json.dumps(want, sort_keys=True):
                c.violation("gotemplate %s: the context is %s, expected %s (exit %d)" % (args, got, want, p.returncode), dict(bad, expected=want))
    c.sample(dict(args=options(recs[-1]), ctx=recs[-1]["ctx"]))
    c.sample(dict(args=options(recs[0]), ctx=recs[0]["ctx"]))
    c.cov["failed_imports"] = sum(1 for r in recs if r["failed"])


# ---------------------------------------------------------------- C20 (Command)

# several ways of writing the same content (chosen from its number)
CONTENTS = dict(
    good=["T%d.{{ 1 }}", "T%d.{{ print 1 }}", 'T%d{{ "." }}1{{ "" }}'], razor=["R@(%d + 1)", "R@add(%d, 1)", "{{ `R` }}@(1 + %d)"], blank=["{{ if false }}x{{ end }}  ", '{{ "" }}  ', "  @if (false) x@end if"],
    lines=['L%d\nM{{ print "" }}\n', 'L%d\nM@<;', '{{ "L%d" }}\nM\n'],
    script=['{{ run "echo s%d" }}.', '{{ run "true; echo" "s%d" }}.', '{{ run "echo" "s%d" }}.', '{{ run "true; echo s{{ .k }}" (dict "k" %d) }}.'],
    shebang=['{{ run "#! /bin/sh\\necho h%d" }}.', '{{ run "#! /bin/sh\\necho" "h%d" }}.', '{{ run "#!/bin/sh -e\\necho h%d" }}.', '{{ run "#! /usr/bin/env sh\\necho h%d" }}.'],
    exec=['{{ exec "echo \'[%d, 2]\'" | join "," }}.', '{{ exec "true; echo" "\'[%d,2]\'" | join "," }}.', '{{ exec "#! /bin/sh\\necho \'[%d, 2]\'" | join "," }}.'],
    nested=['{{ include "{{ run \\"echo i%d\\" }}" }}.', '{{ include "{{ run \\"true; echo\\" \\"i%d\\" }}" }}.'],
    loop=['{{ range $i := list 1 2 %d }}{{ run (print "echo p" $i) }}{{ end }}.', '{{ range $i := list 1 2 %d }}{{ run "true; echo" (print "p" $i) }}{{ end }}.'],
    undefined=["U{{ .nope }}", "U{{ .nope.other }}", "U{{ .Math.Nope }}"], broken=["{{ if true }}%d", "{{ nothing %d }}", "{{ %da }}", "@if (true) %d", "{{ ) }} %d"], panic=['{{ panic "p%d" }}'],
    failscript=['{{ run "echo a; exit %d" }}', '{{ run "true; exit" "%d" }}', '{{ run "#! /bin/sh\\nexit" "%d" }}', '{{ exec "true; exit" "%d" }}', '{{ run "kill -9 $$; echo" "%d" }}'],
    badprogram=['{{ run "#! /nonexistent/program\\necho" }}', '{{ run "#! /nonexistent/program\\necho" "a" }}', '{{ run "nonexistentprogram" }}{{ raise "x" }}', '{{ exec "nonexistentprogram | cat; exit 3" }}'],
    twice=['{{ run "echo a" }}{{ run "echo b; exit 2" }}', '{{ run "true; echo" "a" }}{{ run "false;" "b" }}{{ exec "exit 1; true" 2 }}'], silent=['{{ run "false" }}', '{{ run "false" "a" }}', '{{ run "(exit 7)" }}'],
    exit=["X{{ exit %e }}", "@exit(%e)", '{{ if true }}{{ exit %e }}{{ end }}'], fatal=['{{ fatal "f%d" }}', '{{ fatalf "f%s" "%d" }}'],
    exitscript=['{{ run "echo x" }}{{ exit %e }}', '{{ run "true; echo" "x" }}{{ exit %e }}', '{{ exec "#! /bin/sh\\necho 1" }}{{ exit %e }}'])
CONTENTS["raise"] = ['{{ raise "r%d" }}', '@raise("r%d")', '{{ assert false "r%d" }}', '{{ fail "r%d" }}', '{{ include "{{ raise `r%d` }}" }}', "{{ div %d 0 }}"]


def content(kind, n):
    forms = CONTENTS[kind]
    return forms[n % len(forms)].replace("%d", str(n)).replace("%e", str(n % 4))


def tree(d):
    """Files, folders and links below a folder, with their contents."""
    res = {}
    for a, b, f in os.walk(d):
        for n in b:
            res[os.path.relpath(os.path.join(a, n), d)] = "folder"
        for n in f:
            p = os.path.join(a, n)
            res[os.path.relpath(p, d)] = "file:" + open(p, errors="replace").read()
    return res


def C20_run(rec, d, exe, rng):
    """Runs a record; returns (command line, description of the difference or None, result)."""
    conf, items = rec["conf"], rec["items"]
    work, temp, home = (os.path.join(d, x) for x in ("work", "temp", "home"))
    src = os.path.join(work, "src") if conf["source"] == "folder" else work
    for x in (os.path.join(src, "d"), os.path.join(temp, "gotemplate-1"), home):
        os.makedirs(x)
    for f, t in ((os.path.join(temp, "keep"), "k"), (os.path.join(temp, "exec_2"), "k"), (os.path.join(temp, "gotemplate-1", "keep"), "k"), (os.path.join(work, "values.yaml"), "a: 1\n"), (os.path.join(work, "broken.yaml"), "a: [1"),
                 (os.path.join(src, "other.txt"), "other")):
        with open(f, "w") as h:
            h.write(t)
    names, args, ext = {}, [], rng.choice([".gt", ".gt", ".template"])
    for i, it in enumerate(items, 1):
        text = content(it["kind"], it["n"])
        if it["via"] in ("found", "file"):
            names[i] = os.path.join("d" if it["sub"] else "", "f%02d%s" % (i, ".tf" if it["tf"] else ""))
            with open(os.path.join(src, names[i] + ext), "w") as f:
                f.write(text)
            if it["via"] == "file":
                args.append(rng.choice(["", "./"] if not it["sub"] else [""]) + names[i] + ext)
                if rng.random() < 0.2:
                    args.append(names[i] + ext)
        elif it["via"] == "code":
            args.append(text)
        else:
            args.append("absent%d%s" % (i, rng.choice(["", ".gt", "/x.gt"])))
    opts = []
    f = conf["flags"]
    opts += dict(flag=["--nope"], help=["--help"], version=["--version"], delimiters=["--delimiters", "a,b,c,d"], substitute=["-s", "/a"], regex=["--substitute", "/(/x"], pattern=["-p", "["], exclude=["-e", "["],
                 depth=["--recursion-depth", "x"], value=["--type", "xml"]).get(f, [])
    if conf["source"]:
        opts += ["--source", "src" if conf["source"] == "folder" else rng.choice(["none", "none/src"])]
    if conf["target"]:
        opts += ["--target", rng.choice(["out", "out/a"])]
    if conf["import"]:
        opts += [rng.choice(["--import=", "-i"]) + dict(found="values.yaml", missing="absent.yaml", broken="broken.yaml")[conf["import"]]]
    if conf["ignore"]:
        opts += ["--ignore-missing-" + conf["ignore"]]
    opts += ["-P"] if conf["print"] else []
    opts += ["--accept-no-value"] if conf["novalue"] else []
    opts += [rng.choice(["-r", "--recursive"])] if conf["recursive"] else []
    opts += ["-p", "*.gt,*.template"] if conf["pattern"] else []
    opts += ["-I"] if conf["stdin"] == "forced" else []
    if conf["list"]:
        line = ["list"] + opts
    else:
        line = (["run"] if rng.random() < 0.8 or f in ("flag", "depth", "value") else []) + (opts + args if rng.random() < 0.5 else args + opts)
    env = go_env(dict(TMPDIR=temp, HOME=home))
    env.pop("GOTEMPLATE_NO_STDIN", None)
    if conf["stdin"] in ("none", "forced", "ignored"):
        env["GOTEMPLATE_NO_STDIN"] = "1"
    before, before_temp = tree(work), tree(temp)
    data = content(conf["content"]["kind"], conf["content"]["n"]) if conf["stdin"] in ("pipe", "forced", "ignored") else None
    try:
        r = subprocess.run([exe] + line, cwd=work, env=env, timeout=60, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **(dict(input=data) if data is not None else dict(stdin=subprocess.DEVNULL)))
    except subprocess.TimeoutExpired:
        return line, "no answer after 60 seconds", {}
    after, after_temp = tree(work), tree(temp)
    got = dict(code=r.returncode, out=r.stdout, err=r.stderr[-1500:], stdin=data, files={k: v for k, v in after.items() if before.get(k) != v}, removed=[k for k in before if k not in after], left=[k for k in after_temp if k not in before_temp])
    want = dict(before)
    for x in rec["files"]:
        stem, last = os.path.splitext(names[x["id"]])
        if conf["target"]:
            name = os.path.join(os.path.relpath(os.path.join(work, opts[opts.index("--target") + 1]), work), stem + last)
        else:
            name = os.path.relpath(os.path.join(src, stem + ".generated" + last), work)
        want[name] = "file:" + x["text"]
        folder = os.path.dirname(name)
        while folder:
            want.setdefault(folder, "folder")
            folder = os.path.dirname(folder)
    exact = r.returncode == rec["code"] if rec["exact"] else (r.returncode == 0) == (rec["code"] == 0)
    if not exact:
        return line, "exit code %d instead of %s" % (r.returncode, rec["code"] if rec["code"] == 0 or rec["exact"] else "an error"), got
    if f not in ("help", "version", "flag", "value", "depth") and not conf["list"] and r.stdout != "".join(rec["out"]):
        return line, "prints %r instead of %r" % (r.stdout, "".join(rec["out"])), got
    if after != want:
        diff = {k: after.get(k, "nothing") for k in set(after) | set(want) if after.get(k) != want.get(k)}
        return line, "changed files %s instead of %s" % (diff, {k: want.get(k, "nothing") for k in diff}), got
    if after_temp != before_temp:
        return line, "temporary files left %s, removed %s" % (got["left"], [k for k in before_temp if before_temp[k] != after_temp.get(k)]), got
    if tree(home):
        return line, "files %s in the home folder" % sorted(tree(home)), got
    return line, None, got


def C20(c):
    deep = c.tier == "thorough"
    K = lambda n, sim: dict(MaxItems=n, Sim=sim, Emit=sim)
    jobs = [dict(module="Command", cfg="Command", consts=K(2, "FALSE"), timeout=900)]
    if deep:
        jobs.append(dict(module="Command", cfg="Command", consts=K(3, "FALSE"), timeout=2400))
    fixed = len(jobs)
    jobs += [dict(module="Command", cfg="Command", simulate=(6000 if deep else 600), depth=100, seed=SEED * 1000 + i, timeout=900, consts=K(n, "TRUE")) for i, n in enumerate((1, 2, 4, 7))]
    res = tlc_many(jobs)
    for r in res[:fixed]:
        c.model(r)
        c.actions(r.coverage)
    recs = [x for r in res[fixed:] for x in r.records]
    exe = cli()
    base = mkdir("command")

    def one(i):
        d = os.path.join(base, "r%d" % i)
        os.makedirs(d)
        try:
            return C20_run(recs[i], d, exe, random.Random(SEED * 100003 + i))
        finally:
            shutil.rmtree(d)
    codes = {}
    with ThreadPoolExecutor(NCPU) as ex:
        for rec, (line, what, got) in zip(recs, ex.map(one, range(len(recs)))):
            c.count(1)
            codes[str(got.get("code"))] = codes.get(str(got.get("code")), 0) + 1
            if what:
                c.violation("gotemplate %s (standard input: %s): %s" % (" ".join(map(repr, line)), rec["conf"]["stdin"], what), dict(args=line, record=rec, got=got))
            else:
                c.sample(dict(args=line, record=rec, got=got))
    c.cov["exit_codes"] = codes
    shutil.rmtree(base)

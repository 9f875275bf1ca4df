"""mk(id, prop, file, [(old,new)], main, needs, breaks): edit /repo, write the seeded folder, restore /repo."""
import json, os, subprocess
def mk(id, prop, edits, main, needs, breaks):
    R = os.environ.get("SEEDREPO", "/repo"); os.chdir(R)
    assert not subprocess.check_output(["git","status","--short"]).strip(), "dirty"
    for f, old, new, *which in edits:  # which: number of the occurrence
        s = open(f).read()
        n = s.count(old)
        assert n >= 1, (id, f, "not found", old)
        assert n == 1 or which, (id, f, "ambiguous", n)
        k = s.index(old)
        for _ in range(which[0] if which else 0):
            k = s.index(old, k + 1)
        open(f, "w").write(s[:k] + new + s[k + len(old):])
    subprocess.check_call(["python3", "/verif/tools/seed_new.py", id])
    subprocess.check_call(["git", "checkout", "-q", "--", "."])
    d = f"/verif/seeded/{id}"
    open(d + "/main.rs", "w").write(open("/verif/tools/prelude.rs").read() + main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)


def mkpy(id, prop, edits, main, needs, breaks):
    """the demonstration is a Python program that imports the extension module"""
    mk(id, prop, edits, "", needs, breaks)
    d = f"/verif/seeded/{id}"
    os.remove(d + "/main.rs")
    open(d + "/main.py", "w").write(main)
    e = "/verif/pyharness/ext/"
    open(d + "/Cargo.toml.in", "w").write(open(e + "Cargo.toml").read())
    open(d + "/Cargo.lock.in", "w").write(open(e + "Cargo.lock").read())
    s = open(d + "/demo.sh").read()
    s = s.replace("main.rs", "main.py").replace('cargo build', 'env PYO3_PYTHON=/usr/bin/python3 cargo build')
    a = s.index("TMPDIR=")
    s = s[:a] + 'cp "$w/target/release/libpyglobalsearch.so" "$w/pyglobalsearch.so"\nTMPDIR="$w/scratch" PYTHONDONTWRITEBYTECODE=1 timeout 120 /usr/bin/python3 "$w/main.py"\n'
    open(d + "/demo.sh", "w").write(s)

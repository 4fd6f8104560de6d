#!/usr/bin/env python3
"""Runs checks against the planted bugs:

    try_seeded.py [--all-props] [--thorough] [--seed N] [id or prefix...]
    try_seeded.py --harmless [--second|--third] [--thorough] [--seed N] [property...]

The second form runs checks on a tree with all of tools/refactorings
(or -2, -3) applied, which change no behaviour; with --clean, on the tree as it is.

Each patch is applied to a scratch copy of /repo, which is shown in place of
/repo (likewise a copy of /verif) to the check alone, in a mount namespace of
its own: neither directory is touched.
"""
import json, os, shutil, subprocess, sys, time

SCRATCH = os.environ.get("TRY_SCRATCH", "/tmp/try")
LIVE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def fresh():
    os.makedirs(SCRATCH, exist_ok=True)
    sh(f"mkdir -p {SCRATCH}/verif && cd {LIVE} && tar cf - --exclude=./.work "
       f"--exclude=./mon/target --exclude=./.git . | tar xf - -C {SCRATCH}/verif")
    shutil.rmtree(f"{SCRATCH}/repo", ignore_errors=True)
    sh(f"git clone -q /repo {SCRATCH}/repo && cp /repo/Cargo.lock {SCRATCH}/repo/")


def check(prop, tier="quick", seed="1"):
    return sh(f"unshare -m bash -c 'mount --bind {SCRATCH}/repo /repo && "
              f"mount --bind {SCRATCH}/verif /verif && cd /verif && "
              f"VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {prop}'")


def harmless(props, tier, seed, refactored):
    fresh()
    d = LIVE + "/tools/" + refactored if refactored else ""
    for f in sorted(os.listdir(d)) if refactored else []:
        r = sh(f"git -C {SCRATCH}/repo apply {d}/{f}")
        print(f, "DOES NOT APPLY" if r.returncode else "applied", flush=True)
    m = json.load(open(LIVE + "/MANIFEST.json"))
    for c in m["checks"]:
        if props and c["property"] not in props:
            continue
        t = time.time()
        r = check(c["property"], tier, seed)
        print(c["property"], "quiet" if r.returncode == 0 else
              f"exit {r.returncode}: " + r.stdout[:1500],
              f"{time.time() - t:.0f}s", flush=True)


def main():
    argv = sys.argv[1:]
    tier = "thorough" if "--thorough" in argv else "quick"
    seed = "1"
    which = "refactorings"
    for o, n in (("--second", 2), ("--third", 3)):
        if o in argv:
            which = f"refactorings-{n}"
            argv.remove(o)
    if "--seed" in argv:
        i = argv.index("--seed")
        seed = argv[i + 1]
        del argv[i:i + 2]
    args = [a for a in argv if not a.startswith("--")]
    props = None
    if "--harmless" in argv or "--clean" in argv:
        return harmless(args, tier, seed,
                        "" if "--clean" in argv else which)
    if "--all-props" in argv:
        m = json.load(open(LIVE + "/MANIFEST.json"))
        props = [c["property"] for c in m["checks"]]
    fresh()
    ids = sorted(os.listdir(LIVE + "/seeded"))
    if args:
        ids = [i for i in ids if any(i.startswith(a) for a in args)]
    for i in ids:
        d = LIVE + "/seeded/" + i
        p = json.load(open(d + "/meta.json"))["property"]
        r = sh(f"git -C {SCRATCH}/repo apply {d}/patch.diff")
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout, flush=True)
            continue
        got = []
        t = time.time()
        for q in props or [p]:
            c = check(q, tier, seed)
            v = [x for x in c.stdout.splitlines()
                 if x.startswith(f"VIOLATION property={q} ")]
            got.append(f"{q}:" + (
                "CAUGHT" if c.returncode == 1 and v else
                "missed" if c.returncode == 0 else f"exit {c.returncode}"))
            if props is None or c.returncode not in (0, 1):
                got.append((c.stdout.strip().splitlines() or ["?"])[0][:150])
        print(i, *got, f"{time.time() - t:.0f}s", flush=True)
        sh(f"git -C {SCRATCH}/repo checkout -- .")


if __name__ == "__main__":
    main()

"""Cargo goes by the times of files: a source put back with an old time would keep a newer build of
something else. What hop's crates were built from is noted by its contents, and if that differs
their fingerprints are removed."""
import glob, hashlib, os, shutil, sys


def digest(repo):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, repo).encode() + b"\0")
                try:
                    with open(p, "rb") as x:
                        h.update(hashlib.sha256(x.read()).digest())
                except OSError:
                    pass
    return h.hexdigest()


def before(repo, target):
    """Call before a build into `target`; returns what to give `after`."""
    now, path = digest(repo), os.path.join(target, "hop.stamp")
    try:
        old = open(path).read()
    except OSError:
        old = None
    if old != now:
        for p in glob.glob(os.path.join(target, "*", ".fingerprint", "hop-*")):
            shutil.rmtree(p, ignore_errors=True)
        try:
            os.remove(path)
        except OSError:
            pass
    return now


def after(target, now):
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "hop.stamp"), "w") as f:
        f.write(now)


if __name__ == "__main__":
    for t in sys.argv[3:]:
        (print(before(sys.argv[2], t)) if sys.argv[1] == "before" else after(t, digest(sys.argv[2])))

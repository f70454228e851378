"""Running scripts of the unit harness."""
import os, subprocess, tempfile
import pb as PB

def call(argv, lines, env, timeout):
    """One run fed with lines; None when it does not end."""
    with tempfile.TemporaryFile("w+") as i, tempfile.TemporaryFile("w+", errors="replace") as o, tempfile.TemporaryFile("w+", errors="replace") as e:
        i.write("\n".join(lines) + "\n"); i.seek(0)
        try:
            p = subprocess.run(PB.limited(argv), stdin=i, stdout=o, stderr=e, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
        o.seek(0); e.seek(0); p.stdout, p.stderr = o.read(1 << 29), e.read(1 << 24)
        return p

def script(c, key, lines, variant="rel", timeout=300, leaks=False):
    """Output lines, or None after reporting an abnormal end."""
    env = dict(os.environ); env.update(PB.ENV)
    if variant == "asan":
        env["ASAN_OPTIONS"] += ":detect_leaks=" + ("1" if leaks else "0") + ":symbolize=1"
        env["LSAN_OPTIONS"] = "print_suppressions=0:max_leaks=3"
    p = call([c.exe(variant, "unit")], lines, env, timeout)
    if p is None:
        c.viol(key + ":hang", f"not finished after {timeout} s", dict(script=lines[-4000:]))
        return None
    PB._count += 1
    c.count("program executions")
    out = p.stdout.split("\n")
    if "PB-BADOP" in p.stderr:
        raise RuntimeError(p.stderr[-300:])
    if p.returncode or "END" not in out:
        r = PB.Result(rc=p.returncode, out="", err=p.stderr)
        c.viol(key + ":crash", "abnormal end: " + str(r.crash()), dict(script=lines[-4000:], stderr=p.stderr[-3000:]))
        return None
    if leaks:
        return out, p.stderr
    return out

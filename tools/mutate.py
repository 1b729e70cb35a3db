#!/usr/bin/env python3
"""Small changes, one at a time, to the sources under test, to find what the
monitors miss. Works on copies only.

mutate.py list                 prints how many there are
mutate.py run WORKDIR I N      worker I of N: WORKDIR/repo and WORKDIR/verif are
                               mounted over /repo and /verif for each step;
                               one line per mutant to WORKDIR/log

A mutant counts if it builds with all features and passes the repository's own
tests; it is killed by the first monitor of the harness that alarms."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["srp/src/client.rs", "srp/src/server.rs", "srp/src/utils.rs", "srp/src/types.rs", "srp/src/groups.rs", "spake2/src/lib.rs", "spake2/src/ed25519.rs", "spake2/src/error.rs", "spake2/src/group.rs",
         "aucpace/src/client.rs", "aucpace/src/server.rs", "aucpace/src/utils.rs", "aucpace/src/errors.rs", "aucpace/src/database.rs", "aucpace/src/constants.rs"]
ORDER = {"srp": "C03 C04 C01 C05 C07 C28 C02 C22 C24 C23 C26 C06".split(), "spake2": "C12 C27 C11 C13 C28 C09 C10 C22 C24 C23 C26".split(),
         "aucpace": "C17 C20 C28 C16 C21 C18 C22 C14 C15 C07 C19 C24 C23 C26".split()}
WORDS = ["a_pub", "b_pub", "username", "password", "salt", "user", "pass", "x_pub", "blinded", "verifier", "client", "server", "id_a", "id_b", "first_msg", "second_msg", "msg1", "msg2", "m1", "m2", "ta", "tb", "sk1", "ssid", "prs", "priv_key", "pub_key",
         "x", "v", "a", "b", "u", "k", "g", "n", "s", "q", "w"]
PAIRS = [("a_pub", "b_pub"), ("username", "password"), ("id_a", "id_b"), ("msg1", "msg2"), ("first_msg", "second_msg"), ("m1", "m2"), ("ta", "tb"), ("ssid", "sk1"), ("ssid", "prs"), ("salt", "username"), ("salt", "password"), ("user", "pass"),
         ("Side::A", "Side::B"), ("Side::B", "Side::Symmetric"), ("Side::A", "Side::Symmetric"), ("const_m", "const_n"), ("const_m", "const_s"), ("const_n", "const_s"), ("a", "b"), ("x", "u"), ("client", "server"), ("m", "n"), ("x", "q"), ("private", "public"), ("blinding_value", "q"), ("verifier", "x_pub"), ("server_nonce", "client_nonce"), ("s", "t")]

def code_lines(path):
    ls = open(path).read().split("\n")
    out, block = [], False
    for i, l in enumerate(ls):
        if re.match(r"\s*(#\[cfg\(.*\btest\b|mod tests)", l):
            break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("pub use") or s.startswith("///"):
            continue
        out.append(i)
    return ls, out

def variants(l):
    c = l.split("//")[0].rstrip()
    out = []
    def sub(pat, rep, what):
        for m in re.finditer(pat, c):
            new = c[:m.start()] + m.expand(rep) + c[m.end():]
            if new != c:
                out.append((what, new))
    sub(r" == ", " != ", "eq"); sub(r" != ", " == ", "ne")
    sub(r" < ", " <= ", "lt"); sub(r" > ", " >= ", "gt"); sub(r" <= ", " < ", "le"); sub(r" >= ", " > ", "ge"); sub(r" < ", " > ", "flip"); sub(r" > ", " < ", "flip")
    sub(r" && ", " || ", "and"); sub(r" \|\| ", " && ", "or")
    sub(r"\bif (?!let)(.*) \{$", r"if !(\1) {", "negate"); sub(r"\bif (?!let)(.*) \{$", r"if false && (\1) {", "never"); sub(r"\bif (?!let)(.*) \{$", r"if true || (\1) {", "always")
    if not re.search(r"\bconst [A-Z_]+: \[|0x", c):
        for m in re.finditer(r"(?<![\w.#\"'])(\d+)(?![\w.\"'])", c):
            n = int(m[1])
            for d in ([n + 1, n - 1] if n else [1]):
                out.append((f"{n}->{d}", c[:m.start()] + str(d) + c[m.end():]))
    for a, b in [("+", "-"), ("-", "+"), ("*", "+"), ("%", "+"), ("/", "*"), ("+", "*")]:
        sub(rf" {re.escape(a)} (?!')", f" {b} ", f"{a}->{b}")
    for a, b in [("to_bytes_be", "to_bytes_le"), ("from_bytes_be", "from_bytes_le"), ("to_le_bytes", "to_be_bytes"), ("from_bytes_mod_order_wide", "from_bytes_mod_order"), (".invert()", ""), (" - ", " + "), ("RISTRETTO_BASEPOINT_POINT", "RistrettoPoint::default()"),
                 (".is_identity()", ".is_identity() && false"), ("Scalar::ONE", "Scalar::from(8u64)"), ("true", "false"), ("false", "true"), ("ConstantTimeEq", "ConstantTimeEq"), ("first", "last"), (".as_bytes()", ".as_bytes()[..1]"), (".reverse()", ".len()"), ("unwrap_or_default()", "unwrap()")]:
        if a != b:
            sub(re.escape(a), b, f"{a}->{b}")
    for n in range(6):
        sub(rf"\bH{n}\b", f"H{(n + 1) % 6}", f"H{n}")
        sub(rf"\bH{n}\b", f"H{(n + 5) % 6}", f"H{n}-")
    for a, b in PAIRS:
        sub(rf"(?<![\w\"]){a}\b(?!\s*:)(?!\")", b, f"{a}->{b}"); sub(rf"(?<![\w\"]){b}\b(?!\s*:)(?!\")", a, f"{b}->{a}")
    for m in re.finditer(r"Error::(\w+)|SrpAuthError::(\w+)|ErrorType::(\w+)", c):
        kinds = {"spake2": ["BadSide", "CorruptMessage", "WrongLength"], "aucpace": ["PasswordHashing", "HashEmpty", "HashSizeInvalid", "IllegalPointError", "MutualAuthFail", "UsernameOrPasswordTooLong", "InsecureSsid"]}
        for ks in kinds.values():
            w = m[1] or m[2] or m[3]
            if w in ks:
                for k in ks:
                    if k != w and k != "PasswordHashing":
                        out.append((f"{w}->{k}", c[:m.start()] + m[0].replace(w, k) + c[m.end():]))
    # a literal string
    for m in re.finditer(r'b?"([^"]+)"', c):
        out.append(("string", c[:m.start(1)] + m[1][:-1] + c[m.end(1):]))
    # statements
    if re.match(r"\s*[\w.&*]+(\.[\w]+|::<.*>|::\w+)*\(.*\);$", c) and not c.strip().startswith(("return", "let", "Ok(", "Err(")):
        out.append(("delete", ""))
    if re.match(r"\s*\.\w+\(.*\)$", c):
        out.append(("delete link", ""))
    if re.match(r"\s*(pub )?const \w+: usize = ", c):
        pass
    return out

def mutants():
    seen = set()
    for f in FILES:
        p = os.path.join("/repo", f)
        ls, idx = code_lines(p)
        for k, i in enumerate(idx):
            for what, new in variants(ls[i]):
                key = (f, i, new)
                if key not in seen:
                    seen.add(key)
                    yield f, i, what, ls[i], new, None
            # neighbouring statements change places
            if k + 1 < len(idx) and idx[k + 1] == i + 1 and ls[i].strip().endswith(";") and ls[i + 1].strip().endswith(";") and "update" in ls[i] and "update" in ls[i + 1]:
                yield f, i, "swap", ls[i], ls[i + 1], ls[i]

def ns(w, *cmd, timeout=600):
    c = f'mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && exec "$@"'
    try:
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", c, "x", *cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env={**os.environ, "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0"})
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def main():
    if sys.argv[1] == "list":
        ms = list(mutants())
        print(len(ms), {f: sum(m[0] == f for m in ms) for f in FILES})
        return
    w, me, n = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    log = open(w + "/log", "a")
    done = {l.split(" | ")[0] for l in open(w + "/log")}
    import random
    all_ = list(enumerate(mutants()))
    random.Random(1).shuffle(all_)
    for at, (k, (f, i, what, old, new, nxt)) in enumerate(all_):
        if at % n != me:
            continue
        ident = f"{f}:{i + 1} {what} #{k}"
        if ident in done:
            continue
        def say(res):
            log.write(f"{ident} | {res} | {old.strip()} => {new.strip()}\n"); log.flush()
        p = os.path.join(w, "repo", f)
        orig = open(os.path.join("/repo", f)).read()
        ls = orig.split("\n")
        ls[i] = new
        if nxt is not None:
            ls[i + 1] = nxt
        open(p, "w").write("\n".join(ls))
        crate = f.split("/")[0]
        try:
            rc, out = ns(w, "cargo", "test", "--offline", "-q", "--manifest-path", f"/repo/{crate}/Cargo.toml", "--all-features", "--lib", "--tests", timeout=300)
            if rc:
                say("does not build" if "could not compile" in out else "killed by the repository's tests")
                continue
            rc, out = ns(w, "cargo", "build", "--offline", "-q", "--release", "--manifest-path", "/verif/harness/Cargo.toml", "--target-dir", "/verif/target/rel")
            if rc:
                say("harness does not build")
                continue
            res = "SURVIVED"
            for c in ORDER[crate]:
                rc, out = ns(w, "/verif/target/rel/release/pakemon", c, "--seed", "1", "--scale", "1", "--out", "/verif/o.json", "--cap", "2", timeout=240)
                if rc:
                    res = f"killed by {c}" + ("" if rc == 1 else f" ({rc})")
                    break
            say(res)
        finally:
            open(p, "w").write(orig)

if __name__ == "__main__":
    main()

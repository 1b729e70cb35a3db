#!/bin/bash
# Builds the framework from the committed files, offline: the harness natively and
# under AddressSanitizer and ThreadSanitizer, and the workload counted by callgrind.
# Every check builds by itself what is missing here.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import concurrent.futures as cf, sys
import check
jobs = [("harness", "rel"), ("harness", "asan"), ("harness", "tsan")]
def one(j):
    try:
        return check.build(*j), None
    except check.NoVerdict as e:
        return None, str(e)
with cf.ThreadPoolExecutor(3) as ex:
    rs = list(ex.map(one, jobs))
for j, (exe, err) in zip(jobs, rs):
    print(*j, exe or "FAILED:\n" + err)
sys.exit(0 if rs[0][0] else 1)
P

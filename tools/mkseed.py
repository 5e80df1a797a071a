#!/usr/bin/env python3
"""mkseed.py NAME DIFF PROPERTY: folder seeded/NAME from a diff; main.rs, needs and breaks come from seeds/NAME.* of stdin JSON.
Used while developing: reads {"main": ..., "needs": ..., "breaks": ...} on stdin."""
import json, os, sys
name, diff, prop = sys.argv[1:4]
j = json.load(sys.stdin)
d = f"/verif/seeded/{name}"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(open(diff).read())
open(d + "/main.rs", "w").write(j["main"])
json.dump({"property": prop, "needs": j["needs"], "what_it_breaks": j["breaks"]}, open(d + "/meta.json", "w"), indent=1)
HEAD = """#!/bin/bash
# %s
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
so=$(cargo build --offline --lib --message-format=json 2>/dev/null | grep -o '"[^"]*libparsegen[^"]*\\.so"' | tail -1 | tr -d '"')
[ -n "$so" ] || { echo "parsegen does not build"; exit 3; }
tmp=$(mktemp -d)
trap 'find "$tmp" -depth -delete' EXIT
"""
RUN = HEAD % "Builds main.rs with the parsegen of the current directory and runs it: exit 0 if it behaves." + """\
timeout 200 rustc --edition 2021 --cap-lints allow -C debuginfo=0 --extern parsegen="$so" -o "$tmp/demo" "$here/main.rs" || exit 2
timeout 60 "$tmp/demo"
"""
# {"rejected": n}: of the expansions in main.rs exactly n are rejected
REJECT = HEAD % "Expands main.rs with the parsegen of the current directory: exit 0 if as many expansions as must be are rejected." + """\
timeout 200 rustc --edition 2021 --cap-lints allow --emit=metadata --extern parsegen="$so" -o "$tmp/demo" "$here/main.rs" 2> "$tmp/log"
n=$(grep -c "^error: proc macro panicked" "$tmp/log")
echo "$n expansions were rejected, %d must be"
[ "$n" = %d ]
"""
# {"expand": true}: main.rs expands to the same code each time
EXPAND = HEAD % "Expands main.rs several times with the parsegen of the current directory: exit 0 if the code is the same." + """\
for i in 1 2 3 4 5 6 7 8; do
  RUSTC_BOOTSTRAP=1 timeout 60 rustc --edition 2021 --cap-lints allow -Zunpretty=expanded --extern parsegen="$so" "$here/main.rs" > "$tmp/$i" || exit 2
  cmp "$tmp/1" "$tmp/$i" || exit 1
done
"""
open(d + "/demo.sh", "w").write(EXPAND if "expand" in j else REJECT % (j["rejected"], j["rejected"]) if "rejected" in j else RUN)
os.chmod(d + "/demo.sh", 0o755)

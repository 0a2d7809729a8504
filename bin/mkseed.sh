#!/bin/bash
# mkseed.sh <id> <property> <needs> <what it breaks> <demo main.rs> <demo dependencies file> <patch>
# Packs a planted bug: the patch, and a demonstration with the stand-in crates it builds against.
set -e
root=$(cd "$(dirname "$0")/.." && pwd)
d=$root/seeded/$1
mkdir -p "$d"
cp "$7" "$d/patch.diff"
cp "$5" "$d/main.rs"
python3 - "$2" "$3" "$4" > "$d/meta.json" <<'P'
import json, sys
print(json.dumps({"property": sys.argv[1], "needs": sys.argv[2], "what_it_breaks": sys.argv[3]}, indent=1))
P
{ printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n'; cat "$6"; } > "$d/demo.toml"
tar czf "$d/kit.tgz" -C "$root/harness" --exclude target Cargo.toml Cargo.lock .cargo vendor shims trin
cat > "$d/demo.sh" <<'S'
#!/bin/bash
# Builds the demonstration against /repo's sources and runs it.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
tar xzf "$here/kit.tgz" -C "$w" || exit 3
mkdir -p "$w/drivers/demo/src" "$w/tmp"
cp "$here/main.rs" "$w/drivers/demo/src/main.rs"
cp "$here/demo.toml" "$w/drivers/demo/Cargo.toml"
cd "$w" || exit 3
TMPDIR="$w/tmp" cargo build --offline -q -p demo || exit 3
TMPDIR="$w/tmp" timeout 200 ./target/debug/demo
S
chmod +x "$d/demo.sh"

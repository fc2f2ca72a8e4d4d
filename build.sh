# Sourced by check.sh and setup.sh: builds from /repo's working tree.
# Cargo decides by time stamps; decide by content instead.
stamp=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name '*.toml' -o -name '*.asn' -o -name '*.asn1' \) -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
export HAMPI=$PWD/target/hampi/debug/hampi-asn1c EXTERNS=$PWD/target/externs E2E_SRC=$PWD/target/e2e-src

fresh() { # forget what was built from another tree
    if [ "$(cat target/repo.stamp 2>/dev/null)" != "$stamp" ]; then
        rm -f "$PWD"/target/repo.stamp
        for c in asn1-codecs asn1_codecs_derive asn1-compiler; do
            (cd harness && cargo clean --offline -q -p $c) 2>/dev/null
            [ -d target/e2e ] && (cd e2e && cargo clean --offline -q -p $c --target-dir "$CARGO_TARGET_DIR/e2e") 2>/dev/null
        done
        (cd /repo && cargo clean --offline -q -p asn1-compiler --target-dir "$CARGO_TARGET_DIR/hampi") 2>/dev/null
    fi
}

# Builds that fail are errors of the run, not verdicts.
broken() {
    tail -40 "$1"
    echo "error: the harness does not build against this tree"
    exit 2
}
build() {
    (cd harness && cargo build --offline "$@") >target/build.log 2>&1 || broken target/build.log
    echo "$stamp" >target/repo.stamp
}
build_hampi() {
    (cd /repo/asn-compiler && cargo build --offline --bin hampi-asn1c --target-dir "$CARGO_TARGET_DIR/hampi") >target/hampi.log 2>&1 || broken target/hampi.log
}
externs() { # rustc arguments for code that uses the codec and the derive
    (cd harness && cargo build --offline --features compiler --lib --message-format json) 2>target/build.log | python3 -c '
import sys, json, os
want = {"asn1_codecs", "asn1_codecs_derive", "bitvec", "log"}
dirs, ext = set(), {}
for l in sys.stdin:
    j = json.loads(l)
    if j.get("reason") != "compiler-artifact": continue
    n = j["target"]["name"].replace("-", "_")
    for f in j["filenames"]:
        if f.endswith((".rlib", ".so")):
            dirs.add(os.path.dirname(f))
            # The codec can be there twice, once for the derive itself.
            if n in want: ext[n] = f
for n, f in sorted(ext.items()): print("--extern=%s=%s" % (n, f))
for d in sorted(dirs): print("-Ldependency=" + d)
' >target/externs || broken target/build.log
    grep -q derive target/externs || broken target/build.log
}
build_e2e() { # COUNT: the codecs generated from that many specifications
    build --features gencode --bin e2egen
    build_hampi
    target/debug/e2egen "$E2E_SRC" "$VERIF_SEED" "$1" || exit 2
    if ! e2e_cargo; then
        # Leave out the specifications whose code does not build; the check
        # reports them.
        externs
        target/debug/e2egen "$E2E_SRC" "$VERIF_SEED" "$1" --vet || exit 2
        e2e_cargo || broken target/e2e.log
    fi
}
e2e_cargo() { (cd e2e && cargo build --offline --target-dir "$CARGO_TARGET_DIR/e2e") >target/e2e.log 2>&1; }

#!/bin/bash
# dump.sh REPO OUT.json : MIR of /repo's current working tree, as the compiler produced it
set -e
REPO=$(realpath "${1:-/repo}"); OUT=$(realpath -m "${2:-/verif/.cache/mir.json}")
V=$(cd "$(dirname "$0")/.." && pwd)
MD=$V/.cache/mirdump/debug/mirdump
if [ ! -x "$MD" ] || [ "$V/mirdump/src/main.rs" -nt "$MD" ]; then
  cargo +nightly build -q --offline --manifest-path "$V/mirdump/Cargo.toml" --target-dir "$V/.cache/mirdump"
fi
# the compiler is given a copy of the crate with two modules appended: extract/dv_macros.rs, which only invokes the
# public macros, so that what they expand to gets compiled, and extract/dv_std.rs, reference definitions of iterator methods
mkdir -p "$V/.cache"
exec 9>"$V/.cache/dump.lock"; flock 9
C=$V/.cache/copy
rm -rf "$V/.cache/copy"; mkdir -p "$C"
cp -a "$REPO/Cargo.toml" "$REPO/src" "$REPO/adextopa_macros" "$C/"; [ -f "$REPO/Cargo.lock" ] && cp -a "$REPO/Cargo.lock" "$C/"
cp "$V/extract/dv_macros.rs" "$V/extract/dv_std.rs" "$C/src/"; printf '\nmod dv_std;\nmod dv_macros;\n' >> "$C/src/lib.rs"
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib:$LD_LIBRARY_PATH
export MIRDUMP_CRATE=adextopa_core MIRDUMP_OUT=$OUT
export MIRDUMP_ALLOW="core::option::;core::result::;core::iter::;core::ops::;core::cmp::;core::mem::;core::convert::;core::clone::;core::default::;core::slice::iter::;<core::slice::iter::;<core::option::;<core::result::;<core::iter::;<core::ops::;<core::cmp::"
export MIRDUMP_OPAQUE="alloc::rc::Rc;core::cell::RefCell;core::cell::Ref;core::cell::RefMut;core::cell::Cell;alloc::vec::Vec;alloc::string::String;std::collections::hash::map::HashMap;regex::regex::string::Regex;alloc::boxed::Box"
export RUSTC_WORKSPACE_WRAPPER=$MD
export CARGO_INCREMENTAL=0 RUSTC_ICE=0
TD=${MIR_TARGET_DIR:-$V/.cache/target}
rm -f "$OUT"
touch_args=()
# the crate is recompiled every time (a dump must come from the current tree on every run)
go() {
  rm -rf "$TD"/debug/.fingerprint/adextopa* "$TD"/debug/build/adextopa* "$TD"/debug/incremental
  RUSTFLAGS="-Zmir-opt-level=0 -Cpanic=abort -Aunused -Awarnings" cargo +nightly check -q --offline --lib --manifest-path "$C/Cargo.toml" --target-dir "$TD"
}
# should the appended module not compile (a macro takes other arguments now), the crate is dumped without it
go || { cp -a "$REPO/src/lib.rs" "$C/src/lib.rs"; printf '\nmod dv_std;\n' >> "$C/src/lib.rs"; go; }
test -s "$OUT"

#!/bin/bash
# check.sh <property> quick|thorough     run one check (exit 0 held / 1 violation / 2 no answer)
# check.sh replay <file>                 re-run one recorded case on the current /repo tree
# check.sh build                         only build the machinery
cd /verif || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target/mc CARGO_INCREMENTAL=1
mkdir -p target/work
# cargo trusts modification times; content is what counts here, so a changed content hash forces a rebuild
hash=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name '*.toml' -o -name 'Cargo.lock' \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
export REPO_HASH=$hash
# the Rust backend is the same package with another feature; cargo links a package once, so a renamed copy
if [ "$(cat target/repo.hash 2>/dev/null)" != "$hash" ] || [ ! -e target/gen/ecc-rust/Cargo.toml ]; then
  rm -rf /verif/target/gen/ecc-rust; mkdir -p target/gen/ecc-rust
  cp -r /repo/bitcoin-cash-ecc/. target/gen/ecc-rust/
  sed -i -E 's#^name *= *"bitcoin-cash-ecc"#name = "bitcoin-cash-ecc-rust"#; s#path *= *"\.\./#path = "/repo/#' target/gen/ecc-rust/Cargo.toml
fi
if [ "$(cat target/repo.hash 2>/dev/null)" != "$hash" ]; then
  for p in bitcoin-cash bitcoin-cash-base bitcoin-cash-code bitcoin-cash-ecc bitcoin-cash-ecc-rust bitcoin-cash-script-macro bitcoin-cash-slp; do
    cargo clean --offline --release --manifest-path mc/Cargo.toml -p $p >/dev/null 2>&1
  done
fi
if ! cargo build --offline --release --manifest-path mc/Cargo.toml --message-format=json-render-diagnostics >target/work/build.$$.json 2>target/work/build.$$.log; then
  grep -E '^error' -A8 target/work/build.$$.log | head -60 >&2
  echo "check.sh: the machinery does not build against the current /repo tree" >&2
  exit 2
fi
rm -f target/work/build.$$.log
# where cargo put the libraries: the generated programs (C04, C21, C22) are compiled against the same ones
mv target/work/build.$$.json target/work/artifacts.json
echo "$hash" > target/repo.hash
case "$1" in
  build) exit 0 ;;
  replay) exec target/mc/release/mc replay "$2" ;;
  *) exec target/mc/release/mc run "$1" "${2:-quick}" ;;
esac

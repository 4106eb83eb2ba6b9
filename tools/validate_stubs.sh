#!/bin/bash
# Runs the repository's whole own test suite (integration, unit and doc tests, examples build) against the
# stand-ins in harness/stubs, in a scratch copy. Not part of any check: it validates the stand-ins.
set -e
D=$(mktemp -d /tmp/val.XXXXXX); trap 'rm -rf "$D"' EXIT
cp -a /repo/. "$D/r"; cd "$D/r"; rm -rf .git Cargo.lock target
python3 - <<'P'
s=open('Cargo.toml').read(); i=s.index('[patch.crates-io]'); st='/verif/harness/stubs/'
s=s[:i]+'[patch.crates-io]\n'+''.join(f'{n} = {{ path = "{st}{n}" }}\n' for n in ['imap-codec','imap-types','bounded-static','tokio-rustls','rustls-pemfile','rustls-native-certs','colored','argh'])
s=s.replace('rustls = { version = "0.23.9", optional = true }','rustls = { version = "0.23.9", optional = true, default-features=false, features=["ring","std","tls12"] }')
open('Cargo.toml','w').write(s)
P
RUSTFLAGS=-Awarnings cargo test --offline --workspace 2>&1 | grep -vE "^ +Compiling" | tail -120

#!/bin/bash
# twin.sh DIR: scratch copies of /repo and /verif under DIR whose checks run against DIR/repo (for trying changes out)
set -e
d=$1; mkdir -p "$d"
rm -rf "$d/repo" "$d/verif"
cp -a /repo "$d/repo"
mkdir "$d/verif"; cp -a /verif/check.sh /verif/engine /verif/checks /verif/harness /verif/MANIFEST.json /verif/properties.jsonl /verif/known_findings.jsonl "$d/verif/"
rm -rf "$d/verif/harness/target" "$d/verif/harness/Cargo.lock.orig"
sed -i "s|^REPO = .*|REPO = '$d/repo'|" "$d/verif/engine/build.py"
sed -i "s|path = \"/repo\"|path = \"$d/repo\"|" "$d/verif/harness/Cargo.toml"

#!/usr/bin/env python3
"""mkseed.py ID: completes /verif/seeded/ID (which has patch.diff, meta.json and src/main.rs) with the
files its demonstration needs, so that the folder works on its own."""
import os, shutil, subprocess, sys, tempfile
sid = sys.argv[1]
d = f'/verif/seeded/{sid}'
kit = '/verif/tools/seedkit'
cargo = open(f'{kit}/Cargo.toml.in').read()
matching = os.path.exists(f'{d}/matching')  # the demonstration also needs pact_matching
verifier = os.path.exists(f'{d}/verifier')
extra = ''
if matching or verifier: extra += 'pact_matching = { path = "@REPO@/rust/pact_matching", default-features = false, features = ["datetime", "xml", "form_urlencoded"] }\n'
if verifier: extra += 'pact_verifier = { path = "@REPO@/rust/pact_verifier", default-features = false, features = ["datetime", "xml"] }\ntokio = { version = "1", features = ["full", "test-util"] }\nreqwest = "0.12"\nmaplit = "1"\nasync-trait = "0.1"\n'
if extra:
  cargo = cargo.replace('[patch.crates-io]', extra + '[patch.crates-io]') + 'pact-plugin-driver = { path = "stubs/pact-plugin-driver" }\nmulter = { path = "stubs/multer" }\npact_models = { path = "@REPO@/rust/pact_models" }\n'
  if verifier: cargo += 'pact_matching = { path = "@REPO@/rust/pact_matching" }\n'
open(f'{d}/Cargo.toml.in', 'w').write(cargo)
shutil.copy(f'{kit}/demo.sh', f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh', 0o755)
if os.path.exists(f'{d}/stubs'): shutil.rmtree(f'{d}/stubs')
shutil.copytree('/verif/sim/stubs', f'{d}/stubs', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
with tempfile.TemporaryDirectory(dir='/tmp') as w:
  for x in ('stubs', 'src'): shutil.copytree(f'{d}/{x}', f'{w}/{x}')
  open(f'{w}/Cargo.toml', 'w').write(cargo.replace('@REPO@', '/repo'))
  shutil.copy('/verif/sim/Cargo.lock', f'{w}/Cargo.lock')
  subprocess.run(['cargo', 'generate-lockfile', '--offline', '-q'] if not os.path.exists(f'{w}/Cargo.lock') else ['cargo', 'tree', '--offline', '-q'], cwd=w, check=True, stdout=subprocess.DEVNULL)
  shutil.copy(f'{w}/Cargo.lock', f'{d}/Cargo.lock.in')

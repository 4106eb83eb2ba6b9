"""Copies the proxy's sources, with a way to call its main function, so that it is built over the stand-ins."""
import os
import re

SRC = "/repo/proxy/src"
HERE = os.path.dirname(os.path.abspath(__file__))
HEAD = "#[allow(unused_macros)] macro_rules! print { ($($t:tt)*) => { ::argh::sim::print(format_args!($($t)*)) } } "
HEAD += r'#[allow(unused_macros)] macro_rules! println { () => { ::argh::sim::print(format_args!("\n")) }; ($($t:tt)*) => { ::argh::sim::print(format_args!("{}\n", format_args!($($t)*))) } }' + "\n"
RUN = """
#[allow(clippy::all)]
pub fn run_program() { ::argh::sim::run(main) }
"""
DIRECT = """
pub mod direct { pub use crate::util::{load_certificate_chain_pem, load_leaf_key_pem}; }
"""


def redirect(text):
    """Sends what the program prints, and its request to end, to the simulation."""
    text = re.sub(r"\bstd::(print(?:ln)?!)", r"\1", text)
    text = re.sub(r"(?<![\w:])(?:::)?(?:std::)?(?:io::)?stdout\(\)", "::argh::sim::stdout()", text)
    text = re.sub(r"(?<![\w:])(?:::)?std::process::exit\b", "::argh::sim::exit", text)
    return re.sub(r"(?<![\w:])process::exit\(", "::argh::sim::exit(", text)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def with_head(text):
    lines = text.split("\n")
    i = 0
    # after inner attributes and comments, which come first
    while i < len(lines) and (not lines[i].strip() or lines[i].startswith(("//", "#!["))):
        i += 1
    return "\n".join(lines[:i]) + ("\n" if i else "") + HEAD + "\n".join(lines[i:])


def copy(dest, tail):
    want = set()
    for d, _, files in os.walk(SRC):
        for f in files:
            if not f.endswith(".rs"):
                continue
            rel = os.path.relpath(os.path.join(d, f), SRC)
            want.add(os.path.join(dest, rel))
            with open(os.path.join(d, f)) as fh:
                text = redirect(fh.read())
            put(os.path.join(dest, rel), with_head(text) + tail if rel == "main.rs" else text)
    for d, _, files in os.walk(dest):
        for f in files:
            if os.path.join(d, f) not in want:
                os.unlink(os.path.join(d, f))


copy(os.path.join(HERE, "..", "proxylib", "gen"), RUN)
copy(os.path.join(HERE, "..", "identities", "gen"), DIRECT)

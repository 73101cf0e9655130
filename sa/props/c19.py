import re
from rules import *

LEVEL = "other"
TECH = "effect analysis of resolved calls over MIR"
EXPLAIN = ("Effect analysis. Every call, and every function mentioned as a value, in every function of the library and "
           "the binary (all monomorphic instances reachable plus all non-generic ones, from type-checked MIR) is matched by "
           "its resolved path against the std (and libc) operations that create, change, rename or delete a file, start a "
           "program, open a connection or change process-wide state; foreign functions and inline assembly are rejected. "
           "Holds for every input because the absence of the call sites is independent of the input.")
ASSUME = ["third-party crates used (clap, glob, pest, regex, chrono, two-timer, colored, terminal_size, num) do not write files",
          "the colour support of `colored` only touches process-local state"]

DENY = [
    (r"std::fs::(write|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|rename|copy|hard_link|soft_link|set_permissions|set_times|set_times_nofollow|chown)$", "changes the file system"),
    (r"std::fs::File::(create|create_new|create_buffered|set_len|set_permissions|set_times|set_modified)$", "opens a file for writing or changes it"),
    (r"std::fs::OpenOptions::(write|append|create|create_new|truncate|custom_flags)$", "opens a file with chosen rights"),
    (r"std::fs::DirBuilder::", "creates directories"),
    (r"std::os::(unix|linux|wasi|windows)::(fs|net|process)::(?!.*Metadata)", "uses operating system specific operations"),
    (r"std::process::(Command|Child)", "starts a program"),
    (r"std::net::", "uses the network"),
    (r"std::env::(set_current_dir)$", "changes the process environment"),
    (r"^libc::|^nix::|^winapi::|^rustix::", "calls the operating system directly"),
    (r"<std::fs::File as std::io::Write>::", "writes to a file"),
    (r"<&std::fs::File as std::io::Write>::", "writes to a file"),
    (r"core::arch::|std::arch::asm", "inline assembly"),
    (r"tempfile::|assert_cmd::", "creates files or starts programs"),
]
DENY = [(re.compile(a), b) for a, b in DENY]
READ = re.compile(r"std::fs::(read_to_string|read|read_dir|canonicalize|metadata|symlink_metadata|read_link|exists|File::open)|std::path::Path::(exists|is_file|is_dir|canonicalize|metadata|read_dir)|glob::glob")


def verdict(n):
    for r, why in DENY:
        if r.search(n):
            return why
    return None


def run(ctx):
    # the patterns themselves must match the operations they stand for
    for n in ("std::fs::write", "std::fs::File::create", "std::process::Command::new", "std::net::TcpStream::connect",
              "std::fs::OpenOptions::append", "std::fs::rename", "<std::fs::File as std::io::Write>::write_all"):
        assert verdict(n), n
    reads = 0
    for fn in ctx.p.local_fns():
        ctx.count("functions")
        hit = False
        for n, span in mentioned(ctx.p, fn):
            ctx.count("call sites and function values")
            why = verdict(n)
            if why:
                hit = True
                ctx.bad("%s calls %s" % (fn.defn, n), where(fn, span), "%s: %s" % (n, why))
            elif READ.search(n):
                reads += 1
                ctx.samples.append("read-only: %s in %s" % (n, fn.defn))
        for t in fn.blocks:
            if t["t"]["t"] == "asm":
                hit = True
                ctx.bad("%s inline asm" % fn.defn, where(fn), "inline assembly")
        if not hit:
            ctx.ok("no file-changing, process or network operation", where(fn))
    ctx.count("read-only file operations", reads)

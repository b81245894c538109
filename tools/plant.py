#!/usr/bin/env python3
"""Confirms a planted change in a scratch copy of /repo and stores it in seeded/ID
(used from python: plant(id, property, [(file, old, new)...], demo C source, needs, what))."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELP = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <ecoli.h>
#include <ecoli_yaml.h>
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); exit(1); } while (0)
static long d_at = -1, d_n, d_live;
static int d_hit(void) { if (d_at < 0) return 0; return d_n++ == d_at; }
static void *d_malloc(size_t n, const char *f, unsigned l) { if (d_hit()) { errno = ENOMEM; return NULL; } d_live++; return malloc(n); }
static void d_free(void *p, const char *f, unsigned l) { if (p) d_live--; free(p); }
static void *d_realloc(void *p, size_t n, const char *f, unsigned l) { if (d_hit()) { errno = ENOMEM; return NULL; } if (!p) d_live++; return realloc(p, n); }
static int d_log(int t, enum ec_log_level lv, void *o, const char *s) { return 0; }
static void d_arm(long k) { d_at = k; d_n = 0; }
static int d_disarm(void) { int h = d_at >= 0 && d_n > d_at; d_at = -1; return h; }
static void d_setup(void) { if (ec_malloc_register(d_malloc, d_free, d_realloc) < 0) exit(3); ec_log_fct_register(d_log, NULL); if (ec_init() < 0) exit(3); }
static void run(void);
int main(void) { d_setup(); run(); printf("ok\n"); return 0; }
'''
SH = r'''#!/bin/bash
# cwd: /repo, after the build. Compiles the demonstration against the sources.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -w -g -O1 -fsanitize=address -fno-omit-frame-pointer -std=gnu99 -D_GNU_SOURCE -Iinclude -Isrc -o "$T/demo" "$D/demo.c" src/*.c -lyaml -ledit || exit 9
cd "$T"
export ASAN_OPTIONS=detect_leaks=0
timeout -s KILL 60 "$T/demo"
'''


def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(bid, prop, edits, demo, needs, what):
    b = dict(edits=edits, demo=demo, needs=needs, what=what)
    d = os.path.join(V, "seeded", bid)
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    R = os.path.join(w, "repo")
    try:
        sh(["cp", "-a", os.environ.get("REPO", "/repo"), R])
        shutil.rmtree(os.path.join(R, "_build"), ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.c"), "w").write(HELP + b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        env = None
        p0 = sh(["bash", os.path.join(d, "demo.sh")], cwd=R, env=env)
        for f, old, new in b["edits"]:
            q = os.path.join(R, f)
            s = open(q).read()
            if s.count(old) != 1:
                print("EDIT does not match exactly once:", f, s.count(old)); shutil.rmtree(d); return 1
            open(q, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", R, "diff"]).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        p1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=R, env=env)
        # tests, in /repo itself is not touched: build the copy with meson
        t = sh(["bash", "-c", "CC=gcc meson setup _b --buildtype=debugoptimized --auto-features=enabled --wrap-mode=nodownload -Dwerror=false -Db_sanitize=address >/dev/null 2>&1 && ninja -C _b 2>&1 | tail -3 && meson test -C _b 2>&1 | tail -15"], cwd=R)
        okt = "Fail:               0" in t.stdout and "Timeout:            0" in t.stdout
        json.dump(dict(property=prop, needs=b["needs"], what_it_breaks=b["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        good = p0.returncode == 0 and p1.returncode != 0 and okt
        print(bid, "OK" if good else "BAD", "demo clean rc", p0.returncode, "patched rc", p1.returncode, "tests", okt)
        if not good:
            print(p0.stdout[-600:]); print("--"); print(p1.stdout[-800:]); print(t.stdout[-800:])
            shutil.rmtree(d)
            return 1
        print("  patched:", [l for l in p1.stdout.splitlines() if "FAIL" in l or "ERROR" in l][:2])
        return 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


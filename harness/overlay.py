"""overlay.py HARNESS OUTDIR: writes OUTDIR/overlay.json for go build -overlay.

Adds the export files of HARNESS/overlay to packages of /repo, and lays copies
of the three main packages over themselves with another package clause, so that
the harness can import them. /repo itself is never written.
"""
import glob, json, os, re, subprocess, sys

H, out = sys.argv[1], sys.argv[2]
repo = "/repo"
os.makedirs(out, exist_ok=True)
rep = {}
for name, d in [("comm", "comm"), ("playback", "playback"), ("schedule", "schedule"), ("ssh", "ssh"),
                ("timing", "timing")]:
    src = f"{H}/overlay/{name}.go"
    if os.path.exists(src):
        rep[f"{repo}/{d}/zz_verif_export.go"] = src
for name in ("infoer", "player", "server"):
    d = f"{repo}/cmd/music-sync-{name}"
    for f in sorted(glob.glob(d + "/*.go")):
        if f.endswith("_test.go"):
            rep[f] = ""
            continue
        s = open(f, encoding="utf-8").read()
        s2 = re.sub(r"(?m)^package main\b", f"package {name}main", s, count=1)
        dst = f"{out}/{name}_{os.path.basename(f)}"
        open(dst, "w", encoding="utf-8").write(s2)
        rep[f] = dst
    rep[f"{d}/zz_verif_export.go"] = f"{H}/overlay/{name}.go"
json.dump({"Replace": rep}, open(f"{out}/overlay.json", "w"), indent=1)

# Virtual time: the os/signal receiver sits in a blocking runtime call for
# ever, which keeps the faketime scheduler from advancing the clock. In the
# faketime build it is parked instead (no signal is ever sent to a worker).
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
sig = f"{goroot}/src/os/signal/signal_unix.go"
s = open(sig).read()
s2 = re.sub(r"func loop\(\) \{.*?\n\}\n", "func loop() {\n\tselect {}\n}\n", s, count=1, flags=re.S)
assert s2 != s
dst = f"{out}/signal_unix.go"
open(dst, "w").write(s2)
rep[sig] = dst

# Loopback TCP is invisible to the faketime scheduler while the kernel has it
# in flight, so the clock could run ahead of a message. net gets two hooks
# through which the harness puts in-memory connections in its place.
dial = f"{goroot}/src/net/dial.go"
s = open(dial).read()
s2 = re.sub(r"(?m)^(func \(d \*Dialer\) DialContext\(.*\{)$",
            "var VerifDial func(network, address string) (c Conn, handled bool, err error)\n"
            "var VerifListen func(network, address string) (l Listener, handled bool, err error)\n\n"
            "\\1\n\tif VerifDial != nil {\n\t\tif c, ok, err := VerifDial(network, address); ok {\n\t\t\treturn c, err\n\t\t}\n\t}\n",
            s, count=1)
assert s2 != s
s3 = re.sub(r"(?m)^(func \(lc \*ListenConfig\) Listen\(.*\{)$",
            "\\1\n\tif VerifListen != nil {\n\t\tif l, ok, err := VerifListen(network, address); ok {\n\t\t\treturn l, err\n\t\t}\n\t}\n",
            s2, count=1)
assert s3 != s2
dst = f"{out}/net_dial.go"
open(dst, "w").write(s3)
rep[dial] = dst
json.dump({"Replace": rep}, open(f"{out}/overlay-fake.json", "w"), indent=1)

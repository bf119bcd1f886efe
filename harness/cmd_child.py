"""A command: writes what it is told to its streams and ends as told."""
import json, os, signal, sys, time
i, log, spec = int(sys.argv[1]), sys.argv[2], json.loads(open(sys.argv[3]).read())
with open(log, "a") as f:
    f.write("%d\n" % i)


def put(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


for k, w in enumerate(spec["w"], 1):
    fill = spec["fill"][k - 1]
    tag = b"<<%d.%d.%d>>" % (i, w["s"], k)
    if w["p"]:
        body = (fill * w["n"]).encode()
        if fill == "~":     # lines
            body = b"~" * w["n"]
    else:
        body = bytes([0xff, 0xfe, 0x80, 0x00, 0xc3, 0x28, 0x07]) * (w["n"] // 7 + 1)
    data = tag + body
    step = spec["step"]
    if step:
        for o in range(0, len(data), step):
            put(w["s"], data[o:o + step])
    else:
        put(w["s"], data)
    if spec["pause"]:
        time.sleep(spec["pause"])
if spec["close"]:
    os.close(1)
    os.close(2)
if spec["sig"]:
    if spec["sig"] not in (9, 19):
        signal.signal(spec["sig"], signal.SIG_DFL)
    os.kill(os.getpid(), spec["sig"])
    time.sleep(10)
os._exit(spec["status"])

#!/usr/bin/env python3
"""Makes one private copy of libnode.so (and of boost.log, which has process-wide singletons) per simulated process."""
import os, re, struct, subprocess, sys

src, out, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
os.makedirs(out, exist_ok=True)


def ununique(data):
    """STB_GNU_UNIQUE -> STB_GLOBAL in .dynsym, so that copies do not share these objects."""
    data = bytearray(data)
    shoff, = struct.unpack_from("<Q", data, 0x28)
    shentsize, shnum = struct.unpack_from("<HH", data, 0x3A)
    for i in range(shnum):
        o = shoff + i * shentsize
        typ, = struct.unpack_from("<I", data, o + 4)
        off, size = struct.unpack_from("<QQ", data, o + 0x18)
        ent, = struct.unpack_from("<Q", data, o + 0x38)
        if typ == 11:  # SHT_DYNSYM
            for s in range(off, off + size, ent):
                info = data[s + 4]
                if info >> 4 == 10:
                    data[s + 4] = (1 << 4) | (info & 15)
    return bytes(data)


ldd = subprocess.run(["ldd", src], capture_output=True, text=True, check=True).stdout
logs = {}
for m in re.finditer(r"(libboost_log\S*) => (\S+)", ldd):
    logs[m.group(1)] = open(os.path.realpath(m.group(2)), "rb").read()
subprocess.run(["strip", "--strip-unneeded", "-o", out + "/base.so", src], check=True)
node = open(out + "/base.so", "rb").read()
os.remove(out + "/base.so")
if len(logs) == 0:
    sys.exit("libnode.so does not link boost.log")
for k in range(n):
    tag = b"libboost_l%02d" % k
    ren = lambda d: ununique(d.replace(b"libboost_log.so", tag + b".so").replace(b"libboost_log_setup.so", tag + b"_setup.so"))
    for name, data in logs.items():
        with open(os.path.join(out, name.replace("libboost_log", tag.decode())), "wb") as f:
            f.write(ren(data))
    with open(os.path.join(out, "node%02d.so" % k), "wb") as f:
        f.write(ren(node))
open(out + "/stamp", "w").write("ok\n")

#!/usr/bin/env python3
# Turns the keys into C strings: mkkeys.py DIR OUT
import sys
d, out = sys.argv[1:3]
def c(fn):
    return '"' + open(fn).read().replace("\n", "\\n") + '"'
with open(out, "w") as f:
    f.write("static const char* const private_keys[] = {\n" + "".join("\t%s,\n" % c("%s/k%d.pem" % (d, i)) for i in range(4)) + "};\n")
    f.write("static const char* const public_keys[] = {\n" + "".join("\t%s,\n" % c("%s/k%d.pub" % (d, i)) for i in range(4)) + "};\n")

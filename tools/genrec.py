#!/usr/bin/env python3
"""Writes harness/zoo/recursive.go: groups of types which contain or embed each other."""
import random, os
r = random.Random(20)
out = ["// Code generated by tools/genrec.py; DO NOT EDIT.\n\npackage zoo\n"]
names = []
for g in range(24):
    n = r.randint(2, 5)
    ns = []
    for i in range(n):
        b = "R%02d%s" % (g, "ABCDE"[i])
        if r.random() < .15:
            b = b.lower()
        ns.append(b)
    for i, t in enumerate(ns):
        k = r.random()
        o = ns[r.randrange(n)]
        if k < .07:
            out.append("type %s []*%s\n" % (t, o))
        elif k < .14:
            out.append("type %s map[string]*%s\n" % (t, o))
        elif k < .18:
            out.append("type %s [1]*%s\n" % (t, o))
        elif k < .21:
            out.append("type %s struct{ P *%s }\n" % (t, o))
        else:
            f, emb = [], set()
            for j in range(r.randint(1, 5)):
                o = r.choice(ns)
                tag = r.choice(["", "", "", " `json:\",omitempty\"`", " `json:\"x%d\"`" % j, " `json:\"F0,omitempty\"`" if j else ""])
                ts = ["*" + o, "[]" + o, "[]*" + o, "map[string]" + o, "map[MTString]*" + o, "map[int]" + o, "[2]*" + o, "[1]*" + o, "**" + o,
                      "struct{ X *%s; Y []%s }" % (o, o), "interface{}", "int", "string", "[]byte", "PMJ", "*MT"]
                if r.random() < .3 and o not in emb and not o[0].islower():
                    emb.add(o)
                    if o in ns[:i] and r.random() < .5 and "struct" in [l for l in out if l.startswith("type %s " % o)][0]:
                        f.append("\t" + o + (" `json:\"e%d\"`" % j if r.random() < .2 else ""))
                        continue
                    if "struct" in ([l for l in out if l.startswith("type %s " % o)] or ["struct"])[0]:
                        f.append("\t*" + o + (" `json:\"e%d\"`" % j if r.random() < .2 else ""))
                        continue
                if o in ns[:i]:
                    ts += [o, o, "[2]" + o, "[1]" + o, "struct{ Z %s }" % o]
                f.append("\tF%d %s%s" % (j, r.choice(ts), tag))
            f.append("\tN%d int" % i)
            out.append("type %s struct {\n%s\n}\n" % (t, "\n".join(f)))
        if k > .21 and r.random() < .06:
            out.append('func (x *%s) MarshalText() ([]byte, error) { return []byte("%s"), nil }\nfunc (x *%s) UnmarshalText([]byte) error { return nil }\n' % (t, t, t))
    names += ns
isarr = lambda t: any(l.startswith("type %s [1]" % t) for l in out)
out.append("// Recursive returns a value of each.\nfunc Recursive() []interface{} {\n\treturn []interface{}{\n%s\n\t}\n}\n" % "\n".join("\t\t*new(%s)," % t for t in names))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/zoo/recursive.go")
open(p, "w").write("\n".join(out))
os.system("gofmt -w " + p)

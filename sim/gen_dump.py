"""Writes the C function that dumps the parameters a callback sees; members this tree does not have are left out."""
import re, sys
sys.path.insert(0, sys.argv[2])
sys.dont_write_bytecode = True
import params as P
h = re.sub(r"/\*.*?\*/", "", open(sys.argv[1]).read(), flags=re.S)
h = re.sub(r"//[^\n]*", "", h)


def members(struct):
    body = None
    for m in re.finditer(r"typedef\s+struct\s*\w*\s*\{(.*?)\}\s*(\w+)\s*;", h, flags=re.S):
        if m.group(2) == struct:
            body = m.group(1)
    for m in re.finditer(r"(?<!typedef )\bstruct\s+(\w+)\s*\{(.*?)\}\s*;", h, flags=re.S):
        if m.group(1) == struct and body is None:
            body = m.group(2)
    return set(re.findall(r"\b(\w+)\s*(?:\[[^\]]*\])*\s*(?=[,;])", body or ""))


mo, ma, sc = members("params"), members("mat_prop"), members("scale")
print('#include "mdoodz.h"\n#include <stdio.h>\nvoid sim_param_dump(MdoodzInput *in, FILE *f) {')
for n in P.SCALE:
    if n in sc:
        print('  fprintf(f, "scale %s %%.17g\\n", (double)in->scaling.%s);' % (n, n))
for n in P.G_INT + list(P.G_DOU):
    if n in mo:
        print('  fprintf(f, "model %s %%.17g\\n", (double)in->model.%s);' % (n, n))
print('  fprintf(f, "model Nb_phases %d\\n", in->model.Nb_phases);\n  for (int k = 0; k < in->model.Nb_phases; k++) {')
for n in P.M_INT + list(P.M_DOU):
    m = P.M_MEMBER.get(n, n)
    if m in ma:
        print('    fprintf(f, "phase%%d %s %%.17g\\n", k, (double)in->materials.%s[k]);' % (n, m))
print("  }\n}")

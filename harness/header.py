"""Parse capypdf.h.in into call signatures, so the driver can call any public
function generically."""
import re
def parse(path):
    src = open(path).read()
    src = re.sub(r'//.*', '', src)
    src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
    src = re.sub(r'^\s*#.*(?:\\\n.*)*$', '', src, flags=re.M)
    idstructs = set(re.findall(r'typedef struct \{\s*int32_t id;\s*\} (\w+);', src))
    enums = {}
    for body, name in re.findall(r'typedef enum \{(.*?)\} (\w+);', src, flags=re.S):
        vals = {}; nxt = 0
        for item in body.split(','):
            item = item.strip()
            if not item: continue
            if '=' in item:
                k, v = item.split('=', 1); nxt = eval(v)
                k = k.strip()
            else: k = item
            vals[k] = nxt; nxt += 1
        enums[name] = vals
    funcs = {}
    for m in re.finditer(r'CAPYPDF_PUBLIC\s+(.*?);', src, flags=re.S):
        decl = ' '.join(m.group(1).split())
        decl = re.sub(r'CAPYPDF_NONNULL_ARGS_AT\([^)]*\)|CAPYPDF_\w+', '', decl)
        mm = re.match(r'(.*?)\b(capy_\w+)\s*\((.*)\)\s*$', decl.strip())
        if not mm: raise ValueError(decl)
        ret, name, args = mm.groups()
        al = []
        for a in args.split(','):
            a = a.strip()
            if a in ('', 'void'): continue
            a = a.replace('*', ' * ')
            toks = a.split()
            stars = toks.count('*'); words = [t for t in toks if t != '*' and t != 'const']
            base = words[0]
            nm = words[1] if len(words) > 1 else ''
            al.append((base, stars, nm))
        funcs[name] = (ret.strip(), al)
    return funcs, enums, idstructs
if __name__ == '__main__':
    import sys
    f, e, i = parse('/repo/include/capypdf.h.in')
    for n, (r, a) in f.items():
        print(n.replace('capy_',''), '(', ', '.join(b.replace('CapyPDF_','')+'*'*s+' '+nm for b, s, nm in a), ')', '' if r=='CapyPDF_EC' else '->'+r)
